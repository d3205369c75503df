pub mod reference;
pub mod runner;
pub mod sim;
pub mod sys;
pub use sim::{violation, Outcome, Sim, Violation};
