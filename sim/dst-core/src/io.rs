//! Seams for readers and writers: chunking, interruptions, hard errors, full devices
use simcore::Sim;
use std::io::{self, BufRead, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Trouble {
    None,
    /// short transfers and interruptions only
    Soft,
    /// additionally a hard error once this many bytes went through
    Hard(usize),
}

/// A `BufRead` that hands out its data in pieces chosen by the simulation
pub struct FaultyReader {
    sim: *mut Sim,
    data: Vec<u8>,
    pos: usize,
    /// end of the piece currently shown
    vis: usize,
    trouble: Trouble,
    pub hit: std::rc::Rc<std::cell::Cell<bool>>,
}

impl FaultyReader {
    pub fn new(sim: &mut Sim, data: &[u8], trouble: Trouble) -> Self {
        FaultyReader {
            sim,
            data: data.to_vec(),
            pos: 0,
            vis: 0,
            trouble,
            hit: std::rc::Rc::default(),
        }
    }
    fn sim(&self) -> &mut Sim {
        // one thread, and no other use of the reference while the library runs
        unsafe { &mut *self.sim }
    }
}

impl BufRead for FaultyReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos < self.vis {
            return Ok(&self.data[self.pos..self.vis]);
        }
        let sim = self.sim();
        if self.trouble != Trouble::None && sim.chance(1, 8) {
            sim.fault("read interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Trouble::Hard(k) = self.trouble {
            if self.pos >= k {
                self.hit.set(true);
                sim.fault("read error");
                return Err(io::Error::other("simulated read error"));
            }
            end = end.min(k);
        }
        let rest = end - self.pos;
        let n = if self.trouble == Trouble::None || rest == 0 {
            rest
        } else if sim.chance(1, 3) {
            rest
        } else {
            let n = sim.range(1, rest.min(9));
            if n < rest {
                sim.fault("short read");
            }
            n
        };
        self.vis = self.pos + n;
        Ok(&self.data[self.pos..self.vis])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

impl Read for FaultyReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

#[derive(Default)]
pub struct Sink {
    pub data: Vec<u8>,
    pub flushed: usize,
    pub hard_hit: bool,
}

/// A writer that accepts what the simulation lets through
pub struct FaultyWriter {
    sim: *mut Sim,
    pub sink: std::rc::Rc<std::cell::RefCell<Sink>>,
    trouble: Trouble,
    full: bool,
    once: bool,
}

impl FaultyWriter {
    pub fn new(sim: &mut Sim, trouble: Trouble) -> Self {
        // a full device may accept nothing (zero) or report an error; the error may go away again
        let full = sim.chance(1, 4);
        let once = sim.chance(1, 3);
        FaultyWriter { sim, sink: std::rc::Rc::default(), trouble, full, once }
    }
}

impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let sim = unsafe { &mut *self.sim };
        if buf.is_empty() {
            return Ok(0);
        }
        if self.trouble != Trouble::None && sim.chance(1, 8) {
            sim.fault("write interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut s = self.sink.borrow_mut();
        let mut n = buf.len();
        if let Trouble::Hard(k) = self.trouble {
            if s.data.len() >= k && !(self.once && s.hard_hit) {
                s.hard_hit = true;
                sim.fault(if self.full { "write accepts nothing" } else { "write error" });
                return if self.full { Ok(0) } else { Err(io::Error::other("simulated write error")) };
            }
            if s.data.len() < k {
                n = n.min(k - s.data.len());
            }
        }
        if self.trouble != Trouble::None && sim.chance(1, 3) {
            n = sim.range(1, n);
            if n < buf.len() {
                sim.fault("short write");
            }
        }
        s.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.sink.borrow_mut();
        s.flushed = s.data.len();
        Ok(())
    }
}
