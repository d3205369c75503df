From 424e4577384c168a69c9a6bf07026cc73cd3fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 001/108] fix: reap the solver process when calling an external
 solver fails

Returning early with an error left the solver process running and/or as
a zombie, and draining the remaining output looped forever on a
persistent read error.
---
 src/solvers/external.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/solvers/external.rs b/src/solvers/external.rs
index ef53711..91e1c54 100644
--- a/src/solvers/external.rs
+++ b/src/solvers/external.rs
@@ -1,7 +1,5 @@
 //! # Solver Interface for External Executables
 
-use std::io::BufRead;
-
 use crate::instances::fio;
 use crate::instances::fio::SolverOutput;
 use crate::instances::Cnf;
@@ -335,6 +333,19 @@ macro_rules! check_exit_code {
     };
 }
 
+/// A spawned solver process that is killed (if still running) and reaped when going out of scope
+///
+/// This ensures that returning early with an error neither leaves the solver running nor leaves a
+/// zombie process behind. For a process that has already been waited for, this is a no-op.
+struct ChildGuard(std::process::Child);
+
+impl Drop for ChildGuard {
+    fn drop(&mut self) {
+        let _ = self.0.kill();
+        let _ = self.0.wait();
+    }
+}
+
 fn call_external(config: SolverPre) -> anyhow::Result<SolverOutput> {
     // when writing to a temporary file, this needs to be explicitly closed at the end
     let mut temppath = None;
@@ -365,12 +376,12 @@ fn call_external(config: SolverPre) -> anyhow::Result<SolverOutput> {
                 OutputViaInt::File(path) => {
                     // pipe output into file and spawn
                     // NOTE: this currently does not support compression
-                    let mut child = cmd.stdout(std::fs::File::create(&path)?).spawn()?;
+                    let mut child = ChildGuard(cmd.stdout(std::fs::File::create(&path)?).spawn()?);
                     // write input to stdin
-                    let mut stdin = std::io::BufWriter::new(child.stdin.take().unwrap());
+                    let mut stdin = std::io::BufWriter::new(child.0.stdin.take().unwrap());
                     fio::dimacs::write_cnf_annotated(&mut stdin, &config.cnf, config.n_vars)?;
                     drop(stdin);
-                    let exit = child.wait()?;
+                    let exit = child.0.wait()?;
                     // parse output from file
                     let output = fio::parse_sat_solver_output(&mut std::io::BufReader::new(
                         std::fs::File::open(&path)?,
@@ -379,24 +390,24 @@ fn call_external(config: SolverPre) -> anyhow::Result<SolverOutput> {
                     return Ok(output);
                 }
                 OutputViaInt::Pipe => {
-                    let mut child = cmd.stdout(std::process::Stdio::piped()).spawn()?;
-                    let mut stdin = std::io::BufWriter::new(child.stdin.take().unwrap());
+                    let mut child = ChildGuard(cmd.stdout(std::process::Stdio::piped()).spawn()?);
+                    let mut stdin = std::io::BufWriter::new(child.0.stdin.take().unwrap());
                     // second thread for processing stdout to avoid blocking
-                    let mut stdout = std::io::BufReader::new(child.stdout.take().unwrap());
+                    let mut stdout = std::io::BufReader::new(child.0.stdout.take().unwrap());
                     let output_handle =
                         std::thread::spawn(move || -> anyhow::Result<fio::SolverOutput> {
                             let output = fio::parse_sat_solver_output(&mut stdout)?;
                             // the above function returns early on detecting UNSAT
                             // this processes the remaining output so that the pipe buffer does not
                             // get full and block the solver
-                            for _ in stdout.lines() {}
+                            std::io::copy(&mut stdout, &mut std::io::sink())?;
                             Ok(output)
                         });
                     // main thread writes input to stdin
                     fio::dimacs::write_cnf_annotated(&mut stdin, &config.cnf, config.n_vars)?;
                     // this signals to the solver that the input is fully written
                     drop(stdin);
-                    let exit = child.wait()?;
+                    let exit = child.0.wait()?;
                     let output = output_handle
                         .join()
                         .expect("could not join output parsing thread")?;
@@ -420,14 +431,14 @@ fn call_external(config: SolverPre) -> anyhow::Result<SolverOutput> {
             output
         }
         OutputViaInt::Pipe => {
-            let mut child = cmd.stdout(std::process::Stdio::piped()).spawn()?;
-            let mut stdout = std::io::BufReader::new(child.stdout.take().unwrap());
+            let mut child = ChildGuard(cmd.stdout(std::process::Stdio::piped()).spawn()?);
+            let mut stdout = std::io::BufReader::new(child.0.stdout.take().unwrap());
             let output = fio::parse_sat_solver_output(&mut stdout)?;
             // the above function returns early on detecting UNSAT
             // this processes the remaining output so that the pipe buffer does not
             // get full and block the solver
-            for _ in stdout.lines() {}
-            check_exit_code!(child.wait()?);
+            std::io::copy(&mut stdout, &mut std::io::sink())?;
+            check_exit_code!(child.0.wait()?);
             output
         }
     };
-- 
2.43.0


From af1e25c238b995915b756fb6c8dbcd368a7e2215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 002/108] fix: report errors finishing compressed files, read
 multi-stream compressed files

The end of a compressed stream was only written when dropping the
writer, so failing to do so went unnoticed. When reading, everything
after the first stream of a compressed file was silently ignored.
---
 src/instances/fio/mod.rs | 100 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 94 insertions(+), 6 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index da336f0..9ebc7c3 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -138,17 +138,17 @@ pub fn open_compressed_uncompressed_read<P: AsRef<std::path::Path>>(
     if let Some(ext) = path.extension() {
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("bz2")) {
             return Ok(Box::new(std::io::BufReader::new(
-                bzip2::read::BzDecoder::new(raw_reader),
+                bzip2::read::MultiBzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("gz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                flate2::read::GzDecoder::new(raw_reader),
+                flate2::read::MultiGzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("xz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                xz2::read::XzDecoder::new(raw_reader),
+                xz2::read::XzDecoder::new_multi_decoder(raw_reader),
             )));
         }
     }
@@ -158,6 +158,9 @@ pub fn open_compressed_uncompressed_read<P: AsRef<std::path::Path>>(
 /// Opens a writer for the file at Path.
 /// With feature `compression` supports bzip2 and gzip compression.
 ///
+/// For compressed files, [`std::io::Write::flush`] finishes the compressed stream, so that errors
+/// in doing so are reported. If the writer is dropped without flushing, such errors are lost.
+///
 /// # Errors
 ///
 /// If opening the file fails, returns [`std::io::Error`]
@@ -170,23 +173,108 @@ pub fn open_compressed_uncompressed_write<P: AsRef<std::path::Path>>(
     if let Some(ext) = path.extension() {
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("bz2")) {
             return Ok(Box::new(std::io::BufWriter::new(
-                bzip2::write::BzEncoder::new(raw_writer, bzip2::Compression::fast()),
+                compress::Writer::<bzip2::write::BzEncoder<_>>::new(raw_writer),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("gz")) {
             return Ok(Box::new(std::io::BufWriter::new(
-                flate2::write::GzEncoder::new(raw_writer, flate2::Compression::fast()),
+                compress::Writer::<flate2::write::GzEncoder<_>>::new(raw_writer),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("xz")) {
             return Ok(Box::new(std::io::BufWriter::new(
-                xz2::write::XzEncoder::new(raw_writer, 1),
+                compress::Writer::<xz2::write::XzEncoder<_>>::new(raw_writer),
             )));
         }
     }
     Ok(Box::new(std::io::BufWriter::new(raw_writer)))
 }
 
+/// Writing compressed files
+#[cfg(feature = "compression")]
+mod compress {
+    use std::fs::File;
+    use std::io;
+
+    /// Compressing writers of the different formats
+    pub trait Encoder: io::Write + Sized {
+        /// Starts a new compressed stream in the file
+        fn start(file: File) -> Self;
+        /// Finishes the compressed stream, can be retried after an error
+        fn try_finish(&mut self) -> io::Result<()>;
+        /// Gets back the file after finishing the stream
+        fn into_file(self) -> io::Result<File>;
+    }
+
+    macro_rules! encoder {
+        ($enc:path, $level:expr) => {
+            impl Encoder for $enc {
+                fn start(file: File) -> Self {
+                    Self::new(file, $level)
+                }
+
+                fn try_finish(&mut self) -> io::Result<()> {
+                    self.try_finish()
+                }
+
+                fn into_file(self) -> io::Result<File> {
+                    self.finish()
+                }
+            }
+        };
+    }
+
+    encoder!(bzip2::write::BzEncoder<File>, bzip2::Compression::fast());
+    encoder!(flate2::write::GzEncoder<File>, flate2::Compression::fast());
+    encoder!(xz2::write::XzEncoder<File>, 1);
+
+    enum State<E> {
+        /// Within a compressed stream
+        Active(E),
+        /// The compressed stream is complete
+        Finished(File),
+        /// Handing over between encoder and file failed
+        Failed,
+    }
+
+    /// A compressing writer that finishes the compressed stream on [`io::Write::flush`]
+    ///
+    /// Data written after flushing is written to a new stream, concatenated to the first
+    pub struct Writer<E>(State<E>);
+
+    impl<E: Encoder> Writer<E> {
+        pub fn new(file: File) -> Self {
+            Self(State::Active(E::start(file)))
+        }
+    }
+
+    impl<E: Encoder> io::Write for Writer<E> {
+        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+            if matches!(self.0, State::Finished(_)) {
+                if let State::Finished(file) = std::mem::replace(&mut self.0, State::Failed) {
+                    self.0 = State::Active(E::start(file));
+                }
+            }
+            match &mut self.0 {
+                State::Active(encoder) => encoder.write(buf),
+                _ => Err(io::Error::other("compressed stream failed")),
+            }
+        }
+
+        fn flush(&mut self) -> io::Result<()> {
+            match &mut self.0 {
+                State::Active(encoder) => encoder.try_finish()?,
+                State::Finished(file) => return file.flush(),
+                State::Failed => return Err(io::Error::other("compressed stream failed")),
+            }
+            if let State::Active(encoder) = std::mem::replace(&mut self.0, State::Failed) {
+                self.0 = State::Finished(encoder.into_file()?);
+            }
+            self.flush()
+        }
+    }
+}
+
 /// Possible results from SAT solver output parsing
 #[derive(Debug, PartialEq, Eq)]
 pub enum SolverOutput {
-- 
2.43.0


From dd3389ea1b68fee241585f914cfe5680220bdeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 003/108] fix: bound of strict upper bound constraints in OPB
 parser

---
 src/instances/fio/opb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f67c324..77b12bb 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -388,7 +388,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
         |(sum, opt, b)| match opt {
             OpbOperator::LE => PbConstraint::new_ub(sum, b),
             OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b + 1),
+            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
             OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
             OpbOperator::EQ => PbConstraint::new_eq(sum, b),
         },
-- 
2.43.0


From 0e71146eba008e8cae10381d5dc94474cf59c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 004/108] fix: detection of conflicting assignments in v-lines

A repeated negative literal was reported as a conflict, while a negative
literal following the corresponding positive literal was accepted.
---
 src/types/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..faba1ee 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1041,10 +1041,7 @@ impl Assignment {
             }
 
             let literal = Lit::from_ipasir(number)?;
-            let val = self.lit_value(literal);
-            if val == TernaryVal::True && literal.is_neg()
-                || val == TernaryVal::False && literal.is_pos()
-            {
+            if self.lit_value(literal) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(literal.var()));
             }
@@ -1081,8 +1078,7 @@ impl Assignment {
                         1,
                     )
                 })?;
-            let val = self.lit_value(lit);
-            if val == TernaryVal::True && lit.is_neg() || val == TernaryVal::False && lit.is_pos() {
+            if self.lit_value(lit) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(lit.var()));
             }
-- 
2.43.0


From 95a94ce42a2f556b70cbdfb20d24a490e93d0794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 005/108] fix: header, comments, and missing flush when writing
 instances line by line

The CNF header was missing the format, comments did not end the line,
and the writer was not flushed, so that write errors went unnoticed.
---
 src/instances/fio/dimacs.rs | 15 +++++++++------
 src/instances/fio/opb.rs    |  4 ++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 0d61418..d201279 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -876,10 +876,11 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p {n_vars} {n_clauses}"),
-        CnfLine::Comment(c) => write!(writer, "c {c}"),
+        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
+        CnfLine::Comment(c) => writeln!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
-    })
+    })?;
+    writer.flush()
 }
 
 #[cfg(feature = "optimization")]
@@ -937,7 +938,7 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        WcnfLine::Comment(c) => write!(writer, "c {c}"),
+        WcnfLine::Comment(c) => writeln!(writer, "c {c}"),
         WcnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
@@ -946,7 +947,8 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
             write!(writer, "{w} ")?;
             write_clause(&mut writer, &cl)
         }
-    })
+    })?;
+    writer.flush()
 }
 
 #[cfg(feature = "multiopt")]
@@ -1034,7 +1036,8 @@ pub fn write_mcnf<W: std::io::Write, Iter: Iterator<Item = McnfLine>>(
             write!(writer, "o {} {} ", oidx + 1, w)?;
             write_clause(&mut writer, &cl)
         }
-    })
+    })?;
+    writer.flush()
 }
 
 fn write_clause<W, C>(writer: &mut W, clause: &C) -> Result<(), std::io::Error>
diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 77b12bb..7c455e2 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -472,7 +472,7 @@ where
             FileLine::Pb(pb) => write_pb(&mut writer, &pb, opts)?,
         }
     }
-    Ok(())
+    writer.flush()
 }
 
 /// Writes an OPB file from an iterator over [`FileLine`]s
@@ -496,7 +496,7 @@ where
             FileLine::Objective(obj) => write_objective(&mut writer, (obj, 0), opts)?,
         }
     }
-    Ok(())
+    writer.flush()
 }
 
 /// Writes a [`SatInstance`] to an OPB file
-- 
2.43.0


From eb98fb839a5fa74d24d50b6fe666b475a781bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 006/108] fix: offset when converting OPB maximization
 objectives

The constant of a maximization objective with negative coefficients was
not negated when converting it to a minimization objective.
---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..2064128 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -518,7 +518,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::opb::Data> for MultiOptInstance
                                 .into_iter()
                                 .map(|(coeff, lit)| (!lit, coeff))
                                 .collect();
-                            obj.increase_offset(offset - coeff_sum);
+                            obj.increase_offset(-offset - coeff_sum);
                             obj
                         }
                     };
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..ff98b6e 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1612,7 +1612,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                obj.increase_offset(offset - coeff_sum);
+                obj.increase_offset(-offset - coeff_sum);
                 obj
             }
         };
-- 
2.43.0


From 9c8baca6df9d74b86fc44b05d229ceeb7478c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 007/108] fix: sum up weights of repeated soft clauses when
 collecting lines into an instance

Collecting WcnfLine or McnfLine items kept only the weight of the last
occurrence of a soft clause, in contrast to the file parsers.
---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 2064128..be9128b 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -475,7 +475,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::dimacs::McnfLine> for MultiOptI
                     for l in &cl {
                         inst.constraints_mut().var_manager_mut().mark_used(l.var());
                     }
-                    inst.objective_mut(oidx).add_soft_clause(w, cl);
+                    inst.objective_mut(oidx).increase_soft_clause(w, cl);
                 }
             }
         }
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index ff98b6e..722b191 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1689,7 +1689,7 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
-                    inst.objective_mut().add_soft_clause(w, cl);
+                    inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
         }
-- 
2.43.0


From 2220f7664db961990e12825c3d5b19d8c71bd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 008/108] fix: accept signed zeros as OPB coefficients and
 bounds

---
 src/instances/fio/opb.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 7c455e2..0c79a73 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -8,8 +8,8 @@
 //!
 //! - [OPB](https://www.cril.univ-artois.fr/PB12/format.pdf)
 
-use winnow::ascii::dec_int;
 use winnow::ascii::digit0;
+use winnow::ascii::digit1;
 use winnow::ascii::line_ending;
 use winnow::ascii::space0;
 use winnow::ascii::space1;
@@ -351,7 +351,10 @@ fn operator(input: &mut &str) -> ModalResult<OpbOperator> {
 
 /// Parses an OPB weight
 fn coeff(input: &mut &str) -> ModalResult<isize> {
-    dec_int
+    // NOTE: not using `dec_int`, since that does not allow for a signed zero
+    (opt(one_of(['+', '-'])), digit1)
+        .take()
+        .try_map(str::parse)
         .context(StrContext::Label("coefficient"))
         .parse_next(input)
 }
-- 
2.43.0


From 638ba092264bb29d245f96d020fb424830f17924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 009/108] fix: retry interrupted writes when finishing
 compressed files

---
 src/instances/fio/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index 9ebc7c3..b54e6c6 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -263,7 +263,13 @@ mod compress {
 
         fn flush(&mut self) -> io::Result<()> {
             match &mut self.0 {
-                State::Active(encoder) => encoder.try_finish()?,
+                State::Active(encoder) => {
+                    while let Err(err) = encoder.try_finish() {
+                        if err.kind() != io::ErrorKind::Interrupted {
+                            return Err(err);
+                        }
+                    }
+                }
                 State::Finished(file) => return file.flush(),
                 State::Failed => return Err(io::Error::other("compressed stream failed")),
             }
-- 
2.43.0


From 1d2188fe8215fad5c13e84aa19ac661f39ac9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 010/108] fix: solver value lines with a single literal, value
 lines starting with a non-ASCII character

---
 src/instances/fio/mod.rs | 30 +++++++++++++++++++++++++-----
 src/types/mod.rs         |  6 ++++--
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index b54e6c6..c6913bc 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -339,7 +339,7 @@ pub fn parse_sat_solver_output<R: BufRead>(
     reader: R,
 ) -> Result<SolverOutput, SatSolverOutputError> {
     let mut is_sat = false;
-    let mut solution: Option<crate::types::Assignment> = None;
+    let mut value_lines: Option<String> = None;
 
     for line in reader.lines() {
         let line = &line?;
@@ -361,13 +361,14 @@ pub fn parse_sat_solver_output<R: BufRead>(
 
         // Value line
         if line.starts_with("v ") {
-            match &mut solution {
-                Some(assign) => assign.extend_from_vline(line)?,
-                _ => solution = Some(crate::types::Assignment::from_vline(line)?),
-            }
+            let value_lines = value_lines.get_or_insert_default();
+            value_lines.push_str(line);
+            value_lines.push('\n');
         }
     }
 
+    let solution = value_lines.as_deref().map(parse_value_lines).transpose()?;
+
     // There is no solution line so we can not trust the output
     if !is_sat {
         return Err(SatSolverOutputError::NoSLine);
@@ -380,6 +381,25 @@ pub fn parse_sat_solver_output<R: BufRead>(
     Err(SatSolverOutputError::NoVLine)
 }
 
+/// Parses all value lines of a solver
+///
+/// The format of the lines cannot be determined line by line: a SAT Competition line with a single
+/// literal, e.g., `v 10`, looks like a MaxSAT Evaluation line.
+fn parse_value_lines(lines: &str) -> Result<crate::types::Assignment, crate::types::InvalidVLine> {
+    let mut assign = crate::types::Assignment::default();
+    let is_binary = |line: &str| line[1..].trim().chars().all(|c| c == '0' || c == '1');
+    // In the SAT Competition format the last value is always a 0
+    let terminated = lines.split_whitespace().next_back() == Some("0");
+    if lines.lines().all(is_binary) && !terminated {
+        for line in lines.lines() {
+            assign.extend_from_vline(line)?;
+        }
+    } else {
+        assign.extend_from_vline(lines)?;
+    }
+    Ok(assign)
+}
+
 #[cfg(test)]
 mod tests {
     use crate::types::TernaryVal;
diff --git a/src/types/mod.rs b/src/types/mod.rs
index faba1ee..10301f1 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -986,8 +986,10 @@ impl Assignment {
     ///
     /// Can return various parsing errors
     pub fn extend_from_vline(&mut self, lines: &str) -> Result<(), InvalidVLine> {
-        if lines.is_empty() {
-            return Err(InvalidVLine::EmptyLine);
+        match lines.chars().next() {
+            Some('v') => (),
+            Some(tag) => return Err(InvalidVLine::InvalidTag(tag)),
+            None => return Err(InvalidVLine::EmptyLine),
         }
         // determine line format
         let format = if lines.contains('x') {
-- 
2.43.0


From f72d5e4b21bfd74a896a8946615c06a71b9b86f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 011/108] fix: empty bound ranges in simulated inverted
 encodings

---
 src/encodings/card/simulators.rs | 3 +++
 src/encodings/pb/simulators.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..3a06363 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,6 +53,9 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.n_lits() - (range.end - 1);
         let max = if self.n_lits() >= range.start {
             self.n_lits() - range.start + 1
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..449d1b4 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,6 +53,9 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.weight_sum() - (range.end - 1);
         let max = if self.weight_sum() >= range.start {
             self.weight_sum() - range.start + 1
-- 
2.43.0


From 7af0dad518c445651ad8c3e30ae6e677fd0093ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 012/108] fix: include bound zero when encoding both bounds
 without a lower limit

---
 src/encodings/card/mod.rs | 2 +-
 src/encodings/pb/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..bf6a152 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -488,7 +488,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..e1bd156 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -536,7 +536,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
-- 
2.43.0


From 88a3697d74d202d8ab2b4f7363cf4d40d0950909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 013/108] fix: lower bounds of the binary adder after the same
 output was used for an upper bound

---
 src/encodings/pb/adder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..72dd677 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -365,7 +365,7 @@ impl super::BoundLowerIncremental for BinaryAdder {
             }
             for val in range {
                 let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_if {
+                    if output.enc_only_if {
                         continue;
                     }
                     output.enc_only_if = true;
-- 
2.43.0


From aadabbad1e9d4f6cda5328275092333ee971ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 014/108] fix: do not enforce bounds of the binary adder that
 ignore inputs added after encoding

---
 src/encodings/pb/adder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 72dd677..d4c5209 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -193,6 +193,10 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            // inputs have been added since the last encoding
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -309,6 +313,10 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            // inputs have been added since the last encoding
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
-- 
2.43.0


From 164fb23a1ee445fcfc2f8db25b89b808eb84a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 015/108] fix: re-encode comparators when encoding the binary
 adder from scratch

---
 src/encodings/pb/adder.rs | 56 +++++++++++++++------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index d4c5209..d84efa0 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -148,6 +148,25 @@ impl BinaryAdder {
             comparator: Vec::new(),
         });
     }
+
+    /// Resets the status of what has already been encoded in the given directions, so that the
+    /// next call to encode will produce a full encoding again
+    fn reset_encoded(&mut self, enc_if: bool, enc_only_if: bool) {
+        let reset = |out: &mut Option<Output>| {
+            if let Some(out) = out {
+                out.enc_if &= !enc_if;
+                out.enc_only_if &= !enc_only_if;
+            }
+        };
+        for node in &mut self.nodes {
+            let (Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. }) = node;
+            reset(sum);
+            reset(carry);
+        }
+        if let Some(structure) = &mut self.structure {
+            structure.comparator.iter_mut().for_each(reset);
+        }
+    }
 }
 
 impl super::Encode for BinaryAdder {
@@ -169,23 +188,7 @@ impl super::BoundUpper for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_encoded(true, false);
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -286,23 +289,7 @@ impl super::BoundLower for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_encoded(false, true);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -408,6 +395,7 @@ impl super::BoundBoth for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.reset_encoded(true, true);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
-- 
2.43.0


From 5c1f98f6bad8a029859ae232dc009d9807a1a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 016/108] fix: re-encode everything when encoding both bounds
 of a totalizer from scratch

---
 src/encodings/card/totalizer/mod.rs        | 1 +
 src/encodings/card/totalizer/referenced.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 80eb6ad..b3ce62b 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -358,6 +358,7 @@ impl super::BoundBoth for Totalizer {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8a1f1d3..dd4508b 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -385,6 +385,7 @@ impl crate::encodings::card::BoundBoth for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
@@ -402,6 +403,9 @@ impl crate::encodings::card::BoundBoth for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
+        self.db
+            .borrow_mut()
+            .reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change(range.clone(), collector, var_manager)?;
         self.encode_lb_change(range, collector, var_manager)?;
         Ok(())
-- 
2.43.0


From 1235054c2a6b809a9c1d124faf0076ebf0079660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 017/108] fix: sum up weights of repeated literals when
 collecting into pseudo-Boolean encodings

---
 src/encodings/pb/adder.rs      |  3 +--
 src/encodings/pb/dpw/mod.rs    |  3 +--
 src/encodings/pb/gte/mod.rs    |  3 +--
 src/encodings/pb/mod.rs        | 13 +++++++++++++
 src/encodings/pb/simulators.rs | 10 ++++------
 5 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index d84efa0..9baa143 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -441,8 +441,7 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..722a1e2 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -435,8 +435,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..1d8ecd0 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -368,8 +368,7 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index e1bd156..24c7fb7 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -42,6 +42,7 @@ use crate::types::constraints::PbLbConstr;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::RsHashMap;
 use crate::utils::unreachable_err;
 
 use super::card;
@@ -496,6 +497,18 @@ where
     }
 }
 
+/// Collects weighted literals, summing up the weights of repeated literals
+fn collect_weighted_lits<I>(iter: I) -> RsHashMap<Lit, usize>
+where
+    I: IntoIterator<Item = (Lit, usize)>,
+{
+    let mut lits = RsHashMap::default();
+    for (lit, weight) in iter {
+        *lits.entry(lit).or_insert(0) += weight;
+    }
+    lits
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 449d1b4..b2b8482 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -85,8 +85,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
@@ -95,7 +94,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits = super::collect_weighted_lits(iter.into_iter().map(|(l, w)| (!l, w)));
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -554,8 +553,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weighted_lits(iter))
     }
 }
 
@@ -565,7 +563,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weighted_lits(iter);
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
-- 
2.43.0


From fac2de399df84d00b2d39c3d0b5e3474972be598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 018/108] Revert "fix: lower bounds of the binary adder after
 the same output was used for an upper bound"

This reverts commit 88a3697d74d202d8ab2b4f7363cf4d40d0950909.
---
 src/encodings/pb/adder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 9baa143..a967cd4 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -360,7 +360,7 @@ impl super::BoundLowerIncremental for BinaryAdder {
             }
             for val in range {
                 let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_only_if {
+                    if output.enc_if {
                         continue;
                     }
                     output.enc_only_if = true;
-- 
2.43.0


From b36c1a71026dd9943a67b855bc22c6789fb33bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 019/108] fix: encode the lower bounds when encoding both
 bounds of the binary adder

---
 src/encodings/pb/adder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index a967cd4..5b53009 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -396,8 +396,9 @@ impl super::BoundBoth for BinaryAdder {
         R: std::ops::RangeBounds<usize> + Clone,
     {
         self.reset_encoded(true, true);
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
+        // the lower bounds need to come first, since they skip the outputs of upper bounds
+        self.encode_lb_change(range.clone(), collector, var_manager)?;
+        self.encode_ub_change(range, collector, var_manager)?;
         Ok(())
     }
 }
-- 
2.43.0


From 8ac7f9928fe9570a36a796298f0457b74cee3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 020/108] fix: only-if direction of carries in the binary adder

---
 src/encodings/pb/adder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 5b53009..085c817 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -817,9 +817,9 @@ where
                 bit
             };
 
-            let a = get_bit_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_if(*b, nodes, collector, var_manager)?;
-            let c = get_bit_if(*c, nodes, collector, var_manager)?;
+            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
+            let c = get_bit_only_if(*c, nodes, collector, var_manager)?;
 
             collector.add_clause(b | c | !carry)?;
             collector.add_clause(a | c | !carry)?;
@@ -832,20 +832,20 @@ where
                 if carry.enc_only_if {
                     return Ok(carry.bit);
                 }
-                carry.enc_if = true;
+                carry.enc_only_if = true;
                 carry.bit
             } else {
                 let bit = var_manager.new_lit();
                 *carry = Some(Output {
                     bit,
-                    enc_if: true,
-                    enc_only_if: false,
+                    enc_if: false,
+                    enc_only_if: true,
                 });
                 bit
             };
 
-            let a = get_bit_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_if(*b, nodes, collector, var_manager)?;
+            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
 
             collector.add_clause(a | !carry)?;
             collector.add_clause(b | !carry)?;
-- 
2.43.0


From 78675f32c9216d5d84c7c255996c9f52a83ce5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 021/108] fix: reserving variables for the binary adder

---
 src/encodings/pb/adder.rs | 35 ++---------------------------------
 1 file changed, 2 insertions(+), 33 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 085c817..1e5c28f 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -409,12 +409,8 @@ impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_structure();
 
-        if let Some(structure) = &self.structure {
-            for &o in &structure.outputs {
-                if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
-                    reserve(&mut self.nodes[..=node], var_manager);
-                }
-            }
+        for node in &mut self.nodes {
+            node.reserve(var_manager);
         }
     }
 }
@@ -855,33 +851,6 @@ where
     }
 }
 
-/// Reserves the variables for the last node in `nodes` recursively
-fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
-
-    let node = &mut node[0];
-    node.reserve(var_manager);
-
-    let mut recurse = |con: Connection| match con {
-        Connection::Input(_) => {}
-        Connection::Sum(node) | Connection::Carry(node) => {
-            reserve(&mut nodes[..=node], var_manager);
-        }
-    };
-
-    match node {
-        Node::Full { a, b, c, .. } => {
-            recurse(*a);
-            recurse(*b);
-            recurse(*c);
-        }
-        Node::Half { a, b, .. } => {
-            recurse(*a);
-            recurse(*b);
-        }
-    }
-}
-
 fn comparator_if<Col>(
     rhs: usize,
     output: Lit,
-- 
2.43.0


From 9a5c49582ee1b28ddea2b1cfa38c25cb0aba1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 022/108] Revert "fix: only-if direction of carries in the
 binary adder"

This reverts commit 8ac7f9928fe9570a36a796298f0457b74cee3219.
---
 src/encodings/pb/adder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 1e5c28f..ebceb58 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -813,9 +813,9 @@ where
                 bit
             };
 
-            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
-            let c = get_bit_only_if(*c, nodes, collector, var_manager)?;
+            let a = get_bit_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_if(*b, nodes, collector, var_manager)?;
+            let c = get_bit_if(*c, nodes, collector, var_manager)?;
 
             collector.add_clause(b | c | !carry)?;
             collector.add_clause(a | c | !carry)?;
@@ -828,20 +828,20 @@ where
                 if carry.enc_only_if {
                     return Ok(carry.bit);
                 }
-                carry.enc_only_if = true;
+                carry.enc_if = true;
                 carry.bit
             } else {
                 let bit = var_manager.new_lit();
                 *carry = Some(Output {
                     bit,
-                    enc_if: false,
-                    enc_only_if: true,
+                    enc_if: true,
+                    enc_only_if: false,
                 });
                 bit
             };
 
-            let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
-            let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
+            let a = get_bit_if(*a, nodes, collector, var_manager)?;
+            let b = get_bit_if(*b, nodes, collector, var_manager)?;
 
             collector.add_clause(a | !carry)?;
             collector.add_clause(b | !carry)?;
-- 
2.43.0


From 9a823bbe8ae418dc2c01ddb217f73e5799c7661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 023/108] fix: encode the whole upper bounds when encoding both
 bounds of the binary adder

---
 src/encodings/pb/adder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index ebceb58..94fb643 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -398,6 +398,7 @@ impl super::BoundBoth for BinaryAdder {
         self.reset_encoded(true, true);
         // the lower bounds need to come first, since they skip the outputs of upper bounds
         self.encode_lb_change(range.clone(), collector, var_manager)?;
+        self.reset_encoded(true, false);
         self.encode_ub_change(range, collector, var_manager)?;
         Ok(())
     }
-- 
2.43.0


From 8ba150f853676193cd2f39b3ec763a128b4028ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 024/108] fix: next higher and lower values of the generalized
 totalizer while inputs are buffered

---
 src/encodings/pb/gte/mod.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 1d8ecd0..ea2be15 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -175,6 +175,18 @@ impl GeneralizedTotalizer {
         self.lit_buffer.is_empty()
     }
 
+    /// Gets the next higher value of the tree, ignoring buffered input literals
+    fn next_higher_in_tree(&self, val: usize) -> usize {
+        if let Some(con) = self.root {
+            self.db[con.id]
+                .vals(con.rev_map_round_up(val + 1)..)
+                .next()
+                .map_or(val + 1, |val| con.map(val))
+        } else {
+            val + 1
+        }
+    }
+
     /// From an assignment to the input literals, generates an assignment over the totalizer
     /// variables following strict semantics, i.e., `sum >= k <-> olit`
     ///
@@ -203,20 +215,21 @@ impl super::Encode for GeneralizedTotalizer {
     }
 
     fn next_higher(&self, val: usize) -> usize {
-        if let Some(con) = self.root {
-            self.db[con.id]
-                .vals(con.rev_map_round_up(val + 1)..)
-                .next()
-                .map_or(val + 1, |val| con.map(val))
-        } else {
-            val + 1
+        if !self.lit_buffer.is_empty() {
+            // the values of the tree are not the only ones possible
+            return val + 1;
         }
+        self.next_higher_in_tree(val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
         if val == 0 {
             return 0;
         }
+        if !self.lit_buffer.is_empty() {
+            // the values of the tree are not the only ones possible
+            return val - 1;
+        }
         if let Some(con) = self.root {
             return self.db[con.id]
                 .vals(con.offset()..con.rev_map_round_up(val))
@@ -437,7 +450,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
-        let mut val = enc.next_higher(ub);
+        let mut val = enc.next_higher_in_tree(ub);
         for unit in enc
             .enforce_ub(ub)
             .expect("should have caught special case before here")
@@ -470,7 +483,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 )?;
                 #[cfg(feature = "verbose-proofs")]
                 proof.equals(&unit_cl, Some(unit_id.into()))?;
-                val = enc.next_higher(val);
+                val = enc.next_higher_in_tree(val);
                 unit_id
             };
             collector.add_cert_clause(unit_cl, unit_id)?;
-- 
2.43.0


From daf6f502d136a752f0effdcd60aa305a40273101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 025/108] fix: do not enforce bounds of the DPW for which
 output literals are only reserved

---
 src/encodings/pb/dpw/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 722a1e2..4a0db26 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -835,8 +835,17 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     if oidx >= tot_db[dpw.root()].max_val() {
         return Ok(vec![]);
     }
-    let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
-        return Err(EnforceError::NotEncoded);
+    let olit = match &tot_db[dpw.root()] {
+        totdb::Node::Leaf(lit) => *lit,
+        totdb::Node::Unit(node) => match node.lits[oidx] {
+            // a literal that is only reserved does not enforce anything
+            totdb::LitData::Lit {
+                lit,
+                semantics: Some(semantics),
+            } if semantics.has_if() => lit,
+            _ => return Err(EnforceError::NotEncoded),
+        },
+        totdb::Node::General(_) | totdb::Node::Dummy => unreachable!(),
     };
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
-- 
2.43.0


From 103ed82651f08d71b6e12b89bf049e0c285e97ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 026/108] fix: do not count outputs as encoded if collecting
 their clauses failed

---
 src/encodings/pb/adder.rs  | 281 +++++++++++++------------------------
 src/encodings/totdb/mod.rs |   6 +-
 2 files changed, 103 insertions(+), 184 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 94fb643..91b248a 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -253,22 +253,12 @@ impl super::BoundUpperIncremental for BinaryAdder {
                 structure.comparator.resize(range.end, None);
             }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val] {
-                    if output.enc_if {
-                        continue;
-                    }
-                    output.enc_if = true;
-                    output.bit
-                } else {
-                    let bit = var_manager.new_lit();
-                    structure.comparator[val] = Some(Output {
-                        bit,
-                        enc_if: true,
-                        enc_only_if: false,
-                    });
-                    bit
-                };
-                comparator_if(val, output, &outputs, collector)?;
+                let output = Output::get(&mut structure.comparator[val], var_manager);
+                if output.enc_if {
+                    continue;
+                }
+                comparator_if(val, output.bit, &outputs, collector)?;
+                output.enc_if = true;
             }
         }
 
@@ -359,22 +349,12 @@ impl super::BoundLowerIncremental for BinaryAdder {
                 structure.comparator.resize(range.end, None);
             }
             for val in range {
-                let output = if let Some(output) = &mut structure.comparator[val - 1] {
-                    if output.enc_if {
-                        continue;
-                    }
-                    output.enc_only_if = true;
-                    output.bit
-                } else {
-                    let bit = var_manager.new_lit();
-                    structure.comparator[val - 1] = Some(Output {
-                        bit,
-                        enc_if: false,
-                        enc_only_if: true,
-                    });
-                    bit
-                };
-                comparator_only_if(val - 1, output, &outputs, collector)?;
+                let output = Output::get(&mut structure.comparator[val - 1], var_manager);
+                if output.enc_if {
+                    continue;
+                }
+                comparator_only_if(val - 1, output.bit, &outputs, collector)?;
+                output.enc_only_if = true;
             }
         }
 
@@ -533,6 +513,17 @@ struct Output {
     enc_only_if: bool,
 }
 
+impl Output {
+    /// Gets the output, creating one that is not encoded yet if there is none
+    fn get<'out>(out: &'out mut Option<Self>, var_manager: &mut dyn ManageVars) -> &'out mut Self {
+        out.get_or_insert_with(|| Output {
+            bit: var_manager.new_lit(),
+            enc_if: false,
+            enc_only_if: false,
+        })
+    }
+}
+
 #[inline]
 fn get_bit_if<Col>(
     con: Connection,
@@ -593,57 +584,39 @@ where
 
     match node {
         Node::Full { a, b, c, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let sum = Output::get(sum, var_manager);
+            if sum.enc_if {
+                return Ok(sum.bit);
+            }
+            let bit = sum.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
             let c = get_bit_if(*c, nodes, collector, var_manager)?;
 
-            collector.add_clause(!a | !b | !c | sum)?;
-            collector.add_clause(!a | b | c | sum)?;
-            collector.add_clause(a | !b | c | sum)?;
-            collector.add_clause(a | b | !c | sum)?;
+            collector.add_clause(!a | !b | !c | bit)?;
+            collector.add_clause(!a | b | c | bit)?;
+            collector.add_clause(a | !b | c | bit)?;
+            collector.add_clause(a | b | !c | bit)?;
 
-            Ok(sum)
+            sum.enc_if = true;
+            Ok(bit)
         }
         Node::Half { a, b, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let sum = Output::get(sum, var_manager);
+            if sum.enc_if {
+                return Ok(sum.bit);
+            }
+            let bit = sum.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
 
-            collector.add_clause(!a | b | sum)?;
-            collector.add_clause(a | !b | sum)?;
+            collector.add_clause(!a | b | bit)?;
+            collector.add_clause(a | !b | bit)?;
 
-            Ok(sum)
+            sum.enc_if = true;
+            Ok(bit)
         }
     }
 }
@@ -662,57 +635,39 @@ where
 
     match node {
         Node::Full { a, b, c, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_only_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_only_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let sum = Output::get(sum, var_manager);
+            if sum.enc_only_if {
+                return Ok(sum.bit);
+            }
+            let bit = sum.bit;
 
             let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
             let c = get_bit_only_if(*c, nodes, collector, var_manager)?;
 
-            collector.add_clause(a | b | c | !sum)?;
-            collector.add_clause(a | !b | !c | !sum)?;
-            collector.add_clause(!a | b | !c | !sum)?;
-            collector.add_clause(!a | !b | c | !sum)?;
+            collector.add_clause(a | b | c | !bit)?;
+            collector.add_clause(a | !b | !c | !bit)?;
+            collector.add_clause(!a | b | !c | !bit)?;
+            collector.add_clause(!a | !b | c | !bit)?;
 
-            Ok(sum)
+            sum.enc_only_if = true;
+            Ok(bit)
         }
         Node::Half { a, b, sum, .. } => {
-            let sum = if let Some(sum) = sum {
-                if sum.enc_only_if {
-                    return Ok(sum.bit);
-                }
-                sum.enc_only_if = true;
-                sum.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *sum = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let sum = Output::get(sum, var_manager);
+            if sum.enc_only_if {
+                return Ok(sum.bit);
+            }
+            let bit = sum.bit;
 
             let a = get_bit_only_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_only_if(*b, nodes, collector, var_manager)?;
 
-            collector.add_clause(a | b | !sum)?;
-            collector.add_clause(!a | !b | !sum)?;
+            collector.add_clause(a | b | !bit)?;
+            collector.add_clause(!a | !b | !bit)?;
 
-            Ok(sum)
+            sum.enc_only_if = true;
+            Ok(bit)
         }
     }
 }
@@ -731,55 +686,37 @@ where
 
     match node {
         Node::Full { a, b, c, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let carry = Output::get(carry, var_manager);
+            if carry.enc_if {
+                return Ok(carry.bit);
+            }
+            let bit = carry.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
             let c = get_bit_if(*c, nodes, collector, var_manager)?;
 
-            collector.add_clause(!b | !c | carry)?;
-            collector.add_clause(!a | !c | carry)?;
-            collector.add_clause(!a | !b | carry)?;
+            collector.add_clause(!b | !c | bit)?;
+            collector.add_clause(!a | !c | bit)?;
+            collector.add_clause(!a | !b | bit)?;
 
-            Ok(carry)
+            carry.enc_if = true;
+            Ok(bit)
         }
         Node::Half { a, b, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let carry = Output::get(carry, var_manager);
+            if carry.enc_if {
+                return Ok(carry.bit);
+            }
+            let bit = carry.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
 
-            collector.add_clause(!a | !b | carry)?;
+            collector.add_clause(!a | !b | bit)?;
 
-            Ok(carry)
+            carry.enc_if = true;
+            Ok(bit)
         }
     }
 }
@@ -798,56 +735,38 @@ where
 
     match node {
         Node::Full { a, b, c, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_only_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_only_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: false,
-                    enc_only_if: true,
-                });
-                bit
-            };
+            let carry = Output::get(carry, var_manager);
+            if carry.enc_only_if {
+                return Ok(carry.bit);
+            }
+            let bit = carry.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
             let c = get_bit_if(*c, nodes, collector, var_manager)?;
 
-            collector.add_clause(b | c | !carry)?;
-            collector.add_clause(a | c | !carry)?;
-            collector.add_clause(a | b | !carry)?;
+            collector.add_clause(b | c | !bit)?;
+            collector.add_clause(a | c | !bit)?;
+            collector.add_clause(a | b | !bit)?;
 
-            Ok(carry)
+            carry.enc_only_if = true;
+            Ok(bit)
         }
         Node::Half { a, b, carry, .. } => {
-            let carry = if let Some(carry) = carry {
-                if carry.enc_only_if {
-                    return Ok(carry.bit);
-                }
-                carry.enc_if = true;
-                carry.bit
-            } else {
-                let bit = var_manager.new_lit();
-                *carry = Some(Output {
-                    bit,
-                    enc_if: true,
-                    enc_only_if: false,
-                });
-                bit
-            };
+            let carry = Output::get(carry, var_manager);
+            if carry.enc_only_if {
+                return Ok(carry.bit);
+            }
+            let bit = carry.bit;
 
             let a = get_bit_if(*a, nodes, collector, var_manager)?;
             let b = get_bit_if(*b, nodes, collector, var_manager)?;
 
-            collector.add_clause(a | !carry)?;
-            collector.add_clause(b | !carry)?;
+            collector.add_clause(a | !bit)?;
+            collector.add_clause(b | !bit)?;
 
-            Ok(carry)
+            carry.enc_if = true;
+            Ok(bit)
         }
     }
 }
diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index dc923e0..ce15882 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -446,9 +446,6 @@ impl Db {
             .missing_semantics(req_semantics)
             .expect("semantics are already encoded");
 
-        // Mark positive literal as encoded (done first to avoid borrow checker problems)
-        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
-
         // Get lit slices of children
         let l_tmp_olit;
         let llits = get_lit_slice!(self, pre.lcon.id, l_tmp_olit);
@@ -493,6 +490,9 @@ impl Db {
         };
         collector.extend_clauses(pre.left_only_if.clone().map(only_if_clause))?;
 
+        // Mark as encoded (only after all clauses have been collected)
+        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
+
         Ok(())
     }
 
-- 
2.43.0


From 52e64d4cb7e34edbd387507f6f300954e21dc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 027/108] fix: re-indexing manager: identity below the first
 free variable and correct reverse lookups

The documentation promises that variables below `next_var` are mapped with the
identity. The inverse map went out of step after `new_var`, `mark_used`,
`combine` and `forget_from`.
---
 src/instances/mod.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..68dec81 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,8 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    /// Inverse of `in_map`, variables that nothing is re-indexed to have no entry
+    out_map: Vec<Option<Var>>,
 }
 
 impl ReindexingVarManager {
@@ -166,9 +167,21 @@ impl ReindexingVarManager {
     pub fn from_next_free(next_var: Var) -> Self {
         Self {
             next_var,
-            in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            in_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
+            out_map: (0..next_var.idx32())
+                .map(|idx| Some(Var::new(idx)))
+                .collect(),
+        }
+    }
+
+    /// Sets an entry of the inverse map
+    fn set_reverse(&mut self, out_var: Var, in_var: Var) {
+        if out_var.idx() >= self.out_map.len() {
+            self.out_map.resize(out_var.idx() + 1, None);
         }
+        self.out_map[out_var.idx()] = Some(in_var);
     }
 }
 
@@ -179,16 +192,13 @@ impl ReindexVars for ReindexingVarManager {
         } else {
             let v = self.new_var();
             self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            self.set_reverse(v, in_var);
             v
         }
     }
 
     fn reverse(&self, out_var: Var) -> Option<Var> {
-        if out_var.idx() >= self.out_map.len() {
-            return None;
-        }
-        Some(self.out_map[out_var.idx()])
+        self.out_map.get(out_var.idx()).copied().flatten()
     }
 }
 
@@ -230,6 +240,17 @@ impl ManageVars for ReindexingVarManager {
             self.next_var = other.next_var;
         }
         self.in_map.extend(other.in_map);
+        // Rebuild the inverse, entries of `other` have precedence
+        self.out_map.clear();
+        let entries: Vec<_> = self.in_map.iter().map(|(i, o)| (*i, *o)).collect();
+        for (in_var, out_var) in entries {
+            self.set_reverse(out_var, in_var);
+        }
+        for (idx, in_var) in other.out_map.into_iter().enumerate() {
+            if let Some(in_var) = in_var {
+                self.out_map[idx] = Some(in_var);
+            }
+        }
     }
 
     fn n_used(&self) -> u32 {
@@ -238,7 +259,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.truncate(min_var.idx());
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
-- 
2.43.0


From 81ddea471cc7b9fa9bce34ebd7aef7f29c596ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 028/108] fix: random re-indexing manager: variables that keep
 their index are used

---
 src/instances/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 68dec81..d234657 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -387,6 +387,7 @@ impl ReindexVars for RandReindVarManager {
             Some(v) => *v,
             None => {
                 // Don't reindex vars that are out of initialized range
+                self.mark_used(in_var);
                 in_var
             }
         }
-- 
2.43.0


From 73f4aedd23b53ecfdb33319702591760bd7d2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 029/108] fix: keep cardinality and PB constraints when
 extending an instance by another

---
 src/instances/sat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..2b36e2f 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -709,6 +709,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
-- 
2.43.0


From 761df7cbcde34801969c66fdc36895c393d711fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 030/108] fix: mark the variable of the clauses of a sanitized
 unsatisfiable instance as used

---
 src/instances/sat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 2b36e2f..a2b54eb 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -929,6 +929,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -936,7 +938,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
-- 
2.43.0


From 0928555f93381fd9aa415effd6a353ee5b23a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 031/108] fix: do not evaluate undecided constraints to false
 under partial assignments

---
 src/types/constraints.rs | 69 +++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..b42f56b 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -887,13 +887,21 @@ impl CardConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + 1,
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
-        match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+        // The sum of the literals can still take any value from `range.start` to `range.end`
+        let (always, never) = match self {
+            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.end <= *b, range.start > *b),
+            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b, range.end < *b),
+            CardConstraint::Eq(CardEqConstr { b, .. }) => (
+                range.start == *b && range.end == *b,
+                range.start > *b || range.end < *b,
+            ),
+        };
+        if always {
+            TernaryVal::True
+        } else if never {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
@@ -1622,33 +1630,28 @@ impl PbConstraint {
                 TernaryVal::False => rng,
                 TernaryVal::DontCare => rng.start..rng.end + coeff,
             });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
-                }
+        // The weighted sum is always between `range.start` and `range.end`. Values that do not fit
+        // into `isize` are larger than any bound.
+        let at_most = |val: usize, b: isize| isize::try_from(val).is_ok_and(|val| val <= b);
+        let at_least = |val: usize, b: isize| isize::try_from(val).map_or(true, |val| val >= b);
+        let (always, never) = match self {
+            PbConstraint::Ub(PbUbConstr { b, .. }) => {
+                (at_most(range.end, *b), !at_most(range.start, *b))
             }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::True
-                }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::False
-                }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
+            PbConstraint::Lb(PbLbConstr { b, .. }) => {
+                (at_least(range.start, *b), !at_least(range.end, *b))
+            }
+            PbConstraint::Eq(PbEqConstr { b, .. }) => (
+                at_least(range.start, *b) && at_most(range.end, *b),
+                !at_most(range.start, *b) || !at_least(range.end, *b),
+            ),
+        };
+        if always {
+            TernaryVal::True
+        } else if never {
+            TernaryVal::False
+        } else {
+            TernaryVal::DontCare
         }
     }
 }
-- 
2.43.0


From 96b9ecb98b0a4c201173ea5825fb3b3cedb6d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 032/108] fix: literals of weight zero in pseudo-boolean
 constraints and encodings

---
 src/encodings/pb/adder.rs   |  5 +++--
 src/encodings/pb/dpw/mod.rs |  3 ++-
 src/encodings/pb/gte/mod.rs |  5 +++--
 src/encodings/pb/mod.rs     |  7 +++++--
 src/types/constraints.rs    | 13 ++++++++-----
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 91b248a..1c8e5ba 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -409,7 +409,8 @@ impl crate::encodings::EncodeStats for BinaryAdder {
 }
 
 impl From<RsHashMap<Lit, usize>> for BinaryAdder {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -425,7 +426,7 @@ impl FromIterator<(Lit, usize)> for BinaryAdder {
 
 impl Extend<(Lit, usize)> for BinaryAdder {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        iter.into_iter().for_each(|(l, w)| {
+        iter.into_iter().filter(|(_, w)| *w > 0).for_each(|(l, w)| {
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 4a0db26..b1fdda0 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -416,7 +416,8 @@ impl crate::encodings::EncodeStats for DynamicPolyWatchdog {
 }
 
 impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + *w);
         let mut db = totdb::Db::default();
         let weight_queue = lit_weight_queue(lits.clone().into_iter(), &mut db);
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index ea2be15..01641cc 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -371,7 +371,8 @@ impl crate::encodings::EncodeStats for GeneralizedTotalizer {
 }
 
 impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -387,7 +388,7 @@ impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
 
 impl Extend<(Lit, usize)> for GeneralizedTotalizer {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        iter.into_iter().for_each(|(l, w)| {
+        iter.into_iter().filter(|(_, w)| *w > 0).for_each(|(l, w)| {
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 24c7fb7..2ad3eb7 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -497,14 +497,17 @@ where
     }
 }
 
-/// Collects weighted literals, summing up the weights of repeated literals
+/// Collects weighted literals, summing up the weights of repeated literals and dropping literals of
+/// weight zero
 fn collect_weighted_lits<I>(iter: I) -> RsHashMap<Lit, usize>
 where
     I: IntoIterator<Item = (Lit, usize)>,
 {
     let mut lits = RsHashMap::default();
     for (lit, weight) in iter {
-        *lits.entry(lit).or_insert(0) += weight;
+        if weight > 0 {
+            *lits.entry(lit).or_insert(0) += weight;
+        }
     }
     lits
 }
diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index b42f56b..6609a9f 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1865,7 +1865,8 @@ impl PbUbConstr {
                 unit_weight = Some(*w);
             }
         }
-        unit_weight
+        // zero weights do not contribute to the sum and are therefore no units
+        unit_weight.filter(|uw| *uw > 0)
     }
 
     /// Checks if the constraint is a clause
@@ -1997,7 +1998,8 @@ impl PbLbConstr {
                 unit_weight = Some(*w);
             }
         }
-        unit_weight
+        // zero weights do not contribute to the sum and are therefore no units
+        unit_weight.filter(|uw| *uw > 0)
     }
 
     /// Checks if the constraint is a clause
@@ -2102,7 +2104,7 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == self.weight_sum
+        self.b.unsigned_abs() == self.weight_sum && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Checks if the constraint assigns all literals to false
@@ -2111,7 +2113,7 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == 0
+        self.b.unsigned_abs() == 0 && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Gets the unit weight of the constraint, if it exists
@@ -2127,7 +2129,8 @@ impl PbEqConstr {
                 unit_weight = Some(*w);
             }
         }
-        unit_weight
+        // zero weights do not contribute to the sum and are therefore no units
+        unit_weight.filter(|uw| *uw > 0)
     }
 }
 
-- 
2.43.0


From f9ce91e5588dbfb8c14779907df3803f9bad1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 033/108] fix: implications of a literal by a tautological
 upper bound

---
 src/encodings/atomics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..0dc94c1 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -132,6 +132,9 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
     match card {
         CardConstraint::Ub(c) => {
             let (lits, bound) = c.decompose_ref();
+            if c.is_tautology() {
+                return PbConstraint::new_lb_unsigned([(lit, 1)], 1);
+            }
             let bound = 2 * lits.len() - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|lit| (!*lit, 1)).collect();
             lits.push((!lit, lits.len()));
@@ -208,6 +211,9 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
         PbConstraint::Ub(c) => {
             let ws = isize::try_from(pb.weight_sum())
                 .expect("cannot handle sums of weight larger than `isize::MAX`");
+            if c.is_tautology() {
+                return PbConstraint::new_lb_unsigned([(lit, 1)], 1);
+            }
             let (lits, bound) = c.decompose_ref();
             let bound = 2 * ws - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|(lit, w)| (!*lit, *w)).collect();
-- 
2.43.0


From 645a717e81867c2de63ad565bfa75536a56e3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 034/108] fix: inverting tautological cardinality upper bounds

---
 src/types/constraints.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 6609a9f..fcb681a 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1028,7 +1028,8 @@ impl CardUbConstr {
         let length = self.lits.len();
         CardLbConstr {
             lits: self.lits,
-            b: length - self.b,
+            // if the bound is larger than the number of literals, both are tautologies
+            b: length.saturating_sub(self.b),
         }
     }
 
-- 
2.43.0


From 70f2778d5d2f67844de89e30cbf80db01c3d5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 035/108] fix: equalities over equally weighted literals whose
 bound is not divisible

---
 src/encodings/pb/cert.rs | 15 +++++++++++++++
 src/encodings/pb/mod.rs  |  8 +++++++-
 src/instances/sat.rs     |  8 +++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index a873d20..f957e6e 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -7,6 +7,7 @@ use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
 use crate::types::Lit;
+use crate::types::Var;
 
 /// Trait for certified PB encodings that allow upper bounding of the form `sum of lits <=
 /// ub`
@@ -383,6 +384,20 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
+        if let PbConstraint::Eq(eq) = &constr {
+            let unit_weight = crate::utils::unreachable_none!(eq.find_unit_weight());
+            if constr.bound().unsigned_abs() % unit_weight != 0 {
+                // equality where the bound is not divisible by the unit weight: rounding the lower
+                // and the upper bound makes them contradict each other
+                let unsat_id = proof.operations(
+                    &((pigeons::OperationSequence::<Var>::from(id) / unit_weight)
+                        + (pigeons::OperationSequence::<Var>::from(id + 1) / unit_weight)),
+                )?;
+                return collector
+                    .add_cert_clause(crate::clause![], unsat_id)
+                    .map_err(EncodingError::from);
+            }
+        }
         let card = crate::utils::unreachable_err!(constr.into_card_constr());
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 2ad3eb7..5f8d9ed 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -39,6 +39,7 @@ use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
 use crate::types::constraints::PbEqConstr;
 use crate::types::constraints::PbLbConstr;
+use crate::types::constraints::PbToCardError;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -487,7 +488,12 @@ where
         return collector.add_clause(unreachable_err!(constr.into_clause()));
     }
     if constr.is_card() {
-        let card = unreachable_err!(constr.into_card_constr());
+        let card = match constr.into_card_constr() {
+            Ok(card) => card,
+            // equality where the bound is not divisible by the unit weight
+            Err(PbToCardError::Unsat) => return collector.add_clause(Clause::new()),
+            Err(_) => unreachable!(),
+        };
         return card::default_encode_cardinality_constraint(card, collector, var_manager);
     }
     match PBE::encode_constr(constr, collector, var_manager) {
diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index a2b54eb..8bf36d1 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -4,6 +4,7 @@ use crate::encodings::CollectClauses;
 use crate::types::constraints::CardConstraint;
 use crate::types::constraints::ConstraintRef;
 use crate::types::constraints::PbConstraint;
+use crate::types::constraints::PbToCardError;
 use crate::types::Assignment;
 use crate::types::Clause;
 use crate::types::Lit;
@@ -895,7 +896,12 @@ impl<VM: super::ManageVars> Instance<VM> {
                     return None;
                 }
                 if pb.is_card() {
-                    cards.push(crate::utils::unreachable_err!(pb.into_card_constr()));
+                    match pb.into_card_constr() {
+                        Ok(card) => cards.push(card),
+                        // equality where the bound is not divisible by the unit weight
+                        Err(PbToCardError::Unsat) => unsat = true,
+                        Err(_) => unreachable!(),
+                    }
                     return None;
                 }
                 Some(pb)
-- 
2.43.0


From 1c6e8503494c72c99b907859868208c7f0b3206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 036/108] fix: empty soft clauses increase the offset of the
 objective

---
 src/instances/opt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 722b191..30ed8c2 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -529,10 +529,18 @@ impl Objective {
 
     /// Increases the weight of a soft clause. Returns the old weight, if the
     /// clause was already in the objective.
+    ///
+    /// # Panics
+    ///
+    /// If the clause is empty and `add_w` is larger than [`isize::MAX`]
     pub fn increase_soft_clause(&mut self, add_w: usize, cl: Clause) {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+            return;
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
-- 
2.43.0


From 7f9387b5908edea7807626c1a8d3660b40b9ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 037/108] fix: normalizing objectives

---
 src/instances/opt.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 30ed8c2..aeae072 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -951,7 +951,12 @@ impl Objective {
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    return Self(IntObj::Unweighted {
+                        offset: *offset,
+                        unit_weight: None,
+                        soft_lits: vec![],
+                        soft_clauses: vec![],
+                    });
                 }
                 let unit_weight = *soft_lits
                     .values()
@@ -1017,26 +1022,28 @@ impl Objective {
                 }
 
                 soft_lits.sort_unstable();
+                for pair in soft_lits.windows(2) {
+                    if pair[0] == pair[1] {
+                        // duplicate literal: objective is actually weighted
+                        self.unweighted_2_weighted();
+                        return self.normalize();
+                    }
+                }
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
-                    if soft_lits[next] == !soft_lits[next + 1] {
+                while next < soft_lits.len() {
+                    if next + 1 < soft_lits.len() && soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
                             .expect("can only handle weights up to `isize::MAX`");
                         next += 2;
                         continue;
                     }
-                    if soft_lits[next] == soft_lits[next + 1] {
-                        // duplicate literal: objective is actually weighted
-                        self.unweighted_2_weighted();
-                        return self.normalize();
-                    }
                     soft_lits.swap(end, next);
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
-- 
2.43.0


From 82bc85bd1dfb27b2484f65f07b56b764d56790a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 038/108] fix: weights of softs that appear multiple times in
 an unweighted objective

---
 src/instances/opt.rs | 46 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index aeae072..5430b44 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -400,17 +400,23 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    // the literal might appear multiple times, if its weight has been increased
+                    let n_lits = soft_lits.len();
+                    soft_lits.retain(|l2| l2 != &l);
+                    let count = n_lits - soft_lits.len();
+                    if count > 0 {
+                        return Some(count * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
-                            return Some(*unit_weight);
-                        }
+                        let n_lits = soft_lits.len();
+                        soft_lits.retain(|l2| l2 != &l);
+                        let count = n_lits - soft_lits.len();
                         soft_lits.push(l);
+                        if count > 0 {
+                            return Some(count * *unit_weight);
+                        }
                         None
                     } else {
                         // Type changes from unweighted to weighted
@@ -500,17 +506,23 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    // the clause might appear multiple times, if its weight has been increased
+                    let n_clauses = soft_clauses.len();
+                    soft_clauses.retain(|cl2| cl2 != &cl);
+                    let count = n_clauses - soft_clauses.len();
+                    if count > 0 {
+                        return Some(count * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
-                            return Some(*unit_weight);
-                        }
+                        let n_clauses = soft_clauses.len();
+                        soft_clauses.retain(|cl2| cl2 != &cl);
+                        let count = n_clauses - soft_clauses.len();
                         soft_clauses.push(cl);
+                        if count > 0 {
+                            return Some(count * *unit_weight);
+                        }
                         None
                     } else {
                         // Type changes from unweighted to weighted
@@ -578,8 +590,9 @@ impl Objective {
                 soft_lits,
                 ..
             } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                let count = soft_lits.iter().filter(|l2| *l2 == &l).count();
+                if count > 0 {
+                    Some(count * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
@@ -597,8 +610,9 @@ impl Objective {
                 soft_clauses,
                 ..
             } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                let count = soft_clauses.iter().filter(|cl2| *cl2 == cl).count();
+                if count > 0 {
+                    Some(count * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
-- 
2.43.0


From 63fb8e1f1eb1422ba066cfa4f68a3f2e00c8ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 039/108] fix: reserve objective variables before converting
 optimization instances

---
 src/instances/multiopt.rs | 31 ++++++++-----------------------
 src/instances/opt.rs      | 26 +++++++++++++-------------
 2 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index be9128b..2e898bb 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -137,19 +137,10 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
-        let soft_cls = self
-            .objs
-            .into_iter()
-            .map(Objective::into_soft_cls)
-            .collect();
+        // reserves the variables in the objectives before encoding the constraints
+        let (constrs, objs) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let soft_cls = objs.into_iter().map(Objective::into_soft_cls).collect();
         (cnf, soft_cls, vm)
     }
 
@@ -159,16 +150,10 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv);
-        let soft_lits = self
-            .objs
+        // reserves the variables in the objectives before encoding the constraints
+        let (constrs, objs) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let soft_lits = objs
             .into_iter()
             .map(|o| {
                 let (hards, softs) = o.into_soft_lits(&mut vm);
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 5430b44..027abe9 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1318,11 +1318,10 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        (cnf, self.obj.into_soft_cls(), vm)
+        // reserves the variables in the objective before encoding the constraints
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        (cnf, obj.into_soft_cls(), vm)
     }
 
     /// Converts the instance to a set of hard clauses and soft literals, an
@@ -1332,11 +1331,10 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
+        // reserves the variables in the objective before encoding the constraints
+        let (constrs, obj) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let (hard_softs, softs) = obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
     }
@@ -1678,8 +1676,10 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
-        let (cnf, vm) = self.constrs.into_cnf();
-        let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
+        // reserves the variables in the objective before encoding the constraints
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let mut vm = if let Some(max_var) = vm.max_var() {
             super::BasicVarManager::from_next_free(max_var + 1)
         } else {
             super::BasicVarManager::default()
@@ -1698,7 +1698,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-        let (iter, offset) = self.obj.into_soft_cls();
+        let (iter, offset) = obj.into_soft_cls();
         let obj: Vec<_> = iter.into_iter().map(handle_soft_cls).collect();
         let (sol, cost) = Alg::solve(&mut solver, &obj)?;
         Some((
-- 
2.43.0


From 886e25ca95277f422d252ce91f4cd562929d069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 040/108] fix: relaxation of soft clauses when solving MaxSAT

---
 src/instances/opt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 027abe9..3a9b83b 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1694,7 +1694,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-- 
2.43.0


From bf8869ff124b15e53e7aa62115504e7d1d6c7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 041/108] fix: mark variables of soft clauses as used when
 collecting WCNF lines

---
 src/instances/opt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 3a9b83b..5724dbb 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1718,6 +1718,9 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
+                    for l in &cl {
+                        inst.constraints_mut().var_manager_mut().mark_used(l.var());
+                    }
                     inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
-- 
2.43.0


From 4aa8f6893e95529abafbed219c6664b4a8aca5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 042/108] fix: mark variables as used when extending an
 instance by clauses

---
 src/instances/sat.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 8bf36d1..8fa4233 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -1167,7 +1167,14 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        let var_manager = &mut self.var_manager;
+        self.cnf.extend(
+            iter.into_iter().inspect(|cl| {
+                for l in cl {
+                    var_manager.mark_used(l.var());
+                }
+            }),
+        );
     }
 }
 
@@ -1180,7 +1187,16 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        use super::ManageVars;
+
+        let var_manager = &mut self.var_manager;
+        self.cnf.extend_clauses(
+            cl_iter.into_iter().inspect(|cl| {
+                for l in cl {
+                    var_manager.mark_used(l.var());
+                }
+            }),
+        )
     }
 }
 
-- 
2.43.0


From 033dc93d0459a5ae4e41d58e77ff742d4fecc3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 043/108] fix: lower bounding a referenced totalizer resets the
 lower bound semantics

`encode_lb` of `Tot` and `TotCell` forgot the upper bound semantics instead, so that upper bounds
were lost and lower bounds were not encoded in full.
---
 src/encodings/card/totalizer/referenced.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index dd4508b..8f42d38 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -191,7 +191,7 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.reset_encoded(totdb::Semantics::If);
+        self.db.reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -232,7 +232,7 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.borrow_mut().reset_encoded(totdb::Semantics::If);
+        self.db.borrow_mut().reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
-- 
2.43.0


From 1a93aa421ff25fb32c79ba29eeb2c4634484d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 044/108] fix: a lower bound of zero on a referenced totalizer
 is trivial

`enforce_lb(0)` panicked.
---
 src/encodings/card/totalizer/referenced.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8f42d38..7f1679f 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -196,6 +196,9 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
@@ -237,6 +240,9 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
     }
 
     fn enforce_lb(&self, lb: usize) -> Result<Vec<Lit>, EnforceError> {
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
-- 
2.43.0


From 47eb3315dda91a02f0ee85bb94d27c2a11b06a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 045/108] fix: reserve the outputs that a limited connection
 refers to

For a limited connection with an offset, the outputs starting at the offset itself were reserved.
---
 src/encodings/totdb/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index ce15882..ba015f3 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -566,7 +566,8 @@ impl Db {
 
         if divisor.get() == 1 {
             if let Some(limit) = len_limit {
-                for val in crate::utils::LimitedIter::new(&mut self[id].vals(offset..), limit.get())
+                for val in
+                    crate::utils::LimitedIter::new(&mut self[id].vals(offset + 1..), limit.get())
                 {
                     self[id].reserve_vars(val..=val, var_manager);
                 }
-- 
2.43.0


From 59af28129b2e74006beeea16bf00ae28305f72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 046/108] fix: a refused drain leaves the totalizer database
 unchanged

Nodes in front of the one that referred into the drained range had been renumbered already. A
successful drain now also renumbers the dummy node.
---
 src/encodings/totdb/mod.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index ba015f3..08da22d 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -102,14 +102,23 @@ impl NodeById for Db {
         if range.is_empty() {
             return Ok(self.nodes.drain(self.nodes.len()..self.nodes.len()));
         }
+        // check all nodes before changing any of them
         (range.end.0..self.nodes.len()).try_for_each(|idx| {
             self.nodes[idx]
-                .drain(range.clone())
+                .check_drain(&range)
                 .map_err(|con| DrainError {
                     referencing: NodeId(idx),
                     referenced: con,
                 })
         })?;
+        for node in &mut self.nodes[range.end.0..] {
+            node.drain(&range);
+        }
+        self.dummy_id = match self.dummy_id {
+            Some(id) if range.contains(&id) => None,
+            Some(id) if id >= range.end => Some(id - (range.end - range.start)),
+            id => id,
+        };
         self.lookup_leaf.retain(|_, id| !range.contains(id));
         self.lookup_leaf.values_mut().for_each(|id| {
             if *id >= range.end {
@@ -1057,10 +1066,9 @@ impl Node {
         }
     }
 
-    /// Adjusts the connections of the node to draining a range of nodes. If the
-    /// nodes references a nodes within the drained range, it returns that
-    /// [`NodeId`] as an Error.
-    fn drain(&mut self, range: std::ops::Range<NodeId>) -> Result<(), NodeId> {
+    /// Checks whether a range of nodes can be drained. If the nodes references a node within the
+    /// range, it returns that [`NodeId`] as an Error.
+    fn check_drain(&self, range: &std::ops::Range<NodeId>) -> Result<(), NodeId> {
         match self {
             Node::Leaf(_) | Node::Dummy => Ok(()),
             Node::Unit(UnitNode { left, right, .. })
@@ -1071,13 +1079,23 @@ impl Node {
                 if range.contains(&right.id) {
                     return Err(right.id);
                 }
+                Ok(())
+            }
+        }
+    }
+
+    /// Adjusts the connections of the node to draining a range of nodes
+    fn drain(&mut self, range: &std::ops::Range<NodeId>) {
+        match self {
+            Node::Leaf(_) | Node::Dummy => (),
+            Node::Unit(UnitNode { left, right, .. })
+            | Node::General(GeneralNode { left, right, .. }) => {
                 if left.id >= range.end {
                     left.id -= range.end - range.start;
                 }
                 if right.id >= range.end {
                     right.id -= range.end - range.start;
                 }
-                Ok(())
             }
         }
     }
-- 
2.43.0


From 02159b5f2cf8a102334fc419ea7d2e9e37d6a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 047/108] fix: precision divisors of the dynamic polynomial
 watchdog

Bounds on a single input literal ignored the divisor, encoding without inputs or with a divisor
larger than all weights panicked, a divisor of zero (the default) was treated as lower than one, and
requested ranges were not scaled if there were no weights between the encoded and the set precision.
With a single input literal, the maximum precision was never reached.
---
 src/encodings/pb/dpw/mod.rs | 61 +++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index b1fdda0..b1980b7 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -129,13 +129,27 @@ impl DynamicPolyWatchdog {
         if !(divisor <= 1 || divisor.is_power_of_two()) {
             return Err(PrecisionError::NotPow2);
         }
-        if self.structure.is_some() && divisor > self.prec_div {
+        let divisor = std::cmp::max(divisor, 1);
+        if self.structure.is_some() && divisor > self.prec_div() {
             return Err(PrecisionError::PrecisionDecreased);
         }
         self.prec_div = divisor;
         Ok(())
     }
 
+    /// Gets the current precision divisor
+    fn prec_div(&self) -> usize {
+        // the default value of the member is 0
+        std::cmp::max(self.prec_div, 1)
+    }
+
+    /// Checks whether there are weights left that need to be encoded at the current precision
+    fn has_unencoded_weights(&self) -> bool {
+        self.weight_queue
+            .last_key_value()
+            .is_some_and(|(&weight, _)| weight >= self.prec_div())
+    }
+
     /// Gets the next possible precision divisor value
     ///
     /// Note that this is not the next possible precision value from the last _set_ precision but
@@ -155,7 +169,8 @@ impl DynamicPolyWatchdog {
     /// Checks whether the encoding is already at the maximum precision
     #[must_use]
     pub fn is_max_precision(&self) -> bool {
-        self.weight_queue.is_empty()
+        // a single input literal does not need an encoding
+        self.weight_queue.is_empty() || self.in_lits.len() <= 1
     }
 
     /// Given a range of output values to limit the encoding to, returns additional clauses that
@@ -271,10 +286,11 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
-        if self.structure.is_none() {
+        let prec_div = self.prec_div();
+        if self.structure.is_none() && self.has_unencoded_weights() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
-                self.prec_div,
+                prec_div,
                 true,
                 &mut self.db,
                 var_manager,
@@ -303,29 +319,27 @@ impl super::BoundUpper for DynamicPolyWatchdog {
     }
 
     fn enforce_ub(&self, ub: usize) -> Result<Vec<Lit>, EnforceError> {
-        if self.weight_sum() <= ub && self.prec_div <= 1 {
+        if self.weight_sum() / self.prec_div() <= ub {
             return Ok(vec![]);
         }
         if let Some(structure) = &self.structure {
-            if !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
-            {
+            if self.has_unencoded_weights() {
                 return Err(EnforceError::NotEncoded);
             }
-            debug_assert!(structure.prec_div >= self.prec_div);
-            let ub = ub
-                / 2_usize.pow(
-                    crate::utils::digits(structure.prec_div, 2)
-                        - crate::utils::digits(self.prec_div, 2),
-                );
+            debug_assert!(structure.prec_div >= self.prec_div());
+            let ub = ub / (structure.prec_div / self.prec_div());
             enforce_ub(structure, ub, &self.db)
         } else {
             if self.in_lits.len() > 1 {
+                if !self.has_unencoded_weights() {
+                    // all weights are zero at the current precision
+                    return Ok(vec![]);
+                }
                 return Err(EnforceError::NotEncoded);
             }
             debug_assert_eq!(self.in_lits.len(), 1);
             let (l, w) = self.in_lits.iter().next().unwrap();
-            Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
+            Ok(if *w / self.prec_div() <= ub {
                 vec![]
             } else {
                 vec![-(*l)]
@@ -366,12 +380,14 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
             return Ok(());
         }
         let n_vars_before = var_manager.n_used();
+        let prec_div = self.prec_div();
         let mut fresh = false;
-        if self.structure.is_none() && !self.in_lits.is_empty() {
+        let unencoded_weights = self.has_unencoded_weights();
+        if self.structure.is_none() && unencoded_weights {
             fresh = true;
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
-                self.prec_div,
+                prec_div,
                 true,
                 &mut self.db,
                 var_manager,
@@ -379,21 +395,20 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
         }
         if let Some(structure) = &mut self.structure {
             let n_clauses_before = collector.n_clauses();
-            if !fresh
-                && !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
-            {
+            if !fresh && unencoded_weights {
                 // precision has been increased, need to extend encoding
                 let new_struct = build_structure(
                     &mut self.weight_queue,
-                    self.prec_div,
+                    prec_div,
                     false,
                     &mut self.db,
                     var_manager,
                 );
                 merge_structures(structure, new_struct, &mut self.db, collector, var_manager)?;
             }
-            let output_weight = 1 << (structure.output_power());
+            // the range is at the set precision, which might be higher than the encoded one if there
+            // are no weights in between
+            let output_weight = (structure.prec_div / prec_div) << structure.output_power();
             let output_range = (range.start / output_weight)..=((range.end - 1) / output_weight);
             for oidx in output_range {
                 encode_output(structure, oidx, &mut self.db, collector, var_manager)?;
-- 
2.43.0


From a5047304b7ca1339ac12ad54e8f2de6284775fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 048/108] fix: limiting the range of a dynamic polynomial
 watchdog

The range was cut off below the sum of all weights, at lower precisions its values were not scaled
to those of the outputs, and the top buckets were hardened to lower bounds that do not follow from
the range.
---
 src/encodings/pb/dpw/mod.rs | 58 ++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index b1980b7..87f2b5a 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -194,38 +194,42 @@ impl DynamicPolyWatchdog {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        let range = super::prepare_ub_range(self, range);
+        let start = match range.start_bound() {
+            std::ops::Bound::Included(b) => *b,
+            std::ops::Bound::Excluded(b) => b + 1,
+            std::ops::Bound::Unbounded => 0,
+        };
+        // exclusive, where the weight sum itself can be in the range
+        let end = match range.end_bound() {
+            std::ops::Bound::Included(b) => std::cmp::min(*b, self.weight_sum) + 1,
+            std::ops::Bound::Excluded(b) => std::cmp::min(*b, self.weight_sum + 1),
+            std::ops::Bound::Unbounded => self.weight_sum + 1,
+        };
         if let Some(structure) = &self.structure {
-            if self.is_max_precision() {
-                let output_weight = 1 << (structure.output_power());
-                let range = range.start / output_weight..range.end.div_ceil(output_weight);
-                let root = &self.db[structure.root()];
-                // positively harden lower bound
-                collector.extend_clauses(
-                    root.vals(..=range.start)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
-                )?;
-                // negatively harden upper bound
-                collector.extend_clauses(
-                    root.vals(range.end..)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
-                )?;
-            } else {
-                let idx_offset = (crate::utils::digits(structure.prec_div, 2) - 1) as usize;
-                for (idx, &bottom) in structure.bottom_buckets.iter().rev().enumerate() {
-                    let div = 1usize << (idx + idx_offset);
-                    let range = range.start / div..range.end.div_ceil(div);
+            let output_weight = structure.prec_div << structure.output_power();
+            let root = &self.db[structure.root()];
+            // positively harden lower bound
+            collector.extend_clauses(
+                root.vals(..=start / output_weight)
+                    .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
+            )?;
+            // negatively harden upper bound
+            collector.extend_clauses(
+                root.vals(end.div_ceil(output_weight)..)
+                    .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
+            )?;
+            if !self.is_max_precision() {
+                // Additionally harden the upper bound on the top buckets. The range does not imply
+                // lower bounds on them.
+                for (idx, &bottom) in structure.bottom_buckets.iter().enumerate() {
+                    let div = output_weight >> idx;
                     let top_con = crate::utils::unreachable_none!(self.db[bottom].left());
                     debug_assert_eq!(top_con.divisor(), 1);
                     let top = &self.db[top_con.id];
-                    // positively harden lower bound
-                    collector.extend_clauses(
-                        top.vals(..=top_con.rev_map(range.start))
-                            .filter_map(|val| top.lit(val).map(|&olit| crate::clause![olit])),
-                    )?;
-                    // negatively harden upper bound
+                    // the additional one is for the tare
+                    let max = end.saturating_sub(1) / div + 1;
                     collector.extend_clauses(
-                        top.vals(top_con.rev_map_round_up(range.end)..)
+                        top.vals(top_con.rev_map_round_up(max + 1)..)
                             .filter_map(|val| top.lit(val).map(|&olit| crate::clause![!olit])),
                     )?;
                 }
-- 
2.43.0


From 8c738721a60ef1817a34e2f5e15e636483b465ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 049/108] fix: running out of memory while raising the
 precision of a dynamic polynomial watchdog

Outputs were marked as encoded and bounds accepted although clauses were missing.
---
 src/encodings/pb/dpw/mod.rs | 63 +++++++++++++++++++------------------
 src/encodings/totdb/mod.rs  |  4 +--
 2 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 87f2b5a..1edbccf 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -736,38 +736,45 @@ where
     // step 4: concatenate bottom buckets
     let n_top_bbs = top_struct.bottom_buckets.len();
     bot_struct.bottom_buckets.extend(top_struct.bottom_buckets);
-    // step 5: extend old bottom buckets
+    // step 5: extend old bottom buckets with new output literals. outputs that have already been
+    // encoded are not any more, until the additional clauses have been collected
     let mut old_right_max = 0;
+    let mut to_extend = vec![];
     for &bbid in bot_struct.bottom_buckets[..bot_struct.bottom_buckets.len() - n_top_bbs]
         .iter()
         .rev()
     {
-        let bot_buck = &tot_db[bbid];
-        let right = bot_buck.right().unwrap();
+        let right = tot_db[bbid].right().unwrap();
         let right_max = tot_db.con_len(right);
-        let left = bot_buck.left().unwrap();
-        let left_max = tot_db.con_len(left);
+        let left_max = tot_db.con_len(tot_db[bbid].left().unwrap());
         debug_assert_eq!(right.divisor(), 2);
-        // encode outputs with new rlits
-        let bot_buck = tot_db[bbid].unit();
-        let olits_to_extend: Vec<_> = bot_buck
-            .lits
-            .iter()
-            .enumerate()
-            .filter_map(|(idx, litdat)| {
-                if let &totdb::LitData::Lit {
-                    lit,
-                    semantics: Some(semantics),
-                } = litdat
-                {
-                    if semantics.has_if() && idx + 1 >= old_right_max {
-                        return Some((lit, idx + 1));
-                    }
+        let bot_buck = tot_db[bbid].mut_unit();
+        let mut olits = vec![];
+        for (idx, litdat) in bot_buck.lits.iter_mut().enumerate() {
+            if let &mut totdb::LitData::Lit {
+                lit,
+                semantics: Some(semantics),
+            } = litdat
+            {
+                if semantics.has_if() && idx + 1 >= old_right_max {
+                    olits.push((lit, idx + 1));
+                    litdat.remove_semantics(totdb::Semantics::If);
                 }
-                None
-            })
-            .collect();
-        for (olit, val) in olits_to_extend {
+            }
+        }
+        to_extend.push((bbid, old_right_max, right_max, olits));
+        // next old right max
+        old_right_max = bot_buck.lits.len() / 2;
+        // add new output literals
+        let len = right_max + left_max;
+        debug_assert!(bot_buck.lits.len() <= len);
+        bot_buck.lits.resize(len, totdb::LitData::None);
+    }
+    // step 6: encode outputs with new rlits
+    for (bbid, old_right_max, right_max, olits) in to_extend {
+        let right = tot_db[bbid].right().unwrap();
+        let left = tot_db[bbid].left().unwrap();
+        for (olit, val) in olits {
             for rval in tot_db[right.id].vals(
                 right.rev_map(old_right_max + 1)..=right.rev_map(std::cmp::min(right_max + 1, val)),
             ) {
@@ -799,14 +806,8 @@ where
                     }
                 }
             }
+            tot_db[bbid].mut_unit().lits[val - 1].add_semantics(totdb::Semantics::If);
         }
-        // next old right max
-        let bot_buck = tot_db[bbid].mut_unit();
-        old_right_max = bot_buck.lits.len() / 2;
-        // add new output literals
-        let len = right_max + left_max;
-        debug_assert!(bot_buck.lits.len() <= len);
-        bot_buck.lits.resize(len, totdb::LitData::None);
     }
 
     Ok(())
diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index 08da22d..43aaa5b 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -1346,7 +1346,7 @@ impl LitData {
     }
 
     #[inline]
-    fn add_semantics(&mut self, new_semantics: Semantics) {
+    pub(crate) fn add_semantics(&mut self, new_semantics: Semantics) {
         match self {
             LitData::None => panic!(),
             LitData::Lit {
@@ -1358,7 +1358,7 @@ impl LitData {
     }
 
     #[inline]
-    fn remove_semantics(&mut self, remove_semantics: Semantics) {
+    pub(crate) fn remove_semantics(&mut self, remove_semantics: Semantics) {
         match self {
             LitData::None => (),
             LitData::Lit { semantics, .. } => {
-- 
2.43.0


From 693e8ebff7115f3d3f3d9fc51fc1fbe648cf7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 050/108] fix: the empty clause does not use a variable in the
 simulated incremental solver

---
 src/solvers/simulators.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 83d63b1..abf9069 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -73,13 +73,12 @@ impl<S, Init> Incremental<S, Init> {
 
     #[inline]
     fn update_max_var(&mut self, clause: &Cl) {
-        if self.stats.max_var.is_none() {
-            self.stats.max_var = Some(crate::types::Var::new(0));
-        }
-        let max_var = self.stats.max_var.as_mut().unwrap();
-        for lit in clause {
-            *max_var = std::cmp::max(*max_var, lit.var());
-        }
+        self.stats.max_var = self
+            .stats
+            .max_var
+            .into_iter()
+            .chain(clause.iter().map(|lit| lit.var()))
+            .max();
     }
 }
 
-- 
2.43.0


From 822621d83373ca7e26af31bc1a3f3420bef0b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 051/108] fix: failures of the inner solver of the simulated
 incremental solver

If the inner solver failed, later calls used an inner solver that did not contain all clauses,
still contained the assumptions, or could not be used any more.
---
 src/solvers/simulators.rs | 55 +++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index abf9069..bce051c 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -82,6 +82,26 @@ impl<S, Init> Incremental<S, Init> {
     }
 }
 
+impl<S, Init> Incremental<S, Init>
+where
+    S: super::Solve,
+    Init: super::Initialize<S>,
+{
+    /// Ensures that the inner solver contains exactly the stored clauses
+    ///
+    /// The state is [`InternalSolverState::Unknown`] afterwards, so that the inner solver is
+    /// initialized again if anything fails before the state is updated.
+    fn prepare(&mut self) -> anyhow::Result<()> {
+        if !matches!(self.state, InternalSolverState::Init) {
+            self.state = InternalSolverState::Unknown;
+            self.solver = Init::init();
+            self.solver.add_cnf_ref(&self.clauses)?;
+        }
+        self.state = InternalSolverState::Unknown;
+        Ok(())
+    }
+}
+
 impl<S, Init> super::Solve for Incremental<S, Init>
 where
     S: super::Solve,
@@ -97,11 +117,9 @@ where
             InternalSolverState::Unsat(lits) if lits.is_empty() => {
                 return Ok(super::SolverResult::Unsat)
             }
-            InternalSolverState::Unknown | InternalSolverState::Unsat(_) => {
-                self.solver = Init::init();
-                self.solver.add_cnf_ref(&self.clauses)?;
-            }
-            InternalSolverState::Init => (),
+            InternalSolverState::Unknown
+            | InternalSolverState::Unsat(_)
+            | InternalSolverState::Init => self.prepare()?,
         }
         let start = crate::utils::Timer::now();
         let res = self.solver.solve()?;
@@ -138,14 +156,9 @@ where
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(clause.as_ref());
         self.update_max_var(clause.as_ref());
-        if matches!(self.state, InternalSolverState::Init) {
-            self.solver.add_clause_ref(clause)?;
-        } else {
-            self.state = InternalSolverState::Init;
-            self.solver = Init::init();
-            self.solver.add_cnf_ref(&self.clauses)?;
-            self.solver.add_clause_ref(&clause)?;
-        }
+        self.prepare()?;
+        self.solver.add_clause_ref(clause)?;
+        self.state = InternalSolverState::Init;
         self.clauses
             .add_clause(clause.as_ref().iter().copied().collect());
         Ok(())
@@ -155,14 +168,9 @@ where
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(&clause);
         self.update_max_var(&clause);
-        if matches!(self.state, InternalSolverState::Init) {
-            self.solver.add_clause_ref(&clause)?;
-        } else {
-            self.state = InternalSolverState::Init;
-            self.solver = Init::init();
-            self.solver.add_cnf_ref(&self.clauses)?;
-            self.solver.add_clause_ref(&clause)?;
-        }
+        self.prepare()?;
+        self.solver.add_clause_ref(&clause)?;
+        self.state = InternalSolverState::Init;
         self.clauses.add_clause(clause);
         Ok(())
     }
@@ -185,10 +193,7 @@ where
 {
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<super::SolverResult> {
         let start = crate::utils::Timer::now();
-        if !matches!(self.state, InternalSolverState::Init) {
-            self.solver = Init::init();
-            self.solver.add_cnf_ref(&self.clauses)?;
-        }
+        self.prepare()?;
         for lit in assumps {
             self.solver.add_unit(*lit)?;
         }
-- 
2.43.0


From 1c2252c53e6e9e8859e905f902ec66e3db1df79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 052/108] fix: solution-improving search with variables or
 clauses the solver does not know of

The formula was taken to be satisfiable if it consisted of the empty clause, and variables of the
objective that do not appear in the constraints were reused in the encoding.
---
 src/algs/maxsat.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..9bf4789 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -61,10 +61,15 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
-            return Some((Assignment::default(), 0));
-        };
-        let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
+        // the objective might contain variables that do not appear in the constraints
+        let max_var = objective
+            .iter()
+            .map(|(lit, _)| lit.var())
+            .chain(solver.max_var())
+            .max();
+        let mut vm = crate::instances::BasicVarManager::from_next_free(
+            max_var.map_or(crate::types::Var::new(0), |max_var| max_var + 1),
+        );
         let mut enc: PbEnc = objective.iter().copied().collect();
 
         let mut sol = None;
@@ -72,7 +77,18 @@ where
         loop {
             match solver.solve().expect("solver error while solving") {
                 SolverResult::Sat => {
-                    let assign = solver.solution(max_var).expect("failed getting solution");
+                    let mut assign = match std::cmp::min(max_var, solver.max_var()) {
+                        Some(high_var) => {
+                            solver.solution(high_var).expect("failed getting solution")
+                        }
+                        None => Assignment::default(),
+                    };
+                    // any value can be chosen for variables that the solver did not assign
+                    for &(lit, _) in objective {
+                        if assign.lit_value(lit) == crate::types::TernaryVal::DontCare {
+                            assign.assign_lit(!lit);
+                        }
+                    }
                     let val = objective_value(objective, &assign);
                     sol = Some((assign, val));
                     if val == 0 {
-- 
2.43.0


From 9fd092be7a22c785bfb736491c334b2d4a4df0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 053/108] fix: certified totalizer encodings of constraints
 with trivial bounds

If a bound is trivial, or if there is only a single literal, no totalizer output with semantics
exists in the proof, and encoding the constraint panicked.
---
 src/encodings/card/totalizer/mod.rs | 33 +++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index b3ce62b..2369a36 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -451,11 +451,16 @@ impl super::cert::BoundUpper for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, ub) = constr.decompose();
-        if ub > lits.len() {
+        if ub >= lits.len() {
+            return Ok(());
+        }
+        if let [lit] = lits[..] {
+            // no structure is built for a single literal
+            let unit_cl = crate::clause![!lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
@@ -556,13 +561,21 @@ impl super::cert::BoundLower for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, lb) = constr.decompose();
         if lb > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if lb == 0 {
+            return Ok(());
+        }
+        if let [lit] = lits[..] {
+            // no structure is built for a single literal
+            let unit_cl = crate::clause![lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
+            return Ok(());
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_lb_cert(lb..=lb, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
@@ -664,13 +677,19 @@ impl super::cert::BoundBoth for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, b) = constr.decompose();
         if b > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if b == 0 || b == lits.len() {
+            // one of the two bounds is trivial
+            use crate::types::constraints::CardConstraint;
+            let lb = CardConstraint::new_lb(lits.iter().copied(), b);
+            Self::encode_constr_cert((lb, id), collector, var_manager, proof)?;
+            let ub = CardConstraint::new_ub(lits, b);
+            return Self::encode_constr_cert((ub, id + 1), collector, var_manager, proof);
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_both_cert(b..=b, collector, var_manager, proof)?;
         // UB
-- 
2.43.0


From 42da37cf772411e453545c6c8709c6711c4c57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 054/108] fix: certified generalized totalizer encodings of
 single constraints

Input literals heavier than the bound are never part of the tree, encoding a constraint panicked
if there was no output because of this. If all literals in the tree have the same weight, the
semantics of the outputs have to be scaled before they are used to derive the unit clauses.
---
 src/encodings/pb/gte/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 01641cc..38294f7 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -438,8 +438,6 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         use crate::encodings::pb::BoundUpper;
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, mut id) = constr;
         let (lits, ub) = constr.decompose();
         if ub < 0 {
@@ -456,13 +454,9 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             .enforce_ub(ub)
             .expect("should have caught special case before here")
         {
-            let (olit, sem_defs) = enc
-                .output_proof_details(val)
-                .expect("encoded just before, so should be fine");
             let unit_cl = crate::clause![unit];
-            let unit_id = if unit.var() < olit.var() {
+            let unit_id = if let Some(&weight) = enc.lit_buffer.get(&!unit) {
                 // input literal with weight larger than bound
-                let weight = *enc.lit_buffer.get(&!unit).unwrap();
                 let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
                 // simplify main constraint
                 #[cfg(feature = "verbose-proofs")]
@@ -476,10 +470,18 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             } else {
                 // output literal
                 // NOTE: by the time we're here, all buffered literals have been removed from `id`
+                let (olit, sem_defs) = enc
+                    .output_proof_details(val)
+                    .expect("encoded just before, so should be fine");
                 debug_assert_eq!(!unit, olit);
+                // NOTE: the semantics are in terms of the values at the root node, not scaled by
+                // the connection to it
+                let multiplier = crate::utils::unreachable_none!(enc.root).multiplier();
                 let unit_id = proof.operations(
-                    &((pigeons::OperationSequence::<Var>::from(id)
-                        + sem_defs.only_if_def.unwrap())
+                    &((pigeons::OperationSequence::<Var>::from(
+                        sem_defs.only_if_def.unwrap(),
+                    ) * multiplier
+                        + id)
                         / val),
                 )?;
                 #[cfg(feature = "verbose-proofs")]
-- 
2.43.0


From 2662b406b5dd1f926b00c3e56369d14ed3e370c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 055/108] fix: certified encoding of pseudo-Boolean constraints
 that are scaled cardinality constraints

The identifier of the pseudo-Boolean constraint was passed on for the cardinality constraint, the
clauses derived from it in the proof were therefore weaker than the ones added to the
encoding.
---
 src/encodings/pb/cert.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index f957e6e..d55a703 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -384,8 +384,12 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
-        if let PbConstraint::Eq(eq) = &constr {
-            let unit_weight = crate::utils::unreachable_none!(eq.find_unit_weight());
+        let unit_weight = crate::utils::unreachable_none!(match &constr {
+            PbConstraint::Ub(constr) => constr.find_unit_weight(),
+            PbConstraint::Lb(constr) => constr.find_unit_weight(),
+            PbConstraint::Eq(constr) => constr.find_unit_weight(),
+        });
+        if let PbConstraint::Eq(_) = &constr {
             if constr.bound().unsigned_abs() % unit_weight != 0 {
                 // equality where the bound is not divisible by the unit weight: rounding the lower
                 // and the upper bound makes them contradict each other
@@ -398,6 +402,17 @@ pub fn encode_pb_constraint<
                     .map_err(EncodingError::from);
             }
         }
+        if unit_weight > 1 {
+            // scale the constraint(s) in the proof to match the cardinality constraint
+            let scaled_id = proof
+                .operations(&(pigeons::OperationSequence::<Var>::from(id) / unit_weight))?;
+            if let PbConstraint::Eq(_) = &constr {
+                proof.operations(
+                    &(pigeons::OperationSequence::<Var>::from(id + 1) / unit_weight),
+                )?;
+            }
+            id = scaled_id;
+        }
         let card = crate::utils::unreachable_err!(constr.into_card_constr());
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
-- 
2.43.0


From 8790ff081f62d963584d3284c85bb0d804f4fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 056/108] fix: hint for certified encodings of equalities to a
 negative value

---
 src/encodings/pb/cert.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index d55a703..82a7d01 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -353,6 +353,10 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_unsat() {
+        if matches!(constr, PbConstraint::Eq(_)) && constr.bound() < 0 {
+            // the upper bounding constraint is the one that cannot be satisfied
+            id += 1;
+        }
         let empty = crate::clause![];
         let unsat_id = proof.reverse_unit_prop(&empty, [id.into()])?;
         collector.add_cert_clause(empty, unsat_id)?;
-- 
2.43.0


From 9f278497609bc7b7bca613e9a124d4a1e9dd1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 057/108] fix: range of certified lower bounds with inverted
 pseudo-Boolean encodings

---
 src/encodings/pb/simulators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index b2b8482..a224c01 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -262,7 +262,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -433,7 +433,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_change_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
-- 
2.43.0


From 61075912a0bcfa1506a9cb70c58c088d1e73a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 058/108] fix: simulated certified encodings of unsatisfiable
 and trivial constraints

---
 src/encodings/card/simulators.rs | 3 +++
 src/encodings/pb/simulators.rs   | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index 3a06363..f72c1a1 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -286,6 +286,9 @@ where
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
+        if constr.0.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = (constr.0.invert(), constr.1);
         CE::encode_ub_constr_cert(constr, collector, var_manager, proof)?;
         Ok(())
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index a224c01..2eb84e2 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -1021,6 +1021,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_ub_constr_cert((constr, id), collector, var_manager, proof)?;
         Ok(())
@@ -1085,6 +1088,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_tautology() {
+            return Ok(());
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_lb_constr_cert((constr, id), collector, var_manager, proof)
     }
-- 
2.43.0


From 84557c5452792d6c889d7535dda5c3ebaad03113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 059/108] fix: running out of memory while building a certified
 totalizer

Outputs were marked as encoded before their clauses were added, so that the missing clauses were
never added later. Encoding both bounds now also resets what has been encoded before, as the
uncertified encoding does.
---
 src/encodings/card/totalizer/mod.rs | 1 +
 src/encodings/totdb/cert.rs         | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 2369a36..2ab0127 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -653,6 +653,7 @@ impl super::cert::BoundBoth for Totalizer {
         use super::cert::BoundLowerIncremental;
         use super::cert::BoundUpperIncremental;
 
+        self.db.reset_encoded(totdb::Semantics::IfAndOnlyIf);
         self.encode_ub_change_cert(range.clone(), collector, var_manager, proof)?;
         self.encode_lb_change_cert(range, collector, var_manager, proof)?;
         Ok(())
diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 748b526..8f33252 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -1005,9 +1005,6 @@ impl super::Db {
             .missing_semantics(req_semantics)
             .expect("semantics are already encoded");
 
-        // Mark positive literal as encoded (done first to avoid borrow checker problems)
-        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
-
         let n_left_leaves = pre.lcon.len_limit.map_or(
             if pre.lcon.offset() == 0 {
                 self[pre.lcon.id].n_leaves()
@@ -1122,6 +1119,10 @@ impl super::Db {
             collector.add_cert_clause(clause, id)?;
         }
 
+        // Only mark the output as encoded once all clauses have been added, in case the collector
+        // runs out of memory
+        self[id].mut_unit().lits[idx].add_semantics(req_semantics);
+
         Ok(())
     }
 
-- 
2.43.0


From 82b493e20a33f363a3d27a7e1819503c57546d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 060/108] fix: return errors when starting or concluding a
 proof fails

If writing failed while starting or concluding a proof, the proof was dropped, which tried to end
the proof on the same writer, and panicked.
---
 pigeons/src/lib.rs | 47 ++++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index f986fb5..d5c4f8d 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -96,7 +96,7 @@ pub(crate) use unreachable_err;
 pub struct Proof<Writer: std::io::Write> {
     /// Where the proof is written to
     writer: Writer,
-    // NOTE: if anything is added here, make sure to manually drop it in [`Self::end`]
+    // NOTE: if anything is added here, make sure to manually drop it in [`Self::into_writer`]
     /// The next free constraint ID
     next_id: AbsConstraintId,
     /// The next free proof-only variable
@@ -142,6 +142,7 @@ where
         optimization: bool,
     ) -> std::io::Result<Self> {
         writeln!(writer, "pseudo-Boolean proof version 2.0")?;
+        writeln!(writer, "f {num_constraints}")?;
         let next_id = AbsConstraintId(unreachable_err!((num_constraints + 1).try_into()));
         let mut this = Self {
             writer,
@@ -157,7 +158,6 @@ where
         if optimization {
             this.problem_type = ProblemType::Optimization;
         }
-        this.verify_num_constraints(num_constraints)?;
         Ok(this)
     }
 
@@ -185,6 +185,7 @@ where
         conclusion: &Conclusion<V>,
     ) -> std::io::Result<Self> {
         writeln!(writer, "pseudo-Boolean proof version 2.0")?;
+        writeln!(writer, "f {num_constraints}")?;
         let next_id = AbsConstraintId(unreachable_err!((num_constraints + 1).try_into()));
         let mut this = Self {
             writer,
@@ -197,7 +198,6 @@ where
         if optimization {
             this.problem_type = ProblemType::Optimization;
         }
-        this.verify_num_constraints(num_constraints)?;
         Ok(this)
     }
 
@@ -705,30 +705,8 @@ where
         writeln!(self.writer, "output {guarantee}")
     }
 
-    /// Adds a conclusion section to the proof
-    ///
-    /// # Proof Log
-    ///
-    /// Writes a `conclusion` line.
-    ///
-    /// # Errors
-    ///
-    /// If writing the proof fails.
-    fn conclusion<V: VarLike>(&mut self, conclusion: &Conclusion<V>) -> std::io::Result<()> {
-        writeln!(self.writer, "conclusion {conclusion}")
-    }
-
-    /// Ends the proof and returns the writer
-    ///
-    /// # Proof Log
-    ///
-    /// Writes an `end` line.
-    ///
-    /// # Errors
-    ///
-    /// If writing the proof fails.
-    fn end(mut self) -> std::io::Result<Writer> {
-        writeln!(self.writer, "end pseudo-Boolean proof")?;
+    /// Takes the writer out of the proof, without ending the proof
+    fn into_writer(self) -> Writer {
         // wrap self in ManuallyDrop to avoid calling Drop on it
         let mut nodrop = std::mem::ManuallyDrop::new(self);
         // manually drop everything but the writer, after this never use any of these fields in
@@ -741,8 +719,7 @@ where
             std::ptr::drop_in_place(&mut nodrop.default_conclusion);
         }
         // unsafely move writer out, after this never use writer in nodrop anymore
-        let writer = unsafe { std::ptr::read(&nodrop.writer) };
-        Ok(writer)
+        unsafe { std::ptr::read(&nodrop.writer) }
     }
 
     /// Concludes the proof by adding the output and conclusions sections and ending the proof.
@@ -755,13 +732,17 @@ where
     ///
     /// If writing the proof fails.
     pub fn conclude<V: VarLike>(
-        mut self,
+        self,
         guarantee: OutputGuarantee,
         conclusion: &Conclusion<V>,
     ) -> std::io::Result<Writer> {
-        self.output(guarantee)?;
-        self.conclusion(conclusion)?;
-        self.end()
+        // from here on, errors are returned, rather than running into them again when dropping
+        let mut writer = self.into_writer();
+        writeln!(writer, "output {guarantee}")?;
+        writeln!(writer, "conclusion {conclusion}")?;
+        writeln!(writer, "end pseudo-Boolean proof")?;
+        writer.flush()?;
+        Ok(writer)
     }
 
     /// Checks whether a constraint is equal to a constraint that is already in the database
-- 
2.43.0


From 77eb686bfa11c072e7a8a6dc42a36b78a14725d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 061/108] fix: ending a proof when it is dropped

Flush the writer, since the error is otherwise lost when the writer itself is dropped, and do not
panic while already unwinding.
---
 pigeons/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index d5c4f8d..ebb5f2e 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -111,11 +111,14 @@ pub struct Proof<Writer: std::io::Write> {
 
 impl<Writer: std::io::Write> Drop for Proof<Writer> {
     fn drop(&mut self) {
-        writeln!(self.writer, "output {}", self.default_conclusion.0)
-            .expect("could not finish writing proof");
-        writeln!(self.writer, "conclusion {}", self.default_conclusion.1)
-            .expect("could not finish writing proof");
-        writeln!(self.writer, "end pseudo-Boolean proof").expect("could not finish writing proof");
+        let res = writeln!(self.writer, "output {}", self.default_conclusion.0)
+            .and_then(|()| writeln!(self.writer, "conclusion {}", self.default_conclusion.1))
+            .and_then(|()| writeln!(self.writer, "end pseudo-Boolean proof"))
+            .and_then(|()| self.writer.flush());
+        // panicking while already unwinding would abort
+        if !std::thread::panicking() {
+            res.expect("could not finish writing proof");
+        }
     }
 }
 
-- 
2.43.0


From 6af896cacca202d2d523f0a05cbb0bec9e3106d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 062/108] fix: write the offset of objectives to the proof

---
 pigeons/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index 0d38217..d926d96 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -902,7 +902,11 @@ impl<V: VarLike, O: ObjectiveLike<V>> std::fmt::Display for ObjFormatter<'_, V,
             self.obj
                 .sum_iter()
                 .format_with(" ", |(cf, ax), f| f(&format_args!("{cf} {ax}")))
-        )
+        )?;
+        match self.obj.offset() {
+            0 => Ok(()),
+            offset => write!(f, " {offset}"),
+        }
     }
 }
 
-- 
2.43.0


From d96ad494c764a141f6e633935bb1f5072f8113ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 063/108] fix: values of negated and unknown literals in
 minisat and glucose

The sign of the literal was ignored, so that a literal and its negation got
the same value, and the model was read beyond its end for variables that it
does not contain.
---
 glucose/vendor/cglucose4.cc        | 8 ++++++--
 minisat/vendor/minisat/cminisat.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 85953ca..437cbeb 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -135,8 +135,12 @@ int cglucosesimp4_solve(CGlucoseSimp4 *handle, const c_Lit *assumps,
 
 int cglucose4_val(CGlucose4 *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l{lit.x};
+  // variables added since the model was found do not have a value
+  if (var(l) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5b998e9..d8f5001 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -131,8 +131,12 @@ int cminisatsimp_solve(CMinisatSimp *handle, const c_Lit *assumps,
 
 int cminisat_val(CMinisat *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l{lit.x};
+  // variables added since the model was found do not have a value
+  if (var(l) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
-- 
2.43.0


From ab3a6f6a6a408480d43a869938a9633bd45b347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 064/108] fix: do not create a variable for empty clauses and
 assumptions in minisat and glucose

Adding an empty clause or solving without assumptions created the first
variable if there was none.
---
 glucose/vendor/cglucose4.cc        | 2 +-
 minisat/vendor/minisat/cminisat.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 437cbeb..58c75e6 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -64,7 +64,7 @@ void cglucosesimp4_release(CGlucoseSimp4 *handle) {
 
 void cglucose4_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index d8f5001..fdbf00b 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -62,7 +62,7 @@ void cminisatsimp_release(CMinisatSimp *handle) { delete (SimpSolver *)handle; }
 
 void cminisat_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
-- 
2.43.0


From 245a81fc6daa6fdd4da5d07535711c0ff5324ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 065/108] fix: propagating literals of unknown variables in
 minisat and glucose

As when solving under assumptions, the variables have to be created first.
Without this, the assignment was accessed beyond its end.
---
 glucose/vendor/cglucose4.cc        | 1 +
 minisat/vendor/minisat/cminisat.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 58c75e6..f10cca2 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -294,6 +294,7 @@ int cglucose4_propcheck(CGlucose4 *handle, const c_Lit *assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cglucose4_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index fdbf00b..5c080ca 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -290,6 +290,7 @@ int cminisat_propcheck(CMinisat *handle, const c_Lit *assumps, size_t n_assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cminisat_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
-- 
2.43.0


From 352fb4783e3a70f3b7e0b152d2a223a2f9fd1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 066/108] fix: reserving variables in a kissat solver that has
 already solved

The solver was put back to the input state, where it accepts clauses and
solve calls, which makes Kissat abort the process after it has solved.
---
 kissat/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 5bf55c6..dfc3d07 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -297,7 +297,10 @@ impl rustsat::solvers::Solve for Kissat<'_> {
     }
 
     fn reserve(&mut self, max_var: Var) -> anyhow::Result<()> {
-        self.state = InternalSolverState::Input;
+        // Reserving does not allow for adding clauses again after having solved
+        if self.state == InternalSolverState::Configuring {
+            self.state = InternalSolverState::Input;
+        }
         unsafe { ffi::kissat_reserve(self.handle, max_var.to_ipasir()) };
         Ok(())
     }
-- 
2.43.0


From e2d4d76e6e6c1d8ba49caac6539cc97dc24b3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 067/108] fix: checking whether an unknown variable has been
 eliminated

Solving under assumptions over variables that the solver does not know yet
read beyond the end of the vector of eliminated variables.
---
 glucose/src/simp.rs | 7 +++++++
 minisat/src/simp.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e9da68f..2f781ee 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -72,6 +72,13 @@ impl Glucose {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: rustsat::types::Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cglucosesimp4_is_eliminated(self.handle, var.idx32() as c_int)
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index fb0b90e..4585d11 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -73,6 +73,13 @@ impl Minisat {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cminisatsimp_is_eliminated(self.handle, var.idx32() as c_int)
-- 
2.43.0


From 41eaa6478640a150fae19afe15f3ec0f8e490b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 068/108] fix: reject clauses over eliminated variables in
 glucose

---
 glucose/src/lib.rs  | 9 +++++++++
 glucose/src/simp.rs | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/glucose/src/lib.rs b/glucose/src/lib.rs
index e6bc642..3e728a6 100644
--- a/glucose/src/lib.rs
+++ b/glucose/src/lib.rs
@@ -46,6 +46,15 @@ pub struct InvalidApiReturn {
 #[error("assumption variable {0} has been eliminated by glucose simplification")]
 pub struct AssumpEliminated(rustsat::types::Var);
 
+/// Error returned if a variable of an added clause was eliminated in preprocessing by the solver
+///
+/// Glucose does not support adding clauses over eliminated variables. To prevent this, variables
+/// that will be used in clauses added after solving can be frozen via
+/// [`rustsat::solvers::FreezeVar`]
+#[derive(thiserror::Error, Clone, Copy, PartialEq, Eq, Debug)]
+#[error("clause variable {0} has been eliminated by glucose simplification")]
+pub struct ClauseVarEliminated(rustsat::types::Var);
+
 #[derive(Debug, PartialEq, Eq, Default)]
 enum InternalSolverState {
     #[default]
diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index 2f781ee..590fda8 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -183,6 +183,11 @@ impl rustsat::solvers::Solve for Glucose {
         C: AsRef<Cl> + ?Sized,
     {
         let clause = clause.as_ref();
+        for l in clause {
+            if self.var_eliminated(l.var()) {
+                return Err(crate::ClauseVarEliminated(l.var()).into());
+            }
+        }
         // Update wrapper-internal state
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(clause);
-- 
2.43.0


From 9de6edb58ad6c80f50062d59e67ceab1d30e2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 069/108] fix: clear the core of earlier glucose calls when
 preprocessing decides the instance

---
 glucose/vendor/cglucose4.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index f10cca2..3d3ba5b 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -115,6 +115,10 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
   lbool res;
   try {
     cglucose4_ensure_vars(solver, assumps, n_assumps);
+    // if preprocessing decides the instance, the results of earlier calls are
+    // not cleared by the solver
+    solver->model.clear();
+    solver->conflict.clear();
     res = solver->solveLimited(assumps, (int)n_assumps);
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
-- 
2.43.0


From 511c145298f0e6f0c86dff88d465bf1835ee81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 070/108] fix: reuse earlier cadical results only if they do
 not depend on assumptions

---
 cadical/src/lib.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c15b779..e654252 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -251,6 +251,17 @@ impl CaDiCaL<'_, '_> {
         Ok(core)
     }
 
+    /// Checks whether the solver is in unsatisfiable state, independently of assumptions and the
+    /// temporary clause used in the last call
+    fn unsat_without_assumps(&self) -> bool {
+        match &self.state {
+            InternalSolverState::Unsat(core) => {
+                core.is_empty() && unsafe { ffi::ccadical_constraint_failed(self.handle) } == 0
+            }
+            _ => false,
+        }
+    }
+
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
@@ -475,7 +486,7 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(_) = self.state {
+        if self.unsat_without_assumps() {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
@@ -523,11 +534,8 @@ impl CaDiCaL<'_, '_> {
         assumps: &[Lit],
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
-        // If already solved, return state
-        if let InternalSolverState::Sat = self.state {
-            return Ok(SolverResult::Sat);
-        }
-        if let InternalSolverState::Unsat(_) = self.state {
+        // If already solved independently of the assumptions, return state
+        if self.unsat_without_assumps() {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
@@ -545,7 +553,7 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
@@ -716,10 +724,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
-                return Ok(SolverResult::Unsat);
-            }
+        if self.unsat_without_assumps() {
+            return Ok(SolverResult::Unsat);
         }
         let start = rustsat::utils::Timer::now();
         // Solve with CaDiCaL backend
-- 
2.43.0


From 149a918c0edc3e288f56ba3f53577b5cc51dabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 071/108] fix: values of variables unknown to cadical

---
 cadical/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index e654252..678389b 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -756,6 +756,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
     }
 
     fn lit_val(&self, lit: Lit) -> anyhow::Result<rustsat::types::TernaryVal> {
+        use rustsat::solvers::SolveStats;
+
         if self.state != InternalSolverState::Sat {
             return Err(rustsat::solvers::StateError {
                 required_state: rustsat::solvers::SolverState::Sat,
@@ -763,13 +765,16 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
             }
             .into());
         }
+        match self.max_var() {
+            Some(max) if lit.var() <= max => (),
+            // CaDiCaL returns -1 if variable is higher than max var, which is ambiguous
+            _ => return Ok(rustsat::types::TernaryVal::DontCare),
+        }
         let lit = lit.to_ipasir();
         match unsafe { ffi::ccadical_val(self.handle, lit) } {
             0 => Ok(rustsat::types::TernaryVal::DontCare),
             p if p == lit => Ok(rustsat::types::TernaryVal::True),
             n if n == -lit => Ok(rustsat::types::TernaryVal::False),
-            // CaDiCaL returns -1 if variable is higher than max var
-            -1 => Ok(rustsat::types::TernaryVal::DontCare),
             value => Err(InvalidApiReturn {
                 api_call: "ccadical_val",
                 value,
-- 
2.43.0


From fdbee799e8a26699c03cc714635252b9e68f1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:58 +0000
Subject: [PATCH 072/108] fix: do not print debugging output when propagating
 with cadical

---
 cadical/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 678389b..0a9431c 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -1100,7 +1100,6 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
         }
         let res = handle_oom!(unsafe { ffi::ccadical_propagate(self.handle) });
         let mut props = Vec::new();
-        dbg!(res);
         match res {
             0 => {
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-- 
2.43.0


From 8c777618b371d61fe2bda1d4625bd1de95eadfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 073/108] fix: flipping variables cadical learned about after
 solving

---
 cadical/vendor/src/flip.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cadical/vendor/src/flip.cpp b/cadical/vendor/src/flip.cpp
index 0c5f076..18acc04 100644
--- a/cadical/vendor/src/flip.cpp
+++ b/cadical/vendor/src/flip.cpp
@@ -31,7 +31,13 @@ bool Internal::flip (int lit) {
 
   const int idx = vidx (lit);
   const signed char original_value = vals[idx];
-  assert (original_value);
+
+  // Variables added (e.g., by setting their phase) after the solution has been
+  // found are not assigned yet.
+
+  if (!original_value)
+    return false;
+
   lit = original_value < 0 ? -idx : idx;
   assert (val (lit) > 0);
 
@@ -189,7 +195,13 @@ bool Internal::flippable (int lit) {
 
   const int idx = vidx (lit);
   const signed char original_value = vals[idx];
-  assert (original_value);
+
+  // Variables added (e.g., by setting their phase) after the solution has been
+  // found are not assigned yet.
+
+  if (!original_value)
+    return false;
+
   lit = original_value < 0 ? -idx : idx;
   assert (val (lit) > 0);
 
-- 
2.43.0


From 08820b618d0f36350c746d41f658fec1c86b2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 074/108] fix: declaring variables leaves the answer of earlier
 cadical calls

---
 cadical/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 0a9431c..2e213c0 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -651,6 +651,7 @@ impl CaDiCaL<'_, '_> {
     /// If `num_additional > i32::MAX`
     #[cfg(cadical_version = "v2.2")]
     pub fn declare_more_variables(&mut self, num_additional: u32) -> Var {
+        self.state = InternalSolverState::Input;
         Lit::from_ipasir(unsafe {
             ffi::ccadical_declare_more_variables(
                 self.handle,
-- 
2.43.0


From fb5d093e008f87751d64d8f18866d7fa6df99c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 075/108] fix: melting variables that are not frozen in cadical

---
 cadical/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 2e213c0..19c2290 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -997,6 +997,10 @@ impl rustsat::solvers::FreezeVar for CaDiCaL<'_, '_> {
     }
 
     fn melt_var(&mut self, var: Var) -> anyhow::Result<()> {
+        if !self.is_frozen(var)? {
+            // CaDiCaL requires melted variables to be frozen
+            return Ok(());
+        }
         unsafe { ffi::ccadical_melt(self.handle, var.to_ipasir()) };
         Ok(())
     }
-- 
2.43.0


From 6923c457e7c6be93bd9d8792364d3222d4563580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 076/108] fix: flipping literals whose value is needed to
 extend the cadical solution

---
 cadical/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 19c2290..bbe9900 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -1020,6 +1020,11 @@ impl rustsat::solvers::FlipLit for CaDiCaL<'_, '_> {
             }
             .into());
         }
+        // CaDiCaL only checks whether `lit` itself is needed to extend the solution, but if `!lit`
+        // is, the flipped value would not last
+        if unsafe { ffi::ccadical_flippable(self.handle, (!lit).to_ipasir()) } == 0 {
+            return Ok(false);
+        }
         Ok(unsafe { ffi::ccadical_flip(self.handle, lit.to_ipasir()) } != 0)
     }
 
@@ -1031,7 +1036,10 @@ impl rustsat::solvers::FlipLit for CaDiCaL<'_, '_> {
             }
             .into());
         }
-        Ok(unsafe { ffi::ccadical_flippable(self.handle, lit.to_ipasir()) } != 0)
+        Ok(
+            unsafe { ffi::ccadical_flippable(self.handle, lit.to_ipasir()) } != 0
+                && unsafe { ffi::ccadical_flippable(self.handle, (!lit).to_ipasir()) } != 0,
+        )
     }
 }
 
-- 
2.43.0


From a2af5b2a83c9d9a47ae7273b111fc48772e304e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 077/108] fix: detaching the learner of cadical dropped the
 terminator

---
 cadical/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index bbe9900..c7d9430 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -948,7 +948,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ccadical_set_learn(self.handle, std::ptr::null_mut(), 0, None) }
     }
 }
-- 
2.43.0


From f471eea9c9fb2cb68b312a34e6826e34528599dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 078/108] fix: removing limits in minisat and glucose

---
 glucose/vendor/cglucose4.cc        | 24 ++++++++++++++++++++----
 minisat/vendor/minisat/cminisat.cc | 24 ++++++++++++++++++++----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 3d3ba5b..69b7146 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -227,19 +227,35 @@ int cglucosesimp4_n_vars(CGlucoseSimp4 *handle) {
 }
 
 void cglucose4_set_conf_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->conflicts;
+  solver->setConfBudget(limit);
 }
 
 void cglucosesimp4_set_conf_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->conflicts;
+  solver->setConfBudget(limit);
 }
 
 void cglucose4_set_prop_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->propagations;
+  solver->setPropBudget(limit);
 }
 
 void cglucosesimp4_set_prop_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->propagations;
+  solver->setPropBudget(limit);
 }
 
 void cglucose4_set_no_limit(CGlucose4 *handle) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5c080ca..b361df6 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -219,19 +219,35 @@ int cminisatsimp_n_vars(CMinisatSimp *handle) {
 }
 
 void cminisat_set_conf_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->conflicts;
+  solver->setConfBudget(limit);
 }
 
 void cminisatsimp_set_conf_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->conflicts;
+  solver->setConfBudget(limit);
 }
 
 void cminisat_set_prop_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  Solver *solver = (Solver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->propagations;
+  solver->setPropBudget(limit);
 }
 
 void cminisatsimp_set_prop_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  SimpSolver *solver = (SimpSolver *)handle;
+  // negative values remove the limit
+  if (limit < 0)
+    limit = -1 - (int64_t)solver->propagations;
+  solver->setPropBudget(limit);
 }
 
 void cminisat_set_no_limit(CMinisat *handle) {
-- 
2.43.0


From ded15f7388403ffcc4b036be04bd677f0e5566b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 079/108] fix: solving again after an interrupt with minisat
 and glucose

---
 glucose/vendor/cglucose4.cc        | 2 ++
 minisat/vendor/minisat/cminisat.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 69b7146..aaad100 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -120,6 +120,8 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
     solver->model.clear();
     solver->conflict.clear();
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only concerns the current call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index b361df6..745a25f 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -112,6 +112,8 @@ int cminisat_solve(CMinisat *handle, const c_Lit *c_assumps, size_t n_assumps) {
   try {
     cminisat_ensure_vars(solver, assumps, n_assumps);
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only concerns the current call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
-- 
2.43.0


From f8a001143cc64f5a879e1f15b5d3c1bc60cb64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 080/108] fix: using a kissat solver after it was interrupted

---
 kissat/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index dfc3d07..cc84c81 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -83,6 +83,7 @@ enum InternalSolverState {
     Input,
     Sat,
     Unsat(Vec<Lit>),
+    Unknown,
 }
 
 impl InternalSolverState {
@@ -92,6 +93,7 @@ impl InternalSolverState {
             InternalSolverState::Input => rustsat::solvers::SolverState::Input,
             InternalSolverState::Sat => rustsat::solvers::SolverState::Sat,
             InternalSolverState::Unsat(_) => rustsat::solvers::SolverState::Unsat,
+            InternalSolverState::Unknown => rustsat::solvers::SolverState::Unknown,
         }
     }
 }
@@ -313,6 +315,14 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         if let InternalSolverState::Unsat(_) = self.state {
             return Ok(SolverResult::Unsat);
         }
+        // Kissat does not support continuing an interrupted search
+        if let InternalSolverState::Unknown = self.state {
+            return Err(rustsat::solvers::StateError {
+                required_state: rustsat::solvers::SolverState::Input,
+                actual_state: self.state.to_external(),
+            }
+            .into());
+        }
         let start = rustsat::utils::Timer::now();
         // Solve with Kissat backend
         let res = unsafe { ffi::kissat_solve(self.handle) };
@@ -320,7 +330,7 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         match res {
             0 => {
                 self.stats.n_terminated += 1;
-                self.state = InternalSolverState::Input;
+                self.state = InternalSolverState::Unknown;
                 Ok(SolverResult::Interrupted)
             }
             10 => {
-- 
2.43.0


From 0417311a7dcfc90edb68048339c6363b19bb561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:51 +0000
Subject: [PATCH 081/108] fix: report running out of memory in all calls into
 cadical

---
 cadical/build.rs                             |  7 ++
 cadical/cpp-extension/ccadical_extension.cpp | 91 ++++++++++++++++++--
 cadical/cpp-extension/ccadical_extension.h   | 11 ++-
 cadical/src/lib.rs                           | 65 +++++++-------
 4 files changed, 135 insertions(+), 39 deletions(-)

diff --git a/cadical/build.rs b/cadical/build.rs
index 4fa17fd..bbfcbb8 100644
--- a/cadical/build.rs
+++ b/cadical/build.rs
@@ -244,6 +244,13 @@ fn generate_bindings(cadical_dir: &str, version: Version, out_dir: &str) {
         .blocklist_function("ccadical_assume")
         .blocklist_function("ccadical_solve")
         .blocklist_function("ccadical_constrain")
+        .blocklist_function("ccadical_constraint_failed")
+        .blocklist_function("ccadical_failed")
+        .blocklist_function("ccadical_freeze")
+        .blocklist_function("ccadical_init")
+        .blocklist_function("ccadical_phase")
+        .blocklist_function("ccadical_unphase")
+        .blocklist_function("ccadical_val")
         .blocklist_function("ccadical_set_option")
         .blocklist_function("ccadical_limit")
         .blocklist_function("ccadical_trace_proof")
diff --git a/cadical/cpp-extension/ccadical_extension.cpp b/cadical/cpp-extension/ccadical_extension.cpp
index 0e826a8..0b72aeb 100644
--- a/cadical/cpp-extension/ccadical_extension.cpp
+++ b/cadical/cpp-extension/ccadical_extension.cpp
@@ -3,6 +3,14 @@
 
 extern "C" {
 
+CCaDiCaL *ccadical_init_mem(void) {
+  try {
+    return ccadical_init();
+  } catch (std::bad_alloc &) {
+    return nullptr;
+  }
+}
+
 int ccadical_add_mem(CCaDiCaL *wrapper, int lit) {
   try {
     ((Wrapper *)wrapper)->solver->add(lit);
@@ -67,7 +75,63 @@ int64_t ccadical_redundant(CCaDiCaL *wrapper) {
 }
 
 int ccadical_simplify_rounds(CCaDiCaL *wrapper, int rounds) {
-  return ((Wrapper *)wrapper)->solver->simplify(rounds);
+  try {
+    return ((Wrapper *)wrapper)->solver->simplify(rounds);
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
+}
+
+int ccadical_phase_mem(CCaDiCaL *wrapper, int lit) {
+  try {
+    ((Wrapper *)wrapper)->solver->phase(lit);
+    return 0;
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
+}
+
+int ccadical_unphase_mem(CCaDiCaL *wrapper, int lit) {
+  try {
+    ((Wrapper *)wrapper)->solver->unphase(lit);
+    return 0;
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
+}
+
+int ccadical_val_mem(CCaDiCaL *wrapper, int lit, int *val) {
+  try {
+    *val = ccadical_val(wrapper, lit);
+    return 0;
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
+}
+
+int ccadical_failed_mem(CCaDiCaL *wrapper, int lit) {
+  try {
+    return ((Wrapper *)wrapper)->solver->failed(lit);
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
+}
+
+int ccadical_constraint_failed_mem(CCaDiCaL *wrapper) {
+  try {
+    return ((Wrapper *)wrapper)->solver->constraint_failed();
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
+}
+
+int ccadical_freeze_mem(CCaDiCaL *wrapper, int lit) {
+  try {
+    ((Wrapper *)wrapper)->solver->freeze(lit);
+    return 0;
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
 }
 
 int ccadical_resize(CCaDiCaL *wrapper, int min_max_var) {
@@ -99,11 +163,19 @@ int64_t ccadical_conflicts(CCaDiCaL *wrapper) {
 
 #ifdef V1_5
 int ccadical_flip(CCaDiCaL *wrapper, int lit) {
-  return ((Wrapper *)wrapper)->solver->flip(lit);
+  try {
+    return ((Wrapper *)wrapper)->solver->flip(lit);
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
 }
 
 int ccadical_flippable(CCaDiCaL *wrapper, int lit) {
-  return ((Wrapper *)wrapper)->solver->flippable(lit);
+  try {
+    return ((Wrapper *)wrapper)->solver->flippable(lit);
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
 }
 #endif
 
@@ -131,17 +203,22 @@ int ccadical_propagate(CCaDiCaL *wrapper) {
   }
 }
 
-void ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
-                      void *cb_data) {
+int ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
+                     void *cb_data) {
   std::vector<int> implied{};
+  try {
 #ifdef V2_2
-  ((Wrapper *)wrapper)->solver->implied(implied);
+    ((Wrapper *)wrapper)->solver->implied(implied);
 #else
-  ((Wrapper *)wrapper)->solver->get_entrailed_literals(implied);
+    ((Wrapper *)wrapper)->solver->get_entrailed_literals(implied);
 #endif
+  } catch (std::bad_alloc &) {
+    return OUT_OF_MEM;
+  }
   for (int lit : implied) {
     implied_cb(cb_data, lit);
   }
+  return 0;
 }
 #endif
 
diff --git a/cadical/cpp-extension/ccadical_extension.h b/cadical/cpp-extension/ccadical_extension.h
index d89ceb3..c5a2305 100644
--- a/cadical/cpp-extension/ccadical_extension.h
+++ b/cadical/cpp-extension/ccadical_extension.h
@@ -5,6 +5,7 @@
 
 const int OUT_OF_MEM = 50;
 
+CCaDiCaL *ccadical_init_mem(void);
 int ccadical_add_mem(CCaDiCaL *wrapper, int lit);
 int ccadical_assume_mem(CCaDiCaL *wrapper, int lit);
 int ccadical_constrain_mem(CCaDiCaL *wrapper, int lit);
@@ -19,6 +20,12 @@ int ccadical_set_option_ret(CCaDiCaL *wrapper, const char *name, int val);
 int ccadical_limit_ret(CCaDiCaL *wrapper, const char *name, int val);
 int64_t ccadical_redundant(CCaDiCaL *wrapper);
 int ccadical_simplify_rounds(CCaDiCaL *wrapper, int rounds);
+int ccadical_phase_mem(CCaDiCaL *wrapper, int lit);
+int ccadical_unphase_mem(CCaDiCaL *wrapper, int lit);
+int ccadical_freeze_mem(CCaDiCaL *wrapper, int lit);
+int ccadical_val_mem(CCaDiCaL *wrapper, int lit, int *val);
+int ccadical_failed_mem(CCaDiCaL *wrapper, int lit);
+int ccadical_constraint_failed_mem(CCaDiCaL *wrapper);
 int ccadical_resize(CCaDiCaL *wrapper, int min_max_var);
 #ifndef V2_2
 int64_t ccadical_propagations(CCaDiCaL *wrapper);
@@ -35,8 +42,8 @@ int ccadical_propcheck(CCaDiCaL *wrapper, const int *assumps,
                        void (*prop_cb)(void *, int), void *cb_data);
 #else
 int ccadical_propagate(CCaDiCaL *wrapper);
-void ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
-                      void *cb_data);
+int ccadical_implied(CCaDiCaL *wrapper, void (*implied_cb)(void *, int),
+                     void *cb_data);
 #endif
 #ifndef NTRACING
 int ccadical_trace_api_calls(CCaDiCaL *wrapper, const char *const path);
diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c7d9430..dc4935d 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -215,7 +215,7 @@ unsafe impl Send for CaDiCaL<'_, '_> {}
 
 impl Default for CaDiCaL<'_, '_> {
     fn default() -> Self {
-        let handle = unsafe { ffi::ccadical_init() };
+        let handle = unsafe { ffi::ccadical_init_mem() };
         assert!(
             !handle.is_null(),
             "not enough memory to initialize CaDiCaL solver"
@@ -234,17 +234,18 @@ impl Default for CaDiCaL<'_, '_> {
 }
 
 impl CaDiCaL<'_, '_> {
-    fn get_core_assumps(&self, assumps: &[Lit]) -> Result<Vec<Lit>, InvalidApiReturn> {
+    fn get_core_assumps(&self, assumps: &[Lit]) -> anyhow::Result<Vec<Lit>> {
         let mut core = Vec::new();
         for a in assumps {
-            match unsafe { ffi::ccadical_failed(self.handle, a.to_ipasir()) } {
+            match handle_oom!(unsafe { ffi::ccadical_failed_mem(self.handle, a.to_ipasir()) }) {
                 0 => (),
                 1 => core.push(!*a),
                 value => {
                     return Err(InvalidApiReturn {
                         api_call: "ccadical_failed",
                         value,
-                    })
+                    }
+                    .into())
                 }
             }
         }
@@ -253,13 +254,14 @@ impl CaDiCaL<'_, '_> {
 
     /// Checks whether the solver is in unsatisfiable state, independently of assumptions and the
     /// temporary clause used in the last call
-    fn unsat_without_assumps(&self) -> bool {
-        match &self.state {
+    fn unsat_without_assumps(&self) -> anyhow::Result<bool> {
+        Ok(match &self.state {
             InternalSolverState::Unsat(core) => {
-                core.is_empty() && unsafe { ffi::ccadical_constraint_failed(self.handle) } == 0
+                core.is_empty()
+                    && handle_oom!(unsafe { ffi::ccadical_constraint_failed_mem(self.handle) }) == 0
             }
             _ => false,
-        }
+        })
     }
 
     #[expect(clippy::cast_precision_loss)]
@@ -312,9 +314,9 @@ impl CaDiCaL<'_, '_> {
     /// Returns [`rustsat::solvers::StateError`] if the solver is not in [`rustsat::solvers::SolverState::Unsat`].
     pub fn tmp_clause_in_core(&mut self) -> anyhow::Result<bool> {
         match &self.state {
-            InternalSolverState::Unsat(_) => unsafe {
-                Ok(ffi::ccadical_constraint_failed(self.handle) != 0)
-            },
+            InternalSolverState::Unsat(_) => {
+                Ok(handle_oom!(unsafe { ffi::ccadical_constraint_failed_mem(self.handle) }) != 0)
+            }
             state => Err(rustsat::solvers::StateError {
                 required_state: rustsat::solvers::SolverState::Unsat,
                 actual_state: state.to_external(),
@@ -486,12 +488,12 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if self.unsat_without_assumps() {
+        if self.unsat_without_assumps()? {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend
-        match unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) } {
+        match handle_oom!(unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) }) {
             0 => {
                 self.state = InternalSolverState::Input;
                 Ok(SolverResult::Interrupted)
@@ -535,7 +537,7 @@ impl CaDiCaL<'_, '_> {
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
         // If already solved independently of the assumptions, return state
-        if self.unsat_without_assumps() {
+        if self.unsat_without_assumps()? {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
@@ -543,7 +545,7 @@ impl CaDiCaL<'_, '_> {
         for a in assumps {
             handle_oom!(unsafe { ffi::ccadical_assume_mem(self.handle, a.to_ipasir()) });
         }
-        match unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) } {
+        match handle_oom!(unsafe { ffi::ccadical_simplify_rounds(self.handle, rounds) }) {
             0 => {
                 self.state = InternalSolverState::Input;
                 Ok(SolverResult::Interrupted)
@@ -725,7 +727,7 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if self.unsat_without_assumps() {
+        if self.unsat_without_assumps()? {
             return Ok(SolverResult::Unsat);
         }
         let start = rustsat::utils::Timer::now();
@@ -772,7 +774,9 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
             _ => return Ok(rustsat::types::TernaryVal::DontCare),
         }
         let lit = lit.to_ipasir();
-        match unsafe { ffi::ccadical_val(self.handle, lit) } {
+        let mut val = 0;
+        handle_oom!(unsafe { ffi::ccadical_val_mem(self.handle, lit, &raw mut val) });
+        match val {
             0 => Ok(rustsat::types::TernaryVal::DontCare),
             p if p == lit => Ok(rustsat::types::TernaryVal::True),
             n if n == -lit => Ok(rustsat::types::TernaryVal::False),
@@ -980,19 +984,19 @@ impl rustsat::solvers::InterruptSolver for Interrupter {
 
 impl rustsat::solvers::PhaseLit for CaDiCaL<'_, '_> {
     fn phase_lit(&mut self, lit: Lit) -> anyhow::Result<()> {
-        unsafe { ffi::ccadical_phase(self.handle, lit.to_ipasir()) };
+        handle_oom!(unsafe { ffi::ccadical_phase_mem(self.handle, lit.to_ipasir()) });
         Ok(())
     }
 
     fn unphase_var(&mut self, var: Var) -> anyhow::Result<()> {
-        unsafe { ffi::ccadical_unphase(self.handle, var.to_ipasir()) };
+        handle_oom!(unsafe { ffi::ccadical_unphase_mem(self.handle, var.to_ipasir()) });
         Ok(())
     }
 }
 
 impl rustsat::solvers::FreezeVar for CaDiCaL<'_, '_> {
     fn freeze_var(&mut self, var: Var) -> anyhow::Result<()> {
-        unsafe { ffi::ccadical_freeze(self.handle, var.to_ipasir()) };
+        handle_oom!(unsafe { ffi::ccadical_freeze_mem(self.handle, var.to_ipasir()) });
         Ok(())
     }
 
@@ -1022,10 +1026,10 @@ impl rustsat::solvers::FlipLit for CaDiCaL<'_, '_> {
         }
         // CaDiCaL only checks whether `lit` itself is needed to extend the solution, but if `!lit`
         // is, the flipped value would not last
-        if unsafe { ffi::ccadical_flippable(self.handle, (!lit).to_ipasir()) } == 0 {
+        if handle_oom!(unsafe { ffi::ccadical_flippable(self.handle, (!lit).to_ipasir()) }) == 0 {
             return Ok(false);
         }
-        Ok(unsafe { ffi::ccadical_flip(self.handle, lit.to_ipasir()) } != 0)
+        Ok(handle_oom!(unsafe { ffi::ccadical_flip(self.handle, lit.to_ipasir()) }) != 0)
     }
 
     fn is_flippable(&mut self, lit: Lit) -> anyhow::Result<bool> {
@@ -1037,8 +1041,9 @@ impl rustsat::solvers::FlipLit for CaDiCaL<'_, '_> {
             .into());
         }
         Ok(
-            unsafe { ffi::ccadical_flippable(self.handle, lit.to_ipasir()) } != 0
-                && unsafe { ffi::ccadical_flippable(self.handle, (!lit).to_ipasir()) } != 0,
+            handle_oom!(unsafe { ffi::ccadical_flippable(self.handle, lit.to_ipasir()) }) != 0
+                && handle_oom!(unsafe { ffi::ccadical_flippable(self.handle, (!lit).to_ipasir()) })
+                    != 0,
         )
     }
 }
@@ -1116,24 +1121,24 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
         match res {
             0 => {
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-                unsafe {
+                handle_oom!(unsafe {
                     ffi::ccadical_implied(
                         self.handle,
                         Some(ffi::rustsat_cadical_collect_lits),
                         prop_ptr.cast::<std::os::raw::c_void>(),
-                    );
-                }
+                    )
+                });
             }
             10 => {
                 self.state = InternalSolverState::Sat;
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-                unsafe {
+                handle_oom!(unsafe {
                     ffi::ccadical_implied(
                         self.handle,
                         Some(ffi::rustsat_cadical_collect_lits),
                         prop_ptr.cast::<std::os::raw::c_void>(),
-                    );
-                }
+                    )
+                });
             }
             20 => {}
             value => {
-- 
2.43.0


From f5d081e5853cd306e92287dd0b7f29f56c190eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 082/108] fix: disconnecting a cadical proof tracer from a
 solver it is not connected to

---
 cadical/cpp-extension/ctracer.cpp | 4 +++-
 cadical/src/prooftracer.rs        | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cadical/cpp-extension/ctracer.cpp b/cadical/cpp-extension/ctracer.cpp
index 0dc8c04..6c6a681 100644
--- a/cadical/cpp-extension/ctracer.cpp
+++ b/cadical/cpp-extension/ctracer.cpp
@@ -149,7 +149,9 @@ bool ccadical_disconnect_proof_tracer(CCaDiCaL *wrapper,
                                       CCaDiCaLTracer *tracer) {
   bool ret =
       ((Wrapper *)wrapper)->solver->disconnect_proof_tracer((Tracer *)tracer);
-  delete (CaDiCaL::CTracer *)tracer;
+  // if it was not found, the tracer is still connected to another solver
+  if (ret)
+    delete (CaDiCaL::CTracer *)tracer;
   return ret;
 }
 }
diff --git a/cadical/src/prooftracer.rs b/cadical/src/prooftracer.rs
index eb8bbcd..3c801d2 100644
--- a/cadical/src/prooftracer.rs
+++ b/cadical/src/prooftracer.rs
@@ -188,7 +188,9 @@ impl super::CaDiCaL<'_, '_> {
     ///
     /// # Errors
     ///
-    /// If the handle is not connected to the given solver, returns [`ProofTracerNotConnected`]
+    /// If the handle is not connected to the given solver, returns [`ProofTracerNotConnected`]. In
+    /// this case the tracer stays alive (and is leaked), since it might be connected to another
+    /// solver.
     // We intentionally pass the handle by value here so that it cannot be used afterwards, since
     // it is not Clone of Copy
     pub fn disconnect_proof_tracer<PT>(
@@ -198,14 +200,14 @@ impl super::CaDiCaL<'_, '_> {
     where
         PT: TraceProof + 'static,
     {
+        // avoid dropping tracer in drop implementation
+        let handle = std::mem::ManuallyDrop::new(handle);
         if !unsafe { crate::ffi::ccadical_disconnect_proof_tracer(self.handle, handle.c_class) } {
             return Err(ProofTracerNotConnected);
         }
         let trait_ptr = unsafe { Box::from_raw(handle.trait_ptr) };
         drop(trait_ptr);
         let tracer = unsafe { Box::from_raw(handle.tracer) };
-        // avoid dropping tracer in drop implementation
-        let _ = std::mem::ManuallyDrop::new(handle);
         Ok(*tracer)
     }
 
-- 
2.43.0


From 680d2b6a88654728d397d9ee4b826052da78113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 083/108] fix: empty temporary clause in cadical before any
 variable is known, with a proof tracer

---
 cadical/vendor/src/assume.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cadical/vendor/src/assume.cpp b/cadical/vendor/src/assume.cpp
index 5c7bd4a..be5572e 100644
--- a/cadical/vendor/src/assume.cpp
+++ b/cadical/vendor/src/assume.cpp
@@ -252,6 +252,8 @@ void Internal::failing () {
     vector<int> sum_constraints;
     vector<int> econstraints;
     for (auto &elit : external->constraint) {
+      if (!elit) // terminating zero, 'e2i' might be empty
+        continue;
       int lit = external->e2i[abs (elit)];
       if (elit < 0)
         lit = -lit;
-- 
2.43.0


From 4ba876079a66b6d345f6fd315b28047396eb9471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 084/108] fix: totalizer C-API aborts when enforcing a bound
 that always holds

---
 capi/rustsat.h                    |  4 ++++
 capi/src/encodings/card.rs        | 12 ++++++++----
 codegen/templates/capi-card.rs.j2 | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/capi/rustsat.h b/capi/rustsat.h
index 1b3abcc..ed68357 100644
--- a/capi/rustsat.h
+++ b/capi/rustsat.h
@@ -539,6 +539,8 @@ void tot_encode_ub(struct Totalizer *tot,
  * [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound holds for every assignment, no assumption is needed and `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -579,6 +581,8 @@ void tot_encode_lb(struct Totalizer *tot,
  * [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound holds for every assignment, no assumption is needed and `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
diff --git a/capi/src/encodings/card.rs b/capi/src/encodings/card.rs
index 571c63f..8841a84 100644
--- a/capi/src/encodings/card.rs
+++ b/capi/src/encodings/card.rs
@@ -100,6 +100,8 @@ pub unsafe extern "C" fn tot_encode_ub(
 /// [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound holds for every assignment, no assumption is needed and `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -111,8 +113,8 @@ pub unsafe extern "C" fn tot_enforce_ub(
 ) -> super::MaybeError {
     match (*tot).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -159,6 +161,8 @@ pub unsafe extern "C" fn tot_encode_lb(
 /// [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound holds for every assignment, no assumption is needed and `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -170,8 +174,8 @@ pub unsafe extern "C" fn tot_enforce_lb(
 ) -> super::MaybeError {
     match (*tot).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
diff --git a/codegen/templates/capi-card.rs.j2 b/codegen/templates/capi-card.rs.j2
index 1355838..0887c96 100644
--- a/codegen/templates/capi-card.rs.j2
+++ b/codegen/templates/capi-card.rs.j2
@@ -79,6 +79,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_ub(
 /// Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
 /// [`{{ enc.id }}_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound holds for every assignment, no assumption is needed and `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
@@ -88,8 +90,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -130,6 +132,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_lb(
 /// Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
 /// [`{{ enc.id }}_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound holds for every assignment, no assumption is needed and `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
@@ -139,8 +143,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
-- 
2.43.0


From cf870df3dca8e152b5faa61a66e3b19f4a18bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 085/108] fix: overflow for encoding ranges that include
 usize::MAX

---
 src/encodings/card/mod.rs | 12 ++++++------
 src/encodings/pb/mod.rs   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index bf6a152..0440a7b 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -455,10 +455,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits()),
         std::ops::Bound::Unbounded => enc.n_lits(),
     }
@@ -471,10 +471,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
@@ -487,10 +487,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 5f8d9ed..626b7d9 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -525,10 +525,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum()),
         std::ops::Bound::Unbounded => enc.weight_sum(),
     }
@@ -541,10 +541,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
@@ -557,10 +557,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
-- 
2.43.0


From acdb1090ba04baa720ca7219ab7f288f25d8fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 086/108] fix: detaching an ipasir learner dropped the
 terminator

---
 ipasir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a186b1b..c048f83 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -398,7 +398,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ipasir_set_learn(self.handle, std::ptr::null(), 0, None) }
     }
 }
-- 
2.43.0


From 6a27866a944614195dc60ab3059107b31ac30e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 087/108] fix: stale ipasir state after an invalid return value

---
 ipasir/src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index c048f83..d2a7d81 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -201,11 +201,14 @@ impl rustsat::solvers::Solve for IpasirSolver<'_, '_> {
                 self.state = InternalSolverState::Unsat(vec![]);
                 Ok(SolverResult::Unsat)
             }
-            value => Err(InvalidApiReturn {
-                api_call: "ipasir_solve",
-                value,
+            value => {
+                self.state = InternalSolverState::Input;
+                Err(InvalidApiReturn {
+                    api_call: "ipasir_solve",
+                    value,
+                }
+                .into())
             }
-            .into()),
         }
     }
 
@@ -280,14 +283,19 @@ impl rustsat::solvers::SolveIncremental for IpasirSolver<'_, '_> {
             }
             20 => {
                 self.stats.n_unsat += 1;
+                // if getting the core fails, the previous state is not valid anymore either
+                self.state = InternalSolverState::Input;
                 self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
                 Ok(SolverResult::Unsat)
             }
-            value => Err(InvalidApiReturn {
-                api_call: "ipasir_solve",
-                value,
+            value => {
+                self.state = InternalSolverState::Input;
+                Err(InvalidApiReturn {
+                    api_call: "ipasir_solve",
+                    value,
+                }
+                .into())
             }
-            .into()),
         }
     }
 
-- 
2.43.0


From 09b2b6d95b4179c4646ae4ea4cf517bf74678564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 088/108] fix: panic when attaching a learner with a maximum
 length above c_int::MAX

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index dc4935d..aeb7395 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -945,7 +945,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
             ffi::ccadical_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                max_len.try_into().unwrap_or(c_int::MAX),
                 Some(ffi::rustsat_ccadical_learn_cb),
             );
         }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index d2a7d81..437eef4 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -399,7 +399,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
             ffi::ipasir_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                max_len.try_into().unwrap_or(c_int::MAX),
                 Some(ffi::ipasir_learn_cb),
             );
         }
-- 
2.43.0


From bcdfcdf707e97bbf3c9a697dd2b6dc5c0e4d8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 089/108] fix: ignored option for the lowest variable index
 when converting from OPB

---
 tools/src/bin/opb2cnf.rs  | 4 ++--
 tools/src/bin/opb2mcnf.rs | 4 ++--
 tools/src/bin/opb2wcnf.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 1a33b35..2d7442b 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2mcnf.rs b/tools/src/bin/opb2mcnf.rs
index 4753f84..e35d176 100644
--- a/tools/src/bin/opb2mcnf.rs
+++ b/tools/src/bin/opb2mcnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2wcnf.rs b/tools/src/bin/opb2wcnf.rs
index fa10c64..a6c5a0f 100644
--- a/tools/src/bin/opb2wcnf.rs
+++ b/tools/src/bin/opb2wcnf.rs
@@ -14,13 +14,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = <Args as clap::Parser>::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
-- 
2.43.0


From 17b4129655fcdfcd27587690b9970079b25f1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 090/108] fix: statistics in the output of opb2cnf that are not
 comments

---
 tools/src/bin/opb2cnf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 2d7442b..f014529 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -32,9 +32,9 @@ fn main() -> anyhow::Result<()> {
             .context("error parsing input")?
     };
 
-    println!("{} clauses", inst.n_clauses());
-    println!("{} cards", inst.n_cards());
-    println!("{} pbs", inst.n_pbs());
+    println!("c {} clauses", inst.n_clauses());
+    println!("c {} cards", inst.n_cards());
+    println!("c {} pbs", inst.n_pbs());
 
     inst.convert_to_cnf();
 
-- 
2.43.0


From 854196ce6428b0cb3c018eaac0d023232e4bad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:41 +0000
Subject: [PATCH 091/108] fix: gbmosplit mixes its messages with the instance
 on stdout

---
 tools/src/bin/gbmosplit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 717061e..24a4799 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -87,7 +87,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn error(&self, err: &anyhow::Error) {
@@ -101,11 +101,11 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{err}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn info(&self, msg: &str) {
-        let mut buffer = self.stdout.buffer();
+        let mut buffer = self.stderr.buffer();
         buffer
             .set_color(ColorSpec::new().set_bold(true).set_fg(Some(Color::Blue)))
             .unwrap();
@@ -115,7 +115,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn print_split_stats(&self, split_stats: SplitStats) {
-- 
2.43.0


From 7a549a35fab24e41bd10640d8713a21c3f2c513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:41 +0000
Subject: [PATCH 092/108] fix: gbmosplit drops the definitions of relaxed soft
 clauses when writing OPB

---
 tools/src/bin/gbmosplit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 24a4799..b90a1fe 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -657,7 +657,8 @@ fn main() -> anyhow::Result<()> {
             WriteFormat::Opb => {
                 let (mut constrs, mut objs) = mo_inst.decompose();
                 for obj in &mut objs {
-                    obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    let hardened = obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    constrs.extend(hardened.into());
                 }
                 let mo_inst = MultiOptInstance::compose(constrs, objs);
                 if let Some(path) = &cli.out_path {
-- 
2.43.0


From ae219f02701017a7517aad49954ac1a731ed2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 093/108] fix: shuffledimacs takes all xz-compressed files for
 CNF

---
 tools/src/bin/shuffledimacs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/bin/shuffledimacs.rs b/tools/src/bin/shuffledimacs.rs
index ea6c406..8ec2570 100644
--- a/tools/src/bin/shuffledimacs.rs
+++ b/tools/src/bin/shuffledimacs.rs
@@ -73,7 +73,7 @@ macro_rules! is_one_of {
 fn determine_file_type(in_path: &std::path::Path) -> FileType {
     if let Some(ext) = in_path.extension() {
         let path_without_compr = in_path.with_extension("");
-        let ext = if is_one_of!(ext, "gz", "bz2") {
+        let ext = if is_one_of!(ext, "gz", "bz2", "xz") {
             // Strip compression extension
             match path_without_compr.extension() {
                 Some(ext) => ext,
-- 
2.43.0


From a2d4dac6cc7756ad154fecd19034200abcc0ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 094/108] fix: mo2ilp ignores errors when writing the end of
 the output

---
 tools/src/bin/mo2ilp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/bin/mo2ilp.rs b/tools/src/bin/mo2ilp.rs
index bca7937..d8ec026 100644
--- a/tools/src/bin/mo2ilp.rs
+++ b/tools/src/bin/mo2ilp.rs
@@ -253,7 +253,7 @@ fn write_instance<W: std::io::Write>(
         writeln!(writer, "{}", (0..vm.n_used()).map(|_| 1).format(" "))?;
     }
 
-    Ok(())
+    writer.flush()
 }
 
 fn write_objective<W: std::io::Write>(
-- 
2.43.0


From 7a722323da98a9994811beb5fe8727196a3bc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 095/108] fix: numbers of non-zero entries in the header
 written by mo2ilp

---
 tools/src/bin/mo2ilp.rs | 89 ++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 36 deletions(-)

diff --git a/tools/src/bin/mo2ilp.rs b/tools/src/bin/mo2ilp.rs
index d8ec026..b2e4456 100644
--- a/tools/src/bin/mo2ilp.rs
+++ b/tools/src/bin/mo2ilp.rs
@@ -198,12 +198,16 @@ fn write_instance<W: std::io::Write>(
     // add aux variable unit for objective offset
     pbs.push(PbConstraint::new_lb([(vm.new_lit(), 1)], 1));
 
+    // compute rows of the matrices
+    let cost_rows: Vec<_> = objs
+        .into_iter()
+        .map(|obj| objective_row(obj, vm.n_used()))
+        .collect();
+    let (constr_rows, bounds): (Vec<_>, Vec<_>) = pbs.into_iter().map(constraint_row).unzip();
+
     // compute non-zeroes
-    let non_zero_constrs: usize = pbs.iter().map(PbConstraint::len).sum();
-    let non_zero_objs: usize = objs
-        .iter()
-        .map(rustsat::instances::Objective::n_softs)
-        .sum();
+    let non_zero_constrs: usize = constr_rows.iter().map(Row::len).sum();
+    let non_zero_objs: usize = cost_rows.iter().map(Row::len).sum();
 
     match format {
         OutputFormat::Bauss => {
@@ -212,34 +216,33 @@ fn write_instance<W: std::io::Write>(
                 writer,
                 "{} {} {} {non_zero_constrs} {non_zero_objs}",
                 vm.n_used(),
-                pbs.len(),
-                objs.len(),
+                constr_rows.len(),
+                cost_rows.len(),
             )?;
         }
         OutputFormat::Fgt => {
             // #vars #constrs #objs
-            writeln!(writer, "{} {} {}", vm.n_used(), pbs.len(), objs.len(),)?;
+            writeln!(writer, "{} {} {}", vm.n_used(), constr_rows.len(), cost_rows.len(),)?;
         }
     }
     writeln!(writer)?;
 
     if matches!(format, OutputFormat::Fgt) {
         // objective types
-        writeln!(writer, "{}", (0..objs.len()).map(|_| "minsum").format(" "))?;
+        writeln!(writer, "{}", (0..cost_rows.len()).map(|_| "minsum").format(" "))?;
         writeln!(writer)?;
     }
 
     // cost matrix
-    for obj in objs {
-        write_objective(obj, vm.n_used(), writer)?;
+    for row in &cost_rows {
+        write_row(row, vm.n_used(), writer)?;
     }
     writeln!(writer)?;
 
     // constraint matrix
-    let bounds = pbs
-        .into_iter()
-        .map(|c| write_constraint(c, vm.n_used(), writer))
-        .collect::<std::io::Result<Vec<_>>>()?;
+    for row in &constr_rows {
+        write_row(row, vm.n_used(), writer)?;
+    }
     writeln!(writer)?;
 
     // rhs
@@ -256,31 +259,36 @@ fn write_instance<W: std::io::Write>(
     writer.flush()
 }
 
-fn write_objective<W: std::io::Write>(
-    obj: rustsat::instances::Objective,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<()> {
-    let mut coefs = vec![0; n_vars as usize];
+/// The non-zero entries of a matrix row by column
+type Row = std::collections::BTreeMap<usize, isize>;
+
+fn row_from_iter<I: IntoIterator<Item = (usize, isize)>>(iter: I) -> Row {
+    let mut row = Row::new();
+    for (idx, coef) in iter {
+        *row.entry(idx).or_default() += coef;
+    }
+    row.retain(|_, coef| *coef != 0);
+    row
+}
+
+fn objective_row(obj: rustsat::instances::Objective, n_vars: u32) -> Row {
+    // the last variable is fixed to one
+    let mut constant = obj.offset();
+    let mut terms = vec![];
     for (lit, coef) in obj.iter_soft_lits().unwrap() {
         let mut coef =
             isize::try_from(coef).expect("cannot handle coefficients larger than `isize::MAX`");
         if lit.is_neg() {
-            *coefs.last_mut().unwrap() += coef;
+            constant += coef;
             coef = -coef;
         }
-        coefs[lit.var().idx()] += coef;
+        terms.push((lit.vidx(), coef));
     }
-    *coefs.last_mut().unwrap() += obj.offset();
-    writeln!(writer, "{}", coefs.into_iter().format(" "))
+    terms.push((n_vars as usize - 1, constant));
+    row_from_iter(terms)
 }
 
-fn write_constraint<W: std::io::Write>(
-    constr: PbConstraint,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<(Operator, isize)> {
-    let mut coefs = vec![0; n_vars as usize];
+fn constraint_row(constr: PbConstraint) -> (Row, (Operator, isize)) {
     let (lits, op, mut bound) = match constr {
         PbConstraint::Ub(constr) => {
             let (lits, b) = constr.decompose();
@@ -295,17 +303,26 @@ fn write_constraint<W: std::io::Write>(
             (lits, Operator::Eq, b)
         }
     };
-    for (lit, coef) in lits {
+    let row = row_from_iter(lits.into_iter().map(|(lit, coef)| {
         let mut coef =
             isize::try_from(coef).expect("cannot handle coefficients larger than `isize::MAX`");
         if lit.is_neg() {
             bound -= coef;
             coef = -coef;
         }
-        coefs[lit.var().idx()] += coef;
-    }
-    writeln!(writer, "{}", coefs.into_iter().format(" "))?;
-    Ok((op, bound))
+        (lit.vidx(), coef)
+    }));
+    (row, (op, bound))
+}
+
+fn write_row<W: std::io::Write>(row: &Row, n_vars: u32, writer: &mut W) -> std::io::Result<()> {
+    writeln!(
+        writer,
+        "{}",
+        (0..n_vars as usize)
+            .map(|idx| row.get(&idx).copied().unwrap_or_default())
+            .format(" ")
+    )
 }
 
 #[derive(Clone, Copy)]
-- 
2.43.0


From 89ceb2fd4902705845fed364c8ce89336c9b04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 096/108] fix: clustering encoding ignores read errors and
 malformed lines

---
 tools/src/encodings/cnf/clustering.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 651c636..164af4a 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -139,12 +139,15 @@ impl Encoding {
         let mut next_idx: u32 = 0;
         let process_line =
             |(line_num, line): (usize, Result<String, std::io::Error>)| -> Option<anyhow::Result<(String, String, f64)>> {
-                let full_line = line.ok()?;
-                let line = full_line.trim_start();
-                if line.starts_with('%') {
+                let full_line = match line {
+                    Ok(line) => line,
+                    Err(err) => return Some(Err(err.into())),
+                };
+                let line = full_line.trim();
+                if line.is_empty() || line.starts_with('%') {
                     return None;
                 }
-                let tup = winnow::Parser::<_, _, ContextError>::parse(
+                let tup = match winnow::Parser::<_, _, ContextError>::parse(
                     &mut winnow::seq! {
                         ident(),
                         _: multispace1::<_, ContextError>,
@@ -154,8 +157,13 @@ impl Encoding {
                     },
                     line,
                 )
-                .map_err(|e| ParsingError::from_parse(&e, &full_line, 0, line_num+1))
-                .ok()?;
+                .map_err(|e| {
+                    let offset = utils::substr_offset(&full_line, line).unwrap();
+                    ParsingError::from_parse(&e, &full_line, offset, line_num + 1)
+                }) {
+                    Ok(tup) => tup,
+                    Err(err) => return Some(Err(err.into())),
+                };
                 if !ident_map.contains_key(&tup.0) {
                     ident_map.insert(tup.0.clone(), next_idx);
                     next_idx += 1;
-- 
2.43.0


From e34aef432c33cf95c48471207c4d2725c9da4c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 097/108] fix: option for a single objective of the clustering
 encoding is ignored

---
 tools/src/bin/encodings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 1877de1..17cca87 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -335,8 +335,12 @@ fn main() -> anyhow::Result<()> {
     let out_path = args.out_path;
     match args.fmt {
         Format::Cnf(args) => {
+            let mut single_objective = args.single_objective;
             let enc: BoxedDimacsIter = match args.enc {
-                CnfEncoding::Clustering(args) => Box::new(clustering(args)?),
+                CnfEncoding::Clustering(args) => {
+                    single_objective |= args.single_objective;
+                    Box::new(clustering(args)?)
+                }
                 CnfEncoding::Knapsack(args) => {
                     let inst = match args.variant {
                         KnapsackCommand::Input(args) => input_knapsack(&args)?,
@@ -345,7 +349,7 @@ fn main() -> anyhow::Result<()> {
                     Box::new(cnf_knapsack(inst))
                 }
             };
-            write_cnf(enc, out_path, args.single_objective)
+            write_cnf(enc, out_path, single_objective)
         }
         Format::Pb(args) => {
             let opts = fio::opb::Options {
-- 
2.43.0


From 308534ab6378212b8f29495a9f8f3b8a57f679f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 098/108] fix: parsing knapsack instances in vOptLib format

---
 tools/src/encodings/knapsack.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index 62bfc4f..c181ed5 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -268,12 +268,18 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
-        single_value(dec_uint::<_, u32, ContextError>, "#")
+        let line = next_non_comment_line!(reader, line_num)
+            .context("file ended before number of constraints line")?;
+        let n_constr = single_value(dec_uint::<_, u32, ContextError>, "#")
             .context(StrContext::Expected(StrContextValue::Description(
                 "number of constraints",
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            n_constr == 1,
+            "only instances with a single constraint are supported"
+        );
         let mut inst = super::Knapsack {
             items: vec![
                 super::ItemData {
@@ -307,6 +313,14 @@ mod parsing {
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
             inst.items[item_idx].weight = weight;
         }
+        let line =
+            next_non_comment_line!(reader, line_num).context("file ended before capacity line")?;
+        inst.capacity = single_value(dec_uint::<_, usize, ContextError>, "#")
+            .context(StrContext::Expected(StrContextValue::Description(
+                "capacity",
+            )))
+            .parse(&line)
+            .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         Ok(inst)
     }
 
-- 
2.43.0


From a58a254b4972c5f2e1c07718c91f253f3cae1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 099/108] fix: reject knapsack instances with missing weights

---
 tools/src/encodings/knapsack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index c181ed5..2a818b8 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -241,6 +241,10 @@ mod parsing {
                 line_num,
             )
         })?;
+        anyhow::ensure!(
+            item_idx == n_items,
+            "number of weights does not match number of items"
+        );
         for item in &inst.items {
             anyhow::ensure!(
                 item.values.len() == n_obj,
-- 
2.43.0


From 2f8149b69606a133824391144a1e637a7e8ba44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 100/108] fix: reject facility location instances with rows of
 the wrong length

---
 tools/src/encodings/facilitylocation.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/facilitylocation.rs b/tools/src/encodings/facilitylocation.rs
index ae42f07..e1869a4 100644
--- a/tools/src/encodings/facilitylocation.rs
+++ b/tools/src/encodings/facilitylocation.rs
@@ -105,6 +105,7 @@ mod parsing {
             n_facilities: n_services,
             ..super::FacilityLocation::default()
         };
+        let mut n_rows = 0;
         for _ in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
             for _ in 0..n_users {
@@ -122,10 +123,15 @@ mod parsing {
                 )))
                 .parse(line.trim_end())
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+                n_rows += 1;
+                anyhow::ensure!(
+                    prob.supply_cost.len() == n_rows * n_services,
+                    "number of values in line {line_num} does not match number of services"
+                );
             }
         }
 
-        for _ in 0..2 {
+        for idx in 1..=2 {
             next_line!(reader, line_num).context("file ended early")?;
             let line = next_line!(reader, line_num).context("file ended early")?;
             SeparatedCallbackParser::new(
@@ -140,6 +146,10 @@ mod parsing {
             )))
             .parse(line.trim_end())
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+            anyhow::ensure!(
+                prob.opening_cost.len() == idx * n_services,
+                "number of values in line {line_num} does not match number of services"
+            );
         }
 
         Ok(prob)
-- 
2.43.0


From 340e9023d8bdbc059805fe2dc15207409ce80918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:25 +0000
Subject: [PATCH 101/108] fix: parsing assignment problems that are malformed
 or incomplete

---
 tools/src/encodings/assignment.rs | 47 +++++++++++++------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 79aad3a..d3b0aa7 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -95,37 +95,28 @@ mod parsing {
         let mut task_idx = 0;
         while reader.read_line(&mut buf)? > 0 {
             line_num += 1;
-            let mut remain = buf.trim_start();
+            let mut remain = buf.as_str();
             loop {
+                remain = remain.trim_start();
+                if remain.starts_with('#') || remain.is_empty() {
+                    break;
+                }
                 if remain.starts_with('[') && depth < 2 {
                     depth += 1;
                     remain = &remain[1..];
-                }
-                if remain.starts_with(']') {
-                    depth -= 1;
-                    if depth == 1 {
+                } else if remain.starts_with(']') && depth > 0 {
+                    if depth == 2 {
+                        anyhow::ensure!(task_idx == n_tasks, "number of tasks does not match up");
                         task_idx = 0;
+                        obj_idx += 1;
                     }
+                    depth -= 1;
                     remain = &remain[1..];
-                }
-                if remain.starts_with(',') {
-                    match depth {
-                        1 => {
-                            obj_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many objectives");
-                        }
-                        2 => {
-                            task_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many tasks");
-                        }
-                        _ => unreachable!(),
-                    };
+                } else if remain.starts_with(',') && depth > 0 {
                     remain = &remain[1..];
-                }
-                if remain.starts_with('#') || remain.trim().is_empty() {
-                    break;
-                }
-                if depth == 2 {
+                } else if depth == 2 {
+                    anyhow::ensure!(obj_idx < n_objs, "too many objectives");
+                    anyhow::ensure!(task_idx < n_tasks, "too many tasks");
                     let mut agent_idx = 0;
                     remain = (
                         ListCallbackParser::new(
@@ -158,14 +149,16 @@ mod parsing {
                             )
                         })?
                         .1;
+                    anyhow::ensure!(agent_idx == n_tasks, "number of agents does not match up");
+                    task_idx += 1;
+                } else {
+                    anyhow::bail!("expected a list of lists of lists of values");
                 }
             }
             buf.clear();
         }
-        anyhow::ensure!(
-            obj_idx + 1 == n_objs,
-            "number of objectives does not match up"
-        );
+        anyhow::ensure!(depth == 0, "file ended before value list ended");
+        anyhow::ensure!(obj_idx == n_objs, "number of objectives does not match up");
         Ok(inst)
     }
 
-- 
2.43.0


From 35b2be74686a31a47f8ce5114840d9310325c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:07 +0000
Subject: [PATCH 102/108] fix: accept the highest variable index in Lit::new

The documentation promises a panic only if the index exceeds Var::MAX_IDX,
as Lit::new_with_error and Var::new behave.
---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 10301f1..ed6619d 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From 8d555eb2179c2fabd0ef286b2f831fb4994882e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 103/108] fix: index clauses and CNFs in Python like sequences

A negative or out-of-range index raised a PanicException instead of counting
from the end or raising an IndexError (so that reversed() and slices with a
negative step could not be used at all).
---
 pyapi/src/instances.rs | 19 +------------------
 pyapi/src/lib.rs       | 36 ++++++++++++++++++++++++++++++++++++
 pyapi/src/types.rs     | 19 +------------------
 3 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index 9665238..b182c82 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -144,29 +144,12 @@ impl Cnf {
         self.cnf.len()
     }
 
-    #[expect(clippy::cast_sign_loss)]
     #[expect(clippy::needless_pass_by_value)]
     fn __getitem__(
         &self,
         idx: Bound<'_, PyAny>,
     ) -> PyResult<crate::SingleOrList<crate::types::Clause>> {
-        if let Ok(idx) = idx.extract::<i32>() {
-            let idx: usize = idx.try_into().expect("got unexpected negative index");
-            Ok(crate::SingleOrList::Single(self.cnf[idx].clone().into()))
-        } else if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
-            let indices = slice.indices(self.__len__().try_into().unwrap())?;
-            debug_assert!(indices.start >= 0);
-            debug_assert!(indices.stop >= 0);
-            debug_assert!(indices.step >= 0);
-            Ok(crate::SingleOrList::List(
-                (indices.start as usize..indices.stop as usize)
-                    .step_by(indices.step as usize)
-                    .map(|idx| self.cnf[idx].clone().into())
-                    .collect(),
-            ))
-        } else {
-            Err(pyo3::exceptions::PyTypeError::new_err("Unsupported type"))
-        }
+        crate::get_item(&idx, self.__len__(), |idx| self.cnf[idx].clone().into())
     }
 
     /// Adds an implication of form `a -> b`
diff --git a/pyapi/src/lib.rs b/pyapi/src/lib.rs
index d60bd00..c63cabf 100644
--- a/pyapi/src/lib.rs
+++ b/pyapi/src/lib.rs
@@ -28,6 +28,42 @@ pub(crate) enum SingleOrList<T> {
     List(Vec<T>),
 }
 
+/// Looks up an index or a slice in a sequence of length `len`, where `get` retrieves the element at
+/// a given position
+pub(crate) fn get_item<T>(
+    idx: &Bound<'_, PyAny>,
+    len: usize,
+    get: impl Fn(usize) -> T,
+) -> PyResult<SingleOrList<T>> {
+    if let Ok(idx) = idx.extract::<isize>() {
+        // negative indices count from the end of the sequence
+        let pos = if idx < 0 {
+            len.checked_sub(idx.unsigned_abs())
+        } else {
+            Some(idx.unsigned_abs())
+        };
+        match pos {
+            Some(pos) if pos < len => Ok(SingleOrList::Single(get(pos))),
+            _ => Err(pyo3::exceptions::PyIndexError::new_err(
+                "index out of range",
+            )),
+        }
+    } else if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
+        let indices = slice.indices(len.try_into()?)?;
+        Ok(SingleOrList::List(
+            (0..indices.slicelength)
+                .scan(indices.start, |pos, _| {
+                    let this = *pos;
+                    *pos = pos.saturating_add(indices.step);
+                    Some(get(this.unsigned_abs()))
+                })
+                .collect(),
+        ))
+    } else {
+        Err(pyo3::exceptions::PyTypeError::new_err("Unsupported type"))
+    }
+}
+
 /// Python bindings for the RustSAT library
 #[pymodule]
 fn rustsat(py: Python<'_>, m: &Bound<'_, PyModule>) -> PyResult<()> {
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 4fde3ba..72e6cc4 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -158,26 +158,9 @@ impl Clause {
         self.cl.len()
     }
 
-    #[expect(clippy::cast_sign_loss)]
     #[expect(clippy::needless_pass_by_value)]
     fn __getitem__(&self, idx: Bound<'_, PyAny>) -> PyResult<crate::SingleOrList<Lit>> {
-        if let Ok(idx) = idx.extract::<i32>() {
-            let idx: usize = idx.try_into().expect("got unexpected negative index");
-            Ok(crate::SingleOrList::Single(Lit(self.cl[idx])))
-        } else if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
-            let indices = slice.indices(self.__len__().try_into().unwrap())?;
-            debug_assert!(indices.start >= 0);
-            debug_assert!(indices.stop >= 0);
-            debug_assert!(indices.step >= 0);
-            Ok(crate::SingleOrList::List(
-                (indices.start as usize..indices.stop as usize)
-                    .step_by(indices.step as usize)
-                    .map(|idx| Lit(self.cl[idx]))
-                    .collect(),
-            ))
-        } else {
-            Err(pyo3::exceptions::PyTypeError::new_err("Unsupported type"))
-        }
+        crate::get_item(&idx, self.__len__(), |idx| Lit(self.cl[idx]))
     }
 
     fn __iter__(mut slf: PyRefMut<'_, Self>) -> ClauseIter {
-- 
2.43.0


From ea897715353161b0982dbda1690ad4da77ecd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 104/108] fix: notice all modifications while iterating in
 Python

Starting another iteration (or merely testing for membership) made iterators
from before a modification continue, and extending a clause was not noticed at
all.
---
 pyapi/src/instances.rs | 18 ++++++++++++++++--
 pyapi/src/types.rs     | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index b182c82..09328f9 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -63,9 +63,12 @@ impl VarManager {
 /// type only supports clauses and does have an internal variable manager.
 #[pyclass(sequence)]
 #[derive(Debug, Eq, Default)]
+#[expect(clippy::struct_field_names)]
 pub struct Cnf {
     cnf: rustsat::instances::Cnf,
     modified: bool,
+    /// Number of times iterating started after a modification
+    generation: usize,
 }
 
 impl From<rustsat::instances::Cnf> for Cnf {
@@ -73,6 +76,7 @@ impl From<rustsat::instances::Cnf> for Cnf {
         Self {
             cnf: value,
             modified: false,
+            generation: 0,
         }
     }
 }
@@ -219,8 +223,13 @@ impl Cnf {
     }
 
     fn __iter__(mut slf: PyRefMut<'_, Self>) -> CnfIter {
-        slf.modified = false;
+        if slf.modified {
+            // iterators from before the modification must not continue
+            slf.generation += 1;
+            slf.modified = false;
+        }
         CnfIter {
+            generation: slf.generation,
             cnf: slf.into(),
             index: 0,
         }
@@ -238,6 +247,7 @@ impl Cnf {
 #[pyclass]
 struct CnfIter {
     cnf: Py<Cnf>,
+    generation: usize,
     index: usize,
 }
 
@@ -248,7 +258,11 @@ impl CnfIter {
     }
 
     fn __next__(mut slf: PyRefMut<'_, Self>) -> PyResult<Option<crate::types::Clause>> {
-        if slf.cnf.borrow(slf.py()).modified {
+        let modified = {
+            let cnf = slf.cnf.borrow(slf.py());
+            cnf.modified || cnf.generation != slf.generation
+        };
+        if modified {
             return Err(pyo3::exceptions::PyRuntimeError::new_err(
                 "cnf modified during iteration",
             ));
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 72e6cc4..74d18bd 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -79,6 +79,8 @@ impl Lit {
 pub struct Clause {
     cl: rustsat::types::Clause,
     modified: bool,
+    /// Number of times iterating started after a modification
+    generation: usize,
 }
 
 impl Clause {
@@ -92,6 +94,7 @@ impl From<rustsat::types::Clause> for Clause {
         Self {
             cl: value,
             modified: false,
+            generation: 0,
         }
     }
 }
@@ -164,14 +167,20 @@ impl Clause {
     }
 
     fn __iter__(mut slf: PyRefMut<'_, Self>) -> ClauseIter {
-        slf.modified = false;
+        if slf.modified {
+            // iterators from before the modification must not continue
+            slf.generation += 1;
+            slf.modified = false;
+        }
         ClauseIter {
+            generation: slf.generation,
             clause: slf.into(),
             index: 0,
         }
     }
 
     fn extend(&mut self, lits: Vec<Lit>) {
+        self.modified = true;
         let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
         self.cl.extend(lits);
     }
@@ -188,6 +197,7 @@ impl Clause {
 #[pyclass]
 struct ClauseIter {
     clause: Py<Clause>,
+    generation: usize,
     index: usize,
 }
 
@@ -198,7 +208,11 @@ impl ClauseIter {
     }
 
     fn __next__(mut slf: PyRefMut<'_, Self>) -> PyResult<Option<Lit>> {
-        if slf.clause.borrow(slf.py()).modified {
+        let modified = {
+            let clause = slf.clause.borrow(slf.py());
+            clause.modified || clause.generation != slf.generation
+        };
+        if modified {
             return Err(pyo3::exceptions::PyRuntimeError::new_err(
                 "clause modified during iteration",
             ));
-- 
2.43.0


From b3bca4f94d3b5efad3ca1ced2fbd024279a3712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 105/108] fix: make the optional arguments of Python
 constructors optional

The signatures shown and the stubs promise defaults that the constructors did
not have.
---
 pyapi/src/encodings/am1.rs  | 2 +-
 pyapi/src/encodings/card.rs | 2 +-
 pyapi/src/encodings/pb.rs   | 2 +-
 pyapi/src/instances.rs      | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyapi/src/encodings/am1.rs b/pyapi/src/encodings/am1.rs
index f22edee..8e7d66a 100644
--- a/pyapi/src/encodings/am1.rs
+++ b/pyapi/src/encodings/am1.rs
@@ -21,7 +21,7 @@ macro_rules! implement_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<crate::types::Lit>) -> Self {
                 let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/encodings/card.rs b/pyapi/src/encodings/card.rs
index b2f4988..9e014bd 100644
--- a/pyapi/src/encodings/card.rs
+++ b/pyapi/src/encodings/card.rs
@@ -28,7 +28,7 @@ macro_rules! implement_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<crate::types::Lit>) -> Self {
                 let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/encodings/pb.rs b/pyapi/src/encodings/pb.rs
index 902be24..02edf48 100644
--- a/pyapi/src/encodings/pb.rs
+++ b/pyapi/src/encodings/pb.rs
@@ -39,7 +39,7 @@ macro_rules! shared_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<(crate::types::Lit, usize)>) -> Self {
                 let lits: Vec<(rustsat::types::Lit, usize)> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index 09328f9..fec097d 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -37,7 +37,7 @@ impl<'a> From<&'a mut VarManager> for &'a mut rustsat::instances::BasicVarManage
 impl VarManager {
     /// Creates a new variable manager. Optionally marking `n_used` variables as already used.
     #[new]
-    #[pyo3(text_signature = "(n_used = 0)")]
+    #[pyo3(signature = (n_used = 0))]
     fn new(n_used: u32) -> Self {
         rustsat::instances::BasicVarManager::from_next_free(rustsat::types::Var::new(n_used)).into()
     }
@@ -131,7 +131,7 @@ impl Cnf {
     }
 
     #[new]
-    #[pyo3(text_signature = "(clauses = [])")]
+    #[pyo3(signature = (clauses = vec![]), text_signature = "(clauses = [])")]
     fn new(clauses: Vec<crate::types::Clause>) -> Self {
         clauses
             .into_iter()
-- 
2.43.0


From 0b89349385057689b0340750e351aaf49a0ac01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:28 +0000
Subject: [PATCH 106/108] fix: raise an OverflowError for numbers of variables
 out of range in Python

VarManager and Lit.to_ipasir panicked.
---
 pyapi/src/instances.rs | 14 ++++++++++----
 pyapi/src/types.rs     | 12 +++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index fec097d..8c9e88f 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -3,6 +3,12 @@
 use pyo3::prelude::*;
 use rustsat::instances::ManageVars;
 
+/// The next free variable if `n_used` variables are used
+fn next_free(n_used: u32) -> PyResult<rustsat::types::Var> {
+    rustsat::types::Var::new_with_error(n_used)
+        .map_err(|err| pyo3::exceptions::PyOverflowError::new_err(format!("{err}")))
+}
+
 /// Simple counting variable manager
 #[pyclass]
 #[repr(transparent)]
@@ -38,13 +44,13 @@ impl VarManager {
     /// Creates a new variable manager. Optionally marking `n_used` variables as already used.
     #[new]
     #[pyo3(signature = (n_used = 0))]
-    fn new(n_used: u32) -> Self {
-        rustsat::instances::BasicVarManager::from_next_free(rustsat::types::Var::new(n_used)).into()
+    fn new(n_used: u32) -> PyResult<Self> {
+        Ok(rustsat::instances::BasicVarManager::from_next_free(next_free(n_used)?).into())
     }
 
     /// Increases the number of variables marked as used
-    fn increase_used(&mut self, n_used: u32) -> bool {
-        self.0.increase_next_free(rustsat::types::Var::new(n_used))
+    fn increase_used(&mut self, n_used: u32) -> PyResult<bool> {
+        Ok(self.0.increase_next_free(next_free(n_used)?))
     }
 
     /// Gets a new unused variable
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 74d18bd..91b2ffa 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -58,16 +58,10 @@ impl Lit {
 
     /// Gets the IPASIR/DIMACS representation of the literal
     #[expect(clippy::wrong_self_convention)]
-    fn to_ipasir(&self) -> c_int {
+    fn to_ipasir(&self) -> PyResult<c_int> {
         let negated = self.0.is_neg();
-        let idx: c_int = (self.0.vidx() + 1)
-            .try_into()
-            .expect("variable index too high to fit in c_int");
-        if negated {
-            -idx
-        } else {
-            idx
-        }
+        let idx: c_int = (self.0.vidx() + 1).try_into()?;
+        Ok(if negated { -idx } else { idx })
     }
 }
 
-- 
2.43.0


From b8c74bbc07ff876051ebfaa755eff07883d43cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:24 +0000
Subject: [PATCH 107/108] fix: do not panic when iterating in Python over an
 object that is in use

Calling next() on an iterator from within the sequence passed to extend() of
the same clause raised a PanicException.
---
 pyapi/src/instances.rs | 2 +-
 pyapi/src/types.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index 8c9e88f..95eea58 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -265,7 +265,7 @@ impl CnfIter {
 
     fn __next__(mut slf: PyRefMut<'_, Self>) -> PyResult<Option<crate::types::Clause>> {
         let modified = {
-            let cnf = slf.cnf.borrow(slf.py());
+            let cnf = slf.cnf.try_borrow(slf.py())?;
             cnf.modified || cnf.generation != slf.generation
         };
         if modified {
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 91b2ffa..9608ae6 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -203,7 +203,7 @@ impl ClauseIter {
 
     fn __next__(mut slf: PyRefMut<'_, Self>) -> PyResult<Option<Lit>> {
         let modified = {
-            let clause = slf.clause.borrow(slf.py());
+            let clause = slf.clause.try_borrow(slf.py())?;
             clause.modified || clause.generation != slf.generation
         };
         if modified {
-- 
2.43.0


From 247d6f2d7db904ced14c3cd9eaa4cebaed9106cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:12 +0000
Subject: [PATCH 108/108] fix: dynamic polynomial watchdog retried after
 running out of memory while extending precision

---
 src/encodings/pb/dpw/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 1edbccf..0ee112a 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -737,7 +737,8 @@ where
     let n_top_bbs = top_struct.bottom_buckets.len();
     bot_struct.bottom_buckets.extend(top_struct.bottom_buckets);
     // step 5: extend old bottom buckets with new output literals. outputs that have already been
-    // encoded are not any more, until the additional clauses have been collected
+    // encoded are not any more, until the additional clauses (also the ones of the buckets below)
+    // have been collected
     let mut old_right_max = 0;
     let mut to_extend = vec![];
     for &bbid in bot_struct.bottom_buckets[..bot_struct.bottom_buckets.len() - n_top_bbs]
@@ -756,7 +757,7 @@ where
                 semantics: Some(semantics),
             } = litdat
             {
-                if semantics.has_if() && idx + 1 >= old_right_max {
+                if semantics.has_if() {
                     olits.push((lit, idx + 1));
                     litdat.remove_semantics(totdb::Semantics::If);
                 }
@@ -775,6 +776,11 @@ where
         let right = tot_db[bbid].right().unwrap();
         let left = tot_db[bbid].left().unwrap();
         for (olit, val) in olits {
+            if val < old_right_max {
+                // no additional clauses
+                tot_db[bbid].mut_unit().lits[val - 1].add_semantics(totdb::Semantics::If);
+                continue;
+            }
             for rval in tot_db[right.id].vals(
                 right.rev_map(old_right_max + 1)..=right.rev_map(std::cmp::min(right_max + 1, val)),
             ) {
-- 
2.43.0

