//! The output stream a session writes to, with injected faults.
use crate::sched;
use crate::sim::Sim;
use std::io::{self, IoSlice, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Refusal {
    /// `Ok(0)`, e.g. a full fixed-size buffer
    Zero,
    Err(io::ErrorKind),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WCfg {
    /// Sizes accepted per call, cycled; empty for everything at once
    pub chunks: Vec<usize>,
    /// Every n-th call is interrupted before anything is written
    pub eintr: Option<usize>,
    /// From that byte on nothing is accepted any more
    pub fail_at: Option<(usize, Refusal)>,
    /// The refusal happens only once, afterwards the writer works again
    pub once: bool,
    pub vectored: bool,
}
impl Default for WCfg {
    fn default() -> Self {
        WCfg {
            chunks: Vec::new(),
            eintr: None,
            fail_at: None,
            once: false,
            vectored: true,
        }
    }
}

impl WCfg {
    /// A writer that behaves, but not conveniently
    pub fn transparent(sim: &mut Sim) -> WCfg {
        let mut w = WCfg::default();
        match sim.weighted(&[4, 3, 2]) {
            0 => {}
            1 => {
                let n = sim.range(1, 4) as usize;
                w.chunks = (0..n)
                    .map(|_| *sim.pick(&[1usize, 2, 3, 4, 5, 7, 8, 13, 21, 40, 64]))
                    .collect();
                sim.fault("short_write");
            }
            _ => {
                w.chunks = vec![1];
                sim.fault("short_write");
            }
        }
        if sim.chance(1, 3) {
            w.eintr = Some(sim.range(2, 6) as usize);
            sim.fault("interrupted_write");
        }
        if sim.chance(1, 3) {
            w.vectored = false;
        }
        w
    }
    /// A writer that refuses data from byte `at` on
    pub fn failing(sim: &mut Sim, at: usize) -> WCfg {
        let mut w = Self::transparent(sim);
        let kind = match sim.below(6) {
            0 => Refusal::Zero,
            1 => Refusal::Err(io::ErrorKind::BrokenPipe),
            2 => Refusal::Err(io::ErrorKind::WouldBlock),
            3 => Refusal::Err(io::ErrorKind::Other),
            4 => Refusal::Err(io::ErrorKind::WriteZero),
            _ => Refusal::Err(io::ErrorKind::OutOfMemory),
        };
        w.fail_at = Some((at, kind));
        w.once = sim.chance(1, 3);
        sim.fault(match kind {
            Refusal::Zero => "write_refused_zero",
            Refusal::Err(_) => "write_error",
        });
        w
    }
}

pub struct SimWriter {
    cfg: WCfg,
    pub out: Vec<u8>,
    pub calls: usize,
    pub refused: usize,
    pub interrupted: usize,
}
impl SimWriter {
    pub fn new(cfg: WCfg) -> Self {
        SimWriter {
            cfg,
            out: Vec::new(),
            calls: 0,
            refused: 0,
            interrupted: 0,
        }
    }
    /// How many bytes to accept of `len`
    fn admit(&mut self, len: usize) -> io::Result<usize> {
        sched::yield_point("write");
        if len == 0 {
            return Ok(0);
        }
        self.calls += 1;
        if let Some(n) = self.cfg.eintr {
            if self.calls % n == 0 {
                self.interrupted += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        let mut n = len;
        if !self.cfg.chunks.is_empty() {
            n = n.min(self.cfg.chunks[self.calls % self.cfg.chunks.len()]);
        }
        if let Some((at, kind)) = self.cfg.fail_at {
            if !(self.cfg.once && self.refused > 0) {
                let left = at.saturating_sub(self.out.len());
                if left == 0 {
                    self.refused += 1;
                    return match kind {
                        Refusal::Zero => Ok(0),
                        Refusal::Err(k) => Err(io::Error::new(k, "simulated write error")),
                    };
                }
                n = n.min(left);
            }
        }
        Ok(n)
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.admit(buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        if !self.cfg.vectored {
            // What writers without vectored support do
            let buf = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
            return self.write(buf);
        }
        let len = bufs.iter().map(|b| b.len()).sum();
        let n = self.admit(len)?;
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            self.out.extend_from_slice(&b[..k]);
            left -= k;
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
