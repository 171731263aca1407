//! Seeded thread scheduler: simulated threads hand a single baton around, so exactly one of them runs at any time and the
//! scheduler decides at every yield point (step start/end, application callback, write) which one goes on.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TState {
    Ready,
    Running,
    Done,
}

pub struct Board {
    m: Mutex<Vec<TState>>,
    labels: Mutex<Vec<&'static str>>,
    c: Condvar,
    open: AtomicBool,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Board>, usize)>> = const { RefCell::new(None) };
}

impl Board {
    pub fn new(n: usize) -> Arc<Board> {
        Arc::new(Board {
            m: Mutex::new(vec![TState::Running; n]),
            labels: Mutex::new(vec![""; n]),
            c: Condvar::new(),
            open: AtomicBool::new(false),
        })
    }
    /// Called by the simulated thread before it does anything
    pub fn enter(self: &Arc<Board>, i: usize) {
        ME.with(|m| *m.borrow_mut() = Some((self.clone(), i)));
        self.park(i, "enter");
    }
    /// Called by the simulated thread when it's done (also by panicking ones)
    pub fn leave(self: &Arc<Board>, i: usize) {
        ME.with(|m| *m.borrow_mut() = None);
        self.m.lock().unwrap()[i] = TState::Done;
        self.c.notify_all();
    }
    fn park(&self, i: usize, label: &'static str) {
        self.labels.lock().unwrap()[i] = label;
        let mut g = self.m.lock().unwrap();
        g[i] = TState::Ready;
        self.c.notify_all();
        while g[i] != TState::Running && !self.open.load(Ordering::SeqCst) {
            g = self.c.wait(g).unwrap();
        }
    }
    /// Scheduler side: wait until nobody runs; which threads can go on and where they are parked.
    /// `None` if a thread did not come back within `timeout`, i.e. it waits for something only another thread could do.
    pub fn settle(&self, timeout: std::time::Duration) -> Option<Vec<(usize, &'static str)>> {
        let end = std::time::Instant::now() + timeout;
        let mut g = self.m.lock().unwrap();
        while g.iter().any(|s| *s == TState::Running) {
            let left = end.checked_duration_since(std::time::Instant::now())?;
            g = self.c.wait_timeout(g, left).unwrap().0;
        }
        let l = self.labels.lock().unwrap();
        Some(
            g.iter()
                .enumerate()
                .filter(|(_, s)| **s == TState::Ready)
                .map(|(i, _)| (i, l[i]))
                .collect(),
        )
    }
    /// Give up control: everybody may run, so that the threads come to an end
    pub fn open(&self) {
        self.open.store(true, Ordering::SeqCst);
        let _g = self.m.lock().unwrap();
        self.c.notify_all();
    }
    pub fn release(&self, i: usize) {
        let mut g = self.m.lock().unwrap();
        g[i] = TState::Running;
        self.c.notify_all();
    }
}

/// A point where another simulated thread may run
pub fn yield_point(label: &'static str) {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((b, i)) = me {
        b.park(i, label);
    }
}
