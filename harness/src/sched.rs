//! Runs threads through the scheduling points of the library in a given
//! order.  A thread that is granted a step runs up to its next point or to
//! the end of its calls; nothing is assumed about how many points there are.

use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq)]
enum At {
    Running,
    Waiting,
    Done,
}

struct State {
    at: Vec<At>,
    /// Whether threads run through their points without waiting.
    free: bool,
}

pub struct Sched {
    state: Mutex<State>,
    moved: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn point() {
    let me = ME.with(|me| me.borrow().clone());
    if let Some((sched, t)) = me {
        sched.wait(t);
    }
}

impl Sched {
    pub fn new(threads: usize) -> Arc<Self> {
        sparsey::verif::set_hook(point);
        Arc::new(Self { state: Mutex::new(State { at: vec![At::Running; threads], free: false }), moved: Condvar::new() })
    }

    fn wait(&self, t: usize) {
        let mut s = self.state.lock().unwrap();
        if s.free {
            return;
        }
        s.at[t] = At::Waiting;
        self.moved.notify_all();
        while s.at[t] == At::Waiting && !s.free {
            s = self.moved.wait(s).unwrap();
        }
    }

    /// Runs `f` as thread `t`; its points are scheduled.
    pub fn run<R>(self: &Arc<Self>, t: usize, f: impl FnOnce() -> R) -> R {
        struct End<'a>(&'a Sched, usize);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                ME.with(|me| *me.borrow_mut() = None);
                self.0.state.lock().unwrap().at[self.1] = At::Done;
                self.0.moved.notify_all();
            }
        }
        let _end = End(self, t);
        self.wait(t);
        ME.with(|me| *me.borrow_mut() = Some((self.clone(), t)));
        f()
    }

    /// Waits until every thread is at a point or done.  Threads that wait
    /// for each other by themselves are no longer scheduled.
    fn settle(&self) {
        let mut s = self.state.lock().unwrap();
        while s.at.contains(&At::Running) && !s.free {
            let (state, late) = self.moved.wait_timeout(s, Duration::from_millis(500)).unwrap();
            s = state;
            if late.timed_out() {
                s.free = true;
                self.moved.notify_all();
            }
        }
    }

    /// Lets a thread run up to its next point; says whether it could.
    pub fn grant(&self, t: usize) -> bool {
        self.settle();
        let mut s = self.state.lock().unwrap();
        if s.at[t] == At::Done || s.free {
            return false;
        }
        s.at[t] = At::Running;
        self.moved.notify_all();
        drop(s);
        self.settle();
        true
    }

    /// Lets all threads run.
    pub fn release(&self) {
        self.settle();
        self.state.lock().unwrap().free = true;
        self.moved.notify_all();
    }
}
