//! Deterministic single-threaded execution of a future together with its blocking tasks.

use crate::{sched, sys};
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub enum Outcome<T> {
    Done(T),
    Panic(String),
    /// pending, and nothing that could wake it
    Stuck,
}

impl<T> Outcome<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Outcome<U> {
        match self {
            Outcome::Done(t) => Outcome::Done(f(t)),
            Outcome::Panic(s) => Outcome::Panic(s),
            Outcome::Stuck => Outcome::Stuck,
        }
    }
}

pub struct Flag {
    pub woken: AtomicBool,
    owner: Option<(Arc<sched::Sched>, usize)>,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if let Some(o) = &self.owner {
            sched::on_wake(o);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// keep panic messages instead of printing them
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
        if std::env::var_os("MC_PANIC").is_some() {
            eprintln!("panic: {msg} {loc:?}");
        }
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = format!("{msg} at {}", loc.unwrap_or_default());
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// run the future and the blocking tasks it spawns to completion; `idle` is called when the
/// future is pending and has no task to run, and tells whether it may have been woken since
pub fn run_with<F: Future>(fut: F, mut idle: impl FnMut(&Flag) -> bool) -> Outcome<F::Output> {
    let flag = Arc::new(Flag { woken: AtomicBool::new(true), owner: sched::owner() });
    let waker = Waker::from(Arc::clone(&flag));
    let mut cx = Context::from_waker(&waker);
    blocking::mc::enable(true);
    let mut fut = Box::pin(fut);
    let ret = loop {
        if flag.woken.swap(false, Ordering::SeqCst) {
            sched::boundary();
            let polled = catch_unwind(AssertUnwindSafe(|| {
                sys::armed(|| fut.as_mut().poll(&mut cx))
            }));
            match polled {
                Err(_) => break Outcome::Panic(last_panic()),
                Ok(Poll::Ready(v)) => break Outcome::Done(v),
                Ok(Poll::Pending) => {}
            }
            continue;
        }
        if sys::armed(blocking::mc::run_one) {
            continue;
        }
        if !idle(&flag) {
            break Outcome::Stuck;
        }
    };
    // dropping the future may run code of the service as well
    let dropped = catch_unwind(AssertUnwindSafe(|| {
        sys::armed(|| {
            drop(fut);
            while blocking::mc::run_one() {}
        })
    }));
    if dropped.is_err() {
        return Outcome::Panic(last_panic());
    }
    ret
}

pub fn run<F: Future>(fut: F) -> Outcome<F::Output> {
    run_with(fut, |f| f.woken.load(Ordering::SeqCst))
}

/// poll the future at most `polls` times, then drop it (cancellation); None if it was dropped
pub fn run_cancelled<F: Future>(fut: F, polls: usize) -> Outcome<Option<F::Output>> {
    struct Limited<F>(F, usize);
    impl<F: Future + Unpin> Future for Limited<F> {
        type Output = Option<F::Output>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if self.1 == 0 {
                return Poll::Ready(None);
            }
            self.1 -= 1;
            match Pin::new(&mut self.0).poll(cx) {
                Poll::Ready(v) => Poll::Ready(Some(v)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    run(Limited(Box::pin(fut), polls))
}
