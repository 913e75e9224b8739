//! Drop-in replacement for futures-cpupool 0.1.8.
//!
//! The public API and the future/cancellation/panic semantics are those of
//! the original crate; what is replaced is the set of worker threads and the
//! message channel: which worker runs when is decided by `mc::sched`.
use std::fmt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;

use futures::executor::{self, Executor as OldExecutor, Run};
use futures::future::{lazy, ExecuteError, Executor};
use futures::sync::oneshot::{channel, Receiver, Sender};
use futures::{Async, Future, IntoFuture, Poll};

pub mod mc;
use mc::sched;

/// Workers of all pools there are, and the most there have been since `reset`.
pub mod workers {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static NOW: AtomicUsize = AtomicUsize::new(0);
    static MAX: AtomicUsize = AtomicUsize::new(0);
    pub fn now() -> usize {
        NOW.load(SeqCst)
    }
    pub fn max() -> usize {
        MAX.load(SeqCst)
    }
    pub fn reset() {
        MAX.store(now(), SeqCst);
    }
    pub(crate) fn add(n: usize) {
        MAX.fetch_max(NOW.fetch_add(n, SeqCst) + n, SeqCst);
    }
    pub(crate) fn sub(n: usize) {
        NOW.fetch_sub(n, SeqCst);
    }
}

pub struct CpuPool {
    inner: Arc<Inner>,
}

pub struct Builder {
    pool_size: usize,
    stack_size: usize,
    name_prefix: Option<String>,
    after_start: Option<Arc<dyn Fn() + Send + Sync>>,
    before_stop: Option<Arc<dyn Fn() + Send + Sync>>,
}

struct MySender<F, T> {
    fut: F,
    tx: Option<Sender<T>>,
    keep_running_flag: Arc<AtomicBool>,
    id: u64,
}

struct Inner {
    id: usize,
    cnt: AtomicUsize,
    size: usize,
}

impl fmt::Debug for CpuPool {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_struct("CpuPool").field("size", &self.inner.size).finish()
    }
}

impl fmt::Debug for Builder {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_struct("Builder")
            .field("pool_size", &self.pool_size)
            .field("name_prefix", &self.name_prefix)
            .finish()
    }
}

#[must_use]
#[derive(Debug)]
pub struct CpuFuture<T, E> {
    inner: Receiver<thread::Result<Result<T, E>>>,
    keep_running_flag: Arc<AtomicBool>,
    /// number of the task until its result has been taken
    outstanding: Option<u64>,
}

impl<T, E> Drop for CpuFuture<T, E> {
    fn drop(&mut self) {
        if let Some(id) = self.outstanding.take() {
            sched::note_consumed(id);
        }
    }
}

impl CpuPool {
    pub fn new(size: usize) -> CpuPool {
        Builder::new().pool_size(size).create()
    }
    pub fn new_num_cpus() -> CpuPool {
        Builder::new().create()
    }
    pub fn spawn<F>(&self, f: F) -> CpuFuture<F::Item, F::Error>
    where
        F: Future + Send + 'static,
        F::Item: Send + 'static,
        F::Error: Send + 'static,
    {
        let (tx, rx) = channel();
        let id = sched::note_spawned();
        let keep_running_flag = Arc::new(AtomicBool::new(false));
        let sender = MySender {
            fut: AssertUnwindSafe(f).catch_unwind(),
            tx: Some(tx),
            keep_running_flag: keep_running_flag.clone(),
            id,
        };
        executor::spawn(sender).execute(self.inner.clone());
        CpuFuture {
            inner: rx,
            keep_running_flag: keep_running_flag.clone(),
            outstanding: Some(id),
        }
    }
    pub fn spawn_fn<F, R>(&self, f: F) -> CpuFuture<R::Item, R::Error>
    where
        F: FnOnce() -> R + Send + 'static,
        R: IntoFuture + 'static,
        R::Future: Send + 'static,
        R::Item: Send + 'static,
        R::Error: Send + 'static,
    {
        self.spawn(lazy(f))
    }
}

impl<F> Executor<F> for CpuPool
where
    F: Future<Item = (), Error = ()> + Send + 'static,
{
    fn execute(&self, future: F) -> Result<(), ExecuteError<F>> {
        executor::spawn(future).execute(self.inner.clone());
        Ok(())
    }
}

impl Clone for CpuPool {
    fn clone(&self) -> CpuPool {
        self.inner.cnt.fetch_add(1, Ordering::Relaxed);
        CpuPool { inner: self.inner.clone() }
    }
}

impl Drop for CpuPool {
    fn drop(&mut self) {
        if self.inner.cnt.fetch_sub(1, Ordering::Relaxed) == 1 {
            workers::sub(self.inner.size);
            // the original sends a Close message to every worker here: tasks
            // that are already queued are still run
            sched::point(mc::label::POOL_DROP);
        }
    }
}

impl OldExecutor for Inner {
    fn execute(&self, run: Run) {
        sched::submit(self.id, Box::new(move || run.run()));
    }
}

impl<T, E> CpuFuture<T, E> {
    pub fn forget(self) {
        self.keep_running_flag.store(true, Ordering::SeqCst);
    }
}

impl<T: Send + 'static, E: Send + 'static> Future for CpuFuture<T, E> {
    type Item = T;
    type Error = E;

    fn poll(&mut self) -> Poll<T, E> {
        sched::point(mc::label::POLL);
        let r = self.inner.poll().expect("cannot poll CpuFuture twice");
        if let Async::Ready(_) = r {
            if let Some(id) = self.outstanding.take() {
                sched::note_consumed(id);
            }
        }
        match r {
            Async::Ready(Ok(Ok(e))) => Ok(e.into()),
            Async::Ready(Ok(Err(e))) => Err(e),
            Async::Ready(Err(e)) => panic::resume_unwind(e),
            Async::NotReady => Ok(Async::NotReady),
        }
    }
}

impl<F: Future> Future for MySender<F, Result<F::Item, F::Error>> {
    type Item = ();
    type Error = ();

    fn poll(&mut self) -> Poll<(), ()> {
        if let Ok(Async::Ready(_)) = self.tx.as_mut().unwrap().poll_cancel() {
            if !self.keep_running_flag.load(Ordering::SeqCst) {
                return Ok(().into());
            }
        }
        let res = match self.fut.poll() {
            Ok(Async::Ready(e)) => Ok(e),
            Ok(Async::NotReady) => return Ok(Async::NotReady),
            Err(e) => Err(e),
        };
        sched::point(mc::label::COMPLETE);
        drop(self.tx.take().unwrap().send(res));
        sched::note_completed(self.id);
        Ok(Async::Ready(()))
    }
}

impl Builder {
    pub fn new() -> Builder {
        Builder {
            pool_size: num_cpus::get(),
            stack_size: 0,
            name_prefix: None,
            after_start: None,
            before_stop: None,
        }
    }
    pub fn pool_size(&mut self, size: usize) -> &mut Self {
        self.pool_size = size;
        self
    }
    pub fn stack_size(&mut self, stack_size: usize) -> &mut Self {
        self.stack_size = stack_size;
        self
    }
    pub fn name_prefix<S: Into<String>>(&mut self, name_prefix: S) -> &mut Self {
        self.name_prefix = Some(name_prefix.into());
        self
    }
    pub fn after_start<F>(&mut self, f: F) -> &mut Self
    where
        F: Fn() + Send + Sync + 'static,
    {
        self.after_start = Some(Arc::new(f));
        self
    }
    pub fn before_stop<F>(&mut self, f: F) -> &mut Self
    where
        F: Fn() + Send + Sync + 'static,
    {
        self.before_stop = Some(Arc::new(f));
        self
    }
    pub fn create(&mut self) -> CpuPool {
        assert!(self.pool_size > 0);
        workers::add(self.pool_size);
        let _ = (&self.stack_size, &self.after_start, &self.before_stop);
        CpuPool {
            inner: Arc::new(Inner {
                id: sched::new_pool(self.pool_size),
                cnt: AtomicUsize::new(1),
                size: self.pool_size,
            }),
        }
    }
}
