//! Stand-in for the runtime of tokio: one thread; which task goes next is decided by the harness.
pub use real::*;
pub use sim_tokio_macros::main;
use std::{future::Future, pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};
pub use task::spawn;
type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
static TASKS: Mutex<Vec<Option<Task>>> = Mutex::new(Vec::new());
/// Chooses one of n waiting things.
pub static CHOOSE: Mutex<Option<fn(usize) -> usize>> = Mutex::new(None);
fn choose(n: usize) -> usize { let f = *CHOOSE.lock().unwrap(); match f { Some(f) if n > 1 => f(n), _ => 0 } }
fn waker() -> Waker {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) }
}
/// Lets every task make what progress it can, once; a task that is running is left alone.
pub fn poll_tasks() {
    let n = TASKS.lock().unwrap().len(); let w = waker();
    for i in 0..n {
        let t = TASKS.lock().unwrap()[i].take();
        if let Some(mut t) = t { if t.as_mut().poll(&mut Context::from_waker(&w)).is_pending() { TASKS.lock().unwrap()[i] = Some(t) } }
    }
}
pub fn reset() { TASKS.lock().unwrap().clear() }
/// Runs to the end; gives up when nothing moves any more.
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f); let w = waker();
    for _ in 0..64 { if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return Some(x) } poll_tasks() }
    None
}
pub fn block_on<F: Future>(f: F) -> F::Output { run(f).expect("the main task waits forever") }
pub mod task {
    pub use real::task::*;
    use super::*;
    type Slot<T> = Arc<Mutex<Option<T>>>;
    pub struct JoinHandle<T>(Slot<T>, Mutex<Option<Box<dyn FnOnce() + Send>>>);
    impl<T> JoinHandle<T> { pub fn abort(&self) {} pub fn is_finished(&self) -> bool { self.0.lock().unwrap().is_some() } }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<Self::Output> {
            // a blocking closure runs while somebody waits for it; other tasks may come first
            let b = self.1.lock().unwrap().take();
            if let Some(b) = b { if choose(2) == 1 { poll_tasks() } b() }
            match self.0.lock().unwrap().take() { Some(x) => Poll::Ready(Ok(x)), None => Poll::Pending }
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static {
        let s: Slot<F::Output> = Arc::new(Mutex::new(None)); let r = s.clone();
        TASKS.lock().unwrap().push(Some(Box::pin(async move { let x = f.await; *r.lock().unwrap() = Some(x) })));
        JoinHandle(s, Mutex::new(None))
    }
    pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        let s: Slot<T> = Arc::new(Mutex::new(None)); let r = s.clone();
        JoinHandle(s, Mutex::new(Some(Box::new(move || { let x = f(); *r.lock().unwrap() = Some(x) }))))
    }
    /// Tasks end in any order.
    pub struct JoinSet<T> { tasks: Vec<(Pin<Box<dyn Future<Output = T> + Send>>, Option<T>)> }
    impl<T: Send + 'static> Default for JoinSet<T> { fn default() -> Self { Self::new() } }
    impl<T: Send + 'static> JoinSet<T> {
        pub fn new() -> Self { Self { tasks: vec![] } }
        pub fn len(&self) -> usize { self.tasks.len() }
        pub fn is_empty(&self) -> bool { self.tasks.is_empty() }
        pub fn spawn<F>(&mut self, f: F) where F: Future<Output = T> + Send + 'static { self.tasks.push((Box::pin(f), None)) }
        pub fn abort_all(&mut self) { self.tasks.clear() }
        pub async fn shutdown(&mut self) { self.tasks.clear() }
        pub fn spawn_blocking<F>(&mut self, f: F) where F: FnOnce() -> T + Send + 'static { self.tasks.push((Box::pin(async move { f() }), None)) }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            if self.tasks.is_empty() { return None }
            let i = choose(self.tasks.len()); let (t, _) = self.tasks.remove(i);
            Some(Ok(t.await))
        }
    }
}
