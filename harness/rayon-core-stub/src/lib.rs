//! Stand-in for rayon-core: every scheduling decision is asked of the environment (the solver), the two halves of a
//! join run one after the other in the order the environment chooses.
//! vsched(0): number of threads; vsched(1): which half runs first; vsched(2)/(3): was the first/second half stolen.
extern "C" {
    fn vsched(what: u64) -> u64;
}
pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
#[inline]
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if unsafe { vsched(1) } == 0 {
        let x = a(FnContext { migrated: unsafe { vsched(2) } != 0 });
        let y = b(FnContext { migrated: unsafe { vsched(3) } != 0 });
        (x, y)
    } else {
        let y = b(FnContext { migrated: unsafe { vsched(3) } != 0 });
        let x = a(FnContext { migrated: unsafe { vsched(2) } != 0 });
        (x, y)
    }
}
#[inline]
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}
#[inline]
pub fn current_num_threads() -> usize {
    unsafe { vsched(0) as usize }
}
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_thread_index() -> Option<usize> {
    Some(0)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}
pub struct Scope<'s>(core::marker::PhantomData<&'s ()>);
impl<'s> Scope<'s> {
    pub fn spawn<B: FnOnce(&Scope<'s>) + Send + 's>(&self, b: B) {
        b(self)
    }
}
pub struct ScopeFifo<'s>(core::marker::PhantomData<&'s ()>);
impl<'s> ScopeFifo<'s> {
    pub fn spawn_fifo<B: FnOnce(&ScopeFifo<'s>) + Send + 's>(&self, b: B) {
        b(self)
    }
}
pub fn scope<'s, OP: FnOnce(&Scope<'s>) -> R + Send, R: Send>(op: OP) -> R {
    op(&Scope(core::marker::PhantomData))
}
pub fn scope_fifo<'s, OP: FnOnce(&ScopeFifo<'s>) -> R + Send, R: Send>(op: OP) -> R {
    op(&ScopeFifo(core::marker::PhantomData))
}
pub fn in_place_scope<'s, OP: FnOnce(&Scope<'s>) -> R, R>(op: OP) -> R {
    op(&Scope(core::marker::PhantomData))
}
pub fn in_place_scope_fifo<'s, OP: FnOnce(&ScopeFifo<'s>) -> R, R>(op: OP) -> R {
    op(&ScopeFifo(core::marker::PhantomData))
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub struct BroadcastContext<'a>(core::marker::PhantomData<&'a ()>);
pub fn broadcast<OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send>(op: OP) -> Vec<R> {
    vec![op(BroadcastContext(core::marker::PhantomData))]
}
pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP) {
    op(BroadcastContext(core::marker::PhantomData))
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl core::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadBuilder;
#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
}
#[derive(Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
