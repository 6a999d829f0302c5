//! Verification stand-in for `rayon-core`: a sequential scheduler.  The real
//! `rayon` iterator adaptors, splitters and collectors run unmodified on top of
//! it.  TRUSTED: running two joined closures on two threads has the same effect
//! as running them one after the other (no data races: guaranteed by Send/Sync).
#![allow(missing_debug_implementations)]

use std::marker::PhantomData;

#[derive(Debug)]
pub struct FnContext(());
impl FnContext {
    pub fn migrated(&self) -> bool {
        false
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let ra = a();
    let rb = b();
    (ra, rb)
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let ra = a(FnContext(()));
    let rb = b(FnContext(()));
    (ra, rb)
}
pub fn current_num_threads() -> usize {
    1
}
pub fn max_num_threads() -> usize {
    1
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}

#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn current_num_threads(&self) -> usize {
        1
    }
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
#[derive(Debug)]
pub struct ThreadPoolBuilder(());
#[derive(Debug)]
pub struct ThreadBuilder(());
#[derive(Debug)]
pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
pub fn broadcast<OP, R>(_op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    unimplemented!()
}
pub fn spawn_broadcast<OP>(_op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    unimplemented!()
}
pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}
#[derive(Debug)]
pub struct Scope<'scope>(PhantomData<&'scope ()>);
impl<'scope> Scope<'scope> {
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        body(self)
    }
}
#[derive(Debug)]
pub struct ScopeFifo<'scope>(PhantomData<&'scope ()>);
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    op(&Scope(PhantomData))
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope(PhantomData))
}
pub fn scope_fifo<'scope, OP, R>(_op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    unimplemented!()
}
pub fn in_place_scope_fifo<'scope, OP, R>(_op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    unimplemented!()
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_local() -> Option<Yield> {
    None
}
pub fn yield_now() -> Option<Yield> {
    None
}
