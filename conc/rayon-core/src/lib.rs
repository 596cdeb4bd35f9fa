//! Stand-in for rayon-core: the same interface, but the pool's workers, deques and steals are
//! decided by the scheduler in ../rt/rt.c. Outside of an exploration everything runs inline.
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[repr(C)]
struct Job {
    run: unsafe extern "C" fn(*mut Job, i32),
    state: i32,
}

extern "C" {
    fn mc_self() -> i32;
    fn mc_pool_threads() -> i32;
    fn mc_worker_index() -> i32;
    fn mc_push(j: *mut Job);
    fn mc_inject(j: *mut Job);
    fn mc_job_done(j: *mut Job);
    fn mc_wait(j: *mut Job, flag: *const i32) -> i32;
    fn sched_yield() -> i32;
}

fn managed() -> bool {
    unsafe { mc_self() >= 0 }
}

#[repr(C)]
struct StackJob<F, R> {
    job: Job,
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<Option<Result<R, Box<dyn Any + Send>>>>,
}

impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F) -> Self {
        Self { job: Job { run: Self::run, state: 0 }, f: UnsafeCell::new(Some(f)), r: UnsafeCell::new(None) }
    }
    unsafe extern "C" fn run(j: *mut Job, migrated: i32) {
        let this = j as *mut Self;
        let f = (*(*this).f.get()).take().unwrap();
        *(*this).r.get() = Some(catch_unwind(AssertUnwindSafe(|| f(migrated != 0))));
        mc_job_done(j);
    }
    fn ptr(&self) -> *mut Job {
        &self.job as *const Job as *mut Job
    }
    fn take(&self) -> Result<R, Box<dyn Any + Send>> {
        unsafe { (*self.r.get()).take().unwrap() }
    }
}

/// Run in a worker of the pool
fn in_worker<R, F: FnOnce(bool) -> R>(f: F) -> R {
    if !managed() {
        return f(false);
    }
    unsafe {
        if mc_worker_index() >= 0 {
            return f(false);
        }
        let job = StackJob::new(|_| f(true));
        mc_inject(job.ptr());
        mc_wait(job.ptr(), std::ptr::null());
        match job.take() {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        }
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_worker(|injected| {
        if !managed() {
            return (a(FnContext::new(false)), b(FnContext::new(false)));
        }
        unsafe {
            let job = StackJob::new(|m| b(FnContext::new(m)));
            mc_push(job.ptr());
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
            if mc_wait(job.ptr(), std::ptr::null()) == 1 {
                // taken back
                match ra {
                    Ok(ra) => {
                        let f = (*job.f.get()).take().unwrap();
                        return (ra, f(injected));
                    }
                    Err(e) => resume_unwind(e),
                }
            }
            match (ra, job.take()) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(e), _) | (_, Err(e)) => resume_unwind(e),
            }
        }
    })
}

pub fn max_num_threads() -> usize {
    65535
}
pub fn current_num_threads() -> usize {
    unsafe { mc_pool_threads() as usize }
}
pub fn current_thread_index() -> Option<usize> {
    let i = unsafe { mc_worker_index() };
    if i < 0 {
        None
    } else {
        Some(i as usize)
    }
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    unsafe { sched_yield() };
    current_thread_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

// ---- spawned jobs and scopes ----

#[repr(C)]
struct HeapJob {
    job: Job,
    f: Option<Box<dyn FnOnce()>>,
}

unsafe extern "C" fn heap_run(j: *mut Job, _m: i32) {
    let mut b = Box::from_raw(j as *mut HeapJob);
    let f = b.f.take().unwrap();
    drop(b);
    f();
}

unsafe fn push_heap<'a>(f: Box<dyn FnOnce() + 'a>) {
    if !managed() {
        f();
        return;
    }
    let f: Box<dyn FnOnce()> = std::mem::transmute(f);
    let j = Box::into_raw(Box::new(HeapJob { job: Job { run: heap_run, state: 0 }, f: Some(f) }));
    mc_push(j as *mut Job);
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    unsafe {
        push_heap(Box::new(move || {
            let _ = catch_unwind(AssertUnwindSafe(f));
        }))
    }
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}

struct Base {
    open: Cell<i32>,
    panic: Cell<Option<Box<dyn Any + Send>>>,
}

macro_rules! scopes {
    ($name:ident, $spawn:ident, $spawn_broadcast:ident, $scope:ident, $in_place:ident) => {
        pub struct $name<'scope> {
            base: Base,
            _m: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl<'scope> Send for $name<'scope> {}
        unsafe impl<'scope> Sync for $name<'scope> {}
        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl<'scope> $name<'scope> {
            fn create() -> Self {
                Self { base: Base { open: Cell::new(0), panic: Cell::new(None) }, _m: PhantomData }
            }
            pub fn $spawn<B>(&self, body: B)
            where
                B: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                self.base.open.set(self.base.open.get() + 1);
                let me = self as *const Self as usize;
                unsafe {
                    push_heap(Box::new(move || {
                        let me = &*(me as *const Self);
                        if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(me))) {
                            me.base.panic.set(Some(e));
                        }
                        me.base.open.set(me.base.open.get() - 1);
                    }))
                }
            }
            pub fn $spawn_broadcast<B>(&self, body: B)
            where
                B: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = current_num_threads();
                for index in 0..n {
                    body(self, BroadcastContext { index, n, _m: PhantomData });
                }
            }
            fn complete<R>(&self, r: Result<R, Box<dyn Any + Send>>) -> R {
                if managed() {
                    unsafe { mc_wait(std::ptr::null_mut(), self.base.open.as_ptr()) };
                }
                if let Some(e) = self.base.panic.take() {
                    resume_unwind(e);
                }
                match r {
                    Ok(r) => r,
                    Err(e) => resume_unwind(e),
                }
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R + Send,
            R: Send,
        {
            in_worker(|_| $in_place(op))
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R,
        {
            let s = $name::<'scope>::create();
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.complete(r)
        }
    };
}
scopes!(Scope, spawn, spawn_broadcast, scope, in_place_scope);
scopes!(ScopeFifo, spawn_fifo, spawn_broadcast, scope_fifo, in_place_scope_fifo);

#[derive(Clone, Debug)]
pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a ()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|index| op(BroadcastContext { index, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

// ---- pools: there is one ----

pub struct ThreadPool {
    n: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        in_worker(|_| op())
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}

pub struct ThreadPoolBuildError;
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuildError")
    }
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the pool has been built already")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self { n: 0 }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n == 0 { current_num_threads() } else { self.n };
        Ok(ThreadPool { n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn spawn_handler<F: FnMut(ThreadBuilder) -> io::Result<()>>(self, _f: F) -> Self {
        self
    }
}
