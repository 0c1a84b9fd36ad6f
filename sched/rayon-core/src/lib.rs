//! Stand-in for rayon-core: the same interface to the parallel iterators of rayon 0.7, with every task placed and
//! ordered by the explorer in sched.c. Outside of an exploration everything runs in sequence on the calling thread.
use std::any::Any;
use std::cell::UnsafeCell;
use std::marker::PhantomData;
use std::os::raw::{c_char, c_int, c_void};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

extern "C" {
    fn vs_push(f: unsafe extern "C" fn(*mut c_void), d: *mut c_void);
    fn vs_pop(d: *mut c_void) -> c_int;
    fn vs_inject(f: unsafe extern "C" fn(*mut c_void), d: *mut c_void);
    fn vs_wait(l: *mut c_int);
    fn vs_set(l: *mut c_int);
    fn vs_worker() -> c_int;
    fn vs_me() -> c_int;
    fn vs_threads() -> c_int;
    fn vs_controlled() -> c_int;
    fn vs_reset(bound: c_int);
    fn vs_next() -> c_int;
    fn vs_order(o: c_int);
    fn vs_run(workers: c_int, callers: c_int, f: *const unsafe extern "C" fn(*mut c_void), d: *const *mut c_void) -> c_int;
    fn vs_counts(p: *mut u64, s: *mut u64, d: *mut u64);
    fn vs_describe(o: *mut c_char, cap: c_int) -> c_int;
    fn vs_save(n: *mut u8, p: *mut u8, d: *mut u8, cap: c_int) -> c_int;
    fn vs_tree(n: *mut u8, p: *mut u8, d: *mut u8, cap: c_int) -> c_int;
    fn vs_load(n: *const u8, p: *const u8, d: *const u8, len: c_int);
}

struct Task<F, R> { f: UnsafeCell<Option<F>>, r: UnsafeCell<Option<Result<R, Box<dyn Any + Send>>>>, done: UnsafeCell<c_int> }
impl<F: FnOnce() -> R, R> Task<F, R> {
    fn new(f: F) -> Self { Task { f: UnsafeCell::new(Some(f)), r: UnsafeCell::new(None), done: UnsafeCell::new(0) } }
    unsafe fn exec(&self) { let f = (*self.f.get()).take().unwrap(); *self.r.get() = Some(catch_unwind(AssertUnwindSafe(f))); }
    unsafe extern "C" fn call(p: *mut c_void) { let t = &*(p as *const Self); t.exec(); vs_set(t.done.get()); }
    unsafe fn take(&self) -> Result<R, Box<dyn Any + Send>> { (*self.r.get()).take().unwrap() }
}
fn in_pool<F: FnOnce() -> R, R>(f: F) -> R {
    unsafe {
        if vs_controlled() == 0 || vs_worker() == 1 { return f(); }
        let t = Task::new(f);
        vs_inject(Task::<F, R>::call, &t as *const _ as *mut c_void);
        vs_wait(t.done.get());
        match t.take() { Ok(r) => r, Err(e) => resume_unwind(e) }
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    unsafe {
        if vs_controlled() == 0 { return (a(), b()); }
        in_pool(move || {
            let t = Task::new(b);
            let p = &t as *const _ as *mut c_void;
            vs_push(Task::<B, RB>::call, p);
            let ra = catch_unwind(AssertUnwindSafe(a));
            if vs_pop(p) == 1 {
                // nobody took it
                match ra { Ok(ra) => { t.exec(); match t.take() { Ok(rb) => (ra, rb), Err(e) => resume_unwind(e) } } Err(e) => resume_unwind(e) }
            } else {
                vs_wait(t.done.get());
                match (ra, t.take()) { (Ok(x), Ok(y)) => (x, y), (Err(e), _) => resume_unwind(e), (_, Err(e)) => resume_unwind(e) }
            }
        })
    }
}
pub struct Scope<'scope> { open: UnsafeCell<usize>, done: UnsafeCell<c_int>, panic: UnsafeCell<Option<Box<dyn Any + Send>>>, m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>> }
unsafe impl<'s> Sync for Scope<'s> {}
unsafe impl<'s> Send for Scope<'s> {}
struct Spawned<'s> { f: Box<dyn FnOnce(&Scope<'s>) + Send + 's>, s: *const Scope<'s> }
impl<'s> Scope<'s> {
    pub fn spawn<B: FnOnce(&Scope<'s>) + Send + 's>(&self, b: B) {
        unsafe {
            *self.open.get() += 1;
            let p = Box::into_raw(Box::new(Spawned { f: Box::new(b), s: self })) as *mut c_void;
            if vs_controlled() == 0 { run_spawned(p) } else { vs_push(run_spawned, p) }
        }
    }
    unsafe fn finish(&self) { *self.open.get() -= 1; if *self.open.get() == 0 { if vs_controlled() == 1 { vs_set(self.done.get()) } else { *self.done.get() = 1 } } }
}
unsafe extern "C" fn run_spawned(p: *mut c_void) {
    let j = Box::from_raw(p as *mut Spawned<'static>);
    let s = &*j.s;
    let f = j.f;
    if let Err(e) = catch_unwind(AssertUnwindSafe(move || f(s))) { if (*s.panic.get()).is_none() { *s.panic.get() = Some(e); } }
    s.finish();
}
pub fn scope<'scope, OP, R>(op: OP) -> R where OP: for<'s> FnOnce(&'s Scope<'scope>) -> R + 'scope + Send, R: Send + 'scope {
    in_pool(move || unsafe {
        let s = Scope { open: UnsafeCell::new(1), done: UnsafeCell::new(0), panic: UnsafeCell::new(None), m: PhantomData };
        let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
        s.finish();
        if vs_controlled() == 1 { vs_wait(s.done.get()); }
        match r { Err(e) => resume_unwind(e), Ok(r) => { if let Some(e) = (*s.panic.get()).take() { resume_unwind(e) } r } }
    })
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    unsafe {
        let b: Box<Box<dyn FnOnce() + Send>> = Box::new(Box::new(f));
        unsafe extern "C" fn go(p: *mut c_void) { let b = Box::from_raw(p as *mut Box<dyn FnOnce() + Send>); let _ = catch_unwind(AssertUnwindSafe(move || b())); }
        let p = Box::into_raw(b) as *mut c_void;
        if vs_controlled() == 0 { go(p) } else if vs_worker() == 1 { vs_push(go, p) } else { vs_inject(go, p) }
    }
}
pub fn spawn_async<F: FnOnce() + Send + 'static>(f: F) { spawn(f) }
pub fn current_num_threads() -> usize { unsafe { vs_threads() as usize } }
pub fn current_thread_index() -> Option<usize> { unsafe { if vs_worker() == 1 { Some(vs_me() as usize) } else { None } } }
#[derive(Debug, Default)]
pub struct Configuration { threads: usize }
impl Configuration {
    pub fn new() -> Self { Default::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.threads = n; self }
    pub fn build(self) -> Result<ThreadPool, Box<dyn std::error::Error + 'static>> { Ok(ThreadPool) }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn breadth_first(self) -> Self { self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self { self }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
}
pub fn initialize(_: Configuration) -> Result<(), Box<dyn std::error::Error>> { Ok(()) }
#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn new(_: Configuration) -> Result<ThreadPool, Box<dyn std::error::Error>> { Ok(ThreadPool) }
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R { in_pool(op) }
    pub fn current_num_threads(&self) -> usize { current_num_threads() }
    pub fn current_thread_index(&self) -> Option<usize> { current_thread_index() }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join(a, b) }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R where OP: for<'s> FnOnce(&'s Scope<'scope>) -> R + 'scope + Send, R: Send + 'scope { scope(op) }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) { spawn(f) }
}

/// The explorer's interface.
pub mod explorer {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum End { Completed, Deadlock, Endless }
    pub fn reset(bound: u32) { unsafe { vs_reset(bound as c_int) } }
    /// what schedules depart from: 0 in order, workers first; 1 callers first; 2 callers first and pushed tasks begun at once
    pub fn order(o: u8) { unsafe { vs_order(o as c_int) } }
    pub fn next() -> bool { unsafe { vs_next() != 0 } }
    /// runs the callers on threads of their own over a pool of workers, under the current decisions
    pub fn run(workers: usize, callers: &[&(dyn Fn() + Sync)]) -> End {
        unsafe extern "C" fn go(p: *mut c_void) { let f = *(p as *const &(dyn Fn() + Sync)); let _ = catch_unwind(AssertUnwindSafe(|| f())); }
        let fs: Vec<unsafe extern "C" fn(*mut c_void)> = callers.iter().map(|_| go as unsafe extern "C" fn(*mut c_void)).collect();
        let ds: Vec<*mut c_void> = callers.iter().map(|c| c as *const _ as *mut c_void).collect();
        match unsafe { vs_run(workers as c_int, callers.len() as c_int, fs.as_ptr(), ds.as_ptr()) } { 1 => End::Completed, 2 => End::Deadlock, _ => End::Endless }
    }
    /// scheduling points, token hand-overs, changed trees
    pub fn counts() -> (u64, u64, u64) { let (mut a, mut b, mut c) = (0, 0, 0); unsafe { vs_counts(&mut a, &mut b, &mut c); } (a, b, c) }
    pub fn describe() -> String { let mut b = vec![0u8; 4000]; let n = unsafe { vs_describe(b.as_mut_ptr() as *mut c_char, 4000) }; String::from_utf8_lossy(&b[..n as usize]).trim().to_string() }
    pub fn save(n: *mut u8, p: *mut u8, d: *mut u8, cap: usize) -> usize { unsafe { vs_save(n, p, d, cap as c_int) as usize } }
    /// the decisions the next execution starts with
    pub fn tree(n: *mut u8, p: *mut u8, d: *mut u8, cap: usize) -> usize { unsafe { vs_tree(n, p, d, cap as c_int) as usize } }
    pub fn load(n: *const u8, p: *const u8, d: *const u8, len: usize) { unsafe { vs_load(n, p, d, len as c_int) } }
}
