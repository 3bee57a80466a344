//! C22: coroutines behave identically when resumed from different threads.
//!
//! A population of coroutines is shared by several threads. Every operation
//! (create, start, resume, unwind, finish, drop, extract, query) is performed
//! by whichever thread gets hold of it; outcomes must be those of the
//! coroutine's own history, and every effect must occur on the thread
//! performing the operation.
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Arc;
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::{self, OwnStack};
use vh::{check, viol};

const UNWIND: bool = cfg!(feature = "unwind");
const TSAN: bool = cfg!(vh_tsan);

#[inline(never)]
fn tid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}
thread_local! {
    static BOUNDS: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static HOOKS: Cell<u64> = const { Cell::new(0) };
}
#[inline(never)]
fn bounds() -> (usize, usize) {
    BOUNDS.with(|b| b.get())
}
#[inline(never)]
fn hooks() -> u64 {
    HOOKS.with(|b| b.get())
}

/// A spinning reader-writer lock (visible to ThreadSanitizer, unlike the
/// contended paths of the precompiled standard library).
struct Lock<T> {
    n: AtomicI64,
    v: UnsafeCell<T>,
}
unsafe impl<T> Sync for Lock<T> {}
unsafe impl<T> Send for Lock<T> {}
impl<T> Lock<T> {
    fn new(v: T) -> Self {
        Lock { n: AtomicI64::new(0), v: UnsafeCell::new(v) }
    }
    fn try_write<R>(&self, f: impl FnOnce(&mut T) -> R) -> Option<R> {
        if self.n.compare_exchange(0, -1, Acquire, Relaxed).is_err() {
            return None;
        }
        let r = f(unsafe { &mut *self.v.get() });
        self.n.store(0, Release);
        Some(r)
    }
    fn write<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let mut f = Some(f);
        loop {
            if let Some(r) = self.try_write(|t| f.take().unwrap()(t)) {
                return r;
            }
            std::thread::yield_now();
        }
    }
    fn try_read<R>(&self, f: impl FnOnce(&T) -> R) -> Option<R> {
        let n = self.n.load(Relaxed);
        if n < 0 || self.n.compare_exchange(n, n + 1, Acquire, Relaxed).is_err() {
            return None;
        }
        let r = f(unsafe { &*self.v.get() });
        self.n.fetch_sub(1, Release);
        Some(r)
    }
}

enum S {
    Own(OwnStack),
    Def(DefaultStack),
}
unsafe impl Stack for S {
    fn base(&self) -> StackPointer {
        match self {
            S::Own(s) => s.base(),
            S::Def(s) => s.base(),
        }
    }
    fn limit(&self) -> StackPointer {
        match self {
            S::Own(s) => s.limit(),
            S::Def(s) => s.limit(),
        }
    }
}

/// State shared between a coroutine and those who operate on it.
struct Ctl {
    /// thread performing the operation in progress
    who: AtomicU64,
    live: AtomicI64,
    made: AtomicU32,
    lo: usize,
    hi: usize,
}
impl Ctl {
    #[inline(never)]
    fn here(&self, what: &str) {
        let (a, b) = (self.who.load(Relaxed), tid());
        check!(a == b, "{what} happened on thread {b}, although thread {a} performs the operation");
    }
}
/// A local variable or a capture.
struct Obj(Arc<Ctl>, u64);
impl Obj {
    fn new(c: &Arc<Ctl>) -> Self {
        c.live.fetch_add(1, Relaxed);
        let n = c.made.fetch_add(1, Relaxed) as u64;
        Obj(c.clone(), n ^ 0x5555)
    }
}
impl Drop for Obj {
    fn drop(&mut self) {
        self.0.here("a destructor");
        check!(self.0.live.fetch_sub(1, Relaxed) > 0, "an object was dropped twice");
    }
}

// ---- backtraces
#[repr(C)]
struct UCtx([usize; 0]);
extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut UCtx, *mut libc::c_void) -> i32, a: *mut libc::c_void) -> i32;
    fn _Unwind_GetCFA(c: *mut UCtx) -> usize;
}
#[inline(never)]
fn backtrace() -> Vec<usize> {
    extern "C" fn cb(c: *mut UCtx, a: *mut libc::c_void) -> i32 {
        let v = unsafe { &mut *(a as *mut Vec<usize>) };
        v.push(unsafe { _Unwind_GetCFA(c) });
        (v.len() > 3000) as i32 * 5
    }
    let mut v: Vec<usize> = Vec::with_capacity(64);
    unsafe { _Unwind_Backtrace(cb, &mut v as *mut _ as _) };
    v
}

/// ThreadSanitizer is told about the contexts, as its manual requires of
/// programs that switch stacks.
#[cfg(vh_tsan)]
mod fiber {
    use std::ffi::c_void;
    extern "C" {
        fn __tsan_create_fiber(f: u32) -> *mut c_void;
        fn __tsan_destroy_fiber(p: *mut c_void);
        fn __tsan_switch_to_fiber(p: *mut c_void, f: u32);
        fn __tsan_get_current_fiber() -> *mut c_void;
    }
    pub struct Fiber(*mut c_void);
    impl Fiber {
        pub fn new() -> Self {
            Fiber(unsafe { __tsan_create_fiber(0) })
        }
        #[inline(never)]
        pub fn run<R>(&self, f: impl FnOnce() -> R) -> R {
            unsafe {
                let me = __tsan_get_current_fiber();
                __tsan_switch_to_fiber(self.0, 0);
                let r = f();
                __tsan_switch_to_fiber(me, 0);
                r
            }
        }
    }
    impl Drop for Fiber {
        fn drop(&mut self) {
            unsafe { __tsan_destroy_fiber(self.0) }
        }
    }
}
#[cfg(not(vh_tsan))]
mod fiber {
    pub struct Fiber;
    impl Fiber {
        pub fn new() -> Self {
            Fiber
        }
        #[inline(always)]
        pub fn run<R>(&self, f: impl FnOnce() -> R) -> R {
            f()
        }
    }
}
use fiber::Fiber;

type Msg = (u64, u64, Obj); // performing thread, sequence number, object
type Co = Coroutine<Msg, (u64, Box<u64>), (u64, String), S>;
struct Payload(u64, Obj);

#[derive(Clone, Copy, Debug)]
struct Plan {
    yields: u64,
    depth: u64,
    on_stack: bool,
    child: bool,
    panics: bool,
    parent: bool,
    bt: bool,
    catches: bool,
}
#[inline(never)]
fn descend(y: &Yielder<Msg, (u64, Box<u64>)>, d: u64, k: u64, c: &Arc<Ctl>) -> Msg {
    let o = Obj::new(c);
    let r = if d == 0 { y.suspend((k, Box::new(k * 3))) } else { descend(y, d - 1, k, c) };
    c.here("resumption of a frame");
    std::hint::black_box(&o);
    r
}
fn body(y: &Yielder<Msg, (u64, Box<u64>)>, plan: Plan, ctl: Arc<Ctl>, cap: Obj, aux: Option<S>, first: Msg) -> (u64, String) {
    ctl.here("the body");
    let mut aux = aux;
    let _cap = cap;
    let recv = |m: Msg, k: u64| {
        let (t, n, o) = m;
        check!(t == tid(), "input from thread {t} received on thread {}", tid());
        check!(n == k, "input {n} instead of {k}");
        drop(o);
    };
    recv(first, 0);
    let mut child: Option<Coroutine<u64, u64, (), DefaultStack>> = if plan.child {
        let c2 = ctl.clone();
        Some(Coroutine::with_stack(DefaultStack::new(64 << 10).unwrap(), move |y, mut v| {
            let _o = Obj::new(&c2);
            while v != u64::MAX {
                c2.here("a nested coroutine");
                v = y.suspend(v + 1);
            }
        }))
    } else {
        None
    };
    for k in 1..=plan.yields {
        let _l = Obj::new(&ctl);
        if plan.parent {
            let me = tid();
            let c2 = ctl.clone();
            let v = y.on_parent_stack(move || {
                let sp = sys::sp();
                let (lo, hi) = bounds();
                check!(sp >= lo && sp < hi, "an on_parent_stack closure runs at {sp:#x}, outside of the stack {lo:#x}..{hi:#x} of the resuming thread");
                check!(tid() == me, "an on_parent_stack closure runs on another thread");
                c2.here("an on_parent_stack closure");
                k + 5
            });
            check!(v == k + 5, "on_parent_stack returned {v}");
        }
        if let Some(c) = child.as_mut() {
            check!(c.resume(k).as_yield() == Some(k + 1), "nested coroutine yielded a wrong value");
        }
        if plan.bt {
            let (lo, hi) = bounds();
            let b = backtrace();
            let n = b.iter().filter(|a| **a >= lo && **a <= hi).count();
            let own = b.iter().filter(|a| **a >= ctl.lo && **a <= ctl.hi).count();
            check!(n > 0 && own > 0 && b.len() < 3000, "a backtrace has {own} frames on the coroutine's stack and {n} on the performing thread's");
            check!(n + own == b.len(), "a backtrace taken after a migration contains {} frame(s) of foreign stacks", b.len() - n - own);
        }
        let m = match aux.take() {
            Some(s) if plan.on_stack && k % 2 == 0 => on_stack(s, || descend(y, plan.depth, k, &ctl)),
            a => {
                aux = a;
                if plan.catches {
                    // Forced unwinds pass through a handler, on whatever thread.
                    match catch_unwind(AssertUnwindSafe(|| descend(y, plan.depth, k, &ctl))) {
                        Ok(m) => m,
                        Err(e) => {
                            ctl.here("a catch handler");
                            std::panic::resume_unwind(e)
                        }
                    }
                } else {
                    descend(y, plan.depth, k, &ctl)
                }
            }
        };
        recv(m, k);
    }
    if let Some(c) = child.as_mut() {
        check!(c.resume(u64::MAX).as_return().is_some(), "nested coroutine did not return");
    }
    if plan.panics {
        std::panic::panic_any(Payload(plan.yields, Obj::new(&ctl)));
    }
    (plan.yields, format!("end{}", plan.yields))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Fresh,
    Suspended,
    Done,
}
struct Slot {
    co: Option<Co>,
    ctl: Arc<Ctl>,
    plan: Plan,
    n: u64,
    state: State,
    threads: u64,
    b: (usize, usize),
    trap: Option<CoroutineTrapHandler<(u64, String)>>,
    fiber: Fiber,
}
unsafe impl Send for Slot {}
struct Shared {
    slots: Vec<Lock<Option<Slot>>>,
    pool: Lock<Vec<S>>,
    ops: [AtomicU64; 10],
    /// operations performed by a thread other than the previous one
    budget: AtomicI64,
    starting: AtomicI64,
}

fn create(sh: &Shared, r: &mut Rng) -> Slot {
    let pooled = sh.pool.write(|p| if p.is_empty() { None } else { let k = r.us(p.len()); Some(p.swap_remove(k)) });
    let s = match pooled {
        Some(s) if r.chance(3, 4) => s,
        _ => {
            if r.chance(1, 2) {
                S::Own(OwnStack::new(96 << 10, 0, 0))
            } else {
                S::Def(DefaultStack::new((96 << 10) + r.us(50_000)).unwrap())
            }
        }
    };
    let b = (s.limit().get(), s.base().get());
    let plan = Plan {
        yields: r.below(7),
        depth: r.below(4),
        on_stack: r.chance(1, 3),
        child: r.chance(1, 3),
        panics: UNWIND && r.chance(1, 4),
        parent: r.chance(1, 3),
        bt: r.chance(1, 6) && !TSAN,
        catches: UNWIND && r.chance(1, 3),
    };
    let ctl = Arc::new(Ctl { who: AtomicU64::new(tid()), live: AtomicI64::new(0), made: AtomicU32::new(0), lo: b.0, hi: b.1 });
    let (c2, cap) = (ctl.clone(), Obj::new(&ctl));
    let aux = if plan.on_stack { Some(S::Own(OwnStack::new(64 << 10, 0, 0))) } else { None };
    let co = Coroutine::with_stack(s, move |y: &Yielder<Msg, (u64, Box<u64>)>, m: Msg| body(y, plan, c2, cap, aux, m));
    let trap = if r.chance(1, 2) { Some(co.trap_handler()) } else { None };
    Slot { co: Some(co), ctl, plan, n: 0, state: State::Fresh, threads: 0, b, trap, fiber: Fiber::new() }
}
fn verify(s: &Slot) {
    let co = s.co.as_ref().unwrap();
    check!(co.done() == (s.state == State::Done), "done() is {} in state {:?}", co.done(), s.state);
    check!(co.started() == (s.state != State::Fresh), "started() is {} in state {:?}", co.started(), s.state);
}
fn resume(s: &mut Slot) {
    let co = s.co.as_mut().unwrap();
    let (n, plan) = (s.n, s.plan);
    let h = hooks();
    let msg = (tid(), n, Obj::new(&s.ctl));
    let was = s.state;
    let r = s.fiber.run(|| catch_unwind(AssertUnwindSafe(|| co.resume(msg))));
    s.n += 1;
    match r {
        Ok(CoroutineResult::Yield((v, b))) => {
            check!(was != State::Done && v == n + 1 && *b == v * 3 && n < plan.yields, "yielded {v} at resume {n} of {plan:?}");
            s.state = State::Suspended;
        }
        Ok(CoroutineResult::Return((v, t))) => {
            check!(was != State::Done && v == plan.yields && n == v && t == format!("end{v}") && !plan.panics, "returned {v} {t:?} at resume {n} of {plan:?}");
            s.state = State::Done;
        }
        Err(e) => {
            check!(hooks() == h + 1, "the panic hook ran {} times on the performing thread", hooks() - h);
            match e.downcast::<Payload>() {
                Ok(p) => check!(was != State::Done && plan.panics && n == plan.yields && p.0 == n, "wrong panic at resume {n} of {plan:?}"),
                Err(_) => {
                    check!(was == State::Done, "unknown panic out of resume {n} of {plan:?} ({was:?})");
                    s.n -= 1;
                }
            }
            s.state = State::Done;
        }
    }
    check!(!std::thread::panicking(), "the performing thread is still considered panicking");
    if s.state == State::Done {
        check!(s.ctl.live.load(Relaxed) == 0, "{} object(s) still alive after the end", s.ctl.live.load(Relaxed));
    }
}

fn worker(sh: &Shared, mut r: Rng) {
    BOUNDS.with(|b| b.set(sys::thread_stack()));
    sh.starting.fetch_sub(1, AcqRel);
    while sh.starting.load(Acquire) > 0 {
        std::thread::yield_now();
    }
    let me = tid();
    let bit = 1 << (me % 61);
    while sh.budget.fetch_sub(1, Relaxed) > 0 {
        let k = r.us(sh.slots.len());
        let op = r.below(16);
        let slot = &sh.slots[k];
        let cnt = |i: usize| {
            sh.ops[i].fetch_add(1, Relaxed);
        };
        if op < 4 {
            // Queries, shared with other threads.
            slot.try_read(|s| {
                if let Some(s) = s {
                    if s.co.is_some() {
                        verify(s);
                        let (lo, hi) = s.b;
                        let other;
                        let t = match &s.trap {
                            Some(t) => t,
                            None => {
                                other = s.co.as_ref().unwrap().trap_handler();
                                &other
                            }
                        };
                        for (a, want) in [(lo, true), (hi - 1, true), (hi, false), (lo - 1, false), (lo + (hi - lo) / 2, true)] {
                            check!(t.stack_ptr_in_bounds(a) == want, "stack_ptr_in_bounds({a:#x}) is {} for {lo:#x}..{hi:#x}", !want);
                        }
                        cnt(0);
                    }
                }
            });
            continue;
        }
        slot.try_write(|e| {
            let Some(s) = e.as_mut() else {
                *e = Some(create(sh, &mut r));
                cnt(1);
                return;
            };
            s.ctl.who.store(me, Relaxed);
            s.threads |= bit;
            match op {
                4..=11 => {
                    resume(s);
                    verify(s);
                    cnt(2);
                }
                12 if UNWIND => {
                    let h = hooks();
                    let co = s.co.as_mut().unwrap();
                    s.fiber.run(|| co.force_unwind());
                    s.state = State::Done;
                    verify(s);
                    check!(hooks() == h, "a forced unwind called the panic hook");
                    check!(s.ctl.live.load(Relaxed) == 0, "{} object(s) left after force_unwind", s.ctl.live.load(Relaxed));
                    cnt(3);
                }
                13 if UNWIND || s.state != State::Suspended => {
                    let co = s.co.take();
                    s.fiber.run(|| drop(co));
                    check!(s.ctl.live.load(Relaxed) == 0, "{} object(s) left after a drop", s.ctl.live.load(Relaxed));
                    cnt(4);
                    if s.threads.count_ones() > 1 {
                        cnt(6);
                    }
                    *e = None;
                }
                14 | 15 if s.state == State::Done => {
                    let st = s.co.take().unwrap().into_stack();
                    check!((st.limit().get(), st.base().get()) == s.b, "another stack was extracted");
                    sh.pool.write(|p| p.push(st));
                    cnt(5);
                    if s.threads.count_ones() > 1 {
                        cnt(6);
                    }
                    *e = None;
                }
                _ => (),
            }
        });
    }
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {
        HOOKS.with(|h| h.set(h.get() + 1));
    }));
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        let nt = 2 + r.us(7);
        let ns = 1 + r.us(3 * nt);
        let sh = Arc::new(Shared {
            slots: (0..ns).map(|_| Lock::new(None)).collect(),
            pool: Lock::new(Vec::new()),
            ops: Default::default(),
            starting: AtomicI64::new(nt as i64),
            budget: AtomicI64::new(a.num("ops", 2500) as i64),
        });
        let hs: Vec<_> = (0..nt)
            .map(|i| {
                let (sh, r) = (sh.clone(), Rng::new(a.seed ^ 0xabcd, case * 64 + i as u64));
                std::thread::Builder::new().stack_size(512 << 10).spawn(move || worker(&sh, r)).unwrap()
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                viol!("unexpected panic in a worker");
            }
        }
        // The main thread, which performed nothing so far, ends what is left.
        BOUNDS.with(|b| b.set(sys::thread_stack()));
        for s in &sh.slots {
            s.write(|e| {
                if let Some(s) = e.as_mut() {
                    s.ctl.who.store(tid(), Relaxed);
                    verify(s);
                    if r.chance(1, 2) || !UNWIND {
                        // to its end
                        for _ in 0..10 {
                            if s.state != State::Done {
                                resume(s);
                            }
                        }
                    }
                    let co = s.co.take();
                    s.fiber.run(|| drop(co));
                    check!(s.ctl.live.load(Relaxed) == 0, "{} object(s) left after the end", s.ctl.live.load(Relaxed));
                }
                *e = None;
            });
        }
        st.evals += 1;
        let mut h = Vec::new();
        for (i, n) in ["shared_queries", "created", "resumes", "force_unwinds", "drops", "stacks_extracted", "coroutines_run_by_several_threads"].iter().enumerate() {
            let v = sh.ops[i].load(Relaxed);
            st.add(n, v);
            h.extend(v.to_le_bytes());
        }
        if sh.ops[6].load(Relaxed) > 0 {
            st.distinct(vh::rng::hash(&h));
            st.sample(|| format!("case {case}: {nt} threads, {ns} slots, {} resumes, {} coroutines run by several threads", sh.ops[2].load(Relaxed), sh.ops[6].load(Relaxed)));
        }
    }
    st.finish()
}
