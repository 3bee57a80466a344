//! C24, C25: what must end the process does so at once, what must not does not.
//!
//! Every case is a forked child. Shared markers record what it still did after
//! the point at which it had to die.
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::OwnStack;
use vh::{check, viol};

const UNWIND: bool = cfg!(feature = "unwind");

#[repr(C)]
struct Shared {
    /// The fatal operation is about to be performed.
    reached: u64,
    /// Things done after that.
    after: u64,
    caught: u64,
    dtor: u64,
    stack_released: u64,
    body: u64,
    /// A harmless program ran to its end.
    completed: u64,
    msg: [u8; 512],
}
static mut SH: *mut Shared = std::ptr::null_mut();
fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
fn bad(m: &str) -> ! {
    let b = m.as_bytes();
    sh().msg[..b.len().min(511)].copy_from_slice(&b[..b.len().min(511)]);
    unsafe { libc::_exit(12) }
}
macro_rules! must { ($c:expr, $($t:tt)*) => { if !($c) { bad(&format!($($t)*)) } } }
fn reached() {
    sh().reached += 1;
}

/// Resumer's local: its destructor is user code.
struct Witness;
impl Drop for Witness {
    fn drop(&mut self) {
        if sh().reached > 0 {
            sh().dtor += 1;
        }
    }
}
struct Stk {
    s: OwnStack,
    /// Objects alive on it.
    live: Rc<Cell<i64>>,
    watched: bool,
}
unsafe impl Stack for Stk {
    fn base(&self) -> StackPointer {
        self.s.base()
    }
    fn limit(&self) -> StackPointer {
        self.s.limit()
    }
}
impl Drop for Stk {
    fn drop(&mut self) {
        if self.watched && sh().reached > 0 {
            sh().stack_released += 1;
        }
    }
}
struct OnStack(Rc<Cell<i64>>);
impl OnStack {
    fn new(c: &Rc<Cell<i64>>) -> Self {
        c.set(c.get() + 1);
        OnStack(c.clone())
    }
}
impl Drop for OnStack {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1);
    }
}
type Co = Coroutine<u64, u64, u64, Stk>;
fn stk(watched: bool) -> Stk {
    Stk { s: OwnStack::new(128 << 10, 0, 0), live: Rc::default(), watched }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    /// catches the unwind and returns
    Return,
    /// catches it and suspends again
    Suspend,
    /// a destructor suspends
    DtorSuspend,
    /// catches it and panics with something else
    OtherPanic,
    /// a destructor panics, caught by an inner catch, then another payload
    DtorPanic,
    /// never started, captured object's destructor panics
    Fresh,
    /// no unwinding support: merely suspended
    Plain,
    /// swallows inside an on_stack closure
    OnStackReturn,
    /// suspends again and again
    Forever,
}

#[inline(never)]
fn descend(y: &Yielder<u64, u64>, d: u64, live: &Rc<Cell<i64>>) -> u64 {
    let _o = OnStack::new(live);
    if d == 0 {
        y.suspend(1)
    } else {
        descend(y, d - 1, live) + 1
    }
}
/// A coroutine brought into a state from which dropping it must fail.
fn bad_co(kind: Bad, depth: u64) -> Co {
    let s = stk(true);
    let live = s.live.clone();
    struct DS<'a>(&'a Yielder<u64, u64>);
    impl Drop for DS<'_> {
        fn drop(&mut self) {
            self.0.suspend(3);
        }
    }
    struct Boom;
    impl Drop for Boom {
        fn drop(&mut self) {
            std::panic::panic_any(77u8);
        }
    }
    if kind == Bad::Fresh {
        let b = Boom;
        return Coroutine::with_stack(s, move |_, _| {
            let _b = b;
            bad("the body of a never-started coroutine ran")
        });
    }
    let mut co: Co = Coroutine::with_stack(s, move |y, _| {
        let _o = OnStack::new(&live);
        match kind {
            Bad::Return => {
                let _ = catch_unwind(AssertUnwindSafe(|| descend(y, depth, &live)));
                5
            }
            Bad::OnStackReturn => {
                on_stack(stk(false), || {
                    let _ = catch_unwind(AssertUnwindSafe(|| descend(y, depth, &live)));
                });
                6
            }
            Bad::Suspend => {
                let _ = catch_unwind(AssertUnwindSafe(|| descend(y, depth, &live)));
                let _o = OnStack::new(&live);
                y.suspend(2);
                sh().body += 1;
                7
            }
            Bad::Forever => loop {
                let _ = catch_unwind(AssertUnwindSafe(|| descend(y, depth, &live)));
            },
            Bad::DtorSuspend => {
                let _d = DS(y);
                descend(y, depth, &live);
                8
            }
            Bad::OtherPanic => {
                let r = catch_unwind(AssertUnwindSafe(|| descend(y, depth, &live)));
                if r.is_err() {
                    std::panic::panic_any("another");
                }
                9
            }
            Bad::DtorPanic => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let _ = catch_unwind(AssertUnwindSafe(|| descend(y, depth, &live)));
                    let _b = Boom;
                }));
                match r {
                    Err(e) => resume_unwind(e),
                    Ok(()) => 10,
                }
            }
            _ => {
                descend(y, depth, &live);
                sh().body += 1;
                11
            }
        }
    });
    must!(co.resume(0) == CoroutineResult::Yield(1), "harness: no yield");
    co
}
/// A coroutine that drops without trouble.
fn good_co(r: &mut Rng) -> Co {
    let mut co: Co = Coroutine::with_stack(stk(true), |y, _| {
        if UNWIND {
            y.suspend(1);
        }
        2
    });
    if r.chance(1, 2) {
        co.resume(0);
    }
    co
}

/// Ways in which a coroutine is dropped.
fn dispose(way: u64, co: Co, r: &mut Rng) {
    match way {
        0 => {
            reached();
            drop(co);
        }
        1 => {
            let _w = Witness;
            let _c = co;
            reached();
        }
        2 => {
            let v = vec![co, good_co(r), good_co(r)];
            reached();
            drop(v);
        }
        3 => {
            let mut o = Some(co);
            reached();
            o = None;
            sh().after += 1;
            drop(o);
        }
        4 => {
            let b: Box<dyn std::any::Any> = Box::new(co);
            reached();
            drop(b);
        }
        5 => {
            let x = Rc::new(RefCell::new(co));
            let y = x.clone();
            drop(x);
            reached();
            drop(y);
        }
        6 => {
            struct Owner {
                _a: Co,
                _w: Witness,
                _b: Co,
            }
            let o = Owner { _a: co, _w: Witness, _b: good_co(r) };
            reached();
            drop(o);
        }
        7 => {
            // Assignment drops the old one.
            let mut c = co;
            reached();
            c = good_co(r);
            sh().after += 1;
            drop(c);
        }
        8 => {
            // While a panic unwinds (of this very context).
            let r = catch_unwind(AssertUnwindSafe(move || {
                let _w = Witness;
                let _c = co;
                reached();
                std::panic::panic_any("outer");
            }));
            sh().caught += r.is_err() as u64;
        }
        9 if UNWIND => {
            // Owned by a coroutine that is itself unwound.
            let mut o: Co = Coroutine::with_stack(stk(true), move |y, _| {
                let _w = Witness;
                let _c = co;
                y.suspend(1);
                sh().body += 1;
                0
            });
            o.resume(0);
            reached();
            let r = catch_unwind(AssertUnwindSafe(|| o.force_unwind()));
            if r.is_err() {
                sh().caught += 1;
            }
            sh().after += 1;
        }
        10 if UNWIND => {
            // Owned by a coroutine that is dropped.
            let mut o: Co = Coroutine::with_stack(stk(true), move |y, _| {
                let _c = co;
                y.suspend(1);
                sh().body += 1;
                0
            });
            o.resume(0);
            reached();
            drop(o);
        }
        11 => {
            // Captured by one that never started.
            let o: Co = Coroutine::with_stack(stk(true), move |_, _| {
                let _c = co;
                0
            });
            reached();
            drop(o);
        }
        _ => {
            reached();
            std::mem::drop(Box::new((co, Witness)));
        }
    }
    sh().after += 1;
}

/// Contexts from which `f` is run.
fn within(ctx: u64, f: impl FnOnce() + 'static) {
    struct Any<F>(F);
    unsafe impl<F> Send for Any<F> {}
    impl<F: FnOnce()> Any<F> {
        fn call(self) {
            (self.0)()
        }
    }
    match ctx {
        0 => f(),
        1 => {
            let f = Any(f);
            // Joining observes a panic.
            let r = std::thread::spawn(move || f.call()).join();
            if r.is_err() {
                sh().caught += 1;
            }
        }
        2 => {
            let mut c: Co = Coroutine::with_stack(stk(true), move |_, _| {
                f();
                0
            });
            let _ = c.resume(0);
        }
        3 => on_stack(stk(true), f),
        4 => {
            let mut c: Co = Coroutine::with_stack(stk(true), move |y, _| {
                let f = Any(f);
                y.on_parent_stack(move || f.call());
                0
            });
            let _ = c.resume(0);
        }
        5 => {
            let mut c: Co = Coroutine::with_stack(stk(true), move |y, _| {
                y.suspend(1);
                on_stack(stk(true), f);
                0
            });
            let _ = c.resume(0);
            let _ = c.resume(0);
        }
        _ => {
            let mut c: Co = Coroutine::with_stack(stk(true), move |_, _| {
                let mut d: Co = Coroutine::with_stack(stk(true), move |_, _| {
                    f();
                    0
                });
                let _ = d.resume(0);
                0
            });
            let _ = c.resume(0);
        }
    }
    if sh().reached > 0 {
        sh().after += 1;
    }
}
fn guarded(f: impl FnOnce()) {
    let _w = Witness;
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        sh().caught += 1;
    }
    if sh().reached > 0 {
        sh().after += 1;
    }
}

/// A panic that reaches the root of a context, without unwinding support.
fn root_panic(kind: u64, depth: u64, first: u64) {
    struct L;
    impl Drop for L {
        fn drop(&mut self) {}
    }
    #[inline(never)]
    fn boom(d: u64) {
        let _l = L;
        if d == 0 {
            reached();
            std::panic::panic_any("boom");
        }
        boom(d - 1)
    }
    match kind {
        0 => {
            let mut c: Co = Coroutine::with_stack(stk(true), move |y, _| {
                for _ in 0..first {
                    y.suspend(1);
                }
                boom(depth);
                0
            });
            let w = Witness;
            for _ in 0..=first {
                let _ = c.resume(0);
            }
            sh().after += 1;
            drop(w);
        }
        1 => {
            let w = Witness;
            on_stack(stk(true), || boom(depth));
            sh().after += 1;
            drop(w);
        }
        2 => {
            let mut c: Co = Coroutine::with_stack(stk(true), move |y, _| {
                for _ in 0..first {
                    y.suspend(1);
                }
                let w = Witness;
                y.on_parent_stack(move || boom(depth));
                sh().after += 1;
                drop(w);
                0
            });
            for _ in 0..=first {
                let _ = c.resume(0);
            }
            sh().after += 1;
        }
        _ => {
            // The resumer inside the coroutine catches, which must not help.
            let mut c: Co = Coroutine::with_stack(stk(true), move |_, _| {
                let mut d: Co = Coroutine::with_stack(stk(true), move |_, _| {
                    boom(depth);
                    0
                });
                let r = catch_unwind(AssertUnwindSafe(|| d.resume(0)));
                if r.is_err() {
                    sh().caught += 1;
                }
                sh().after += 1;
                std::mem::forget(d);
                0
            });
            let _ = c.resume(0);
            sh().after += 1;
        }
    }
}

/// Programs that must not be disturbed.
fn harmless(kind: u64, r: &mut Rng) {
    match kind {
        0 => {
            // never started, finished
            drop(good_co(r));
            let mut c = good_co(r);
            while !c.done() {
                c.resume(0);
            }
            drop(c);
        }
        1 => {
            // reset
            let mut c = bad_co(Bad::Plain, 2);
            unsafe { c.force_reset() };
            must!(c.done(), "not done after a reset");
            drop(c);
        }
        2 => {
            // force_unwind of a suspended coroutine
            let mut c = bad_co(Bad::Plain, 3);
            let x = catch_unwind(AssertUnwindSafe(|| c.force_unwind()));
            if UNWIND {
                must!(x.is_ok() && c.done(), "force_unwind failed");
            } else {
                for _ in 0..r.below(3) {
                    must!(catch_unwind(AssertUnwindSafe(|| c.force_unwind())).is_err(), "force_unwind of a suspended coroutine did not panic the second time");
                }
                must!(x.is_err(), "force_unwind of a suspended coroutine did not panic");
                must!(!c.done() && c.started(), "force_unwind changed the state of a suspended coroutine");
                must!(c.resume(4) == CoroutineResult::Return(11), "the coroutine is not usable after a failed force_unwind");
                must!(sh().body == 1, "body ran {} times", sh().body);
            }
            drop(c);
        }
        3 => {
            // a panic that does not reach the root
            let mut c: Co = Coroutine::with_stack(stk(false), |y, _| {
                let a = catch_unwind(|| std::panic::panic_any(3u8));
                must!(a.unwrap_err().downcast_ref::<u8>() == Some(&3), "wrong payload");
                let b = y.suspend(1);
                let a = catch_unwind(|| std::panic::panic_any(4u8));
                must!(a.unwrap_err().downcast_ref::<u8>() == Some(&4), "wrong payload");
                on_stack(stk(false), || {
                    let a = catch_unwind(|| std::panic::panic_any(5u8));
                    must!(a.unwrap_err().downcast_ref::<u8>() == Some(&5), "wrong payload");
                });
                y.on_parent_stack(|| {
                    let a = catch_unwind(|| std::panic::panic_any(6u8));
                    must!(a.unwrap_err().downcast_ref::<u8>() == Some(&6), "wrong payload");
                });
                b
            });
            must!(c.resume(0) == CoroutineResult::Yield(1), "wrong yield");
            must!(c.resume(9) == CoroutineResult::Return(9), "wrong result");
        }
        4 => {
            // a suspended one that is leaked, a resume of a finished one
            std::mem::forget(bad_co(Bad::Plain, 1));
            let mut c = good_co(r);
            while !c.done() {
                c.resume(0);
            }
            must!(catch_unwind(AssertUnwindSafe(|| c.resume(1))).is_err(), "resuming a finished coroutine did not panic");
        }
        5 => {
            // unwinding of the resumer past finished and unstarted ones
            let x = catch_unwind(AssertUnwindSafe(|| {
                let _a: Co = Coroutine::with_stack(stk(false), |_, _| 1);
                let mut b: Co = Coroutine::with_stack(stk(false), |_, _| 1);
                b.resume(0);
                std::panic::panic_any(8u8);
            }));
            must!(x.unwrap_err().downcast_ref::<u8>() == Some(&8), "wrong payload");
        }
        6 => {
            // into_stack of an unfinished one panics; it stays alive until then
            let mut c: Co = Coroutine::with_stack(stk(false), |_, _| 1);
            c.resume(0);
            let s = c.into_stack();
            must!(on_stack(s, || 4) == 4, "wrong result");
        }
        _ => {
            if UNWIND {
                // Every kind of failure is reported by an explicit force_unwind.
                for k in [Bad::Return, Bad::Suspend, Bad::OtherPanic, Bad::DtorPanic, Bad::OnStackReturn, Bad::Fresh] {
                    let mut c = bad_co(k, 1);
                    must!(catch_unwind(AssertUnwindSafe(|| c.force_unwind())).is_err(), "a failed unwind ({k:?}) was not reported");
                    must!(c.done() == (k != Bad::Suspend), "done() is {} after a failed unwind ({k:?})", c.done());
                }
                let x = catch_unwind(AssertUnwindSafe(|| {
                    let _c = good_co(&mut Rng::new(1, 1));
                    std::panic::panic_any(8u8);
                }));
                must!(x.unwrap_err().downcast_ref::<u8>() == Some(&8), "wrong payload");
            }
        }
    }
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        SH = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared;
    }
    let mut st = Stats::new();
    for case in a.cases() {
        let mut r = Rng::new(a.seed, case);
        let kinds: &[Bad] = if UNWIND {
            &[Bad::Return, Bad::Suspend, Bad::DtorSuspend, Bad::OtherPanic, Bad::DtorPanic, Bad::Fresh, Bad::OnStackReturn, Bad::Forever]
        } else {
            &[Bad::Plain, Bad::Plain, Bad::Plain, Bad::Fresh]
        };
        let kind = kinds[r.us(kinds.len())];
        let (way, ctx, depth, first) = (r.below(13), r.below(7), r.below(4), r.below(3));
        let catch = r.chance(1, 2);
        let mode = match r.below(8) {
            0 | 1 => 2,
            2..=4 if !UNWIND => 1,
            _ => 0,
        };
        let desc = match mode {
            0 => format!("dropping ({kind:?}, way {way}) in context {ctx}"),
            1 => format!("panic reaching the root (kind {}) in context {ctx}", way % 4),
            _ => format!("harmless program {} in context {ctx}", way % 8),
        };
        rep::case(case, &desc);
        unsafe { std::ptr::write_bytes(SH as *mut u8, 0, 4096) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                let n = libc::open(b"/dev/null\0".as_ptr() as _, libc::O_WRONLY);
                libc::dup2(n, 1);
                libc::dup2(n, 2);
                let l = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                libc::alarm(100);
            }
            let go = move || match mode {
                0 => within(ctx, move || dispose(way, bad_co(kind, depth), &mut r)),
                1 => within(ctx, move || root_panic(way % 4, depth, first)),
                _ => within(ctx, move || {
                    harmless(way % 8, &mut r);
                    sh().completed += 1;
                }),
            };
            if catch {
                guarded(go);
            } else {
                go();
                if sh().reached > 0 {
                    sh().after += 1;
                }
            }
            unsafe { libc::_exit(0) };
        }
        let mut stt = 0;
        check!(unsafe { libc::waitpid(pid, &mut stt, 0) } == pid, "harness: waitpid");
        let s = sh();
        let msg = String::from_utf8_lossy(&s.msg[..s.msg.iter().position(|b| *b == 0).unwrap_or(0)]).to_string();
        check!(msg.is_empty(), "{desc}: {msg}");
        let sig = if libc::WIFSIGNALED(stt) { libc::WTERMSIG(stt) } else { 0 };
        if sig == libc::SIGALRM || sig == libc::SIGKILL {
            // No verdict from a wall-clock limit.
            if sig == libc::SIGALRM {
                viol!("{desc}: the process blocks instead of ending");
            }
            rep::inconclusive("a child was killed from outside");
        }
        if mode == 2 {
            check!(stt == 0 && s.completed == 1, "{desc}: ended with status {stt:#x} instead of running to its end");
            st.add("harmless_completed", 1);
        } else {
            if s.reached == 0 {
                viol!("{desc}: ended with status {stt:#x} before the fatal operation");
            }
            let later = [("code after the operation", s.after), ("a panic handler in the resumer", s.caught), ("a destructor in the resumer", s.dtor), ("the body after its suspension", s.body), ("the release of the stack", s.stack_released)];
            for (n, v) in later {
                check!(v == 0, "{desc}: {n} was executed instead of aborting (status {stt:#x})");
            }
            check!(sig == libc::SIGABRT || sig == libc::SIGILL || sig == libc::SIGTRAP, "{desc}: ended with status {stt:#x} instead of aborting");
            st.add("aborts", 1);
        }
        st.evals += 1;
        st.distinct(mode << 32 | (kind as u64) << 24 | way << 16 | ctx << 8 | depth << 4 | first << 2 | catch as u64);
        st.sample(|| format!("case {case}: {desc}: status {stt:#x}"));
    }
    st.finish()
}
