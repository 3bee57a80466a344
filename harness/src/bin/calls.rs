//! C01, C02, C05, C16, C17: the stack-calling functions and coroutine bodies
//! as generic functions: every combination of captured state and result type,
//! ending by a return or a panic, entered from different places.
use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::Cell;
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use vh::check;
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::vals::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Return,
    /// the captured state is gone already
    PanicLate,
    /// unwinding destroys the captured state
    PanicEarly,
}
/// What the closures do. Not captured: they capture nothing but `c`.
#[derive(Clone, Copy)]
struct Plan {
    seed: u64,
    case: u64,
    end: End,
    payload: u8,
    suspends: u8,
}
thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(Plan { seed: 0, case: 0, end: End::Return, payload: 0, suspends: 0 }) };
    static RAN: Cell<u32> = const { Cell::new(0) };
    static THROWN: Cell<usize> = const { Cell::new(0) };
    static HOOKS: Cell<u32> = const { Cell::new(0) };
    /// Where the closure has to run.
    static AREA: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static PLACES: Cell<u64> = const { Cell::new(0) };
}
const PAYLOADS: u8 = 14;
struct Zst;
type Dyn = Box<dyn Any + Send>;
fn addr(p: &(dyn Any + Send)) -> usize {
    p as *const _ as *const u8 as usize
}
fn throw(p: Plan) -> ! {
    let mut r = Rng::new(p.seed ^ 77, p.case);
    match p.payload {
        0 => panic_any(r.next()),
        1 => panic!("fixed text"),
        2 => panic!("formatted {}", r.next()),
        3 => panic_any(Own::<40>::gen(&mut r)),
        4 => panic_any(A64::<100>::gen(&mut r)),
        5 => panic_any(Zst),
        // Payloads that are boxes of payloads themselves
        8 => panic_any(Box::new(r.next()) as Dyn),
        10 => panic_any(()),
        11 => panic_any(Err::<Dyn, Dyn>(Box::new(r.next()))),
        12 => panic_any(format!("owned {}", r.next())),
        k => {
            let b: Dyn = match k {
                6 => Box::new(Own::<0>::gen(&mut r)),
                9 => Box::new(Box::new(r.next()) as Dyn),
                13 => Box::new("static"),
                _ => Box::new(r.next()),
            };
            THROWN.set(addr(&*b));
            resume_unwind(b)
        }
    }
}
/// The payload must be what was thrown, and the hook must have run if at all
/// once.
fn thrown(p: Plan, got: Box<dyn Any + Send>, what: &str) {
    let mut r = Rng::new(p.seed ^ 77, p.case);
    let ok = match p.payload {
        0 | 7 => got.downcast_ref::<u64>() == Some(&r.next()),
        1 => got.downcast_ref::<&str>() == Some(&"fixed text"),
        2 => got.downcast_ref::<String>() == Some(&format!("formatted {}", r.next())),
        3 => got.downcast_ref::<Own<40>>().is_some_and(|g| V::same(g, &V::gen(&mut r))),
        4 => got.downcast_ref::<A64<100>>().is_some_and(|g| V::same(g, &V::gen(&mut r))),
        5 => got.is::<Zst>(),
        8 | 9 => got.downcast_ref::<Dyn>().is_some_and(|b| b.downcast_ref::<u64>() == Some(&r.next())),
        10 => got.is::<()>(),
        11 => got.downcast_ref::<Result<Dyn, Dyn>>().is_some_and(|b| b.as_ref().is_err_and(|b| b.downcast_ref::<u64>() == Some(&r.next()))),
        12 => got.downcast_ref::<String>() == Some(&format!("owned {}", r.next())),
        13 => got.downcast_ref::<&str>() == Some(&"static"),
        _ => got.downcast_ref::<Own<0>>().is_some_and(|g| V::same(g, &V::gen(&mut r))),
    };
    check!(ok, "{what}: another payload than the one thrown (kind {}) arrived", p.payload);
    let silent = [6, 7, 9, 13].contains(&p.payload);
    if silent {
        check!(addr(&*got) == THROWN.get(), "{what}: the payload arrived in another allocation");
    }
    let h = HOOKS.get();
    check!(h == !silent as u32, "{what}: the panic hook ran {h} times for a panic of kind {}", p.payload);
    check!(!std::thread::panicking(), "{what}: panicking() after the panic was caught");
}
fn on(s: &DefaultStack) {
    AREA.set((s.limit().get(), s.base().get()));
}
/// The stack in use, below the caller's frame.
#[inline(always)]
fn on_this() {
    let sp = vh::sys::sp();
    AREA.set((sp - (256 << 10), sp));
}
#[inline(never)]
fn here() {
    let x = black_box(0u8);
    let at = &x as *const u8 as usize;
    let (lo, hi) = AREA.get();
    PLACES.set(PLACES.get() + 1);
    if at < lo || at >= hi {
        misplaced(at, lo, hi);
    }
}
#[cold]
fn misplaced(at: usize, lo: usize, hi: usize) {
    vh::viol!("the closure runs at {at:#x}, outside of the stack it was given ({lo:#x}..{hi:#x})");
}
/// Closures, functions and trait objects which carry nothing, on stacks of all
/// sizes.
fn plain(r: &mut Rng) {
    let pick = |r: &mut Rng| DefaultStack::new([1, 4096, 8192, 12288, 65536, 1 << 20, 4 << 20][r.us(7)]).unwrap();
    let boxed: Box<dyn FnOnce() + Send> = Box::new(here);
    let n = PLACES.get();
    let s = pick(r);
    on(&s);
    let which = r.below(6);
    match which {
        0 => on_stack(s, here),
        1 => on_stack(s, || here()),
        2 => on_stack(s, here as fn()),
        3 => on_stack(s, boxed),
        4 => on_stack(s, &here as &dyn Fn()),
        _ => on_stack(s, move || {
            here();
            Zst
        })
        .touch(),
    }
    check!(PLACES.get() == n + 1, "on_stack called a closure {} times", PLACES.get() - n);
    let mut s = pick(r);
    on(&s);
    let co = match which {
        0 => Coroutine::<(), (), (), &mut DefaultStack>::with_stack(&mut s, |_, ()| here()),
        1 | 2 => Coroutine::with_stack(&mut s, first),
        3 => Coroutine::with_stack(&mut s, first as fn(&Yielder<(), ()>, ())),
        4 => Coroutine::with_stack(&mut s, Box::new(first) as Box<dyn FnOnce(&Yielder<(), ()>, ())>),
        _ => Coroutine::with_stack(&mut s, |y, ()| first(y, ())),
    };
    end(co, n + 2);
    on_this();
    let co = match which {
        0 => Coroutine::<(), (), (), &mut DefaultStack>::with_stack(&mut s, |y, ()| y.on_parent_stack(here)),
        1 => Coroutine::with_stack(&mut s, |y, ()| y.on_parent_stack(|| here())),
        2 => Coroutine::with_stack(&mut s, |y, ()| y.on_parent_stack(here as fn())),
        3 => Coroutine::with_stack(&mut s, |y, ()| y.on_parent_stack(Box::new(here) as Box<dyn FnOnce() + Send>)),
        4 => Coroutine::with_stack(&mut s, |y, ()| y.on_parent_stack(&here as &(dyn Fn() + Sync))),
        _ => Coroutine::with_stack(&mut s, |y, ()| {
            y.suspend(());
            y.on_parent_stack(|| {
                here();
                Zst
            })
            .touch()
        }),
    };
    end(co, n + 3);
}
impl Zst {
    fn touch(self) {
        black_box(self);
    }
}
fn first(y: &Yielder<(), ()>, _: ()) {
    y.suspend(());
    here();
}
#[inline(never)]
fn end(mut co: Coroutine<(), (), (), &mut DefaultStack>, n: u64) {
    for k in 0.. {
        if let CoroutineResult::Return(()) = co.resume(()) {
            break;
        }
        check!(k < 5, "it does not end");
    }
    check!(co.done() && PLACES.get() == n, "a closure was not called exactly once");
}

/// The common part of all closures.
fn work<C: V, R: V>(c: C) -> R {
    let p = PLAN.get();
    RAN.set(RAN.get() + 1);
    here();
    let at = black_box(&c) as *const C as usize;
    check!(at % std::mem::align_of::<C>() == 0, "captured {} is misaligned", std::any::type_name::<C>());
    check!(C::same(&c, &V::gen(&mut Rng::new(p.seed ^ 55, p.case))), "captured {} differs from what was moved in", std::any::type_name::<C>());
    match p.end {
        End::PanicEarly => {
            let _c = c;
            throw(p)
        }
        End::PanicLate => {
            drop(c);
            throw(p)
        }
        End::Return => R::gen(&mut Rng::new(p.seed ^ 66, p.case)),
    }
}
#[inline(never)]
fn cap<C: V>(p: Plan) -> C {
    C::gen(&mut Rng::new(p.seed ^ 55, p.case))
}
fn result<R: V>(p: Plan, r: std::thread::Result<R>, what: &str) {
    check!(RAN.get() == 1, "{what}: the closure ran {} times", RAN.get());
    match r {
        Ok(v) => {
            check!(p.end == End::Return, "{what} ({}): the closure's panic was lost", std::any::type_name::<R>());
            let at = black_box(&v) as *const R as usize;
            check!(at % std::mem::align_of::<R>() == 0, "{what}: result of type {} is misaligned", std::any::type_name::<R>());
            check!(R::same(&v, &V::gen(&mut Rng::new(p.seed ^ 66, p.case))), "{what}: result of type {} differs", std::any::type_name::<R>());
        }
        Err(e) => {
            check!(p.end != End::Return, "{what}: a panic out of nowhere");
            thrown(p, e, what);
        }
    }
}
fn attempt<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    if cfg!(feature = "unwind") {
        catch_unwind(AssertUnwindSafe(f))
    } else {
        Ok(f())
    }
}
struct Cx {
    a: &'static mut DefaultStack,
    b: &'static mut DefaultStack,
}
fn stacks(c: &mut Cx) -> (&'static mut DefaultStack, &'static mut DefaultStack) {
    unsafe { (&mut *(c.a as *mut _), &mut *(c.b as *mut _)) }
}
const KINDS: u64 = 7;
fn t<C: V + Send, R: V>(cx: &mut Cx, kind: u64) {
    let p = PLAN.get();
    let (a, b) = stacks(cx);
    match kind {
        0 | 4 | 5 => on(a),
        1 => on(b),
        _ => on_this(),
    }
    match kind {
        // directly
        0 => {
            let c: C = cap(p);
            result(p, attempt(|| on_stack(a, move || work::<C, R>(c))), "on_stack")
        }
        // in a coroutine, caught there
        1 => {
            let mut co = Coroutine::<u8, u8, u8, _>::with_stack(a, move |y, _| {
                let c: C = cap(p);
                let r = attempt(|| on_stack(b, move || work::<C, R>(c)));
                let r = if p.suspends > 0 {
                    y.suspend(1);
                    r
                } else {
                    r
                };
                result(p, r, "on_stack in a coroutine");
                9
            });
            let mut o = co.resume(1);
            if p.suspends > 0 {
                check!(o == CoroutineResult::Yield(1), "no yield");
                o = co.resume(2);
            }
            check!(o == CoroutineResult::Return(9), "no return");
        }
        // on the parent's stack
        2 => {
            let mut co = Coroutine::<u8, u8, u8, _>::with_stack(a, move |y, _| {
                for k in 0..p.suspends {
                    y.suspend(k);
                }
                let c: C = cap(p);
                result(p, attempt(|| y.on_parent_stack(move || work::<C, R>(c))), "on_parent_stack");
                y.suspend(100);
                9
            });
            for k in 0..p.suspends {
                check!(co.resume(1) == CoroutineResult::Yield(k), "no yield");
            }
            check!(co.resume(1) == CoroutineResult::Yield(100), "no yield after on_parent_stack");
            check!(co.resume(1) == CoroutineResult::Return(9), "no return");
        }
        // on the parent's stack, out of the coroutine
        3 => {
            let mut co = Coroutine::<u8, u8, R, _>::with_stack(a, move |y, _| {
                let c: C = cap(p);
                y.on_parent_stack(move || work::<C, R>(c))
            });
            let r = attempt(|| match co.resume(1) {
                CoroutineResult::Return(r) => r,
                _ => vh::viol!("a yield out of nowhere"),
            });
            check!(co.done(), "not done after its end");
            result(p, r, "on_parent_stack through resume");
        }
        // the coroutine's own closure
        4 | 5 => {
            let c: C = cap(p);
            if std::mem::size_of::<C>() > 1024 || std::mem::align_of::<C>() > 1024 {
                return RAN.set(u32::MAX);
            }
            let mut co = Coroutine::<u8, u8, R, _>::with_stack(a, move |y: &Yielder<u8, u8>, _| {
                for k in 0..PLAN.get().suspends {
                    y.suspend(k);
                }
                work::<C, R>(c)
            });
            for k in 0..p.suspends {
                check!(matches!(co.resume(1), CoroutineResult::Yield(v) if v == k), "no yield");
            }
            let end = move |mut co: Coroutine<u8, u8, R, _>| {
                let r = attempt(|| match co.resume(1) {
                    CoroutineResult::Return(r) => r,
                    _ => vh::viol!("a yield out of nowhere"),
                });
                check!(co.done() && co.started(), "not done after its end");
                if p.case & 1 == 0 {
                    drop(co.into_stack());
                }
                r
            };
            let r = if kind == 4 { end(co) } else { on_stack(b, move || end(co)) };
            result(p, r, "resume");
        }
        // nested: on_stack calls on_parent_stack; the panic crosses both
        _ => {
            let mut co = Coroutine::<u8, u8, R, _>::with_stack(a, move |y, _| {
                let c: C = cap(p);
                on_stack(b, move || {
                    let c = c;
                    y.on_parent_stack(move || work::<C, R>(c))
                })
            });
            let r = attempt(|| match co.resume(1) {
                CoroutineResult::Return(r) => r,
                _ => vh::viol!("a yield out of nowhere"),
            });
            check!(co.done(), "not done after its end");
            result(p, r, "on_stack and on_parent_stack through resume");
        }
    }
}
type F = fn(&mut Cx, u64);
fn table() -> Vec<(F, String)> {
    let mut v: Vec<(F, String)> = vec![];
    macro_rules! one { ($c:ty; $($r:ty),*) => { $( v.push((t::<$c, $r>, format!("capturing {} returning {}", std::any::type_name::<$c>(), std::any::type_name::<$r>()))); )* } }
    macro_rules! all { ($($c:ty),* $(,)?) => { $( one!($c; (), u8, u32, u64, u128, [u8; 3], [u8; 24], [u8; 1000], A64<9>, Option<bool>, Own<0>, Own<300>, Result<String, u64>, Box<dyn Any>); )* } }
    all!(
        (), u8, u64, (u64, u64), [u8; 5], [u8; 16], [u8; 24], [u8; 33], [u8; 200], [u8; 1000], [u8; 1024], [u8; 5000], A16<16>, A64<0>, A64<128>, A1024<0>,
        A4096<1>, Own<0>, Own<8>, Own<1000>, Own<4000>, Option<Box<u64>>, String, f64, &'static str,
    );
    v
}
fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| HOOKS.set(HOOKS.get() + 1)));
    let mut st = Stats::new();
    let tab = table();
    let s = || Box::leak(Box::new(DefaultStack::new(1 << 20).unwrap()));
    let mut cx = Cx { a: s(), b: s() };
    for case in a.cases() {
        let mut r = Rng::new(a.seed, case);
        let k = case as usize * 11 % tab.len();
        let kind = r.below(KINDS);
        let end = match r.below(5) {
            _ if !cfg!(feature = "unwind") => End::Return,
            0 | 1 => End::Return,
            2 | 3 => End::PanicLate,
            _ => End::PanicEarly,
        };
        let payload = r.below(PAYLOADS as u64) as u8;
        let suspends = if r.chance(1, 2) { 0 } else { r.below(4) as u8 };
        PLAN.set(Plan { seed: a.seed, case, end, payload, suspends });
        rep::case(case, &tab[k].1);
        RAN.set(0);
        HOOKS.set(0);
        tab[k].0(&mut cx, kind);
        check!(live() == 0, "{}, kind {kind}, {end:?}: {} owned value(s) leaked", tab[k].1, live());
        if case % 4 == 0 {
            plain(&mut r);
        }
        st.evals += 1;
        st.add(["on_stack", "on_stack_in_coroutine", "on_parent_stack", "on_parent_stack_out", "body", "body_from_on_stack", "nested_out"][kind as usize], 1);
        st.add(["returns", "panics_late", "panics_early"][end as usize], 1);
        st.distinct(vh::rng::hash(format!("{k}/{kind}/{end:?}/{}", if end == End::Return { 0 } else { payload }).as_bytes()));
        st.sample(|| format!("{}, kind {kind}, {end:?}", tab[k].1));
    }
    st.add("places_checked", PLACES.get());
    st.add("type_combinations", tab.len() as u64);
    st.finish()
}
