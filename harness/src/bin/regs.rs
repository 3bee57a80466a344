//! C09: the machine context of both sides survives every kind of switch.
//! Profile "probe": assembly probes of the callee-saved registers around every
//! operation. Profile "pressure": many integer, floating-point and vector
//! values kept live across switches by the compiler. Profile "tight": the same
//! in functions into which the switch is inlined.
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vh::abi::{with_registers, NREG};
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::{self, OwnStack};
use vh::{check, viol};

const UNWIND: bool = cfg!(feature = "unwind");
static PROBES: AtomicU64 = AtomicU64::new(0);

fn vals(r: &mut Rng) -> [usize; NREG] {
    std::array::from_fn(|_| match r.below(6) {
        0 => 0,
        1 => usize::MAX,
        2 => 1 << (usize::BITS - 1),
        3 => r.us(4096),
        4 => sys::sp() & !15, // something that looks like a frame pointer
        _ => r.next() as usize ^ (r.next() as usize).rotate_left(32 % usize::BITS),
    })
}
/// Runs f between two looks at the registers.
#[inline(never)]
fn probe(r: &mut Rng, what: &str, f: impl FnMut()) {
    PROBES.fetch_add(1, Relaxed);
    let v = vals(r);
    if let Some(d) = with_registers(v, f) {
        viol!("across {what}: {d}");
    }
}
/// The same through a few frames, so that the switch is not the direct callee.
#[inline(never)]
fn frames(n: usize, f: &mut dyn FnMut()) {
    let mut a = [n; 5];
    black_box(&mut a);
    if n == 0 {
        f()
    } else {
        frames(n - 1, f)
    }
    check!(black_box(&a).iter().all(|&x| x == n), "a local array was overwritten across a switch");
}

struct DropProbe(u64);
impl Drop for DropProbe {
    fn drop(&mut self) {
        // Runs on the coroutine's stack while it is being unwound.
        let mut r = Rng::new(self.0, 99);
        probe(&mut r, "a call in a destructor run by unwinding", || sys::scramble(7));
        sys::scramble(9);
    }
}

fn coro_body(y: &Yielder<usize, usize>, first: usize, seed: u64, end: u64, stack2: &mut DefaultStack) -> usize {
    let mut r = Rng::new(seed, 1);
    let mut acc = first;
    let _d = DropProbe(seed);
    sys::scramble(r.next() as usize);
    let n = r.us(5);
    for k in 0..n {
        let mut step = |acc: &mut usize| match r.below(5) {
            0 | 1 => {
                let mut got = 0;
                probe(&mut r, "suspend", || got = y.suspend(k));
                *acc = acc.wrapping_add(got);
            }
            2 => {
                let mut got = 0;
                probe(&mut r, "on_parent_stack", || got = y.on_parent_stack(|| {
                    sys::scramble(k);
                    k + 1
                }));
                check!(got == k + 1, "on_parent_stack result");
            }
            3 => {
                let mut got = 0;
                probe(&mut r, "on_stack in a coroutine", || got = on_stack(&mut *stack2, || {
                    sys::scramble(k);
                    let v = y.suspend(100 + k);
                    sys::scramble(k);
                    v
                }));
                *acc = acc.wrapping_add(got);
            }
            _ if UNWIND => probe(&mut r, "a panicking on_parent_stack", || {
                let e = catch_unwind(AssertUnwindSafe(|| y.on_parent_stack(|| -> () {
                    sys::scramble(k);
                    panic_any(5u32)
                })));
                check!(*e.unwrap_err().downcast::<u32>().unwrap() == 5, "payload");
            }),
            _ => (),
        };
        let d = k * 3 % 7;
        frames(d, &mut || step(&mut acc));
    }
    sys::scramble(3);
    match end {
        0 => acc,
        1 => panic_any(acc),
        2 => {
            // Stay suspended: to be unwound or dropped
            probe(&mut r, "an unwound suspend", || {
                let e = catch_unwind(AssertUnwindSafe(|| y.suspend(7)));
                if let Err(e) = e {
                    sys::scramble(11);
                    resume_unwind(e);
                }
            });
            acc
        }
        _ => {
            // Look at the registers after an intercepted unwinding
            let mut payload = None;
            probe(&mut r, "a suspend out of which unwinding was caught", || {
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| y.suspend(8))) {
                    payload = Some(e);
                }
            });
            if let Some(p) = payload {
                resume_unwind(p);
            }
            acc
        }
    }
}

fn probe_case(a: &rep::Args, case: u64, st: &mut Stats) {
    let mut r = Rng::new(a.seed, case);
    let seed = r.next();
    let end = if UNWIND { r.below(4) } else { 0 };
    let how = r.below(3);
    let mut s2 = DefaultStack::new(64 << 10).unwrap();
    let own = r.chance(1, 2);
    let mut log = vec![end, how, own as u64];
    let body = move |y: &Yielder<usize, usize>, i: usize| coro_body(y, i, seed, end, &mut s2);
    macro_rules! run {
        ($stack:expr) => {{
            let mut co = Coroutine::<usize, usize, usize, _>::with_stack($stack, body);
            let mut n = 0;
            let mut over = false;
            while !co.done() && !over {
                let what = if n == 0 { "the first resume" } else { "a later resume" };
                let d = r.us(6);
                let mut res = None;
                let mut go = || {
                    probe(&mut r, what, || {
                        sys::scramble(n);
                        if end == 1 {
                            res = Some(catch_unwind(AssertUnwindSafe(|| co.resume(n))));
                        } else {
                            res = Some(Ok(co.resume(n)));
                        }
                    })
                };
                frames(d, &mut go);
                n += 1;
                match res.unwrap() {
                    Ok(CoroutineResult::Yield(v)) => {
                        log.push(v as u64);
                        if v == 7 || v == 8 {
                            over = true;
                        }
                    }
                    Ok(CoroutineResult::Return(_)) => log.push(1000),
                    Err(p) => {
                        check!(p.downcast_ref::<usize>().is_some(), "payload");
                        log.push(2000)
                    }
                }
            }
            if over {
                let mut co = Some(co);
                match how {
                    0 => probe(&mut r, "force_unwind", || co.as_mut().unwrap().force_unwind()),
                    1 => probe(&mut r, "dropping a suspended coroutine", || drop(co.take())),
                    _ => {
                        probe(&mut r, "the last resume", || {
                            check!(co.as_mut().unwrap().resume(3).as_return().is_some(), "no return");
                        });
                    }
                }
            }
        }};
    }
    if own {
        run!(OwnStack::new(96 << 10, 16 * r.us(100), 0))
    } else {
        run!(DefaultStack::new(96 << 10).unwrap())
    }
    // Plain on_stack and creation
    let mut s = OwnStack::new(64 << 10, 16 * r.us(20), 0);
    let k = r.next() as usize;
    let mut out = 0;
    probe(&mut r, "on_stack", || {
        out = on_stack(&mut s, || {
            sys::scramble(k);
            k ^ 3
        })
    });
    check!(out == k ^ 3, "on_stack result");
    if UNWIND {
        probe(&mut r, "a panicking on_stack", || {
            let e = catch_unwind(AssertUnwindSafe(|| on_stack(&mut s, || -> () {
                sys::scramble(k);
                panic_any(k)
            })));
            check!(*e.unwrap_err().downcast::<usize>().unwrap() == k, "payload");
        });
    }
    let mut co = None;
    let st2 = OwnStack::new(64 << 10, 16 * r.us(20), 0);
    let mut st2 = Some(st2);
    probe(&mut r, "creating a coroutine", || co = Some(Coroutine::<(), (), usize, _>::with_stack(st2.take().unwrap(), move |_, _| k)));
    probe(&mut r, "dropping a never-started coroutine", || drop(co.take()));
    st.evals += 1;
    if log.len() > 3 && st.distinct(vh::rng::hash(&log.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>())) {
        st.sample(|| format!("end {end} how {how}: results {:?}", &log[3..]));
    }
}

// ------------------------------------------------------------- pressure
/// Keeps $n values of one type live in locals across the switch `$sw`.
macro_rules! live_fn {
    ($name:ident, $t:ty, $fold:expr, [$($v:ident)*]) => {
        #[inline(never)]
        fn $name(inp: &[$t], sw: &mut impl FnMut(usize) -> usize, rounds: usize) -> u64 {
            let mut it = inp.iter().copied();
            $( let mut $v: $t = black_box(it.next().unwrap()); )*
            let fold = $fold;
            let mut h = 0u64;
            for k in 0..rounds {
                let x = sw(k);
                h = h.rotate_left(5).wrapping_add(x as u64);
                // All values take part before and after.
                $( h = fold(h, &mut $v); )*
            }
            h
        }
    };
}
live_fn!(live_int, usize, |h: u64, v: &mut usize| { *v = v.rotate_left(7) ^ 0x5bd1; h.rotate_left(3) ^ *v as u64 },
    [v0 v1 v2 v3 v4 v5 v6 v7 v8 v9 v10 v11 v12 v13 v14 v15 v16 v17 v18 v19 v20]);
live_fn!(live_few, usize, |h: u64, v: &mut usize| { *v = v.wrapping_mul(31).wrapping_add(7); h.rotate_left(3) ^ *v as u64 }, [v0 v1 v2 v3 v4]);
live_fn!(live_one, usize, |h: u64, v: &mut usize| { *v = v.wrapping_mul(33) ^ 7; h.rotate_left(3) ^ *v as u64 }, [v0 v1]);
live_fn!(live_f64, f64, |h: u64, v: &mut f64| { *v = *v * 1.000001 + 0.5; h.rotate_left(3) ^ v.to_bits() },
    [v0 v1 v2 v3 v4 v5 v6 v7 v8 v9 v10 v11 v12 v13 v14 v15 v16 v17]);
live_fn!(live_f32, f32, |h: u64, v: &mut f32| { *v = *v * 0.5 + 1.25; h.rotate_left(3) ^ v.to_bits() as u64 }, [v0 v1 v2 v3 v4 v5 v6 v7]);
type V4 = [u32; 4];
type V8 = [u32; 8];
live_fn!(live_v4, V4, |h: u64, v: &mut V4| { for i in 0..4 { v[i] = v[i].wrapping_add(0x1234567) ^ i as u32; } h.rotate_left(3) ^ v[0] as u64 ^ (v[3] as u64) << 32 },
    [v0 v1 v2 v3 v4 v5 v6 v7 v8 v9]);
live_fn!(live_v8, V8, |h: u64, v: &mut V8| { for i in 0..8 { v[i] = v[i].wrapping_mul(3) ^ i as u32; } h.rotate_left(3) ^ v[1] as u64 ^ (v[7] as u64) << 32 },
    [v0 v1 v2 v3 v4 v5 v6 v7]);

fn inputs<T>(r: &mut Rng, f: impl Fn(u64) -> T) -> Vec<T> {
    (0..32).map(|_| f(r.next())).collect()
}
/// Runs every pressure function with `sw` as the call made while the values
/// are live.
fn all_kinds(which: u64, seed: u64, rounds: usize, sw: &mut impl FnMut(usize) -> usize) -> u64 {
    let mut r = Rng::new(seed, 5);
    match which {
        0 => live_int(&inputs(&mut r, |x| x as usize), sw, rounds),
        1 => live_few(&inputs(&mut r, |x| x as usize), sw, rounds),
        2 => live_one(&inputs(&mut r, |x| x as usize), sw, rounds),
        3 => live_f64(&inputs(&mut r, |x| x as u32 as f64), sw, rounds),
        4 => live_f32(&inputs(&mut r, |x| x as u16 as f32), sw, rounds),
        5 => live_v4(&inputs(&mut r, |x| [x as u32, (x >> 32) as u32, !x as u32, 7]), sw, rounds),
        _ => live_v8(&inputs(&mut r, |x| std::array::from_fn(|i| (x.rotate_left(i as u32 * 7)) as u32)), sw, rounds),
    }
}
fn pressure_case(a: &rep::Args, case: u64, st: &mut Stats) {
    let mut r = Rng::new(a.seed, case);
    let (wa, wb, wc) = (r.below(7), r.below(7), r.below(7));
    let (sa, sb) = (r.next(), r.next());
    let n = 1 + r.us(6);
    // Reference: the same functions around ordinary calls.
    let mut ra: Vec<usize> = (0..64).map(|_| r.next() as usize).collect();
    ra[0] = 0;
    let tab: &'static [usize] = Box::leak(ra.into_boxed_slice());
    let expect_a = all_kinds(wa, sa, n, &mut |k| tab[k]);
    let expect_b = all_kinds(wb, sb, n, &mut |k| tab[32 + k]);
    let expect_c = all_kinds(wc, sa ^ sb, 3, &mut |k| tab[16 + k]);
    let mut s2 = DefaultStack::new(64 << 10).unwrap();
    let mode = r.below(4);
    let mut co = Coroutine::<usize, usize, u64, _>::with_stack(DefaultStack::new(96 << 10).unwrap(), move |y, first| {
        check!(first == 999, "first input");
        // Coroutine side: suspend inlined into the pressure function
        let h = all_kinds(wb, sb, n, &mut |k| {
            let v = y.suspend(tab[k]);
            if mode == 1 {
                let c = y.on_parent_stack(|| all_kinds(wc, sa ^ sb, 3, &mut |k| tab[16 + k]));
                check!(c == expect_c, "values computed on the parent stack differ");
            }
            if mode == 2 {
                let c = on_stack(&mut s2, || all_kinds(wc, sa ^ sb, 3, &mut |k| y.suspend(tab[16 + k])));
                let _ = c;
            }
            v
        });
        check!(h == expect_b, "values live across suspend changed (kind {wb}, {n} rounds)");
        h
    });
    // Resumer side: resume inlined into the pressure function
    let mut first = true;
    let mut k2 = 0;
    let got = all_kinds(wa, sa, n, &mut |k| {
        let inp = if first { 999 } else { tab[32 + k - 1] };
        first = false;
        let mut y = match co.resume(inp) {
            CoroutineResult::Yield(v) => v,
            _ => viol!("early return"),
        };
        if mode == 2 && k > 0 {
            // three more suspends from inside on_stack
            for j in 0..3 {
                check!(y == tab[16 + j], "value yielded from on_stack");
                k2 += 1;
                y = co.resume(j).as_yield().expect("yield");
            }
        }
        y
    });
    check!(got == expect_a, "values live across resume changed (kind {wa}, {n} rounds)");
    let mut last = co.resume(tab[32 + n - 1]);
    if mode == 2 {
        for _ in 0..3 {
            last = co.resume(0);
        }
    }
    check!(last == CoroutineResult::Return(expect_b), "values live across suspend changed");
    // on_stack from a function with live values
    let mut s = DefaultStack::new(64 << 10).unwrap();
    let got = all_kinds(wa, sa, n, &mut |k| on_stack(&mut s, || {
        let c = all_kinds(wc, sa ^ sb, 3, &mut |k| tab[16 + k]);
        check!(c == expect_c, "values computed on another stack differ");
        tab[k]
    }));
    check!(got == expect_a, "values live across on_stack changed (kind {wa})");
    unsafe { drop(Box::from_raw(tab as *const [usize] as *mut [usize])) };
    st.evals += 1;
    st.distinct(wa | wb << 3 | wc << 6 | mode << 9 | (n as u64) << 12);
    st.sample(|| format!("resumer kind {wa}, coroutine kind {wb}, other {wc}, {n} rounds, mode {mode}"));
    st.add("pressure_switches", 2 * n as u64 + k2);
}

// ---------------------------------------------------------------- tight
/// A type of its own for each function, so that each instance of a library
/// function has a single call site and gets inlined into the function with the
/// live values: there, what the switch declares to change is all that the
/// compiler knows.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Tag<const N: usize>(usize);
const ROUNDS: usize = 6;
/// One function per kind of switch, each with its values in registers around it.
macro_rules! tight {
    ($name:ident, $id:expr, $t:ty, $mk:expr, $fold:expr, [$($v:ident)*]) => {
        mod $name {
            use super::*;
            type In = Tag<{ $id * 10 }>;
            type Out = Tag<{ $id * 10 + 1 }>;
            type Ret = Tag<{ $id * 10 + 2 }>;
            #[inline(always)]
            fn run(inp: &[$t; 24], mut sw: impl FnMut(usize) -> usize) -> u64 {
                let mut it = inp.iter().copied();
                $( let mut $v: $t = it.next().unwrap(); )*
                let fold = $fold;
                let mut h = 0u64;
                for k in 0..ROUNDS {
                    let x = sw(k);
                    h = h.rotate_left(5).wrapping_add(x as u64);
                    $( $v = fold($v); )*
                }
                // Looked at only after the last switch
                let mix = $mk;
                $( h = h.rotate_left(9) ^ mix($v); )*
                h
            }
            #[inline(never)]
            fn plain(inp: &[$t; 24], tab: &[usize]) -> u64 {
                run(inp, |k| tab[k])
            }
            #[inline(never)]
            fn resume(inp: &[$t; 24], co: &mut Coroutine<In, Out, Ret, OwnStack>) -> u64 {
                run(inp, |k| match co.resume(Tag(k)) {
                    CoroutineResult::Yield(v) => v.0,
                    CoroutineResult::Return(v) => v.0,
                })
            }
            #[inline(never)]
            fn suspend(inp: &[$t; 24], y: &Yielder<Out, In>) -> u64 {
                run(inp, |k| y.suspend(Tag(k)).0)
            }
            #[inline(never)]
            fn stack_call(inp: &[$t; 24], s: &mut OwnStack, tab: &[usize]) -> u64 {
                run(inp, |k| on_stack(&mut *s, || { sys::scramble(k); Tag::<{ $id * 10 + 3 }>(tab[k]) }).0)
            }
            #[inline(never)]
            fn parent_call(inp: &[$t; 24], y: &Yielder<In, Out>, tab: &'static [usize]) -> u64 {
                run(inp, |k| y.on_parent_stack(move || { sys::scramble(k); Tag::<{ $id * 10 + 4 }>(tab[k]) }).0)
            }
            pub fn case(r: &mut Rng, st: &mut Stats) {
                let mut inp: [$t; 24] = [Default::default(); 24];
                let mut r2 = Rng::new(r.next(), 3);
                for x in &mut inp {
                    *x = <$t as Mk>::mk(r2.next());
                }
                let inp = black_box(inp);
                let t: Vec<usize> = (0..ROUNDS).map(|_| r.next() as usize).collect();
                let tab: &'static [usize] = Box::leak(t.into_boxed_slice());
                let want = plain(&inp, tab);
                let mut s = OwnStack::new(64 << 10, 16 * r.us(20), 0);
                // The resumer's values
                let mut co = Coroutine::<In, Out, Ret, _>::with_stack(OwnStack::new(96 << 10, 16 * r.us(20), 0), move |y, first| {
                    check!(first.0 == 0, "input");
                    for k in 0..ROUNDS - 1 {
                        sys::scramble(tab[k]);
                        y.suspend(Tag(tab[k]));
                    }
                    // values live across on_parent_stack
                    let h = parent_call(&inp, y, tab);
                    check!(h == want, "values in registers across on_parent_stack changed ({})", stringify!($name));
                    sys::scramble(want as usize);
                    Tag(tab[ROUNDS - 1])
                });
                let h = resume(&inp, &mut co);
                check!(h == want && co.done(), "values in registers across resume changed ({})", stringify!($name));
                // The coroutine's
                let mut co = Coroutine::<Out, In, u64, _>::with_stack(OwnStack::new(96 << 10, 16 * r.us(20), 0), move |y, _| {
                    suspend(&inp, y)
                });
                co.resume(Tag(0));
                let mut h = 0;
                for k in 0..ROUNDS {
                    sys::scramble(tab[k]);
                    match co.resume(Tag(tab[k])) {
                        CoroutineResult::Yield(v) => check!(v.0 == k + 1, "yield"),
                        CoroutineResult::Return(v) => h = v,
                    }
                }
                check!(h == want, "values in registers across suspend changed ({})", stringify!($name));
                let h = stack_call(&inp, &mut s, tab);
                check!(h == want, "values in registers across on_stack changed ({})", stringify!($name));
                st.add("tight_switches", 4 * ROUNDS as u64);
                st.evals += 1;
                st.distinct(want ^ $id << 56);
                unsafe { drop(Box::from_raw(tab as *const [usize] as *mut [usize])) };
            }
        }
    };
}
trait Mk: Copy + Default {
    fn mk(x: u64) -> Self;
}
impl Mk for usize {
    fn mk(x: u64) -> Self {
        x as usize
    }
}
impl Mk for f64 {
    fn mk(x: u64) -> Self {
        x as u32 as f64
    }
}
impl Mk for f32 {
    fn mk(x: u64) -> Self {
        x as u16 as f32
    }
}
impl Mk for V4 {
    fn mk(x: u64) -> Self {
        [x as u32, (x >> 32) as u32, !x as u32, 7]
    }
}

macro_rules! tight_all {
    ($($name:ident $id:literal $t:ty, $mix:expr, $fold:expr, [$($v:ident)*];)*) => {
        $( tight!($name, $id, $t, $mix, $fold, [$($v)*]); )*
        fn tight_case(a: &rep::Args, case: u64, st: &mut Stats) {
            let mut r = Rng::new(a.seed, case);
            $( $name::case(&mut r, st); )*
            st.sample(|| concat!("registers: ", $(stringify!($name), " "),*).to_string());
        }
    };
}
tight_all! {
    int1 1 usize, |v: usize| v as u64, |v: usize| v.wrapping_mul(33) ^ 7, [a];
    int2 2 usize, |v: usize| v as u64, |v: usize| v.wrapping_mul(33) ^ 7, [a b];
    int3 3 usize, |v: usize| v as u64, |v: usize| v.wrapping_add(33), [a b c];
    int5 4 usize, |v: usize| v as u64, |v: usize| v.wrapping_add(33), [a b c d e];
    int9 5 usize, |v: usize| v as u64, |v: usize| v.wrapping_add(33), [a b c d e f g i j];
    dbl1 6 f64, |v: f64| v.to_bits(), |v: f64| v * 1.000001 + 0.5, [a];
    dbl4 7 f64, |v: f64| v.to_bits(), |v: f64| v + 0.5, [a b c d];
    dbl9 8 f64, |v: f64| v.to_bits(), |v: f64| v + 0.5, [a b c d e f g i j];
    dbl17 9 f64, |v: f64| v.to_bits(), |v: f64| v + 0.5, [a b c d e f g i j k0 l m n o p q u];
    sgl2 10 f32, |v: f32| v.to_bits() as u64, |v: f32| v * 0.5 + 1.25, [a b];
    sgl7 11 f32, |v: f32| v.to_bits() as u64, |v: f32| v + 1.25, [a b c d e f g];
    vec1 12 V4, |v: V4| v[0] as u64 ^ (v[3] as u64) << 32 ^ (v[1] as u64) << 7 ^ (v[2] as u64) << 19, |mut v: V4| { for x in &mut v { *x = x.wrapping_add(77); } v }, [a];
    vec4 13 V4, |v: V4| v[0] as u64 ^ (v[3] as u64) << 32 ^ (v[1] as u64) << 7 ^ (v[2] as u64) << 19, |mut v: V4| { for x in &mut v { *x = x.wrapping_add(77); } v }, [a b c d];
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        match a.profile.as_str() {
            "pressure" => pressure_case(&a, case, &mut st),
            "tight" => tight_case(&a, case, &mut st),
            _ => probe_case(&a, case, &mut st),
        }
    }
    st.add("register_probes", PROBES.load(Relaxed));
    st.finish()
}
