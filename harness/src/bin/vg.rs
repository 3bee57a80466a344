//! C26: programs to be run under Valgrind.
//!
//! `clean`: random workloads in which memcheck must find nothing. Every
//! creation and destruction of a default stack is announced on stderr, between
//! Valgrind's own debug messages about stack registrations, so that the driver
//! can compare the two. `bug`: the same plus one genuine error, which memcheck
//! must report.
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::check;
use vh::rep::{self, Stats};
use vh::rng::Rng;

const UNWIND: bool = cfg!(feature = "unwind");

fn say(what: &str, b: (usize, usize)) {
    let s = format!("VH {what} {:x} {:x}\n", b.0, b.1);
    unsafe { libc::write(2, s.as_ptr() as _, s.len()) };
}
/// The executable's own definition takes precedence over the C library's.
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut libc::c_void, len: usize) -> i32 {
    say("unmap", (addr as usize, addr as usize + len));
    libc::syscall(libc::SYS_munmap, addr, len) as i32
}
struct Stk {
    s: std::mem::ManuallyDrop<DefaultStack>,
}
fn bounds(s: &impl Stack) -> (usize, usize) {
    (s.limit().get(), s.base().get())
}
impl Stk {
    fn new(size: usize) -> Self {
        let s = DefaultStack::new(size).unwrap();
        say("new", bounds(&s));
        Stk { s: std::mem::ManuallyDrop::new(s) }
    }
}
impl Drop for Stk {
    fn drop(&mut self) {
        let b = bounds(&*self.s);
        say("dropping", b);
        unsafe { std::mem::ManuallyDrop::drop(&mut self.s) };
        say("gone", b);
    }
}
unsafe impl Stack for Stk {
    fn base(&self) -> StackPointer {
        self.s.base()
    }
    fn limit(&self) -> StackPointer {
        self.s.limit()
    }
}

// ---- genuine errors, in functions the report must name
#[no_mangle]
#[inline(never)]
extern "C" fn vh_bug_uninit_heap(n: usize) -> usize {
    let v: Vec<u64> = Vec::with_capacity(8 + n);
    let p = black_box(v.as_ptr());
    if unsafe { p.add(n % 8).read_volatile() } == 12345 {
        black_box(1)
    } else {
        black_box(2)
    }
}
#[no_mangle]
#[inline(never)]
extern "C" fn vh_bug_overflow_read(n: usize) -> usize {
    let v = vec![1u8; 24 + n % 3 * 8];
    let p = black_box(v.as_ptr());
    unsafe { p.add(v.len()).read_volatile() as usize }
}
#[no_mangle]
#[inline(never)]
extern "C" fn vh_bug_overflow_write(n: usize) -> usize {
    let mut v = vec![1u8; 24 + n % 3 * 8];
    let l = v.len();
    let p = black_box(v.as_mut_ptr());
    unsafe { p.add(l).write_volatile(1) };
    l
}
#[no_mangle]
#[inline(never)]
extern "C" fn vh_bug_use_after_free(n: usize) -> usize {
    let b = Box::new(n);
    let p = black_box(&*b as *const usize);
    drop(b);
    unsafe { p.read_volatile() }
}
#[no_mangle]
#[inline(never)]
extern "C" fn vh_bug_uninit_stack(n: usize) -> usize {
    // Memory of frames that are gone is undefined again.
    #[inline(never)]
    fn fill(d: usize) -> usize {
        let a = black_box([d as u64 + 1; 64]);
        if d == 0 {
            a[3] as usize
        } else {
            fill(d - 1) + a[5] as usize
        }
    }
    black_box(fill(6));
    let u: std::mem::MaybeUninit<[u64; 200]> = std::mem::MaybeUninit::uninit();
    let p = black_box(u.as_ptr() as *const u64);
    if unsafe { p.add(100 + n % 20).read_volatile() } == 777 {
        black_box(1)
    } else {
        black_box(2)
    }
}
const BUGS: [extern "C" fn(usize) -> usize; 5] = [vh_bug_uninit_heap, vh_bug_overflow_read, vh_bug_overflow_write, vh_bug_use_after_free, vh_bug_uninit_stack];

/// Where the error is made.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Bug {
    which: usize,
    place: u64,
}
fn maybe(b: Option<Bug>, place: u64) {
    if let Some(b) = b {
        if b.place == place {
            black_box(BUGS[b.which](3));
        }
    }
}

#[inline(never)]
fn deep(y: &Yielder<Vec<u8>, String>, d: u64, k: u64) -> Vec<u8> {
    let pad = black_box(vec![k as u8; 10 + d as usize]);
    let arr = black_box([k; 20]);
    let r = if d == 0 { y.suspend(format!("y{k}")) } else { deep(y, d - 1, k) };
    check!(pad.iter().all(|b| *b == k as u8) && arr[7] == k, "local damaged");
    r
}
#[inline(never)]
fn burn(n: usize) -> usize {
    let a = black_box([n; 50]);
    if n == 0 {
        0
    } else {
        burn(n - 1) + a[n % 50] - n + 1
    }
}

type Co = Coroutine<Vec<u8>, String, Box<u64>, Stk>;
struct Slot {
    co: Co,
    n: u64,
    yields: u64,
    panics: bool,
}
fn create(r: &mut Rng, s: Stk, bug: Option<Bug>) -> Slot {
    let (yields, depth, panics) = (r.below(5), r.below(4), UNWIND && r.chance(1, 5));
    let big = bounds(&s).1 - bounds(&s).0 > 256 << 10;
    let aux = if r.chance(1, 3) { Some(Stk::new(60_000 + r.us(3_000_000))) } else { None };
    let kid = r.chance(1, 4);
    let cap = vec![7u8; r.us(300)];
    let co = Coroutine::with_stack(s, move |y: &Yielder<Vec<u8>, String>, first| {
        check!(first == [0u8], "wrong input");
        let cap = cap;
        let mut aux = aux;
        maybe(bug, 0);
        let mut child = if kid {
            Some(Coroutine::<u64, u64, (), Stk>::with_stack(Stk::new(60_000), |y, mut v| {
                while v > 0 {
                    let b = Box::new(v);
                    v = y.suspend(*b + 1);
                }
            }))
        } else {
            None
        };
        for k in 1..=yields {
            if big {
                black_box(burn(100));
            }
            if let Some(c) = child.as_mut() {
                check!(c.resume(k).as_yield() == Some(k + 1), "wrong yield");
            }
            let v = y.on_parent_stack(|| {
                maybe(bug, 1);
                burn(20) + 1
            });
            check!(v == 21, "wrong result");
            let m = match aux.take() {
                Some(s) => on_stack(s, || {
                    maybe(bug, 2);
                    burn(30);
                    deep(y, depth, k)
                }),
                None => deep(y, depth, k),
            };
            check!(m == vec![k as u8; k as usize + 1], "wrong input");
            maybe(bug, 3);
        }
        if let Some(mut c) = child {
            check!(c.resume(0).as_return().is_some(), "no return");
        }
        if panics {
            let _keep = vec![1u32; 9];
            std::panic::panic_any(vec![5u8; 33]);
        }
        check!(cap.iter().all(|b| *b == 7), "capture damaged");
        Box::new(yields)
    });
    Slot { co, n: 0, yields, panics }
}
fn resume(s: &mut Slot) {
    let n = s.n;
    s.n += 1;
    let v = vec![n as u8; n as usize + 1];
    match catch_unwind(AssertUnwindSafe(|| s.co.resume(v))) {
        Ok(CoroutineResult::Yield(y)) => check!(y == format!("y{}", n + 1), "wrong yield"),
        Ok(CoroutineResult::Return(r)) => check!(*r == s.yields && !s.panics, "wrong result"),
        Err(e) => check!(s.panics && e.downcast_ref::<Vec<u8>>() == Some(&vec![5u8; 33]), "unexpected panic"),
    }
}

fn work(r: &mut Rng, bug: Option<Bug>, st: &mut Stats) -> u64 {
    let mut slots: Vec<Slot> = Vec::new();
    let mut pool: Vec<Stk> = Vec::new();
    // Stacks lent to on_stack are not given to coroutines afterwards: see
    // `reuse`.
    let mut lent: Vec<Stk> = Vec::new();
    let mut t = 1u64;
    let size = |r: &mut Rng| [60_000, 90_000, 130_000, 1 << 20, 3 << 20, 9 << 20][r.us(6)] + r.us(5000);
    let steps = 8 + r.us(40);
    for _ in 0..steps {
        let op = r.below(12);
        t = (t ^ op).wrapping_mul(0x100000001b3);
        match op {
            0..=2 => {
                let s = if !pool.is_empty() && r.chance(1, 2) {
                    pool.pop().unwrap()
                } else {
                    let n = size(r);
                    // Unwinding needs room.
                    Stk::new(if UNWIND { n + 32_000 } else { n })
                };
                slots.push(create(r, s, None));
                st.add("coroutines", 1);
            }
            3..=7 if !slots.is_empty() => {
                let k = r.us(slots.len());
                if slots[k].co.done() {
                    let s = slots.swap_remove(k);
                    pool.push(s.co.into_stack());
                } else if slots[k].n < slots[k].yields + 1 {
                    resume(&mut slots[k]);
                    st.add("resumes", 1);
                }
            }
            8 if !slots.is_empty() => {
                let k = r.us(slots.len());
                if UNWIND || !slots[k].co.started() || slots[k].co.done() {
                    drop(slots.swap_remove(k));
                    st.add("drops", 1);
                }
            }
            9 => {
                if let Some(s) = pool.pop() {
                    let v = vec![3u8; 40];
                    let (n, v) = on_stack(s, move || (burn(40), v));
                    check!(n == 40 && v[39] == 3, "wrong result of on_stack");
                    st.add("on_stack", 1);
                }
            }
            10 => {
                let n = size(r);
                pool.push(Stk::new(n));
            }
            _ => {
                if !pool.is_empty() {
                    let k = r.us(pool.len());
                    drop(pool.swap_remove(k));
                }
                // Lent by reference
                if lent.is_empty() || r.chance(1, 6) {
                    let n = size(r);
                    lent.push(Stk::new(n));
                }
                let k = r.us(lent.len());
                if let Some(s) = lent.get_mut(k) {
                    check!(on_stack(&mut *s, || burn(10)) == 10, "wrong result of on_stack");
                }
            }
        }
    }
    if bug.is_some() {
        // One coroutine that passes every place.
        let mut r2 = Rng::new(1, 1);
        loop {
            let mut s = create(&mut r2, Stk::new(200_000), bug);
            let ok = s.yields >= 2;
            while !s.co.done() {
                resume(&mut s);
            }
            if ok && bug.unwrap().place != 2 {
                break;
            }
            if ok {
                // The on_stack place is only reached by some.
                on_stack(Stk::new(60_000), || maybe(bug, 2));
                break;
            }
        }
    }
    for mut s in slots {
        if !UNWIND {
            while s.co.started() && !s.co.done() {
                resume(&mut s);
            }
        }
        drop(s);
    }
    t
}

/// Stacks used again. Frames that are gone count as inaccessible for memcheck,
/// and nothing tells it that a coroutine created on the same memory owns it.
fn reuse(case: u64, st: &mut Stats) -> u64 {
    fn once<F: FnOnce(usize) -> usize + 'static>(s: &mut Stk, f: F) {
        let mut c = Coroutine::<usize, (), usize, &mut Stk>::with_stack(s, |_, n| f(n));
        check!(c.resume(3).as_return() == Some(3), "wrong result");
    }
    let mut s = Stk::new(200_000);
    match case {
        0 => {
            // on_stack, then a coroutine
            check!(on_stack(&mut s, || burn(20)) == 20, "wrong result");
            once(&mut s, |n| burn(n + 20) - 20);
        }
        1 => {
            // A coroutine, then another with more captured
            once(&mut s, |n| burn(n + 20) - 20);
            let big = black_box([7u8; 900]);
            once(&mut s, move |n| {
                black_box(&big);
                burn(n + 20) - 20
            });
        }
        _ => {
            // Coroutines capturing the same, and on_stack last: no report
            for _ in 0..5 {
                once(&mut s, |n| burn(n + 20) - 20);
            }
            check!(on_stack(&mut s, || burn(20)) == 20, "wrong result");
            check!(on_stack(&mut s, || burn(30)) == 30, "wrong result");
        }
    }
    st.add("coroutines", 2);
    case
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        let bug = if a.profile == "bug" { Some(Bug { which: case as usize % 5, place: case / 5 % 4 }) } else { None };
        let t = if a.profile == "reuse" { reuse(case, &mut st) } else { work(&mut r, bug, &mut st) };
        st.evals += 1;
        st.distinct(t);
        st.sample(|| format!("case {case}: {bug:?}"));
    }
    drop(std::panic::take_hook());
    st.finish()
}
