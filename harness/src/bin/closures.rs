//! C08, C11, C12: captured state of every size and alignment, ABI alignment of
//! everything the library enters, refusal of closures that cannot fit.
//! Profiles: "captures" (supported limits), "refuse" (beyond them).
use corosensei::stack::{DefaultStack, MIN_STACK_SIZE, STACK_ALIGNMENT};
use corosensei::{on_stack, Coroutine, CoroutineResult};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use vh::abi::{aligned_here, call_sp};
use vh::check;
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::{self, OwnStack};

static KEY: AtomicU64 = AtomicU64::new(0);
static CREATED: AtomicU32 = AtomicU32::new(0);
static DROPS: AtomicU32 = AtomicU32::new(0);
static RAN: AtomicU32 = AtomicU32::new(0);
static STACK_DROPS: AtomicU32 = AtomicU32::new(0);
/// 1-based number of the drop that panics
static PANIC_AT: AtomicU32 = AtomicU32::new(0);
static MODE: AtomicU32 = AtomicU32::new(0);
static BAD_SP: AtomicUsize = AtomicUsize::new(0);

fn pat(i: usize) -> u8 {
    (KEY.load(Relaxed).rotate_left((i % 64) as u32) as u8) ^ i as u8
}
trait Align: 'static {}
macro_rules! al { ($($n:ident $a:literal;)*) => { $( #[repr(align($a))] struct $n; impl Align for $n {} )* } }
al!(L1 1; L2 2; L4 4; L8 8; L16 16; L32 32; L64 64; L128 128; L256 256; L512 512; L1024 1024; L2048 2048; L4096 4096; L8192 8192; L64K 65536; L1M 1048576;);
struct Cap<A: Align, const N: usize> {
    _a: [A; 0],
    b: [u8; N],
}
impl<A: Align, const N: usize> Cap<A, N> {
    fn new() -> Self {
        CREATED.fetch_add(1, Relaxed);
        Cap { _a: [], b: std::array::from_fn(pat) }
    }
    fn verify(&self, what: &str) {
        let at = black_box(self) as *const Self as usize;
        check!(at % std::mem::align_of::<Self>() == 0, "{what}: capture of size {N} at {at:#x} violates its alignment {}", std::mem::align_of::<Self>());
        for i in 0..N {
            check!(self.b[i] == pat(i), "{what}: capture of size {N} damaged at byte {i}");
        }
    }
}
impl<A: Align, const N: usize> Drop for Cap<A, N> {
    fn drop(&mut self) {
        self.verify("destructor");
        if !aligned_here() {
            BAD_SP.store(call_sp(), Relaxed);
        }
        let n = DROPS.fetch_add(1, Relaxed) + 1;
        check!(n <= CREATED.load(Relaxed), "a captured object of size {N} was dropped twice");
        if n == PANIC_AT.load(Relaxed) {
            panic!("destructor panic");
        }
    }
}
struct Cx<'a> {
    r: Rng,
    st: &'a mut Stats,
    name: &'static str,
}
fn reset(key: u64) {
    KEY.store(key, Relaxed);
    for c in [&CREATED, &DROPS, &RAN, &STACK_DROPS, &PANIC_AT] {
        c.store(0, Relaxed);
    }
    BAD_SP.store(0, Relaxed);
}
fn abi(what: &str) {
    let sp = call_sp();
    check!(sp % 16 == 0, "{what}: stack pointer {sp:#x} at a call is not 16-byte aligned");
    // Over-aligned locals
    #[repr(align(128))]
    struct O([u8; 3]);
    let mut o = O([1, 2, 3]);
    let at = black_box(&mut o) as *mut O as usize;
    check!(at % 128 == 0 && o.0 == [1, 2, 3], "{what}: over-aligned local misplaced");
}
fn own(usable: usize, r: &mut Rng) -> OwnStack {
    let mut s = OwnStack::new(usable, 16 * r.us(257), 0);
    // Exactly the requested size below the base is not always what a page
    // granular mapping gives; move the base down to get it.
    s.drops = Some(&STACK_DROPS);
    s
}
fn no_bad_sp() {
    let b = BAD_SP.load(Relaxed);
    check!(b == 0, "a destructor ran with a misaligned stack pointer {b:#x}");
}
fn dropped(want: u32, ctx: &str) {
    let (c, d) = (CREATED.load(Relaxed), DROPS.load(Relaxed));
    check!(d == want && c >= d, "{ctx}: {c} captured object(s), {d} dropped, expected {want}");
}

fn captures<A: Align, const N: usize>(c: &mut Cx) {
    reset(c.r.next());
    let unwind = cfg!(feature = "unwind");
    let mode = c.r.below(12);
    // Through a static: the closure must capture nothing but `cap`.
    MODE.store(mode as u32, Relaxed);
    let run = matches!(mode, 2 | 3 | 4 | 8 | 9 | 10);
    // Objects up to the limits fit on a minimum-size stack; running a body in
    // an unoptimised build needs more.
    let usable = if run { 96 * 1024 } else { MIN_STACK_SIZE };
    let cap = Cap::<A, N>::new();
    let stack = own(usable, &mut c.r);
    let f = move |y: &corosensei::Yielder<u64, u64>, i: u64| -> u64 {
        let cap = cap;
        RAN.fetch_add(1, Relaxed);
        abi("coroutine body");
        cap.verify("body");
        if MODE.load(Relaxed) == 4 {
            panic!("body panic");
        }
        let mut i = i;
        for _ in 0..3 {
            i += y.suspend(i);
            abi("coroutine after suspend");
            cap.verify("body after suspend");
        }
        y.on_parent_stack(|| abi("on_parent_stack"));
        i
    };
    check!(std::mem::size_of_val(&f) == std::mem::size_of::<Cap<A, N>>(), "harness: capture size");
    c.st.evals += 1;
    c.st.add(["drop_unstarted", "unwind_unstarted", "completed", "dropped_suspended", "panicked", "destructor_panics", "moved_then_dropped", "default_stack", "unwound", "on_stack", "interleaved", "queries"][mode as usize], 1);
    c.st.distinct(vh::rng::hash(format!("{}/{N}/{mode}", std::mem::align_of::<A>()).as_bytes()));
    let name = c.name;
    c.st.sample(|| format!("{name}: capture size {N} align {} mode {mode}", std::mem::align_of::<A>()));
    match mode {
        0 | 6 | 11 => {
            let co = Coroutine::with_stack(stack, f);
            let co = if mode == 6 { Box::new(co) } else { unsafe { Box::from_raw(Box::into_raw(Box::new(co))) } };
            check!(!co.started() && !co.done(), "new coroutine reports started {} done {}", co.started(), co.done());
            dropped(0, "before use");
            drop(co);
            dropped(1, "dropping a never-started coroutine");
        }
        1 => {
            let mut co = Coroutine::with_stack(stack, f);
            co.force_unwind();
            dropped(1, "unwinding a never-started coroutine");
            check!(co.done() && co.started(), "unwound coroutine reports started {} done {}", co.started(), co.done());
            co.force_unwind();
            check!(catch_unwind(AssertUnwindSafe(|| co.resume(1))).is_err(), "resume of an unwound never-started coroutine was accepted");
            drop(co);
            dropped(1, "drop after unwind");
        }
        5 => {
            // The destructor panics; this must reach the caller.
            PANIC_AT.store(1, Relaxed);
            let mut co = Coroutine::with_stack(stack, f);
            let r = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
            let p = match r {
                Ok(()) => vh::viol!("force_unwind hid the panic of a captured object's destructor"),
                Err(p) => p,
            };
            check!(p.downcast_ref::<&str>() == Some(&"destructor panic"), "force_unwind panicked with another payload");
            dropped(1, "after a panicking destructor");
            check!(co.done() && co.started(), "after a panicking destructor the coroutine reports started {} done {}", co.started(), co.done());
            check!(catch_unwind(AssertUnwindSafe(|| co.resume(1))).is_err(), "a coroutine whose captures are gone was resumed");
            co.force_unwind();
            if c.r.chance(1, 2) {
                drop(co);
            } else {
                drop(co.into_stack());
            }
            dropped(1, "at the end");
        }
        7 => {
            // Default stack of the minimum size
            drop(stack);
            STACK_DROPS.store(1, Relaxed);
            let co = Coroutine::with_stack(DefaultStack::new(c.r.us(5000)).unwrap(), f);
            drop(co);
            dropped(1, "dropping a never-started coroutine");
        }
        2 | 10 => {
            let mut co = Coroutine::with_stack(stack, f);
            let mut x = 5u64;
            for k in 0..3 {
                sys::scramble(k);
                match co.resume(x) {
                    CoroutineResult::Yield(v) => x = v + 1,
                    _ => vh::viol!("early return"),
                }
            }
            dropped(0, "while running");
            check!(matches!(co.resume(1), CoroutineResult::Return(_)), "no return");
            dropped(1, "after completion");
            drop(co);
            dropped(1, "after completion and drop");
        }
        3 | 8 => {
            let mut co = Coroutine::with_stack(stack, f);
            for _ in 0..c.r.range(1, 3) {
                check!(matches!(co.resume(1), CoroutineResult::Yield(_)), "early return");
            }
            if !unwind {
                while !co.done() {
                    co.resume(1);
                }
            } else if mode == 8 {
                co.force_unwind();
                dropped(1, "after force_unwind");
                check!(co.done(), "not done after force_unwind");
            }
            drop(co);
            dropped(1, "after dropping a suspended coroutine");
        }
        4 => {
            let mut co = Coroutine::with_stack(stack, f);
            if unwind {
                check!(catch_unwind(AssertUnwindSafe(|| co.resume(1))).is_err(), "panic lost");
                dropped(1, "after a panic");
                drop(co);
            } else {
                drop(co);
                RAN.store(1, Relaxed);
            }
            dropped(1, "after a panic and drop");
        }
        9 => {
            drop(f);
            STACK_DROPS.store(0, Relaxed);
            let cap = Cap::<A, N>::new();
            let v = on_stack(stack, move || {
                let cap = cap;
                RAN.fetch_add(1, Relaxed);
                abi("on_stack");
                cap.verify("on_stack");
                77u64
            });
            check!(v == 77, "on_stack result");
            check!(DROPS.load(Relaxed) == 2, "on_stack closure's captures dropped {} times", DROPS.load(Relaxed) as i64 - 1);
        }
        _ => unreachable!(),
    }
    check!(RAN.load(Relaxed) == run as u32, "the body ran {} time(s) in mode {mode}", RAN.load(Relaxed));
    check!(STACK_DROPS.load(Relaxed) == 1, "the stack was released {} times", STACK_DROPS.load(Relaxed));
    no_bad_sp();
}

/// Sizes and alignments beyond what a minimum-size stack can hold. Either the
/// creation panics and drops everything once, or it works.
fn refuse<A: Align, const N: usize>(c: &mut Cx) {
    reset(c.r.next());
    let big = c.r.chance(1, 3);
    let usable = if big { 1 << 16 } else { MIN_STACK_SIZE };
    let dflt = c.r.chance(1, 3);
    c.st.evals += 1;
    c.st.distinct(vh::rng::hash(format!("{}/{N}/{big}/{dflt}", std::mem::align_of::<A>()).as_bytes()));
    let name = c.name;
    c.st.sample(|| format!("{name}: capture size {N} align {}", std::mem::align_of::<A>()));
    let cap = Cap::<A, N>::new();
    macro_rules! go {
        ($stack:expr, $own:expr) => {{
            let stack = $stack;
            let r = catch_unwind(AssertUnwindSafe(move || {
                Coroutine::<u64, u64, u64, _>::with_stack(stack, move |_, i| {
                    let cap = cap;
                    RAN.fetch_add(1, Relaxed);
                    cap.verify("body");
                    i
                })
            }));
            match r {
                Err(_) => {
                    c.st.add("refused", 1);
                    dropped(1, "after a refused creation");
                    if $own {
                        check!(STACK_DROPS.load(Relaxed) == 1, "refused creation released the stack {} times", STACK_DROPS.load(Relaxed));
                    }
                }
                Ok(co) => {
                    c.st.add("accepted", 1);
                    dropped(0, "after creation");
                    drop(co);
                    dropped(1, "after drop");
                }
            }
        }};
    }
    if dflt {
        go!(DefaultStack::new(usable).unwrap(), false)
    } else {
        go!(own(usable, &mut c.r), true)
    }
    check!(RAN.load(Relaxed) == 0, "the body ran");
    no_bad_sp();
}

/// on_stack / coroutine entry on stacks with every base alignment class, and
/// on parent stacks of every depth.
fn abi_case(c: &mut Cx) {
    c.st.evals += 1;
    let off = 16 * c.r.us(64);
    let depth = c.r.us(40);
    let want = [c.r.us(300), c.r.us(300), c.r.us(300)];
    c.st.distinct((off as u64) << 20 | (depth as u64) << 8);
    c.st.sample(|| format!("base {off} bytes below a page boundary, resumed {depth} frames deep"));
    let st = OwnStack::new(128 * 1024, off, 0);
    let st2 = OwnStack::new(64 * 1024, 16 * c.r.us(64), 0);
    check!(st.base % STACK_ALIGNMENT == 0, "harness");
    let mut co = Coroutine::<usize, usize, usize, _>::with_stack(st, move |y, i| {
        abi("coroutine body");
        let mut t = deep(want[0] % 30, &mut || {
            abi("nested in body");
            y.suspend(i)
        });
        abi("after suspend");
        t += y.on_parent_stack(|| {
            abi("on_parent_stack");
            deep(want[1] % 20, &mut || {
                abi("nested in on_parent_stack");
                2
            })
        });
        t += on_stack(st2, || {
            abi("on_stack in coroutine");
            y.suspend(t);
            abi("on_stack after suspend");
            y.on_parent_stack(|| {
                abi("on_parent_stack inside on_stack");
                3
            })
        });
        t
    });
    let mut n = 0;
    while !co.done() {
        let d = (depth + n * 7) % 41;
        deep(d, &mut || {
            sys::scramble(n);
            let _ = co.resume(n);
            abi("resumer");
            0
        });
        n += 1;
    }
    check!(n == 3, "coroutine took {n} resumes");
    c.st.add("abi_probes", 9 + 3);
}
/// Recurses through frames of varying size.
#[inline(never)]
fn deep(n: usize, f: &mut dyn FnMut() -> usize) -> usize {
    if n == 0 {
        return f();
    }
    match n % 4 {
        0 => frame::<1>(n, f),
        1 => frame::<3>(n, f),
        2 => frame::<9>(n, f),
        _ => frame::<30>(n, f),
    }
}
#[inline(never)]
fn frame<const K: usize>(n: usize, f: &mut dyn FnMut() -> usize) -> usize {
    let mut a = [n; K];
    black_box(&mut a);
    let r = deep(n - 1, f);
    check!(black_box(&a).iter().all(|&x| x == n), "a resumer's local array was overwritten");
    r
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = Stats::new();
    macro_rules! table { ($f:ident: $($l:ident [$($n:literal)*];)*) => { vec![ $( $( ($f::<$l, $n> as fn(&mut Cx), concat!(stringify!($l), "/", stringify!($n))), )* )* ] } }
    let tab: Vec<(fn(&mut Cx), &'static str)> = match a.profile.as_str() {
        "captures" => table!(captures:
            L1 [0 1 2 3 4 5 6 7 8 9 11 12 13 15 16 17 19 23 24 25 29 31 32 33 40 47 48 49 55 56 57 60 63 64 65 72 79 80 81 100 127 128 129 200 250 255 256 257 500 511 512 513 777 1000 1007 1008 1009 1015 1016 1017 1020 1023 1024];
            L2 [0 2 6 10 14 18 30 1022 1024]; L4 [0 4 8 12 20 28 36 44 1020 1024]; L8 [0 8 16 24 32 40 48 56 72 88 120 1000 1016 1024];
            L16 [0 16 32 48 80 96 1008 1024]; L32 [0 32 64 96 160 992 1024]; L64 [0 64 128 192 960 1024]; L128 [0 128 256 384 896 1024];
            L256 [0 256 512 768 1024]; L512 [0 512 1024]; L1024 [0 1024];),
        "refuse" => table!(refuse:
            L1 [1025 1026 1027 1039 1040 1041 1500 2047 2048 2049 3000 4000 4040 4048 4064 4072 4080 4088 4096 4097 5000 8000 8192 10000 20000 65536 70000 100000 200000];
            L8 [1032 1040 4096 40000]; L16 [1040 4080 4096 9008]; L64 [1088 4096 16384]; L1024 [2048 4096 12288];
            L2048 [0 2048 4096]; L4096 [0 4096 8192]; L8192 [0 8192]; L64K [0 65536]; L1M [0];),
        _ => vec![(abi_case as fn(&mut Cx), "abi")],
    };
    // Unoptimised code copies large captures around: use a large stack.
    std::thread::Builder::new()
        .stack_size(96 << 20)
        .spawn(move || {
            for case in a.cases() {
                let (f, name) = tab[case as usize % tab.len()];
                rep::case(case, name);
                let mut c = Cx { r: Rng::new(a.seed, case), st: &mut st, name };
                f(&mut c);
            }
            st.add("capture_types", tab.len() as u64);
            st.finish()
        })
        .unwrap()
        .join()
        .ok();
    // Only reached when the thread panicked.
    std::process::exit(101)
}
