//! C20, C21: the view of unwinders. Random nestings of coroutines, on_stack,
//! on_parent_stack, panics, forced unwinds and traps; at many points the
//! complete chain is walked and compared with what the ancestors saw
//! themselves. Profile "dwarf": through the unwinder's tables. Profile "fp":
//! following frame pointers (needs a build with frame pointers).
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::trap::TrapHandlerRegs;
use corosensei::{on_stack, Coroutine, Yielder};
use std::cell::Cell;
use std::collections::HashSet;
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use vh::abi::{with_registers, NREG, REGS};
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::{check, sys, viol};

const UNWIND: bool = cfg!(feature = "unwind");
#[cfg(target_arch = "x86_64")]
const DWARF: [i32; NREG] = [3, 6, 12, 13, 14, 15];
#[cfg(target_arch = "x86")]
const DWARF: [i32; NREG] = [3, 5, 6, 7];

extern "C" {
    fn _Unwind_Backtrace(cb: extern "C" fn(*mut u8, *mut u8) -> i32, data: *mut u8) -> i32;
    fn _Unwind_GetIP(ctx: *mut u8) -> usize;
    fn _Unwind_GetCFA(ctx: *mut u8) -> usize;
    fn _Unwind_GetGR(ctx: *mut u8, i: i32) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: *mut u8) -> *mut u8;
    fn vh_regprobe();
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Frame {
    ip: usize,
    cfa: usize,
    r: [usize; NREG],
}
struct Walker {
    v: Vec<Frame>,
    long: bool,
}
extern "C" fn step(ctx: *mut u8, data: *mut u8) -> i32 {
    unsafe {
        let w = &mut *(data as *mut Walker);
        if w.v.len() >= 20_000 {
            w.long = true;
            return 4;
        }
        let mut f = Frame { ip: _Unwind_GetIP(ctx), cfa: _Unwind_GetCFA(ctx), r: [0; NREG] };
        for i in 0..NREG {
            f.r[i] = _Unwind_GetGR(ctx, DWARF[i]);
        }
        w.v.push(f);
        0
    }
}
/// Frames from the caller of this function upwards.
#[inline(never)]
fn walk() -> Vec<Frame> {
    let mut w = Walker { v: Vec::with_capacity(256), long: false };
    let rc = unsafe { _Unwind_Backtrace(step, &mut w as *mut Walker as *mut u8) };
    check!(!w.long, "a backtrace does not terminate: 20000 frames, the last at {:#x}", w.v[19_999].ip);
    // 5: end of stack
    check!(rc == 5, "a backtrace ended with error {rc} after {} frames, at {:#x}", w.v.len(), w.v.last().map_or(0, |f| f.ip));
    let start = func(walk as *const () as usize + 1);
    // The frame of this function comes first.
    let skip = w.v.iter().position(|f| func(f.ip) == start).map_or(1, |i| i + 1);
    w.v.drain(..skip);
    w.v
}
fn func(ip: usize) -> usize {
    if ip == 0 {
        return 0;
    }
    // Looks at the byte before its argument.
    unsafe { _Unwind_FindEnclosingFunction(ip as *mut u8) as usize }
}

// ------------------------------------------------------------ expectations
thread_local! {
    static EXPECT: std::cell::RefCell<Vec<Vec<Frame>>> = const { std::cell::RefCell::new(Vec::new()) };
    static FEXPECT: std::cell::RefCell<Vec<Vec<Rec>>> = const { std::cell::RefCell::new(Vec::new()) };
    static COUNT: Cell<Counts> = const { Cell::new(Counts { deep: 0, probes: 0 }) };
    static REGIONS: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
    static LIVE: std::cell::RefCell<Vec<[usize; NREG]>> = const { std::cell::RefCell::new(Vec::new()) };
    static ROOT: Cell<usize> = const { Cell::new(0) };
    static FP: Cell<bool> = const { Cell::new(false) };
    static STATS: Cell<[u64; 6]> = const { Cell::new([0; 6]) };
    static SHAPE: Cell<u64> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static BUDGET: Cell<i64> = const { Cell::new(0) };
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Counts {
    deep: i64,
    probes: i64,
}
fn bump(i: usize) {
    STATS.with(|s| {
        let mut v = s.get();
        v[i] += 1;
        s.set(v)
    })
}
fn note(x: u64) {
    SHAPE.with(|s| s.set(s.get().rotate_left(5).wrapping_mul(31) ^ x));
}

/// Takes a complete walk and verifies it.
#[inline(never)]
fn checkpoint(what: &str) {
    let c = COUNT.with(|c| c.get());
    if FP.with(|f| f.get()) {
        let f = fp_verify(what);
        black_box(&f);
        return;
    }
    let v = walk();
    bump(0);
    note(v.len() as u64);
    let mut seen = HashSet::new();
    let (deep_start, probe_start) = (func(deep_a as *const () as usize + 1), vh_regprobe as *const () as usize);
    let mut got = Counts { deep: 0, probes: 0 };
    for (i, f) in v.iter().enumerate() {
        check!(seen.insert((f.ip, f.cfa)), "{what}: frame {i} (pc {:#x}, cfa {:#x}) appears twice in a backtrace", f.ip, f.cfa);
        let s = func(f.ip);
        if s == deep_start {
            got.deep += 1;
        }
        if s == probe_start {
            got.probes += 1;
            let ok = LIVE.with(|l| {
                let l = l.borrow();
                l.iter().any(|x| *x == f.r) || {
                    let near = l.iter().max_by_key(|x| (0..NREG).filter(|&i| x[i] == f.r[i]).count());
                    if let Some(n) = near {
                        let bad: Vec<String> = (0..NREG).filter(|&i| n[i] != f.r[i]).map(|i| format!("{} is {:#x} instead of {:#x}", REGS[i], f.r[i], n[i])).collect();
                        viol!("{what}: unwinding recovers wrong registers for an ancestor: {}", bad.join(", "));
                    }
                    false
                }
            });
            check!(ok, "{what}: a frame of an ancestor that is not active");
            bump(1);
        }
    }
    check!(got == c, "{what}: the backtrace shows {got:?} of the marked frames, {c:?} are active ({} frames)", v.len());
    EXPECT.with(|e| {
        if let Some(w) = e.borrow().last() {
            suffix(&v, w, what);
        }
    });
}
fn suffix(v: &[Frame], w: &[Frame], what: &str) {
    // w[0] is the frame of `link`, at another point of that function.
    let n = w.len() - 1;
    check!(v.len() > n, "{what}: the backtrace has only {} frames, the ancestor sees {n} itself", v.len());
    let off = v.len() - n;
    for i in 0..n {
        let (a, b) = (&v[off + i], &w[1 + i]);
        check!(a.ip == b.ip, "{what}: frame {} is at {:#x}, the ancestor sees {:#x}", off + i, a.ip, b.ip);
        check!(a.cfa == b.cfa, "{what}: frame {} (pc {:#x}) has frame address {:#x}, the ancestor sees {:#x}", off + i, a.ip, a.cfa, b.cfa);
        for k in 0..NREG {
            // The frame directly above `link` holds registers `link` has saved: all
            // of them are determined.
            check!(a.r[k] == b.r[k], "{what}: in frame {} (pc {:#x}) register {} is recovered as {:#x}, the ancestor recovers {:#x}", off + i, a.ip, REGS[k], a.r[k], b.r[k]);
        }
    }
    let l = v[off - 1];
    check!(func(l.ip) == func(w[0].ip), "{what}: the frame that resumed (or called) is missing: pc {:#x} instead", l.ip);
    bump(2);
}

// ------------------------------------------------------------- frame pointers
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Rec {
    at: usize,
    next: usize,
    ret: usize,
}
/// Records from the frame of the caller upwards to the root of the case.
#[inline(never)]
fn fp_walk(what: &str) -> Vec<Rec> {
    let mut p: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("mov {}, rbp", out(reg) p);
        #[cfg(target_arch = "x86")]
        std::arch::asm!("mov {}, ebp", out(reg) p);
    }
    let word = std::mem::size_of::<usize>();
    let root = ROOT.with(|r| r.get());
    let (tlo, thi) = sys::thread_stack();
    let mut v = Vec::new();
    REGIONS.with(|regions| {
        let regions = regions.borrow();
        loop {
            let inside = |lo: usize, hi: usize| p >= lo && p < hi && hi - p >= 2 * word;
            let ok = p % word == 0 && (inside(tlo, thi) || regions.iter().any(|x| inside(x.0, x.1)));
            check!(ok, "{what}: the frame pointer chain leaves the active stacks at {p:#x} after {} records", v.len());
            let (next, ret) = unsafe { (*(p as *const usize), *((p + word) as *const usize)) };
            v.push(Rec { at: p, next, ret });
            if p == root {
                break;
            }
            check!(v.len() < 20_000, "{what}: the frame pointer chain does not terminate");
            p = next;
        }
    });
    // The first record is this function's own.
    v.remove(0);
    v
}
fn fp_verify(what: &str) -> Vec<Rec> {
    let v = fp_walk(what);
    bump(3);
    note(v.len() as u64);
    let c = COUNT.with(|c| c.get());
    let mut seen = HashSet::new();
    for r in &v {
        check!(seen.insert(r.at), "{what}: record {:#x} appears twice in the frame pointer chain", r.at);
    }
    let start = func(deep_a as *const () as usize + 1);
    let deep = v.iter().filter(|r| func(r.ret) == start).count() as i64;
    check!(deep == c.deep, "{what}: the frame pointer chain shows {deep} of the marked frames, {} are active", c.deep);
    FEXPECT.with(|e| {
        if let Some(w) = e.borrow().last() {
            check!(v.len() >= w.len(), "{what}: the frame pointer chain has {} records, the ancestor sees {} itself", v.len(), w.len());
            let off = v.len() - w.len();
            for i in 0..w.len() {
                check!(v[off + i] == w[i], "{what}: record {} of the frame pointer chain is {:x?}, the ancestor sees {:x?}", off + i, v[off + i], w[i]);
            }
            bump(4);
        }
    });
    // Every return address is one the unwinder's tables agree with, except the
    // pseudo record at the root of each coroutine's stack.
    let d = walk();
    let mut di = 0;
    for r in &v {
        match d[di..].iter().position(|f| f.ip == r.ret) {
            Some(k) => di += k + 1,
            None => {
                let pseudo = REGIONS.with(|x| x.borrow().iter().any(|x| r.at < x.1 && x.1 - r.at <= 64));
                check!(pseudo, "{what}: the frame pointer chain contains {:#x} as a return address (record at {:#x}), which is none", r.ret, r.at);
            }
        }
    }
    // Wherever the chain of calls leaves a stack, the return address into the
    // context below is in the chain, so that the walk does not miss that
    // context's own function.
    let (tlo, thi) = sys::thread_stack();
    REGIONS.with(|x| {
        let x = x.borrow();
        let region = |a: usize| if a > tlo && a <= thi { Some(0) } else { x.iter().position(|x| a > x.0 && a <= x.1).map(|i| i + 1) };
        for k in 1..d.len() {
            let (a, b) = (region(d[k - 1].cfa), region(d[k].cfa));
            if a != b && a.is_some() && b.is_some() {
                check!(v.iter().any(|r| r.ret == d[k].ip), "{what}: the frame pointer chain misses the function that switched to another stack (return address {:#x}, frame at {:#x})", d[k].ip, d[k].cfa);
                bump(2);
            }
        }
    });
    v
}

// ---------------------------------------------------------------- building
struct Pop(bool);
impl Drop for Pop {
    fn drop(&mut self) {
        if self.0 {
            FEXPECT.with(|e| e.borrow_mut().pop());
        } else {
            EXPECT.with(|e| e.borrow_mut().pop());
        }
    }
}
/// Calls f after recording what a walk from here looks like.
#[inline(never)]
fn link(f: &mut dyn FnMut()) {
    let _p;
    if FP.with(|f| f.get()) {
        let v = fp_walk("link");
        FEXPECT.with(|e| e.borrow_mut().push(v));
        _p = Pop(true);
    } else {
        let w = walk();
        EXPECT.with(|e| {
            if let Some(p) = e.borrow().last() {
                suffix(&w, p, "in an ancestor");
            }
        });
        EXPECT.with(|e| e.borrow_mut().push(w));
        _p = Pop(false);
    }
    f();
    black_box(&_p);
}
struct Deep {
    verify: bool,
}
impl Drop for Deep {
    fn drop(&mut self) {
        if self.verify && std::thread::panicking() {
            checkpoint("in a destructor during unwinding");
        }
        COUNT.with(|c| c.set(Counts { deep: c.get().deep - 1, ..c.get() }));
    }
}
type DeepFn = fn(usize, &mut dyn FnMut());
static DEEP_FN: DeepFn = deep_a;
#[inline(never)]
fn deep_a(n: usize, f: &mut dyn FnMut()) {
    COUNT.with(|c| c.set(Counts { deep: c.get().deep + 1, ..c.get() }));
    let d = Deep { verify: n % 3 == 0 };
    let mut a = [n; 4];
    black_box(&mut a);
    if n == 0 {
        f()
    } else {
        (unsafe { std::ptr::read_volatile(&DEEP_FN) })(n - 1, f);
    }
    black_box(&mut a);
    drop(d);
}
struct Unprobe;
impl Drop for Unprobe {
    fn drop(&mut self) {
        COUNT.with(|c| c.set(Counts { probes: c.get().probes - 1, ..c.get() }));
    }
}
fn probed(r: &mut Rng, f: &mut dyn FnMut()) {
    if FP.with(|f| f.get()) {
        return f();
    }
    let mut v: [usize; NREG] = std::array::from_fn(|_| r.next() as usize);
    v[0] |= 1;
    LIVE.with(|l| l.borrow_mut().push(v));
    COUNT.with(|c| c.set(Counts { probes: c.get().probes + 1, ..c.get() }));
    let _u = Unprobe;
    struct Gone([usize; NREG]);
    impl Drop for Gone {
        fn drop(&mut self) {
            LIVE.with(|l| {
                let mut l = l.borrow_mut();
                let i = l.iter().position(|x| *x == self.0).unwrap();
                l.remove(i);
            })
        }
    }
    let _g = Gone(v);
    if let Some(d) = with_registers(v, f) {
        viol!("registers changed across nested switches: {d}");
    }
}
struct Cx<'a> {
    y: &'a Yielder<(), ()>,
    base: &'a Cell<Counts>,
}
struct Restore<'a>(&'a Cell<Counts>, Counts);
impl Drop for Restore<'_> {
    fn drop(&mut self) {
        let now = COUNT.with(|c| c.get());
        self.0.set(now);
        COUNT.with(|c| c.set(Counts { deep: now.deep + self.1.deep, probes: now.probes + self.1.probes }));
        checkpoint("right after a suspend");
    }
}
impl Cx<'_> {
    fn suspend(&self) {
        let b = self.base.get();
        let now = COUNT.with(|c| c.get());
        let mine = Counts { deep: now.deep - b.deep, probes: now.probes - b.probes };
        COUNT.with(|c| c.set(b));
        let _r = Restore(self.base, mine);
        self.y.suspend(());
    }
}
struct Reg(usize, usize);
impl Drop for Reg {
    fn drop(&mut self) {
        REGIONS.with(|r| {
            let mut r = r.borrow_mut();
            let i = r.iter().position(|x| *x == (self.0, self.1)).unwrap();
            r.remove(i);
        })
    }
}
/// The library asks for the base of a stack right before it switches to it:
/// the only moment at which the frames of the library itself can be observed
/// from within.
struct Watch(DefaultStack);
unsafe impl Stack for Watch {
    #[inline(never)]
    fn base(&self) -> StackPointer {
        if ARMED.with(|a| a.replace(false)) {
            // The first frame is that of this function.
            if FP.with(|f| f.get()) {
                let mut v = fp_walk("switch");
                v.remove(0);
                FEXPECT.with(|e| e.borrow_mut().push(v));
            } else {
                let mut w = walk();
                w.remove(0);
                EXPECT.with(|e| e.borrow_mut().push(w));
            }
        }
        self.0.base()
    }
    fn limit(&self) -> StackPointer {
        self.0.limit()
    }
}
/// Calls f, which switches to a stack at once, observing that switch.
fn observed<R>(f: impl FnOnce() -> R) -> R {
    struct Depth(usize, bool);
    impl Drop for Depth {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
            if self.1 {
                FEXPECT.with(|e| e.borrow_mut().truncate(self.0));
            } else {
                EXPECT.with(|e| e.borrow_mut().truncate(self.0));
            }
        }
    }
    let fp = FP.with(|f| f.get());
    let n = if fp { FEXPECT.with(|e| e.borrow().len()) } else { EXPECT.with(|e| e.borrow().len()) };
    let _d = Depth(n, fp);
    ARMED.with(|a| a.set(true));
    f()
}
fn stack() -> (Watch, Reg) {
    let s = DefaultStack::new(512 << 10).unwrap_or_else(|e| rep::inconclusive(&e.to_string()));
    let (lo, hi) = (s.limit().get(), s.base().get());
    REGIONS.with(|r| r.borrow_mut().push((lo, hi)));
    (Watch(s), Reg(lo, hi))
}

fn act(r: &mut Rng, cx: Option<&Cx>, level: usize) {
    let n = 1 + r.us(3);
    for _ in 0..n {
        if BUDGET.with(|b| {
            b.set(b.get() - 1);
            b.get() < 0
        }) {
            checkpoint("leaf");
            return;
        }
        let k = r.us(7);
        if level == 0 {
            checkpoint("leaf");
            if let Some(cx) = cx {
                if r.chance(1, 2) {
                    cx.suspend();
                }
            }
            continue;
        }
        match r.below(12) {
            0 => checkpoint("plain"),
            1 => deep_a(k, &mut || act(r, cx, level - 1)),
            2 => {
                let mut r2 = r.clone();
                r.next();
                probed(r, &mut || act(&mut r2, cx, level - 1));
            }
            3 => {
                // Below on_stack with suspends: no recorded ancestor inside
                let (s, _g) = stack();
                on_stack(s, || {
                    checkpoint("in on_stack");
                    act(r, cx, level - 1)
                });
                checkpoint("after on_stack");
            }
            4 => {
                let (s, _g) = stack();
                let mut s = Some(s);
                let look = r.chance(1, 2);
                link(&mut || {
                    let s = s.take().unwrap();
                    let f = || {
                        checkpoint("in on_stack");
                        act(r, None, level - 1)
                    };
                    if look {
                        observed(|| on_stack(s, f))
                    } else {
                        on_stack(s, f)
                    }
                });
            }
            5 | 6 | 7 => coroutine(r, level),
            8 => {
                if let Some(cx) = cx {
                    let seed = r.next();
                    let y = cx.y;
                    link(&mut || {
                        y.on_parent_stack(|| {
                            checkpoint("in on_parent_stack");
                            let mut r = Rng::new(seed, 3);
                            deep_a(seed as usize % 5, &mut || act(&mut r, None, level - 1));
                        })
                    });
                    checkpoint("after on_parent_stack");
                }
            }
            9 => {
                if UNWIND {
                    // The hook walks too; destructors walk while unwinding.
                    let e = catch_unwind(AssertUnwindSafe(|| {
                        deep_a(k, &mut || {
                            if k % 2 == 0 {
                                let (s, _g) = stack();
                                on_stack(s, || panic_any(5u8))
                            } else {
                                panic_any(5u8)
                            }
                        })
                    }));
                    check!(e.is_err(), "panic lost");
                    checkpoint("after a panic");
                }
            }
            10 => trap_case(r),
            _ => {
                if let Some(cx) = cx {
                    cx.suspend();
                }
            }
        }
    }
    checkpoint("end");
}
fn coroutine(r: &mut Rng, level: usize) {
    let seed = r.next();
    let (s, _g) = stack();
    let mut co = Coroutine::<(), (), (), _>::with_stack(s, move |y, _| {
        let base = Cell::new(COUNT.with(|c| c.get()));
        let cx = Cx { y, base: &base };
        checkpoint("start of a coroutine");
        let mut r = Rng::new(seed, 2);
        act(&mut r, Some(&cx), level - 1);
        if UNWIND && seed % 9 == 0 {
            deep_a(3, &mut || panic_any(6u8));
        }
        checkpoint("end of a coroutine");
    });
    let limit = if UNWIND { r.us(6) } else { 1000 };
    let mut n = 0;
    while !co.done() && n < limit {
        n += 1;
        if r.chance(1, 4) {
            // As few frames as possible between known register contents and
            // the switch: none of them should save the registers itself.
            let mut r2 = r.clone();
            let look = r.chance(1, 2);
            let mut go = || {
                probed(&mut r2, &mut || {
                    if look {
                        observed(|| co.resume(()));
                    } else {
                        co.resume(());
                    }
                })
            };
            if UNWIND {
                if let Err(e) = catch_unwind(AssertUnwindSafe(go)) {
                    check!(e.downcast_ref::<u8>() == Some(&6), "payload");
                }
            } else {
                go();
            }
            checkpoint("after a resume");
            continue;
        }
        let look = r.chance(1, 2);
        let mut go = || {
            let r = if UNWIND {
                catch_unwind(AssertUnwindSafe(|| drop(if look { observed(|| co.resume(())) } else { co.resume(()) })))
            } else {
                if look {
                    observed(|| co.resume(()));
                } else {
                    co.resume(());
                }
                Ok(())
            };
            if let Err(e) = r {
                check!(e.downcast_ref::<u8>() == Some(&6), "payload");
            }
        };
        match r.below(5) {
            0 => link(&mut go),
            1 => deep_a(r.us(5), &mut || link(&mut go)),
            2 => {
                let (s, _g) = stack();
                on_stack(s, || link(&mut go))
            }
            3 => probed(r, &mut || link(&mut go)),
            _ => go(),
        }
        checkpoint("after a resume");
    }
    bump(5);
    if !co.done() {
        let mut co = Some(co);
        match r.below(3) {
            0 => link(&mut || observed(|| co.as_mut().unwrap().force_unwind())),
            1 => deep_a(4, &mut || link(&mut || drop(co.take()))),
            _ => drop(co.take()),
        }
        checkpoint("after an unwind");
    }
}

// -------------------------------------------------------------------- traps
thread_local! {
    static TRAP: Cell<Option<corosensei::trap::CoroutineTrapHandler<u32>>> = const { Cell::new(None) };
    static TRAP_BASE: Cell<Counts> = const { Cell::new(Counts { deep: 0, probes: 0 }) };
}
unsafe extern "C" fn on_trap(sig: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    let Some(h) = TRAP.with(|t| t.take()) else { viol!("unexpected signal {sig}") };
    let f = || {
        COUNT.with(|c| c.set(TRAP_BASE.with(|b| b.get())));
        checkpoint("in a trap handler function");
        deep_a(3, &mut || checkpoint("below a trap handler function"));
        5u32
    };
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = h.setup_trap_handler(f);
        g[libc::REG_RIP as usize] = rip as _;
        g[libc::REG_RSP as usize] = rsp as _;
        g[libc::REG_RBP as usize] = rbp as _;
        g[libc::REG_RDI as usize] = rdi as _;
        g[libc::REG_RSI as usize] = rsi as _;
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = h.setup_trap_handler(f);
        g[libc::REG_EIP as usize] = eip as _;
        g[libc::REG_ESP as usize] = esp as _;
        g[libc::REG_EBP as usize] = ebp as _;
        g[libc::REG_ECX as usize] = ecx as _;
        g[libc::REG_EDX as usize] = edx as _;
    }
}
fn install() {
    unsafe {
        let len = 256 << 10;
        let m = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: m, ss_flags: 0, ss_size: len };
        check!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0, "harness: sigaltstack");
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
fn trap_case(r: &mut Rng) {
    let (s, _g) = stack();
    let over = r.chance(1, 4);
    let mut co = Coroutine::<(), (), u32, _>::with_stack(s, move |y, _| {
        let base = Cell::new(COUNT.with(|c| c.get()));
        let cx = Cx { y, base: &base };
        deep_a(2, &mut || {
            cx.suspend();
            TRAP_BASE.with(|b| b.set(cx.base.get()));
            if over {
                #[inline(never)]
                fn rec(n: usize) -> usize {
                    let mut a = [n; 60];
                    black_box(&mut a);
                    rec(n + 1) + black_box(a)[3]
                }
                black_box(rec(1));
            }
            unsafe { std::arch::asm!("ud2") };
        });
        0
    });
    deep_a(1, &mut || drop(co.resume(())));
    TRAP.with(|t| t.set(Some(co.trap_handler())));
    let mut res = None;
    let mut r2 = r.clone();
    probed(&mut r2, &mut || link(&mut || res = Some(co.resume(()))));
    check!(res.unwrap().as_return() == Some(5), "trap result");
    checkpoint("after a trap");
}

#[inline(never)]
fn root_frame(f: &mut dyn FnMut()) {
    // Record of this very function: the root of this case.
    let p: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("mov {}, rbp", out(reg) p);
        #[cfg(target_arch = "x86")]
        std::arch::asm!("mov {}, ebp", out(reg) p);
    }
    ROOT.with(|r| r.set(p));
    f();
    black_box(p);
}
fn run(seed: u64, case: u64, fp: bool, budget: i64) -> ([u64; 6], u64) {
    FP.with(|f| f.set(fp));
    STATS.with(|s| s.set([0; 6]));
    SHAPE.with(|s| s.set(0));
    BUDGET.with(|b| b.set(budget));
    let mut r = Rng::new(seed, case);
    let level = 2 + r.us(4);
    root_frame(&mut || {
        coroutine(&mut r, level + 1);
        act(&mut r, None, level);
    });
    check!(COUNT.with(|c| c.get()) == Counts { deep: 0, probes: 0 }, "frames left over");
    (STATS.with(|s| s.get()), SHAPE.with(|s| s.get()))
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {
        checkpoint("in the panic hook");
    }));
    install();
    let fp = a.profile == "fp";
    let budget = a.num("budget", 60) as i64;
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let (n, shape) = if case % 4 == 3 {
            let seed = a.seed;
            std::thread::Builder::new()
                .spawn(move || {
                    install();
                    run(seed, case, fp, budget)
                })
                .unwrap()
                .join()
                .unwrap()
        } else {
            run(a.seed, case, fp, budget)
        };
        st.evals += 1;
        for (k, v) in ["walks_checked", "register_sets_recovered", "ancestor_suffixes_or_switches_compared", "fp_walks_checked", "fp_suffixes_compared", "coroutines"].iter().zip(n) {
            st.add(k, v);
        }
        if n[0] + n[3] > 10 {
            st.distinct(shape);
            st.sample(|| format!("case {case}: {} walks, {} ancestor comparisons, {} coroutines", n[0] + n[3], n[2] + n[4], n[5]));
        }
    }
    st.finish()
}
