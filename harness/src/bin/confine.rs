//! C10: coroutine code touches only its own stack.
//!
//! All stacks, including the one playing the part of the thread's stack, lie
//! in arenas of the harness's own: next to each other, in random order, at low
//! and high addresses. At any moment every stack that is not a party to the
//! operation in progress is inaccessible, so any access to it traps; above
//! each base lies either a canary or the next stack's guard page; stack
//! pointers and addresses of locals are compared with the bounds.
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use vh::ledger;
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::OwnStack;
use vh::{check, sys, viol};

const NZ: usize = 20;
#[derive(Clone, Copy, Default)]
struct Zone {
    limit: usize,
    lo: usize,
    base: usize,
    top: usize,
}
static mut ZONES: [Zone; NZ] = [Zone { limit: 0, lo: 0, base: 0, top: 0 }; NZ];
static mut MASK: u32 = 0;
static mut PROTECTS: u64 = 0;
fn zone(k: usize) -> Zone {
    unsafe { ZONES[k] }
}
fn mask() -> u32 {
    unsafe { MASK }
}
/// Makes exactly these stacks accessible. Runs on a stack in the old and the
/// new set.
#[inline(never)]
fn set(m: u32) {
    tf_off();
    unsafe {
        let add = m & !MASK;
        let del = MASK & !m;
        for k in 0..NZ {
            if (add | del) & (1 << k) != 0 {
                let z = ZONES[k];
                let p = if add & (1 << k) != 0 { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE };
                if libc::mprotect(z.lo as _, z.top - z.lo, p) != 0 {
                    rep::inconclusive("mprotect failed in the harness");
                }
                PROTECTS += 1;
            }
        }
        MASK = m;
    }
}
/// As `set`, followed by single-stepping (if asked for) until the next `set`.
#[inline(never)]
fn go(m: u32) {
    set(m);
    resume_stepping(unsafe { CAP });
}

// ---- single-stepping
static mut STEP: bool = false;
static mut TRAPS: u64 = 0;
static mut NESTED: u64 = 0;
/// Gaps above the kernel's frame which were overwritten too.
static mut GAPS: u64 = 0;
/// Extended register state components: number, offset, size.
static mut XPARTS: [(u32, usize, usize); 17] = [(0, 0, 0); 17];
static mut PARTS: u64 = 0;
fn xparts() {
    #[cfg(target_arch = "x86")]
    use std::arch::x86::{__cpuid, __cpuid_count};
    #[cfg(target_arch = "x86_64")]
    use std::arch::x86_64::{__cpuid, __cpuid_count};
    #[allow(unused_unsafe)]
    unsafe {
        if __cpuid(0).eax < 0xd {
            return;
        }
        for i in 2..19u32 {
            let c = __cpuid_count(0xd, i);
            // ecx bit 0: supervisor state, not in user frames.
            let ok = c.eax != 0 && c.ecx & 1 == 0;
            XPARTS[i as usize - 2] = if ok { (i, c.ebx as usize, c.eax as usize) } else { (i, 0, 0) };
        }
    }
}
static mut EVERY: u64 = 0;
/// Instruction addresses seen (hashed).
static mut IPS: [u8; 1 << 16] = [0; 1 << 16];
static mut THREAD: (usize, usize) = (0, 0);
static mut OUTER: bool = false;
/// Instructions stepped since the last start, and when to give up: an unwind
/// executes hundreds of thousands of instructions of the unwinder.
static mut WIN: u64 = 0;
static mut CAP: u64 = 0;
static mut WCAP: u64 = 0;
/// What is being stepped through, and how often control was seen to cross from
/// one stack to another during it.
static mut KIND: usize = 0;
static mut LAST: usize = usize::MAX;
static mut CROSSED: [u64; 9] = [0; 9];
const CREATE: usize = 0;
const FIRST: usize = 1;
const RESUME: usize = 2;
const LEAVE: usize = 3;
const STACK_IN: usize = 4;
const STACK_OUT: usize = 5;
const PARENT_IN: usize = 6;
const PARENT_OUT: usize = 7;
const UNWIND: usize = 8;
fn kind(k: usize) {
    unsafe { KIND = k }
}
fn resume_stepping(cap: u64) {
    unsafe {
        LAST = usize::MAX;
        if STEP {
            WIN = 0;
            WCAP = cap;
            tf_on();
        }
    }
}
/// Dropped as the last object of a coroutine: steps through the end of an
/// unwind and the final switch.
struct Rearm;
impl Drop for Rearm {
    fn drop(&mut self) {
        unsafe {
            if STEP && std::thread::panicking() {
                resume_stepping(CAP.max(15_000));
            }
        }
    }
}
#[inline(always)]
fn tf_on() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    #[cfg(target_arch = "x86")]
    unsafe {
        std::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
    }
}
#[inline(always)]
fn tf_off() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
    }
    #[cfg(target_arch = "x86")]
    unsafe {
        std::arch::asm!("pushfd", "and dword ptr [esp], ~0x100", "popfd");
    }
}
struct Fixed(usize, usize);
unsafe impl Stack for Fixed {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.1).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.0).unwrap()
    }
}
static mut MINI: (usize, usize) = (0, 0);
/// A profiler or scheduler that uses coroutines itself.
#[inline(never)]
fn mini(x: u64) {
    unsafe { NESTED += 1 }
    let (lo, hi) = unsafe { MINI };
    let mut co = Coroutine::<u64, u64, u64, Fixed>::with_stack(Fixed(lo, hi), |y, v| {
        let w = y.suspend(v + 1);
        y.on_parent_stack(move || w * 2)
    });
    check!(co.resume(x).as_yield() == Some(x + 1), "a coroutine used by a signal handler yielded a wrong value");
    check!(co.resume(x + 3).as_return() == Some(2 * x + 6), "a coroutine used by a signal handler returned a wrong value");
    let s = co.into_stack();
    check!(on_stack(s, || x + 9) == x + 9, "on_stack used by a signal handler returned a wrong value");
}
#[inline(never)]
fn clobber(b: u8) {
    let mut a = [b; 768];
    black_box(&mut a);
}
/// Runs on the interrupted stack, after every instruction.
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        WIN += 1;
        if WIN > WCAP {
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        }
        #[cfg(target_arch = "x86_64")]
        let (sp, ip) = (uc.uc_mcontext.gregs[libc::REG_RSP as usize] as usize, uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize);
        #[cfg(target_arch = "x86")]
        let (sp, ip) = (uc.uc_mcontext.gregs[libc::REG_ESP as usize] as u32 as usize, uc.uc_mcontext.gregs[libc::REG_EIP as usize] as u32 as usize);
        TRAPS += 1;
        let h = ip.wrapping_mul(0x9e37_79b1) >> 8 & 0x7ffff;
        IPS[h >> 3] |= 1 << (h & 7);
        let mut ok = OUTER && sp >= THREAD.0 && sp < THREAD.1;
        let mut at = NZ;
        for k in 0..NZ {
            let z = ZONES[k];
            if MASK & (1 << k) != 0 && sp >= z.lo && sp <= z.base {
                ok = true;
                at = k;
            }
        }
        if LAST != usize::MAX && LAST != at {
            CROSSED[KIND] += 1;
        }
        LAST = at;
        if !ok {
            viol!("at instruction {ip:#x} the stack pointer is {sp:#x}, outside of every stack involved (accessible stacks {MASK:#x})");
        }
        // The kernel wrote its frame there, except for the gap left by
        // alignment.
        #[cfg(target_arch = "x86_64")]
        let (fp, fx, top) = (uc.uc_mcontext.fpregs as usize, uc.uc_mcontext.fpregs as usize, sp - 128);
        #[cfg(target_arch = "x86")]
        let (fp, fx, top) = (uc.uc_mcontext.fpregs as usize, uc.uc_mcontext.fpregs as usize + 112, sp);
        if fp != 0 && *((fx + 464) as *const u32) == 0x4650_5853 {
            let end = fp + *((fx + 468) as *const u32) as usize;
            if end < top && top - end < 256 {
                std::ptr::write_bytes(end as *mut u8, !(TRAPS as u8) | 1, top - end);
                GAPS += 1;
            }
            // Parts of the register state in their initial configuration are
            // left out when the frame is written and read: the memory still
            // holds what was there. Another machine would overwrite it.
            let (features, present) = (*((fx + 472) as *const u64), *((fx + 512) as *const u64));
            for &(i, at, len) in &*std::ptr::addr_of!(XPARTS) {
                if len != 0 && features & !present & (1 << i) != 0 && fx + at + len <= end {
                    std::ptr::write_bytes((fx + at) as *mut u8, !(TRAPS as u8) | 1, len);
                    PARTS += 1;
                }
            }
        }
        clobber(TRAPS as u8);
        if EVERY != 0 && TRAPS % EVERY == 0 {
            mini(TRAPS);
        }
    }
}

fn canary(a: usize) -> u8 {
    (a as u8).wrapping_mul(37) ^ 0x5a
}

extern "C" fn on_segv(_: i32, si: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    let a = unsafe { (*si).si_addr() as usize };
    let mut s = "no stack".to_string();
    for k in 0..NZ {
        let z = zone(k);
        if a >= z.limit && a < z.top {
            s = if a < z.lo {
                format!("the guard page of stack {k}, {} below its usable memory", z.lo - a)
            } else {
                format!("stack {k} (base - {:#x}), which takes no part in the operation", z.base.wrapping_sub(a) as isize)
            };
        }
    }
    viol!("fault at {a:#x}, in {s}; accessible stacks {:#x}", mask());
}

struct Slot {
    k: usize,
    free: Rc<RefCell<Vec<usize>>>,
}
unsafe impl Stack for Slot {
    fn base(&self) -> StackPointer {
        StackPointer::new(zone(self.k).base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(zone(self.k).limit).unwrap()
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        self.free.borrow_mut().push(self.k);
    }
}

/// What the harness knows about one coroutine (or the root context).
struct CoInfo {
    /// Stacks its logical call stack occupies, innermost last.
    zones: RefCell<Vec<usize>>,
    /// What was accessible when it was last entered.
    prev: Cell<u32>,
    /// Last input it received.
    got: Cell<u64>,
}
impl CoInfo {
    fn new(k: usize) -> Self {
        CoInfo { zones: RefCell::new(vec![k]), prev: Cell::new(0), got: Cell::new(0) }
    }
    /// To be called before control leaves.
    fn leave(&self) {
        kind(LEAVE);
        go(self.prev.get() | self.bits());
    }
    fn back(&self) {
        self.prev.set(mask());
        set(self.bits());
    }
    fn bits(&self) -> u32 {
        self.zones.borrow().iter().fold(0, |m, k| m | 1 << k)
    }
    fn top(&self) -> usize {
        *self.zones.borrow().last().unwrap()
    }
}
struct W {
    r: RefCell<Rng>,
    free: Rc<RefCell<Vec<usize>>>,
    next: RefCell<u32>,
    steps: RefCell<u32>,
    ops: RefCell<[u64; 12]>,
    trace: RefCell<u64>,
}
impl W {
    fn below(&self, n: usize) -> usize {
        self.r.borrow_mut().us(n)
    }
    fn op(&self, k: usize) {
        self.ops.borrow_mut()[k] += 1;
        let mut t = self.trace.borrow_mut();
        *t = t.wrapping_mul(0x100000001b3) ^ (k as u64 + 1);
    }
    fn id(&self) -> u32 {
        *self.next.borrow_mut() += 1;
        *self.next.borrow()
    }
    fn take(&self) -> Option<Slot> {
        let mut f = self.free.borrow_mut();
        let n = f.len();
        if n == 0 {
            return None;
        }
        let i = self.r.borrow_mut().us(n);
        let k = f.swap_remove(i);
        Some(Slot { k, free: self.free.clone() })
    }
}
type Co = Coroutine<u64, u64, u64, Slot>;
struct Child {
    co: Option<Co>,
    info: Rc<CoInfo>,
    /// Value expected with the next yield
    n: u64,
}
impl Drop for Child {
    fn drop(&mut self) {
        if let Some(co) = self.co.take() {
            let old = mask();
            kind(UNWIND);
            go(old | self.info.bits());
            drop(co);
            set(old);
        }
    }
}

#[inline(never)]
fn inside(me: &CoInfo, what: &str) {
    let k = me.top();
    let z = zone(k);
    let x = black_box(0u8);
    for (a, n) in [(sys::sp(), "stack pointer"), (&x as *const u8 as usize, "local variable")] {
        check!(a >= z.lo && a < z.base, "the {n} of {what} is at {a:#x}, outside of its stack {:#x}..{:#x}", z.lo, z.base);
    }
}
#[inline(never)]
fn burn(n: usize) -> usize {
    let mut a = [n; 40];
    black_box(&mut a);
    if n == 0 {
        0
    } else {
        burn(n - 1) + black_box(a[n % 40]) - n + 1
    }
}
#[derive(Debug)]
struct Boom(u32);

fn body(w: &Rc<W>, me: &Rc<CoInfo>, y: Option<&Yielder<u64, u64>>, depth: usize) -> u64 {
    let mut kids: Vec<Child> = Vec::new();
    let _t = ledger::Tracked::new(w.id());
    let steps = 1 + w.below(if depth == 0 { 120 } else { 20 });
    for _ in 0..steps {
        if *w.steps.borrow() == 0 {
            break;
        }
        *w.steps.borrow_mut() -= 1;
        inside(me, "a coroutine");
        match w.below(18) {
            0 => {
                let n = w.below(12);
                check!(burn(n) == n, "locals damaged in a recursion");
            }
            1 | 2 => {
                if let Some(s) = w.take() {
                    w.op(0);
                    let info = Rc::new(CoInfo::new(s.k));
                    let old = mask();
                    kind(CREATE);
                    go(old | 1 << s.k);
                    let (w2, i2) = (w.clone(), info.clone());
                    let id = w.id();
                    let cap = ledger::Tracked::new(id);
                    let ctag = id as u64;
                    let f = move |y: &Yielder<u64, u64>, v: u64| {
                        let _rearm = Rearm;
                        i2.back();
                        i2.got.set(v);
                        inside(&i2, "a new coroutine");
                        cap.verify("capture");
                        check!(v == ctag * 1000, "first input {v} instead of {}", ctag * 1000);
                        body(&w2, &i2, Some(y), depth + 1)
                    };
                    // Captures of different sizes lie between the top of the
                    // stack and where the coroutine starts.
                    macro_rules! padded {
                        ($n:expr) => {{
                            let pad = [ctag ^ 0x5a5a; $n];
                            let f = f;
                            Coroutine::with_stack(s, move |y: &Yielder<u64, u64>, v: u64| {
                                check!(black_box(&pad).iter().all(|&x| x == ctag ^ 0x5a5a), "the captured state was changed before the coroutine started");
                                f(y, v)
                            })
                        }};
                    }
                    let co = match id % 5 {
                        0 => padded!(10),
                        1 => padded!(50),
                        2 => padded!(110),
                        3 => padded!(115),
                        _ => Coroutine::with_stack(s, f),
                    };
                    set(old);
                    kids.push(Child { co: Some(co), info, n: ctag * 1000 });
                }
            }
            3..=10 if !kids.is_empty() => {
                let i = w.below(kids.len());
                let c = &mut kids[i];
                let Some(co) = c.co.as_mut() else { continue };
                w.op(1);
                let old = mask();
                let need = 1 << me.top() | c.info.bits();
                kind(if co.started() { RESUME } else { FIRST });
                go(need);
                // Panics of the child arrive here.
                let fin = if co.done() {
                    set(old);
                    true
                } else {
                    let n = c.n;
                    let r = catch_unwind(AssertUnwindSafe(|| co.resume(n)));
                    set(old);
                    c.n += 1;
                    match r {
                        Ok(CoroutineResult::Yield(v)) => {
                            check!(v == n + 7, "yielded {v} instead of {}", n + 7);
                            false
                        }
                        Ok(CoroutineResult::Return(v)) => {
                            check!(v == n + 9, "returned {v} instead of {}", n + 9);
                            true
                        }
                        Err(e) => {
                            w.op(2);
                            check!(e.downcast_ref::<Boom>().is_some(), "foreign panic payload");
                            true
                        }
                    }
                };
                inside(me, "the resumer");
                if fin {
                    let mut c = kids.swap_remove(i);
                    if w.below(2) == 0 {
                        // into_stack: needs nobody's memory
                        let s = c.co.take().unwrap().into_stack();
                        check!(s.k == c.info.top() || c.info.zones.borrow()[0] == s.k, "another stack was extracted");
                    }
                }
            }
            11 => {
                if !kids.is_empty() {
                    w.op(3);
                    let i = w.below(kids.len());
                    drop_kid(w, kids.swap_remove(i), depth);
                }
            }
            12 | 13 => {
                if let Some(y) = y {
                    w.op(4);
                    me.leave();
                    let got = me.got.get();
                    let v = y.suspend(got + 7);
                    me.back();
                    inside(me, "a resumed coroutine");
                    check!(v == got + 1, "input {v} instead of {}", got + 1);
                    me.got.set(v);
                }
            }
            14 => {
                if let Some(s) = w.take() {
                    w.op(5);
                    let k = s.k;
                    kind(STACK_IN);
                    go(mask() | 1 << k);
                    me.zones.borrow_mut().push(k);
                    let t = ledger::Tracked::new(w.id());
                    let deep = w.below(2) == 0 && depth < 6;
                    let boom = cfg!(feature = "unwind") && w.below(6) == 0;
                    let by_ref = w.below(2) == 0;
                    let go = || {
                        tf_off();
                        inside(me, "an on_stack closure");
                        t.verify("on_stack capture");
                        if deep {
                            // Everything can happen in here, too.
                            body(w, me, y, depth + 1);
                            set(me.bits());
                        }
                        check!(burn(5) == 5, "locals damaged on an on_stack stack");
                        inside(me, "an on_stack closure");
                        kind(STACK_OUT);
                        resume_stepping(unsafe { CAP });
                        if boom {
                            std::panic::panic_any(Boom(1));
                        }
                        k
                    };
                    struct Pop<'a>(&'a CoInfo);
                    impl Drop for Pop<'_> {
                        fn drop(&mut self) {
                            self.0.zones.borrow_mut().pop();
                        }
                    }
                    let pop = Pop(me);
                    // The preparations above count, too.
                    resume_stepping(unsafe { CAP });
                    let r = if by_ref {
                        // A borrowed stack: stays with us.
                        struct Ref<'a>(&'a Slot);
                        unsafe impl Stack for Ref<'_> {
                            fn base(&self) -> StackPointer {
                                self.0.base()
                            }
                            fn limit(&self) -> StackPointer {
                                self.0.limit()
                            }
                        }
                        catch_unwind(AssertUnwindSafe(|| on_stack(Ref(&s), go)))
                    } else {
                        catch_unwind(AssertUnwindSafe(|| on_stack(s, go)))
                    };
                    drop(pop);
                    match r {
                        Ok(g) => check!(g == k, "wrong result of on_stack"),
                        Err(e) => {
                            if e.downcast_ref::<Boom>().is_none() {
                                // A forced unwind
                                std::panic::resume_unwind(e);
                            }
                        }
                    }
                    set(me.bits());
                    inside(me, "the caller of on_stack");
                }
            }
            15 => {
                if let Some(y) = y {
                    w.op(6);
                    me.leave();
                    kind(PARENT_IN);
                    let below = sys::sp();
                    let z = zone(me.top());
                    let me_bits = me.bits();
                    let boom = cfg!(feature = "unwind") && w.below(6) == 0;
                    let f = || {
                        tf_off();
                        // On the resumer's stack: one of those it may touch.
                        let a = sys::sp();
                        check!(a < z.lo || a >= z.base, "on_parent_stack closure runs on the coroutine's own stack");
                        let mut ok = false;
                        for k in 0..NZ {
                            let q = zone(k);
                            ok |= me.prev.get() & !me_bits & (1 << k) != 0 && a >= q.lo && a < q.base;
                        }
                        check!(ok, "on_parent_stack closure runs at {a:#x}, not on the resumer's stack");
                        check!(burn(5) == 5, "locals damaged on the parent's stack");
                        kind(PARENT_OUT);
                        resume_stepping(unsafe { CAP });
                        if boom {
                            std::panic::panic_any(Boom(2));
                        }
                        below
                    };
                    struct Any<F>(F);
                    unsafe impl<F> Send for Any<F> {}
                    impl<R, F: FnOnce() -> R> Any<F> {
                        fn call(self) -> R {
                            (self.0)()
                        }
                    }
                    let f = Any(f);
                    let r = catch_unwind(AssertUnwindSafe(|| y.on_parent_stack(move || f.call())));
                    match r {
                        Ok(v) => check!(v == below, "on_parent_stack returned a wrong value"),
                        Err(e) => check!(e.downcast_ref::<Boom>().is_some(), "foreign panic payload"),
                    }
                    set(me_bits);
                    inside(me, "the caller of on_parent_stack");
                }
            }
            16 => {
                // Ended by a reset: at rest, never started or finished.
                if let Some(s) = w.take() {
                    w.op(8);
                    let k = s.k;
                    let old = mask();
                    let (n, pad) = (w.below(4), w.below(3));
                    let pads = [[0x1111u64 * 3; 4]; 3];
                    set(old | 1 << k);
                    let mut co = Coroutine::with_stack(s, move |y: &Yielder<u64, u64>, v: u64| {
                        let mut v = v + pads[pad][1];
                        for _ in 0..2 {
                            let deep = burn(v as usize % 5) as u64;
                            v = y.suspend(v + deep);
                        }
                        v
                    });
                    for i in 0..n {
                        match co.resume(i as u64) {
                            CoroutineResult::Yield(_) => {}
                            CoroutineResult::Return(_) => break,
                        }
                    }
                    resume_stepping(unsafe { CAP });
                    unsafe { co.force_reset() };
                    tf_off();
                    check!(co.done(), "not done after force_reset");
                    let s = co.into_stack();
                    check!(s.k == k, "another stack was extracted");
                    set(old);
                    drop(s);
                }
            }
            _ => {
                if y.is_some() && cfg!(feature = "unwind") && w.below(if unsafe { STEP } { 12 } else { 4 }) == 0 {
                    w.op(7);
                    while let Some(k) = kids.pop() {
                        drop_kid(w, k, depth);
                    }
                    me.leave();
                    std::panic::panic_any(Boom(0));
                }
            }
        }
        check!(_t.verify("local") != 0, "local damaged");
    }
    while let Some(k) = kids.pop() {
        drop_kid(w, k, depth);
    }
    me.leave();
    me.got.get() + 9
}
fn drop_kid(w: &Rc<W>, mut c: Child, depth: usize) {
    if cfg!(feature = "unwind") {
        if w.below(2) == 0 {
            if let Some(co) = c.co.as_mut() {
                let old = mask();
                kind(UNWIND);
                go(old | c.info.bits());
                co.force_unwind();
                check!(co.done(), "not done after force_unwind");
                set(old);
            }
        }
        drop(c);
        return;
    }
    // Without unwinding: run it to its end.
    let _ = depth;
    if let Some(co) = c.co.as_mut() {
        if co.started() {
            let old = mask();
            for _ in 0..10_000 {
                if co.done() {
                    break;
                }
                kind(RESUME);
                go(old | c.info.bits());
                let n = c.n;
                c.n += 1;
                let _ = co.resume(n);
                set(old);
            }
        }
    }
    drop(c);
}

/// Places the stacks.
fn layout(r: &mut Rng) -> Vec<(usize, usize)> {
    let p = sys::page();
    let mut maps = Vec::new();
    let mut k = 0;
    // Addresses where arenas are put if free; adjacent stacks within an arena.
    #[cfg(target_pointer_width = "64")]
    let hints = [0usize, 0x20_0000, 0x7000_0000, 0x7fff_0000, 0xffff_0000, 0x1_0000_0000, 0x7ffe_0000_0000, 0x1000_0000_0000, 0x2000_0000];
    #[cfg(target_pointer_width = "32")]
    let hints = [0usize, 0x20_0000, 0x7000_0000, 0x7fff_0000, 0x8000_0000, 0xc000_0000, 0xe000_0000, 0x9000_0000, 0x2000_0000];
    while k < NZ {
        let n = (1 + r.us(8)).min(NZ - k);
        let sizes: Vec<usize> = (0..n).map(|_| (64 << 10) + p * r.us(20)).collect();
        let len: usize = sizes.iter().map(|s| s + p).sum::<usize>() + p;
        let hint = hints[r.us(hints.len())];
        unsafe {
            let m = libc::mmap(hint as _, len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            if m == libc::MAP_FAILED {
                rep::inconclusive("mmap failed in the harness");
            }
            maps.push((m as usize, len));
            let mut a = m as usize;
            for s in &sizes {
                let above = if r.chance(1, 2) { 0 } else { 16 * (1 + r.us(12)) };
                let lo = a + p;
                let top = lo + s;
                ZONES[k] = Zone { limit: a, lo, base: top - above, top };
                libc::mprotect(lo as _, top - lo, libc::PROT_READ | libc::PROT_WRITE);
                for i in top - above..top {
                    *(i as *mut u8) = canary(i);
                }
                libc::mprotect(lo as _, top - lo, libc::PROT_NONE);
                a = top;
                k += 1;
            }
        }
    }
    maps
}

/// The smallest stacks the documentation allows: a coroutine whose own code
/// needs next to nothing runs on one without reaching the guard page.
fn tiny(r: &mut Rng, st: &mut Stats) {
    set((1 << NZ) - 1);
    let p = sys::page();
    for k in 0..NZ {
        let z = zone(k);
        // Use the lowest part of the zone as a stack of its own.
        let size = 4096 + if cfg!(debug_assertions) { 4096 } else { 0 } + 16 * r.us(8);
        struct T(usize, usize);
        unsafe impl Stack for T {
            fn base(&self) -> StackPointer {
                StackPointer::new(self.1).unwrap()
            }
            fn limit(&self) -> StackPointer {
                StackPointer::new(self.0).unwrap()
            }
        }
        let base = z.lo + size;
        unsafe {
            for i in base..base + 256 {
                *(i as *mut u8) = canary(i);
            }
        }
        let mut co = Coroutine::<u64, u64, u64, T>::with_stack(T(z.limit, base), move |y, v| {
            let a = y.suspend(v + 1);
            let b = y.suspend(a + 2);
            a + b
        });
        check!(base - z.limit >= 4096 + p, "harness: bad stack");
        check!(co.resume(1).as_yield() == Some(2), "wrong yield");
        check!(co.resume(5).as_yield() == Some(7), "wrong yield");
        check!(co.resume(6).as_return() == Some(11), "wrong return");
        let s = co.into_stack();
        check!(on_stack(s, || 17u64) == 17, "wrong result");
        let mut co = Coroutine::<u64, u64, u64, T>::with_stack(T(z.limit, base), move |y, v| y.suspend(v + 1));
        check!(k % 5 == 0 || co.resume(1).as_yield() == Some(2), "wrong yield");
        unsafe { co.force_reset() };
        drop(co);
        for i in base..base + 256 {
            let v = unsafe { *(i as *const u8) };
            check!(v == canary(i), "memory {} byte(s) above the base of a minimum-size stack was overwritten", i - base);
        }
        st.add("minimum_size_stacks", 1);
    }
    set(0);
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        let alt = libc::mmap(std::ptr::null_mut(), 1 << 18, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: alt, ss_flags: 0, ss_size: 1 << 18 };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
    }
    let step = a.profile == "step";
    unsafe {
        STEP = step;
        THREAD = sys::thread_stack();
        xparts();
        let m = OwnStack::new(64 << 10, 0, 0);
        MINI = (m.limit, m.base);
        std::mem::forget(m);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        unsafe {
            EVERY = [0, 7, 50, 501][r.us(4)];
            CAP = if r.chance(1, 40) { u64::MAX } else { 2500 };
        }
        let maps = layout(&mut r);
        ledger::reset();
        if case % 8 == 7 {
            tiny(&mut r, &mut st);
        }
        let mut order: Vec<usize> = (0..NZ).collect();
        for i in (1..NZ).rev() {
            order.swap(i, r.us(i + 1));
        }
        let free = Rc::new(RefCell::new(order));
        let w = Rc::new(W {
            steps: RefCell::new(if step { 5 + r.us(50) } else { 20 + r.us(400) } as u32),
            r: RefCell::new(r),
            free: free.clone(),
            next: RefCell::new(0),
            ops: RefCell::new([0; 12]),
            trace: RefCell::new(0),
        });
        let root = w.take().unwrap();
        let info = Rc::new(CoInfo::new(root.k));
        unsafe { OUTER = true };
        go(1 << root.k);
        let (w2, i2) = (w.clone(), info.clone());
        let v = on_stack(root, move || {
            i2.back();
            unsafe { OUTER = false };
            let v = body(&w2, &i2, None, 0);
            unsafe { OUTER = true };
            v
        });
        set(mask());
        check!(v == 9, "wrong result of the root context");
        ledger::assert_empty("the end");
        check!(free.borrow().len() == NZ, "{} stack(s) were not released", NZ - free.borrow().len());
        set((1 << NZ) - 1);
        for k in 0..NZ {
            let z = zone(k);
            for i in z.base..z.top {
                let v = unsafe { (i as *const u8).read_volatile() };
                check!(v == canary(i), "memory {} byte(s) above the base of stack {k} was overwritten with {v:#x}", i - z.base);
            }
        }
        unsafe {
            for (m, l) in maps {
                libc::munmap(m as _, l);
            }
            MASK = 0;
        }
        let ops = *w.ops.borrow();
        st.evals += 1;
        for (n, v) in ["created", "resumes", "panics_received", "drops", "suspends", "on_stack", "on_parent_stack", "panics", "resets"].iter().zip(ops) {
            st.add(n, v);
        }
        if ops[1] >= 3 && ops.iter().filter(|n| **n > 0).count() >= 4 {
            let t = *w.trace.borrow();
            st.distinct(t);
            st.sample(|| format!("case {case}: operations {ops:?}, stacks at {:#x}..{:#x} and others", zone(0).limit, zone(0).top));
        }
    }
    if step {
        st.add("instructions_interrupted", unsafe { TRAPS });
        st.add("coroutines_run_in_handlers", unsafe { NESTED });
        st.add("frame_gaps_overwritten", unsafe { GAPS });
        st.add("frame_parts_overwritten", unsafe { PARTS });
        for (k, n) in ["create", "first_resume", "resume", "leave", "on_stack_in", "on_stack_out", "on_parent_in", "on_parent_out", "unwind"].iter().enumerate() {
            st.add(&format!("stack_changes_stepped_{n}"), unsafe { CROSSED[k] });
        }
        #[allow(static_mut_refs)]
        st.add("distinct_instructions", unsafe { IPS.iter().map(|b| b.count_ones() as u64).sum() });
    }
    st.add("protection_changes", unsafe { PROTECTS });
    st.finish()
}
