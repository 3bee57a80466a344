//! C18, C19: recovery from traps. Profiles: "recover", "bounds".
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::trap::{CoroutineTrapHandler, TrapHandlerRegs};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use vh::abi::{self, with_registers, NREG};
use vh::ledger::{self, Tracked};
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::{self, OwnStack};
use vh::{check, viol};

const UNWIND: bool = cfg!(feature = "unwind");

// ------------------------------------------------------- type-erased stack
enum St {
    Def(DefaultStack),
    Own(OwnStack),
}
unsafe impl Stack for St {
    fn base(&self) -> StackPointer {
        match self {
            St::Def(s) => s.base(),
            St::Own(s) => s.base(),
        }
    }
    fn limit(&self) -> StackPointer {
        match self {
            St::Def(s) => s.limit(),
            St::Own(s) => s.limit(),
        }
    }
}
fn any_stack(r: &mut Rng, size: usize) -> St {
    if r.chance(1, 2) {
        St::Def(DefaultStack::new(size).unwrap())
    } else {
        St::Own(OwnStack::new(size, 16 * r.us(200), 0))
    }
}

// ------------------------------------------------------------ the handler
struct Cand {
    id: u32,
    in_bounds: Box<dyn Fn(usize) -> bool>,
    setup: Box<dyn Fn() -> TrapHandlerRegs>,
}
static mut CANDS: Vec<Cand> = Vec::new();
static EXPECT: AtomicU32 = AtomicU32::new(0);
static TRAPS: AtomicU64 = AtomicU64::new(0);
static LAST_SIG: AtomicU32 = AtomicU32::new(0);

unsafe extern "C" fn on_trap(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    let (sp, pc) = (g[libc::REG_RSP as usize] as usize, g[libc::REG_RIP as usize] as usize);
    #[cfg(target_arch = "x86")]
    let (sp, pc) = (g[libc::REG_ESP as usize] as usize, g[libc::REG_EIP as usize] as usize);
    let expect = EXPECT.load(Relaxed);
    if expect == 0 {
        // Not one of the deliberate traps.
        viol!("signal {sig} at pc {pc:#x}, sp {sp:#x}, address {:p} although no trap was due", (*info).si_addr());
    }
    EXPECT.store(0, Relaxed);
    TRAPS.fetch_add(1, Relaxed);
    LAST_SIG.store(sig as u32, Relaxed);
    let cands = &*std::ptr::addr_of!(CANDS);
    let mut hit = None;
    for c in cands {
        let b = (c.in_bounds)(sp);
        if c.id == expect {
            check!(b, "the trap of coroutine {expect} at sp {sp:#x} is not attributed to it");
            hit = Some(c);
        } else {
            check!(!b, "the trap of coroutine {expect} at sp {sp:#x} is also attributed to coroutine {}", c.id);
        }
    }
    let regs = (hit.expect("candidate").setup)();
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = regs;
        g[libc::REG_RIP as usize] = rip as _;
        g[libc::REG_RSP as usize] = rsp as _;
        g[libc::REG_RBP as usize] = rbp as _;
        g[libc::REG_RDI as usize] = rdi as _;
        g[libc::REG_RSI as usize] = rsi as _;
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = regs;
        g[libc::REG_EIP as usize] = eip as _;
        g[libc::REG_ESP as usize] = esp as _;
        g[libc::REG_EBP as usize] = ebp as _;
        g[libc::REG_ECX as usize] = ecx as _;
        g[libc::REG_EDX as usize] = edx as _;
    }
}
fn install() {
    unsafe {
        let len = 512 << 10;
        let m = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: m, ss_flags: 0, ss_size: len };
        check!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0, "harness: sigaltstack");
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

// ------------------------------------------------------------------ traps
const KINDS: u64 = 14;
const KIND_NAMES: [&str; KINDS as usize] = [
    "null write", "wild read", "illegal instruction", "division by zero", "breakpoint", "misaligned vector access", "jump to null",
    "stack overflow by recursion", "stack overflow by pushes", "garbage in every register", "unaligned stack pointer", "raised signal",
    "stack overflow by a large frame", "direct trap in a deep frame",
];
#[inline(never)]
fn recurse(x: usize) -> usize {
    let mut a = [x; 40];
    black_box(&mut a);
    let r = recurse(x + 1);
    black_box(&mut a);
    r + a[3]
}
#[inline(never)]
fn large_frames(x: usize) -> usize {
    let mut a = [x as u8; 20000];
    black_box(&mut a);
    let r = large_frames(x + 1);
    black_box(&mut a);
    r + a[3] as usize
}
unsafe fn trap(kind: u64, garbage: usize) {
    use std::arch::asm;
    match kind {
        0 => asm!("mov byte ptr [{0}], 1", in(reg) garbage & 0xfff),
        1 => asm!("mov {0}, [{0}]", inout(reg) 0x10usize => _),
        2 => asm!("ud2"),
        3 => asm!("xor edx, edx", "mov eax, 1", "xor ecx, ecx", "div ecx", out("eax") _, out("ecx") _, out("edx") _),
        4 => asm!("int3"),
        #[cfg(target_arch = "x86_64")]
        5 => asm!("mov rax, rsp", "or rax, 1", "movaps xmm0, [rax]", out("rax") _, out("xmm0") _),
        6 => {
            #[cfg(target_arch = "x86_64")]
            asm!("xor eax, eax", "call rax", out("rax") _);
            #[cfg(target_arch = "x86")]
            asm!("xor eax, eax", "call eax", out("eax") _);
        }
        7 => drop(black_box(recurse(garbage & 1))),
        8 => {
            #[cfg(target_arch = "x86_64")]
            asm!("2: push rax", "jmp 2b", options(noreturn));
            #[cfg(target_arch = "x86")]
            asm!("2: push eax", "jmp 2b", options(noreturn));
        }
        9 => {
            #[cfg(target_arch = "x86_64")]
            asm!(
                "mov rbx, rax", "mov rbp, rax", "mov rcx, rax", "mov rdx, rax", "mov rsi, rax", "mov rdi, rax", "mov r8, rax", "mov r9, rax",
                "mov r10, rax", "mov r11, rax", "mov r12, rax", "mov r13, rax", "mov r14, rax", "mov r15, rax",
                "movq xmm0, rax", "movq xmm15, rax", "add rax, rax", "ud2",
                in("rax") garbage, options(noreturn));
            #[cfg(target_arch = "x86")]
            asm!("mov ebx, eax", "mov ebp, eax", "mov ecx, eax", "mov edx, eax", "mov esi, eax", "mov edi, eax", "add eax, eax", "ud2",
                in("eax") garbage, options(noreturn));
        }
        10 => {
            #[cfg(target_arch = "x86_64")]
            asm!("sub rsp, {0}", "ud2", in(reg) 1 + garbage % 300, options(noreturn));
            #[cfg(target_arch = "x86")]
            asm!("sub esp, {0}", "ud2", in(reg) 1 + garbage % 300, options(noreturn));
        }
        11 => {
            libc::raise([libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP][garbage % 5]);
        }
        12 => drop(black_box(large_frames(garbage & 1))),
        _ => asm!("ud2"),
    }
}
#[inline(never)]
fn deep(n: usize, f: &mut dyn FnMut()) {
    let mut a = [n; 7];
    black_box(&mut a);
    if n == 0 {
        f()
    } else {
        deep(n - 1, f)
    }
    check!(black_box(&a).iter().all(|&x| x == n), "a local array was overwritten");
}

// -------------------------------------------------- results and captures
trait Res: Sized + 'static {
    fn make(id: u32) -> Self;
    fn ok(self, id: u32) -> bool;
}
impl Res for () {
    fn make(_: u32) {}
    fn ok(self, _: u32) -> bool {
        true
    }
}
impl Res for u8 {
    fn make(id: u32) -> u8 {
        id as u8
    }
    fn ok(self, id: u32) -> bool {
        self == id as u8
    }
}
impl Res for usize {
    fn make(id: u32) -> usize {
        !(id as usize)
    }
    fn ok(self, id: u32) -> bool {
        self == !(id as usize)
    }
}
impl Res for Tracked {
    fn make(id: u32) -> Self {
        Tracked::new(id)
    }
    fn ok(self, id: u32) -> bool {
        self.verify("result") == id
    }
}
impl Res for Option<Box<u64>> {
    fn make(id: u32) -> Self {
        Some(Box::new(id as u64))
    }
    fn ok(self, id: u32) -> bool {
        *self.unwrap() == id as u64
    }
}
impl<const N: usize> Res for [u64; N] {
    fn make(id: u32) -> Self {
        std::array::from_fn(|i| id as u64 * 77 + i as u64)
    }
    fn ok(self, id: u32) -> bool {
        (0..N).all(|i| self[i] == id as u64 * 77 + i as u64)
    }
}
#[repr(align(256))]
struct Big([u32; 70]);
impl Res for Big {
    fn make(id: u32) -> Self {
        Big([id; 70])
    }
    fn ok(self, id: u32) -> bool {
        let at = black_box(&self) as *const Self as usize;
        at % 256 == 0 && self.0 == [id; 70]
    }
}
/// What the handler function captures.
trait Capture: 'static {
    fn new(id: u32) -> Self;
    fn verify(&self, id: u32);
}
impl Capture for () {
    fn new(_: u32) {}
    fn verify(&self, _: u32) {}
}
macro_rules! caps { ($($n:ident $a:literal $len:literal;)*) => { $(
    #[repr(align($a))] struct $n([u8; $len]);
    impl Capture for $n {
        fn new(id: u32) -> Self { ledger::born(100_000 + id % 1000); $n(std::array::from_fn(|i| id as u8 ^ i as u8)) }
        fn verify(&self, id: u32) {
            let at = black_box(self) as *const Self as usize;
            check!(at % $a == 0, "captures of the handler function at {at:#x} violate their alignment {}", $a);
            for i in 0..$len { check!(self.0[i] == id as u8 ^ i as u8, "captures of the handler function damaged at byte {i} of {}", $len); }
        }
    }
    impl Drop for $n { fn drop(&mut self) { ledger::died(100_000 + CAPID.load(Relaxed) % 1000, "capture of the handler function"); } }
)* } }
static CAPID: AtomicU32 = AtomicU32::new(0);
caps!(C1 1 1; C7 1 7; C8 8 8; C24 8 24; C100 1 100; C16 16 48; C64 64 192; C256 256 512; C1024 1 1024; C1024A 1024 1024; C1008 1 1008; C1000 8 1000;);

// ---------------------------------------------------------------- scenario
#[derive(Clone, Copy, Debug)]
struct Cfg {
    kind: u64,
    garbage: usize,
    depth: usize,
    suspends: usize,
    /// what the handler function does: 0 returns, 1 panics, 2 uses the whole
    /// stack, 3 allocates, 4 calls on_stack, 5 runs a coroutine, 6 calls deep
    end: u64,
    /// where the trapping resume is made: 0 here, 1 inside another coroutine, 2
    /// inside on_stack, 3 deep
    from: u64,
    /// the earlier resumes are made in another coroutine
    early_elsewhere: bool,
    mine: u32,
}
static mut CFG: Cfg = Cfg { kind: 0, garbage: 0, depth: 0, suspends: 0, end: 0, from: 0, early_elsewhere: false, mine: 0 };
static ID: AtomicU32 = AtomicU32::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static REACHED: AtomicUsize = AtomicUsize::new(0);

/// Recurses until less than 4 KiB of the stack are left.
#[inline(never)]
fn use_up(n: usize) -> usize {
    let mut a = [n; 30];
    black_box(&mut a);
    let sp = sys::sp();
    let r = if sp < LIMIT.load(Relaxed) + sys::default_guard() + 4096 {
        REACHED.store(sp, Relaxed);
        n
    } else {
        use_up(n + 1)
    };
    check!(black_box(&a).iter().all(|&x| x == n), "the handler function's stack was overwritten");
    r
}
fn handler_closure<R: Res, C: Capture>() -> impl FnOnce() -> R + 'static {
    let cap = C::new(ID.load(Relaxed));
    move || {
        let cap = cap;
        let cfg = unsafe { CFG };
        let id = ID.load(Relaxed);
        let sp = abi::call_sp();
        check!(sp % 16 == 0, "the handler function was entered with a misaligned stack: {sp:#x} at a call");
        let (lo, hi) = (LIMIT.load(Relaxed), BASE.load(Relaxed));
        check!(sp > lo && sp < hi, "the handler function runs at {sp:#x}, outside of its coroutine's stack {lo:#x}..{hi:#x}");
        let room = sp - lo;
        // Unoptimised frames hold several copies of large values.
        check!(hi - sp < 16384 + 24 * (std::mem::size_of::<R>() + std::mem::size_of::<C>()), "the handler function was entered {} bytes below the base: the stack was not reset ({room} left)", hi - sp);
        cap.verify(id);
        match cfg.end {
            1 => {
                let _t = Tracked::new(90_000 + id % 1000);
                panic_any(id)
            }
            2 => {
                let n = use_up(0);
                check!(n > 0, "no stack");
            }
            3 => drop(black_box(vec![id; 1000])),
            4 => {
                let v = on_stack(DefaultStack::new(64 << 10).unwrap(), || id ^ 5);
                check!(v == id ^ 5, "on_stack in the handler function");
            }
            5 => {
                let mut c = Coroutine::<u32, u32, u32, _>::with_stack(DefaultStack::new(64 << 10).unwrap(), |y, i| y.suspend(i + 1) + 2);
                check!(c.resume(id) == CoroutineResult::Yield(id + 1) && c.resume(id) == CoroutineResult::Return(id + 2), "coroutine in the handler function");
            }
            6 => deep(20, &mut || drop(black_box(sys::sp()))),
            _ => (),
        }
        cap.verify(id);
        R::make(id)
    }
}
fn body<R: Res>(y: &Yielder<usize, usize>, first: usize) -> R {
    let cfg = unsafe { CFG };
    let mut v = first;
    let sp = sys::sp();
    check!(sp > LIMIT.load(Relaxed) && sp < BASE.load(Relaxed), "body runs outside of its stack");
    let mut run = || {
        for k in 0..cfg.suspends {
            check!(v == 40 + k, "input {k}: {v}");
            v = y.suspend(k);
        }
        EXPECT.store(cfg.mine, Relaxed);
        unsafe { trap(cfg.kind, cfg.garbage) };
        viol!("harness: trap {} did not happen", cfg.kind);
    };
    deep(cfg.depth, &mut run);
    unreachable!()
}
struct Sibling {
    co: Coroutine<u64, u64, u64, St>,
    n: u64,
}
impl Sibling {
    fn new(r: &mut Rng) -> Self {
        let k = r.next() >> 8;
        Sibling { co: Coroutine::with_stack(any_stack(r, 64 << 10), move |y, mut i| {
            let mut s = k;
            loop {
                s = s.wrapping_mul(31) ^ i;
                i = y.suspend(s);
                if i == u64::MAX {
                    return s;
                }
            }
        }), n: k }
    }
    fn step(&mut self, i: u64) {
        self.n = self.n.wrapping_mul(31) ^ i;
        check!(self.co.resume(i) == CoroutineResult::Yield(self.n), "a sibling coroutine was disturbed");
    }
    fn end(mut self) {
        self.step(77);
        check!(self.co.resume(u64::MAX) == CoroutineResult::Return(self.n), "a sibling coroutine was disturbed");
    }
}
fn regs(r: &mut Rng) -> [usize; NREG] {
    std::array::from_fn(|_| r.next() as usize)
}
fn one<R: Res, C: Capture>(stack: St, r: &mut Rng, st: &mut Stats) -> St {
    let id = r.us(60_000) as u32;
    ledger::reset();
    let kinds: Vec<u64> = (0..KINDS).filter(|&k| !(k == 5 && cfg!(target_arch = "x86"))).collect();
    let ends: &[u64] = if UNWIND { &[0, 0, 1, 1, 2, 3, 4, 5, 6] } else { &[0, 0, 2, 3, 4, 5, 6] };
    let cfg = Cfg {
        kind: *r.pick(&kinds),
        garbage: *r.pick(&[0, usize::MAX, 1usize << (usize::BITS - 1), r.0 as usize, sys::sp(), stack.base().get()]),
        depth: r.us(12),
        suspends: r.us(4),
        end: *r.pick(ends),
        from: r.below(4),
        early_elsewhere: r.chance(1, 3),
        mine: 1 + r.us(1000) as u32,
    };
    unsafe { CFG = cfg };
    ID.store(id, Relaxed);
    CAPID.store(id, Relaxed);
    LIMIT.store(stack.limit().get(), Relaxed);
    BASE.store(stack.base().get(), Relaxed);
    let mut sibs: Vec<Sibling> = (0..r.us(3)).map(|_| Sibling::new(r)).collect();
    for s in &mut sibs {
        s.step(1);
    }
    let mut co = Coroutine::<usize, usize, R, St>::with_stack(stack, body::<R>);
    let before_use = r.chance(1, 2).then(|| co.trap_handler());
    // Earlier resumes, possibly made by another coroutine
    let cp = &mut co as *mut Coroutine<usize, usize, R, St> as usize;
    let early = move |k: usize| unsafe {
        let co = &mut *(cp as *mut Coroutine<usize, usize, R, St>);
        match co.resume(40 + k) {
            CoroutineResult::Yield(v) => check!(v == k, "yield {k}: {v}"),
            _ => viol!("early return"),
        }
    };
    if cfg.early_elsewhere && cfg.suspends > 0 {
        let mut other = Coroutine::<(), (), (), _>::with_stack(any_stack(r, 64 << 10), move |_, _| {
            for k in 0..cfg.suspends {
                early(k);
            }
        });
        other.resume(());
        check!(other.done(), "other");
    } else {
        for k in 0..cfg.suspends {
            early(k);
        }
    }
    let h2 = co.trap_handler();
    let h: CoroutineTrapHandler<R> = before_use.unwrap_or_else(|| co.trap_handler());
    unsafe {
        let c = &mut *std::ptr::addr_of_mut!(CANDS);
        c.clear();
        c.push(Cand { id: cfg.mine, in_bounds: Box::new(move |p| h.stack_ptr_in_bounds(p)), setup: Box::new(move || h2.setup_trap_handler(handler_closure::<R, C>())) });
        for (i, s) in sibs.iter().enumerate() {
            let h = s.co.trap_handler();
            c.push(Cand { id: 5000 + i as u32, in_bounds: Box::new(move |p| h.stack_ptr_in_bounds(p)), setup: Box::new(|| viol!("wrong candidate")) });
        }
    }
    let before = TRAPS.load(Relaxed);
    let mut res: Option<std::thread::Result<CoroutineResult<usize, R>>> = None;
    let rv = regs(r);
    let mut trapping = || {
        let mut f = || {
            sys::scramble(id as usize);
            res = Some(if cfg.end == 1 {
                catch_unwind(AssertUnwindSafe(|| co.resume(40 + cfg.suspends)))
            } else {
                Ok(co.resume(40 + cfg.suspends))
            });
        };
        if let Some(d) = with_registers(rv, &mut f) {
            viol!("across a resume that ended in a trap: {d}");
        }
    };
    match cfg.from {
        1 => {
            // The trapping coroutine is a child of another one.
            let dynp: &mut dyn FnMut() = &mut trapping;
            let dynp: &'static mut dyn FnMut() = unsafe { std::mem::transmute(dynp) };
            let mut parent = Coroutine::<u32, u32, u32, _>::with_stack(any_stack(r, 96 << 10), move |y, i| {
                let j = y.suspend(i + 1);
                dynp();
                let k = y.suspend(j + 1);
                k + 1
            });
            check!(parent.resume(1) == CoroutineResult::Yield(2), "enclosing coroutine");
            check!(parent.resume(5) == CoroutineResult::Yield(6), "enclosing coroutine");
            check!(parent.resume(8) == CoroutineResult::Return(9), "enclosing coroutine disturbed by a trap in its child");
        }
        2 => {
            let v = on_stack(any_stack(r, 96 << 10), || {
                trapping();
                31
            });
            check!(v == 31, "on_stack disturbed by a trap");
        }
        3 => deep(15, &mut trapping),
        _ => trapping(),
    }
    check!(TRAPS.load(Relaxed) == before + 1, "{} traps instead of 1", TRAPS.load(Relaxed) - before);
    match res.expect("result") {
        Ok(CoroutineResult::Return(v)) => {
            check!(cfg.end != 1, "the handler function's panic was lost");
            check!(v.ok(id), "the resume did not report the handler function's result");
        }
        Ok(CoroutineResult::Yield(_)) => viol!("a trap completed as a yield"),
        Err(p) => {
            check!(*p.downcast::<u32>().unwrap_or_else(|_| viol!("other payload")) == id, "the panic's payload changed");
            check!(!std::thread::panicking(), "the thread is still panicking");
        }
    }
    if cfg.end == 2 {
        check!(REACHED.swap(0, Relaxed) != 0, "use_up");
        st.add("whole_stack_used", 1);
    }
    check!(co.done() && co.started(), "after a trap the coroutine reports done {} started {}", co.done(), co.started());
    if UNWIND && r.chance(1, 3) {
        check!(catch_unwind(AssertUnwindSafe(|| drop(co.resume(1)))).is_err(), "a trapped coroutine was resumed");
    }
    co.force_unwind();
    check!(co.done(), "done");
    ledger::assert_empty("the end of a trap recovery");
    for mut s in sibs {
        if r.chance(1, 2) {
            s.step(9);
        }
        s.end();
    }
    st.add(KIND_NAMES[cfg.kind as usize], 1);
    st.evals += 1;
    st.distinct(cfg.kind | cfg.end << 4 | cfg.from << 8 | (cfg.suspends as u64) << 12 | (cfg.depth as u64) << 16 | (std::mem::size_of::<C>() as u64) << 24 | (std::mem::size_of::<R>() as u64) << 36);
    st.sample(|| format!("{cfg:x?}, result size {} captures size {}", std::mem::size_of::<R>(), std::mem::size_of::<C>()));
    unsafe { (*std::ptr::addr_of_mut!(CANDS)).clear() };
    co.into_stack()
}
fn recover_case(case: u64, r: &mut Rng, st: &mut Stats) {
    type F = fn(St, &mut Rng, &mut Stats) -> St;
    macro_rules! t { ($($r:ty: $($c:ty)*;)*) => { &[ $( $( one::<$r, $c> as F, )* )* ] } }
    let tab: &[F] = t!(
        (): () C1 C8 C1024;
        u8: () C7 C16 C1000;
        usize: () C1 C7 C8 C24 C100 C16 C64 C256 C1024 C1024A C1008 C1000;
        Tracked: () C8 C64 C1024A;
        Option<Box<u64>>: C24 C1008;
        [u64; 1]: C24; [u64; 2]: () C7; [u64; 40]: C8 C256; [u64; 400]: C1 C1024A;
        Big: () C100 C1024A;
    );
    let size = 160 << 10;
    let mut s = any_stack(r, size + r.0 as usize % 30000);
    // Several traps in a row on the same stack, ordinary uses in between.
    for k in 0..1 + r.us(3) {
        let f = tab[(case as usize * 3 + k) % tab.len()];
        s = f(s, r, st);
        if r.chance(1, 2) {
            let mut c = Coroutine::<usize, usize, usize, _>::with_stack(s, |y, i| {
                let mut t = 0;
                deep(10, &mut || t = y.suspend(i));
                t
            });
            check!(c.resume(4) == CoroutineResult::Yield(4) && c.resume(6) == CoroutineResult::Return(6), "stack reuse after a trap");
            s = c.into_stack();
            st.add("reused", 1);
        }
    }
}

// ------------------------------------------------------------------ bounds
struct Odd {
    inner: OwnStack,
    lo: usize,
}
unsafe impl Stack for Odd {
    fn base(&self) -> StackPointer {
        self.inner.base()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.lo).unwrap()
    }
}
static PROBED: AtomicU64 = AtomicU64::new(0);
fn probe_bounds(h: &dyn Fn(usize) -> bool, lo: usize, hi: usize, r: &mut Rng, when: &str) {
    let mut pts = vec![lo, lo + 1, lo.wrapping_sub(1), hi, hi - 1, hi + 1, 0, 1, usize::MAX, usize::MAX / 2, lo ^ (1 << (usize::BITS - 1)), hi - 16, hi + 16, lo - 16, lo + 4096, lo - 4096, hi - 8, lo + 8, lo & 0xffff_ffff, hi >> 1];
    for _ in 0..30 {
        pts.push(lo + r.us(hi - lo));
        pts.push(hi + r.us(1 << 20));
        pts.push(lo - 1 - r.us(1 << 20));
        pts.push(r.next() as usize);
    }
    for p in pts {
        PROBED.fetch_add(1, Relaxed);
        let want = p >= lo && p < hi;
        check!(h(p) == want, "{when}: stack pointer {p:#x} is reported {} the stack {lo:#x}..{hi:#x}", if want { "outside of" } else { "inside" });
    }
}
static mut SEED: u64 = 0;
fn bounds_one<S: Stack + 'static>(stack: S, r: &mut Rng, all: &mut Vec<(usize, usize, Box<dyn Fn(usize) -> bool>)>, st: &mut Stats) -> S {
    let (lo, hi) = (stack.limit().get(), stack.base().get());
    let suspends = r.us(5);
    unsafe { SEED = r.next() };
    let mut co = Coroutine::<usize, usize, usize, S>::with_stack(stack, move |y, _| {
        let mut t = 0;
        let mut r = Rng::new(unsafe { SEED }, 1);
        for k in 0..suspends {
            t += y.suspend(sys::sp() + k * 0);
            let at = sys::sp();
            check!(at >= lo && at < hi, "body outside of its stack");
            let (p, q) = (lo, hi);
            let s = y.on_parent_stack(move || {
                let sp = sys::sp();
                check!(sp < p || sp >= q, "on_parent_stack runs on the coroutine's own stack");
                sp
            });
            black_box(s);
            let _ = r.next();
        }
        t
    });
    let h = co.trap_handler();
    let f = Box::new(move |p| h.stack_ptr_in_bounds(p));
    probe_bounds(&*f, lo, hi, r, "before the first resume");
    while !co.done() {
        if let CoroutineResult::Yield(sp) = co.resume(1) {
            check!(f(sp), "a stack pointer of the running coroutine is not attributed to it");
            let g = co.trap_handler();
            check!(g.stack_ptr_in_bounds(sp), "a stack pointer of the running coroutine is not attributed to it");
            check!(!f(sys::sp()), "a stack pointer of the resumer is attributed to the coroutine");
        }
        probe_bounds(&*f, lo, hi, r, "while suspended");
        let g = co.trap_handler();
        probe_bounds(&move |p| g.stack_ptr_in_bounds(p), lo, hi, r, "handler obtained after a resume");
    }
    probe_bounds(&*f, lo, hi, r, "after completion");
    let g = co.trap_handler();
    probe_bounds(&move |p| g.stack_ptr_in_bounds(p), lo, hi, r, "handler obtained after completion");
    all.push((lo, hi, f));
    st.add("bounds_handlers", 1);
    co.into_stack()
}
fn bounds_case(r: &mut Rng, st: &mut Stats) {
    st.evals += 1;
    let mut all = Vec::new();
    let mut keep_d = Vec::new();
    let mut keep_o = Vec::new();
    let mut keep_odd = Vec::new();
    for _ in 0..2 + r.us(4) {
        match r.below(4) {
            0 | 1 => keep_d.push(bounds_one(DefaultStack::new((48 << 10) + r.us(100_000)).unwrap(), r, &mut all, st)),
            2 => keep_o.push(bounds_one(OwnStack::new((48 << 10) + r.us(10000), 16 * r.us(200), 0), r, &mut all, st)),
            _ => {
                let inner = OwnStack::new(64 << 10, 16 * r.us(200), 0);
                // A limit that is not page aligned: the guard is larger.
                let lo = inner.limit - 16 * r.us(1000);
                keep_odd.push(bounds_one(Odd { inner, lo }, r, &mut all, st))
            }
        }
    }
    // Through a mutable reference
    let mut s = DefaultStack::new(64 << 10).unwrap();
    let (lo, hi) = (s.limit().get(), s.base().get());
    {
        let mut co = Coroutine::<(), (), (), &mut DefaultStack>::with_stack(&mut s, |y, _| y.suspend(()));
        let h = co.trap_handler();
        co.resume(());
        probe_bounds(&move |p| h.stack_ptr_in_bounds(p), lo, hi, r, "stack lent by reference");
        co.resume(());
    }
    // Attribution is unique among all stacks that are still alive.
    for (lo, hi, _) in &all {
        for p in [*lo, *hi - 1, lo + (hi - lo) / 2] {
            let n = all.iter().filter(|x| (x.2)(p)).count();
            check!(n == 1, "stack pointer {p:#x} is attributed to {n} stacks");
        }
    }
    st.distinct(vh::rng::hash(&all.iter().flat_map(|x| (x.1 - x.0).to_le_bytes()).collect::<Vec<u8>>()));
    st.sample(|| format!("stacks {:x?}", all.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()));
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    install();
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        match a.profile.as_str() {
            "bounds" => bounds_case(&mut r, &mut st),
            _ => recover_case(case, &mut r, &mut st),
        }
    }
    st.add("bounds_probes", PROBED.load(Relaxed));
    st.add("traps", TRAPS.load(Relaxed));
    st.finish()
}
