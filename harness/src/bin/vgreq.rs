//! C26: what a Valgrind would be told.
//!
//! Valgrind recognises a fixed sequence of instructions that do nothing
//! natively. The program runs under its own single-stepping (EFLAGS.TF): a
//! SIGTRAP handler looks at each instruction to be executed, recognises the
//! sequence as Valgrind does, and plays its part, answering registrations with
//! fresh identifiers. This works on i686 too, where no Valgrind runs here, and
//! observes each request together with the mapping calls around it.
use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine, CoroutineResult};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::{check, viol};

#[cfg(target_arch = "x86_64")]
mod arch {
    pub const SEQ: &[u8] = &[0x48, 0xc1, 0xc7, 3, 0x48, 0xc1, 0xc7, 13, 0x48, 0xc1, 0xc7, 61, 0x48, 0xc1, 0xc7, 51];
    pub const XCHG: &[u8] = &[0x48, 0x87, 0xdb];
    pub const IP: usize = libc::REG_RIP as usize;
    pub const ARGS: usize = libc::REG_RAX as usize;
    pub const RESULT: usize = libc::REG_RDX as usize;
}
#[cfg(target_arch = "x86")]
mod arch {
    pub const SEQ: &[u8] = &[0xc1, 0xc7, 3, 0xc1, 0xc7, 13, 0xc1, 0xc7, 29, 0xc1, 0xc7, 19];
    pub const XCHG: &[u8] = &[0x87, 0xdb];
    pub const IP: usize = libc::REG_EIP as usize;
    pub const ARGS: usize = libc::REG_EAX as usize;
    pub const RESULT: usize = libc::REG_EDX as usize;
}
const N: usize = 64;
/// Registrations: id, start, end
static mut REGS: [(usize, usize, usize); N] = [(0, 0, 0); N];
static mut NREGS: usize = 0;
static mut NEXT: usize = 1;
/// Where the sequence will end if it is executed without a break.
static mut SEEN: (usize, usize) = (0, 0);
static mut STEPS: u64 = 0;
static mut REQUESTS: u64 = 0;
static mut OTHER: u64 = 0;
static mut UNMAPS: u64 = 0;
/// Stacks whose owner is alive and not going away right now.
static mut OWNED: [(usize, usize); N] = [(0, 0); N];
static mut NOWNED: usize = 0;
static mut FAIL: u32 = 0;

fn regs() -> &'static mut [(usize, usize, usize)] {
    unsafe { &mut (&mut *std::ptr::addr_of_mut!(REGS))[..NREGS] }
}
fn owned() -> &'static mut [(usize, usize)] {
    unsafe { &mut (&mut *std::ptr::addr_of_mut!(OWNED))[..NOWNED] }
}
fn overlaps(a: (usize, usize), b: (usize, usize)) -> bool {
    a.0 < b.1 && b.0 < a.1
}
/// A request as Valgrind sees it.
unsafe fn request(args: *const usize, default: usize) -> usize {
    REQUESTS += 1;
    match *args & 0xffff_ffff {
        0x1501 => {
            let (a, b) = (*args.add(1), *args.add(2));
            if let Some(o) = owned().iter().find(|o| overlaps(**o, (a, b))) {
                viol!("[{a:#x}-{b:#x}] is registered although it contains memory of the live stack {o:x?}");
            }
            if NREGS == N {
                rep::inconclusive("too many registrations");
            }
            // Valgrind counts from 0 with the thread's stack; any number
            // identifies a stack.
            NEXT += 1 + NEXT % 3;
            REGS[NREGS] = (NEXT, a, b);
            NREGS += 1;
            NEXT
        }
        // Whether this is Valgrind at all.
        0x1001 => 1,
        0x1502 => {
            let id = *args.add(1);
            let Some(i) = regs().iter().position(|r| r.0 == id) else { viol!("stack {id} is deregistered, which is not registered") };
            let r = regs()[i];
            if let Some(o) = owned().iter().find(|o| overlaps(**o, (r.1, r.2))) {
                viol!("stack {id} is deregistered while the stack {o:x?} exists");
            }
            REGS[i] = REGS[NREGS - 1];
            NREGS -= 1;
            default
        }
        _ => {
            OTHER += 1;
            default
        }
    }
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
        STEPS += 1;
        let ip = g[arch::IP] as usize;
        if ip == 0 || SEEN.1 == 0 && *(ip as *const u8) != arch::SEQ[0] {
            return;
        }
        // The parts of the sequence must be executed one after the other.
        let l = arch::SEQ.len() / 4;
        let at = |off: usize, what: &[u8]| std::slice::from_raw_parts((ip + off) as *const u8, what.len()) == what;
        if SEEN.1 > 0 && ip == SEEN.0 {
            if SEEN.1 < 4 && at(0, &arch::SEQ[l * SEEN.1..l * SEEN.1 + l]) {
                SEEN = (ip + l, SEEN.1 + 1);
                return;
            }
            if SEEN.1 == 4 && at(0, arch::XCHG) {
                let d = g[arch::RESULT] as usize;
                g[arch::RESULT] = request(g[arch::ARGS] as usize as *const usize, d) as _;
            }
        }
        SEEN = if at(0, &arch::SEQ[..l]) { (ip + l, 1) } else { (0, 0) };
    }
}
#[inline(always)]
fn tf(on: bool) {
    unsafe {
        #[cfg(target_arch = "x86_64")]
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
        }
        #[cfg(target_arch = "x86")]
        if on {
            std::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
        } else {
            std::arch::asm!("pushfd", "and dword ptr [esp], ~0x100", "popfd");
        }
    }
}
/// Runs f instruction by instruction.
#[inline(never)]
fn stepped<R>(f: impl FnOnce() -> R) -> R {
    unsafe { SEEN = (0, 0) }
    tf(true);
    let r = f();
    tf(false);
    r
}

/// The executable's own definitions take precedence over the C library's.
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut libc::c_void, len: usize) -> i32 {
    let (a, b) = (addr as usize, addr as usize + len);
    UNMAPS += 1;
    for r in regs() {
        if overlaps((a, b), (r.1, r.2)) {
            viol!("the memory {a:#x}-{b:#x} is given back while stack {} is still registered for [{:#x}-{:#x}]", r.0, r.1, r.2);
        }
    }
    libc::syscall(libc::SYS_munmap, addr, len) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(addr: *mut libc::c_void, len: usize, prot: i32) -> i32 {
    if FAIL > 0 {
        FAIL -= 1;
        if FAIL == 0 {
            *libc::__errno_location() = libc::ENOMEM;
            return -1;
        }
    }
    libc::syscall(libc::SYS_mprotect, addr, len, prot) as i32
}

fn bounds(s: &impl Stack) -> (usize, usize) {
    (s.limit().get(), s.base().get())
}
/// Announces that a stack exists; checks what was registered for it.
fn born(b: (usize, usize)) {
    let hit = regs().iter().filter(|r| b.0 <= r.1 && r.1 <= b.0 + 4096 && (r.2 == b.1 || r.2 == b.1 - 1)).count();
    let all = regs().iter().filter(|r| overlaps(b, (r.1, r.2))).count();
    check!(hit == 1 && all == 1, "the new stack [{:#x}-{:#x}) is registered {hit} times, with {} other registrations of its memory: {:x?}", b.0, b.1, all - hit, regs());
    unsafe {
        OWNED[NOWNED] = b;
        NOWNED += 1;
    }
    consistent();
}
/// From here on it may go away.
fn dying(b: (usize, usize)) {
    let i = owned().iter().position(|o| *o == b).unwrap();
    unsafe {
        OWNED[i] = OWNED[NOWNED - 1];
        NOWNED -= 1;
    }
}
fn consistent() {
    check!(regs().len() == owned().len(), "{} stacks exist and {} are registered: {:x?}, {:x?}", owned().len(), regs().len(), owned(), regs());
}

type Co = Coroutine<u32, u32, u32>;
fn create(r: &mut Rng) -> Option<DefaultStack> {
    let n = match r.below(4) {
        0 => r.us(9000),
        1 => 4096 * (1 + r.us(64)),
        2 => 1 << (12 + r.us(12)),
        _ => 40_000 + r.us(500_000),
    };
    // Unwinding needs room.
    let n = if r.chance(1, 3) { n } else { n + 64_000 };
    unsafe { FAIL = if r.chance(1, 8) { 1 + r.us(2) as u32 } else { 0 } }
    let s = stepped(|| DefaultStack::new(n));
    unsafe { FAIL = 0 }
    match s {
        Ok(s) => {
            born(bounds(&s));
            Some(s)
        }
        Err(_) => {
            consistent();
            None
        }
    }
}
fn case(r: &mut Rng, st: &mut Stats) -> u64 {
    let mut free: Vec<DefaultStack> = vec![];
    let mut cos: Vec<(Co, (usize, usize))> = vec![];
    let mut h = 7u64;
    for _ in 0..6 + r.us(20) {
        let op = r.below(9);
        h = (h ^ op).wrapping_mul(0x100000001b3) ^ free.len() as u64 ^ (cos.len() as u64) << 9;
        match op {
            0 | 1 if free.len() + cos.len() < 20 => free.extend(create(r)),
            2 if !free.is_empty() => {
                let s = free.swap_remove(r.us(free.len()));
                let b = bounds(&s);
                dying(b);
                stepped(|| drop(s));
                st.add("stacks_destroyed", 1);
            }
            3 if !free.is_empty() => {
                // Given to on_stack, which releases it.
                let k = r.us(free.len());
                if bounds(&free[k]).1 - bounds(&free[k]).0 >= 40_000 {
                    let s = free.swap_remove(k);
                    let b = bounds(&s);
                    let (end, x) = (r.below(2), r.us(99));
                    if cfg!(feature = "unwind") && end == 0 {
                        dying(b);
                        // Not stepped (unwinding takes many instructions), so
                        // the request will go unseen.
                        unsafe {
                            let i = regs().iter().position(|g| overlaps(b, (g.1, g.2))).unwrap();
                            REGS[i] = REGS[NREGS - 1];
                            NREGS -= 1;
                        }
                        let p = catch_unwind(AssertUnwindSafe(|| on_stack(s, || std::panic::resume_unwind(Box::new(x)))));
                        check!(p.is_err(), "the panic is gone");
                    } else {
                        // It exists at least until the closure ends.
                        let y = stepped(|| {
                            on_stack(s, || {
                                dying(b);
                                black_box(x + 1)
                            })
                        });
                        check!(y == x + 1, "wrong result");
                        st.add("stacks_given_to_on_stack", 1);
                    }
                }
            }
            4 if !free.is_empty() => {
                let k = r.us(free.len());
                if bounds(&free[k]).1 - bounds(&free[k]).0 >= 40_000 {
                    let s = free.swap_remove(k);
                    let b = bounds(&s);
                    let n = r.below(4) as u32;
                    let c = stepped(|| {
                        Co::with_stack(s, move |y, mut v| {
                            for _ in 0..n {
                                v = y.suspend(v + 1);
                            }
                            v
                        })
                    });
                    cos.push((c, b));
                }
            }
            5 | 6 if !cos.is_empty() => {
                let k = r.us(cos.len());
                let (c, _) = &mut cos[k];
                if !c.done() {
                    let o = stepped(|| c.resume(5));
                    check!(matches!(o, CoroutineResult::Yield(6) | CoroutineResult::Return(5)), "wrong result");
                }
            }
            7 if !cos.is_empty() => {
                let (mut c, b) = cos.swap_remove(r.us(cos.len()));
                if c.started() && !c.done() {
                    if cfg!(feature = "unwind") && r.chance(1, 2) {
                        c.force_unwind();
                    } else {
                        unsafe { c.force_reset() }
                    }
                }
                dying(b);
                stepped(|| drop(c));
                st.add("coroutines_destroyed", 1);
            }
            8 if !cos.is_empty() => {
                let k = r.us(cos.len());
                if cos[k].0.done() {
                    let (c, b) = cos.swap_remove(k);
                    let s = stepped(|| c.into_stack());
                    check!(bounds(&s) == b, "another stack");
                    free.push(s);
                    st.add("stacks_extracted", 1);
                }
            }
            _ => {}
        }
        consistent();
    }
    for s in free {
        dying(bounds(&s));
        stepped(|| drop(s));
    }
    for (mut c, b) in cos {
        if c.started() && !c.done() {
            unsafe { c.force_reset() }
        }
        dying(b);
        stepped(|| drop(c));
    }
    consistent();
    check!(regs().is_empty(), "registrations are left: {:x?}", regs());
    h
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        let alt = vec![0u8; 1 << 17].leak();
        let ss = libc::stack_t { ss_sp: alt.as_mut_ptr() as _, ss_flags: 0, ss_size: alt.len() };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    let mut st = Stats::new();
    for k in a.cases() {
        rep::case(k, &a.profile);
        let mut r = Rng::new(a.seed, k);
        let h = case(&mut r, &mut st);
        st.evals += 1;
        st.distinct(h);
        st.sample(|| format!("case {k}"));
    }
    unsafe {
        st.add("instructions_stepped", STEPS);
        st.add("requests_recognised", REQUESTS);
        st.add("other_requests", OTHER);
        st.add("unmappings", UNMAPS);
    }
    drop(std::panic::take_hook());
    st.finish()
}
