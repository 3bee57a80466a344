//! C13, C14: default stacks. Profiles:
//! "size"     requested sizes, layout and guard, seen through /proc/self/maps
//! "overflow" real stack overflows, observed by a SIGSEGV handler
//! "conserve" create/use/destroy rounds, sentinels next to the mappings
//! "faults"   mmap/mprotect made to fail at every step of a creation
//! "threads"  concurrent creation and destruction
use corosensei::stack::{DefaultStack, Stack, MIN_STACK_SIZE, STACK_ALIGNMENT};
use corosensei::trap::TrapHandlerRegs;
use corosensei::{on_stack, Coroutine, CoroutineResult};
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::{check, sys, viol};

const UNWIND: bool = cfg!(feature = "unwind");

// ------------------------------------------------ interposed system calls
// The executable's own definitions take precedence over the C library's.
static ARMED: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
/// Number of the call that fails (0: none) and its error.
static FAIL_AT: AtomicU64 = AtomicU64::new(0);
static FAIL_ERRNO: AtomicI32 = AtomicI32::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);
const LOGN: usize = 64;
/// Live mappings made by the library while armed.
static LIVE: Mutex<([(usize, usize); LOGN], usize)> = Mutex::new(([(0, 0); LOGN], 0));

const NOREPLACE: i32 = 0x100000;
fn pages(len: usize) -> usize {
    len.wrapping_add(4095) & !4095
}
/// Whether the library mapped every byte of the range.
fn owned(lo: usize, hi: usize) -> bool {
    let l = LIVE.lock().unwrap();
    let mut at = lo;
    while at < hi {
        match l.0[..l.1].iter().find(|x| x.0 <= at && at < x.1) {
            Some(x) => at = x.1,
            None => return false,
        }
    }
    true
}
/// Takes the range out of the ledger.
fn forget(lo: usize, hi: usize) {
    let mut l = LIVE.lock().unwrap();
    let mut i = 0;
    while i < l.1 {
        let (a, b): (usize, usize) = l.0[i];
        if b <= lo || hi <= a {
            i += 1;
            continue;
        }
        l.1 -= 1;
        l.0[i] = l.0[l.1];
        for part in [(a, lo), (hi, b)] {
            let n = l.1;
            if part.0 < part.1 && n < LOGN {
                l.0[n] = part;
                l.1 += 1;
            }
        }
    }
}

fn fail() -> bool {
    let n = CALLS.fetch_add(1, SeqCst) + 1;
    if n == FAIL_AT.load(SeqCst) {
        FAILED.fetch_add(1, SeqCst);
        unsafe { *libc::__errno_location() = FAIL_ERRNO.load(SeqCst) };
        return true;
    }
    false
}
unsafe fn raw_mmap(addr: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    #[cfg(target_arch = "x86_64")]
    let r = libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off);
    #[cfg(target_arch = "x86")]
    let r = libc::syscall(libc::SYS_mmap2, addr, len, prot, flags, fd, (off >> 12) as i32);
    r as usize as *mut _
}
unsafe fn my_mmap(addr: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    let armed = ARMED.load(SeqCst);
    if armed && fail() {
        return libc::MAP_FAILED;
    }
    if armed && flags & libc::MAP_FIXED != 0 && flags & NOREPLACE == 0 {
        let (lo, hi) = (addr as usize, addr as usize + pages(len));
        check!(owned(lo, hi) || !is_mapped(lo, hi), "maps over {lo:#x}..{hi:#x}, which is not memory that the library mapped");
    }
    let p = raw_mmap(addr, len, prot, flags, fd, off);
    if armed && p != libc::MAP_FAILED {
        // Remapping parts of its own memory is the library's business.
        let (lo, hi) = (p as usize, p as usize + pages(len));
        forget(lo, hi);
        let mut l = LIVE.lock().unwrap();
        let n = l.1;
        if n < LOGN {
            l.0[n] = (lo, hi);
            l.1 += 1;
        }
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: libc::off_t) -> *mut libc::c_void {
    my_mmap(addr, len, prot, flags, fd, off as i64)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    my_mmap(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(addr: *mut libc::c_void, len: usize, prot: i32) -> i32 {
    if ARMED.load(SeqCst) && fail() {
        return -1;
    }
    libc::syscall(libc::SYS_mprotect, addr, len, prot) as i32
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut libc::c_void, len: usize) -> i32 {
    if ARMED.load(SeqCst) {
        let (lo, hi) = (addr as usize, addr as usize + pages(len));
        check!(owned(lo, hi), "unmaps {lo:#x}..{hi:#x}, which is not (any more) memory that the library mapped");
        forget(lo, hi);
    }
    libc::syscall(libc::SYS_munmap, addr, len) as i32
}
fn arm() {
    LIVE.lock().unwrap().1 = 0;
    CALLS.store(0, SeqCst);
    FAILED.store(0, SeqCst);
    ARMED.store(true, SeqCst);
}
fn disarm() {
    ARMED.store(false, SeqCst);
}

// ------------------------------------------------------------- observers
/// Address space in use: sum of all mapped bytes, without allocating.
fn mapped_bytes() -> u64 {
    let mut total = 0u64;
    let mut cur = [0u64; 2];
    unsafe {
        let fd = libc::open(b"/proc/self/maps\0".as_ptr() as _, libc::O_RDONLY);
        if fd < 0 {
            rep::inconclusive("cannot read /proc/self/maps");
        }
        let mut buf = [0u8; 4096];
        let mut field = 0;
        loop {
            let n = libc::read(fd, buf.as_mut_ptr() as _, buf.len());
            if n <= 0 {
                break;
            }
            for &c in &buf[..n as usize] {
                match c {
                    b'\n' => {
                        total += cur[1] - cur[0];
                        cur = [0; 2];
                        field = 0;
                    }
                    b'-' if field == 0 => field = 1,
                    b' ' if field == 1 => field = 2,
                    c if field < 2 => cur[field] = cur[field] << 4 | (c as char).to_digit(16).unwrap() as u64,
                    _ => (),
                }
            }
        }
        libc::close(fd);
    }
    total
}
static PIPE: [AtomicI32; 2] = [AtomicI32::new(-1), AtomicI32::new(-1)];
fn pipe() -> (i32, i32) {
    if PIPE[0].load(SeqCst) < 0 {
        let mut p = [0; 2];
        if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_NONBLOCK) } != 0 {
            rep::inconclusive("pipe");
        }
        PIPE[0].store(p[0], SeqCst);
        PIPE[1].store(p[1], SeqCst);
    }
    (PIPE[0].load(SeqCst), PIPE[1].load(SeqCst))
}
static PIPE_LOCK: Mutex<()> = Mutex::new(());
/// Whether the byte can be read, asked of the kernel.
fn readable(at: usize) -> bool {
    let _g = PIPE_LOCK.lock().unwrap();
    let (r, w) = pipe();
    unsafe {
        let ok = libc::write(w, at as _, 1) == 1;
        if ok {
            let mut b = [0u8];
            libc::read(r, b.as_mut_ptr() as _, 1);
        }
        ok
    }
}
fn writable(at: usize) -> bool {
    let _g = PIPE_LOCK.lock().unwrap();
    let (r, w) = pipe();
    unsafe {
        let b = [0u8];
        if libc::write(w, b.as_ptr() as _, 1) != 1 {
            rep::inconclusive("pipe write");
        }
        let ok = libc::read(r, at as _, 1) == 1;
        if !ok {
            let mut b = [0u8];
            libc::read(r, b.as_mut_ptr() as _, 1);
        }
        ok
    }
}
fn is_mapped(lo: usize, hi: usize) -> bool {
    // msync reports ENOMEM when any page of the range is not mapped.
    (lo..hi).step_by(4096).any(|p| unsafe { libc::msync(p as _, 1, libc::MS_ASYNC) } == 0)
}

/// Everything a stack must offer. Returns (limit, first usable, base).
fn inspect(s: &impl Stack, size: usize, deep: bool) -> (usize, usize, usize) {
    let (base, limit) = (s.base().get(), s.limit().get());
    let page = sys::page();
    check!(base % STACK_ALIGNMENT == 0 && limit % STACK_ALIGNMENT == 0, "size {size}: base {base:#x} or limit {limit:#x} is not aligned");
    check!(limit < base, "size {size}: limit {limit:#x} is not below the base {base:#x}");
    let want = size.max(MIN_STACK_SIZE);
    let mut lo = base;
    // Contiguous read-write memory directly below the base.
    let mut maps = sys::maps();
    maps.reverse();
    for m in &maps {
        if m.lo < lo && m.hi >= lo {
            check!(!m.perm.contains('x') || m.hi > base, "size {size}: the stack is executable");
            if m.perm.starts_with("rw") {
                lo = m.lo;
            } else {
                break;
            }
        }
    }
    check!(lo < base, "size {size}: the memory below the base is not readable and writable");
    check!(lo > limit && lo - limit >= page, "size {size}: usable memory reaches {lo:#x}, leaving a guard of {} bytes above the limit {limit:#x}", lo.wrapping_sub(limit) as isize);
    check!(base - lo >= want, "size {size}: only {} usable bytes below the base, {want} expected", base - lo);
    // The guard is inside the bounds, reserved and inaccessible.
    let mut at = limit;
    while at < lo {
        let m = maps.iter().find(|m| m.lo <= at && at < m.hi);
        match m {
            Some(m) => {
                check!(m.perm.starts_with("---"), "size {size}: guard memory at {at:#x} is {}", m.perm);
                at = m.hi;
            }
            None => viol!("size {size}: guard memory at {at:#x} is not reserved"),
        }
    }
    for at in [limit, limit + 1, limit + page - 1, lo - 1] {
        check!(!readable(at) && !writable(at), "size {size}: guard byte at {at:#x} is accessible");
    }
    for at in [base - 1, base - want, lo] {
        check!(readable(at) && writable(at), "size {size}: byte {} below the base is not accessible", base - at);
    }
    if deep {
        unsafe {
            for at in (lo..base).step_by(page) {
                (at as *mut usize).write_volatile(at);
                ((at + page - 8) as *mut usize).write_volatile(!at);
            }
            for at in (lo..base).step_by(page) {
                check!((at as *mut usize).read_volatile() == at && ((at + page - 8) as *mut usize).read_volatile() == !at, "size {size}: memory does not keep its contents");
            }
        }
    }
    (limit, lo, base)
}
fn a_size(r: &mut Rng) -> usize {
    let p = sys::page();
    match r.below(10) {
        // Beyond 32 bits: address space only
        #[cfg(target_pointer_width = "64")]
        9 if r.chance(1, 4) => [1 << 31, 1 << 32, (1 << 32) + 4096, 5 << 30, 8 << 30][r.us(5)] + r.us(3 * p) - p,
        0 => r.us(64),
        1 => (1 + r.us(64)) * p,
        2 => (1 + r.us(64)) * p + 1 + r.us(32),
        3 => (1 + r.us(64)) * p - 1 - r.us(32),
        4 => r.us(1 << 20),
        5 => r.us(1 << 16),
        6 => MIN_STACK_SIZE + r.us(5) - 2,
        7 => [65536, 1 << 20, (1 << 20) + 1, 4 << 20, 8191, 8192, 8193, 12288, 12289][r.us(9)],
        _ => (4 << 20) + r.us(28 << 20),
    }
}
fn work(n: usize) -> usize {
    let mut a = [n; 16];
    black_box(&mut a);
    if n == 0 { 0 } else { work(n - 1) + a[n % 16] }
}

fn size_case(r: &mut Rng, st: &mut Stats) {
    // Sizes that cannot exist
    if r.chance(1, 6) {
        let p = sys::page();
        let huge = match r.below(5) {
            0 => usize::MAX - r.us(4 * p),
            1 => usize::MAX - p * r.us(5),
            2 => isize::MAX as usize + r.us(3 * p),
            3 => (usize::MAX / 2 + 1).wrapping_sub(r.us(p)),
            _ => usize::MAX - (1 << 20) * r.us(64),
        };
        match catch_unwind(AssertUnwindSafe(|| DefaultStack::new(huge))) {
            Err(_) => st.add("impossible_size_panicked", 1),
            Ok(Err(_)) => st.add("impossible_size_error", 1),
            Ok(Ok(s)) => {
                // Possible on 32-bit targets only.
                let got = s.base().get() - s.limit().get();
                check!(got > huge, "a stack of {huge} bytes was created with {got} bytes");
                inspect(&s, huge, false);
                st.add("huge_size_available", 1);
            }
        }
        st.distinct(huge as u64);
        st.evals += 1;
        return;
    }
    let n = 1 + r.us(6);
    let mut live: Vec<(DefaultStack, (usize, usize, usize))> = Vec::new();
    for _ in 0..n {
        let dflt = r.chance(1, 12);
        let size = if dflt { 1 << 20 } else { a_size(r) };
        let s = if dflt {
            DefaultStack::default()
        } else {
            match DefaultStack::new(size) {
                Ok(s) => s,
                Err(_) if size > 1 << 30 => {
                    st.add("large_size_refused", 1);
                    continue;
                }
                Err(e) => viol!("creating a stack of {size} bytes failed: {e}"),
            }
        };
        if size > 1 << 30 {
            st.add("large_sizes", 1);
        }
        let b = inspect(&s, size, size < 1 << 30 && r.chance(1, 3));
        if r.chance(1, 40) {
            // Memory of this process alone: a forked child's writes stay in the child.
            let at = [b.1, b.2 - 8, b.1 + (b.2 - b.1) / 2 & !7];
            unsafe {
                for a in at {
                    (a as *mut usize).write_volatile(a);
                }
                let pid = libc::fork();
                if pid == 0 {
                    for a in at {
                        (a as *mut usize).write_volatile(0);
                    }
                    libc::_exit(0);
                }
                if pid > 0 {
                    let mut status = 0;
                    while libc::waitpid(pid, &mut status, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
                    for a in at {
                        check!((a as *mut usize).read_volatile() == a, "size {size}: another process changed the stack's memory at {a:#x}");
                    }
                    st.add("forked_writes", 1);
                }
            }
        }
        for (o, ob) in &live {
            check!(b.2 <= ob.0 || ob.2 <= b.0, "two live stacks overlap");
            check!((o.limit().get(), o.base().get()) == (ob.0, ob.2), "a stack's bounds changed");
        }
        st.distinct(size as u64);
        st.evals += 1;
        st.sample(|| format!("size {size}: limit {:#x} usable from {:#x} base {:#x}", b.0, b.1, b.2));
        st.add("stacks_inspected", 1);
        live.push((s, b));
        if live.len() > 2 && r.chance(1, 3) {
            let k = r.us(live.len());
            live.swap_remove(k);
        }
    }
    // A coroutine reports the same bounds through its stack and they still hold.
    let Some((s, b)) = live.pop() else { return };
    let mut co = Coroutine::<usize, (), usize, _>::with_stack(s, |_, i| work(i));
    if b.2 - b.1 >= 65536 {
        check!(co.resume(20).as_return().is_some(), "no result");
        let s = co.into_stack();
        check!((s.limit().get(), s.base().get()) == (b.0, b.2), "a stack's bounds changed");
        inspect(&s, 65536, false);
    }
}

// -------------------------------------------------------------- overflow
static FAULT_ADDR: AtomicUsize = AtomicUsize::new(0);
static FAULT_SP: AtomicUsize = AtomicUsize::new(0);
static FAULTS: AtomicU64 = AtomicU64::new(0);
static mut HANDLER: Option<corosensei::trap::CoroutineTrapHandler<usize>> = None;

unsafe extern "C" fn on_segv(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    FAULT_ADDR.store((*info).si_addr() as usize, SeqCst);
    let h = HANDLER;
    #[cfg(target_arch = "x86_64")]
    let sp = uc.uc_mcontext.gregs[libc::REG_RSP as usize] as usize;
    #[cfg(target_arch = "x86")]
    let sp = uc.uc_mcontext.gregs[libc::REG_ESP as usize] as usize;
    FAULT_SP.store(sp, SeqCst);
    FAULTS.fetch_add(1, SeqCst);
    let Some(h) = h else {
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        return;
    };
    if !h.stack_ptr_in_bounds(sp) {
        viol!("stack overflow: the stack pointer {sp:#x} at the fault (address {:#x}) is not within the coroutine's stack", FAULT_ADDR.load(SeqCst));
    }
    let n = FAULTS.load(SeqCst) as usize;
    let g = &mut uc.uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = h.setup_trap_handler(move || 5000 + n);
        g[libc::REG_RIP as usize] = rip as _;
        g[libc::REG_RSP as usize] = rsp as _;
        g[libc::REG_RBP as usize] = rbp as _;
        g[libc::REG_RDI as usize] = rdi as _;
        g[libc::REG_RSI as usize] = rsi as _;
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = h.setup_trap_handler(move || 5000 + n);
        g[libc::REG_EIP as usize] = eip as _;
        g[libc::REG_ESP as usize] = esp as _;
        g[libc::REG_EBP as usize] = ebp as _;
        g[libc::REG_ECX as usize] = ecx as _;
        g[libc::REG_EDX as usize] = edx as _;
    }
}
fn install() {
    static DONE: AtomicBool = AtomicBool::new(false);
    if DONE.swap(true, SeqCst) {
        return;
    }
    unsafe {
        let len = 256 << 10;
        let m = raw_mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: m, ss_flags: 0, ss_size: len };
        check!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0, "harness: sigaltstack");
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
    }
}
#[inline(never)]
fn recurse<const N: usize>(x: usize) -> usize {
    let mut a = [x as u8; N];
    black_box(&mut a);
    let r = recurse::<N>(x + 1);
    black_box(&mut a);
    r + a[N - 1] as usize
}
/// A leaf doing nothing but pushes.
unsafe fn push_forever() {
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("2: push 1", "jmp 2b", options(noreturn));
    #[cfg(target_arch = "x86")]
    std::arch::asm!("2: push 1", "jmp 2b", options(noreturn));
}
fn overflow_case(r: &mut Rng, st: &mut Stats) {
    install();
    // Several stacks, most likely adjacent to one another, with contents.
    let n = 3 + r.us(4);
    let mut stacks: Vec<Option<(DefaultStack, (usize, usize, usize))>> = Vec::new();
    for _ in 0..n {
        let size = [4096, 8192, 16384 + r.us(100), 65536, r.us(200_000), 5000][r.us(6)];
        let s = DefaultStack::new(size).unwrap_or_else(|e| viol!("stack creation failed: {e}"));
        let b = inspect(&s, size, false);
        for at in (b.1..b.2).step_by(8) {
            unsafe { (at as *mut u64).write_volatile(at as u64 ^ 0x55aa) };
        }
        stacks.push(Some((s, b)));
    }
    let adjacent = stacks.iter().flatten().filter(|x| stacks.iter().flatten().any(|y| y.1 .2 == x.1 .0)).count();
    st.add("stacks_with_a_neighbour_directly_below", adjacent as u64);
    let k = r.us(n);
    let (s, b) = stacks[k].take().unwrap();
    let kind = r.below(6);
    st.distinct(kind << 32 | (b.2 - b.0) as u64);
    st.evals += 1;
    st.sample(|| format!("overflow kind {kind} on a stack of {} bytes", b.2 - b.1));
    let before = FAULTS.load(SeqCst);
    let mut co = Coroutine::<usize, usize, usize, _>::with_stack(s, move |y, i| match kind {
        0 => recurse::<1>(i),
        1 => recurse::<100>(i),
        2 => recurse::<1000>(i),
        3 => recurse::<4000>(i),
        4 => {
            // From a frame above which the coroutine was suspended
            let v = y.suspend(1);
            recurse::<300>(v)
        }
        _ => unsafe {
            push_forever();
            0
        },
    });
    unsafe { HANDLER = Some(co.trap_handler()) };
    let mut res = co.resume(1);
    if kind == 4 {
        check!(res == CoroutineResult::Yield(1), "yield");
        res = co.resume(1);
    }
    unsafe { HANDLER = None };
    let faults = FAULTS.load(SeqCst);
    check!(faults == before + 1, "running out of stack raised {} faults", faults - before);
    let addr = FAULT_ADDR.load(SeqCst);
    check!(addr >= b.0 && addr < b.1, "running out of stack faulted at {addr:#x}, outside of the guard region {:#x}..{:#x}", b.0, b.1);
    check!(res == CoroutineResult::Return(5000 + faults as usize), "result of a recovered overflow");
    st.add("overflow_faults", 1);
    // Nobody else was touched.
    for (i, o) in stacks.iter().enumerate() {
        if let Some((_, b)) = o {
            for at in (b.1..b.2).step_by(8) {
                let v = unsafe { (at as *const u64).read_volatile() };
                check!(v == at as u64 ^ 0x55aa, "stack {i} was written at {at:#x} by the overflow of stack {k} ({:#x}..{:#x})", b.0, b.2);
            }
        }
    }
    // And the stack works again; its guard is still in place.
    let s = co.into_stack();
    check!((s.limit().get(), s.base().get()) == (b.0, b.2), "bounds changed");
    inspect(&s, b.2 - b.1, true);
    if b.2 - b.1 >= 16384 {
        let mut co = Coroutine::<usize, (), usize, _>::with_stack(s, |_, i| work(i));
        check!(co.resume(5).as_return().is_some(), "reuse after overflow");
    }
}

// -------------------------------------------------------------- conserve
struct Sentinel(usize);
impl Sentinel {
    fn at(lo: usize) -> Option<Sentinel> {
        unsafe {
            let p = raw_mmap(lo as _, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | NOREPLACE, -1, 0) as usize;
            if p == lo {
                std::ptr::write_bytes(lo as *mut u8, 0x5c, 4096);
                Some(Sentinel(lo))
            } else {
                if p != libc::MAP_FAILED as usize {
                    libc::syscall(libc::SYS_munmap, p, 4096);
                }
                None
            }
        }
    }
    fn check(&self) {
        check!(readable(self.0) && writable(self.0 + 1), "memory next to a destroyed stack was unmapped");
        for i in (2..4096).step_by(7) {
            check!(unsafe { ((self.0 + i) as *const u8).read_volatile() } == 0x5c, "memory next to a stack was overwritten");
        }
    }
}
impl Drop for Sentinel {
    fn drop(&mut self) {
        unsafe { libc::syscall(libc::SYS_munmap, self.0, 4096) };
    }
}
fn use_stack(s: DefaultStack, r: &mut Rng, st: &mut Stats) {
    let how = r.below(if UNWIND { 10 } else { 6 });
    st.add(["dropped_unused", "never_started", "completed", "into_stack", "by_reference", "on_stack", "suspended", "panicked", "on_stack_panicked", "unwound"][how as usize], 1);
    let big = s.base().get() - s.limit().get() > 100_000;
    match how {
        0 => drop(s),
        1 => drop(Coroutine::<(), (), (), _>::with_stack(s, |_, _| ())),
        _ if !big => drop(s),
        2 => {
            let mut co = Coroutine::<usize, usize, usize, _>::with_stack(s, |y, i| y.suspend(i) + work(3));
            co.resume(1);
            co.resume(1);
        }
        3 => {
            let mut co = Coroutine::<usize, usize, usize, _>::with_stack(s, |y, i| y.suspend(i) + work(3));
            co.resume(1);
            co.resume(1);
            use_stack(co.into_stack(), r, st);
        }
        4 => {
            let mut s = s;
            let mut co = Coroutine::<usize, usize, usize, _>::with_stack(&mut s, |y, i| y.suspend(i) + work(3));
            co.resume(1);
            co.resume(1);
            drop(co);
            use_stack(s, r, st);
        }
        5 => {
            on_stack(s, || work(4));
        }
        6 => {
            let mut co = Coroutine::<usize, usize, usize, _>::with_stack(s, |y, i| y.suspend(i) + work(3));
            co.resume(1);
        }
        7 => {
            let mut co = Coroutine::<usize, usize, usize, _>::with_stack(s, |y, i| {
                y.suspend(i);
                panic_any(3u8)
            });
            co.resume(1);
            check!(catch_unwind(AssertUnwindSafe(|| co.resume(1))).is_err(), "panic lost");
        }
        8 => {
            check!(catch_unwind(AssertUnwindSafe(|| on_stack(s, || -> () { panic_any(3u8) }))).is_err(), "panic lost");
        }
        _ => {
            let mut co = Coroutine::<usize, usize, usize, _>::with_stack(s, |y, i| y.suspend(i) + work(3));
            co.resume(1);
            co.force_unwind();
            drop(co.into_stack());
        }
    }
}
/// Runs `f` in a destructor, while its thread is unwinding.
fn while_panicking(f: impl FnOnce()) {
    struct D<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for D<F> {
        fn drop(&mut self) {
            check!(std::thread::panicking(), "harness: not panicking");
            self.0.take().unwrap()()
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _d = D(Some(f));
        panic_any(7u64)
    }));
    check!(r.is_err(), "panic lost");
}
/// Runs `f` while its thread is exiting, in a thread-local destructor.
fn at_thread_exit(f: impl FnOnce() + Send + 'static) {
    struct D(Option<Box<dyn FnOnce()>>);
    impl Drop for D {
        fn drop(&mut self) {
            self.0.take().unwrap()()
        }
    }
    std::thread_local!(static T: std::cell::RefCell<Option<D>> = const { std::cell::RefCell::new(None) });
    std::thread::spawn(move || T.with(|t| *t.borrow_mut() = Some(D(Some(Box::new(f)))))).join().unwrap();
}
fn conserve_case(r: &mut Rng, st: &mut Stats) {
    st.evals += 1;
    // Exact release next to foreign memory
    let size = a_size(r).max(1);
    let s = DefaultStack::new(size).unwrap();
    let b = inspect(&s, size, false);
    let above = Sentinel::at(b.2);
    let below = Sentinel::at(b.0 - 4096);
    st.add("sentinels_adjacent", above.is_some() as u64 + below.is_some() as u64);
    match r.below(4) {
        0 if UNWIND => {
            st.add("while_panicking", 1);
            while_panicking(|| use_stack(s, r, st))
        }
        1 => {
            st.add("at_thread_exit", 1);
            let mut r2 = r.clone();
            at_thread_exit(move || use_stack(s, &mut r2, &mut Stats::new()))
        }
        _ => use_stack(s, r, st),
    }
    for x in [&above, &below] {
        if let Some(x) = x {
            x.check();
        }
    }
    check!(!is_mapped(b.0, b.2), "a destroyed stack of size {size} ({:#x}..{:#x}) is still (partly) mapped", b.0, b.2);
    drop((above, below));
    // The same with every mapping call watched
    let s2size = a_size(r);
    arm();
    let s = DefaultStack::new(s2size).unwrap();
    let own = (s.limit().get(), s.base().get());
    drop(s);
    disarm();
    let l = LIVE.lock().unwrap();
    check!(l.1 == 0, "stack {own:#x?} of size {s2size}: mapping {:#x?} was not released", l.0[0]);
    drop(l);
    // Rounds do not grow the process
    let mut sizes = [0usize; 4];
    for x in &mut sizes {
        *x = a_size(r).min(4 << 20);
    }
    let mut r2 = r.clone();
    let mut scratch = Stats::new();
    let mut rounds = |r: &mut Rng, n: usize| {
        for i in 0..n {
            let s = DefaultStack::new(sizes[i % 4]).unwrap_or_else(|e| viol!("round {i}: {e}"));
            if UNWIND && r.chance(1, 6) {
                while_panicking(|| use_stack(s, r, &mut scratch));
            } else {
                use_stack(s, r, &mut scratch);
            }
        }
    };
    rounds(&mut r2, 40);
    let before = mapped_bytes();
    rounds(r, 40);
    let after = mapped_bytes();
    // Heap growth is bounded by something small; one leaked guard page per
    // round would be 160 KiB.
    check!(after < before + 100_000, "40 rounds of creating and destroying stacks of sizes {sizes:?} grew the address space from {before} to {after}");
    check!(before < after + (64 << 20), "40 rounds unmapped {} bytes that were not theirs", before - after);
    st.distinct(vh::rng::hash(&sizes.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()));
    st.sample(|| format!("sizes {sizes:?}: {before} -> {after} bytes mapped"));
    st.add("rounds", 80);
}

// ---------------------------------------------------------------- faults
struct Cap(&'static AtomicU64);
static CAPS: AtomicU64 = AtomicU64::new(0);
impl Drop for Cap {
    fn drop(&mut self) {
        self.0.fetch_add(1, SeqCst);
    }
}
fn fault_case(r: &mut Rng, st: &mut Stats) {
    let size = a_size(r);
    // How many calls does a creation make?
    arm();
    let s = DefaultStack::new(size).unwrap();
    let n = CALLS.load(SeqCst);
    drop(s);
    disarm();
    st.add("creation_steps", n);
    let errnos = [libc::ENOMEM, libc::EACCES, libc::EAGAIN, libc::EINVAL];
    for k in 1..=n {
        let e = errnos[r.us(4)];
        FAIL_ERRNO.store(e, SeqCst);
        FAIL_AT.store(k, SeqCst);
        let way = r.below(3);
        let before = mapped_bytes();
        CAPS.store(0, SeqCst);
        let cap = Cap(&CAPS);
        arm();
        let res: Result<Option<std::io::Error>, ()> = match way {
            0 => Ok(match DefaultStack::new(size) {
                Err(e) => Some(e),
                Ok(_) => None,
            }),
            1 => match catch_unwind(|| drop(DefaultStack::default())) {
                Ok(_) => Ok(None),
                Err(_) => Err(()),
            },
            _ => match catch_unwind(AssertUnwindSafe(move || {
                drop(Coroutine::<(), (), ()>::new(move |_, _| {
                    let _c = &cap;
                }))
            })) {
                Ok(_) => Ok(None),
                Err(_) => Err(()),
            },
        };
        disarm();
        FAIL_AT.store(0, SeqCst);
        if FAILED.load(SeqCst) == 0 {
            // Creation took another path this time (nothing was refused).
            continue;
        }
        st.add("faults_injected", 1);
        st.evals += 1;
        st.distinct(k << 40 | (e as u64) << 32 | way << 60 | size as u64 >> 12);
        st.sample(|| format!("size {size}: step {k} of {n} refused with errno {e}, way {way}"));
        match (&res, way) {
            (Ok(Some(err)), 0) => check!(err.raw_os_error() == Some(e), "step {k} refused with errno {e}, but the error returned is {err:?}"),
            (Err(()), 1 | 2) => (),
            _ => viol!("step {k} of creating a stack was refused by the system, but the creation went on"),
        }
        if way == 2 {
            check!(CAPS.load(SeqCst) == 1, "captured object dropped {} times after a failed creation", CAPS.load(SeqCst));
        }
        let l = LIVE.lock().unwrap();
        check!(l.1 == 0, "a creation that failed at step {k} leaked mapping {:#x?}", l.0[0]);
        drop(l);
        let after = mapped_bytes();
        check!(after < before + size.max(4096) as u64 / 2 + 70_000, "a creation that failed at step {k} leaked {} bytes", after - before);
    }
    // The system itself refuses: address space limit
    if r.chance(1, 20) {
        unsafe {
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_AS, &mut old);
            let lim = libc::rlimit { rlim_cur: (mapped_bytes() + (8 << 20)) as _, rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let before = mapped_bytes();
            let x = DefaultStack::new(64 << 20);
            let after = mapped_bytes();
            libc::setrlimit(libc::RLIMIT_AS, &old);
            match x {
                Err(e) => check!(e.raw_os_error() == Some(libc::ENOMEM), "error {e:?} instead of ENOMEM"),
                Ok(_) => viol!("creating a stack beyond the address space limit succeeded"),
            }
            check!(after < before + (1 << 20), "refused creation leaked memory");
            st.add("address_space_limit", 1);
        }
    }
}

// --------------------------------------------------------------- threads
fn threads_case(seed: u64, st: &mut Stats) {
    static REG: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
    static NSTACKS: AtomicU64 = AtomicU64::new(0);
    st.evals += 1;
    let before = NSTACKS.load(SeqCst);
    let hs: Vec<_> = (0..8)
        .map(|t| {
            std::thread::spawn(move || {
                let mut r = Rng::new(seed, t);
                let mut mine: Vec<(DefaultStack, usize)> = Vec::new();
                for _ in 0..60 {
                    if mine.len() > 4 || (!mine.is_empty() && r.chance(1, 2)) {
                        let (s, tag) = mine.swap_remove(r.us(mine.len()));
                        let (lo, hi) = (s.limit().get(), s.base().get());
                        for at in [lo + sys::default_guard(), hi - 8, hi - 4096] {
                            let v = unsafe { (at as *const usize).read_volatile() };
                            check!(v == tag, "memory of a live stack was changed by another thread");
                        }
                        check!(!readable(lo), "guard of a live stack became accessible");
                        let mut reg = REG.lock().unwrap();
                        let i = reg.iter().position(|x| *x == (lo, hi)).unwrap();
                        reg.swap_remove(i);
                        drop(reg);
                        drop(s);
                    } else {
                        let s = DefaultStack::new(r.us(100_000)).unwrap_or_else(|e| viol!("{e}"));
                        let (lo, hi) = (s.limit().get(), s.base().get());
                        let mut reg = REG.lock().unwrap();
                        for x in reg.iter() {
                            check!(hi <= x.0 || x.1 <= lo, "stacks of two threads overlap");
                        }
                        reg.push((lo, hi));
                        drop(reg);
                        let tag = r.next() as usize;
                        for at in [lo + sys::default_guard(), hi - 8, hi - 4096] {
                            unsafe { (at as *mut usize).write_volatile(tag) };
                        }
                        check!(!readable(lo), "guard accessible");
                        NSTACKS.fetch_add(1, SeqCst);
                        if hi - lo > 70_000 && r.chance(1, 3) {
                            let mut co = Coroutine::<usize, usize, usize, _>::with_stack(s, |y, i| y.suspend(i) + work(3));
                            co.resume(1);
                            co.resume(1);
                            let s = co.into_stack();
                            for at in [lo + sys::default_guard(), hi - 8, hi - 4096] {
                                unsafe { (at as *mut usize).write_volatile(tag) };
                            }
                            mine.push((s, tag));
                        } else {
                            mine.push((s, tag));
                        }
                    }
                }
                let mut reg = REG.lock().unwrap();
                for (s, _) in &mine {
                    let p = (s.limit().get(), s.base().get());
                    let i = reg.iter().position(|x| *x == p).unwrap();
                    reg.swap_remove(i);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    st.distinct(seed);
    st.add("stacks_on_threads", NSTACKS.load(SeqCst) - before);
    st.sample(|| "8 threads, 60 operations each".to_string());
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        match a.profile.as_str() {
            "overflow" => overflow_case(&mut r, &mut st),
            "conserve" => conserve_case(&mut r, &mut st),
            "faults" => fault_case(&mut r, &mut st),
            "threads" => threads_case(r.next(), &mut st),
            _ => size_case(&mut r, &mut st),
        }
    }
    st.finish()
}
