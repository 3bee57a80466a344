//! Operating system helpers.
use corosensei::stack::{Stack, StackPointer};
use std::sync::atomic::{AtomicU32, Ordering};

pub fn page() -> usize {
    unsafe { libc::sysconf(libc::_SC_PAGESIZE) as usize }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Map {
    pub lo: usize,
    pub hi: usize,
    pub perm: String,
    pub name: String,
}
pub fn maps() -> Vec<Map> {
    let s = std::fs::read_to_string("/proc/self/maps").unwrap();
    s.lines()
        .map(|l| {
            let mut f = l.split_whitespace();
            let (lo, hi) = f.next().unwrap().split_once('-').unwrap();
            let perm = f.next().unwrap().to_string();
            let name = f.nth(3).unwrap_or("").to_string();
            Map {
                lo: usize::from_str_radix(lo, 16).unwrap(),
                // i686 processes may have a mapping ending at 4 GiB.
                hi: u64::from_str_radix(hi, 16).unwrap().min(usize::MAX as u64) as usize,
                perm,
                name,
            }
        })
        .collect()
}

/// How much of a default stack, from its limit on, is guard.
pub fn default_guard() -> usize {
    static LEN: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *LEN.get_or_init(|| {
        let s = corosensei::stack::DefaultStack::new(1 << 16).unwrap_or_else(|e| crate::rep::inconclusive(&e.to_string()));
        let (limit, base) = (s.limit().get(), s.base().get());
        let low = maps().iter().filter(|m| m.perm.starts_with("rw") && m.lo > limit && m.lo < base).map(|m| m.lo).min();
        low.map_or(page(), |lo| lo - limit)
    })
}

/// A stack made by hand. Layout, from the lowest address: a wide inaccessible
/// zone, the guard page (where `limit` points), the usable memory, the base,
/// `above` canary bytes, another inaccessible page.
pub struct OwnStack {
    pub map: usize,
    pub len: usize,
    /// lowest address of the guard page
    pub limit: usize,
    pub base: usize,
    /// end of the canary area above the base
    pub top: usize,
    pub drops: Option<&'static AtomicU32>,
}
const WILD: usize = 1 << 17;
unsafe impl Send for OwnStack {}
unsafe impl Sync for OwnStack {}
impl OwnStack {
    /// At least `usable` bytes below the base; the base is 16-aligned and
    /// `above` (a multiple of 16) bytes short of a page boundary.
    pub fn new(usable: usize, above: usize, hint: usize) -> Self {
        assert!(above % 16 == 0);
        let p = page();
        let rw = (usable + above + p - 1) / p * p;
        let len = WILD + p + rw + p;
        unsafe {
            let m = libc::mmap(hint as _, len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            if m == libc::MAP_FAILED {
                crate::rep::inconclusive("mmap failed in the harness");
            }
            let m = m as usize;
            let lo = m + WILD + p;
            assert_eq!(libc::mprotect(lo as _, rw, libc::PROT_READ | libc::PROT_WRITE), 0);
            let s = OwnStack { map: m, len, limit: m + WILD, base: lo + rw - above, top: lo + rw, drops: None };
            for i in s.base..s.top {
                *(i as *mut u8) = canary(i);
            }
            s
        }
    }
    pub fn usable(&self) -> usize {
        self.base - self.limit - page()
    }
    /// Fills the whole usable memory (the stack must be idle).
    pub fn fill(&self, b: u8) {
        unsafe { std::ptr::write_bytes((self.limit + page()) as *mut u8, b, self.usable()) }
    }
    /// Number of bytes below the base down to the lowest byte not equal to b.
    pub fn touched(&self, b: u8) -> usize {
        let lo = self.limit + page();
        let w = usize::from_ne_bytes([b; std::mem::size_of::<usize>()]);
        let mut a = lo;
        while a < self.base && unsafe { (a as *const usize).read_volatile() } == w {
            a += std::mem::size_of::<usize>();
        }
        while a < self.base {
            if unsafe { (a as *const u8).read_volatile() } != b {
                return self.base - a;
            }
            a += 1;
        }
        0
    }
    pub fn check(&self) {
        for i in self.base..self.top {
            let v = unsafe { (i as *const u8).read_volatile() };
            crate::check!(v == canary(i), "memory {} byte(s) above the base of a stack was overwritten with {v:#x}", i - self.base);
        }
    }
}
fn canary(a: usize) -> u8 {
    (a as u8).wrapping_mul(31) ^ 0xa5
}
impl Drop for OwnStack {
    fn drop(&mut self) {
        self.check();
        if let Some(d) = self.drops {
            d.fetch_add(1, Ordering::Relaxed);
        }
        unsafe {
            libc::munmap(self.map as _, self.len);
        }
    }
}
unsafe impl Stack for OwnStack {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

/// Bounds (lowest usable address, end) of the calling thread's own stack.
pub fn thread_stack() -> (usize, usize) {
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        assert_eq!(libc::pthread_getattr_np(libc::pthread_self(), &mut attr), 0);
        let mut addr = std::ptr::null_mut();
        let mut size = 0;
        assert_eq!(libc::pthread_attr_getstack(&attr, &mut addr, &mut size), 0);
        libc::pthread_attr_destroy(&mut attr);
        (addr as usize, addr as usize + size)
    }
}

#[inline(always)]
pub fn sp() -> usize {
    let r: usize;
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("mov {}, rsp", out(reg) r, options(nomem, nostack, preserves_flags));
    }
    #[cfg(target_arch = "x86")]
    unsafe {
        std::arch::asm!("mov {}, esp", out(reg) r, options(nomem, nostack, preserves_flags));
    }
    r
}

/// Overwrites every register a callee may clobber or must preserve (declared
/// to the compiler, so it saves what it needs).
#[inline(always)]
pub fn scramble(x: usize) {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!(
            "mov r12, r8", "lea r13, [r8+1]", "lea r14, [r8+2]", "lea r15, [r8+3]",
            "mov rax, r8", "mov rcx, r8", "mov rdx, r8", "mov rsi, r8", "mov rdi, r8",
            "mov r9, r8", "mov r10, r8", "mov r11, r8",
            "movq xmm0, r8", "movq xmm1, r8", "movq xmm2, r8", "movq xmm3, r8", "movq xmm4, r8", "movq xmm5, r8", "movq xmm6, r8", "movq xmm7, r8",
            "movq xmm8, r8", "movq xmm9, r8", "movq xmm10, r8", "movq xmm11, r8", "movq xmm12, r8", "movq xmm13, r8", "movq xmm14, r8", "movq xmm15, r8",
            in("r8") x,
            out("r12") _, out("r13") _, out("r14") _, out("r15") _,
            clobber_abi("sysv64"), options(nomem, nostack));
        let _ = x;
    }
    #[cfg(target_arch = "x86")]
    unsafe {
        std::arch::asm!(
            "mov ebx, eax", "mov edi, eax", "mov ecx, eax", "mov edx, eax",
            "movd xmm0, eax", "movd xmm1, eax", "movd xmm2, eax", "movd xmm3, eax", "movd xmm4, eax", "movd xmm5, eax", "movd xmm6, eax", "movd xmm7, eax",
            inout("eax") x => _, out("ebx") _, out("edi") _,
            clobber_abi("C"), options(nomem, nostack));
    }
}
