//! C28: no lock is held at any instruction of a switch.
//!
//! One thread is interrupted after every instruction of resumes, suspends,
//! completions, on_stack and on_parent_stack calls. While it stands still
//! there, a second thread has to get through switches of all kinds of its own.
//! Whatever the two threads share - a lock, a flag, a slot passed from hand to
//! hand - makes the second one wait for the first or see the first one's data.
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::*};
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::OwnStack;
use vh::{check, viol};

static REQ: AtomicU64 = AtomicU64::new(0);
static ACK: AtomicU64 = AtomicU64::new(0);
static ROUNDS: AtomicU64 = AtomicU64::new(0);
static TID: AtomicI32 = AtomicI32::new(0);
static mut CLOCK: libc::clockid_t = 0;
static mut STEPS: u64 = 0;
static mut EVERY: u64 = 1;
static mut IPS: [u8; 1 << 16] = [0; 1 << 16];

#[inline(always)]
fn tf_on() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    #[cfg(target_arch = "x86")]
    unsafe {
        std::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
    }
}
#[inline(always)]
fn tf_off() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
    }
    #[cfg(target_arch = "x86")]
    unsafe {
        std::arch::asm!("pushfd", "and dword ptr [esp], ~0x100", "popfd");
    }
}
fn now(c: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(c, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
/// The scheduling state of the second thread.
fn state() -> u8 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", TID.load(Relaxed))).unwrap_or_default();
    s.rsplit(')').next().and_then(|t| t.trim().bytes().next()).unwrap_or(b'?')
}
#[cold]
#[inline(never)]
fn wait_long(n: u64, ip: usize) {
    let (t0, c0) = unsafe { (now(libc::CLOCK_MONOTONIC), now(CLOCK)) };
    let mut asleep = 0;
    let mut cpu = c0;
    while ACK.load(Acquire) != n {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let c = unsafe { now(CLOCK) };
        let s = state();
        asleep = if s == b'S' && c == cpu { asleep + 1 } else { 0 };
        cpu = c;
        if asleep > 100 {
            viol!("while one thread stood still within a switch (at {ip:#x}), another one slept for two seconds instead of switching: it waits for a lock");
        }
        if c - c0 > 4.0 {
            viol!("while one thread stood still within a switch (at {ip:#x}), another one used {:.1} s of CPU time without getting through a switch of its own", c - c0);
        }
        if now(libc::CLOCK_MONOTONIC) - t0 > 200.0 {
            rep::inconclusive("the second thread is neither running nor waiting");
        }
    }
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &*(uc as *const libc::ucontext_t);
        #[cfg(target_arch = "x86_64")]
        let ip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        #[cfg(target_arch = "x86")]
        let ip = uc.uc_mcontext.gregs[libc::REG_EIP as usize] as usize;
        STEPS += 1;
        if STEPS % EVERY != 0 {
            return;
        }
        let h = ip.wrapping_mul(0x9e37_79b1) >> 8;
        #[allow(static_mut_refs)]
        {
            IPS[(h / 8) & 0xffff] |= 1 << (h & 7);
        }
        let n = REQ.load(Relaxed) + 1;
        REQ.store(n, Release);
        let mut spins = 0u32;
        while ACK.load(Acquire) != n {
            spins += 1;
            if spins > 200 {
                libc::sched_yield();
            }
            if spins > 20_000 {
                wait_long(n, ip);
                return;
            }
        }
    }
}

trait Val: Send + 'static {
    fn mk(x: u64) -> Self;
    fn val(&self) -> u64;
}
impl<const N: usize> Val for [u64; N] {
    fn mk(x: u64) -> Self {
        let mut a = [x; N];
        for (i, v) in a.iter_mut().enumerate() {
            *v = x + i as u64;
        }
        a
    }
    fn val(&self) -> u64 {
        for (i, v) in self.iter().enumerate() {
            check!(*v == self[0] + i as u64, "a value arrived damaged: word {i} of {} is {v:#x}", self.len());
        }
        self.first().copied().unwrap_or(0)
    }
}
impl Val for u32 {
    fn mk(x: u64) -> Self {
        x as u32
    }
    fn val(&self) -> u64 {
        *self as u64
    }
}
fn same<T: Val>(t: &T, x: u64) -> bool {
    T::mk(x).val() == t.val()
}

/// Switches of all kinds; `stepped`: interrupted after every instruction.
#[inline(never)]
fn switches<T: Val, U: Val>(s: &mut OwnStack, aux: &mut OwnStack, seed: u64, n: u64, stepped: bool) -> u64 {
    let on = move || {
        if stepped {
            tf_on()
        }
    };
    let off = move || {
        if stepped {
            tf_off()
        }
    };
    let auxp = aux as *mut OwnStack as usize;
    let mut co = Coroutine::<T, U, T, &mut OwnStack>::with_stack(s, move |y: &Yielder<T, U>, t: T| {
        off();
        check!(same(&t, seed), "wrong first input");
        let me = black_box(seed ^ 0x55);
        for i in 0..n {
            let aux = unsafe { &mut *(auxp as *mut OwnStack) };
            match (seed + i) % 3 {
                0 => {
                    on();
                    let v = on_stack(aux, || {
                        off();
                        let u = U::mk(me + i);
                        on();
                        u
                    });
                    off();
                    check!(same(&v, me + i), "on_stack returned a wrong value");
                }
                1 => {
                    on();
                    let v = y.on_parent_stack(move || {
                        off();
                        let u = U::mk(me + i);
                        on();
                        u
                    });
                    off();
                    check!(same(&v, me + i), "on_parent_stack returned a wrong value");
                }
                _ => {}
            }
            let u = U::mk(seed + 100 + i);
            on();
            let t = y.suspend(u);
            off();
            check!(same(&t, seed + i), "wrong input");
            check!(black_box(me) == seed ^ 0x55, "a local was changed");
        }
        let t = T::mk(seed + 7);
        on();
        t
    });
    let mut k = 0;
    loop {
        let t = T::mk(seed + if k == 0 { 0 } else { k - 1 });
        on();
        let r = co.resume(t);
        off();
        match r {
            CoroutineResult::Yield(u) => check!(same(&u, seed + 100 + k), "wrong yield"),
            CoroutineResult::Return(t) => {
                check!(same(&t, seed + 7), "wrong result");
                check!(k == n, "returned after {k} instead of {n} resumes");
                break;
            }
        }
        k += 1;
    }
    check!(co.done(), "not done");
    k + 1
}
struct Lend(usize, usize);
unsafe impl Stack for Lend {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.1).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.0).unwrap()
    }
}

fn second() {
    TID.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, Relaxed);
    let mut s = OwnStack::new(64 << 10, 0, 0);
    let mut aux = OwnStack::new(64 << 10, 0, 0);
    let third = OwnStack::new(64 << 10, 0, 0);
    // One that is suspended all the time.
    let mut long = Coroutine::<u64, u64, (), Lend>::with_stack(Lend(third.limit, third.base), |y, mut v| loop {
        v = y.suspend(v + 1);
    });
    let mut n = 0u64;
    loop {
        let mut spins = 0u32;
        let q = loop {
            let q = REQ.load(Acquire);
            if q == u64::MAX {
                unsafe { long.force_reset() };
                return;
            }
            if q != n {
                break q;
            }
            spins += 1;
            if spins > 200 {
                unsafe { libc::sched_yield() };
            }
        };
        n = q;
        check!(long.resume(n).as_yield() == Some(n + 1), "wrong yield of the second thread's coroutine");
        switches::<u32, [u64; 3]>(&mut s, &mut aux, 1 + n % 3, 2, false);
        ROUNDS.fetch_add(1, Relaxed);
        ACK.store(n, Release);
    }
}

fn main() {
    let a = rep::args();
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    let mut st = Stats::new();
    let mut main_stack = OwnStack::new(128 << 10, 0, 0);
    let mut s = OwnStack::new(64 << 10, 0, 0);
    let mut aux = OwnStack::new(64 << 10, 0, 0);
    let h = std::thread::spawn(second);
    while TID.load(Relaxed) == 0 {
        std::thread::yield_now();
    }
    unsafe {
        use std::os::unix::thread::JoinHandleExt;
        let mut c = 0;
        if libc::pthread_getcpuclockid(h.as_pthread_t() as _, &mut c) != 0 {
            rep::inconclusive("no CPU clock");
        }
        CLOCK = c;
    }
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        let (seed, n) = (1000 + r.below(1 << 30), 1 + r.below(4));
        let before = unsafe { STEPS };
        unsafe { EVERY = [1, 1, 1, 3][r.us(4)] };
        let other = r.chance(1, 3);
        let mut go = |s: &mut OwnStack, aux: &mut OwnStack| match case % 5 {
            0 => switches::<[u64; 1], [u64; 1]>(s, aux, seed, n, true),
            1 => switches::<[u64; 40], u32>(s, aux, seed, n, true),
            2 => switches::<u32, [u64; 2]>(s, aux, seed, n, true),
            3 => switches::<[u64; 0], [u64; 7]>(s, aux, seed, n, true),
            _ => switches::<u32, u32>(s, aux, seed, n, true),
        };
        let resumes = if other { on_stack(&mut main_stack, || go(&mut s, &mut aux)) } else { go(&mut s, &mut aux) };
        let steps = unsafe { STEPS } - before;
        st.evals += 1;
        st.add("stepped_resumes", resumes);
        st.add("instructions_stopped_at", steps);
        if steps > 20 {
            st.distinct(vh::rng::hash(&[steps, resumes, case % 5, other as u64].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()));
            st.sample(|| format!("case {case}: {resumes} resumes, stopped at {steps} instructions"));
        }
    }
    REQ.store(u64::MAX, Release);
    h.join().unwrap();
    st.add("rounds_of_the_second_thread", ROUNDS.load(Relaxed));
    #[allow(static_mut_refs)]
    st.add("distinct_instructions", unsafe { IPS.iter().map(|b| b.count_ones() as u64).sum() });
    st.finish()
}
