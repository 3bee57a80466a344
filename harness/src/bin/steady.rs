//! C28: steady-state switching needs no heap, no system call, and a constant
//! amount of stack.
//!
//! Each case runs in a child process that sets everything up, then installs a
//! seccomp filter that traps every system call, and performs a long loop of
//! first resumes, resumes, suspends, completions, on_stack and on_parent_stack
//! calls. A counting allocator watches the heap. Stack pointers at the
//! suspension points and the high-water marks of every stack, including the
//! one the resumer runs on, must not move after the first round.
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::{self, OwnStack};
use vh::{check, viol};

static ALLOCS: AtomicU64 = AtomicU64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ALLOCS.fetch_add(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Results passed to the parent through shared memory.
#[repr(C)]
struct Shared {
    msg: [u8; 1024],
    done: u64,
    resumes: u64,
    on_stacks: u64,
    on_parents: u64,
    finished: u64,
    hw: u64,
    filtered: u64,
}
static mut SH: *mut Shared = std::ptr::null_mut();
fn say(args: std::fmt::Arguments) -> ! {
    use std::io::Write;
    unsafe {
        let m = &mut (*SH).msg;
        let mut c = std::io::Cursor::new(&mut m[..1023]);
        let _ = c.write_fmt(args);
        libc::syscall(libc::SYS_exit_group, 10);
    }
    loop {}
}
macro_rules! must { ($c:expr, $($t:tt)*) => { if !($c) { say(format_args!($($t)*)) } } }

extern "C" fn on_sigsys(_: i32, si: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    // si_syscall follows si_call_addr
    let nr = unsafe {
        let p = si as *const u8;
        #[cfg(target_pointer_width = "64")]
        let off = 24;
        #[cfg(target_pointer_width = "32")]
        let off = 16;
        *(p.add(off) as *const i32)
    };
    say(format_args!("system call {nr} was made during switching"));
}

/// Traps every system call except exit_group and rt_sigreturn.
unsafe fn filter() -> bool {
    #[repr(C)]
    struct Insn {
        code: u16,
        jt: u8,
        jf: u8,
        k: u32,
    }
    #[repr(C)]
    struct Prog {
        len: u16,
        p: *const Insn,
    }
    let ld = 0x20;
    let jeq = 0x15;
    let ret = 0x06;
    let prog = [
        Insn { code: ld, jt: 0, jf: 0, k: 0 },
        Insn { code: jeq, jt: 2, jf: 0, k: libc::SYS_exit_group as u32 },
        Insn { code: jeq, jt: 1, jf: 0, k: libc::SYS_rt_sigreturn as u32 },
        Insn { code: ret, jt: 0, jf: 0, k: 0x0003_0000 },
        Insn { code: ret, jt: 0, jf: 0, k: 0x7fff_0000 },
    ];
    let p = Prog { len: prog.len() as u16, p: prog.as_ptr() };
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_sigsys as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO;
    libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
    libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const Prog, 0, 0) == 0
}

#[derive(Clone, Copy)]
struct Ref<'a>(&'a OwnStack);
unsafe impl Stack for Ref<'_> {
    fn base(&self) -> StackPointer {
        self.0.base()
    }
    fn limit(&self) -> StackPointer {
        self.0.limit()
    }
}

trait Val: 'static {
    fn mk(x: u64) -> Self;
    fn val(&self) -> u64;
}
impl Val for u64 {
    fn mk(x: u64) -> Self {
        x
    }
    fn val(&self) -> u64 {
        *self
    }
}
impl Val for () {
    fn mk(_: u64) {}
    fn val(&self) -> u64 {
        u64::MAX
    }
}
impl Val for u8 {
    fn mk(x: u64) -> Self {
        x as u8
    }
    fn val(&self) -> u64 {
        *self as u64
    }
}
impl<const N: usize> Val for [u64; N] {
    fn mk(x: u64) -> Self {
        [x; N]
    }
    fn val(&self) -> u64 {
        if self.iter().all(|v| *v == self[0]) {
            self[0]
        } else {
            u64::MAX - 1
        }
    }
}
/// Has drop glue, never allocates.
struct Own(u64, &'static Cell<i64>);
thread_local!(static NONE: () = ());
static mut LIVE: Cell<i64> = Cell::new(0);
impl Val for Own {
    fn mk(x: u64) -> Self {
        let l = unsafe { &*std::ptr::addr_of!(LIVE) };
        l.set(l.get() + 1);
        Own(x, l)
    }
    fn val(&self) -> u64 {
        self.0
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1);
    }
}
fn same<T: Val>(t: &T, x: u64) -> bool {
    T::mk(x).val() == t.val()
}

/// Stands for a value that may be used from the parent's stack.
struct Shared1<T>(T);
unsafe impl<T> Send for Shared1<T> {}
/// Over-aligned values
#[repr(align(64))]
struct Wide([u64; 8]);
impl Val for Wide {
    fn mk(x: u64) -> Self {
        Wide([x; 8])
    }
    fn val(&self) -> u64 {
        if self as *const _ as usize % 64 != 0 {
            say(format_args!("misaligned value"));
        }
        self.0.val()
    }
}
#[repr(align(1024))]
struct Page([u64; 130]);
impl Val for Page {
    fn mk(x: u64) -> Self {
        Page([x; 130])
    }
    fn val(&self) -> u64 {
        self.0.val()
    }
}
/// Fits a register with a part left over
struct Odd([u8; 7]);
impl Val for Odd {
    fn mk(x: u64) -> Self {
        Odd(std::array::from_fn(|i| (x >> (8 * i)) as u8))
    }
    fn val(&self) -> u64 {
        let mut b = [0; 8];
        b[..7].copy_from_slice(&self.0);
        u64::from_le_bytes(b)
    }
}

struct Plan {
    rounds: u64,
    per_life: u64,
    parent_every: u64,
    onstack_every: u64,
    nested: bool,
    deep: usize,
}

#[inline(never)]
fn at_depth<I: Val, Y: Val>(y: &Yielder<I, Y>, d: usize, x: u64) -> I {
    let mut pad = [d as u64; 8];
    black_box(&mut pad);
    let r = if d == 0 { y.suspend(Y::mk(x)) } else { at_depth(y, d - 1, x) };
    must!(black_box(pad)[3] == d as u64, "local damaged");
    r
}

#[inline(never)]
fn run<I: Val, Y: Val, R: Val>(plan: &Plan, co: &OwnStack, aux: &OwnStack, inner: &OwnStack, resumer: &OwnStack) {
    let sh = unsafe { &mut *SH };
    let (first_sp, susp_sp) = (Cell::new(0usize), Cell::new(0usize));
    let seen: &'static Cell<usize> = unsafe { std::mem::transmute(&susp_sp) };
    let mut hw = (0, 0, 0, 0);
    let mut total = 0u64;
    let mut life = 0;
    let a0 = ALLOCS.load(Relaxed);
    while total < plan.rounds {
        let (deep, pe, oe, nested) = (plan.deep, plan.parent_every, plan.onstack_every, plan.nested);
        let auxp: &'static OwnStack = unsafe { std::mem::transmute(aux) };
        let inp: &'static OwnStack = unsafe { std::mem::transmute(inner) };
        let (per, left) = (plan.per_life, plan.rounds - total);
        let mut c = Coroutine::<I, Y, R, Ref>::with_stack(Ref(co), move |y, i: I| {
            let sh = unsafe { &mut *SH };
            must!(same(&i, 0), "wrong first input");
            drop(i);
            let mut k = 0u64;
            let mut child: Option<Coroutine<u64, u64, (), Ref>> = if nested {
                Some(Coroutine::with_stack(Ref(inp), |y, mut v| loop {
                    v = y.suspend(v + 1);
                    if v == u64::MAX {
                        break;
                    }
                }))
            } else {
                None
            };
            loop {
                k += 1;
                let s = sys::sp();
                if seen.get() == 0 {
                    seen.set(s);
                } else if seen.get() != s {
                    say(format_args!("the stack pointer in the coroutine's loop moved by {} bytes after {k} resumes", seen.get() as isize - s as isize));
                }
                if pe != 0 && k % pe == 0 {
                    // Captures and results of the types at hand, too
                    match k / pe % 3 {
                        0 => {
                            let cap = Shared1(I::mk(k));
                            let r = y.on_parent_stack(move || {
                                let cap = cap;
                                must!(same(&cap.0, k), "capture of on_parent_stack damaged");
                                k + 1
                            });
                            must!(r == k + 1, "on_parent_stack returned a wrong value");
                        }
                        1 => {
                            let cap = Shared1(Y::mk(k));
                            let r: R = y.on_parent_stack(move || R::mk({ let cap = cap; cap.0.val() }));
                            must!(same(&r, Y::mk(k).val()), "on_parent_stack returned a wrong value");
                        }
                        _ => {
                            let r = y.on_parent_stack(move || k + 1);
                            must!(r == k + 1, "on_parent_stack returned a wrong value");
                        }
                    }
                    sh.on_parents += 1;
                }
                if oe != 0 && k % (2 * oe) == 1 {
                    let cap = Y::mk(k);
                    let r: I = on_stack(Ref(auxp), move || I::mk(cap.val()));
                    must!(same(&r, Y::mk(k).val()), "on_stack returned a wrong value");
                    let cap = (R::mk(k), I::mk(k));
                    on_stack(Ref(auxp), move || {
                        let cap = cap;
                        must!(same(&cap.0, k) && same(&cap.1, k), "capture of on_stack damaged");
                    });
                    sh.on_stacks += 2;
                }
                if oe != 0 && k % oe == 0 {
                    let r = on_stack(Ref(auxp), || {
                        // Suspending from in there is allowed.
                        if k % (3 * oe) == 0 {
                            at_depth(y, 1, k).val()
                        } else {
                            k + 2
                        }
                    });
                    must!(k % (3 * oe) == 0 || r == k + 2, "on_stack returned a wrong value");
                    sh.on_stacks += 1;
                    if k % (3 * oe) == 0 {
                        continue;
                    }
                }
                if let Some(c) = child.as_mut() {
                    match c.resume(k) {
                        CoroutineResult::Yield(v) => must!(v == k + 1, "nested coroutine yielded a wrong value"),
                        _ => say(format_args!("nested coroutine returned")),
                    }
                }
                if k >= per || k >= left {
                    break;
                }
                let i = at_depth(y, deep, k);
                must!(same(&i, k), "wrong input");
            }
            if let Some(c) = child.as_mut() {
                must!(c.resume(u64::MAX).as_return().is_some(), "nested coroutine did not return");
            }
            R::mk(k)
        });
        let mut n = 0;
        loop {
            let s = sys::sp();
            if first_sp.get() == 0 {
                first_sp.set(s);
            } else if first_sp.get() != s {
                say(format_args!("the stack pointer in the resumer's loop moved by {} bytes after {total} resumes", first_sp.get() as isize - s as isize));
            }
            sh.resumes += 1;
            match c.resume(I::mk(n)) {
                CoroutineResult::Yield(y) => {
                    n += 1;
                    must!(same(&y, n), "wrong yield");
                }
                CoroutineResult::Return(r) => {
                    must!(same(&r, n + 1), "wrong result");
                    break;
                }
            }
        }
        must!(c.done(), "not done");
        total += n + 1;
        life += 1;
        sh.finished += 1;
        let a1 = ALLOCS.load(Relaxed);
        must!(a1 == a0, "{} heap operation(s) within {total} resumes", a1 - a0);
        let now = (co.touched(0x77), aux.touched(0x77), inner.touched(0x77), resumer.touched(0x77));
        if life == 1 {
            hw = now;
            sh.hw = now.0 as u64;
        } else {
            // (A few bytes of slack: stored bytes may equal the pattern.)
            must!(
                now.0 < hw.0 + 128 && now.1 < hw.1 + 128 && now.2 < hw.2 + 128 && now.3 < hw.3 + 128,
                "stack use (coroutine, on_stack, nested, resumer) grew from {hw:?} to {now:?} within {total} resumes");
        }
        // The first life must be a short one; later lives get longer.
        must!(left >= per || total >= plan.rounds, "harness");
    }
    must!(unsafe { (*std::ptr::addr_of!(LIVE)).get() } == 0, "values leaked or dropped twice");
}

fn child(r: &mut Rng, rounds: u64) -> ! {
    let co = OwnStack::new(768 << 10, 0, 0);
    let aux = OwnStack::new(512 << 10, 16 * r.us(4), 0);
    let inner = OwnStack::new(64 << 10, 0, 0);
    let resumer = OwnStack::new(1 << 20, 16 * r.us(4), 0);
    for s in [&co, &aux, &inner, &resumer] {
        s.fill(0x77);
    }
    let plan = Plan {
        rounds,
        per_life: [40, 120, 977][r.us(3)],
        parent_every: [0, 1, 2, 5][r.us(4)],
        onstack_every: [0, 1, 3, 4][r.us(4)],
        nested: r.chance(1, 2),
        deep: r.us(4),
    };
    let kind = r.below(14);
    // A preparatory run resolves lazily bound symbols.
    let f = |plan: &Plan| match kind {
        0 => run::<u64, u64, u64>(plan, &co, &aux, &inner, &resumer),
        1 => run::<(), (), ()>(plan, &co, &aux, &inner, &resumer),
        2 => run::<[u64; 30], u8, [u64; 5]>(plan, &co, &aux, &inner, &resumer),
        3 => run::<Own, Own, Own>(plan, &co, &aux, &inner, &resumer),
        4 => run::<u8, [u64; 300], ()>(plan, &co, &aux, &inner, &resumer),
        5 => run::<(), Own, [u64; 2]>(plan, &co, &aux, &inner, &resumer),
        6 => run::<[u64; 1], [u64; 2], [u64; 3]>(plan, &co, &aux, &inner, &resumer),
        7 => run::<Wide, u8, Wide>(plan, &co, &aux, &inner, &resumer),
        8 => run::<u8, Page, Odd>(plan, &co, &aux, &inner, &resumer),
        9 => run::<Odd, Wide, Page>(plan, &co, &aux, &inner, &resumer),
        10 => run::<[u64; 3000], Odd, u64>(plan, &co, &aux, &inner, &resumer),
        11 => run::<Odd, [u64; 3000], [u64; 9]>(plan, &co, &aux, &inner, &resumer),
        12 => run::<(), u8, [u64; 1100]>(plan, &co, &aux, &inner, &resumer),
        _ => run::<u64, (), Own>(plan, &co, &aux, &inner, &resumer),
    };
    unsafe {
        if !filter() {
            libc::_exit(21);
        }
        (*SH).filtered = 1;
        on_stack(Ref(&resumer), || f(&plan));
        (*SH).done = 1;
        libc::syscall(libc::SYS_exit_group, 0);
    }
    loop {}
}

fn main() {
    let a = rep::args();
    let rounds = a.num("rounds", 3000);
    unsafe {
        SH = libc::mmap(std::ptr::null_mut(), 8192, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared;
    }
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        unsafe {
            std::ptr::write_bytes(SH as *mut u8, 0, 8192);
            let pid = libc::fork();
            if pid == 0 {
                child(&mut r, rounds);
            }
            let mut stt = 0;
            libc::waitpid(pid, &mut stt, 0);
            let sh = &*SH;
            let n = sh.msg.iter().position(|b| *b == 0).unwrap_or(0);
            if n > 0 {
                viol!("{}", String::from_utf8_lossy(&sh.msg[..n]));
            }
            if libc::WIFEXITED(stt) && libc::WEXITSTATUS(stt) == 21 {
                rep::inconclusive("seccomp is not available");
            }
            if libc::WIFSIGNALED(stt) {
                viol!("the child performing only switches was killed by signal {}", libc::WTERMSIG(stt));
            }
            check!(stt == 0 && sh.done == 1 && sh.filtered == 1, "the child performing only switches ended with status {stt:#x}");
            st.evals += 1;
            st.add("resumes_without_system_call", sh.resumes);
            st.add("on_stack_calls", sh.on_stacks);
            st.add("on_parent_stack_calls", sh.on_parents);
            st.add("completions", sh.finished);
            let h = vh::rng::hash(&[sh.resumes, sh.on_stacks, sh.on_parents, sh.finished, sh.hw].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
            if sh.resumes > 1 {
                st.distinct(h);
                st.sample(|| format!("case {case}: {} resumes, {} on_stack, {} on_parent_stack, {} lives, {} bytes of coroutine stack used", sh.resumes, sh.on_stacks, sh.on_parents, sh.finished, sh.hw));
            }
        }
    }
    st.finish()
}
