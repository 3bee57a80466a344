//! C20: what a debugger shows. Run under gdb, which stops in `vh_stop` and
//! prints a backtrace; the program announces on stderr which of its numbered
//! functions must be on it. Random nestings of coroutines, on_stack,
//! on_parent_stack, forced unwinds and recovered traps over a pool of stacks
//! taken in random order.
use corosensei::stack::DefaultStack;
use corosensei::trap::{CoroutineTrapHandler, TrapHandlerRegs};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::RefCell;
use vh::rep::{self, Stats};
use vh::rng::{hash, Rng};
use vh::{check, viol};

type Y = Yielder<(), ()>;
type Co = Coroutine<(), (), (), DefaultStack>;
struct Wrap(Co, Option<Ctx>);

/// What a context's own frames are, and the trap handler of its coroutine.
#[derive(Clone)]
struct Ctx {
    nodes: Vec<u8>,
    /// Number of on_stack calls in progress.
    away: usize,
    handler: Option<CoroutineTrapHandler<()>>,
}
struct World {
    r: Rng,
    ctx: Vec<Ctx>,
    pool: Vec<DefaultStack>,
    idle: Vec<Wrap>,
    budget: usize,
    stops: usize,
    seq: u64,
    trace: u64,
    counts: [u64; 6],
}
thread_local!(static W: RefCell<Option<World>> = const { RefCell::new(None) });
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().unwrap()))
}

/// The number of the stop gdb is at.
#[no_mangle]
pub static mut VH_SEQ: u64 = 0;
#[no_mangle]
#[inline(never)]
pub extern "C" fn vh_stop() {
    unsafe { std::arch::asm!("nop") }
}
fn stop(kind: &str) {
    let line = w(|w| {
        if w.stops == 0 {
            return None;
        }
        w.stops -= 1;
        w.seq += 1;
        let mut s = format!("VH expect {} {kind}", w.seq);
        for c in w.ctx.iter().rev() {
            for n in c.nodes.iter().rev() {
                s += &format!(" {n}");
            }
        }
        w.trace = hash(s.as_bytes()) ^ w.trace.rotate_left(7);
        s.push('\n');
        unsafe { VH_SEQ = w.seq }
        Some(s)
    });
    if let Some(s) = line {
        unsafe {
            libc::write(2, s.as_ptr() as _, s.len());
        }
        vh_stop();
    }
}

/// A numbered frame's own guard: stops in a destructor as well.
struct G;
impl Drop for G {
    fn drop(&mut self) {
        if w(|w| w.r.chance(1, 6)) {
            stop("drop");
        }
        w(|w| w.ctx.last_mut().unwrap().nodes.pop());
    }
}

macro_rules! nodes {
    ($($n:ident $i:expr),*) => {
        $(#[no_mangle]
        #[inline(never)]
        fn $n(y: Option<&Y>) {
            w(|w| w.ctx.last_mut().unwrap().nodes.push($i));
            let g = G;
            ops(y);
            drop(g);
        })*
        static NODES: &[fn(Option<&Y>)] = &[$($n),*];
    };
}
nodes!(vh_n0 0, vh_n1 1, vh_n2 2, vh_n3 3, vh_n4 4, vh_n5 5, vh_n6 6, vh_n7 7, vh_n8 8, vh_n9 9);

fn node(y: Option<&Y>) {
    let k = w(|w| w.r.us(NODES.len()));
    std::hint::black_box(NODES[k])(y);
}
fn take_stack() -> DefaultStack {
    w(|w| {
        let k = w.r.us(w.pool.len().max(1));
        if w.pool.is_empty() { None } else { Some(w.pool.swap_remove(k)) }
    })
    .unwrap_or_else(|| DefaultStack::new(65536).unwrap())
}
fn resume(mut c: Wrap) {
    let fresh = !c.0.started();
    w(|w| {
        let mut ctx = c.1.take().unwrap();
        ctx.handler = Some(c.0.trap_handler());
        if fresh {
            ctx.nodes.clear();
        }
        w.ctx.push(ctx);
        w.counts[0] += 1;
    });
    let out = c.0.resume(());
    let ctx = w(|w| w.ctx.pop().unwrap());
    match out {
        CoroutineResult::Yield(()) => {
            c.1 = Some(ctx);
            w(|w| w.idle.push(c));
        }
        CoroutineResult::Return(()) => w(|w| w.pool.push(c.0.into_stack())),
    }
}
fn unwind(mut c: Wrap) {
    w(|w| {
        let mut ctx = c.1.take().unwrap();
        ctx.handler = None;
        if c.0.started() {
            w.ctx.push(ctx);
        }
        w.counts[3] += 1;
    });
    let running = c.0.started();
    if cfg!(feature = "unwind") || !running {
        c.0.force_unwind();
    } else {
        unsafe { c.0.force_reset() }
    }
    w(|w| {
        if running {
            w.ctx.pop();
        }
        w.pool.push(c.0.into_stack())
    });
}
struct Y2<'a>(&'a Y);
unsafe impl Send for Y2<'_> {}

fn ops(y: Option<&Y>) {
    loop {
        let (op, left) = w(|w| {
            w.budget = w.budget.saturating_sub(1);
            (w.r.us(16), w.budget)
        });
        let depth = w(|w| w.ctx.iter().map(|c| c.nodes.len()).sum::<usize>());
        if left == 0 {
            return;
        }
        match op {
            0..=2 => stop("call"),
            3 | 4 if depth < 14 => node(y),
            5 | 6 if depth < 14 => {
                let s = take_stack();
                w(|w| {
                    w.ctx.last_mut().unwrap().away += 1;
                    w.counts[1] += 1;
                });
                on_stack(s, || node(y));
                w(|w| w.ctx.last_mut().unwrap().away -= 1);
            }
            7 | 8 if depth < 14 && y.is_some() => {
                w(|w| {
                    w.ctx.last_mut().unwrap().away += 1;
                    w.counts[2] += 1;
                });
                // Frames of the closure must not use the yielder.
                y.unwrap().on_parent_stack(|| node(None));
                w(|w| w.ctx.last_mut().unwrap().away -= 1);
            }
            9 | 10 if depth < 14 => {
                let c = Coroutine::with_stack(take_stack(), |y: &Y, ()| node(Some(y)));
                resume(Wrap(c, Some(Ctx { nodes: vec![], away: 0, handler: None })));
            }
            11 | 12 if depth < 14 => {
                let c = w(|w| {
                    let k = w.r.us(w.idle.len().max(1));
                    if w.idle.is_empty() { None } else { Some(w.idle.swap_remove(k)) }
                });
                if let Some(c) = c {
                    if w(|w| w.r.chance(1, 4)) {
                        unwind(c);
                    } else {
                        resume(c);
                    }
                }
            }
            13 => {
                if let Some(y) = y {
                    y.suspend(());
                }
            }
            14 => {
                let trap = w(|w| {
                    let c = w.ctx.last().unwrap();
                    c.away == 0 && c.handler.is_some() && y.is_some() && w.r.chance(1, 3)
                });
                if trap {
                    w(|w| w.counts[4] += 1);
                    unsafe {
                        HANDLER = w(|w| w.ctx.last().unwrap().handler);
                        std::arch::asm!("ud2");
                    }
                }
            }
            _ => {
                if depth > 1 {
                    return;
                }
            }
        }
    }
}

static mut HANDLER: Option<CoroutineTrapHandler<()>> = None;
/// Runs in place of the trapped coroutine's frames.
fn recovered() {
    w(|w| w.ctx.last_mut().unwrap().nodes.clear());
    node(None);
}
unsafe extern "C" fn on_ill(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let h = HANDLER;
    HANDLER = None;
    let Some(h) = h else {
        libc::signal(libc::SIGILL, libc::SIG_DFL);
        return;
    };
    let g = &mut uc.uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = h.setup_trap_handler(recovered);
        g[libc::REG_RIP as usize] = rip as _;
        g[libc::REG_RSP as usize] = rsp as _;
        g[libc::REG_RBP as usize] = rbp as _;
        g[libc::REG_RDI as usize] = rdi as _;
        g[libc::REG_RSI as usize] = rsi as _;
    }
    #[cfg(target_arch = "x86")]
    {
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = h.setup_trap_handler(recovered);
        g[libc::REG_EIP as usize] = eip as _;
        g[libc::REG_ESP as usize] = esp as _;
        g[libc::REG_EBP as usize] = ebp as _;
        g[libc::REG_ECX as usize] = ecx as _;
        g[libc::REG_EDX as usize] = edx as _;
    }
}

fn main() {
    let a = rep::args();
    unsafe {
        let mut alt = vec![0u8; 128 << 10];
        let ss = libc::stack_t { ss_sp: alt.as_mut_ptr() as _, ss_flags: 0, ss_size: alt.len() };
        std::mem::forget(alt);
        check!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0, "harness: sigaltstack");
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_ill as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGILL, &sa, std::ptr::null_mut());
    }
    let mut st = Stats::default();
    let mut seq = 0;
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        let n = 2 + r.us(5);
        let pool = (0..n).map(|_| DefaultStack::new(65536).unwrap_or_else(|e| viol!("stack creation failed: {e}"))).collect();
        W.with(|w| *w.borrow_mut() = Some(World { r, ctx: vec![Ctx { nodes: vec![], away: 0, handler: None }], pool, idle: vec![], budget: 70, stops: 8, seq, trace: 0, counts: [0; 6] }));
        node(None);
        while let Some(c) = w(|w| w.idle.pop()) {
            unwind(c);
        }
        let world = W.with(|w| w.borrow_mut().take().unwrap());
        seq = world.seq;
        st.evals += 1;
        if world.stops < 8 {
            st.distinct(world.trace);
        }
        for (n, v) in ["resumes", "on_stack", "on_parent_stack", "unwinds", "traps"].iter().zip(world.counts) {
            st.add(n, v);
        }
        st.sample(|| format!("case {case}: {} stops, {:?}", 8 - world.stops, world.counts));
    }
    st.finish()
}
