//! C27: resetting a coroutine completes it without running its code.
//!
//! Random populations of coroutines (on own and default stacks, some nested in
//! others, some suspended inside on_stack calls) are brought into random
//! states; random ones are reset. A ledger of what must have been dropped, an
//! event log that must not grow, and the bounds of extracted stacks decide.
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use vh::ledger::{self, Tracked};
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::sys::OwnStack;
use vh::{check, viol};

enum S {
    Own(OwnStack),
    Def(DefaultStack),
}
unsafe impl Stack for S {
    fn base(&self) -> StackPointer {
        match self {
            S::Own(s) => s.base(),
            S::Def(s) => s.base(),
        }
    }
    fn limit(&self) -> StackPointer {
        match self {
            S::Own(s) => s.limit(),
            S::Def(s) => s.limit(),
        }
    }
}
struct St {
    s: S,
    live: Rc<Cell<i64>>,
}
unsafe impl Stack for St {
    fn base(&self) -> StackPointer {
        self.s.base()
    }
    fn limit(&self) -> StackPointer {
        self.s.limit()
    }
}
impl Drop for St {
    fn drop(&mut self) {
        self.live.set(self.live.get() - 1);
        check!(self.live.get() >= 0, "a stack was dropped twice");
    }
}
fn bounds(s: &impl Stack) -> (usize, usize) {
    (s.limit().get(), s.base().get())
}

/// Everything that coroutine code does is counted here.
static mut EVENTS: u64 = 0;
fn ev() {
    unsafe { EVENTS += 1 }
}
fn evs() -> u64 {
    unsafe { EVENTS }
}
struct Noisy(Tracked);
impl Drop for Noisy {
    fn drop(&mut self) {
        ev();
    }
}
type Co = Coroutine<(Tracked, u64), u64, u64, St>;

struct Slot {
    co: Option<Co>,
    bounds: (usize, usize),
    plan: Plan,
    /// resumes so far; what the next yield must be
    n: u64,
    state: State,
    /// ids leaked if it is reset now: objects on its stack
    held: Rc<RefCell<HashSet<u32>>>,
    kids: Rc<RefCell<Vec<Rc<RefCell<Slot>>>>>,
    armed: Rc<Cell<bool>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Fresh,
    Suspended,
    Done,
    Reset,
}
#[derive(Clone, Copy, Debug)]
struct Plan {
    yields: u64,
    depth: usize,
    via_on_stack: bool,
    end_panic: bool,
    /// suspends once more from a destructor while being unwound
    sticky: bool,
}

thread_local!(static NEXT: Cell<u32> = const { Cell::new(0) });
fn id() -> u32 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
struct Hold {
    n: Noisy,
    held: Rc<RefCell<HashSet<u32>>>,
}
impl Hold {
    fn new(held: &Rc<RefCell<HashSet<u32>>>) -> Self {
        let i = id();
        held.borrow_mut().insert(i);
        Hold { n: Noisy(Tracked::new(i)), held: held.clone() }
    }
}
impl Drop for Hold {
    fn drop(&mut self) {
        self.held.borrow_mut().remove(&self.n.0.id);
    }
}

fn stack(r: &mut Rng, live: &Rc<Cell<i64>>) -> St {
    live.set(live.get() + 1);
    let s = if r.chance(1, 2) {
        S::Own(OwnStack::new((64 << 10) + r.us(8) * 4096, 16 * r.us(3), 0))
    } else {
        S::Def(DefaultStack::new((64 << 10) + r.us(100_000)).unwrap())
    };
    St { s, live: live.clone() }
}

#[inline(never)]
fn deep(y: &Yielder<(Tracked, u64), u64>, d: usize, v: u64, held: &Rc<RefCell<HashSet<u32>>>) -> (Tracked, u64) {
    let h = Hold::new(held);
    let r = if d == 0 { y.suspend(v) } else { deep(y, d - 1, v, held) };
    h.n.0.verify("local");
    r
}

fn make(r: &mut Rng, s: St, plan: Plan, live: &Rc<Cell<i64>>) -> Slot {
    let b = bounds(&s);
    let held: Rc<RefCell<HashSet<u32>>> = Rc::default();
    let kids: Rc<RefCell<Vec<Rc<RefCell<Slot>>>>> = Rc::default();
    let cap = Hold::new(&held);
    let armed: Rc<Cell<bool>> = Rc::default();
    let (h2, k2, a2) = (held.clone(), kids.clone(), armed.clone());
    let aux = if plan.via_on_stack { Some(stack(r, live)) } else { None };
    let co = Coroutine::with_stack(s, move |y: &Yielder<(Tracked, u64), u64>, (t, v): (Tracked, u64)| {
        ev();
        cap.n.0.verify("capture");
        t.verify("input");
        check!(v == 0, "wrong first input {v}");
        drop(t);
        let mut aux = aux;
        struct Sticky<'a>(&'a Yielder<(Tracked, u64), u64>, Rc<Cell<bool>>);
        impl Drop for Sticky<'_> {
            fn drop(&mut self) {
                ev();
                if self.1.get() {
                    self.0.suspend(7777);
                }
            }
        }
        let _sticky = Sticky(y, a2);
        for k in 1..=plan.yields {
            let _h = Hold::new(&h2);
            // Children are resumed from in here, too.
            for c in k2.borrow().iter() {
                let mut c = c.borrow_mut();
                step(&mut c);
            }
            let (t, v) = match aux.take() {
                Some(s) if k == plan.yields / 2 + 1 => on_stack(s, || deep(y, plan.depth, k, &h2)),
                a => {
                    aux = a;
                    deep(y, plan.depth, k, &h2)
                }
            };
            ev();
            check!(v == k, "input {v} instead of {k}");
            t.verify("input");
        }
        if plan.end_panic {
            std::panic::panic_any(5u8);
        }
        plan.yields + 100
    });
    Slot { co: Some(co), bounds: b, plan, n: 0, state: State::Fresh, held, kids, armed }
}

/// Resumes; checks the outcome against the history.
fn step(s: &mut Slot) {
    let Some(co) = s.co.as_mut() else { return };
    let (plan, n) = (s.plan, s.n);
    let before = evs();
    let done = matches!(s.state, State::Done | State::Reset);
    let i = id();
    let t = Tracked::new(i);
    let r = catch_unwind(AssertUnwindSafe(|| co.resume((t, n))));
    s.n += 1;
    match (done, r) {
        (true, Err(_)) => {
            check!(evs() == before, "resuming a {:?} coroutine ran some of its code", s.state);
            check!(!ledger::is_live(i), "input of a refused resume was not dropped");
            s.n -= 1;
        }
        (true, Ok(_)) => viol!("resuming a {:?} coroutine succeeded", s.state),
        (false, Ok(CoroutineResult::Yield(v))) => {
            check!(v == n + 1 && n < plan.yields, "yielded {v} at resume {n}");
            s.state = State::Suspended;
        }
        (false, Ok(CoroutineResult::Return(v))) => {
            check!(n == plan.yields && v == n + 100 && !plan.end_panic, "returned {v} at resume {n}");
            s.state = State::Done;
        }
        (false, Err(e)) => {
            check!(plan.end_panic && n == plan.yields && e.downcast_ref::<u8>() == Some(&5), "unexpected panic out of resume {n}");
            s.state = State::Done;
        }
    }
    verify(s);
}
fn verify(s: &Slot) {
    let co = s.co.as_ref().unwrap();
    check!(co.done() == matches!(s.state, State::Done | State::Reset), "done() is {} in state {:?}", co.done(), s.state);
    check!(co.started() == (s.state != State::Fresh), "started() is {} in state {:?}", co.started(), s.state);
}

fn reset(s: &mut Slot, leaked: &mut HashSet<u32>, lost: &mut bool, st: &mut Stats) {
    let Some(co) = s.co.as_mut() else { return };
    let before = evs();
    let live = ledger::live();
    let held: Vec<u32> = s.held.borrow().iter().copied().collect();
    unsafe { co.force_reset() };
    check!(evs() == before, "resetting a coroutine in state {:?} ran code of it", s.state);
    check!(ledger::live() == live, "resetting a coroutine in state {:?} dropped {} object(s)", s.state, live - ledger::live());
    for h in &held {
        check!(ledger::is_live(*h), "resetting dropped object {h}");
        if s.state != State::Done {
            leaked.insert(*h);
        }
    }
    st.add(
        match s.state {
            State::Fresh => "resets_of_fresh",
            State::Suspended => "resets_of_suspended",
            State::Done => "resets_of_finished",
            State::Reset => "resets_of_reset",
        },
        1,
    );
    // A stack among its captures stays behind.
    *lost |= s.plan.via_on_stack;
    s.state = State::Reset;
    verify(s);
}

fn case(r: &mut Rng, st: &mut Stats) -> u64 {
    ledger::reset();
    NEXT.with(|n| n.set(0));
    let live: Rc<Cell<i64>> = Rc::default();
    let mut slots: Vec<Rc<RefCell<Slot>>> = Vec::new();
    let mut leaked: HashSet<u32> = HashSet::new();
    let mut pool: Vec<St> = Vec::new();
    let mut lost = false; // stacks that stay behind on reset stacks
    let mut trace = 1u64;
    let steps = 10 + r.us(60);
    for _ in 0..steps {
        let k = if slots.is_empty() { 0 } else { r.us(slots.len()) };
        let op = r.below(20);
        trace = (trace ^ (op << 8 | k as u64)).wrapping_mul(0x100000001b3);
        match op {
            0..=3 => {
                if slots.len() < 8 {
                    let s = if r.chance(2, 3) && !pool.is_empty() { pool.swap_remove(r.us(pool.len())) } else { stack(r, &live) };
                    let plan = Plan {
                        yields: r.below(6),
                        depth: r.us(5),
                        via_on_stack: r.chance(1, 4),
                        end_panic: cfg!(feature = "unwind") && r.chance(1, 5),
                        sticky: cfg!(feature = "unwind") && r.chance(1, 5),
                    };
                    let sl = Rc::new(RefCell::new(make(r, s, plan, &live)));
                    // It may be resumed by an older one as well.
                    if r.chance(1, 3) && !slots.is_empty() {
                        let p = &slots[r.us(slots.len())];
                        p.borrow().kids.borrow_mut().push(sl.clone());
                    }
                    slots.push(sl);
                }
            }
            4..=10 if !slots.is_empty() => {
                st.add("resumes", 1);
                step(&mut slots[k].borrow_mut());
            }
            11..=14 if !slots.is_empty() => {
                let mut s = slots[k].borrow_mut();
                reset(&mut s, &mut leaked, &mut lost, st);
            }
            15 if !slots.is_empty() => {
                // Unwinding a reset coroutine is a no-op.
                let mut s = slots[k].borrow_mut();
                if matches!(s.state, State::Done | State::Reset) && s.co.is_some() {
                    let before = (evs(), ledger::live());
                    s.co.as_mut().unwrap().force_unwind();
                    check!((evs(), ledger::live()) == before, "force_unwind of a {:?} coroutine had an effect", s.state);
                    verify(&s);
                    st.add("unwinds_of_done", 1);
                }
            }
            16 | 17 if !slots.is_empty() => {
                // The same stack comes out, whatever is on it, and is as good as new.
                let fin = matches!(slots[k].borrow().state, State::Done | State::Reset);
                if fin && slots[k].borrow().co.is_some() {
                    let mut s = slots[k].borrow_mut();
                    let before = (evs(), ledger::live());
                    let stk = s.co.take().unwrap().into_stack();
                    check!((evs(), ledger::live()) == before, "into_stack of a {:?} coroutine had an effect", s.state);
                    check!(bounds(&stk) == s.bounds, "another stack was extracted");
                    pool.push(stk);
                    st.add("stacks_extracted", 1);
                    drop(s);
                    retire(&mut slots, k);
                }
            }
            18 if !slots.is_empty() => {
                let fin = matches!(slots[k].borrow().state, State::Done | State::Reset);
                if fin {
                    let mut s = slots[k].borrow_mut();
                    let before = (evs(), ledger::live(), live.get());
                    let had = s.co.is_some();
                    s.co = None;
                    check!((evs(), ledger::live()) == (before.0, before.1), "dropping a {:?} coroutine had an effect", s.state);
                    check!(live.get() == before.2 - had as i64, "dropping a {:?} coroutine released {} stacks", s.state, before.2 - live.get());
                    st.add("drops_of_done", 1);
                    drop(s);
                    retire(&mut slots, k);
                }
            }
            19 if !slots.is_empty() && cfg!(feature = "unwind") => {
                // Suspended while being unwound, then reset.
                let mut s = slots[k].borrow_mut();
                if s.state == State::Suspended && s.plan.sticky {
                    let mut co = s.co.take().unwrap();
                    s.armed.set(true);
                    let r = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
                    check!(r.is_err() && !co.done(), "a coroutine that suspends while being unwound: failed {} done {}", r.is_err(), co.done());
                    s.co = Some(co);
                    // Its panicking frames still exist, so it has to be given up.
                    reset(&mut s, &mut leaked, &mut lost, st);
                    st.add("resets_while_unwinding", 1);
                    drop(s);
                    // The thread is accounted as panicking by the abandoned
                    // unwind: run on, but raise no panics in destructors.
                }
            }
            _ => (),
        }
    }
    // Those not reset are unaffected and still run to their ends.
    for s in &slots {
        let mut s = s.borrow_mut();
        if s.co.is_none() {
            continue;
        }
        match s.state {
            State::Reset => {
                step(&mut s);
                s.co = None;
            }
            _ if r.chance(1, 4) => {
                reset(&mut s, &mut leaked, &mut lost, st);
                s.co = None;
            }
            State::Suspended if cfg!(not(feature = "unwind")) => {
                for _ in 0..8 {
                    if !matches!(s.state, State::Done | State::Reset) {
                        step(&mut s);
                    }
                }
                s.co = None;
            }
            _ => s.co = None,
        }
        s.kids.borrow_mut().clear();
    }
    drop(slots);
    drop(pool);
    for i in ledger::live_ids() {
        check!(leaked.contains(&i), "object {i} leaked although its coroutine was not reset");
    }
    for i in leaked.iter() {
        check!(ledger::is_live(*i), "object {i} of a reset coroutine was dropped");
    }
    st.add("objects_on_reset_stacks", leaked.len() as u64);
    if !lost {
        check!(live.get() == 0, "{} stack(s) not released", live.get());
    }
    trace
}
fn retire(slots: &mut Vec<Rc<RefCell<Slot>>>, k: usize) {
    let s = slots.swap_remove(k);
    let _ = s;
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = Stats::new();
    for c in a.cases() {
        rep::case(c, &a.profile);
        let seed = a.seed;
        // A thread each: abandoned unwinds leave panic counts behind.
        let (t, s) = std::thread::scope(|sc| {
            sc.spawn(move || {
                let mut s = Stats::new();
                (case(&mut Rng::new(seed, c), &mut s), s)
            })
            .join()
            .unwrap_or_else(|_| viol!("unexpected panic"))
        });
        st.evals += 1;
        let mut n = 0;
        for (k, v) in s.counters {
            st.add(&k, v);
            n += k.starts_with("resets") as u64 * v;
        }
        if n > 0 {
            st.distinct(t);
            st.sample(|| format!("case {c}: {n} resets"));
        }
    }
    st.finish()
}
