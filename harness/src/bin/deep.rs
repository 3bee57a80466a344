//! Chains of hundreds of coroutines, each resumed by the previous one in one
//! of several ways, and populations of thousands of coroutines.
//!
//! Profile "chain": values travel through the whole chain in both directions;
//! it ends by returning, by a panic that some levels catch and rethrow,
//! replace or turn into a value, by a forced unwind from the outside, by a
//! drop, or by a destructor's drop while the thread is panicking. What every
//! level must have seen is computed from the plan.
//! Profile "wide": many coroutines with state on their stacks are resumed,
//! completed, unwound, dropped and replaced in random order.
//! Profile "ladder": on_stack and on_parent_stack calls nested hundreds deep
//! over a few coroutines.
//! Profile "collide": the payload of a forced unwind is kept, and thrown after
//! up to 2^16 other forced unwinds on the same stack.
use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use vh::ledger::{self, Tracked};
use vh::rep::{self, Stats};
use vh::rng::Rng;
#[cfg(feature = "unwind")]
use vh::viol;
use vh::{check, sys};

const UNWIND: bool = cfg!(feature = "unwind");
type Co = Coroutine<u64, u64, Ret, DefaultStack>;
/// Larger than a word, so that it is read from the finished stack.
struct Ret(u64, Tracked);

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Plain,
    OnStack,
    OnParent,
    /// nested twice
    OnStack2,
    /// resumed by a destructor's code
    InDrop,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Catch {
    None,
    Rethrow,
    Replace,
    Value,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Return,
    Panic,
    Force,
    Drop,
    DropPanicking,
    Never,
}
struct Level {
    how: How,
    catch: Catch,
    /// this level owns the next one by value, else through a box
    boxed: bool,
}
struct Plan {
    levels: Vec<Level>,
    yields: u32,
    end: End,
    stack: usize,
}
static mut PLAN: *const Plan = std::ptr::null();
static mut LOG: Vec<(u8, u32, u64)> = Vec::new();
fn plan() -> &'static Plan {
    unsafe { &*PLAN }
}
fn log(k: u8, lvl: usize, v: u64) {
    unsafe { (*std::ptr::addr_of_mut!(LOG)).push((k, lvl as u32, v)) }
}
// kinds of log entries: 1 entered, 2 got a value, 3 local dropped, 4 caught, 5 returning
struct Noisy(usize, Tracked);
impl Drop for Noisy {
    fn drop(&mut self) {
        self.1.verify("local");
        log(3, self.0, 0);
    }
}
struct Payload(u64, Tracked);
fn fresh() -> Tracked {
    static mut N: u32 = 0;
    unsafe {
        N += 1;
        if N as usize >= ledger::CAP {
            N = 1;
        }
        Tracked::new(N)
    }
}
struct Shout<T>(T);
unsafe impl<T> Send for Shout<T> {}

fn call(how: How, y: &Yielder<u64, u64>, mut f: impl FnMut()) {
    match how {
        How::Plain => f(),
        How::OnStack => on_stack(DefaultStack::new(plan().stack).unwrap(), f),
        How::OnStack2 => on_stack(DefaultStack::new(plan().stack).unwrap(), || on_stack(DefaultStack::new(plan().stack).unwrap(), f)),
        How::OnParent => {
            let f = Shout(f);
            y.on_parent_stack(move || {
                let mut f = f;
                let g: &mut Shout<_> = &mut f;
                (g.0)()
            })
        }
        How::InDrop => {
            struct D<F: FnMut()>(F);
            impl<F: FnMut()> Drop for D<F> {
                fn drop(&mut self) {
                    (self.0)()
                }
            }
            drop(D(f))
        }
    }
}
fn make(lvl: usize) -> Co {
    Coroutine::with_stack(DefaultStack::new(plan().stack).unwrap(), move |y, v| body(lvl, y, v))
}
fn body(lvl: usize, y: &Yielder<u64, u64>, first: u64) -> Ret {
    let p = plan();
    log(1, lvl, first);
    let _n = Noisy(lvl, fresh());
    let here = black_box(&_n) as *const _ as usize;
    if lvl + 1 == p.levels.len() {
        let mut sum = first;
        for k in 0..p.yields as u64 {
            let v = y.suspend(sum + k);
            log(2, lvl, v);
            sum = sum.wrapping_mul(31).wrapping_add(v);
        }
        match p.end {
            End::Panic => panic_any(Payload(sum, fresh())),
            End::Return => {
                log(5, lvl, sum);
                return Ret(sum, fresh());
            }
            _ => loop {
                let v = y.suspend(sum);
                log(2, lvl, v);
            },
        }
    }
    let l = &p.levels[lvl];
    let mut by_box;
    let mut by_val;
    let co: &mut Co = if l.boxed {
        by_box = Box::new(make(lvl + 1));
        &mut by_box
    } else {
        by_val = make(lvl + 1);
        &mut by_val
    };
    let mut v = first;
    loop {
        let mut out = None;
        let mut step = || call(l.how, y, || out = Some(co.resume(v + 1)));
        let r = if l.catch == Catch::None {
            step();
            Ok(())
        } else {
            catch_unwind(AssertUnwindSafe(step))
        };
        if let Err(e) = r {
            // Forced unwinds do not come from below.
            let Ok(e) = e.downcast::<Payload>() else { vh::viol!("level {lvl} caught something that the leaf did not throw") };
            e.1.verify("payload");
            log(4, lvl, e.0);
            check!(co.done() && co.started(), "a coroutine that panicked is not done");
            match l.catch {
                Catch::Rethrow => resume_unwind(e),
                Catch::Replace => panic_any(Payload(e.0 + 1, fresh())),
                _ => {
                    log(5, lvl, e.0 + 2);
                    return Ret(e.0 + 2, fresh());
                }
            }
        }
        check!(black_box(&_n) as *const _ as usize == here, "a local moved");
        match out.take().unwrap() {
            CoroutineResult::Yield(x) => {
                check!(!co.done(), "done after a yield");
                v = y.suspend(x + 1);
                log(2, lvl, v);
            }
            CoroutineResult::Return(r) => {
                check!(co.done(), "not done after a return");
                r.1.verify("result");
                log(5, lvl, r.0 + 1);
                return Ret(r.0 + 1, fresh());
            }
        }
    }
}
fn chain_case(r: &mut Rng, st: &mut Stats) {
    st.evals += 1;
    ledger::reset();
    let n = match r.below(8) {
        0 => r.range(1, 4),
        1..=4 => r.range(5, 60),
        5 | 6 => r.range(60, 250),
        _ => r.range(250, 700),
    };
    let end = *r.pick(if UNWIND { &[End::Return, End::Panic, End::Panic, End::Force, End::Drop, End::DropPanicking][..] } else { &[End::Return, End::Return, End::Return, End::Never] });
    // Those that stay suspended are never released.
    let n = if end == End::Never { n.min(30) } else { n };
    let mix = r.below(6);
    let caught = r.below(3);
    let levels: Vec<Level> = (0..n)
        .map(|i| Level {
            how: match mix {
                0 => How::Plain,
                1 => *r.pick(&[How::Plain, How::OnStack]),
                // The first level's parent is the thread's own stack.
                2 => *r.pick(&[How::Plain, How::OnParent]),
                3 if r.chance(1, 8) => How::InDrop,
                _ => *r.pick(&[How::Plain, How::Plain, How::OnStack, How::OnParent, How::OnStack2]),
            },
            catch: if UNWIND && i > 0 && caught > 0 && r.chance(1, if caught == 1 { 4 } else { 40 }) { *r.pick(&[Catch::Rethrow, Catch::Rethrow, Catch::Replace, Catch::Value]) } else { Catch::None },
            boxed: r.chance(1, 2),
        })
        .collect();
    let p = Plan { levels, yields: r.below(6) as u32, end, stack: 96 * 1024 };
    unsafe {
        PLAN = &p;
        (*std::ptr::addr_of_mut!(LOG)).clear();
    }
    let mut want: Vec<(u8, u32, u64)> = vec![];
    let hash = vh::rng::hash(format!("{:?}{}{:?}", p.levels.iter().map(|l| (l.how, l.catch, l.boxed)).collect::<Vec<_>>(), p.yields, end).as_bytes());
    let resumes = p.yields as usize + 1 + if matches!(end, End::Return | End::Panic) { 0 } else { r.us(3) };
    let mut vals: Vec<u64> = (0..resumes).map(|_| r.next() >> 20).collect();
    if matches!(end, End::Force | End::Drop | End::DropPanicking | End::Never) && r.chance(1, 4) {
        // ended before everything is set up
        vals.truncate(r.range(1, resumes));
    }
    // What must happen
    let depth = n as u64 - 1;
    let mut sum = 0;
    let mut outs: Vec<Result<u64, Result<u64, u64>>> = vec![];
    for (k, &v) in vals.iter().enumerate() {
        if k == 0 {
            for i in 0..n {
                want.push((1, i as u32, v + i as u64));
            }
            sum = v + depth;
        } else {
            for i in 0..n {
                want.push((2, i as u32, v + i as u64));
            }
            if k as u32 <= p.yields {
                sum = sum.wrapping_mul(31).wrapping_add(v + depth);
            }
        }
        if (k as u32) < p.yields {
            outs.push(Ok(sum.wrapping_add(k as u64).wrapping_add(depth)));
            continue;
        }
        match end {
            End::Return => {
                for i in (0..n).rev() {
                    want.push((5, i as u32, sum + (n - 1 - i) as u64));
                    want.push((3, i as u32, 0));
                }
                outs.push(Err(Ok(sum + depth)));
            }
            End::Panic => {
                // (is a panic, value)
                let mut cur = (true, sum);
                want.push((3, n as u32 - 1, 0));
                for i in (0..n - 1).rev() {
                    if cur.0 {
                        match p.levels[i].catch {
                            Catch::None => {}
                            Catch::Rethrow => want.push((4, i as u32, cur.1)),
                            Catch::Replace => {
                                want.push((4, i as u32, cur.1));
                                cur.1 += 1;
                            }
                            Catch::Value => {
                                want.push((4, i as u32, cur.1));
                                cur = (false, cur.1 + 2);
                                want.push((5, i as u32, cur.1));
                            }
                        }
                    } else {
                        cur.1 += 1;
                        want.push((5, i as u32, cur.1));
                    }
                    want.push((3, i as u32, 0));
                }
                outs.push(Err(if cur.0 { Err(cur.1) } else { Ok(cur.1) }));
            }
            _ => outs.push(Ok(sum.wrapping_add(depth))),
        }
    }
    if matches!(end, End::Force | End::Drop | End::DropPanicking) {
        // From the innermost to the outermost.
        for i in (0..n).rev() {
            want.push((3, i as u32, 0));
        }
    }
    // And what does
    let mut co = make(0);
    check!(!co.started() && !co.done(), "status of a new coroutine");
    for (k, (&v, o)) in vals.iter().zip(&outs).enumerate() {
        let res = catch_unwind(AssertUnwindSafe(|| co.resume(v)));
        let got = match &res {
            Ok(CoroutineResult::Yield(x)) => Ok(*x),
            Ok(CoroutineResult::Return(x)) => {
                x.1.verify("result");
                Err(Ok(x.0))
            }
            Err(e) => match e.downcast_ref::<Payload>() {
                Some(p) => {
                    p.1.verify("payload");
                    Err(Err(p.0))
                }
                None => vh::viol!("resume panicked with something else"),
            },
        };
        check!(got == *o, "chain of {n}: resume {k} gave {got:?}, expected {o:?}");
        check!(co.done() == o.is_err(), "done() is {} after {got:?}", co.done());
        check!(!std::thread::panicking(), "still panicking");
    }
    match end {
        End::Return | End::Panic => drop(co),
        End::Force => {
            co.force_unwind();
            check!(co.done(), "not done after force_unwind");
        }
        End::Drop => drop(co),
        End::DropPanicking => {
            let e = catch_unwind(AssertUnwindSafe(|| {
                let _co = co;
                panic_any(11u32)
            }));
            check!(matches!(e, Err(e) if e.downcast_ref() == Some(&11u32)), "payload changed");
        }
        End::Never => {
            // The whole chain stays suspended for good; nothing may run.
            std::mem::forget(co);
        }
    }
    let log = unsafe { &*std::ptr::addr_of!(LOG) };
    if *log != want {
        let i = log.iter().zip(&want).take_while(|(a, b)| a == b).count();
        vh::viol!("chain of {n} ({end:?}): event {i} is {:?}, expected {:?} (kind, level, value)", log.get(i), want.get(i));
    }
    if end != End::Never {
        ledger::assert_empty("the end of the chain");
    }
    st.distinct(hash);
    st.add("levels", n as u64);
    st.add("events", want.len() as u64);
    st.add(
        match end {
            End::Return => "ended_by_return",
            End::Panic => "ended_by_panic",
            End::Force => "ended_by_force_unwind",
            End::Drop => "ended_by_drop",
            End::DropPanicking => "ended_by_drop_while_panicking",
            End::Never => "left_suspended",
        },
        1,
    );
    if n >= 250 {
        st.add("chains_of_250_or_more", 1);
    }
    st.sample(|| format!("chain of {n}, {} resumes, {end:?}", vals.len()));
}

// ---------------------------------------------------------------- wide
struct Member {
    co: Coroutine<u64, u64, Ret, DefaultStack>,
    state: u64,
    left: u32,
    id: u32,
}
fn spawn(id: u32, life: u32, stack: DefaultStack) -> Member {
    let t = Tracked::new(id);
    let co = Coroutine::with_stack(stack, move |y: &Yielder<u64, u64>, mut v: u64| {
        let mut s = id as u64;
        let mut arr = [0u64; 24];
        for k in 0..life {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(v);
            let at = (s >> 33) as usize % 24;
            arr[at] ^= s;
            black_box(&mut arr);
            v = y.suspend(s);
            arr[at] ^= s;
            check!(black_box(&arr).iter().all(|&x| x == 0), "local array of coroutine {id} changed while it was suspended ({k})");
        }
        Ret(s.wrapping_add(v), t)
    });
    Member { co, state: id as u64, left: life, id }
}
fn wide_case(r: &mut Rng, st: &mut Stats) {
    st.evals += 1;
    ledger::reset();
    let cap = if sys::page() > 4096 || cfg!(target_pointer_width = "32") { 1500 } else { 5000 };
    let n = match r.below(3) {
        0 => r.range(10, 100),
        1 => r.range(100, 1000),
        _ => r.range(1000, cap),
    };
    let mut next = 1u32;
    let mut spare: Vec<DefaultStack> = vec![];
    let mut pop: Vec<Member> = vec![];
    let size = || 16 * 1024;
    let mut new = |r: &mut Rng, spare: &mut Vec<DefaultStack>| {
        let s = if !spare.is_empty() && r.chance(3, 4) { spare.swap_remove(r.us(spare.len())) } else { DefaultStack::new(size()).unwrap_or_else(|e| rep::inconclusive(&e.to_string())) };
        next += 1;
        spawn(next - 1, r.below(20) as u32, s)
    };
    for _ in 0..n {
        let m = new(r, &mut spare);
        pop.push(m);
    }
    let mut ops = 0u64;
    for _ in 0..(n * 6).min(20_000) {
        let i = r.us(pop.len());
        ops += 1;
        if UNWIND && r.chance(1, 30) {
            let mut m = pop.swap_remove(i);
            if r.chance(1, 2) {
                m.co.force_unwind();
                check!(m.co.done(), "not done after force_unwind");
                check!(!ledger::is_live(m.id), "capture of coroutine {} survived force_unwind", m.id);
                spare.push(m.co.into_stack());
            } else {
                drop(m.co);
                check!(!ledger::is_live(m.id), "capture of coroutine {} survived drop", m.id);
            }
            let m = new(r, &mut spare);
            pop.push(m);
            continue;
        }
        let m = &mut pop[i];
        let v = r.next();
        match m.co.resume(v) {
            CoroutineResult::Yield(x) => {
                m.state = m.state.wrapping_mul(6364136223846793005).wrapping_add(v);
                check!(m.left > 0 && x == m.state, "coroutine {} of {n} yielded {x:#x}, expected {:#x} ({} left)", m.id, m.state, m.left);
                m.left -= 1;
            }
            CoroutineResult::Return(x) => {
                check!(m.left == 0 && x.0 == m.state.wrapping_add(v) && x.1.verify("result") == m.id, "coroutine {} of {n} returned something else", m.id);
                drop(x);
                let m = pop.swap_remove(i);
                check!(m.co.done(), "not done");
                let s = m.co.into_stack();
                check!(s.base().get() > s.limit().get(), "stack bounds");
                if r.chance(1, 2) {
                    spare.push(s);
                }
                let m = new(r, &mut spare);
                pop.push(m);
            }
        }
    }
    if UNWIND {
        drop(pop);
    } else {
        for mut m in pop {
            let mut v = 0;
            while m.co.started() && !m.co.done() {
                m.co.resume(v);
                v += 1;
            }
        }
    }
    ledger::assert_empty("the end of the population");
    st.distinct(r.next());
    st.add("population", n as u64);
    st.add("operations", ops);
    st.sample(|| format!("population of {n}, {ops} operations"));
}

// ---------------------------------------------------------------- ladder
/// `left` more rungs; returns a checksum of the way.
fn rung(left: u32, kinds: &[u8], y: Option<&Yielder<u64, u64>>, acc: u64, fail: u32) -> u64 {
    let _n = Noisy(left as usize, fresh());
    if left == fail {
        panic_any(Payload(acc, fresh()));
    }
    if left == 0 {
        return acc;
    }
    let k = kinds[left as usize % kinds.len()];
    let acc = acc.wrapping_mul(33).wrapping_add(k as u64 ^ left as u64);
    let got = match (k, y) {
        (0, _) => rung(left - 1, kinds, y, acc, fail),
        (1, _) => on_stack(DefaultStack::new(plan().stack).unwrap(), || rung(left - 1, kinds, y, acc, fail)),
        (2, Some(y)) => {
            let f = Shout(|| rung(left - 1, kinds, None, acc, fail));
            y.on_parent_stack(move || {
                let f = f;
                let g: &Shout<_> = &f;
                (g.0)()
            })
        }
        (_, _) => {
            // a new coroutine runs the rest
            let kinds2 = kinds.to_vec();
            let mut co: Coroutine<u64, u64, u64, DefaultStack> = Coroutine::with_stack(DefaultStack::new(plan().stack).unwrap(), move |y: &Yielder<u64, u64>, a: u64| {
                let b = y.suspend(a);
                check!(b == a, "value changed");
                rung(left - 1, &kinds2, Some(y), a, fail)
            });
            check!(co.resume(acc).as_yield() == Some(acc), "value changed");
            co.resume(acc).as_return().unwrap()
        }
    };
    check!(black_box(&_n).0 == left as usize, "a local changed");
    got
}
fn ladder_case(r: &mut Rng, st: &mut Stats) {
    st.evals += 1;
    ledger::reset();
    let n = r.range(2, 260) as u32;
    let kinds: Vec<u8> = (0..r.range(1, 12)).map(|_| r.below(4) as u8).collect();
    let p = Plan { levels: vec![], yields: 0, end: End::Never, stack: 1 << 20 };
    unsafe {
        PLAN = &p;
        (*std::ptr::addr_of_mut!(LOG)).clear();
    }
    let fail = if UNWIND && r.chance(1, 2) { r.range(0, n as usize) as u32 } else { u32::MAX };
    let start = r.next();
    let mut want = start;
    let stop = if fail == u32::MAX { 0 } else { fail };
    for left in (stop + 1..=n).rev() {
        want = want.wrapping_mul(33).wrapping_add(kinds[left as usize % kinds.len()] as u64 ^ left as u64);
    }
    let res = catch_unwind(AssertUnwindSafe(|| rung(n, &kinds, None, start, fail)));
    match &res {
        Ok(v) => check!(fail == u32::MAX && *v == want, "ladder of {n} ({kinds:?}) gave {v:#x}, expected {want:#x}"),
        Err(e) => match e.downcast_ref::<Payload>() {
            Some(p) => check!(fail != u32::MAX && p.0 == want && p.1.verify("payload") > 0, "ladder of {n} ({kinds:?}): payload {:#x}, expected {want:#x}", p.0),
            None => vh::viol!("ladder of {n} ({kinds:?}): another panic"),
        },
    }
    drop(res);
    let log = unsafe { &*std::ptr::addr_of!(LOG) };
    check!(log.iter().map(|e| e.1).eq(stop..=n), "ladder of {n} ({kinds:?}): locals were dropped in the wrong order");
    ledger::assert_empty("the end of the ladder");
    st.distinct(vh::rng::hash(format!("{n}{kinds:?}{fail}").as_bytes()));
    st.add("rungs", n as u64);
    st.add(if fail == u32::MAX { "climbed" } else { "fell" }, 1);
    st.sample(|| format!("ladder of {n}, kinds {kinds:?}, panic at {fail}"));
}

// --------------------------------------------------------------- collide
/// A forced unwind is intercepted and its payload kept; after a certain number
/// of other forced unwinds on the same stack, another one is replaced by it.
/// The caller of that one must be given the old payload.
#[cfg(feature = "unwind")]
fn collide_case(r: &mut Rng, st: &mut Stats) {
    use std::any::Any;
    use std::sync::Mutex;
    let k = if r.chance(1, 30) { 12 + r.us(5) } else { r.us(11) };
    let gap = ((1usize << k) + r.us(3)).saturating_sub(2);
    let mut stack = DefaultStack::new(64 << 10).unwrap_or_else(|e| rep::inconclusive(&e.to_string()));
    let sp = &mut stack as *mut DefaultStack;
    let mk = |f: Box<dyn FnOnce(&Yielder<(), ()>)>| Coroutine::<(), (), (), &'static mut DefaultStack>::with_stack(unsafe { &mut *sp }, move |y, ()| f(y));
    let kept: &'static Mutex<Option<Box<dyn Any + Send>>> = Box::leak(Box::new(Mutex::new(None)));
    let again = r.chance(1, 3);
    {
        let mut a = mk(Box::new(move |y| {
            let e = catch_unwind(AssertUnwindSafe(|| y.suspend(())));
            *kept.lock().unwrap() = Some(e.expect_err("forced unwinding"));
            if again {
                y.suspend(());
            }
        }));
        a.resume(());
        check!(catch_unwind(AssertUnwindSafe(|| a.force_unwind())).is_err(), "an intercepted forced unwind was not reported");
        check!(a.done() != again, "status after an interception");
    }
    let at = |b: &Box<dyn Any + Send>| &**b as *const dyn Any as *const u8 as usize;
    let place = at(kept.lock().unwrap().as_ref().expect("payload"));
    for i in 0..gap {
        let mut c = mk(Box::new(|y| {
            y.suspend(());
            viol!("code ran after a forced unwind")
        }));
        c.resume(());
        if i % 2 == 0 {
            c.force_unwind();
            check!(c.done(), "not done after a forced unwind");
        }
    }
    let mut b = mk(Box::new(move |y| {
        let e = catch_unwind(AssertUnwindSafe(|| y.suspend(())));
        drop(e.expect_err("forced unwinding"));
        resume_unwind(kept.lock().unwrap().take().unwrap());
    }));
    b.resume(());
    match catch_unwind(AssertUnwindSafe(|| b.force_unwind())) {
        Ok(()) => viol!("a forced unwind was replaced by the payload of another one, {} unwinds ago, and force_unwind reported success", gap + 1),
        Err(e) => check!(at(&e) == place, "another payload than the one thrown came out of force_unwind"),
    }
    check!(b.done(), "not done");
    drop(b);
    st.evals += 1;
    st.distinct((gap as u64) << 1 | again as u64);
    st.add("forced_unwinds", gap as u64 + 2);
    st.add("replaced_unwinds", 1);
    st.sample(|| format!("payload rethrown after {gap} other unwinds"));
}

fn main() {
    let a = rep::args();
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = Stats::new();
    for case in a.cases() {
        rep::case(case, &a.profile);
        let mut r = Rng::new(a.seed, case);
        match a.profile.as_str() {
            "wide" => wide_case(&mut r, &mut st),
            "ladder" => ladder_case(&mut r, &mut st),
            #[cfg(feature = "unwind")]
            "collide" => collide_case(&mut r, &mut st),
            _ => chain_case(&mut r, &mut st),
        }
    }
    st.finish()
}
