//! C01: transfers of values of many types, sizes and alignments.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult};
use std::any::Any;
use std::hint::black_box;
use std::num::*;
use std::rc::Rc;
use std::time::Duration;
use vh::check;
use vh::rep::{self, Stats};
use vh::rng::Rng;
use vh::vals::*;

struct Cx<'a> {
    stack: &'a mut DefaultStack,
    seed: u64,
    case: u64,
    rounds: u64,
    st: &'a mut Stats,
}
#[inline(never)]
fn eq<T: V>(got: T, want: T, what: &str, k: u64) {
    let at = black_box(&got) as *const T as usize;
    check!(at % std::mem::align_of::<T>() == 0, "{what} {k} of type {} is misaligned", std::any::type_name::<T>());
    check!(
        T::same(&got, &want),
        "{what} {k} of type {} (size {}, align {}) differs from what was sent",
        std::any::type_name::<T>(),
        std::mem::size_of::<T>(),
        std::mem::align_of::<T>()
    );
}
fn t<I: V, Y: V, R: V>(c: &mut Cx) {
    let (seed, case, n) = (c.seed, c.case, c.rounds);
    let rs = |k: u64| Rng::new(seed ^ (k << 40), case);
    let stack: &mut DefaultStack = c.stack;
    // The coroutine must not outlive this function; it is dropped below.
    let stack: &'static mut DefaultStack = unsafe { &mut *(stack as *mut _) };
    let (mut bi, mut by, mut br) = (rs(1), rs(2), rs(3));
    let mut co = Coroutine::<I, Y, R, _>::with_stack(stack, move |y, first| {
        eq(first, I::gen(&mut bi), "input", 0);
        for k in 0..n {
            let got = y.suspend(Y::gen(&mut by));
            eq(got, I::gen(&mut bi), "input", k + 1);
        }
        R::gen(&mut br)
    });
    let (mut ri, mut ry, mut rr) = (rs(1), rs(2), rs(3));
    // Results are looked at in the different ways that the API offers; asking
    // for the wrong kind must say so and destroy the value.
    for k in 0..n {
        let res = co.resume(I::gen(&mut ri));
        let want = Y::gen(&mut ry);
        match case.wrapping_add(k) % 4 {
            0 => match res.as_yield() {
                Some(v) => eq(v, want, "yield", k),
                None => vh::viol!("yield {k} of {n} was reported as a return"),
            },
            1 if n % 3 == 0 => check!(res.as_return().is_none(), "yield {k} of {n} was reported as a return"),
            _ => match res {
                CoroutineResult::Yield(v) => eq(v, want, "yield", k),
                CoroutineResult::Return(_) => vh::viol!("yield {k} of {n} was reported as a return"),
            },
        }
        check!(!co.done(), "done after a yield");
    }
    let res = co.resume(I::gen(&mut ri));
    let want = R::gen(&mut rr);
    match case % 4 {
        0 => match res.as_return() {
            Some(v) => eq(v, want, "return value", 0),
            None => vh::viol!("the return after {n} yields was reported as a yield"),
        },
        1 if n % 3 == 0 => {
            drop(want);
            check!(res.as_yield().is_none(), "the return after {n} yields was reported as a yield")
        }
        _ => match res {
            CoroutineResult::Yield(_) => vh::viol!("the return after {n} yields was reported as a yield"),
            CoroutineResult::Return(v) => eq(v, want, "return value", 0),
        },
    }
    check!(co.done(), "not done after a return");
    drop(co);
    check!(live() == 0, "{} owned value(s) leaked", live());
    c.st.evals += 1;
    c.st.add("values_transferred", 2 * n + 2);
    let key = vh::rng::hash(format!("{}/{}/{}", std::any::type_name::<I>(), std::any::type_name::<Y>(), std::any::type_name::<R>()).as_bytes());
    c.st.distinct(key.wrapping_add(n.min(2)));
    c.st.sample(|| format!("{n} yields with input {}, yield {}, return {}", std::any::type_name::<I>(), std::any::type_name::<Y>(), std::any::type_name::<R>()));
}
/// Types without values: a coroutine that cannot return, one that cannot yield.
fn never<I: V, T: V>(c: &mut Cx) {
    use std::convert::Infallible;
    let (seed, case, n) = (c.seed, c.case, c.rounds);
    let rs = |k: u64| Rng::new(seed ^ (k << 40), case);
    let stack: &'static mut DefaultStack = unsafe { &mut *(c.stack as *mut DefaultStack) };
    let stack2: &'static mut DefaultStack = unsafe { &mut *(c.stack as *mut DefaultStack) };
    let (mut bi, mut by) = (rs(1), rs(2));
    let mut co = Coroutine::<I, T, Infallible, _>::with_stack(stack, move |y, first| {
        eq(first, I::gen(&mut bi), "input", 0);
        let mut k = 0;
        loop {
            k += 1;
            let got = y.suspend(T::gen(&mut by));
            eq(got, I::gen(&mut bi), "input", k);
        }
    });
    let (mut ri, mut ry) = (rs(1), rs(2));
    for k in 0..=n {
        match co.resume(I::gen(&mut ri)) {
            CoroutineResult::Yield(v) => eq(v, T::gen(&mut ry), "yield of an endless coroutine", k),
            CoroutineResult::Return(r) => match r {},
        }
        check!(!co.done(), "an endless coroutine is done");
    }
    if cfg!(feature = "unwind") {
        co.force_unwind();
    } else {
        unsafe { co.force_reset() };
    }
    check!(co.done(), "not done");
    drop(co);
    let (mut bi, mut br) = (rs(1), rs(3));
    let mut co = Coroutine::<I, Infallible, T, _>::with_stack(stack2, move |_, first| {
        eq(first, I::gen(&mut bi), "input", 0);
        T::gen(&mut br)
    });
    let (mut ri, mut rr) = (rs(1), rs(3));
    match co.resume(I::gen(&mut ri)) {
        CoroutineResult::Yield(v) => match v {},
        CoroutineResult::Return(v) => eq(v, T::gen(&mut rr), "return value", 0),
    }
    check!(co.done(), "not done after a return");
    drop(co);
    check!(live() == 0, "{} owned value(s) leaked", live());
    c.st.evals += 1;
    c.st.add("values_transferred", 2 * n + 4);
    c.st.distinct(vh::rng::hash(format!("never/{}/{}", std::any::type_name::<I>(), std::any::type_name::<T>()).as_bytes()).wrapping_add(n.min(2)));
}
type F = fn(&mut Cx);
fn table() -> Vec<F> {
    let mut v: Vec<F> = vec![];
    macro_rules! same { ($($t:ty),* $(,)?) => { $( v.push(t::<$t, $t, $t>); )* } }
    macro_rules! mixed { ($($t:ty),* $(,)?) => { $( v.push(t::<$t, u16, [u8; 9]>); v.push(t::<[u8; 9], $t, ()>); v.push(t::<(), Box<u64>, $t>); )* } }
    macro_rules! bytes { ($($n:literal)*) => { $( v.push(t::<[u8; $n], [u8; $n], [u8; $n]>); )* } }
    bytes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 31 32 33 39 40 41 47 48 49 63 64 65 100 127 128 129 255 256 257 1000 1023 1024 1025 4096 4097 20000 65536);
    same!(
        A2<0>, A2<2>, A4<0>, A4<1>, A4<4>, A4<5>, A8<0>, A8<1>, A8<8>, A8<9>, A16<0>, A16<1>, A16<16>, A32<0>, A32<1>, A32<33>, A64<0>, A64<1>,
        A64<200>, A128<0>, A128<1>, A256<0>, A256<1>, A512<1>, A1024<0>, A1024<1>, A4096<0>, A4096<1>, A4096<5000>,
        u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128, f32, f64, [f64; 3], (f32, f32), (), bool, char,
        Option<bool>, Option<Option<bool>>, Option<u8>, Option<u32>, Option<u64>, Option<NonZeroU8>, Option<NonZeroU32>, Option<NonZeroUsize>,
        Option<char>, Option<()>, Result<(), ()>, Result<u16, u8>, Result<String, u64>, Option<&'static u8>, &'static str, &'static [u8],
        String, Option<String>, Vec<u16>, Box<u64>, Option<Box<u64>>, Box<[u8]>, Rc<u32>, std::cmp::Ordering, (u8, u16), (u32, u8), (u8, u64),
        (u32, u32), (u32, u32, u32), (u64, u64), (usize, bool), E3, E9, Box<E9>, [u16; 3], [u32; 3], Duration, std::net::IpAddr,
        fn(u64) -> u64, Option<fn(u64) -> u64>, Box<dyn Any>, Result<Box<u64>, Box<dyn Any + Send>>, P7, P9,
        Own<0>, Own<1>, Own<8>, Own<100>, Own<3000>,
    );
    mixed!(
        [u8; 0], u8, [u8; 3], u32, [u8; 5], [u8; 7], u64, f64, f32, u128, Own<0>, Own<16>, String, A16<1>, A64<0>, A128<9>, [u8; 2000], Option<bool>,
        Box<dyn Any>, Result<Box<u64>, Box<dyn Any + Send>>, (), bool, E3, P9
    );
    v.push(never::<u64, u64>);
    v.push(never::<(), ()>);
    v.push(never::<Own<8>, u8>);
    v.push(never::<u8, Own<100>>);
    v.push(never::<String, [u8; 33]>);
    v.push(never::<A64<1>, Option<Box<u64>>>);
    v.push(t::<[u8; 200_000], u8, ()>);
    v.push(t::<u8, [u8; 200_000], ()>);
    v.push(t::<(), u8, [u8; 200_000]>);
    v
}
fn long<I: V, Y: V, R: V>(c: &mut Cx, n: u64) {
    c.rounds = n;
    t::<I, Y, R>(c);
}
fn main() {
    let a = rep::args();
    let mut st = Stats::new();
    let tab = table();
    let mut stack = DefaultStack::new(6 << 20).unwrap();
    let n = a.num("long", 300_000);
    for case in a.cases() {
        let mut r = Rng::new(a.seed, case);
        let mut c = Cx { stack: &mut stack, seed: a.seed, case, rounds: 0, st: &mut st };
        if a.profile == "long" {
            rep::case(case, "long");
            match case % 5 {
                0 => long::<u64, u64, u64>(&mut c, n),
                1 => long::<(), (), ()>(&mut c, n),
                2 => long::<[u8; 24], u8, String>(&mut c, n),
                3 => long::<Own<0>, Option<Box<u64>>, Own<9>>(&mut c, n / 4),
                _ => long::<u32, A64<7>, u16>(&mut c, n),
            }
            continue;
        }
        let k = case as usize % tab.len();
        rep::case(case, &format!("type entry {k}"));
        c.rounds = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => 40,
            _ => r.below(9),
        };
        tab[k](&mut c);
    }
    st.add("type_entries", tab.len() as u64);
    st.finish()
}
