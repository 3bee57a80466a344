//! Values of many types that are generated deterministically and compared bit
//! for bit or by identity.
use crate::check;
use crate::rng::Rng;
use std::any::Any;
use std::num::*;
use std::rc::Rc;
use std::time::Duration;

pub trait V: 'static + Sized {
    fn gen(r: &mut Rng) -> Self;
    fn same(a: &Self, b: &Self) -> bool;
}
impl<const N: usize> V for [u8; N] {
    fn gen(r: &mut Rng) -> Self {
        let mut b = [0u8; N];
        // Often extreme bytes.
        let m = r.below(6);
        for c in b.chunks_mut(8) {
            let x = match m {
                0 => 0u64,
                1 => !0,
                _ => r.next(),
            }
            .to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
        b
    }
    fn same(a: &Self, b: &Self) -> bool {
        a == b
    }
}
macro_rules! aligned {
    ($($n:ident $a:literal;)*) => { $(
        #[repr(align($a))]
        pub struct $n<const N: usize>(pub [u8; N]);
        impl<const N: usize> V for $n<N> {
            fn gen(r: &mut Rng) -> Self { $n(V::gen(r)) }
            fn same(a: &Self, b: &Self) -> bool { a.0 == b.0 }
        }
    )* };
}
aligned!(A2 2; A4 4; A8 8; A16 16; A32 32; A64 64; A128 128; A256 256; A512 512; A1024 1024; A4096 4096;);
macro_rules! ints {
    ($($t:ty)*) => { $( impl V for $t {
        fn gen(r: &mut Rng) -> Self {
            match r.below(5) { 0 => <$t>::MAX, 1 => <$t>::MIN, 2 => 0, _ => r.next() as $t ^ ((r.next() as u128) << 64) as $t }
        }
        fn same(a: &Self, b: &Self) -> bool { a == b }
    } )* };
}
ints!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
macro_rules! eqs {
    ($($t:ty, |$r:ident| $e:expr;)*) => { $( impl V for $t {
        fn gen($r: &mut Rng) -> Self { $e }
        fn same(a: &Self, b: &Self) -> bool { a == b }
    } )* };
}
static BYTES: [u8; 256] = [7; 256];
static NAMES: [&str; 4] = ["", "a", "some text", "αβγ"];
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E3 {
    A,
    B(u8),
    C(u16, u8),
    D { x: u32 },
}
#[derive(PartialEq)]
pub enum E9 {
    S(String),
    N(u64, u64),
    U,
}
#[derive(Clone, Copy, PartialEq)]
#[repr(C, packed)]
pub struct P7 {
    a: u8,
    b: u32,
    c: u16,
}
#[derive(Clone, Copy, PartialEq)]
#[repr(C, packed)]
pub struct P9 {
    a: u8,
    b: u64,
}
eqs! {
    (), |_r| ();
    bool, |r| r.chance(1, 2);
    char, |r| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{10ffff}');
    Option<bool>, |r| match r.below(3) { 0 => None, 1 => Some(false), _ => Some(true) };
    Option<Option<bool>>, |r| match r.below(4) { 0 => None, 1 => Some(None), 2 => Some(Some(false)), _ => Some(Some(true)) };
    Option<u8>, |r| if r.chance(1, 3) { None } else { Some(r.next() as u8) };
    Option<u32>, |r| if r.chance(1, 3) { None } else { Some(r.next() as u32) };
    Option<u64>, |r| if r.chance(1, 3) { None } else { Some(r.next()) };
    Option<NonZeroU8>, |r| NonZeroU8::new(r.below(4) as u8);
    Option<NonZeroU32>, |r| NonZeroU32::new(r.below(4) as u32);
    Option<NonZeroUsize>, |r| NonZeroUsize::new(r.below(4) as usize);
    Option<char>, |r| char::from_u32(r.below(0x20_0000) as u32);
    Option<()>, |r| if r.chance(1, 2) { None } else { Some(()) };
    Result<(), ()>, |r| if r.chance(1, 2) { Ok(()) } else { Err(()) };
    Result<u16, u8>, |r| if r.chance(1, 2) { Ok(r.next() as u16) } else { Err(r.next() as u8) };
    Result<String, u64>, |r| if r.chance(1, 2) { Ok(format!("{:x}", r.next())) } else { Err(r.next()) };
    Option<&'static u8>, |r| if r.chance(1, 3) { None } else { Some(&BYTES[r.us(256)]) };
    &'static str, |r| *r.pick(&NAMES);
    &'static [u8], |r| { let a = r.us(200); &BYTES[a..a + r.us(50)] };
    String, |r| format!("{:x}", r.next());
    Option<String>, |r| if r.chance(1, 3) { None } else { Some(format!("{:x}", r.next())) };
    Vec<u16>, |r| (0..r.us(9)).map(|_| r.next() as u16).collect();
    Box<u64>, |r| Box::new(r.next());
    Option<Box<u64>>, |r| if r.chance(1, 3) { None } else { Some(Box::new(r.next())) };
    Box<[u8]>, |r| vec![r.next() as u8; r.us(20)].into_boxed_slice();
    Rc<u32>, |r| Rc::new(r.next() as u32);
    std::cmp::Ordering, |r| *r.pick(&[std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater]);
    (u8, u16), |r| (r.next() as u8, r.next() as u16);
    (u32, u8), |r| (r.next() as u32, r.next() as u8);
    (u8, u64), |r| (r.next() as u8, r.next());
    (u32, u32), |r| (r.next() as u32, r.next() as u32);
    (u32, u32, u32), |r| (r.next() as u32, r.next() as u32, r.next() as u32);
    (u64, u64), |r| (r.next(), r.next());
    (usize, bool), |r| (r.next() as usize, r.chance(1, 2));
    E3, |r| match r.below(4) { 0 => E3::A, 1 => E3::B(r.next() as u8), 2 => E3::C(r.next() as u16, r.next() as u8), _ => E3::D { x: r.next() as u32 } };
    E9, |r| match r.below(3) { 0 => E9::S(format!("{}", r.next())), 1 => E9::N(r.next(), r.next()), _ => E9::U };
    Box<E9>, |r| Box::new(V::gen(r));
    [u16; 3], |r| [r.next() as u16, r.next() as u16, r.next() as u16];
    [u32; 3], |r| [r.next() as u32, r.next() as u32, r.next() as u32];
    Duration, |r| Duration::new(r.next() / 2, r.below(1_000_000_000) as u32);
    std::net::IpAddr, |r| if r.chance(1, 2) { std::net::IpAddr::from(<[u8; 4]>::gen(r)) } else { std::net::IpAddr::from(<[u8; 16]>::gen(r)) };
}
impl V for P7 {
    fn gen(r: &mut Rng) -> Self {
        P7 { a: r.next() as u8, b: r.next() as u32, c: r.next() as u16 }
    }
    fn same(a: &Self, b: &Self) -> bool {
        a == b
    }
}
impl V for P9 {
    fn gen(r: &mut Rng) -> Self {
        P9 { a: r.next() as u8, b: r.next() }
    }
    fn same(a: &Self, b: &Self) -> bool {
        a == b
    }
}
// Floats, including NaN patterns: moved as bits on x86_64. On i686 floats may
// travel through x87 registers in any Rust code, which quietens signalling
// NaNs, so only quiet patterns are produced there.
macro_rules! floats {
    ($($t:ty, $u:ty, $q:expr;)*) => { $( impl V for $t {
        fn gen(r: &mut Rng) -> Self {
            let mut b: $u = match r.below(6) { 0 => 0, 1 => 1 << (<$u>::BITS - 1), 2 => 1, 3 => !0, _ => r.next() as $u };
            if cfg!(target_arch = "x86") && <$t>::from_bits(b).is_nan() { b |= $q; }
            <$t>::from_bits(b)
        }
        fn same(a: &Self, b: &Self) -> bool { a.to_bits() == b.to_bits() }
    } )* };
}
floats!(f32, u32, 1 << 22; f64, u64, 1 << 51;);
impl V for [f64; 3] {
    fn gen(r: &mut Rng) -> Self {
        [V::gen(r), V::gen(r), V::gen(r)]
    }
    fn same(a: &Self, b: &Self) -> bool {
        (0..3).all(|i| f64::same(&a[i], &b[i]))
    }
}
impl V for (f32, f32) {
    fn gen(r: &mut Rng) -> Self {
        (V::gen(r), V::gen(r))
    }
    fn same(a: &Self, b: &Self) -> bool {
        f32::same(&a.0, &b.0) && f32::same(&a.1, &b.1)
    }
}
fn f0(x: u64) -> u64 {
    x.wrapping_mul(3)
}
fn f1(x: u64) -> u64 {
    x ^ 0x1234
}
impl V for fn(u64) -> u64 {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            f0
        } else {
            f1
        }
    }
    fn same(a: &Self, b: &Self) -> bool {
        a(99) == b(99)
    }
}
impl V for Option<fn(u64) -> u64> {
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => None,
            1 => Some(f0),
            _ => Some(f1),
        }
    }
    fn same(a: &Self, b: &Self) -> bool {
        a.map(|f| f(98)) == b.map(|f| f(98))
    }
}
impl V for Box<dyn Any> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            Box::new(r.next())
        } else {
            Box::new(format!("{}", r.next()))
        }
    }
    fn same(a: &Self, b: &Self) -> bool {
        match (a.downcast_ref::<u64>(), b.downcast_ref::<u64>()) {
            (Some(x), Some(y)) => x == y,
            (None, None) => a.downcast_ref::<String>().unwrap() == b.downcast_ref::<String>().unwrap(),
            _ => false,
        }
    }
}
impl V for Result<Box<u64>, Box<dyn Any + Send>> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            Ok(Box::new(r.next()))
        } else {
            Err(Box::new(r.next()))
        }
    }
    fn same(a: &Self, b: &Self) -> bool {
        match (a, b) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a.downcast_ref::<u64>().unwrap() == b.downcast_ref::<u64>().unwrap(),
            _ => false,
        }
    }
}
/// A value whose address of creation matters not, but that owns memory and is
/// counted.
pub struct Own<const N: usize>(Box<u64>, [u8; N]);
/// How many `Own` are alive in this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
thread_local!(static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
impl<const N: usize> V for Own<N> {
    fn gen(r: &mut Rng) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Own(Box::new(r.next()), V::gen(r))
    }
    fn same(a: &Self, b: &Self) -> bool {
        a.0 == b.0 && a.1 == b.1
    }
}
impl<const N: usize> Drop for Own<N> {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        check!(LIVE.with(|l| l.get()) >= 0, "an owned value was dropped twice");
    }
}

