//! Runs a program on the real library, comparing every event with what the
//! reference semantics predict at the moment it happens.
use crate::script::*;
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use vh::ledger::{self, Tracked};
use vh::sys::{self, OwnStack};
use vh::{check, viol};

pub struct AnyStack(std::mem::ManuallyDrop<Inner>);
pub enum Inner {
    Def(DefaultStack),
    Own(OwnStack),
}
impl AnyStack {
    fn def(s: DefaultStack) -> Self {
        AnyStack(std::mem::ManuallyDrop::new(Inner::Def(s)))
    }
    fn own(s: OwnStack) -> Self {
        AnyStack(std::mem::ManuallyDrop::new(Inner::Own(s)))
    }
    fn take(&mut self) -> Inner {
        unsafe { std::mem::ManuallyDrop::take(&mut self.0) }
    }
    fn into_inner(self) -> Inner {
        std::mem::ManuallyDrop::new(self).take()
    }
}
impl Drop for AnyStack {
    fn drop(&mut self) {
        drop(self.take());
    }
}
unsafe impl Stack for AnyStack {
    fn base(&self) -> StackPointer {
        match &*self.0 {
            Inner::Def(s) => s.base(),
            Inner::Own(s) => s.base(),
        }
    }
    fn limit(&self) -> StackPointer {
        match &*self.0 {
            Inner::Def(s) => s.limit(),
            Inner::Own(s) => s.limit(),
        }
    }
}
impl AnyStack {
    fn region(&self) -> (usize, usize) {
        (self.limit().get(), self.base().get())
    }
}

// ---------------------------------------------------------------- values
pub trait Val: Sized + 'static {
    fn make(id: u32) -> Self;
    /// Verifies the value and returns what identifies it.
    fn get(self) -> u32;
    fn proj(id: u32) -> u32 {
        id
    }
}
fn mix(id: u32) -> u64 {
    (id as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
impl Val for () {
    fn make(_: u32) {}
    fn get(self) -> u32 {
        0
    }
    fn proj(_: u32) -> u32 {
        0
    }
}
impl Val for u8 {
    fn make(id: u32) -> u8 {
        id as u8
    }
    fn get(self) -> u32 {
        self as u32
    }
    fn proj(id: u32) -> u32 {
        id & 0xff
    }
}
impl Val for [u8; 3] {
    fn make(id: u32) -> Self {
        [id as u8, (id >> 8) as u8, !(id as u8)]
    }
    fn get(self) -> u32 {
        check!(self[2] == !self[0], "value: damaged [u8;3] {self:?}");
        self[0] as u32 | (self[1] as u32) << 8
    }
    fn proj(id: u32) -> u32 {
        id & 0xffff
    }
}
impl Val for u64 {
    fn make(id: u32) -> Self {
        id as u64 | (!id as u64) << 32
    }
    fn get(self) -> u32 {
        check!(!(self >> 32) as u32 == self as u32, "value: damaged u64 {self:x}");
        self as u32
    }
}
impl Val for usize {
    fn make(id: u32) -> Self {
        !(id as usize)
    }
    fn get(self) -> u32 {
        let v = !self;
        check!(v < ledger::CAP, "value: damaged usize {self:x}");
        v as u32
    }
}
impl Val for u128 {
    fn make(id: u32) -> Self {
        id as u128 | (mix(id) as u128) << 64
    }
    fn get(self) -> u32 {
        check!((self >> 64) as u64 == mix(self as u32) && (self as u64) >> 32 == 0, "value: damaged u128 {self:x}");
        self as u32
    }
}
impl Val for f64 {
    fn make(id: u32) -> Self {
        // A signalling-NaN-like pattern, negative, with a payload.
        f64::from_bits(0xfff4_0000_0000_0000 | id as u64)
    }
    fn get(self) -> u32 {
        let b = self.to_bits();
        // Loads and stores through x87 registers may quieten NaNs on i686.
        check!(b >> 48 == 0xfff4 || (cfg!(target_arch = "x86") && b >> 48 == 0xfffc), "value: damaged f64 {b:x}");
        b as u32
    }
}
impl Val for (u8, u32) {
    fn make(id: u32) -> Self {
        (id as u8, id)
    }
    fn get(self) -> u32 {
        check!(self.0 == self.1 as u8, "value: damaged (u8,u32) {self:x?}");
        self.1
    }
}
impl Val for Tracked {
    fn make(id: u32) -> Self {
        Tracked::new(id)
    }
    fn get(self) -> u32 {
        self.verify("value")
    }
}
pub struct Zst(());
static mut ZSTS: i64 = 0;
impl Val for Zst {
    fn make(_: u32) -> Self {
        unsafe { ZSTS += 1 };
        Zst(())
    }
    fn get(self) -> u32 {
        0
    }
    fn proj(_: u32) -> u32 {
        0
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        unsafe { ZSTS -= 1 };
        check!(unsafe { ZSTS } >= 0, "a zero-sized value was dropped more often than created");
    }
}
pub struct Big([u64; 40], Tracked);
impl Val for Big {
    fn make(id: u32) -> Self {
        Big(std::array::from_fn(|i| mix(id).rotate_left(i as u32)), Tracked::new(id))
    }
    fn get(self) -> u32 {
        let id = self.1.verify("value");
        for (i, &v) in self.0.iter().enumerate() {
            check!(v == mix(id).rotate_left(i as u32), "value: damaged 320-byte value {id} at word {i}");
        }
        id
    }
}
#[repr(align(64))]
pub struct A64(u64, Tracked);
impl Val for A64 {
    fn make(id: u32) -> Self {
        A64(mix(id), Tracked::new(id))
    }
    fn get(self) -> u32 {
        check!(black_box(&self as *const _ as usize) % 64 == 0, "value: misaligned");
        let id = self.1.verify("value");
        check!(self.0 == mix(id), "value: damaged 64-aligned value {id}");
        id
    }
}
impl Val for Option<Box<u32>> {
    fn make(id: u32) -> Self {
        if id % 5 == 0 {
            None
        } else {
            Some(Box::new(id))
        }
    }
    fn get(self) -> u32 {
        self.map_or(0, |b| *b)
    }
    fn proj(id: u32) -> u32 {
        if id % 5 == 0 {
            0
        } else {
            id
        }
    }
}
impl Val for String {
    fn make(id: u32) -> Self {
        format!("value number {id}")
    }
    fn get(self) -> u32 {
        self.strip_prefix("value number ").and_then(|s| s.parse().ok()).unwrap_or_else(|| viol!("value: damaged string {self:?}"))
    }
}
impl Val for Box<dyn Any> {
    fn make(id: u32) -> Self {
        Box::new(Tracked::new(id))
    }
    fn get(self) -> u32 {
        match self.downcast::<Tracked>() {
            Ok(t) => t.verify("value"),
            Err(_) => viol!("value: dyn Any of the wrong type"),
        }
    }
}

macro_rules! combos {
    ($c:expr, $f:ident $args:tt) => {
        match $c {
            0 => combos!(@ $f u64, u64, u64, $args),
            1 => combos!(@ $f (), (), (), $args),
            2 => combos!(@ $f Tracked, Tracked, Tracked, $args),
            3 => combos!(@ $f u8, String, Big, $args),
            4 => combos!(@ $f Big, u8, String, $args),
            5 => combos!(@ $f Option<Box<u32>>, [u8; 3], u128, $args),
            6 => combos!(@ $f A64, A64, A64, $args),
            7 => combos!(@ $f usize, Option<Box<u32>>, Tracked, $args),
            8 => combos!(@ $f String, (), u64, $args),
            9 => combos!(@ $f Zst, Zst, Zst, $args),
            10 => combos!(@ $f u128, Tracked, (), $args),
            11 => combos!(@ $f [u8; 3], Big, Option<Box<u32>>, $args),
            12 => combos!(@ $f Tracked, usize, A64, $args),
            13 => combos!(@ $f f64, (u8, u32), Box<dyn Any>, $args),
            _ => unreachable!(),
        }
    };
    (@ $f:ident $i:ty, $y:ty, $r:ty, ($($a:expr),*)) => { $f::<$i, $y, $r>($($a),*) };
}
fn proj3<I: Val, Y: Val, R: Val>(id: u32) -> (u32, u32, u32) {
    (I::proj(id), Y::proj(id), R::proj(id))
}
pub fn proj(combo: u8, id: u32) -> (u32, u32, u32) {
    combos!(combo, proj3(id))
}

// ---------------------------------------------------------------- state
type Region = (usize, usize);
enum Slot {
    Empty,
    Busy,
    Idle(Box<dyn Co>),
}
pub struct Cx {
    p: *const Program,
    unwind: bool,
    slots: [Slot; SLOTS],
    pool: Vec<DefaultStack>,
    pool_own: Vec<OwnStack>,
    next: u32,
    budget: u32,
    active: usize,
    nco: u32,
    /// per coroutine: swallowing of forced unwinds allowed
    allow: Vec<bool>,
    /// per coroutine: stack region and frame of the most recent resumer
    parent: Vec<(Region, usize)>,
    region: Vec<Region>,
    /// per coroutine: stack on which it last suspended
    susp: Vec<Region>,
    unwinding: Vec<bool>,
    /// how often each was unwound
    unwound: Vec<u32>,
    /// forced-unwinding payloads that were caught and kept: (id, coroutine,
    /// which unwinding of it)
    stash: Vec<(u32, u32, u32, Box<dyn Any + Send>)>,
    /// those thrown again: (address, id)
    foreign: Vec<(usize, u32)>,
    expect: Vec<Ev>,
    pos: usize,
    pub switches: u64,
    pub kinds: [u64; 20],
}
static mut CX: Option<Cx> = None;
static mut ON: bool = false;
#[inline(never)]
fn cx() -> &'static mut Cx {
    unsafe { (*std::ptr::addr_of_mut!(CX)).as_mut().unwrap() }
}
fn ev_kind(e: &Ev) -> usize {
    match e {
        Ev::Start { .. } => 0,
        Ev::Got { .. } => 1,
        Ev::OutYield { .. } => 2,
        Ev::OutRet { .. } => 3,
        Ev::Local(_) => 4,
        Ev::Drop(_) => 5,
        Ev::Hook => 6,
        Ev::Caught { .. } => 7,
        Ev::Query { .. } => 8,
        Ev::Force { .. } => 9,
        Ev::OnStack(_) => 10,
        Ev::OnStackRet(_) => 11,
        Ev::OnParent(_) => 12,
        Ev::OnParentRet(_) => 13,
        Ev::IntoStack { .. } => 14,
        Ev::Dropped { .. } => 15,
        Ev::Skip(_) => 16,
        Ev::Defer => 17,
        Ev::End => 18,
    }
}
pub const KINDS: [&str; 19] = [
    "starts", "values_received", "yields_observed", "returns_observed", "locals", "tracked_drops", "hook_calls", "panics_caught", "queries", "force_unwinds",
    "on_stack_calls", "on_stack_returns", "on_parent_calls", "on_parent_returns", "stacks_extracted", "coroutines_dropped", "skipped_ops", "deferred_runs", "ends",
];
fn log(e: Ev) {
    let c = cx();
    if c.pos >= c.expect.len() || c.expect[c.pos] != e {
        let lo = c.pos.saturating_sub(6);
        let hi = (c.pos + 1).min(c.expect.len());
        viol!("event {} differs: observed {:?}, expected {:?}; before: {:?}", c.pos, e, c.expect.get(c.pos), &c.expect[lo..hi.max(1) - 1]);
    }
    c.pos += 1;
    c.kinds[ev_kind(&e)] += 1;
}
fn new_id() -> u32 {
    let c = cx();
    c.next += 1;
    c.next - 1
}

/// Logged drop
struct Tok(Tracked);
impl Tok {
    fn new(id: u32) -> Self {
        Tok(Tracked::new(id))
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        log(Ev::Drop(self.0.verify("local")));
    }
}
/// Panic payload
struct PTok(Tracked);

fn addr(p: &(dyn Any + Send)) -> usize {
    p as *const (dyn Any + Send) as *const u8 as usize
}
fn throw(k: PK) {
    if k == PK::Stashed {
        let c = cx();
        let (unwinding, unwound) = (&c.unwinding, &c.unwound);
        match c.stash.iter().position(|s| !unwinding[s.1 as usize] || unwound[s.1 as usize] != s.2) {
            Some(i) => {
                let (id, _, _, p) = c.stash.remove(i);
                c.foreign.push((addr(&*p), id));
                resume_unwind(p)
            }
            None => return log(Ev::Skip(10)),
        }
    }
    let id = new_id();
    match k {
        PK::Stashed => unreachable!(),
        PK::Any => panic_any(PTok(Tracked::new(id))),
        PK::Resume => resume_unwind(Box::new(PTok(Tracked::new(id)))),
        PK::Str => panic!("str {id}"),
    }
}
fn classify(p: &(dyn Any + Send)) -> Pay {
    let s: &str = if let Some(t) = p.downcast_ref::<PTok>() {
        return Pay::Tok(t.0.verify("payload"));
    } else if let Some(s) = p.downcast_ref::<String>() {
        s
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        s
    } else {
        let a = addr(p);
        return match cx().foreign.iter().find(|f| f.0 == a) {
            Some(f) => Pay::Foreign(f.1),
            None => Pay::Forced,
        };
    };
    match s.strip_prefix("str ").and_then(|x| x.parse().ok()) {
        Some(id) => Pay::Str(id),
        None => Pay::Lib,
    }
}
/// A caught payload is disposed of.
fn discard(p: Box<dyn Any + Send>) {
    let a = addr(&*p);
    cx().foreign.retain(|f| f.0 != a);
}
fn hook(_: &std::panic::PanicHookInfo<'_>) {
    if unsafe { ON } {
        log(Ev::Hook);
    }
}

// ---------------------------------------------------------------- coroutines
enum Out {
    Yield(u32),
    Ret(u32),
}
trait Co {
    fn resume(&mut self, id: u32) -> Out;
    fn force(&mut self);
    fn started(&self) -> bool;
    fn done(&self) -> bool;
    fn into_stack(self: Box<Self>) -> AnyStack;
    fn co(&self) -> u32;
}
struct Typed<I: Val, Y: Val, R: Val>(Coroutine<I, Y, R, AnyStack>, u32);
impl<I: Val, Y: Val, R: Val> Co for Typed<I, Y, R> {
    #[inline(never)]
    fn resume(&mut self, id: u32) -> Out {
        match self.0.resume(I::make(id)) {
            CoroutineResult::Yield(y) => Out::Yield(y.get()),
            CoroutineResult::Return(r) => Out::Ret(r.get()),
        }
    }
    fn force(&mut self) {
        self.0.force_unwind()
    }
    fn started(&self) -> bool {
        self.0.started()
    }
    fn done(&self) -> bool {
        self.0.done()
    }
    fn into_stack(self: Box<Self>) -> AnyStack {
        self.0.into_stack()
    }
    fn co(&self) -> u32 {
        self.1
    }
}
trait Susp {
    fn suspend(&self, id: u32) -> u32;
    fn on_parent(&self, f: &mut dyn FnMut() -> u32, kind: u32) -> u32;
}
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn into(self) -> T {
        self.0
    }
}
impl<I: Val, Y: Val> Susp for Yielder<I, Y> {
    #[inline(never)]
    fn suspend(&self, id: u32) -> u32 {
        self.suspend(Y::make(id)).get()
    }
    fn on_parent(&self, f: &mut dyn FnMut() -> u32, kind: u32) -> u32 {
        let f = AssertSend(f);
        match kind % 4 {
            0 => self.on_parent_stack(move || f.into()()),
            1 => self.on_parent_stack(move || Tracked::make(f.into()())).get(),
            2 => self.on_parent_stack(move || Big::make(f.into()())).get(),
            _ => {
                let pad = [kind as u64; 33];
                let f = AssertSend((f, pad));
                self.on_parent_stack(move || {
                    let (f, pad) = f.into();
                    let r = f.into()();
                    check!(black_box(&pad).iter().all(|&x| x == kind as u64), "capture of on_parent_stack damaged");
                    String::make(r)
                })
                .get()
            }
        }
    }
}

#[derive(Clone, Copy)]
struct Env<'a> {
    susp: Option<&'a dyn Susp>,
    co: u32,
    reg: Region,
    /// in a destructor that runs because of unwinding
    unwinding: bool,
}
impl Env<'_> {
    #[inline(always)]
    fn here(&self, what: &str) {
        let s = sys::sp();
        check!(s >= self.reg.0 && s < self.reg.1, "{what}: stack pointer {s:#x} outside of its stack {:x?}", self.reg);
    }
}

fn spawn<I: Val, Y: Val, R: Val>(stack: AnyStack, body: *const Vec<Op>, co: u32, cap: Tok, pad: u32) -> Box<dyn Co> {
    let reg = stack.region();
    let core = move |y: &Yielder<I, Y>, input: I, cap: Tok| -> R {
        let got = input.get();
        log(Ev::Start { co, v: got });
        let env = Env { susp: Some(y), co, reg, unwinding: false };
        env.here("coroutine");
        ops(&env, unsafe { &*body }, cx().unwind);
        let id = new_id();
        drop(cap);
        R::make(id)
    };
    let c = match pad % 4 {
        0 => Coroutine::with_stack(stack, move |y, i| core(y, i, cap)),
        1 => {
            let p = [co as u64 ^ 0x5555; 7];
            Coroutine::with_stack(stack, move |y, i| {
                let r = core(y, i, cap);
                check!(black_box(&p).iter().all(|&x| x == co as u64 ^ 0x5555), "capture damaged");
                r
            })
        }
        2 => {
            let p = A64(co as u64, Tracked::new(60000 + co));
            Coroutine::with_stack(stack, move |y, i| {
                let p = p;
                check!(black_box(&p as *const _ as usize) % 64 == 0, "captured variable misaligned");
                let r = core(y, i, cap);
                p.1.verify("capture");
                check!(p.0 == co as u64, "capture damaged");
                r
            })
        }
        _ => {
            let p = [co as u8; 901];
            Coroutine::with_stack(stack, move |y, i| {
                let r = core(y, i, cap);
                check!(black_box(&p).iter().all(|&x| x == co as u8), "capture damaged");
                r
            })
        }
    };
    Box::new(Typed(c, co))
}

fn make_stack(k: StackKind, pooled: bool) -> AnyStack {
    let c = cx();
    match k {
        StackKind::Pooled if pooled && !c.pool_own.is_empty() => AnyStack::own(c.pool_own.pop().unwrap()),
        StackKind::Pooled if pooled && !c.pool.is_empty() => AnyStack::def(c.pool.pop().unwrap()),
        StackKind::Pooled => AnyStack::def(DefaultStack::new(700 * 1024).unwrap()),
        StackKind::Default(kb) => AnyStack::def(DefaultStack::new(kb as usize * 1024).unwrap()),
        StackKind::Own => AnyStack::own(OwnStack::new(680 * 1024, 0, 0)),
    }
}

// ---------------------------------------------------------------- execution
enum LItem {
    Tr(#[allow(dead_code)] Tok),
    Defer(*const Vec<Op>),
    Co(Box<dyn Co>),
}
/// The last field tells that the scope was left normally.
struct Locals<'e, 'a>(Vec<LItem>, &'e Env<'a>, bool);
impl Drop for Locals<'_, '_> {
    fn drop(&mut self) {
        /// Goes on when a destructor is unwound.
        struct Rest<'x, 'e, 'a>(&'x mut Locals<'e, 'a>, bool);
        impl Drop for Rest<'_, '_, '_> {
            fn drop(&mut self) {
                if !self.1 {
                    self.0 .2 = false;
                    run(self.0);
                }
            }
        }
        fn run(l: &mut Locals) {
            let mut r = Rest(l, false);
            while let Some(i) = r.0 .0.pop() {
                match i {
                    LItem::Tr(t) => drop(t),
                    LItem::Defer(o) => {
                        log(Ev::Defer);
                        let env = Env { unwinding: r.0 .1.unwinding || !r.0 .2, ..*r.0 .1 };
                        env.here("destructor");
                        catch(&env, unsafe { &*o }, CatchMode::Swallow, true);
                    }
                    LItem::Co(c) => drop_co(r.0 .1, c),
                }
            }
            r.1 = true;
        }
        run(self)
    }
}
struct Canary([u64; 6], u64);
impl Canary {
    #[inline(always)]
    fn new(x: u64) -> Self {
        let mut c = Canary([0; 6], x);
        for (i, v) in c.0.iter_mut().enumerate() {
            *v = x.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(i as u32 * 7);
        }
        black_box(&mut c);
        c
    }
}
impl Drop for Canary {
    fn drop(&mut self) {
        let s = black_box(&*self);
        for (i, &v) in s.0.iter().enumerate() {
            check!(v == s.1.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(i as u32 * 7), "a local array on the stack was overwritten");
        }
    }
}
fn ops(env: &Env, list: &[Op], can: bool) {
    let mut locals = Locals(vec![], env, false);
    let _c = Canary::new(cx().next as u64);
    for op in list {
        if cx().budget == 0 {
            continue;
        }
        cx().budget -= 1;
        exec(env, op, &mut locals.0, can);
    }
    locals.2 = true;
    drop(_c);
}
fn catch(env: &Env, list: &[Op], mode: CatchMode, outer_can: bool) {
    let r = catch_unwind(AssertUnwindSafe(|| ops(env, list, true)));
    let Err(p) = r else { return };
    env.here("catch");
    let pay = classify(&*p);
    log(Ev::Caught { p: pay, panicking: std::thread::panicking() });
    let allow = cx().allow[env.co as usize];
    let mut mode = if pay == Pay::Forced && !allow { CatchMode::Rethrow } else { mode };
    if !outer_can {
        mode = CatchMode::Swallow;
    }
    match mode {
        CatchMode::Swallow => {
            if pay == Pay::Forced && cx().stash.len() < STASH {
                let id = new_id();
                let c = cx();
                c.stash.push((id, env.co, c.unwound[env.co as usize], p));
            } else {
                discard(p)
            }
        }
        CatchMode::Rethrow => resume_unwind(p),
        CatchMode::Replace(k) => {
            discard(p);
            throw(k)
        }
    }
}
fn enter_bookkeeping(env: &Env, co: u32, unwind: bool) {
    let c = cx();
    c.parent[co as usize] = (env.reg, sys::sp());
    c.unwinding[co as usize] = unwind;
    c.unwound[co as usize] += unwind as u32;
    c.active += 1;
    c.switches += 1;
}
/// Undoes enter_bookkeeping even when unwinding.
struct Leave(u32);
impl Drop for Leave {
    fn drop(&mut self) {
        cx().unwinding[self.0 as usize] = false;
        cx().active -= 1;
    }
}
struct PutBack {
    slot: usize,
    co: Option<Box<dyn Co>>,
}
impl Drop for PutBack {
    fn drop(&mut self) {
        cx().slots[self.slot] = Slot::Idle(self.co.take().unwrap());
    }
}
#[inline(never)]
fn do_resume(env: &Env, c: &mut dyn Co, id: u32) -> Out {
    let co = c.co();
    env.here("resumer");
    let _c = Canary::new(id as u64 + 77);
    enter_bookkeeping(env, co, false);
    let l = Leave(co);
    sys::scramble(id as usize);
    let o = c.resume(id);
    drop(l);
    env.here("resumer after resume");
    o
}
fn suspend(env: &Env) {
    let id = new_id();
    let _c = Canary::new(id as u64 + 99);
    let y = env.susp.unwrap();
    sys::scramble(!(id as usize));
    cx().susp[env.co as usize] = env.reg;
    let v = y.suspend(id);
    env.here("coroutine after suspend");
    log(Ev::Got { co: env.co, v });
}
fn drop_co(env: &Env, mut c: Box<dyn Co>) {
    let co = c.co();
    if !cx().unwind {
        // Dropping a suspended coroutine would abort: run it to its end.
        while c.started() && !c.done() {
            let id = new_id();
            match do_resume(env, &mut *c, id) {
                Out::Yield(v) => log(Ev::OutYield { co, v }),
                Out::Ret(v) => log(Ev::OutRet { co, v }),
            }
        }
    }
    // May run code on that stack.
    enter_bookkeeping(env, co, true);
    let l = Leave(co);
    drop(c);
    drop(l);
    env.here("after drop");
    log(Ev::Dropped { co });
}
fn take(s: usize) -> Option<Box<dyn Co>> {
    let sl = &mut cx().slots[s];
    match std::mem::replace(sl, Slot::Busy) {
        Slot::Idle(c) => Some(c),
        o => {
            *sl = o;
            None
        }
    }
}
fn resume_slot(env: &Env, s: usize, can: bool) -> bool {
    let c = if cx().active < MAX_ACTIVE { take(s) } else { None };
    let Some(c) = c else {
        log(Ev::Skip(0));
        return false;
    };
    let mut pb = PutBack { slot: s, co: Some(c) };
    let c = pb.co.as_mut().unwrap();
    if c.done() && !can {
        log(Ev::Skip(1));
        return false;
    }
    let id = new_id();
    let co = c.co();
    let o = do_resume(env, &mut **c, id);
    check!(matches!(o, Out::Ret(_)) == c.done(), "done() disagrees with the result of resume");
    drop(pb);
    match o {
        Out::Yield(v) => log(Ev::OutYield { co, v }),
        Out::Ret(v) => log(Ev::OutRet { co, v }),
    }
    true
}
fn pick(s: u8, live: bool) -> usize {
    let c = cx();
    let order = (0..SLOTS).map(|i| (s as usize + i) % SLOTS);
    if live && c.budget % 4 != 0 {
        for s in order.clone() {
            if matches!(&c.slots[s], Slot::Idle(c) if !c.done()) {
                return s;
            }
        }
    }
    for s in order {
        if matches!(c.slots[s], Slot::Idle(_)) {
            return s;
        }
    }
    s as usize
}
struct LogDropped(u32);
impl Drop for LogDropped {
    fn drop(&mut self) {
        cx().unwinding[self.0 as usize] = false;
        cx().active -= 1;
        log(Ev::Dropped { co: self.0 });
    }
}
#[inline(never)]
fn exec(env: &Env, op: &Op, locals: &mut Vec<LItem>, can: bool) {
    env.here("exec");
    match op {
        Op::Yield | Op::YieldN(_) if env.unwinding => log(Ev::Skip(11)),
        Op::Yield => suspend(env),
        Op::YieldN(n) => {
            for _ in 0..*n {
                suspend(env);
            }
        }
        Op::Local => {
            let id = new_id();
            log(Ev::Local(id));
            locals.push(LItem::Tr(Tok::new(id)));
        }
        Op::Block(o) => ops(env, o, can),
        Op::Catch(o, m) => catch(env, o, *m, can),
        Op::Panic(k) => {
            if can {
                throw(*k)
            } else {
                log(Ev::Skip(2))
            }
        }
        Op::OnStack(o, sk) => {
            let tok = new_id();
            log(Ev::OnStack(tok));
            let t = Tok::new(tok);
            let st = make_stack(*sk, false);
            let inner = Env { reg: st.region(), ..*env };
            let f = move || {
                let t = t;
                inner.here("on_stack");
                ops(&inner, o, cx().unwind);
                let id = new_id();
                drop(t);
                id
            };
            let _c = Canary::new(tok as u64 + 5);
            cx().switches += 1;
            sys::scramble(tok as usize);
            let r = match tok % 4 {
                0 => on_stack(st, f),
                1 => on_stack(st, move || Tracked::make(f())).get(),
                2 => on_stack(st, move || Big::make(f())).get(),
                _ => {
                    let pad = [tok; 51];
                    on_stack(st, move || {
                        let r = f();
                        check!(black_box(&pad).iter().all(|&x| x == tok), "capture of on_stack damaged");
                        String::make(r)
                    })
                    .get()
                }
            };
            env.here("after on_stack");
            log(Ev::OnStackRet(r));
        }
        Op::OnParent(o) => {
            let tok = new_id();
            log(Ev::OnParent(tok));
            let (reg, psp) = cx().parent[env.co as usize];
            let mut t = Some(Tok::new(tok));
            let inner = Env { susp: None, reg, ..*env };
            let mut f = || {
                let t = t.take().expect("closure called twice");
                inner.here("on_parent_stack");
                let s = sys::sp();
                check!(s < psp, "on_parent_stack at {s:#x} does not lie below the resumer's frame at {psp:#x}");
                ops(&inner, o, cx().unwind);
                let id = new_id();
                drop(t);
                id
            };
            let _c = Canary::new(tok as u64 + 6);
            cx().switches += 1;
            sys::scramble(tok as usize);
            let r = env.susp.unwrap().on_parent(&mut f, tok);
            env.here("after on_parent_stack");
            log(Ev::OnParentRet(r));
        }
        Op::Defer(o) => locals.push(LItem::Defer(o)),
        Op::Spawn { slot, body, combo, stack } => {
            let s = *slot as usize;
            if matches!(cx().slots[s], Slot::Busy) {
                log(Ev::Skip(3));
                return;
            }
            let cap = new_id();
            let tok = Tok::new(cap);
            let st = make_stack(*stack, true);
            let co = cx().nco;
            cx().nco += 1;
            cx().allow.push(false);
            cx().parent.push(((0, 0), 0));
            cx().region.push(st.region());
            cx().susp.push((0, 0));
            cx().unwinding.push(false);
            cx().unwound.push(0);
            let body = unsafe { &(&(*cx().p).bodies)[*body as usize] as *const Vec<Op> };
            let c = combos!(*combo, spawn(st, body, co, tok, cap));
            let old = std::mem::replace(&mut cx().slots[s], Slot::Idle(c));
            if let Slot::Idle(old) = old {
                drop_co(env, old);
            }
        }
        Op::Resume(s) => {
            resume_slot(env, pick(*s, true), can);
        }
        Op::Pump(s, n) => {
            let s = pick(*s, true);
            for _ in 0..*n {
                let go = matches!(&cx().slots[s], Slot::Idle(c) if !c.done());
                if !go || !resume_slot(env, s, can) {
                    break;
                }
            }
        }
        Op::Force(s) => {
            let s = pick(*s, true);
            let c = if cx().active < MAX_ACTIVE { take(s) } else { None };
            let Some(c) = c else {
                log(Ev::Skip(4));
                return;
            };
            let mut pb = PutBack { slot: s, co: Some(c) };
            let c = pb.co.as_mut().unwrap();
            let co = c.co();
            cx().allow[co as usize] = true;
            enter_bookkeeping(env, co, true);
            let l = Leave(co);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _c = Canary::new(co as u64 + 3);
                c.force()
            }));
            drop(l);
            cx().allow[co as usize] = false;
            env.here("after force_unwind");
            let out = match &r {
                Ok(()) => FOut::Clean,
                Err(p) => match classify(&**p) {
                    Pay::Lib => FOut::Lib,
                    p => FOut::Panic(p),
                },
            };
            if let Err(p) = r {
                discard(p);
            }
            let (started, done) = (c.started(), c.done());
            drop(pb);
            log(Ev::Force { co, out, started, done, panicking: std::thread::panicking() });
        }
        Op::DropCo(s) => {
            let s = pick(*s, false);
            if let Some(c) = take(s) {
                cx().slots[s] = Slot::Empty;
                drop_co(env, c);
            } else {
                log(Ev::Skip(5))
            }
        }
        Op::Query(s) => {
            if let Slot::Idle(c) = &cx().slots[pick(*s, false)] {
                log(Ev::Query { co: c.co(), started: c.started(), done: c.done(), panicking: std::thread::panicking() });
            } else {
                log(Ev::Skip(6))
            }
        }
        Op::IntoStack(s) => {
            let s = pick(*s, false);
            let Some(c) = take(s) else {
                log(Ev::Skip(7));
                return;
            };
            let co = c.co();
            if c.done() {
                cx().slots[s] = Slot::Empty;
                let st = c.into_stack();
                check!(st.region() == cx().region[co as usize], "into_stack returned another stack");
                match st.into_inner() {
                    Inner::Def(s) => cx().pool.push(s),
                    Inner::Own(s) => cx().pool_own.push(s),
                }
                log(Ev::IntoStack { co });
            } else if cx().unwind && can {
                cx().slots[s] = Slot::Empty;
                enter_bookkeeping(env, co, true);
                let _g = LogDropped(co);
                drop(c.into_stack());
                viol!("into_stack of an incomplete coroutine did not panic");
            } else {
                cx().slots[s] = Slot::Idle(c);
                log(Ev::Skip(8));
            }
        }
        Op::Adopt(s) => {
            let s = pick(*s, true);
            if let Some(c) = take(s) {
                cx().slots[s] = Slot::Empty;
                locals.push(LItem::Co(c));
            } else {
                log(Ev::Skip(9))
            }
        }
    }
}

pub fn init() {
    std::panic::set_hook(Box::new(hook));
}
pub fn run(p: &Program, unwind: bool, expect: Vec<Ev>) -> Cx {
    ledger::reset();
    unsafe {
        CX = Some(Cx {
            p,
            unwind,
            slots: [const { Slot::Empty }; SLOTS],
            pool: vec![],
            pool_own: vec![],
            next: 1,
            budget: BUDGET,
            active: 1,
            nco: 1,
            allow: vec![false],
            parent: vec![((0, 0), 0)],
            region: vec![(0, 0)],
            susp: vec![(0, 0)],
            unwinding: vec![true],
            stash: vec![],
            foreign: vec![],
            unwound: vec![0],
            expect,
            pos: 0,
            switches: 0,
            kinds: [0; 20],
        });
        ON = true;
    }
    let env = Env { susp: None, co: 0, reg: sys::thread_stack(), unwinding: false };
    for op in &p.main {
        catch(&env, std::slice::from_ref(op), CatchMode::Swallow, true);
    }
    while let Some(s) = (0..SLOTS).find(|&s| matches!(cx().slots[s], Slot::Idle(_))) {
        let c = take(s).unwrap();
        cx().slots[s] = Slot::Empty;
        drop_co(&env, c);
    }
    log(Ev::End);
    unsafe { ON = false };
    let mut c = unsafe { (*std::ptr::addr_of_mut!(CX)).take().unwrap() };
    check!(c.pos == c.expect.len(), "execution ended early");
    check!(c.active == 1, "harness: active {}", c.active);
    c.pool.clear();
    ledger::assert_empty("the end of the program");
    check!(unsafe { ZSTS } == 0, "{} zero-sized value(s) leaked", unsafe { ZSTS });
    check!(!std::thread::panicking(), "the thread is left in panicking state");
    c
}
