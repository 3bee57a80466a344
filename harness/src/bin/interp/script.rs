//! Random coroutine programs.
use vh::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum PK {
    /// panic_any with a tracked token (hook runs)
    Any,
    /// resume_unwind with a tracked token (no hook)
    Resume,
    /// formatted string panic
    Str,
    /// resume_unwind with the forced-unwinding payload of another coroutine,
    /// caught and kept earlier
    Stashed,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum CatchMode {
    Swallow,
    Rethrow,
    Replace(PK),
}
#[derive(Clone, Debug, Hash)]
pub enum Op {
    Yield,
    YieldN(u8),
    Local,
    Block(Vec<Op>),
    Catch(Vec<Op>, CatchMode),
    Panic(PK),
    OnStack(Vec<Op>, StackKind),
    OnParent(Vec<Op>),
    Defer(Vec<Op>),
    Spawn { slot: u8, body: u8, combo: u8, stack: StackKind },
    Resume(u8),
    /// Resume until it is done or n times.
    Pump(u8, u8),
    Force(u8),
    DropCo(u8),
    Query(u8),
    IntoStack(u8),
    Adopt(u8),
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum StackKind {
    /// DefaultStack::new(kb * 1024)
    Default(u16),
    /// take one recovered by into_stack if there is one
    Pooled,
    /// Hand-made stack
    Own,
}
pub const SLOTS: usize = 6;
pub const COMBOS: u8 = 14;

pub struct Program {
    pub main: Vec<Op>,
    pub bodies: Vec<Vec<Op>>,
}

#[derive(Clone)]
pub struct Weights {
    w: [u32; 17],
    pub combos: Vec<u8>,
    no_swallow: bool,
    /// how often to throw kept payloads
    stashed: u8,
}
// order: Yield YieldN Local Block Catch Panic OnStack OnParent Defer Spawn Resume Pump Force DropCo Query IntoStack Adopt
pub fn weights(profile: &str, rng: &mut Rng) -> Weights {
    let mut w: [u32; 17] = match profile {
        // every construct
        "all" => [10, 3, 8, 5, 6, 4, 4, 4, 3, 8, 14, 4, 4, 3, 4, 2, 3],
        // no panics at all: ordering, nesting, stack calls
        "flow" => [14, 5, 6, 6, 0, 0, 6, 6, 2, 9, 18, 6, 0, 0, 4, 2, 0],
        "panic" => [8, 2, 8, 5, 10, 9, 4, 4, 4, 8, 14, 4, 1, 1, 3, 2, 2],
        "force" => [14, 3, 10, 6, 4, 1, 5, 3, 5, 9, 12, 3, 8, 7, 4, 2, 7],
        "intercept" => [14, 3, 8, 6, 12, 2, 4, 2, 3, 9, 12, 3, 14, 2, 5, 2, 2],
        // forced unwinding meets that of other coroutines
        "foreign" => [14, 3, 5, 4, 16, 8, 4, 2, 2, 10, 14, 4, 20, 1, 2, 1, 1],
        "life" => [10, 2, 4, 3, 5, 4, 2, 2, 1, 10, 14, 3, 6, 4, 14, 8, 2],
        "onstack" => [9, 2, 7, 4, 6, 4, 16, 6, 3, 7, 12, 3, 3, 3, 2, 2, 3],
        "onparent" => [9, 2, 7, 4, 5, 3, 4, 18, 3, 8, 14, 4, 3, 3, 2, 2, 3],
        "reuse" => [8, 2, 5, 3, 4, 4, 6, 3, 2, 14, 14, 6, 6, 2, 3, 14, 2],
        p => panic!("unknown profile {p}"),
    };
    // Swarm: switch some constructs off or up in each program.
    for i in 0..17 {
        if [0usize, 9, 10].contains(&i) {
            continue;
        }
        match rng.below(8) {
            0 => w[i] = 0,
            1 => w[i] *= 3,
            _ => {}
        }
    }
    let mut combos: Vec<u8> = (0..COMBOS).collect();
    if rng.chance(1, 3) {
        let k = rng.us(COMBOS as usize) as u8;
        combos = vec![k, (k + 1 + rng.us(3) as u8) % COMBOS];
    }
    Weights { w, combos, no_swallow: rng.chance(1, 4), stashed: if profile == "foreign" { 2 } else { rng.us(2) as u8 } }
}

fn pk(r: &mut Rng) -> PK {
    *r.pick(&[PK::Any, PK::Any, PK::Resume, PK::Str])
}
fn sk(r: &mut Rng) -> StackKind {
    match r.below(8) {
        0 | 1 => StackKind::Pooled,
        2 => StackKind::Own,
        3 => StackKind::Default(1536),
        _ => StackKind::Default(640 + 4 * r.below(17) as u16),
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub w: Weights,
    pub nbodies: usize,
}
#[derive(Clone, Copy)]
struct Ctx {
    can_yield: bool,
    depth: u32,
    in_defer: bool,
}
impl<'a> Gen<'a> {
    fn ops(&mut self, n: usize, c: Ctx) -> Vec<Op> {
        let mut v: Vec<Op> = (0..n).map(|_| self.op(c)).collect();
        if self.w.stashed == 2 && c.can_yield && c.depth < 3 && self.r.chance(1, 4) {
            // A payload kept at some place thrown again at the same place
            // later, perhaps while the coroutine is merely resumed.
            let y = |r: &mut Rng, t: Vec<Op>| {
                let mut o = vec![];
                if r.chance(1, 2) {
                    o.push(Op::Local);
                }
                o.push(Op::Yield);
                o.extend(t);
                o
            };
            v.push(Op::Catch(y(self.r, vec![]), CatchMode::Swallow));
            for _ in 0..self.r.below(3) {
                let o = self.op(c);
                v.push(o);
            }
            let m = if self.r.chance(2, 3) { CatchMode::Rethrow } else { CatchMode::Swallow };
            v.push(Op::Catch(y(self.r, vec![Op::Panic(PK::Stashed)]), m));
        }
        v
    }
    fn sub(&mut self, c: Ctx) -> Vec<Op> {
        let n = self.r.range(1, 5);
        self.ops(n, Ctx { depth: c.depth + 1, ..c })
    }
    fn pk(&mut self) -> PK {
        if self.w.stashed > 0 && self.r.chance(self.w.stashed as u64, 3) {
            PK::Stashed
        } else {
            pk(self.r)
        }
    }
    fn slot(&mut self) -> u8 {
        // Few slots are hot.
        if self.r.chance(2, 3) {
            self.r.below(3) as u8
        } else {
            self.r.us(SLOTS) as u8
        }
    }
    fn op(&mut self, c: Ctx) -> Op {
        loop {
            let k = self.r.weighted(&self.w.w);
            let nest_ok = c.depth < 4;
            let s = self.slot();
            return match k {
                0 if c.can_yield => Op::Yield,
                1 if c.can_yield => Op::YieldN(self.r.range(2, 9) as u8),
                0 | 1 => Op::Resume(s),
                2 => Op::Local,
                3 if nest_ok => Op::Block(self.sub(c)),
                4 if nest_ok => {
                    let m = match self.r.below(5) {
                        0 | 1 => CatchMode::Rethrow,
                        2 => CatchMode::Replace(self.pk()),
                        3 if self.w.stashed == 2 => CatchMode::Replace(self.pk()),
                        _ => CatchMode::Swallow,
                    };
                    let m = if self.w.no_swallow && m == CatchMode::Swallow && c.depth > 0 { CatchMode::Rethrow } else { m };
                    Op::Catch(self.sub(c), m)
                }
                5 => Op::Panic(self.pk()),
                6 if nest_ok => {
                    let ops = self.sub(c);
                    Op::OnStack(ops, sk(self.r))
                }
                7 if nest_ok && c.can_yield => {
                    // on_parent_stack closures cannot use the yielder.
                    Op::OnParent(self.sub(Ctx { can_yield: false, ..c }))
                }
                8 if nest_ok && !c.in_defer => Op::Defer(self.sub(Ctx { in_defer: true, ..c })),
                9 => Op::Spawn { slot: s, body: self.r.us(self.nbodies) as u8, combo: *self.r.pick(&self.w.combos), stack: sk(self.r) },
                10 => Op::Resume(s),
                11 => Op::Pump(s, self.r.range(2, 8) as u8),
                12 => Op::Force(s),
                13 => Op::DropCo(s),
                14 => Op::Query(s),
                15 => Op::IntoStack(s),
                16 => Op::Adopt(s),
                _ => continue,
            };
        }
    }
    pub fn program(&mut self) -> Program {
        let bodies = (0..self.nbodies)
            .map(|_| {
                let n = self.r.range(2, 9);
                self.ops(n, Ctx { can_yield: true, depth: 0, in_defer: false })
            })
            .collect();
        let n = self.r.range(8, 30);
        let mut main = vec![];
        for s in 0..self.r.range(1, 4) {
            main.push(Op::Spawn { slot: s as u8, body: self.r.us(self.nbodies) as u8, combo: *self.r.pick(&self.w.combos), stack: sk(self.r) });
        }
        main.extend(self.ops(n, Ctx { can_yield: false, depth: 0, in_defer: false }));
        Program { main, bodies }
    }
}

/// What the panic payload was, as seen at a catch site.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pay {
    Tok(u32),
    Str(u32),
    /// the library's own forced-unwinding payload
    Forced,
    /// a forced-unwinding payload that belongs to another coroutine
    Foreign(u32),
    /// a string panic raised by the library
    Lib,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOut {
    Clean,
    Lib,
    Panic(Pay),
}
/// Observable events. Values are ids projected to what their type can carry.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Start { co: u32, v: u32 },
    Got { co: u32, v: u32 },
    OutYield { co: u32, v: u32 },
    OutRet { co: u32, v: u32 },
    Local(u32),
    Drop(u32),
    Hook,
    Caught { p: Pay, panicking: bool },
    Query { co: u32, started: bool, done: bool, panicking: bool },
    Force { co: u32, out: FOut, started: bool, done: bool, panicking: bool },
    OnStack(u32),
    OnStackRet(u32),
    OnParent(u32),
    OnParentRet(u32),
    IntoStack { co: u32 },
    Dropped { co: u32 },
    Skip(u8),
    Defer,
    End,
}
/// How many forced-unwinding payloads to keep. With asm-unwind, coroutines that
/// were suspended at the same place one after the other share their payload's
/// identity.
pub const STASH: usize = if cfg!(feature = "asm-unwind") { 0 } else { 4 };
pub const BUDGET: u32 = 1200;
pub const MAX_ACTIVE: usize = 10;
