//! Reference semantics: a small-step machine over explicit frame stacks. It
//! shares nothing with the library but the script language.
use crate::script::*;

#[derive(Clone, Copy, PartialEq)]
enum Exit {
    Normal,
    Unwind(Pay),
}
enum LItem {
    Tr(u32),
    Defer(*const [Op]),
    Co(usize),
}
enum Kind {
    Root { ret: Option<u32> },
    Ops(*const [Op], usize),
    Catch(CatchMode),
    OnStack { ret: Option<u32>, tok: u32 },
    OnParent { ret: Option<u32> },
    Temp,
    /// remaining yields of a YieldN
    YieldN(u8),
    /// remaining resumes of a Pump
    Pump(u8, u8),
}
struct Fr {
    kind: Kind,
    locals: Vec<LItem>,
    exiting: Option<Exit>,
}
fn fr(kind: Kind) -> Fr {
    Fr { kind, locals: vec![], exiting: None }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Unstarted,
    Suspended,
    Running,
    Done,
}
struct MCo {
    body: usize,
    combo: u8,
    cap: u32,
    stack: StackTok,
    frames: Vec<Fr>,
    status: Status,
    allow: bool,
    unwound: u32,
}
#[derive(Clone, Copy, PartialEq)]
enum StackTok {
    Default,
    Own,
}
#[derive(Clone, Copy)]
enum Why {
    Resume { slot: usize },
    Force { slot: usize },
    Drop,
    Drain,
}
enum Out {
    Yield(u32),
    Ret(u32),
    Panic(Pay),
}
#[derive(Clone, Copy, PartialEq)]
enum Slot {
    Empty,
    Busy,
    Idle(usize),
}
pub struct Machine<'a> {
    p: &'a Program,
    unwind: bool,
    cos: Vec<MCo>,
    active: Vec<(usize, Why)>,
    slots: [Slot; SLOTS],
    pool: usize,
    pool_own: usize,
    next: u32,
    budget: u32,
    inflight: i32,
    /// forced-unwinding payloads that were caught and kept: (id, coroutine,
    /// which unwinding of it
    stash: Vec<(u32, usize, u32)>,
    pub ev: Vec<Ev>,
    proj: fn(u8, u32) -> (u32, u32, u32),
}
// proj(combo, id) -> (as input, as yield, as return)

impl<'a> Machine<'a> {
    pub fn new(p: &'a Program, unwind: bool, proj: fn(u8, u32) -> (u32, u32, u32)) -> Self {
        Machine {
            p,
            unwind,
            cos: vec![],
            active: vec![],
            slots: [Slot::Empty; SLOTS],
            pool: 0,
            pool_own: 0,
            next: 1,
            budget: BUDGET,
            inflight: 0,
            stash: vec![],
            ev: vec![],
            proj,
        }
    }
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    fn cur(&self) -> usize {
        self.active.last().unwrap().0
    }
    fn top(&mut self) -> &mut Fr {
        let c = self.cur();
        self.cos[c].frames.last_mut().unwrap()
    }
    fn push(&mut self, f: Fr) {
        let c = self.cur();
        self.cos[c].frames.push(f);
    }
    fn can_panic(&self, skip: usize) -> bool {
        if self.unwind {
            return true;
        }
        let c = self.cur();
        for f in self.cos[c].frames.iter().rev().skip(skip) {
            match f.kind {
                Kind::Catch(_) => return true,
                Kind::Root { .. } | Kind::OnStack { .. } | Kind::OnParent { .. } => return false,
                _ => {}
            }
        }
        false
    }
    pub fn run(mut self) -> Vec<Ev> {
        // Coroutine 0 is the main context.
        self.cos.push(MCo { body: 0, combo: 0, cap: 0, stack: StackTok::Default, frames: vec![], status: Status::Running, allow: false, unwound: 0 });
        self.active.push((0, Why::Drop));
        for op in &self.p.main {
            self.push(fr(Kind::Catch(CatchMode::Swallow)));
            self.push(fr(Kind::Ops(std::slice::from_ref(op) as *const [Op], 0)));
            self.go();
        }
        // Destructors may create more coroutines in slots already visited.
        while let Some(s) = (0..SLOTS).find(|&s| matches!(self.slots[s], Slot::Idle(_))) {
            if let Slot::Idle(c) = self.slots[s] {
                self.slots[s] = Slot::Empty;
                let mut t = fr(Kind::Temp);
                t.locals.push(LItem::Co(c));
                t.exiting = Some(Exit::Normal);
                self.push(t);
                self.go();
            }
        }
        self.ev.push(Ev::End);
        assert_eq!(self.inflight, 0, "model: unbalanced");
        self.ev
    }
    fn go(&mut self) {
        while !(self.active.len() == 1 && self.cos[0].frames.is_empty()) {
            self.step();
        }
    }
    fn panic(&mut self, k: PK) {
        if k == PK::Stashed {
            // Not that of an unwinding which is still in progress.
            let (active, cos) = (&self.active, &self.cos);
            let in_progress = |c: usize, n| cos[c].unwound == n && active.iter().any(|a| a.0 == c && matches!(a.1, Why::Force { .. } | Why::Drop));
            match self.stash.iter().position(|&(_, c, n)| !in_progress(c, n)) {
                Some(i) => {
                    let (id, _, _) = self.stash.remove(i);
                    self.inflight += 1;
                    self.propagate(Pay::Foreign(id));
                }
                None => self.ev.push(Ev::Skip(10)),
            }
            return;
        }
        let id = self.id();
        let p = match k {
            PK::Any => {
                self.ev.push(Ev::Hook);
                Pay::Tok(id)
            }
            PK::Resume => Pay::Tok(id),
            PK::Str => {
                self.ev.push(Ev::Hook);
                Pay::Str(id)
            }
            PK::Stashed => unreachable!(),
        };
        self.inflight += 1;
        self.propagate(p);
    }
    fn lib_panic(&mut self) {
        self.ev.push(Ev::Hook);
        self.inflight += 1;
        self.propagate(Pay::Lib);
    }
    /// An unwinding reaches the current top frame.
    fn propagate(&mut self, p: Pay) {
        let c = self.cur();
        if self.cos[c].frames.is_empty() {
            return self.finish(Out::Panic(p));
        }
        let allow = self.cos[c].allow;
        let can = self.can_panic(1);
        let f = self.cos[c].frames.last_mut().unwrap();
        if let Kind::Catch(mode) = f.kind {
            self.cos[c].frames.pop();
            self.inflight -= 1;
            let panicking = self.inflight > 0;
            self.ev.push(Ev::Caught { p, panicking });
            let mut mode = if p == Pay::Forced && !allow { CatchMode::Rethrow } else { mode };
            if !can {
                mode = CatchMode::Swallow;
            }
            match mode {
                CatchMode::Swallow => {
                    if p == Pay::Forced && self.stash.len() < STASH {
                        let id = self.id();
                        self.stash.push((id, c, self.cos[c].unwound));
                    }
                }
                CatchMode::Rethrow => {
                    self.inflight += 1;
                    self.propagate(p);
                }
                CatchMode::Replace(k) => self.panic(k),
            }
        } else {
            f.exiting = Some(Exit::Unwind(p));
        }
    }
    /// The current coroutine hands control back.
    fn finish(&mut self, o: Out) {
        let (c, why) = self.active.pop().unwrap();
        self.cos[c].status = if matches!(o, Out::Yield(_)) { Status::Suspended } else { Status::Done };
        let combo = self.cos[c].combo;
        match why {
            Why::Resume { slot } => {
                self.slots[slot] = Slot::Idle(c);
                match o {
                    Out::Yield(v) => self.ev.push(Ev::OutYield { co: c as u32, v: (self.proj)(combo, v).1 }),
                    Out::Ret(v) => self.ev.push(Ev::OutRet { co: c as u32, v: (self.proj)(combo, v).2 }),
                    Out::Panic(p) => self.propagate(p),
                }
            }
            Why::Force { slot } => {
                self.cos[c].allow = false;
                self.slots[slot] = Slot::Idle(c);
                let out = match o {
                    Out::Panic(Pay::Forced) => {
                        self.inflight -= 1;
                        FOut::Clean
                    }
                    Out::Panic(p) => {
                        self.inflight -= 1;
                        if p == Pay::Lib {
                            FOut::Lib
                        } else {
                            FOut::Panic(p)
                        }
                    }
                    _ => {
                        self.ev.push(Ev::Hook);
                        FOut::Lib
                    }
                };
                self.force_ev(c, out);
            }
            Why::Drop => {
                match o {
                    Out::Panic(Pay::Forced) => {}
                    _ => panic!("model: drop must unwind cleanly"),
                }
                self.inflight -= 1;
                self.ev.push(Ev::Dropped { co: c as u32 });
            }
            Why::Drain => match o {
                Out::Yield(v) => {
                    self.ev.push(Ev::OutYield { co: c as u32, v: (self.proj)(combo, v).1 });
                    self.enter(c, Why::Drain);
                }
                Out::Ret(v) => {
                    self.ev.push(Ev::OutRet { co: c as u32, v: (self.proj)(combo, v).2 });
                    self.ev.push(Ev::Dropped { co: c as u32 });
                }
                Out::Panic(_) => panic!("model: no panics can leave a coroutine here"),
            },
        }
    }
    fn force_ev(&mut self, c: usize, out: FOut) {
        let s = self.cos[c].status;
        self.ev.push(Ev::Force { co: c as u32, out, started: s != Status::Unstarted, done: s == Status::Done, panicking: self.inflight > 0 });
    }
    fn start(&mut self, c: usize, why: Why, v: u32) {
        let cap = self.cos[c].cap;
        let body = &self.p.bodies[self.cos[c].body][..] as *const [Op];
        self.cos[c].status = Status::Running;
        let mut root = fr(Kind::Root { ret: None });
        root.locals.push(LItem::Tr(cap));
        self.cos[c].frames = vec![root, fr(Kind::Ops(body, 0))];
        self.active.push((c, why));
        self.ev.push(Ev::Start { co: c as u32, v: (self.proj)(self.cos[c].combo, v).0 });
    }
    /// Resume c (unstarted or suspended).
    fn enter(&mut self, c: usize, why: Why) {
        let v = self.id();
        if self.cos[c].status == Status::Unstarted {
            self.start(c, why, v);
        } else {
            assert!(self.cos[c].status == Status::Suspended);
            self.cos[c].status = Status::Running;
            self.active.push((c, why));
            self.ev.push(Ev::Got { co: c as u32, v: (self.proj)(self.cos[c].combo, v).0 });
        }
    }
    fn force(&mut self, c: usize, why: Why) {
        assert!(self.cos[c].status == Status::Suspended);
        self.cos[c].status = Status::Running;
        self.cos[c].unwound += 1;
        self.active.push((c, why));
        self.inflight += 1;
        self.propagate(Pay::Forced);
    }
    /// The destructor of coroutine c begins.
    fn drop_co(&mut self, c: usize) {
        match self.cos[c].status {
            Status::Unstarted => {
                self.cos[c].status = Status::Done;
                let cap = self.cos[c].cap;
                self.ev.push(Ev::Drop(cap));
                self.ev.push(Ev::Dropped { co: c as u32 });
            }
            Status::Suspended => {
                if self.unwind {
                    self.force(c, Why::Drop)
                } else {
                    self.enter(c, Why::Drain)
                }
            }
            Status::Done => self.ev.push(Ev::Dropped { co: c as u32 }),
            Status::Running => unreachable!(),
        }
    }
    fn yield_now(&mut self) {
        let id = self.id();
        self.finish(Out::Yield(id));
    }
    /// Attempts the resume in a slot. Returns false if it was skipped.
    fn resume_slot(&mut self, s: usize) -> bool {
        let c = match self.slots[s] {
            Slot::Idle(c) if self.active.len() < MAX_ACTIVE => c,
            _ => {
                self.ev.push(Ev::Skip(0));
                return false;
            }
        };
        if self.cos[c].status == Status::Done {
            if !self.can_panic(0) {
                self.ev.push(Ev::Skip(1));
                return false;
            }
            self.id();
            self.lib_panic();
            return true;
        }
        self.slots[s] = Slot::Busy;
        self.enter(c, Why::Resume { slot: s });
        true
    }
    fn step(&mut self) {
        let c = self.cur();
        let f = self.top();
        if let Some(exit) = f.exiting {
            match f.locals.pop() {
                Some(LItem::Tr(id)) => self.ev.push(Ev::Drop(id)),
                Some(LItem::Defer(ops)) => {
                    self.ev.push(Ev::Defer);
                    self.push(fr(Kind::Catch(CatchMode::Swallow)));
                    self.push(fr(Kind::Ops(ops, 0)));
                }
                Some(LItem::Co(c)) => self.drop_co(c),
                None => {
                    let f = self.cos[c].frames.pop().unwrap();
                    match exit {
                        Exit::Unwind(p) => self.propagate(p),
                        Exit::Normal => match f.kind {
                            Kind::Root { ret } => self.finish(Out::Ret(ret.unwrap())),
                            Kind::OnStack { ret, .. } => self.ev.push(Ev::OnStackRet(ret.unwrap())),
                            Kind::OnParent { ret } => self.ev.push(Ev::OnParentRet(ret.unwrap())),
                            _ => {}
                        },
                    }
                }
            }
            return;
        }
        match &mut f.kind {
            Kind::Root { .. } => {
                let id = self.id();
                let f = self.top();
                f.kind = Kind::Root { ret: Some(id) };
                f.exiting = Some(Exit::Normal);
            }
            Kind::OnStack { tok, .. } => {
                let tok = *tok;
                let id = self.id();
                let f = self.top();
                f.kind = Kind::OnStack { ret: Some(id), tok };
                f.exiting = Some(Exit::Normal);
            }
            Kind::OnParent { .. } => {
                let id = self.id();
                let f = self.top();
                f.kind = Kind::OnParent { ret: Some(id) };
                f.exiting = Some(Exit::Normal);
            }
            Kind::Catch(_) | Kind::Temp => f.exiting = Some(Exit::Normal),
            Kind::YieldN(n) => {
                if *n == 0 {
                    f.exiting = Some(Exit::Normal);
                } else {
                    *n -= 1;
                    self.yield_now();
                }
            }
            Kind::Pump(s, n) => {
                if *n == 0 {
                    f.exiting = Some(Exit::Normal);
                } else {
                    *n -= 1;
                    let s = *s as usize;
                    let go = matches!(self.slots[s], Slot::Idle(c) if self.cos[c].status != Status::Done);
                    if !go || !self.resume_slot(s) {
                        self.top().exiting = Some(Exit::Normal);
                    }
                }
            }
            Kind::Ops(ops, pc) => {
                let ops: &'a [Op] = unsafe { &**ops };
                if *pc == ops.len() {
                    f.exiting = Some(Exit::Normal);
                    return;
                }
                let op = &ops[*pc];
                *pc += 1;
                if self.budget == 0 {
                    return;
                }
                self.budget -= 1;
                self.exec(op);
            }
        }
    }
    /// The slot an operation applies to: mostly the nearest useful one.
    fn pick(&self, s: u8, live: bool) -> usize {
        let order = (0..SLOTS).map(|i| (s as usize + i) % SLOTS);
        if live && self.budget % 4 != 0 {
            for s in order.clone() {
                if matches!(self.slots[s], Slot::Idle(c) if self.cos[c].status != Status::Done) {
                    return s;
                }
            }
        }
        for s in order {
            if matches!(self.slots[s], Slot::Idle(_)) {
                return s;
            }
        }
        s as usize
    }
    fn exec(&mut self, op: &'a Op) {
        match op {
            // No suspending in a destructor that runs because of unwinding.
            Op::Yield | Op::YieldN(_) if self.cos[self.cur()].frames.iter().any(|f| matches!(f.exiting, Some(Exit::Unwind(_)))) => self.ev.push(Ev::Skip(11)),
            Op::Yield => self.yield_now(),
            Op::YieldN(n) => self.push(fr(Kind::YieldN(*n))),
            Op::Local => {
                let id = self.id();
                self.ev.push(Ev::Local(id));
                self.top().locals.push(LItem::Tr(id));
            }
            Op::Block(o) => self.push(fr(Kind::Ops(&o[..], 0))),
            Op::Catch(o, m) => {
                self.push(fr(Kind::Catch(*m)));
                self.push(fr(Kind::Ops(&o[..], 0)));
            }
            Op::Panic(k) => {
                if self.can_panic(0) {
                    self.panic(*k)
                } else {
                    self.ev.push(Ev::Skip(2))
                }
            }
            Op::OnStack(o, _) => {
                let tok = self.id();
                self.ev.push(Ev::OnStack(tok));
                let mut f = fr(Kind::OnStack { ret: None, tok });
                f.locals.push(LItem::Tr(tok));
                self.push(f);
                self.push(fr(Kind::Ops(&o[..], 0)));
            }
            Op::OnParent(o) => {
                let tok = self.id();
                self.ev.push(Ev::OnParent(tok));
                let mut f = fr(Kind::OnParent { ret: None });
                f.locals.push(LItem::Tr(tok));
                self.push(f);
                self.push(fr(Kind::Ops(&o[..], 0)));
            }
            Op::Defer(o) => {
                self.top().locals.push(LItem::Defer(&o[..]));
            }
            Op::Spawn { slot, body, combo, stack } => {
                let s = *slot as usize;
                if self.slots[s] == Slot::Busy {
                    self.ev.push(Ev::Skip(3));
                    return;
                }
                let old = self.slots[s];
                let cap = self.id();
                let tok = match stack {
                    StackKind::Default(_) => StackTok::Default,
                    StackKind::Own => StackTok::Own,
                    StackKind::Pooled => {
                        if self.pool_own > 0 {
                            self.pool_own -= 1;
                            StackTok::Own
                        } else {
                            self.pool = self.pool.saturating_sub(1);
                            StackTok::Default
                        }
                    }
                };
                let c = self.cos.len();
                self.cos.push(MCo { body: *body as usize, combo: *combo, cap, stack: tok, frames: vec![], status: Status::Unstarted, allow: false, unwound: 0 });
                self.slots[s] = Slot::Idle(c);
                if let Slot::Idle(old) = old {
                    let mut t = fr(Kind::Temp);
                    t.locals.push(LItem::Co(old));
                    t.exiting = Some(Exit::Normal);
                    self.push(t);
                }
            }
            Op::Resume(s) => {
                let s = self.pick(*s, true);
                self.resume_slot(s);
            }
            Op::Pump(s, n) => {
                let s = self.pick(*s, true) as u8;
                self.push(fr(Kind::Pump(s, *n)))
            }
            Op::Force(s) => {
                let s = self.pick(*s, true);
                let c = match self.slots[s] {
                    Slot::Idle(c) if self.active.len() < MAX_ACTIVE => c,
                    _ => {
                        self.ev.push(Ev::Skip(4));
                        return;
                    }
                };
                match self.cos[c].status {
                    Status::Done => self.force_ev(c, FOut::Clean),
                    Status::Unstarted => {
                        self.cos[c].status = Status::Done;
                        self.ev.push(Ev::Drop(self.cos[c].cap));
                        self.force_ev(c, FOut::Clean);
                    }
                    Status::Suspended => {
                        if self.unwind {
                            self.slots[s] = Slot::Busy;
                            self.cos[c].allow = true;
                            self.force(c, Why::Force { slot: s });
                        } else {
                            // Refused with a panic, still suspended.
                            self.ev.push(Ev::Hook);
                            self.force_ev(c, FOut::Lib);
                        }
                    }
                    Status::Running => unreachable!(),
                }
            }
            Op::DropCo(s) => {
                let s = self.pick(*s, false);
                if let Slot::Idle(c) = self.slots[s] {
                    self.slots[s] = Slot::Empty;
                    let mut t = fr(Kind::Temp);
                    t.locals.push(LItem::Co(c));
                    t.exiting = Some(Exit::Normal);
                    self.push(t);
                } else {
                    self.ev.push(Ev::Skip(5));
                }
            }
            Op::Query(s) => {
                if let Slot::Idle(c) = self.slots[self.pick(*s, false)] {
                    let st = self.cos[c].status;
                    self.ev.push(Ev::Query { co: c as u32, started: st != Status::Unstarted, done: st == Status::Done, panicking: self.inflight > 0 });
                } else {
                    self.ev.push(Ev::Skip(6));
                }
            }
            Op::IntoStack(s) => {
                let s = self.pick(*s, false);
                let c = match self.slots[s] {
                    Slot::Idle(c) => c,
                    _ => {
                        self.ev.push(Ev::Skip(7));
                        return;
                    }
                };
                if self.cos[c].status == Status::Done {
                    self.slots[s] = Slot::Empty;
                    if self.cos[c].stack == StackTok::Own {
                        self.pool_own += 1;
                    } else {
                        self.pool += 1;
                    }
                    self.ev.push(Ev::IntoStack { co: c as u32 });
                } else if self.unwind && self.can_panic(0) {
                    // Refused: panics, and the coroutine is dropped by that.
                    self.slots[s] = Slot::Empty;
                    self.ev.push(Ev::Hook);
                    self.inflight += 1;
                    let mut t = fr(Kind::Temp);
                    t.locals.push(LItem::Co(c));
                    t.exiting = Some(Exit::Unwind(Pay::Lib));
                    self.push(t);
                } else {
                    self.ev.push(Ev::Skip(8));
                }
            }
            Op::Adopt(s) => {
                let s = self.pick(*s, true);
                if let Slot::Idle(c) = self.slots[s] {
                    self.slots[s] = Slot::Empty;
                    self.top().locals.push(LItem::Co(c));
                } else {
                    self.ev.push(Ev::Skip(9));
                }
            }
        }
    }
}
