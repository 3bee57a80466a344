//! Exactly-once ledger of tagged objects.
use crate::check;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};

pub const CAP: usize = 1 << 17;
static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
static LIVE: AtomicU64 = AtomicU64::new(0);
static MADE: AtomicU64 = AtomicU64::new(0);
static HIGH: AtomicU64 = AtomicU64::new(0);

pub fn reset() {
    let h = HIGH.swap(0, Ordering::Relaxed) as usize;
    for s in &STATE[..(h + 1).min(CAP)] {
        s.store(0, Ordering::Relaxed);
    }
    LIVE.store(0, Ordering::Relaxed);
    MADE.store(0, Ordering::Relaxed);
}
pub fn born(id: u32) {
    check!((id as usize) < CAP, "harness: id {id} out of range");
    HIGH.fetch_max(id as u64, Ordering::Relaxed);
    let old = STATE[id as usize].swap(1, Ordering::Relaxed);
    check!(old == 0, "harness: object {id} created twice");
    LIVE.fetch_add(1, Ordering::Relaxed);
    MADE.fetch_add(1, Ordering::Relaxed);
}
pub fn died(id: u32, what: &str) {
    check!((id as usize) < CAP, "dropped {what} carries impossible id {id}: its memory was corrupted");
    let old = STATE[id as usize].swap(2, Ordering::Relaxed);
    check!(old != 2, "{what} {id} was dropped twice");
    check!(old == 1, "{what} {id} was dropped but never created");
    LIVE.fetch_sub(1, Ordering::Relaxed);
}
pub fn is_live(id: u32) -> bool {
    (id as usize) < CAP && STATE[id as usize].load(Ordering::Relaxed) == 1
}
pub fn live() -> u64 {
    LIVE.load(Ordering::Relaxed)
}
pub fn made() -> u64 {
    MADE.load(Ordering::Relaxed)
}
pub fn live_ids() -> Vec<u32> {
    let h = HIGH.load(Ordering::Relaxed) as usize;
    (0..=h.min(CAP - 1)).filter(|&i| STATE[i].load(Ordering::Relaxed) == 1).map(|i| i as u32).collect()
}
pub fn assert_empty(ctx: &str) {
    check!(live() == 0, "{} object(s) leaked at {ctx}: ids {:?}", live(), &live_ids()[..live_ids().len().min(16)]);
}

/// A drop-tracked object with an inline and an out-of-line copy of its id.
pub struct Tracked {
    pub id: u32,
    heap: Box<u32>,
}
impl Tracked {
    pub fn new(id: u32) -> Self {
        born(id);
        Tracked { id, heap: Box::new(id) }
    }
    pub fn verify(&self, what: &str) -> u32 {
        check!(*self.heap == self.id, "{what}: object {} has damaged contents", self.id);
        check!(is_live(self.id), "{what}: object {} is used although it is not alive", self.id);
        self.id
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        check!(*self.heap == self.id, "dropped object {} has damaged contents", self.id);
        died(self.id, "object");
    }
}
