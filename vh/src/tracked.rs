//! A value that notices being dropped twice, used after drop, or never dropped.
use std::cell::RefCell;
use std::collections::HashSet;
thread_local! {
    static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static NEXT: RefCell<u64> = const { RefCell::new(1) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
}
pub fn live() -> usize {
    LIVE.with(|l| l.borrow().len())
}
/// Panics when some value was dropped twice or read after its release.
pub fn check() {
    if let Some(m) = BAD.with(|b| b.borrow().clone()) {
        panic!("{m}");
    }
}
fn bad(m: &str) {
    BAD.with(|b| *b.borrow_mut() = Some(m.to_string()));
}
#[derive(Debug)]
pub struct Tracked {
    id: u64,
    val: u8,
}
impl Tracked {
    pub fn new(val: u8) -> Self {
        let id = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        LIVE.with(|l| l.borrow_mut().insert(id));
        Tracked { id, val }
    }
    pub fn get(&self) -> u8 {
        if !LIVE.with(|l| l.borrow().contains(&self.id)) {
            bad("a released value was used");
        }
        self.val
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.get())
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let was = LIVE.try_with(|l| l.borrow_mut().remove(&self.id)).unwrap_or(true);
        if !was {
            bad("a value was released twice");
        }
    }
}

// ---- program-order trace of effects: `hit(id)` appends a digit, exactly-once and order are visible
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
static TRACE: AtomicU64 = AtomicU64::new(0);
/// Starts an empty trace.
pub fn start() {
    TRACE.store(0, Relaxed);
}
/// Records effect `id` (1..=15).
pub fn hit(id: u64) {
    TRACE.store(TRACE.load(Relaxed).wrapping_mul(16).wrapping_add(id), Relaxed);
}
/// The trace since `start`, one hex digit per effect.
pub fn trace() -> u64 {
    TRACE.load(Relaxed)
}
