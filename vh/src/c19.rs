//! C19: evaluation, thunks and memoization return the function's value.
use crate::c24::same_key;
use crate::src::*;
use crate::{ck, eq};
use rustica::datatypes::io::IO;
use rustica::datatypes::wrapper::memoizer::Memoizer;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

fn thunk<S: Src>(s: &mut S) {
    let x = s.u8();
    let n = Cell::new(0u8);
    let t = Thunk::new(|| { n.set(n.get() + 1); x });
    eq!(n.get(), 0, "building a thunk does not run it");
    eq!(t.evaluate(), x, "evaluate");
    eq!(n.get(), 1, "evaluate runs the function once");
    eq!(t.evaluate(), x, "evaluate again");
    eq!(t.clone().evaluate(), x, "evaluate a clone");
    eq!(n.get(), 3, "each evaluation runs the function once");
    eq!(t.evaluate_owned(), x, "evaluate_owned");
    eq!(n.get(), 4, "evaluate_owned runs the function once");
}
/// A computation whose value depends on how often it ran: one run per operation is visible.
fn thunk_ext<S: Src>(s: &mut S) {
    let (x, y, f, g, p) = (s.u8(), s.u8(), s.tab(), s.tab2(), s.ptab());
    let n = Cell::new(0u8);
    let mk = || Thunk::new(|| { n.set(n.get().wrapping_add(1)); x });
    let o = Thunk::new(|| y);
    eq!(mk().fmap_evaluate(|v| f.at(v)), f.at(x), "fmap_evaluate");
    eq!(mk().map_evaluate(|v| f.at(v)), f.at(x), "map_evaluate");
    eq!(mk().fmap_evaluate_owned(|v| f.at(v)), f.at(x), "fmap_evaluate_owned");
    eq!(mk().map_evaluate_owned(|v| f.at(v)), f.at(x), "map_evaluate_owned");
    eq!(n.get(), 4, "mapping evaluates once");
    eq!(mk().bind_evaluate(|v| Thunk::new(move || g.at(v, y))), g.at(x, y), "bind_evaluate");
    eq!(mk().and_then_evaluate(|v| Thunk::new(move || g.at(v, y))), g.at(x, y), "and_then_evaluate");
    eq!(mk().bind_evaluate_owned(|v| Thunk::new(move || g.at(v, y))), g.at(x, y), "bind_evaluate_owned");
    eq!(mk().and_then_evaluate_owned(|v| Thunk::new(move || g.at(v, y))), g.at(x, y), "and_then_evaluate_owned");
    eq!(n.get(), 8, "binding evaluates once");
    eq!(mk().combine_evaluate(&o, |a, b| g.at(a, b)), g.at(x, y), "combine_evaluate");
    eq!(mk().combine_evaluate_owned(o.clone(), |a, b| g.at(a, b)), g.at(x, y), "combine_evaluate_owned");
    eq!(n.get(), 10, "combining evaluates once");
    let want = if p.at(x) { Some(x) } else { None };
    eq!(mk().filter_evaluate(|v| p.at(*v)), want, "filter_evaluate");
    eq!(mk().filter_evaluate_owned(|v| p.at(*v)), want, "filter_evaluate_owned");
    eq!(n.get(), 12, "filtering evaluates once");
}
fn io<S: Src>(s: &mut S) {
    let (x, f) = (s.u8(), s.tab());
    let io = IO::new(move || x);
    eq!(io.evaluate(), x, "IO evaluate");
    eq!(io.clone().evaluate_owned(), x, "IO evaluate_owned");
    eq!(io.fmap_evaluate(move |v| f.at(v)), f.at(x), "IO fmap_evaluate");
}
/// Arbitrary histories of lookups and clears against a model cache.
fn memo<S: Src>(s: &mut S) {
    let m: Memoizer<u8, (u8, u32)> = if s.bool() { Memoizer::new() } else { Memoizer::default() };
    let f = s.tab();
    let mut model: HashMap<u8, (u8, u32)> = HashMap::new();
    let stamp = Cell::new(0u32);
    let steps = s.len(13);
    for _ in 0..steps {
        if s.below(6) == 0 {
            m.clear();
            model.clear();
            continue;
        }
        let k = s.u8();
        let before = stamp.get();
        let got = m.get_or_compute(k, |key| {
            stamp.set(stamp.get() + 1);
            (f.at(*key) ^ *key, stamp.get())
        });
        let hit = model.contains_key(&k);
        eq!(stamp.get() - before, !hit as u32, "the function runs exactly once per uncached key");
        let want = *model.entry(k).or_insert((f.at(k) ^ k, stamp.get()));
        eq!(got, want, "value for the key");
    }
}
/// Keys with the same hash but different identity must not be mixed up.
fn memo_clash<S: Src>(s: &mut S) {
    let m: Memoizer<Clash, u8> = Memoizer::new();
    let steps = s.len(10);
    for _ in 0..steps {
        let k = s.u8();
        eq!(m.get_or_compute(Clash(k), |k| k.0.wrapping_mul(3)), k.wrapping_mul(3), "clashing keys");
        if s.below(5) == 0 {
            m.clear();
        }
    }
}
/// Many keys: none is forgotten before a `clear`.
fn memo_many<S: Src>(s: &mut S) {
    let n = [10u32, 300, 5_000, 70_000, 300_000][if s.bool() { s.below(3) } else { s.below(5) } as usize];
    let m: Memoizer<u32, u32> = Memoizer::new();
    let runs = Cell::new(0u32);
    let f = |k: &u32| {
        runs.set(runs.get() + 1);
        k.wrapping_mul(7) ^ 3
    };
    for _ in 0..2 {
        for k in 0..n {
            eq!(m.get_or_compute(k, f), k.wrapping_mul(7) ^ 3, "value for one of many keys");
        }
        eq!(runs.get(), n, "the function ran once per key over both rounds");
    }
}
crate::harnesses! { "C19";
    prove { thunk 2, thunk_ext 2 }
    test { io 0.5, memo 3.0, memo_clash 1.0, memo_many 2.0, same_key 0.7 } }
