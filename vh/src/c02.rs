//! C02: persistent vector restructuring agrees with a plain sequence.
use crate::pv::*;
use crate::src::*;
use crate::{ck, eq};
use rustica::pvec::PersistentVector as PV;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;

fn concat<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let (a, b) = (any(s, &mut fresh), if s.below(4) == 0 { small(s, &mut fresh) } else { any(s, &mut fresh) });
    let (ma, mb) = (seen(&a), seen(&b));
    for (x, y, mx, my) in [(&a, &b, &ma, &mb), (&b, &a, &mb, &ma), (&a, &a, &ma, &ma)] {
        let want: Vec<u32> = mx.iter().chain(my).copied().collect();
        eq!(seen(&x.concat(y)), want, "concat gives the first elements, then the second");
        eq!(seen(&x.combine(y)), want, "combine is concat");
    }
    eq!(seen(&a.clone().combine_owned(b.clone())), [ma.clone(), mb.clone()].concat(), "combine_owned is concat");
    eq!(seen(&a.concat(&a.clone())), [ma.clone(), ma.clone()].concat(), "concat with a clone");
    let e = PV::empty();
    eq!(seen(&a.concat(&e)), ma, "concat with the empty vector on the right");
    eq!(seen(&e.concat(&a)), ma, "concat with the empty vector on the left");
    let c = small(s, &mut fresh);
    eq!(seen(&a.concat(&b).concat(&c)), seen(&a.concat(&b.concat(&c))), "concat is associative");
}
fn split<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let m = seen(&v);
    for _ in 0..3 {
        let i = index(s, m.len());
        let j = i.min(m.len());
        let (l, r) = v.split_at(i);
        eq!(seen(&l), m[..j].to_vec(), "split_at: left part");
        eq!(seen(&r), m[j..].to_vec(), "split_at: right part");
        eq!(seen(&l.concat(&r)), m, "the two parts of a split make the whole");
        eq!(seen(&v.take(i)), m[..j].to_vec(), "take");
        eq!(seen(&v.skip(i)), m[j..].to_vec(), "skip");
        let k = index(s, r.len());
        eq!(seen(&v.skip(i).take(k)), m[j..(j + k).min(m.len())].to_vec(), "a range by skip and take");
    }
}
fn insert_remove<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let v = any(s, &mut fresh);
    let m = seen(&v);
    for _ in 0..3 {
        let x = fresh.get();
        let i = index(s, m.len()).min(m.len());
        let mut want = m.clone();
        want.insert(i, x);
        let w = v.insert(i, x);
        eq!(seen(&w), want, "insert");
        eq!(w.remove(i).map(|u| seen(&u)), Some(m.clone()), "remove undoes insert");
        let i = index(s, m.len());
        let got = v.remove(i).map(|u| seen(&u));
        let want = if i < m.len() {
            let mut w = m.clone();
            w.remove(i);
            Some(w)
        } else {
            None
        };
        eq!(got, want, "remove");
    }
}
/// Many restructurings in a row, against the plain sequence.
fn edits<S: Src>(s: &mut S) {
    let mut fresh = Fresh::new(s);
    let mut v = any(s, &mut fresh);
    let mut m = seen(&v);
    for _ in 0..1 + s.below(25) {
        let x = fresh.get();
        match s.below(4) {
            0 | 1 => {
                let i = index(s, m.len()).min(m.len());
                v = v.insert(i, x);
                m.insert(i, x);
            },
            2 => {
                if !m.is_empty() {
                    let i = index(s, m.len() - 1).min(m.len() - 1);
                    v = v.remove(i).expect("remove in range");
                    m.remove(i);
                }
            },
            _ => {
                // move a prefix to the end
                let i = index(s, m.len()).min(m.len());
                let (l, r) = v.split_at(i);
                v = r.concat(&l);
                m.rotate_left(i);
            },
        }
        eq!(v.len(), m.len(), "length after an edit");
    }
    eq!(seen(&v), m, "contents after a series of edits");
}
/// Trees of three branch levels.
fn large<S: Src>(s: &mut S) {
    let n = 65_536 + [0, 1, 64, 65, 2_047, 2_112][s.below(6) as usize];
    let v: PV<usize> = (0..n).collect();
    let i = match s.below(3) { 0 => 64 * s.below(1_000) as usize, 1 => n - s.below(3_000) as usize, _ => s.below(n as u32) as usize };
    let (l, r) = v.split_at(i);
    eq!((l.len(), r.len()), (i, n - i), "lengths after splitting a large vector");
    let extra = s.below(300) as usize;
    let e: PV<usize> = (n..n + extra).collect();
    // r ++ e ++ l
    let w = r.concat(&e).concat(&l);
    let at = |j: usize| if j < n - i + extra { i + j } else { j - (n - i + extra) };
    eq!(w.len(), n + extra, "length after moving a part of a large vector");
    for _ in 0..300 {
        let j = s.below((n + extra) as u32) as usize;
        eq!(w.get(j), Some(&at(j)), "contents after moving a part of a large vector");
    }
    for j in [0, n - i, n - i + extra] {
        for d in 0..3 {
            let k = (j + d).saturating_sub(1);
            eq!(w.get(k).copied(), if k < n + extra { Some(at(k)) } else { None }, "contents around the seams");
        }
    }
}

harnesses! {
    "C02";
    prove { }
    test { concat 2.0, split 2.0, insert_remove 2.0, edits 2.0, large 0.3 }
}
