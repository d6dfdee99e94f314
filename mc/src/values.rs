//! Exhaustive enumeration of values up to a size.

use crate::model::*;
use std::rc::Rc;

/// All values with exactly k nodes for k = 1..=max (index 0 unused). Fields are named in order from
/// `names`; parents are enumerated if `parents`.
pub fn by_size(leaves: &[MV], max: usize, names: &[&str], parents: bool, arr_width: usize) -> Vec<Vec<MV>> {
    let mut all: Vec<Vec<MV>> = vec![vec![]];
    // seqs[w][n]: sequences of w values with n nodes in total.
    for n in 1..=max {
        let mut out: Vec<MV> = vec![];
        if n == 1 {
            out.extend(leaves.iter().cloned());
        }
        for w in 0..=arr_width {
            for s in seqs(&all, w, n - 1) {
                if let Some(a) = MV::arr(s.clone()) {
                    out.push(a);
                }
                out.push(MV::tup(s.clone()));
                if w <= names.len() {
                    out.push(MV::obj(s.iter().enumerate().map(|(i, v)| (names[i], v.clone())).collect(), None));
                }
            }
            if parents && w <= names.len() {
                // One child is the parent: it must be an object.
                for p in 1..n.saturating_sub(1) + 1 {
                    if p > n - 1 {
                        break;
                    }
                    let ps: Vec<Rc<MObj>> = all[p].iter().filter_map(|v| if let MV::Obj(o) = v { Some(o.clone()) } else { None }).collect();
                    if ps.is_empty() {
                        continue;
                    }
                    for s in seqs(&all, w, n - 1 - p) {
                        for q in &ps {
                            out.push(MV::obj(s.iter().enumerate().map(|(i, v)| (names[i], v.clone())).collect(), Some(q.clone())));
                        }
                    }
                }
            }
        }
        all.push(out);
    }
    all
}
fn seqs(all: &[Vec<MV>], w: usize, n: usize) -> Vec<Vec<MV>> {
    if w == 0 {
        return if n == 0 { vec![vec![]] } else { vec![] };
    }
    let mut out = vec![];
    for k in 1..=n {
        if k >= all.len() {
            break;
        }
        let rest = seqs(all, w - 1, n - k);
        if rest.is_empty() {
            continue;
        }
        for v in &all[k] {
            for r in &rest {
                let mut s = Vec::with_capacity(w);
                s.push(v.clone());
                s.extend(r.iter().cloned());
                out.push(s);
            }
        }
    }
    out
}

/// All types with up to `max` nodes.
pub fn types(max: usize, width: usize) -> Vec<Vec<Ty>> {
    let mut all: Vec<Vec<Ty>> = vec![vec![]];
    for n in 1..=max {
        let mut out = vec![];
        if n == 1 {
            out.extend(vec![Ty::Any, Ty::Null, Ty::Bool, Ty::Int, Ty::Frac, Ty::Str, Ty::Obj, Ty::Tup(vec![])]);
        } else {
            for t in &all[n - 1] {
                out.push(Ty::Arr(Box::new(t.clone())));
            }
            for w in 1..=width {
                for s in tseqs(&all, w, n - 1) {
                    out.push(Ty::Tup(s));
                }
            }
        }
        all.push(out);
    }
    all
}
fn tseqs(all: &[Vec<Ty>], w: usize, n: usize) -> Vec<Vec<Ty>> {
    if w == 0 {
        return if n == 0 { vec![vec![]] } else { vec![] };
    }
    let mut out = vec![];
    for k in 1..=n {
        if k >= all.len() {
            break;
        }
        for r in tseqs(all, w - 1, n - k) {
            for t in &all[k] {
                let mut s = vec![t.clone()];
                s.extend(r.iter().cloned());
                out.push(s);
            }
        }
    }
    out
}

pub fn fr(n: i64, d: i64) -> MV {
    MV::frac(n.into(), d.into())
}

/// Leaves likely to be confused with one another.
pub fn many_leaves() -> Vec<MV> {
    let mut v = vec![MV::Null, MV::Bool(true), MV::Bool(false)];
    for i in &[0i64, 1, -1, 2, 10, 127, 128, -128, 255, 256, 1000000, i64::MAX, i64::MIN] {
        v.push(MV::int(*i));
    }
    v.push(MV::Int(digits_to_int("123456789012345678901234567890")));
    v.push(MV::Int(neg(&digits_to_int("18446744073709551616"))));
    for (n, d) in &[(0, 1), (1, 1), (-1, 1), (2, 1), (1, 2), (-1, 2), (3, 2), (-7, 3), (1, 10), (1, 1000), (255, 256), (100, 1), (-100, 1), (i64::MAX, 2), (1, i64::MAX)] {
        v.push(fr(*n, *d));
    }
    for s in &["", " ", "a", "A", "1", "1.0", "null", "true", "\"", "\\", "\\n", "\n", "\r", "\t", "'", "$", "#", "# c", "a:1", "{}", "[]", "é", "e\u{301}", "𝄞", "\u{0}", "\u{2028}", "a\nb", "  x  ", "\"\"", "\\\"", "$'\"\\", "@g", "^"] {
        v.push(MV::str(s));
    }
    v
}
