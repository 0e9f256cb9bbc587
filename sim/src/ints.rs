//! Short histories over each of the built-in integer types, checked against
//! a model made of plain ranges, so that every type's whole width is covered:
//! operations near both ends of the type, around its middle and around powers
//! of two.

use crate::elem::Elem;
use crate::machine::{damage_bytes, C01, C02, C03, C04, C06, C08, C09};
use crate::rng::mix;
use normalize_interval::bound::Bound;
use normalize_interval::interval::Interval;
use normalize_interval::selection::Selection;

pub const NAMES: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

/// Steps with at least this number concern many intervals at once.
pub const BULK: u8 = 240;

pub type Bad = (u32, String, String);
pub type Set = Vec<(u128, u128)>;

/// The type of a history: the integer types, then the dense ones.
pub const KINDS: u8 = 12 + crate::dense::NAMES.len() as u8;
/// Types beyond `KINDS`: one huge tree, one huge selection.
pub fn name(t: u8) -> &'static str { if t == KINDS { "huge tree" } else if t > KINDS { "huge selection" } else if t < 12 { NAMES[t as usize] } else { crate::dense::NAMES[(t as usize - 12) % 8] } }

/// `damage`: documents saved on the way are also damaged and restored.
pub fn history(t: u8, ops: &[(u8, u16, u16)], damage: bool) -> Result<u64, Bad> {
    let seed = ops.first().map_or(0, |o| u64::from(o.0) << 32 | u64::from(o.1) << 16 | u64::from(o.2));
    if t == KINDS { return crate::giant::tree(seed); }
    if t > KINDS { return crate::giant::selection(seed); }
    if t >= 12 { return crate::dense::history(t - 12, ops, damage); }
    match t {
        0 => run::<u8>(ops, damage),
        1 => run::<u16>(ops, damage),
        2 => run::<u32>(ops, damage),
        3 => run::<u64>(ops, damage),
        4 => run::<u128>(ops, damage),
        5 => run::<usize>(ops, damage),
        6 => run::<i8>(ops, damage),
        7 => run::<i16>(ops, damage),
        8 => run::<i32>(ops, damage),
        9 => run::<i64>(ops, damage),
        10 => run::<i128>(ops, damage),
        _ => run::<isize>(ops, damage),
    }
}

fn place(x: u16, max: u128) -> u128 {
    let k = u128::from(x >> 3 & 7);
    let bits = 128 - max.leading_zeros();
    match x & 7 {
        0 | 1 => k,
        2 | 3 => max - k,
        4 => max / 2 - 3 + k,
        5 => { let p = 1u128 << (u32::from(x >> 6) % bits); (p - 1).saturating_add(k / 2).min(max) }
        6 => (u128::from(x >> 6) * 7 + k).min(max),
        _ => {
            let r = u128::from(mix(u64::from(x >> 6))) << 64 | u128::from(mix(u64::from(x >> 6) + 99));
            (r & max).saturating_add(k / 2).min(max)
        }
    }
}

fn span(lo: Option<u128>, hi: Option<u128>) -> Set {
    match (lo, hi) { (Some(l), Some(h)) if l <= h => vec![(l, h)], _ => vec![] }
}

/// An interval by one of its constructors, and the elements it must have.
fn interval<T: Elem>(style: u16, a: u128, b: u128) -> (Interval<T>, Set) {
    let max = T::max_ix();
    let (l, h) = (a.min(b), a.max(b));
    let (x, y) = (T::mk(l), T::mk(h));
    let after = |v: u128| if v == max { None } else { Some(v + 1) };
    let before = |v: u128| v.checked_sub(1);
    match style % 14 {
        0 | 1 => (Interval::closed(x, y), span(Some(l), Some(h))),
        2 => (Interval::open(x, y), span(after(l), before(h))),
        3 if l < h => (Interval::left_open(x, y), span(after(l), Some(h))),
        4 if l < h => (Interval::right_open(x, y), span(Some(l), before(h))),
        5 => (Interval::unbounded_from(x), span(Some(l), Some(max))),
        6 => (Interval::unbounded_to(x), span(Some(0), Some(l))),
        7 => (Interval::unbounded_up_from(x), span(after(l), Some(max))),
        8 => (Interval::unbounded_up_to(y), span(Some(0), before(h))),
        9 => (Interval::full(), span(Some(0), Some(max))),
        10 => (Interval::empty(), vec![]),
        11 => (Interval::new(Bound::Exclude(x), Bound::Infinite), span(after(l), Some(max))),
        12 => (Interval::new(Bound::Infinite, Bound::Exclude(y)), span(Some(0), before(h))),
        _ => (Interval::point(x), span(Some(l), Some(l))),
    }
}

pub fn join(mut v: Set) -> Set {
    v.sort_unstable();
    let mut out: Set = Vec::new();
    for (a, b) in v {
        match out.last_mut() {
            Some(p) if a <= p.1 || a - p.1 == 1 => p.1 = p.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}
pub fn complement(v: &Set, max: u128) -> Set {
    let mut out = Vec::new();
    let mut next = Some(0u128);
    for &(a, b) in v {
        if let Some(n) = next { if n < a { out.push((n, a - 1)); } }
        next = if b == max { None } else { Some(b + 1) };
    }
    if let Some(n) = next { out.push((n, max)); }
    out
}
pub fn union(a: &Set, b: &Set) -> Set { join(a.iter().chain(b).copied().collect()) }
pub fn intersect(a: &Set, b: &Set) -> Set {
    let mut out = Vec::new();
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        let (l, h) = (a[i].0.max(b[j].0), a[i].1.min(b[j].1));
        if l <= h { out.push((l, h)); }
        if a[i].1 < b[j].1 { i += 1 } else { j += 1 }
    }
    join(out)
}

/// Many intervals at regular distances.
fn comb(x: u16, y: u16, max: u128) -> Set {
    let stride = u128::from(y & 7) + 2;
    let stride = if y >> 3 & 3 == 0 { (stride * 1001).min(max / 4) } else { stride };
    let width = u128::from(y >> 5 & 3).min(stride - 2);
    let count = u128::from(y >> 7) * (if y >> 7 & 15 == 0 { 3 } else { 1 }) + 60;
    let room = max / stride;
    let count = count.min(room);
    let base = place(x, max).min(max - (count.saturating_sub(1) * stride + width).min(max));
    (0..count).map(|k| (base + k * stride, base + k * stride + width)).filter(|r| r.1 <= max).collect()
}
pub fn has(v: &Set, x: u128) -> bool { v.iter().any(|r| r.0 <= x && x <= r.1) }
fn count(v: &Set) -> u128 { v.iter().fold(0u128, |n, r| n.saturating_add((r.1 - r.0).saturating_add(1))) }

fn listed<T: Elem>(v: &Selection<T>) -> Vec<(u128, u128)> {
    v.interval_iter().map(|i| match (i.lower_bound(), i.upper_bound()) {
        (Some(Bound::Include(a)), Some(Bound::Include(b))) => (a.ix(), b.ix()),
        _ => (1, 0),
    }).collect()
}

/// Damages the tines of a saved document; whatever a tine gains comes from
/// another tine of the same document, so that its elements stay readable.
pub fn damage_tines(ts: &mut Vec<serde_json::Value>, k: u8, a: u64, c: u64) {
    use serde_json::{json, Value};
    let n = ts.len();
    if n == 0 { return; }
    let (i, j) = (a as usize % n, c as usize % n);
    let bound = |t: &Value| t.as_object().and_then(|o| o.values().next()).cloned();
    let kind = ["Lower", "Point", "Upper"][(c >> 32) as usize % 3];
    match k % 14 {
        0 => { ts.remove(i); }
        1 => ts.swap(i, j),
        2 => { let t = ts[i].clone(); ts.insert(j, t); }
        3 => if let Some(b) = bound(&ts[i]) { ts[i] = json!({ kind: b }); },
        4 => if let Some(o) = ts[i].as_object_mut() {
            for b in o.values_mut() {
                if let Some(x) = b.get("Include").cloned() { *b = json!({ "Exclude": x }); }
                else if let Some(x) = b.get("Exclude").cloned() { *b = json!({ "Include": x }); }
            }
        },
        5 => if let Some(o) = ts[i].as_object_mut() { for b in o.values_mut() { *b = json!("Infinite"); } },
        6 => if let (Some(b), Some(o)) = (bound(&ts[j]), ts[i].as_object_mut()) { for v in o.values_mut() { *v = b.clone(); } },
        7 => if let Some(b) = bound(&ts[j]) { ts.insert(i, json!({ kind: b })); },
        8 => ts.reverse(),
        9 => ts.truncate(i),
        10 => { ts.drain(i..(i + 1 + j % 3).min(n)); }
        11 => { let i = i / 2 * 2; ts.drain(i..(i + 2).min(n)); }
        12 => { let t = ts[i..(i + 2).min(n)].to_vec(); ts.splice(j..j, t); }
        _ => ts.insert(i, json!({ kind: "Infinite" })),
    }
}

/// Whatever was restored from a damaged document must be in normal form and
/// behave as it lists itself; `kept` is an honest value.
fn restored<T: Elem + Copy>(w: &Selection<T>, kept: &(Selection<T>, Set)) -> Result<Set, Bad> {
    let max = T::max_ix();
    let l = listed(w);
    let bad = |what: &str| Err((C09, "damaged".to_string(), format!("a damaged document restored a value listing {l:?}: {what}")));
    if l.iter().any(|r| r.0 > r.1) || join(l.clone()) != l { return bad("not in normal form"); }
    if w.is_empty() != l.is_empty() || w.is_full() != (l == vec![(0, max)]) { return bad("is_empty or is_full"); }
    for &(a, b) in l.iter().take(20).chain(l.iter().rev().take(20)) {
        for p in [a.checked_sub(1), Some(a), Some(b), if b == max { None } else { Some(b + 1) }].into_iter().flatten() {
            if w.contains(&T::mk(p)) != has(&l, p) { return bad("contains"); }
        }
    }
    let iv = |r: &(u128, u128)| Interval::closed(T::mk(r.0), T::mk(r.1));
    if !w.clone().into_interval_iter().rev().eq(l.iter().rev().map(iv)) { return bad("its intervals backwards"); }
    if *w != l.iter().map(iv).collect() || l.iter().map(iv).collect::<Selection<T>>() != *w { return bad("equality with a value built anew"); }
    if listed(&w.complement()) != complement(&l, max) { return bad("complement"); }
    if listed(&w.union(&kept.0)) != union(&l, &kept.1) { return bad("union"); }
    if listed(&w.minus(&kept.0)) != intersect(&l, &complement(&kept.1, max)) { return bad("minus"); }
    if listed(&kept.0.minus(w)) != intersect(&kept.1, &complement(&l, max)) { return bad("minus"); }
    if listed(&w.intersect(&kept.0)) != intersect(&l, &kept.1) { return bad("intersect"); }
    if l.first().map(|r| r.0) != w.iter().next().map(|x| x.ix()) || l.last().map(|r| r.1) != w.iter().next_back().map(|x| x.ix()) { return bad("iteration"); }
    Ok(l)
}

fn run<T: Elem + Copy>(ops: &[(u8, u16, u16)], damage: bool) -> Result<u64, Bad> {
    let mut taint = 0;
    let max = T::max_ix();
    let mut v: Selection<T> = Selection::new();
    let mut m: Set = Vec::new();
    let mut kept: (Selection<T>, Set) = (Selection::new(), Vec::new());
    let mut d = 7u64;
    for (n, &(k, x, y)) in ops.iter().enumerate() {
        let (a, b) = (place(x, max), place(y, max));
        let (iv, im) = interval::<T>(x >> 12 ^ y >> 9 & 8, a, b);
        let bad = |own: u32, class: &str, msg: String| Err((own | taint, class.to_string(), format!("step {n}: {msg}")));
        if iv.lower_bound().is_some() != !im.is_empty() || iv.is_empty() != im.is_empty()
            || im.first().map_or(false, |&(l, h)| iv != Interval::closed(T::mk(l), T::mk(h)))
        {
            return bad(C02 | C03, "constructor", format!("interval {iv:?} should have the elements {im:?}"));
        }
        let own = if k >= BULK {
            let c = comb(x, y, max);
            let ivs = || c.iter().map(|&(l, h)| Interval::closed(T::mk(l), T::mk(h)));
            match k % 12 {
                0 => { v.extend(ivs()); m = union(&m, &c); C01 | C06 }
                1 => { v.extend(ivs().rev()); m = union(&m, &c); C01 | C06 }
                2 => { v = v.union(&ivs().collect()); m = union(&m, &c); C02 }
                3 => { v = v.minus(&ivs().collect()); m = intersect(&m, &complement(&c, max)); C02 }
                4 => { v = v.intersect(&ivs().collect()); m = intersect(&m, &c); C02 }
                5 => {
                    let mut p: Vec<u128> = c.iter().flat_map(|r| [r.0, r.1]).collect();
                    p.sort_unstable_by_key(|&q| mix(q as u64 ^ u64::from(x)));
                    kept = (p.iter().map(|&q| T::mk(q)).collect(), join(p.into_iter().map(|q| (q, q)).collect()));
                    std::mem::swap(&mut v, &mut kept.0);
                    std::mem::swap(&mut m, &mut kept.1);
                    C01 | C06
                }
                6 => { for i in ivs().take(200) { v.minus_in_place(i); } m = intersect(&m, &complement(&c.iter().copied().take(200).collect(), max)); C01 }
                7 => { for i in ivs().rev().take(200) { v.union_in_place(i); } m = union(&m, &c.iter().rev().copied().take(200).collect()); C01 }
                8 => { kept = (ivs().collect(), c.clone()); C01 | C06 }
                9 => { v = v.complement(); m = complement(&m, max); C02 }
                10 => { v.union_in_place(iv); m = union(&m, &im); C01 }
                _ => { v.minus_in_place(iv); m = intersect(&m, &complement(&im, max)); C01 }
            }
        } else { match k % 16 {
            0..=4 => { v.union_in_place(iv); m = union(&m, &im); C01 }
            5..=7 => { v.minus_in_place(iv); m = intersect(&m, &complement(&im, max)); C01 }
            8 => { v.intersect_in_place(iv); m = intersect(&m, &im); C01 }
            9 => { v = v.complement(); m = complement(&m, max); C02 }
            10 => { v = v.union(&kept.0); m = union(&m, &kept.1); C02 }
            11 => { v = v.minus(&kept.0); m = intersect(&m, &complement(&kept.1, max)); C02 }
            12 => { v = kept.0.intersect(&v); m = intersect(&m, &kept.1); C02 }
            13 => { kept = (v.clone(), m.clone()); C01 }
            14 => { v = v.union(&Selection::from(iv)); m = union(&m, &im); C02 }
            _ => { std::mem::swap(&mut v, &mut kept.0); std::mem::swap(&mut m, &mut kept.1); C01 }
        } };
        let show = |m: &Set| if m.len() > 40 { format!("{:?} and {} more", &m[..40], m.len() - 40) } else { format!("{m:?}") };
        let got = listed(&v);
        for &(a, b) in &m { d = mix(d ^ a as u64); d = mix(d ^ b as u64 ^ (b >> 64) as u64); }
        if got != m {
            // The same elements in other pieces, or other elements.
            let own = if join(got.iter().copied().filter(|r| r.0 <= r.1).collect()) == m { C03 | (own & C01) } else { own };
            let at = got.iter().zip(&m).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(m.len()));
            return bad(own, "content", format!("the selection lists {} and differs at {at}, expected {}", show(&got), show(&m)));
        }
        let full = m == vec![(0, max)];
        if v.is_full() != full || v.is_empty() != m.is_empty() { return bad(own, "full-empty", format!("is_full {}, is_empty {} for {}", v.is_full(), v.is_empty(), show(&m))); }
        for &(l, h) in m.iter().take(4).chain(m.get(m.len() / 2)).chain(m.get(m.len() / 3 * 2)).chain(m.last()) {
            for p in [l.checked_sub(1), Some(l), Some(h), if h == max { None } else { Some(h + 1) }].into_iter().flatten() {
                let g = v.contains(&T::mk(p));
                if g != has(&m, p) { return bad(own, "contains", format!("contains(element {p}) is {g} for {}", show(&m))); }
            }
        }
        // With the value kept earlier, and with itself.
        let common = intersect(&m, &kept.1);
        if v.intersects(&kept.0) == common.is_empty() { return bad(C02, "intersects", format!("intersects({}, {}) is {}", show(&m), show(&kept.1), common.is_empty())); }
        if (v == kept.0) != (m == kept.1) { return bad(C03, "equality", format!("equality of {} and {} is wrong", show(&m), show(&kept.1))); }
        let hull = m.first().zip(m.last()).map(|(a, b)| Interval::closed(T::mk(a.0), T::mk(b.1))).unwrap_or_else(Interval::empty);
        if v.enclose() != hull { return bad(C02, "enclose", format!("enclose of {} is {:?}", show(&m), v.enclose())); }
        if v.closure() != hull { return bad(C02, "closure", format!("closure of {} is {:?}", show(&m), v.closure())); }
        // Both ends of the sequence of elements.
        let total = count(&m);
        if n + 1 == ops.len() || n % 4 == 3 {
            let take = total.min(5) as usize;
            let mut want: Vec<u128> = Vec::new();
            'f: for &(l, h) in &m { let mut p = l; loop { if want.len() == take { break 'f; } want.push(p); if p == h { break; } p += 1; } }
            let got: Vec<u128> = v.iter().take(take).map(|x| x.ix()).collect();
            if got != want { return bad(C04, "iteration", format!("iterating {} begins {got:?}", show(&m))); }
            let mut want: Vec<u128> = Vec::new();
            'b: for &(l, h) in m.iter().rev() { let mut p = h; loop { if want.len() == take { break 'b; } want.push(p); if p == l { break; } p -= 1; } }
            let got: Vec<u128> = v.clone().into_iter().rev().take(take).map(|x| x.ix()).collect();
            if got != want { return bad(C04, "iteration", format!("iterating {} backwards begins {got:?}", show(&m))); }
            let (lo, hi) = v.iter().size_hint();
            if (lo as u128) > total || hi.map_or(false, |h| (h as u128) < total) { return bad(C04, "size_hint", format!("size_hint ({lo}, {hi:?}) for {}", show(&m))); }
            if total <= 300 && v.iter().count() as u128 != total { return bad(C04, "iteration", format!("iterating {} gave {} elements", show(&m), v.iter().count())); }
            if m.len() >= 40 {
                // Two consumers of the intervals.
                let mut it = v.interval_iter();
                let mut own_it = v.clone().into_interval_iter();
                let (mut f, mut e) = (0usize, m.len());
                let mut r = u64::from(x) << 16 | u64::from(y);
                while f < e {
                    r = mix(r);
                    let skip = if r >> 8 & 15 == 0 { (r >> 12) as usize % 40 } else { 0 };
                    let back = r & 1 == 1;
                    let (a, b, w) = if back {
                        let w = (e - f > skip).then(|| e - 1 - skip);
                        e = w.unwrap_or(f);
                        (it.nth_back(skip), own_it.nth_back(skip), w)
                    } else {
                        let w = (e - f > skip).then(|| f + skip);
                        f = w.map_or(e, |w| w + 1);
                        (it.nth(skip), own_it.nth(skip), w)
                    };
                    let w = w.map(|w| Interval::closed(T::mk(m[w].0), T::mk(m[w].1)));
                    if a != w || b != w { return bad(C04, "iteration", format!("skipping {skip} intervals gave {a:?} and {b:?}, expected {w:?}, with {f}..{e} of {} left", m.len())); }
                }
                if let (Some(p), None) = (it.next(), own_it.next_back()) { return bad(C04, "iteration", format!("{p:?} after the end")); }
                let half: usize = (total / 2).min(400) as usize;
                let mut it = v.iter();
                let (mut f, mut back) = (Vec::new(), Vec::new());
                for _ in 0..half { f.extend(it.next().map(|p| p.ix())); back.extend(it.next_back().map(|p| p.ix())); }
                let (mut wf, mut wb) = (Vec::new(), Vec::new());
                'p: for &(l, h) in &m { let mut p = l; loop { if wf.len() == half { break 'p; } wf.push(p); if p == h { break; } p += 1; } }
                'q: for &(l, h) in m.iter().rev() { let mut p = h; loop { if wb.len() == half { break 'q; } wb.push(p); if p == l { break; } p -= 1; } }
                if f != wf || back != wb { return bad(C04, "iteration", format!("points of {} from both ends", show(&m))); }
            }
            // Saved and restored.
            let bytes = bincode::serialize(&v).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
            let back: Selection<T> = bincode::deserialize(&bytes).map_err(|e| (C08, "load".to_string(), e.to_string()))?;
            if back != v || listed(&back) != m { return bad(C08, "load", format!("restored {} intervals from {}", listed(&back).len(), show(&m))); }
            // As one part of a larger document.
            let parts = (&v, 7u8, &iv, &kept.0, Some(&v), "end");
            type Parts<T> = (Selection<T>, u8, Interval<T>, Selection<T>, Option<Selection<T>>, String);
            let whole = bincode::serialize(&parts).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
            let p: Parts<T> = bincode::deserialize(&whole).map_err(|e| (C08, "load".to_string(), format!("within a larger document: {e}")))?;
            if (&p.0, p.1, &p.2, &p.3, p.4.as_ref(), p.5.as_str()) != parts { return bad(C08, "load", format!("a document holding {} and {} restored {p:?}", show(&m), show(&kept.1))); }
            let mut doc = None;
            if std::mem::size_of::<T>() <= 8 {
                let text = serde_json::to_string(&v).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
                let back: Selection<T> = serde_json::from_str(&text).map_err(|e| (C08, "load".to_string(), e.to_string()))?;
                if back != v || listed(&back) != m { return bad(C08, "load", format!("restored {} intervals from the text of {}", listed(&back).len(), show(&m))); }
                let whole = serde_json::to_string(&parts).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
                let p: Parts<T> = serde_json::from_str(&whole).map_err(|e| (C08, "load".to_string(), format!("within a larger document: {e}")))?;
                if (&p.0, p.1, &p.2, &p.3, p.4.as_ref(), p.5.as_str()) != parts { return bad(C08, "load", format!("a text holding {} and {} restored {p:?}", show(&m), show(&kept.1))); }
                doc = serde_json::from_str::<serde_json::Value>(&text).ok();
            }
            if damage {
                let mut r = mix(u64::from(x) << 16 | u64::from(y));
                for round in 0..if m.len() < 40 { 6u8 } else { 3 } {
                    let w: Selection<T> = match &doc {
                        Some(serde_json::Value::Array(ts)) if round % 4 != 0 => {
                            let mut ts = ts.clone();
                            for _ in 0..1 + r % 3 { r = mix(r); damage_tines(&mut ts, (r >> 48) as u8, r, mix(r)); }
                            let Ok(w) = serde_json::from_value(serde_json::Value::Array(ts)) else { continue };
                            w
                        }
                        _ => {
                            let mut b = bytes.clone();
                            r = mix(r);
                            damage_bytes(&mut b, &bytes, (r >> 48) as u8 % 7, r as u16, (r >> 16) as u16);
                            let Ok(w) = bincode::deserialize(&b) else { continue };
                            w
                        }
                    };
                    d = mix(d ^ 0xDA);
                    let l = restored(&w, &kept)?;
                    for q in &l { d = mix(d ^ q.0 as u64) ^ q.1 as u64; }
                    // The history goes on with what was restored.
                    if r >> 40 & 3 == 0 { (v, m, taint) = (w, l, C09); }
                }
            }
        }
    }
    Ok(d)
}
