//! C24: comparisons, searches and lookups of byte strings, tables and header tables against a
//! naive reference, on every pair of strings and every small table of a bounded space.
use crate::c18::put;
use crate::eng::*;
use htp::bstr::Bstr;
use htp::table::Table;
use htp::transaction::{Header, Headers};
use std::cmp::Ordering;

fn low(b: &[u8]) -> Vec<u8> {
    b.iter().map(|&c| if c.is_ascii_uppercase() { c + 32 } else { c }).collect()
}
fn nozero(b: &[u8]) -> Vec<u8> {
    b.iter().cloned().filter(|&c| c != 0).collect()
}
fn sp(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\r' || c == b'\n'
}
fn trim(b: &[u8]) -> &[u8] {
    let s = b.iter().position(|&c| !sp(c)).unwrap_or(b.len());
    let e = b.iter().rposition(|&c| !sp(c)).map(|e| e + 1).unwrap_or(s);
    &b[s..e]
}
fn order(a: &[u8], b: &[u8]) -> Ordering {
    for k in 0..a.len().min(b.len()) {
        if a[k] != b[k] {
            return if a[k] < b[k] { Ordering::Less } else { Ordering::Greater };
        }
    }
    if a.len() < b.len() {
        Ordering::Less
    } else if a.len() > b.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
/// first place where n occurs in h
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..h.len()).find(|&i| h.len() - i >= n.len() && h[i..i + n.len()] == *n)
}
/// the same with the NULs of h skipped; the answer is a place in h
fn find_nozero(h: &[u8], n: &[u8]) -> Option<usize> {
    let at: Vec<usize> = (0..h.len()).filter(|&i| h[i] != 0).collect();
    find(&nozero(h), n).map(|i| at[i])
}
/// pieces between the places where s occurs, left to right
fn split(h: &[u8], s: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut rest = h;
    loop {
        match find(rest, s) {
            Some(i) => {
                v.push(rest[..i].to_vec());
                rest = &rest[i + s.len()..];
            }
            None => {
                v.push(rest.to_vec());
                return v;
            }
        }
    }
}
fn is<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?} instead of {:?}", what, got, want))
    }
}

pub fn pair(a: &[u8], b: &[u8]) -> Result<(), String> {
    let s = Bstr::from(a);
    let (la, lb) = (low(a), low(b));
    is("cmp_slice", s.cmp_slice(b), order(a, b))?;
    is("eq_slice", s.eq_slice(b), a == b)?;
    is("==", s == Bstr::from(b.to_vec()), a == b)?;
    let o = order(&la, &lb);
    is("cmp_nocase", s.cmp_nocase(b), o)?;
    is("eq_nocase", s.eq_nocase(b), o == Ordering::Equal)?;
    is("cmp_nocase_trimmed", s.cmp_nocase_trimmed(b), order(&low(trim(a)), &lb))?;
    let o = order(&nozero(&la), &lb);
    is("cmp_nocase_nozero", s.cmp_nocase_nozero(b), o)?;
    is("eq_nocase_nozero", s.eq_nocase_nozero(b), o == Ordering::Equal)?;
    is("cmp_nocase_nozero_trimmed", s.cmp_nocase_nozero_trimmed(b), order(&nozero(&low(trim(a))), &lb))?;
    is("starts_with", s.starts_with(b), a.len() >= b.len() && a[..b.len()] == *b)?;
    is("starts_with_nocase", s.starts_with_nocase(b), la.len() >= lb.len() && la[..lb.len()] == *lb)?;
    if !b.is_empty() {
        let w = find(a, b);
        is("index_of", s.index_of(b), w)?;
        let w2 = find(&la, &lb);
        is("index_of_nocase", s.index_of_nocase(b), w2)?;
        let w3 = find_nozero(&la, &lb);
        is("index_of_nocase_nozero", s.index_of_nocase_nozero(b), w3)?;
        if w.is_some() || w2.is_some() || w3.is_some() {
            nontrivial();
        }
        let got: Vec<Vec<u8>> = s.split_str_collect(b).into_iter().map(|p| p.to_vec()).collect();
        is("split_str_collect", got, split(a, b))?;
        outcome(h64(&(o as i8, w, w2, w3)));
    }
    let mut t = s.clone();
    t.add(b);
    is("add", t.as_slice().to_vec(), [a, b].concat())?;
    is("the original after add on a copy", s.as_slice(), a)?;
    transitions(16);
    Ok(())
}

pub fn noex(cap: usize, a: &[u8], b: &[u8]) -> Result<(), String> {
    let mut s = Bstr::with_capacity(cap);
    is("with_capacity", (s.len(), s.capacity() >= cap), (0, true))?;
    s.add(a);
    let room = s.capacity() - s.len();
    let c = s.capacity();
    s.add_noex(b);
    let n = room.min(b.len());
    is("add_noex", s.as_slice().to_vec(), [a, &b[..n]].concat())?;
    is("capacity after add_noex", s.capacity(), c)?;
    if n < b.len() {
        nontrivial();
    }
    transitions(3);
    Ok(())
}

fn strings(al: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = v.len();
        for i in from..to {
            for &c in al {
                let mut s = v[i].clone();
                s.push(c);
                v.push(s);
            }
        }
        from = to;
    }
    v
}

const KEYS: [&[u8]; 16] = [
    b"a", b"A", b"b", b"ab", b"aB", b"", b" a", b"a ", b"\ta\r\n", b"a\0", b"\0a", b"a\0b", b" \0a", b"a b", b"\xe1", b"ac",
];
const ASK: [&[u8]; 14] = [b"a", b"A", b"b", b"ab", b"AB", b"", b"c", b"a b", b" a", b"a\0", b"abc", b"\xc1", b"\xe1", b"Ac"];

pub fn table(keys: &[usize]) -> Result<(), String> {
    let mut t: Table<usize> = Table::with_capacity(keys.len() / 2);
    let mut h = Headers::with_capacity(keys.len() / 2);
    for (i, &k) in keys.iter().enumerate() {
        t.add(Bstr::from(KEYS[k]), i);
        h.elements.push(Header::new_with_flags(Bstr::from(KEYS[k]), Bstr::from(vec![b'0'.wrapping_add(i as u8)]), i as u64));
    }
    is("size", (t.size(), h.size()), (keys.len(), keys.len()))?;
    for i in 0..=keys.len() {
        let w = keys.get(i).map(|&k| (KEYS[k].to_vec(), i));
        is("get", t.get(i).map(|e| (e.0.as_slice().to_vec(), e.1)), w.clone())?;
        is("get_mut", t.get_mut(i).map(|e| (e.0.as_slice().to_vec(), e.1)), w.clone())?;
        if w.is_some() {
            is("index", Some((t[i].0.as_slice().to_vec(), t[i].1)), w)?;
        }
    }
    let order: Vec<usize> = (0..keys.len()).collect();
    is("iteration", (&t).into_iter().map(|e| e.1).collect::<Vec<_>>(), order.clone())?;
    is("mutable iteration", (&mut t).into_iter().map(|e| e.1).collect::<Vec<_>>(), order.clone())?;
    is("iteration of headers", (&h).into_iter().map(|e| e.flags as usize).collect::<Vec<_>>(), order.clone())?;
    for q in ASK {
        let lq = low(q);
        let plain = keys.iter().position(|&k| low(trim(KEYS[k])) == lq);
        let nz = keys.iter().position(|&k| nozero(&low(trim(KEYS[k]))) == lq);
        if plain.is_some() || nz.is_some() {
            nontrivial();
        }
        let what = show(q);
        is(&format!("Table::get_nocase({})", what), t.get_nocase(q).map(|e| e.1), plain)?;
        is(&format!("get_nocase({})", what), h.get_nocase(q).map(|e| e.flags as usize), plain)?;
        is(&format!("get_nocase_mut({})", what), h.get_nocase_mut(q).map(|e| e.flags as usize), plain)?;
        is(&format!("get_nocase_nozero({})", what), h.get_nocase_nozero(q).map(|e| e.flags as usize), nz)?;
        is(&format!("get_nocase_nozero_mut({})", what), h.get_nocase_nozero_mut(q).map(|e| e.flags as usize), nz)?;
        outcome(h64(&(keys, q, plain, nz)));
        transitions(5);
    }
    is("owned iteration", t.into_iter().map(|e| e.1).collect::<Vec<_>>(), order.clone())?;
    is("owned iteration of headers", h.into_iter().map(|e| e.flags as usize).collect::<Vec<_>>(), order)
}

pub fn run(ctx: &mut Ctx) {
    // every pair of bytes
    ctx.par(256, |i| format!("byte {}", i), |i| {
        for j in 0..256usize {
            let (a, b) = ([i as u8], [j as u8]);
            // white space other than the four common characters is not part of the property
            let odd = |c: u8| matches!(c, 0x0b | 0x0c) || c >= 0x80;
            begin(&[&a, &b]);
            if !odd(a[0]) {
                put(ctx, "pair", &[b"[", &a[..], b"] [", &b[..], b"]"].concat(), guarded(|| pair(&a, &b)));
            }
            let (a, b) = ([b'x', i as u8, b'x'], [b'x', j as u8, b'x']);
            put(ctx, "pair", &[b"[", &a[..], b"] [", &b[..], b"]"].concat(), guarded(|| pair(&a, &b)));
        }
    });
    ctx.rule("every pair of bytes, alone and inside a string");
    // every pair of short strings
    let n = ctx.pick(4, 5);
    let v = strings(b"aAbZ\0 ", n);
    ctx.par(v.len(), |i| format!("string {}", show(&v[i])), |i| {
        for b in &v {
            begin(&[&v[i], b]);
            put(ctx, "pair", &[b"[", &v[i][..], b"] [", b, b"]"].concat(), guarded(|| pair(&v[i], b)));
        }
    });
    ctx.rule(&format!("every pair of strings of at most {} of the characters a A b Z NUL SP", n));
    // longer haystacks
    let n = ctx.pick(8, 10);
    let v = strings(b"aBb\0", n);
    let needles: Vec<Vec<u8>> = strings(b"aAb\0", 3).into_iter().chain(strings(b"ab", 6)).filter(|n| !n.is_empty()).collect();
    ctx.par(v.len(), |i| format!("string {}", show(&v[i])), |i| {
        let a = &v[i];
        let la = low(a);
        let s = Bstr::from(&a[..]);
        for b in &needles {
            begin(&[a, b]);
            let lb = low(b);
            let w = (find(a, b), find(&la, &lb), find_nozero(&la, &lb));
            let r = guarded(|| {
                is("index_of", s.index_of(b), w.0)?;
                is("index_of_nocase", s.index_of_nocase(b), w.1)?;
                is("index_of_nocase_nozero", s.index_of_nocase_nozero(b), w.2)
            });
            transitions(3);
            if w.0.is_some() || w.1.is_some() || w.2.is_some() {
                nontrivial();
            }
            put(ctx, "find", &[b"[", &a[..], b"] [", b, b"]"].concat(), r);
        }
    });
    ctx.rule(&format!("searches in every string of at most {} of the characters a B b NUL for every needle of up to 3 (6) characters", n));
    ctx.par(12, |i| format!("capacity {}", i), |i| {
        for a in 0..10usize {
            for b in 0..24usize {
                begin(&[b"capacity"]);
                let (x, y): (Vec<u8>, Vec<u8>) = ((0..a as u8).collect(), (100..100 + b as u8).collect());
                put(ctx, "noex", format!("capacity {} of {} add {}", i, a, b).as_bytes(), guarded(|| noex(i, &x, &y)));
            }
        }
    });
    // tables
    let n = ctx.pick(4usize, 5);
    let k = KEYS.len();
    ctx.par(k * k, |i| format!("table {}", i), |i| {
        let mut keys = vec![];
        if i == 0 {
            begin(&[b"empty table"]);
            put(ctx, "table", b"", guarded(|| table(&[])));
        }
        if i % k == 0 {
            begin(&[KEYS[i / k]]);
            put(ctx, "table", KEYS[i / k], guarded(|| table(&[i / k])));
        }
        fn rec(ctx: &Ctx, keys: &mut Vec<usize>, n: usize) {
            let d: Vec<&[u8]> = keys.iter().map(|&k| KEYS[k]).collect();
            begin(&d);
            put(ctx, "table", &d.join(&b','), guarded(|| table(keys)));
            if keys.len() < n {
                for j in 0..KEYS.len() {
                    keys.push(j);
                    rec(ctx, keys, n);
                    keys.pop();
                }
            }
        }
        keys.push(i / k);
        keys.push(i % k);
        rec(ctx, &mut keys, n);
    });
    ctx.rule(&format!("every table of at most {} entries with keys out of {} and every lookup of {} names", n, k, ASK.len()));
    ctx.sample("pair [a\\0 ] [A]: cmp_nocase_nozero_trimmed Equal, cmp_nocase Greater");
}
