//! Case generation from a sequence of choices ("genes"). proptest generates and shrinks the
//! genes; an exhausted source yields zeros, which decode to the simplest alternatives.

use crate::case::{Case, Tok};
use crate::gram::Gram;
use std::collections::BTreeSet;

pub struct Src<'a> {
    data: &'a [u32],
    pos: usize,
    /// when set, an exhausted source goes on with a pseudo-random stream instead of zeros
    tail: Option<u64>,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Src { data, pos: 0, tail: None }
    }
    /// A long stream of choices grown from one gene.
    pub fn grown(seed: u32) -> Src<'static> {
        Src { data: &[], pos: 0, tail: Some((seed as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1) }
    }
    pub fn raw(&mut self) -> u32 {
        let v = match (self.data.get(self.pos), &mut self.tail) {
            (Some(v), _) => *v,
            (None, Some(t)) => {
                *t ^= *t << 13;
                *t ^= *t >> 7;
                *t ^= *t << 17;
                (*t >> 32) as u32
            }
            (None, None) => 0,
        };
        self.pos += 1;
        v
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pct/100 (false when exhausted)
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) >= 100 - pct
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }
    pub fn exhausted(&self) -> bool {
        self.tail.is_none() && self.pos >= self.data.len()
    }
}

pub const EPS: u16 = 0;
pub const EOF: u16 = 300;
pub const T0: u16 = 201; // terminals 201..
pub const FRESH: u16 = 3000; // fresh terminals introduced by repairs

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Family {
    Tiny,
    Mid,
    Chain,
    Ladder,
    Conflict,
    Wide,
    Operators,
    /// more than 256 of something
    Huge,
}

#[derive(Clone, Copy, Default)]
pub struct Shape {
    pub eof: bool,
    pub no_left_recursion: bool,
    pub ll1: bool,
    pub productive: bool,
}

pub fn family(src: &mut Src, weights: &[(Family, usize)]) -> Family {
    if src.below(800) == 799 {
        return Family::Huge;
    }
    let w: Vec<usize> = weights.iter().map(|x| x.1).collect();
    weights[src.weighted(&w)].0
}

pub const ANY: &[(Family, usize)] = &[
    (Family::Tiny, 30),
    (Family::Mid, 25),
    (Family::Chain, 20),
    (Family::Ladder, 6),
    (Family::Conflict, 8),
    (Family::Wide, 5),
    (Family::Operators, 6),
];

/// Raw productions (well-formed), before repairs.
fn raw(src: &mut Src, fam: Family) -> Vec<(u16, Vec<u16>)> {
    let (nts, ts, alts, rhs, nt_pct, eps_pct, rep_pct, pre_pct): (usize, usize, usize, usize, usize, usize, usize, usize) =
        match fam {
            Family::Tiny => (src.range(1, 3), src.range(1, 3), 3, 3, 50, 25, 15, 10),
            Family::Mid => (src.range(2, 7), src.range(1, 6), 4, 5, 50, 15, 10, 15),
            Family::Chain => (src.range(2, 9), src.range(1, 4), 3, 10, 85, 40, 12, 5),
            Family::Ladder => return ladder(src),
            Family::Conflict => (src.range(2, 5), src.range(1, 3), 6, 4, 40, 15, 10, 40),
            Family::Wide => (src.range(8, 20), src.range(3, 12), 8, 6, 55, 15, 5, 15),
            Family::Operators => return operators(src),
            Family::Huge => return huge(src),
        };
    let mut out: Vec<(u16, Vec<u16>)> = vec![];
    for n in 1..=nts as u16 {
        // a non-terminal may be left without productions (it is then a terminal)
        let k = src.range(1, alts);
        let mut own: Vec<Vec<u16>> = vec![];
        for _ in 0..k {
            if src.chance(eps_pct) {
                own.push(vec![EPS]);
                continue;
            }
            let mut r: Vec<u16> = vec![];
            if !own.is_empty() && src.chance(pre_pct) {
                // share a prefix with an earlier alternative
                let o = &own[src.below(own.len())];
                if o[0] != EPS {
                    r.extend_from_slice(&o[..src.range(1, o.len())]);
                }
            }
            let len = src.range(1, rhs);
            while r.len() < len {
                if !r.is_empty() && src.chance(rep_pct) {
                    let s = if src.chance(50) { *r.last().unwrap() } else { r[src.below(r.len())] };
                    r.push(s);
                } else if src.chance(nt_pct) {
                    r.push(src.range(1, nts) as u16);
                } else {
                    r.push(T0 + src.below(ts) as u16);
                }
            }
            own.push(r);
        }
        for r in own {
            out.push((n, r));
        }
    }
    if src.chance(4) {
        // one long right-hand side
        let mut more = Src::grown(src.raw());
        let at = src.below(out.len());
        if out[at].1 == vec![EPS] {
            out[at].1.clear();
        }
        let nt_pct = src.pick(&[0, 10, 30, 60]);
        for _ in 0..src.pick(&[6, 10, 18, 35, 70]) {
            let s = if more.chance(nt_pct) { more.range(1, nts) as u16 } else { T0 + more.below(ts) as u16 };
            let i = more.below(out[at].1.len() + 1);
            out[at].1.insert(i, s);
        }
    }
    if src.chance(4) {
        // many alternatives
        let mut more = Src::grown(src.raw());
        let n = src.range(1, nts) as u16;
        let shared = T0 + src.below(ts) as u16;
        for _ in 0..src.pick(&[6, 10, 18, 35, 70]) {
            let mut r = vec![];
            if more.chance(70) {
                r.push(shared);
            }
            for _ in 0..more.range(1, 4) {
                r.push(if more.chance(15) { more.range(1, nts) as u16 } else { T0 + more.below(ts + 2) as u16 });
            }
            out.push((n, r));
        }
    }
    if src.chance(4) {
        // a run of nullable symbols somewhere in a right-hand side
        let mut more = Src::grown(src.raw());
        let k = src.pick(&[6, 12, 18, 26, 34, 66]);
        nullable_run(&mut more, &mut out, k, ts);
    }
    if src.chance(if fam == Family::Conflict { 12 } else { 3 }) {
        delayed_choice(src, &mut out, ts);
    }
    if src.chance(5) && !out.is_empty() {
        let d = out[src.below(out.len())].clone();
        let at = src.below(out.len() + 1);
        out.insert(at, d);
    }
    out
}

/// A choice that only shows to be right or wrong many symbols later in the same production: runs of
/// one terminal of different lengths, followed by a longer run of it.
fn delayed_choice(src: &mut Src, out: &mut Vec<(u16, Vec<u16>)>, ts: usize) {
    const X: u16 = 1600;
    let at = src.below(out.len());
    if out[at].1 == vec![EPS] {
        out[at].1.clear();
    }
    let t = T0 + src.below(ts) as u16;
    let head = if src.chance(50) { t } else { T0 + src.below(ts + 1) as u16 };
    for i in 0..src.range(2, 4) {
        let mut r = vec![head];
        r.extend(vec![t; if src.chance(70) { i } else { src.below(4) }]);
        if src.chance(15) {
            r.push(X + 1);
        }
        out.push((X, r));
    }
    if src.chance(40) {
        let k = out.len();
        let i = src.below(3);
        out.swap(k - 1, k - 1 - i % 2);
    }
    let mut run = vec![X];
    for _ in 0..src.pick(&[1, 3, 6, 10, 14, 20, 40]) {
        run.push(t);
    }
    if src.chance(30) {
        let i = src.range(1, run.len());
        run.insert(i, X + 1);
        out.push((X + 1, vec![EPS]));
        if src.chance(60) {
            out.push((X + 1, vec![t]));
        }
    }
    if src.chance(70) {
        run.push(T0 + src.below(ts + 1) as u16);
    }
    let i = src.below(out[at].1.len() + 1);
    let tail = out[at].1.split_off(i);
    out[at].1.extend(run);
    out[at].1.extend(tail);
}

/// Insert k nullable symbols into a right-hand side (one block, or spread over it).
fn nullable_run(src: &mut Src, out: &mut Vec<(u16, Vec<u16>)>, k: usize, ts: usize) {
    const E: u16 = 1500;
    const F: u16 = 2200;
    let at = src.below(out.len());
    if out[at].1 == vec![EPS] {
        out[at].1.clear();
    }
    let distinct = src.chance(70);
    let with_terminal = src.pick(&[0, 10, 50, 100]);
    let spread = src.chance(15);
    let mut i = src.below(out[at].1.len() + 1);
    for j in 0..k as u16 {
        let e = E + if distinct { j } else { src.below(3) as u16 };
        if spread {
            i = src.below(out[at].1.len() + 1);
        }
        out[at].1.insert(i, e);
        i += 1;
    }
    if i == out[at].1.len() && src.chance(70) {
        let s = if src.chance(60) { T0 + src.below(ts + 1) as u16 } else { 1 };
        out[at].1.push(s);
    }
    let mut rest = vec![];
    for j in 0..if distinct { k as u16 } else { 3 } {
        if src.chance(10) {
            // nullable through others
            rest.push((E + j, if j > 0 { vec![E + src.below(j as usize) as u16] } else { vec![EPS] }));
        } else {
            rest.push((E + j, vec![EPS]));
        }
        if src.chance(with_terminal) {
            let t = if src.chance(80) { F + j } else { T0 + src.below(ts) as u16 };
            rest.push((E + j, vec![t]));
        }
    }
    if src.chance(30) {
        rest.append(out);
        *out = rest;
    } else {
        out.extend(rest);
    }
}

/// Long unit/nullable chains in an arbitrary listing order: many fixed-point rounds.
fn ladder(src: &mut Src) -> Vec<(u16, Vec<u16>)> {
    let n = if src.chance(12) { src.range(41, 99) } else { src.range(3, 40) } as u16;
    let mut perm: Vec<u16> = (1..=n).collect();
    if src.chance(70) {
        for i in (2..perm.len()).rev() {
            let j = 1 + src.below(i);
            perm.swap(i, j);
        }
    }
    let mut out = vec![];
    for i in 0..perm.len() {
        let a = perm[i];
        if i + 1 < perm.len() {
            let b = perm[i + 1];
            match src.below(6) {
                0 => out.push((a, vec![b])),
                1 => out.push((a, vec![b, T0 + src.below(4) as u16])),
                2 => {
                    out.push((a, vec![b]));
                    out.push((a, vec![T0 + src.below(6) as u16]));
                }
                3 => {
                    let c = perm[src.range(i + 1, perm.len() - 1)];
                    out.push((a, vec![b, c]));
                }
                4 => {
                    let c = perm[src.range(i + 1, perm.len() - 1)];
                    out.push((a, vec![c, b]));
                    out.push((a, vec![EPS]));
                }
                _ => {
                    // may go up again: cycles
                    let c = perm[src.below(perm.len())];
                    out.push((a, vec![b]));
                    out.push((a, vec![T0 + src.below(4) as u16, c]));
                }
            }
        } else {
            out.push((a, vec![T0 + src.below(4) as u16]));
            if src.chance(60) {
                out.push((a, vec![EPS]));
            }
        }
    }
    out
}

/// More than 256 symbols in a right-hand side, alternatives, non-terminals or terminals.
fn huge(src: &mut Src) -> Vec<(u16, Vec<u16>)> {
    const N: u16 = 2000;
    const T: u16 = 1000;
    let n = src.pick(&[120, 255, 256, 257, 258, 300, 520]) as u16;
    let kind = src.below(6);
    let mut more = Src::grown(src.raw());
    let mut out: Vec<(u16, Vec<u16>)> = vec![];
    match kind {
        0 => {
            // a long right-hand side: few terminals, non-terminals (nullable ones included) anywhere
            let mut r = vec![];
            let nt = more.pick(&[0, 3, 20]);
            for i in 0..n {
                r.push(if more.chance(nt) || i + 2 >= n && more.chance(60) {
                    N + more.below(3) as u16
                } else {
                    T0 + more.below(3) as u16
                });
            }
            if more.chance(50) {
                r.push(T);
            }
            out.push((1, r));
            out.push((N, vec![EPS]));
            out.push((N, vec![T + 1]));
            out.push((N + 1, vec![T + 2, N]));
            out.push((N + 2, vec![N, N + 1]));
        }
        1 => {
            // a long right-hand side of distinct terminals
            out.push((1, (0..n).map(|i| T + i).collect()));
            if more.chance(50) {
                out.push((1, vec![T, T + 1, N]));
                out.push((N, vec![T + 2]));
                out.push((N, vec![EPS]));
            }
        }
        2 => {
            // many alternatives
            let shared = more.chance(30);
            for i in 0..n {
                let mut r = vec![T + if shared { 0 } else { i }];
                if more.chance(30) {
                    r.push(T + i);
                }
                if more.chance(10) {
                    r.push(1);
                }
                out.push((1, r));
            }
            if more.chance(50) {
                out.push((1, vec![EPS]));
            }
            if more.chance(50) {
                out.insert(0, (2, vec![T0, 1, 1]));
                out.insert(0, (1, vec![2]));
            }
        }
        3 => {
            // hundreds of nullable symbols in a row
            out.push((1, vec![T0, 2, T0 + 1]));
            out.push((2, vec![T0 + 2]));
            out.push((2, vec![3, T0 + 3]));
            out.push((3, vec![EPS]));
            nullable_run(&mut more, &mut out, n.min(300) as usize, 4);
        }
        4 => {
            // many non-terminals, few terminals, short chains
            for i in 0..n {
                let a = if i == 0 { 1 } else { N + i };
                let next = N + (i / 10 + 1) * 10;
                let b = if i % 10 == 9 || i + 1 == n { N + (next - N).min(n - 1) } else { N + i + 1 };
                if b != a {
                    out.push((a, vec![T0 + more.below(3) as u16, b]));
                }
                if more.chance(50) {
                    out.push((a, vec![EPS]));
                } else {
                    out.push((a, vec![T0 + 3]));
                }
            }
        }
        _ => {
            // many non-terminals with a terminal each, all used by the first one
            let m = n.min(300);
            for i in 0..m {
                out.push((1, vec![N + i, T0]));
                out.push((N + i, vec![T + i]));
                if more.chance(20) {
                    out.push((N + i, vec![T + i, 1]));
                }
            }
        }
    }
    out
}

/// Realistic shapes: expressions, lists, blocks, optional parts.
fn operators(src: &mut Src) -> Vec<(u16, Vec<u16>)> {
    let t = |k: u16| T0 + k;
    let mut out: Vec<(u16, Vec<u16>)> = vec![];
    let levels = src.range(1, 5) as u16;
    // 1: module, 2: statements, 3: statement, 4: optional separator, 10+: expression levels, 30+: tails
    out.push((1, if src.chance(50) { vec![2] } else { vec![4, 2] }));
    out.push((2, vec![3, 2]));
    out.push((2, vec![EPS]));
    out.push((3, vec![t(0), t(1), 10, t(2)]));
    if src.chance(60) {
        out.push((3, vec![t(3), 10, t(4), 2, t(5)]));
    }
    if src.chance(50) {
        out.push((3, vec![t(0), t(6), 10, t(2)]));
    }
    if src.chance(40) {
        out.push((3, vec![10, t(2)]));
    }
    out.push((4, vec![t(7)]));
    out.push((4, vec![EPS]));
    for l in 0..levels {
        let e = 10 + l;
        let next = if l + 1 < levels { 10 + l + 1 } else { 20 };
        if src.chance(75) {
            out.push((e, vec![next, 30 + l]));
            let alts = src.range(1, 2) as u16;
            for k in 0..alts {
                out.push((30 + l, vec![t(8 + 2 * l + k), next, 30 + l]));
            }
            if src.chance(80) {
                out.push((30 + l, vec![EPS]));
            } else {
                out.insert(out.len() - 1, (30 + l, vec![EPS]));
            }
        } else {
            out.push((e, vec![next, t(8 + 2 * l), e]));
            out.push((e, vec![next]));
        }
    }
    out.push((20, vec![t(0)]));
    out.push((20, vec![t(20), 10, t(21)]));
    if src.chance(50) {
        out.push((20, vec![t(0), t(20), 21, t(21)]));
        out.push((21, vec![EPS]));
        out.push((21, vec![10, 22]));
        out.push((22, vec![t(22), 10, 22]));
        out.push((22, vec![EPS]));
    }
    if src.chance(30) {
        // optional modifiers in a row, the same one possibly repeated
        out.push((3, vec![40, 41, 41, t(0), t(2)]));
        out.push((40, vec![t(23)]));
        out.push((40, vec![EPS]));
        out.push((41, vec![EPS]));
        out.push((41, vec![t(24), 42]));
        out.push((42, vec![EPS]));
        if src.chance(50) {
            out.push((42, vec![t(25)]));
        }
    }
    out
}

fn gram_of(prods: &[(u16, Vec<u16>)], start: u16) -> Gram {
    Gram::new(&Case { eps: EPS, start, prods: prods.to_vec(), ..Default::default() })
}

/// Resolve LL(1) conflicts by leading alternatives with fresh terminals (or dropping them).
fn make_ll1(src: &mut Src, prods: &mut Vec<(u16, Vec<u16>)>, start: u16, fresh: &mut u16, drop: bool) {
    loop {
        let g = gram_of(prods, start);
        let Some(v) = g.ll1_conflict() else { break };
        // alternatives led by a fresh terminal never conflict with each other
        let i = *v.iter().rev().find(|i| prods[**i].1[0] < FRESH).unwrap();
        let remove = drop && prods.iter().filter(|p| p.0 == prods[i].0).count() > 1 && src.chance(25);
        if remove {
            prods.remove(i);
        } else {
            if prods[i].1 == vec![EPS] {
                prods[i].1 = vec![*fresh];
            } else {
                prods[i].1.insert(0, *fresh);
            }
            *fresh += 1;
        }
    }
}

pub fn grammar(src: &mut Src, fam: Family, shape: Shape) -> Case {
    let mut prods = raw(src, fam);
    let mut start: u16 = 1;
    let mut fresh = FRESH;
    if shape.no_left_recursion {
        loop {
            let g = gram_of(&prods, start);
            match g.left_recursive_edge() {
                None => break,
                Some((i, k)) => {
                    // guard the recursive occurrence by an existing terminal
                    let t = T0 + src.below(3) as u16;
                    if src.chance(30) {
                        prods[i].1[k] = t;
                    } else {
                        prods[i].1.insert(k, t);
                    }
                }
            }
        }
    }
    if shape.productive {
        loop {
            let g = gram_of(&prods, start);
            let h = g.heights();
            let bad = g.nts.iter().find(|n| !h.contains_key(n)).cloned();
            match bad {
                None => break,
                Some(n) => prods.push((n, vec![T0 + src.below(3) as u16])),
            }
        }
    }
    if shape.eof {
        let s = 100;
        match src.weighted(&[60, 25, 15]) {
            0 => {
                prods.insert(0, (s, vec![1, EOF]));
                start = s;
            }
            1 => {
                prods.insert(0, (s, vec![1, EOF]));
                let max = prods.iter().map(|p| p.0).filter(|x| *x < 100).max().unwrap() as usize;
                let k = src.range(1, 3);
                for _ in 0..k {
                    let mut r = vec![];
                    for _ in 0..src.range(0, 3) {
                        r.push(if src.chance(60) {
                            src.range(1, max) as u16
                        } else {
                            T0 + src.below(3) as u16
                        });
                    }
                    r.push(EOF);
                    let at = src.below(prods.len() + 1);
                    prods.insert(at, (s, r));
                }
                start = s;
            }
            _ => {
                // the original initial symbol's own productions are end-marked (it may also occur
                // inside right-hand sides)
                for p in prods.iter_mut() {
                    if p.0 == 1 {
                        if p.1 == vec![EPS] {
                            p.1 = vec![EOF];
                        } else {
                            p.1.push(EOF);
                        }
                    }
                }
            }
        }
    }
    if shape.no_left_recursion && shape.eof {
        // end-marking turns epsilon productions into terminals, which cannot create left
        // recursion; new initial productions cannot either
        debug_assert!(!gram_of(&prods, start).left_recursive());
    }
    if shape.ll1 {
        make_ll1(src, &mut prods, start, &mut fresh, true);
        if shape.productive {
            loop {
                let g = gram_of(&prods, start);
                let h = g.heights();
                let bad = g.nts.iter().find(|n| !h.contains_key(n)).cloned();
                match bad {
                    None => break,
                    Some(n) => {
                        prods.push((n, if n == start && shape.eof { vec![fresh, EOF] } else { vec![fresh] }));
                        fresh += 1;
                    }
                }
            }
            // new productions extend FIRST sets, so repair again (only by prefixing)
            make_ll1(src, &mut prods, start, &mut fresh, false);
        }
    }
    // listing order
    match src.below(4) {
        0 | 1 => {}
        2 => {
            // interleave: move random productions around
            for _ in 0..src.range(1, 6) {
                let a = src.below(prods.len());
                let p = prods.remove(a);
                let b = src.below(prods.len() + 1);
                prods.insert(b, p);
            }
        }
        _ => prods.reverse(),
    }
    Case { eps: EPS, start, prods, inputs: vec![], aux: vec![] }
}

/// Derivations hundreds to thousands of levels deep: brackets, right-recursive lists, cycles of
/// non-terminals, with and without alternatives to try; sentences and broken ones.
pub fn deep(src: &mut Src, max: usize) -> Case {
    let depths: Vec<usize> = [70, 130, 260, 520, 1030, 2100, 3000].iter().cloned().filter(|d| *d <= max).collect();
    let n = src.pick(&depths);
    let (open, close, leaf, plus, other) = (T0, T0 + 1, T0 + 2, T0 + 3, T0 + 4);
    let mut prods: Vec<(u16, Vec<u16>)> = vec![(100, vec![1, EOF])];
    let mut t: Vec<u16> = vec![];
    match src.below(5) {
        0 => {
            prods.push((1, vec![open, 1, close]));
            prods.push((1, vec![leaf]));
            t.extend(vec![open; n]);
            t.push(leaf);
            t.extend(vec![close; n]);
        }
        1 => {
            prods.push((1, vec![open, 1, close, 2]));
            prods.push((1, vec![leaf, 2]));
            prods.push((2, vec![plus, 1]));
            prods.push((2, vec![EPS]));
            t.extend(vec![open; n / 2]);
            t.push(leaf);
            for _ in 0..n / 2 {
                t.push(close);
                if src.chance(10) {
                    t.extend_from_slice(&[plus, leaf]);
                }
            }
        }
        2 => {
            // a list to the right, a nullable end
            prods.push((1, vec![leaf, 2]));
            prods.push((2, vec![plus, 1]));
            prods.push((2, vec![EPS]));
            for _ in 0..n / 2 {
                t.extend_from_slice(&[leaf, plus]);
            }
            t.push(leaf);
        }
        3 => {
            // a cycle of non-terminals
            let k = src.range(2, 9) as u16;
            for i in 1..=k {
                prods.push((i, vec![T0 + 10 + i, if i == k { 1 } else { i + 1 }]));
            }
            prods.push((1, vec![leaf]));
            let rounds = (n / k as usize).max(1);
            for _ in 0..rounds {
                t.extend((1..=k).map(|i| T0 + 10 + i));
            }
            t.push(leaf);
        }
        _ => {
            // two ways at every level
            prods.push((1, vec![leaf, 1]));
            prods.push((1, vec![leaf]));
            if src.chance(50) {
                prods.push((1, vec![leaf, 1, other]));
            }
            t.extend(vec![leaf; n]);
        }
    }
    match src.below(6) {
        0 => t.insert(src.below(t.len() + 1), other),
        1 => {
            t.remove(src.below(t.len()));
        }
        2 => {
            let m = t.len();
            t[m - 1] = other;
        }
        _ => {}
    }
    t.push(EOF);
    if src.chance(30) {
        prods.reverse();
    }
    let input = t.iter().enumerate().map(|(i, t)| Tok { t: *t, lex: Some(i as u64) }).collect();
    Case { eps: EPS, start: 100, prods, inputs: vec![input], aux: vec![src.below(5) as u32] }
}

/// One of a family of LL(1) inputs of the same shape whose length is proportional to `n`: nested,
/// right-recursive, cyclic or flat, complete or broken at the same relative place.
pub fn scaled(seed: u32, n: usize) -> Case {
    let mut src = Src::grown(seed);
    let (open, close, leaf, plus, other) = (T0, T0 + 1, T0 + 2, T0 + 3, T0 + 4);
    let mut prods: Vec<(u16, Vec<u16>)> = vec![(100, vec![1, EOF])];
    let mut t: Vec<u16> = vec![];
    match src.below(5) {
        0 => {
            prods.push((1, vec![open, 1, close]));
            prods.push((1, vec![leaf]));
            t.extend(vec![open; n]);
            t.push(leaf);
            t.extend(vec![close; n]);
        }
        1 => {
            prods.push((1, vec![open, 1, close, 2]));
            prods.push((1, vec![leaf, 2]));
            prods.push((2, vec![plus, 1]));
            prods.push((2, vec![EPS]));
            t.extend(vec![open; n]);
            t.push(leaf);
            for _ in 0..n {
                t.extend_from_slice(&[close, plus, leaf]);
            }
        }
        2 => {
            prods.push((1, vec![leaf, 2]));
            prods.push((2, vec![plus, 1]));
            prods.push((2, vec![EPS]));
            for _ in 0..n {
                t.extend_from_slice(&[leaf, plus]);
            }
            t.push(leaf);
        }
        3 => {
            let k = src.range(2, 9) as u16;
            for i in 1..=k {
                let mut r = vec![T0 + 10 + i, if i == k { 1 } else { i + 1 }];
                r.extend(vec![20; src.below(4)]);
                prods.push((i, r));
            }
            prods.push((1, vec![leaf]));
            prods.push((20, vec![EPS]));
            for _ in 0..n / k as usize {
                t.extend((1..=k).map(|i| T0 + 10 + i));
            }
            t.push(leaf);
        }
        _ => {
            // a list of blocks, each in brackets
            prods.push((1, vec![2, 1]));
            prods.push((1, vec![EPS]));
            prods.push((2, vec![open, 3, close]));
            prods.push((3, vec![leaf, 3]));
            prods.push((3, vec![EPS]));
            let block = src.pick(&[0, 3, 30]);
            for _ in 0..(n / (block + 1)).max(1) {
                t.push(open);
                t.extend(vec![leaf; block]);
                t.push(close);
            }
        }
    }
    let m = t.len();
    let at = m * src.below(101) / 100;
    match src.below(4) {
        0 => t.insert(at, other),
        1 => {
            t.remove(at.min(m - 1));
        }
        2 => t.truncate(at),
        _ => {}
    }
    if src.chance(80) {
        t.push(EOF);
    }
    if t.is_empty() {
        t.push(leaf);
    }
    let input = t.iter().enumerate().map(|(i, t)| Tok { t: *t, lex: Some(i as u64) }).collect();
    Case { eps: EPS, start: 100, prods, inputs: vec![input], aux: vec![0] }
}

/// A balanced LL(1) grammar and inputs of more than 65536 tokens.
pub fn flat(src: &mut Src) -> Case {
    let mut prods = vec![(100u16, vec![1u16, EOF])];
    for i in 1..=4u16 {
        prods.push((i, vec![i + 1; 17]));
    }
    prods.push((5, vec![T0, 6]));
    prods.push((6, vec![T0 + 1]));
    prods.push((6, vec![EPS]));
    let mut more = Src::grown(src.raw());
    let mut t = vec![];
    for _ in 0..17 * 17 * 17 * 17 {
        t.push(T0);
        if more.chance(20) {
            t.push(T0 + 1);
        }
    }
    let n = t.len();
    let at = src.pick(&[65_535, 65_536, 65_537, n - 1]);
    match src.below(4) {
        0 | 1 => {}
        2 => t[at] = T0 + 2,
        _ => {
            t.remove(at);
        }
    }
    t.push(EOF);
    let input = t.iter().enumerate().map(|(i, t)| Tok { t: *t, lex: Some(i as u64) }).collect();
    Case { eps: EPS, start: 100, prods, inputs: vec![input], aux: vec![0] }
}

/// A production list beyond 65536: in its length, in one non-terminal's alternatives or in one
/// right-hand side. With `spoil`, a malformed production at or near the end.
pub fn bulk(src: &mut Src, spoil: bool) -> Case {
    let kind = src.below(3);
    let n = src.pick(&[65_536, 65_537, 65_600, 66_000]);
    let mut more = Src::grown(src.raw());
    let mut prods: Vec<(u16, Vec<u16>)> = vec![];
    let any = |m: &mut Src| {
        let k = m.range(1, 3);
        (0..k).map(|_| if m.chance(30) { 1 + m.below(40) as u16 } else { T0 + m.below(7) as u16 }).collect::<Vec<u16>>()
    };
    match kind {
        0 => {
            for _ in 0..n {
                let l = 1 + more.below(40) as u16;
                prods.push((l, any(&mut more)));
            }
        }
        1 => {
            prods.push((2, vec![1, T0]));
            for _ in 0..n {
                prods.push((1, any(&mut more)));
            }
            prods.push((2, vec![T0, 1]));
        }
        _ => {
            prods.push((1, vec![EPS]));
            let mut r = vec![];
            while r.len() < n {
                r.extend(any(&mut more));
            }
            // symbols that occur nowhere else, at the very end
            r.extend_from_slice(&[3, T0 + 8]);
            prods.push((2, r));
            prods.push((3, vec![T0 + 9]));
        }
    }
    if spoil {
        let m = prods.len();
        let at = m - 1 - src.below(2.min(m));
        match src.below(4) {
            0 => prods[at].1.clear(),
            1 => prods[at].1.push(EPS),
            2 => prods[at].0 = EPS,
            _ => {
                let big = (0..m).max_by_key(|i| prods[*i].1.len()).unwrap();
                prods[big].1.push(EPS);
            }
        }
    }
    Case { eps: EPS, start: 1, prods, inputs: vec![], aux: vec![src.below(5) as u32] }
}

/// A random sentence derived from the initial symbol (None if unproductive or too long).
pub fn sentence(src: &mut Src, g: &Gram, budget: usize, cap: usize) -> Option<Vec<u16>> {
    let h = g.heights();
    sentence_with(src, g, &h, budget, cap)
}

pub fn sentence_with(
    src: &mut Src,
    g: &Gram,
    h: &std::collections::BTreeMap<u16, u32>,
    budget: usize,
    cap: usize,
) -> Option<Vec<u16>> {
    h.get(&g.start)?;
    let mut out = vec![];
    let mut stack = vec![g.start];
    let mut steps = 0usize;
    while let Some(s) = stack.pop() {
        if s == g.eps {
            continue;
        }
        if !g.is_nt(s) {
            out.push(s);
            if out.len() > cap {
                return None;
            }
            continue;
        }
        steps += 1;
        if steps > 20 * (budget + cap + 10) {
            return None;
        }
        let all: Vec<usize> = g.by_lhs[&s]
            .iter()
            .cloned()
            .filter(|i| g.prods[*i].1.iter().all(|x| !g.is_nt(*x) || h.contains_key(x)))
            .collect();
        let height = |i: usize| -> u32 {
            g.prods[i].1.iter().map(|x| h.get(x).cloned().unwrap_or(0)).max().unwrap_or(0)
        };
        let i = if steps <= budget && !src.exhausted() {
            // prefer growing alternatives a little
            let i = all[src.below(all.len())];
            if g.prods[i].1.len() <= 1 && src.chance(35) {
                all[src.below(all.len())]
            } else {
                i
            }
        } else {
            let m = all.iter().map(|i| height(*i)).min().unwrap();
            *all.iter().find(|i| height(**i) == m).unwrap()
        };
        for x in g.prods[i].1.iter().rev() {
            stack.push(*x);
        }
        if stack.len() > 4 * cap + 200 {
            return None;
        }
    }
    Some(out)
}

pub struct TokOpts {
    pub budget: usize,
    pub cap: usize,
    /// keep the end marker last and unique when the grammar has one
    pub keep_eof: bool,
    /// allow foreign tokens, interior end markers and truncation
    pub hostile: bool,
    /// weights: sentence, mutated sentence, random
    pub weights: [usize; 3],
}

pub fn token_types(src: &mut Src, g: &Gram, o: &TokOpts) -> Vec<u16> {
    let eof = if o.keep_eof { g.end_marker() } else { None };
    let alphabet: Vec<u16> = {
        let mut a: Vec<u16> = g.terms.iter().cloned().filter(|t| *t != g.eps && Some(*t) != eof).collect();
        if a.is_empty() {
            a.push(T0);
        }
        a
    };
    let mode = src.weighted(&o.weights);
    let mut v: Vec<u16> = match mode {
        0 | 1 => sentence(src, g, o.budget, o.cap).unwrap_or_default(),
        _ => {
            let n = src.range(0, o.cap.min(8));
            (0..n).map(|_| src.pick(&alphabet)).collect()
        }
    };
    let body_eof = eof.is_some();
    if body_eof && v.last() == eof.as_ref() {
        v.pop();
    }
    if mode == 1 {
        for _ in 0..src.range(1, 3) {
            let n = v.len();
            match src.below(6) {
                0 => v.insert(src.below(n + 1), src.pick(&alphabet)),
                1 if n > 0 => {
                    v.remove(src.below(n));
                }
                2 if n > 0 => {
                    let i = src.below(n);
                    v[i] = src.pick(&alphabet);
                }
                3 if n > 1 => {
                    let i = src.below(n - 1);
                    v.swap(i, i + 1);
                }
                4 if n > 0 => {
                    let i = src.below(n);
                    let x = v[i];
                    v.insert(i, x);
                }
                5 if n > 0 => v.truncate(src.below(n)),
                _ => v.push(src.pick(&alphabet)),
            }
        }
    }
    if let Some(e) = eof {
        v.retain(|t| *t != e);
        v.push(e);
    }
    if o.hostile {
        for _ in 0..src.weighted(&[35, 30, 20, 15]) {
            let n = v.len();
            match src.below(8) {
                0 if n > 0 => v.truncate(src.below(n)),
                1 => v.insert(src.below(n + 1), EOF),
                2 => v.insert(src.below(n + 1), g.eps),
                3 => v.insert(src.below(n + 1), 999), // unknown
                4 => {
                    let nts: Vec<u16> = g.nts.iter().cloned().collect();
                    if !nts.is_empty() {
                        v.insert(src.below(n + 1), src.pick(&nts));
                    }
                }
                5 => v.push(src.pick(&alphabet)),
                6 if n > 0 => {
                    v.pop();
                }
                _ if n > 0 => {
                    let i = src.below(n);
                    v[i] = src.pick(&[g.eps, 999, EOF, g.start]);
                }
                _ => v.push(src.pick(&alphabet)),
            }
        }
    }
    v
}

pub fn lexemes(src: &mut Src, types: &[u16]) -> Vec<Tok> {
    let mode = src.below(4);
    types
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let lex = match mode {
                0 | 1 => Some(1000 + i as u64),
                2 => match src.below(3) {
                    0 => None,
                    1 => Some(7),
                    _ => Some(1000 + i as u64),
                },
                _ => {
                    if src.chance(20) {
                        None
                    } else {
                        Some(src.raw() as u64)
                    }
                }
            };
            Tok { t: *t, lex }
        })
        .collect()
}

pub fn perm(aux: &[u32], n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let a = aux.get(i % aux.len().max(1)).cloned().unwrap_or(0) as u64;
        let j = ((a.wrapping_mul(i as u64 + 0x9E37_79B9) >> 7) % (i as u64 + 1)) as usize;
        v.swap(i, j);
    }
    v
}

pub fn symbols(c: &Case) -> BTreeSet<u16> {
    let mut s: BTreeSet<u16> = BTreeSet::new();
    s.insert(c.eps);
    s.insert(c.start);
    for (l, r) in &c.prods {
        s.insert(*l);
        s.extend(r.iter().cloned());
    }
    for i in &c.inputs {
        s.extend(i.iter().map(|t| t.t));
    }
    s
}

// ---- small scope ----------------------------------------------------------------------------

/// What is enumerated exhaustively before the random search.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Small {
    No,
    /// grammars only
    Grammars,
    /// end-marked grammars x every end-marked input
    Marked,
    /// end-marked or bare grammars x every input over two terminals and the marker
    Raw,
}

/// Right-hand sides over two non-terminals and two terminals, up to a length.
fn small_rhs(max: usize) -> Vec<Vec<u16>> {
    let syms = [1u16, 2, T0, T0 + 1];
    let mut out = vec![vec![EPS]];
    let mut last: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for r in &last {
            for s in syms {
                let mut r = r.clone();
                r.push(s);
                next.push(r);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All grammars of non-terminals 1 (one or two alternatives) and 2 (up to two alternatives), up to
/// swapping the two terminals.
pub struct SmallScope {
    kind: Small,
    rhs: Vec<Vec<u16>>,
    inputs: Vec<Vec<Tok>>,
}

impl SmallScope {
    pub fn new(kind: Small, max_rhs: usize, max_len: usize) -> SmallScope {
        let rhs = if kind == Small::No { vec![] } else { small_rhs(max_rhs) };
        let mut inputs: Vec<Vec<Tok>> = vec![];
        let alphabet: &[u16] = match kind {
            Small::Marked => &[T0, T0 + 1],
            Small::Raw => &[T0, T0 + 1, EOF],
            _ => &[],
        };
        if !alphabet.is_empty() {
            let mut all: Vec<Vec<u16>> = vec![vec![]];
            let mut last: Vec<Vec<u16>> = vec![vec![]];
            for _ in 0..max_len {
                let mut next = vec![];
                for r in &last {
                    for s in alphabet {
                        let mut r: Vec<u16> = r.clone();
                        r.push(*s);
                        next.push(r);
                    }
                }
                all.extend(next.iter().cloned());
                last = next;
            }
            for mut v in all {
                if kind == Small::Marked {
                    v.push(EOF);
                }
                if !v.is_empty() {
                    inputs.push(v.iter().enumerate().map(|(i, t)| Tok { t: *t, lex: Some(1000 + i as u64) }).collect());
                }
            }
        }
        SmallScope { kind, rhs, inputs }
    }

    pub fn total(&self) -> u64 {
        let n = self.rhs.len() as u64;
        (n + n * n) * (1 + n + n * n)
    }

    /// The grammar with this number; None when it is the mirror image of another one or (for
    /// parsing) left-recursive.
    pub fn case(&self, i: u64) -> Option<Case> {
        let n = self.rhs.len() as u64;
        let pair = |k: u64| -> Vec<Vec<u16>> {
            if k < n {
                vec![self.rhs[k as usize].clone()]
            } else {
                let k = k - n;
                vec![self.rhs[(k / n) as usize].clone(), self.rhs[(k % n) as usize].clone()]
            }
        };
        let m = n + n * n;
        let (s, a) = (i % m, i / m);
        let mut prods: Vec<(u16, Vec<u16>)> = pair(s).into_iter().map(|r| (1, r)).collect();
        if a > 0 {
            prods.extend(pair(a - 1).into_iter().map(|r| (2, r)));
        }
        // the first terminal that occurs is T0
        let first = prods.iter().flat_map(|p| p.1.iter()).find(|s| **s >= T0);
        if first == Some(&(T0 + 1)) {
            return None;
        }
        let mut c = Case { eps: EPS, start: 1, prods, inputs: vec![], aux: vec![] };
        if self.kind != Small::Grammars {
            let mark = self.kind == Small::Marked || i % 3 == 0;
            if mark {
                c.prods.insert(0, (100, vec![1, EOF]));
                c.start = 100;
            }
            if Gram::new(&c).left_recursive() {
                return None;
            }
            c.inputs = self.inputs.clone();
        }
        // symbol type and solver answers vary with the number
        let h = (i ^ (i >> 7)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 24;
        c.aux = vec![if h % 8 == 0 { (h / 8 % 5) as u32 } else { 0 }];
        let mut k = h / 64;
        for _ in 0..(1 + h % 3) {
            c.aux.push([0, 0, 1, 2, 3, 4, 18, 28, 21, 11][(k % 10) as usize]);
            k /= 10;
        }
        Some(c)
    }
}
