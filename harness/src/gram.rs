//! Reference analysis of a grammar, written from the definitions (reachability over dependency
//! graphs), sharing no code or structure with the implementation under test.

use crate::case::Case;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Gram {
    pub eps: u16,
    pub start: u16,
    pub prods: Vec<(u16, Vec<u16>)>,
    pub nts: BTreeSet<u16>,
    /// right-hand-side symbols without productions, epsilon included when used
    pub terms: BTreeSet<u16>,
    pub by_lhs: BTreeMap<u16, Vec<usize>>,
    pub nullable: BTreeSet<u16>,
    /// FIRST without epsilon, per non-terminal
    pub first: BTreeMap<u16, BTreeSet<u16>>,
    pub follow: BTreeMap<u16, BTreeSet<u16>>,
    /// (non-terminal, lookahead) -> production indices in grammar order
    pub table: BTreeMap<(u16, u16), Vec<usize>>,
}

pub fn well_formed(c: &Case) -> bool {
    c.prods.iter().all(|(l, r)| {
        *l != c.eps && !r.is_empty() && (r.len() == 1 || r.iter().all(|s| *s != c.eps))
    })
}

fn closure(
    nodes: &BTreeSet<u16>,
    direct: &BTreeMap<u16, BTreeSet<u16>>,
    edges: &BTreeMap<u16, BTreeSet<u16>>,
) -> BTreeMap<u16, BTreeSet<u16>> {
    let mut out = BTreeMap::new();
    for n in nodes {
        let mut seen: BTreeSet<u16> = BTreeSet::new();
        let mut stack = vec![*n];
        let mut acc = BTreeSet::new();
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Some(d) = direct.get(&x) {
                acc.extend(d.iter().cloned());
            }
            if let Some(e) = edges.get(&x) {
                stack.extend(e.iter().cloned());
            }
        }
        out.insert(*n, acc);
    }
    out
}

impl Gram {
    pub fn new(c: &Case) -> Gram {
        debug_assert!(well_formed(c));
        let eps = c.eps;
        let nts: BTreeSet<u16> = c.prods.iter().map(|p| p.0).collect();
        let mut terms = BTreeSet::new();
        let mut by_lhs: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
        for (i, (l, r)) in c.prods.iter().enumerate() {
            by_lhs.entry(*l).or_default().push(i);
            for s in r {
                if !nts.contains(s) {
                    terms.insert(*s);
                }
            }
        }
        // nullable: worklist over counters
        let mut nullable: BTreeSet<u16> = BTreeSet::new();
        let mut need: Vec<usize> = c
            .prods
            .iter()
            .map(|(_, r)| if r == &vec![eps] { 0 } else { r.len() })
            .collect();
        let mut work: Vec<u16> = vec![];
        for (i, (l, _)) in c.prods.iter().enumerate() {
            if need[i] == 0 && nullable.insert(*l) {
                work.push(*l);
            }
        }
        while let Some(n) = work.pop() {
            for (i, (l, r)) in c.prods.iter().enumerate() {
                let k = r.iter().filter(|s| **s == n).count();
                if k > 0 {
                    need[i] -= k;
                    if need[i] == 0 && nullable.insert(*l) {
                        work.push(*l);
                    }
                }
            }
        }
        // FIRST
        let mut direct: BTreeMap<u16, BTreeSet<u16>> = BTreeMap::new();
        let mut edges: BTreeMap<u16, BTreeSet<u16>> = BTreeMap::new();
        for (l, r) in &c.prods {
            for s in r {
                if *s == eps {
                    break;
                }
                if nts.contains(s) {
                    edges.entry(*l).or_default().insert(*s);
                    if !nullable.contains(s) {
                        break;
                    }
                } else {
                    direct.entry(*l).or_default().insert(*s);
                    break;
                }
            }
        }
        let first = closure(&nts, &direct, &edges);
        // FOLLOW
        let mut direct: BTreeMap<u16, BTreeSet<u16>> = BTreeMap::new();
        let mut edges: BTreeMap<u16, BTreeSet<u16>> = BTreeMap::new();
        for (l, r) in &c.prods {
            for i in 0..r.len() {
                if !nts.contains(&r[i]) {
                    continue;
                }
                let mut rest_nullable = true;
                for s in &r[i + 1..] {
                    let d = direct.entry(r[i]).or_default();
                    if nts.contains(s) {
                        d.extend(first[s].iter().cloned());
                        if !nullable.contains(s) {
                            rest_nullable = false;
                            break;
                        }
                    } else {
                        d.insert(*s);
                        rest_nullable = false;
                        break;
                    }
                }
                if rest_nullable {
                    edges.entry(r[i]).or_default().insert(*l);
                }
            }
        }
        let follow = closure(&nts, &direct, &edges);
        let mut g = Gram {
            eps,
            start: c.start,
            prods: c.prods.clone(),
            nts,
            terms,
            by_lhs,
            nullable,
            first,
            follow,
            table: BTreeMap::new(),
        };
        for a in g.nts.clone() {
            for i in g.by_lhs[&a].clone() {
                let (mut f, n) = g.first_of(&g.prods[i].1);
                if n {
                    f.extend(g.follow[&a].iter().cloned());
                }
                for t in f {
                    g.table.entry((a, t)).or_default().push(i);
                }
            }
        }
        g
    }

    /// FIRST of a right-hand side without epsilon, and whether it is nullable.
    pub fn first_of(&self, rhs: &[u16]) -> (BTreeSet<u16>, bool) {
        let mut out = BTreeSet::new();
        for s in rhs {
            if *s == self.eps {
                continue;
            }
            if self.nts.contains(s) {
                out.extend(self.first[s].iter().cloned());
                if !self.nullable.contains(s) {
                    return (out, false);
                }
            } else {
                out.insert(*s);
                return (out, false);
            }
        }
        (out, true)
    }

    pub fn cands(&self, a: u16, look: Option<u16>) -> &[usize] {
        match look {
            Some(t) => self.table.get(&(a, t)).map(|v| v.as_slice()).unwrap_or(&[]),
            None => &[],
        }
    }

    pub fn is_nt(&self, s: u16) -> bool {
        self.nts.contains(&s)
    }

    /// Non-terminals that are left-recursive (directly, indirectly or behind nullable symbols),
    /// as the left-corner edges that lie on cycles: (production index, symbol position).
    pub fn left_edges(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, (_, r)) in self.prods.iter().enumerate() {
            for (k, s) in r.iter().enumerate() {
                if !self.nts.contains(s) {
                    break;
                }
                v.push((i, k));
                if !self.nullable.contains(s) {
                    break;
                }
            }
        }
        v
    }

    /// An edge on a left-corner cycle, if any.
    pub fn left_recursive_edge(&self) -> Option<(usize, usize)> {
        let edges = self.left_edges();
        let mut adj: BTreeMap<u16, BTreeSet<u16>> = BTreeMap::new();
        for (i, k) in &edges {
            adj.entry(self.prods[*i].0).or_default().insert(self.prods[*i].1[*k]);
        }
        for (i, k) in edges.iter().rev() {
            // does target reach source?
            let (src, tgt) = (self.prods[*i].0, self.prods[*i].1[*k]);
            let mut seen = BTreeSet::new();
            let mut st = vec![tgt];
            while let Some(x) = st.pop() {
                if x == src {
                    return Some((*i, *k));
                }
                if seen.insert(x) {
                    if let Some(n) = adj.get(&x) {
                        st.extend(n.iter().cloned());
                    }
                }
            }
        }
        None
    }

    pub fn left_recursive(&self) -> bool {
        self.left_recursive_edge().is_some()
    }

    /// Productions that conflict with each other in some cell.
    pub fn ll1_conflict(&self) -> Option<Vec<usize>> {
        for v in self.table.values() {
            if v.len() > 1 {
                return Some(v.clone());
            }
        }
        // two nullable alternatives conflict even when FOLLOW is empty
        for v in self.by_lhs.values() {
            let n: Vec<usize> = v.iter().cloned().filter(|i| self.first_of(&self.prods[*i].1).1).collect();
            if n.len() > 1 {
                return Some(n);
            }
        }
        None
    }

    pub fn is_ll1(&self) -> bool {
        self.ll1_conflict().is_none()
    }

    /// The end marker, if every production of the initial symbol ends in the same terminal.
    pub fn end_marker(&self) -> Option<u16> {
        let v = self.by_lhs.get(&self.start)?;
        let e = *self.prods[v[0]].1.last()?;
        if e == self.eps || self.nts.contains(&e) {
            return None;
        }
        v.iter().all(|i| self.prods[*i].1.last() == Some(&e)).then_some(e)
    }

    /// Height of the lowest derivation tree per non-terminal (None = unproductive).
    pub fn heights(&self) -> BTreeMap<u16, u32> {
        let mut h: BTreeMap<u16, u32> = BTreeMap::new();
        loop {
            let mut new: Vec<(u16, u32)> = vec![];
            for (l, r) in &self.prods {
                if h.contains_key(l) {
                    continue;
                }
                let mut m = 0;
                if r.iter().all(|s| {
                    if self.nts.contains(s) {
                        match h.get(s) {
                            Some(x) => {
                                m = m.max(*x);
                                true
                            }
                            None => false,
                        }
                    } else {
                        true
                    }
                }) {
                    new.push((*l, m + 1));
                }
            }
            if new.is_empty() {
                return h;
            }
            for (l, x) in new {
                let e = h.entry(l).or_insert(x);
                *e = (*e).min(x);
            }
        }
    }
}
