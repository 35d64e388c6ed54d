//! Reference parsers: membership chart, LL(1) table-driven parser, ordered backtracking search.

use crate::canon::Node;
use crate::case::Tok;
use crate::gram::Gram;
use std::collections::HashMap;
use std::rc::Rc;

/// All (start, end) spans per non-terminal, by fixed point; works for every grammar.
/// Token sequences up to 62 long.
pub struct Chart {
    ends: HashMap<u16, Vec<u64>>,
}

impl Chart {
    pub fn new(g: &Gram, types: &[u16]) -> Chart {
        let n = types.len();
        assert!(n <= 62);
        let mut ends: HashMap<u16, Vec<u64>> = g.nts.iter().map(|a| (*a, vec![0u64; n + 1])).collect();
        loop {
            let mut changed = false;
            for (l, r) in &g.prods {
                for i in 0..=n {
                    let mut cur: u64 = 1 << i;
                    for s in r {
                        if *s == g.eps {
                            continue;
                        }
                        let mut next = 0u64;
                        for p in 0..=n {
                            if cur >> p & 1 == 1 {
                                if let Some(e) = ends.get(s) {
                                    next |= e[p];
                                } else if p < n && types[p] == *s {
                                    next |= 1 << (p + 1);
                                }
                            }
                        }
                        cur = next;
                        if cur == 0 {
                            break;
                        }
                    }
                    let e = &mut ends.get_mut(l).unwrap()[i];
                    if *e | cur != *e {
                        *e |= cur;
                        changed = true;
                    }
                }
            }
            if !changed {
                return Chart { ends };
            }
        }
    }

    /// Length of the longest prefix of the tokens that starts some sentence (every non-terminal of
    /// the grammar must be productive).
    pub fn viable(&self, g: &Gram, types: &[u16]) -> usize {
        (0..=types.len()).rev().find(|k| self.starts(g, types, *k)).unwrap_or(0)
    }

    /// Whether tokens 0..k start some sentence.
    fn starts(&self, g: &Gram, types: &[u16], k: usize) -> bool {
        if k == 0 {
            return true;
        }
        // covers[A] has bit i: A derives something that starts with tokens i..k
        let mut covers: HashMap<u16, u64> = g.nts.iter().map(|a| (*a, 1u64 << k)).collect();
        let below = (1u64 << k) - 1;
        loop {
            let mut changed = false;
            for (l, r) in &g.prods {
                for i in 0..k {
                    if covers[l] >> i & 1 == 1 {
                        continue;
                    }
                    let mut cur: u64 = 1 << i;
                    let mut hit = false;
                    for s in r {
                        if *s == g.eps {
                            continue;
                        }
                        let mut next = 0u64;
                        for p in 0..k {
                            if cur >> p & 1 == 0 {
                                continue;
                            }
                            if let Some(e) = self.ends.get(s) {
                                hit |= covers[s] >> p & 1 == 1;
                                next |= e[p] & below;
                                hit |= e[p] >> k & 1 == 1;
                            } else if types[p] == *s {
                                if p + 1 == k {
                                    hit = true;
                                } else {
                                    next |= 1 << (p + 1);
                                }
                            }
                        }
                        cur = next;
                        if hit || cur == 0 {
                            break;
                        }
                    }
                    if hit {
                        *covers.get_mut(l).unwrap() |= 1 << i;
                        changed = true;
                    }
                }
            }
            if !changed {
                return covers.get(&g.start).map(|c| c & 1 == 1).unwrap_or(false);
            }
        }
    }

    pub fn derives(&self, s: u16, i: usize, j: usize) -> bool {
        self.ends.get(&s).map(|e| e[i] >> j & 1 == 1).unwrap_or(false)
    }
}

/// Table-driven LL(1) parser with an explicit stack. Returns the tree of the longest decided
/// prefix (the caller compares the covered length) and the number of symbols it touches.
pub fn ll1_parse(g: &Gram, toks: &[Tok]) -> (Option<(Node, usize)>, u64) {
    enum Job {
        Sym(u16),
        Close(u16, usize),
    }
    let mut jobs = vec![Job::Sym(g.start)];
    let mut done: Vec<Node> = vec![];
    let mut pos = 0usize;
    let mut steps = 0u64;
    if !g.is_nt(g.start) {
        return (None, 0);
    }
    while let Some(j) = jobs.pop() {
        steps += 1;
        match j {
            Job::Close(s, n) => {
                let kids = done.split_off(done.len() - n);
                done.push(Node { s, l: None, k: kids });
            }
            Job::Sym(s) => {
                if s == g.eps {
                    done.push(Node { s, l: None, k: vec![] });
                } else if g.is_nt(s) {
                    let c = g.cands(s, toks.get(pos).map(|t| t.t));
                    if c.len() != 1 {
                        return (None, steps);
                    }
                    let r = &g.prods[c[0]].1;
                    steps += r.len() as u64;
                    jobs.push(Job::Close(s, r.len()));
                    for x in r.iter().rev() {
                        jobs.push(Job::Sym(*x));
                    }
                } else if toks.get(pos).map(|t| t.t) == Some(s) {
                    done.push(Node { s, l: toks[pos].lex, k: vec![] });
                    pos += 1;
                } else {
                    return (None, steps);
                }
            }
        }
    }
    (Some((done.pop().unwrap(), pos)), steps)
}

pub struct TooBig;

pub struct Outcomes {
    /// results in search order: end position and tree
    pub list: Vec<(usize, Rc<MNode>)>,
    /// number of symbol attempts an unmemoised search spends to exhaust this symbol
    pub cost: u64,
}

#[derive(Debug)]
pub struct MNode {
    pub s: u16,
    pub l: Option<u64>,
    pub k: Vec<Rc<MNode>>,
}

impl MNode {
    pub fn to_node(&self) -> Node {
        Node { s: self.s, l: self.l, k: self.k.iter().map(|x| x.to_node()).collect() }
    }
}

/// Ordered search: the outcomes of a symbol at a position are, for each candidate production in
/// grammar order, the first way (chronological backtracking over its symbols' outcomes) that
/// production parses.
pub struct Model<'a> {
    pub g: &'a Gram,
    pub toks: &'a [Tok],
    memo: HashMap<(u16, usize), Rc<Outcomes>>,
    steps: u64,
    cap: u64,
}

impl<'a> Model<'a> {
    pub fn new(g: &'a Gram, toks: &'a [Tok], cap: u64) -> Self {
        Model { g, toks, memo: HashMap::new(), steps: 0, cap }
    }

    pub fn outcomes(&mut self, s: u16, pos: usize) -> Result<Rc<Outcomes>, TooBig> {
        if let Some(o) = self.memo.get(&(s, pos)) {
            return Ok(o.clone());
        }
        self.steps += 1;
        if self.steps > self.cap {
            return Err(TooBig);
        }
        let o = if s == self.g.eps {
            Outcomes { list: vec![(pos, Rc::new(MNode { s, l: None, k: vec![] }))], cost: 1 }
        } else if !self.g.is_nt(s) {
            match self.toks.get(pos) {
                Some(t) if t.t == s => Outcomes {
                    list: vec![(pos + 1, Rc::new(MNode { s, l: t.lex, k: vec![] }))],
                    cost: 1,
                },
                _ => Outcomes { list: vec![], cost: 1 },
            }
        } else {
            let cands: Vec<usize> = self.g.cands(s, self.toks.get(pos).map(|t| t.t)).to_vec();
            let mut list = vec![];
            let mut cost = 1u64;
            for i in cands {
                if let Some((end, k)) = self.production(i, pos, &mut cost)? {
                    list.push((end, Rc::new(MNode { s, l: None, k })));
                }
            }
            Outcomes { list, cost }
        };
        let o = Rc::new(o);
        self.memo.insert((s, pos), o.clone());
        Ok(o)
    }

    /// First success of a production, if any.
    pub fn production(
        &mut self,
        i: usize,
        pos: usize,
        cost: &mut u64,
    ) -> Result<Option<(usize, Vec<Rc<MNode>>)>, TooBig> {
        let rhs = self.g.prods[i].1.clone();
        let mut chosen: Vec<Rc<MNode>> = vec![];
        let end = self.dfs(&rhs, 0, pos, &mut chosen, cost)?;
        Ok(end.map(|e| (e, chosen)))
    }

    fn dfs(
        &mut self,
        rhs: &[u16],
        k: usize,
        pos: usize,
        chosen: &mut Vec<Rc<MNode>>,
        cost: &mut u64,
    ) -> Result<Option<usize>, TooBig> {
        if k == rhs.len() {
            return Ok(Some(pos));
        }
        self.steps += 1;
        if self.steps > self.cap {
            return Err(TooBig);
        }
        let o = self.outcomes(rhs[k], pos)?;
        *cost = cost.saturating_add(o.cost);
        for (end, n) in o.list.iter() {
            chosen.push(n.clone());
            if let Some(e) = self.dfs(rhs, k + 1, *end, chosen, cost)? {
                return Ok(Some(e));
            }
            chosen.pop();
        }
        Ok(None)
    }

    pub fn ends(&mut self, s: u16, pos: usize) -> Result<Vec<usize>, TooBig> {
        Ok(self.outcomes(s, pos)?.list.iter().map(|x| x.0).collect())
    }
}
