//! Canonical (representation-free) forms of the results of the code under test, and their
//! validity predicates.

use crate::case::Tok;
use crate::gram::Gram;
use crate::model::{Model, TooBig};
use crate::sym::Rep;
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::token::token::Token;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
    pub s: u16,
    pub l: Option<u64>,
    pub k: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FSym {
    pub s: u16,
    pub ps: Vec<FProd>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FProd {
    pub failed: Box<FSym>,
    pub parsed: Vec<PSym>,
    pub pending: Vec<u16>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PSym {
    Ok(Node),
    Fix(XSym),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct XSym {
    pub s: u16,
    pub parts: Vec<Part>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Part {
    Ok(Node),
    Fixed(XSym),
    Gap(Vec<u64>, Vec<u16>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok(Node),
    Err(FSym),
    Fix(XSym),
}

impl PSym {
    pub fn sym(&self) -> u16 {
        match self {
            PSym::Ok(n) => n.s,
            PSym::Fix(x) => x.s,
        }
    }
}

impl FProd {
    pub fn rhs(&self) -> Vec<u16> {
        let mut v: Vec<u16> = self.parsed.iter().map(|p| p.sym()).collect();
        v.push(self.failed.s);
        v.extend_from_slice(&self.pending);
        v
    }
}

pub fn node<R: Rep>(n: &AbstractSyntaxNode<Token<u64, R>>) -> Node {
    Node {
        s: n.token.t_type.id(),
        l: n.token.lex,
        k: n.child_nodes.iter().map(node).collect(),
    }
}

pub fn fsym<R: Rep>(f: &FailedSymbol<u64, R>) -> FSym {
    FSym {
        s: f.symbol_to_derive.id(),
        ps: f.failed_productions.iter().map(fprod).collect(),
    }
}

pub fn fprod<R: Rep>(f: &FailedProduction<u64, R>) -> FProd {
    FProd {
        failed: Box::new(fsym(&f.failed_symbol)),
        parsed: f
            .parsed_symbols
            .iter()
            .map(|p| match p {
                ProductionParsedSymbol::Ok(n) => PSym::Ok(node(n)),
                ProductionParsedSymbol::Fix(x) => PSym::Fix(xsym(x)),
            })
            .collect(),
        pending: f.pending_symbols.iter().map(|s| s.id()).collect(),
    }
}

pub fn xparts<R: Rep>(p: &FixedProduction<u64, R>) -> Vec<Part> {
    p.fixed_parts
        .iter()
        .map(|p| match p {
            FixedProductionPart::Ok(n) => Part::Ok(node(n)),
            FixedProductionPart::Fixed(x) => Part::Fixed(xsym(x)),
            FixedProductionPart::Gap(g) => Part::Gap(
                g.skipped_tokens.clone(),
                g.skipped_symbols.iter().map(|s| s.id()).collect(),
            ),
        })
        .collect()
}

pub fn xsym<R: Rep>(x: &FixedSymbol<u64, R>) -> XSym {
    XSym { s: x.symbol_to_derive.id(), parts: xparts(&x.fixed_production) }
}

pub fn res<R: Rep>(r: &ParseResult<u64, R>) -> Res {
    match r {
        ParseResult::Ok(t) => Res::Ok(node(&t.root)),
        ParseResult::Err(f) => Res::Err(fsym(f)),
        ParseResult::Fix(x) => Res::Fix(xsym(x)),
    }
}

pub fn fprod_size(p: &FProd) -> usize {
    let parsed: usize = p
        .parsed
        .iter()
        .map(|x| match x {
            PSym::Ok(n) => node_count(n),
            PSym::Fix(x) => xsym_size(x),
        })
        .sum();
    1 + parsed + p.pending.len() + 1 + p.failed.ps.iter().map(fprod_size).sum::<usize>()
}

pub fn xsym_size(x: &XSym) -> usize {
    1 + x
        .parts
        .iter()
        .map(|p| match p {
            Part::Ok(n) => node_count(n),
            Part::Fixed(y) => xsym_size(y),
            Part::Gap(..) => 1,
        })
        .sum::<usize>()
}

pub fn node_count(n: &Node) -> usize {
    1 + n.k.iter().map(node_count).sum::<usize>()
}

// ---- lexeme erasure -------------------------------------------------------------------------

fn erase_node(n: &mut Node) {
    n.l = None;
    n.k.iter_mut().for_each(erase_node);
}
fn erase_f(f: &mut FSym) {
    for p in f.ps.iter_mut() {
        erase_f(&mut p.failed);
        for x in p.parsed.iter_mut() {
            match x {
                PSym::Ok(n) => erase_node(n),
                PSym::Fix(x) => erase_x(x),
            }
        }
    }
}
fn erase_x(x: &mut XSym) {
    for p in x.parts.iter_mut() {
        match p {
            Part::Ok(n) => erase_node(n),
            Part::Fixed(x) => erase_x(x),
            Part::Gap(t, _) => t.clear(),
        }
    }
}
pub fn erase(r: &Res) -> Res {
    let mut r = r.clone();
    match &mut r {
        Res::Ok(n) => erase_node(n),
        Res::Err(f) => erase_f(f),
        Res::Fix(x) => erase_x(x),
    }
    r
}

// ---- renaming -------------------------------------------------------------------------------

pub fn map_node(n: &Node, f: &dyn Fn(u16) -> u16) -> Node {
    Node { s: f(n.s), l: n.l, k: n.k.iter().map(|k| map_node(k, f)).collect() }
}
fn map_f(x: &FSym, f: &dyn Fn(u16) -> u16) -> FSym {
    FSym {
        s: f(x.s),
        ps: x
            .ps
            .iter()
            .map(|p| FProd {
                failed: Box::new(map_f(&p.failed, f)),
                parsed: p
                    .parsed
                    .iter()
                    .map(|y| match y {
                        PSym::Ok(n) => PSym::Ok(map_node(n, f)),
                        PSym::Fix(x) => PSym::Fix(map_x(x, f)),
                    })
                    .collect(),
                pending: p.pending.iter().map(|s| f(*s)).collect(),
            })
            .collect(),
    }
}
fn map_x(x: &XSym, f: &dyn Fn(u16) -> u16) -> XSym {
    XSym {
        s: f(x.s),
        parts: x
            .parts
            .iter()
            .map(|p| match p {
                Part::Ok(n) => Part::Ok(map_node(n, f)),
                Part::Fixed(x) => Part::Fixed(map_x(x, f)),
                Part::Gap(t, s) => Part::Gap(t.clone(), s.iter().map(|s| f(*s)).collect()),
            })
            .collect(),
    }
}
pub fn map_res(r: &Res, f: &dyn Fn(u16) -> u16) -> Res {
    match r {
        Res::Ok(n) => Res::Ok(map_node(n, f)),
        Res::Err(x) => Res::Err(map_f(x, f)),
        Res::Fix(x) => Res::Fix(map_x(x, f)),
    }
}

// ---- validity predicates --------------------------------------------------------------------

/// The node is a derivation tree of `sym` over the tokens from `pos`; returns the end position.
pub fn tree(g: &Gram, toks: &[Tok], n: &Node, sym: u16, pos: usize) -> Result<usize, String> {
    if n.s != sym {
        return Err(format!("node for symbol {} stands where {} is expected", n.s, sym));
    }
    if sym == g.eps {
        if !n.k.is_empty() || n.l.is_some() {
            return Err("epsilon leaf with children or lexeme".into());
        }
        return Ok(pos);
    }
    if !g.is_nt(sym) {
        if !n.k.is_empty() {
            return Err(format!("terminal {} has children", sym));
        }
        return match toks.get(pos) {
            Some(t) if t.t == sym => {
                if t.lex == n.l {
                    Ok(pos + 1)
                } else {
                    Err(format!("token {} has lexeme {:?}, its leaf {:?}", pos, t.lex, n.l))
                }
            }
            other => Err(format!("leaf {} stands for token {} which is {:?}", sym, pos, other)),
        };
    }
    if n.l.is_some() {
        return Err(format!("inner node {} carries a lexeme", sym));
    }
    let kids: Vec<u16> = n.k.iter().map(|k| k.s).collect();
    if !g.by_lhs[&sym].iter().any(|i| g.prods[*i].1 == kids) {
        return Err(format!("children {:?} of {} are not one of its productions", kids, sym));
    }
    let mut p = pos;
    for k in &n.k {
        p = tree(g, toks, k, k.s, p)?;
    }
    Ok(p)
}

/// P10: shape of an error tree. The lookahead positions come from the trees themselves.
pub fn error_shape(g: &Gram, toks: &[Tok], f: &FSym, sym: u16, pos: usize, nested: &mut usize) -> Result<(), String> {
    if f.s != sym {
        return Err(format!("error is for symbol {} instead of {}", f.s, sym));
    }
    if !g.is_nt(sym) {
        if !f.ps.is_empty() {
            return Err(format!("failed terminal {} lists productions", sym));
        }
        return Ok(());
    }
    let cands = g.cands(sym, toks.get(pos).map(|t| t.t));
    if cands.len() != f.ps.len() {
        return Err(format!(
            "error for {} at token {} lists {} productions, {} are candidates",
            sym, pos, f.ps.len(), cands.len()
        ));
    }
    for (i, p) in cands.iter().zip(&f.ps) {
        let rhs = &g.prods[*i].1;
        if &p.rhs() != rhs {
            return Err(format!(
                "failed production {}->{:?} at token {} is reported as parsed {:?} failed {} pending {:?}",
                sym,
                rhs,
                pos,
                p.parsed.iter().map(|x| x.sym()).collect::<Vec<_>>(),
                p.failed.s,
                p.pending
            ));
        }
        let mut at = pos;
        for x in &p.parsed {
            match x {
                PSym::Ok(n) => at += leaf_count(g, n),
                PSym::Fix(_) => return Err("fixed symbol in an error without solver".into()),
            }
            *nested += 1;
        }
        if at <= toks.len() {
            error_shape(g, toks, &p.failed, p.failed.s, at, nested)?;
        }
    }
    Ok(())
}

pub fn leaf_count(g: &Gram, n: &Node) -> usize {
    if g.is_nt(n.s) {
        n.k.iter().map(|k| leaf_count(g, k)).sum()
    } else if n.s == g.eps {
        0
    } else {
        1
    }
}

pub enum Bad {
    No(String),
    Big,
}
impl From<TooBig> for Bad {
    fn from(_: TooBig) -> Self {
        Bad::Big
    }
}
impl From<String> for Bad {
    fn from(s: String) -> Self {
        Bad::No(s)
    }
}

/// P11: the error tree tells the truth about the input.
pub fn error_truth(m: &mut Model, f: &FSym, pos: usize) -> Result<(), Bad> {
    let g = m.g;
    let toks = m.toks;
    if !m.outcomes(f.s, pos)?.list.is_empty() {
        return Err(Bad::No(format!("symbol {} is reported as failed at token {} but parses there", f.s, pos)));
    }
    for p in &f.ps {
        let mut at = pos;
        for x in &p.parsed {
            match x {
                PSym::Ok(n) => at = tree(g, toks, n, n.s, at)?,
                PSym::Fix(_) => return Err(Bad::No("fixed symbol in an error without solver".into())),
            }
        }
        error_truth(m, &p.failed, at)?;
    }
    Ok(())
}
