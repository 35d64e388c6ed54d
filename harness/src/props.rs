//! The properties: generators and oracles.

use crate::canon::{self, Bad, FSym, PSym, Part, Res, XSym};
use crate::case::{Case, Tok};
use crate::gen::{self, Family, Shape, Small, Src, TokOpts, ANY};
use crate::gram::{self, Gram};
use crate::heap;
use crate::known;
use crate::model::{self, Chart, MNode, Model, TooBig};
use crate::run::{self, guard, Call, Plain, MARK};
use crate::sym::{self, Collide, Num, Rep, Tagged, Text};
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::ast::abstract_syntax_tree::AbstractSyntaxTree;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::token::token::Token;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub enum Outcome {
    Pass,
    Skip(&'static str),
    Fail(String),
}

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// known findings this case ran into
    pub known: Vec<&'static str>,
}

impl Obs {
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Src) -> Case,
    pub check: fn(&Case, &mut Obs) -> Outcome,
    /// cases per worker (8 workers)
    pub quick: u32,
    pub thorough: u32,
    pub genes: usize,
    /// enumerated before the random search: kind, longest right-hand side and input (quick, thorough)
    pub small: (Small, [usize; 2], [usize; 2]),
}

/// Symbol operations granted to one analysis of a generated grammar / one parse. Far above what
/// the generated sizes need; exceeding it means the computation does not end in reasonable work.
pub const ANALYSIS_BUDGET: u64 = 60_000_000;
const MODEL_CAP: u64 = 30_000;
const COST_CAP: u64 = 60_000;

fn parse_budget(cost: u64) -> u64 {
    300_000 + 600 * cost
}

macro_rules! with_rep {
    ($case:expr, $f:ident ( $($a:expr),* )) => {
        match $case.aux.first().cloned().unwrap_or(0) % 5 {
            0 => $f::<Num>($($a),*),
            // colliding hashes make every operation linear in the number of symbols
            1 if $case.prods.len() > 120 => $f::<Num>($($a),*),
            1 => $f::<Collide>($($a),*),
            2 => $f::<Text>($($a),*),
            3 => $f::<Tagged>($($a),*),
            _ => $f::<sym::Shape>($($a),*),
        }
    };
}

macro_rules! fail {
    ($($t:tt)*) => { return Outcome::Fail(format!($($t)*)) };
}

fn rep_choice(src: &mut Src) -> u32 {
    src.weighted(&[60, 10, 10, 10, 10]) as u32
}

/// Build the grammar; a refusal of a well-formed one is P01's business.
fn built<R: Rep>(c: &Case) -> Option<artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar<R>> {
    guard(ANALYSIS_BUDGET, || run::grammar::<R>(c)).ok()
}

const REFUSED: Outcome = Outcome::Skip("grammar refused");
const NO_PARSER: Outcome = Outcome::Skip("parser construction panics");
const PANICS: Outcome = Outcome::Skip("parsing panics");

fn over_budget(m: &str) -> bool {
    m.contains(sym::BUDGET_MSG)
}

/// Lists of such sizes are about results, not about work.
fn bulky(c: &Case) -> bool {
    c.prods.iter().map(|p| 1 + p.1.len()).sum::<usize>() > 20_000
}

// ---- domains --------------------------------------------------------------------------------

fn analysis_domain(c: &Case) -> Result<Gram, Outcome> {
    if !gram::well_formed(c) {
        return Err(Outcome::Skip("malformed grammar"));
    }
    Ok(Gram::new(c))
}

fn parse_domain(c: &Case) -> Result<Gram, Outcome> {
    let g = analysis_domain(c)?;
    if g.left_recursive() {
        return Err(Outcome::Skip("left-recursive grammar"));
    }
    if !g.is_nt(g.start) {
        return Err(Outcome::Skip("initial symbol without productions"));
    }
    Ok(g)
}

/// Tokens end-marked: the marker is last and nowhere else.
fn end_marked(g: &Gram, t: &[Tok]) -> bool {
    match g.end_marker() {
        Some(e) => t.last().map(|x| x.t) == Some(e) && t.iter().filter(|x| x.t == e).count() == 1,
        None => false,
    }
}

enum Search {
    Found(canon::Node, usize, u64),
    NotFound(u64),
    TooBig,
}

fn search(m: &mut Model) -> Search {
    let s = m.g.start;
    match m.outcomes(s, 0) {
        Ok(o) => {
            if o.cost > COST_CAP {
                return Search::TooBig;
            }
            match o.list.first() {
                Some((e, n)) => Search::Found(n.to_node(), *e, o.cost),
                None => Search::NotFound(o.cost),
            }
        }
        Err(TooBig) => Search::TooBig,
    }
}

// ---- P01 ------------------------------------------------------------------------------------

fn p01_gen(src: &mut Src) -> Case {
    if src.below(1000) == 999 {
        let spoil = src.chance(60);
        return gen::bulk(src, spoil);
    }
    let fam = gen::family(src, &[(Family::Tiny, 50), (Family::Mid, 25), (Family::Chain, 15), (Family::Wide, 6), (Family::Ladder, 4)]);
    let rep = rep_choice(src);
    let eof = src.chance(30);
    let mut c = gen::grammar(src, fam, Shape { eof, ..Default::default() });
    c.aux = vec![rep];
    if src.chance(4) {
        c.prods.clear();
    }
    if src.chance(55) {
        for _ in 0..src.weighted(&[0, 75, 20, 5]) {
            let n = c.prods.len();
            match src.below(7) {
                0 if n > 0 => {
                    let i = src.below(n);
                    c.prods[i].0 = c.eps;
                }
                1 => {
                    let at = src.below(n + 1);
                    c.prods.insert(at, (c.eps, vec![c.eps]));
                }
                2 if n > 0 => {
                    let i = src.below(n);
                    c.prods[i].1.clear();
                }
                3 => {
                    let at = src.below(n + 1);
                    let l = 1 + src.below(4) as u16;
                    c.prods.insert(at, (l, vec![]));
                }
                4 => {
                    let at = src.below(n + 1);
                    let l = 1 + src.below(4) as u16;
                    let k = src.range(2, 3);
                    c.prods.insert(at, (l, vec![c.eps; k]));
                }
                5 | 6 if n > 0 => {
                    let i = src.below(n);
                    let k = src.below(c.prods[i].1.len() + 1);
                    c.prods[i].1.insert(k, c.eps);
                }
                _ => {
                    let at = src.below(n + 1);
                    c.prods.insert(at, (1, vec![gen::T0, c.eps]));
                }
            }
        }
    }
    if src.chance(12) {
        let s: Vec<u16> = gen::symbols(&c).into_iter().collect();
        c.start = if src.chance(20) { 999 } else { src.pick(&s) };
    }
    if src.chance(6) {
        let s: Vec<u16> = gen::symbols(&c).into_iter().collect();
        c.eps = if src.chance(30) { 998 } else { src.pick(&s) };
    }
    c
}

fn p01_check(c: &Case, o: &mut Obs) -> Outcome {
    fn build<R: Rep>(c: &Case) -> Result<(), String> {
        guard(ANALYSIS_BUDGET, || {
            run::grammar::<R>(c);
        })
    }
    let ok = gram::well_formed(c);
    let r = with_rep!(c, build(c));
    o.label(if ok { "well-formed" } else { "malformed" });
    o.nontrivial = c.prods.len() >= 2;
    match (ok, r) {
        (true, Err(m)) if bulky(c) && over_budget(&m) => Outcome::Skip("too much work"),
        (true, Err(m)) => fail!("a well-formed production list is refused: {}", m),
        (false, Ok(())) => fail!("a malformed production list is accepted"),
        _ => Outcome::Pass,
    }
}

// ---- P02 ------------------------------------------------------------------------------------

fn p02_gen(src: &mut Src) -> Case {
    if src.below(1000) == 999 {
        return gen::bulk(src, false);
    }
    let fam = gen::family(src, ANY);
    let rep = rep_choice(src);
    let eof = src.chance(50);
    let mut c = gen::grammar(src, fam, Shape { eof, ..Default::default() });
    if src.chance(4) {
        c.prods.clear();
    }
    for _ in 0..src.weighted(&[60, 25, 15]) {
        if !c.prods.is_empty() {
            let p = c.prods[src.below(c.prods.len())].clone();
            let at = src.below(c.prods.len() + 1);
            c.prods.insert(at, p);
        }
    }
    if src.chance(10) {
        c.start = src.pick(&[999, gen::EPS, gen::T0, 2]);
    }
    c.aux = vec![rep];
    c
}

fn p02_check(c: &Case, o: &mut Obs) -> Outcome {
    if !gram::well_formed(c) {
        return Outcome::Skip("malformed grammar");
    }
    if c.prods.len() > 65_536 {
        o.label("more than 65536 productions");
    }
    if c.prods.iter().any(|p| p.1.len() > 65_536) {
        o.label("right-hand side of more than 65536 symbols");
    }
    let mut seen = std::collections::HashSet::new();
    let dup = c.prods.iter().any(|p| !seen.insert(p));
    let interleaved = c.prods.len() > 10_000 || (2..c.prods.len()).any(|i| {
        c.prods[i].0 != c.prods[i - 1].0 && c.prods[..i - 1].iter().any(|p| p.0 == c.prods[i].0)
    });
    if dup {
        o.label("duplicate production");
    }
    if interleaved {
        o.label("interleaved productions");
    }
    if c.prods.iter().any(|p| p.1 == [c.eps]) {
        o.label("uses epsilon");
    }
    o.nontrivial = c.prods.len() >= 3;
    fn go<R: Rep>(c: &Case) -> Outcome {
        let rg = match built::<R>(c) {
            Some(g) => g,
            None => return REFUSED,
        };
        match guard(ANALYSIS_BUDGET, || queries(c, &rg)) {
            Err(m) if bulky(c) && over_budget(&m) => Outcome::Skip("too much work"),
            r => verdict(r),
        }
    }
    fn queries<R: Rep>(
        c: &Case,
        g: &artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar<R>,
    ) -> Result<(), String> {
        let nts: BTreeSet<u16> = c.prods.iter().map(|p| p.0).collect();
        let terms: BTreeSet<u16> =
            c.prods.iter().flat_map(|p| p.1.iter().cloned()).filter(|s| !nts.contains(s)).collect();
        let sorted = |v: Vec<R>| {
            let mut v: Vec<u16> = v.iter().map(|s| s.id()).collect();
            v.sort();
            v
        };
        let rn = sorted(g.get_non_terminal_symbols());
        if rn != nts.iter().cloned().collect::<Vec<_>>() {
            return Err(format!("non-terminals are reported as {:?}, expected {:?}", rn, nts));
        }
        let rt = sorted(g.get_terminal_symbols());
        if rt != terms.iter().cloned().collect::<Vec<_>>() {
            return Err(format!("terminals are reported as {:?}, expected {:?}", rt, terms));
        }
        if g.get_epsilon_symbol().id() != c.eps || g.get_initial_symbol().id() != c.start {
            return Err(format!(
                "epsilon/initial symbol are reported as {}/{}",
                g.get_epsilon_symbol().id(),
                g.get_initial_symbol().id()
            ));
        }
        let mut all = gen::symbols(c);
        all.insert(999);
        for s in all {
            let r = R::of(s);
            if g.is_non_terminal(&r) != nts.contains(&s) {
                return Err(format!("is_non_terminal({}) is {}", s, g.is_non_terminal(&r)));
            }
            if g.is_terminal(&r) != terms.contains(&s) {
                return Err(format!("is_terminal({}) is {}", s, g.is_terminal(&r)));
            }
            let want: Vec<&Vec<u16>> = c.prods.iter().filter(|p| p.0 == s).map(|p| &p.1).collect();
            let got: Vec<(u16, Vec<u16>)> = g
                .get_productions(&r)
                .map(|v| v.iter().map(|p| (p.input.id(), p.output.iter().map(|x| x.id()).collect())).collect())
                .unwrap_or_default();
            if got.iter().any(|p| p.0 != s) || got.iter().map(|p| &p.1).collect::<Vec<_>>() != want {
                return Err(format!("productions of {} are reported as {:?}, expected {:?}", s, got, want));
            }
        }
        Ok(())
    }
    with_rep!(c, go(c))
}

fn verdict(r: Result<Result<(), String>, String>) -> Outcome {
    match r {
        Err(m) => fail!("panic: {}", m),
        Ok(Err(m)) => fail!("{}", m),
        Ok(Ok(())) => Outcome::Pass,
    }
}

// ---- P03 / P04 / P05 ------------------------------------------------------------------------

fn analysis_gen(src: &mut Src) -> Case {
    let fam = gen::family(src, ANY);
    let rep = rep_choice(src);
    let shape = Shape {
        eof: src.chance(60),
        productive: src.chance(40),
        no_left_recursion: src.chance(25),
        ll1: src.chance(8),
    };
    let mut c = gen::grammar(src, fam, shape);
    c.aux = vec![rep];
    c
}

fn grammar_labels(g: &Gram, o: &mut Obs) {
    if g.nullable.len() >= 2 {
        o.label("several nullable symbols");
    }
    if g.left_recursive() {
        o.label("left-recursive");
    }
    if g.prods.iter().any(|p| p.1.windows(2).any(|w| w[0] == w[1] && g.is_nt(w[0]))) {
        o.label("adjacent repeated non-terminal");
    }
    if g.prods.iter().any(|p| {
        p.1.windows(3).any(|w| g.nullable.contains(&w[0]) && g.nullable.contains(&w[1]) && g.nullable.contains(&w[2]))
    }) {
        o.label("three nullable symbols in a row");
    }
    if g.nts.len() >= 10 {
        o.label("ten or more non-terminals");
    }
    if g.heights().len() < g.nts.len() {
        o.label("unproductive symbols");
    }
    if g.is_ll1() {
        o.label("LL(1)");
    }
}

fn set_of<R: Rep>(s: Option<&std::collections::HashSet<R>>) -> Option<Vec<u16>> {
    s.map(|s| {
        let mut v: Vec<u16> = s.iter().map(|x| x.id()).collect();
        v.sort();
        v
    })
}

fn p03_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    grammar_labels(&g, o);
    o.nontrivial = g.nts.len() >= 2 && !g.left_edges().is_empty();
    fn go<R: Rep>(c: &Case, g: &Gram) -> Outcome {
        let rg = match built::<R>(c) {
            Some(g) => g,
            None => return REFUSED,
        };
        verdict(guard(ANALYSIS_BUDGET, || {
            let ff = FirstFollowSymbols::from(&rg);
            for t in &g.terms {
                let got = set_of(ff.get_first_symbols(&R::of(*t)));
                if got != Some(vec![*t]) {
                    return Err(format!("FIRST of terminal {} is {:?}", t, got));
                }
            }
            for n in &g.nts {
                let mut want: Vec<u16> = g.first[n].iter().cloned().collect();
                if g.nullable.contains(n) {
                    want.push(g.eps);
                    want.sort();
                }
                let got = set_of(ff.get_first_symbols(&R::of(*n)));
                if got.as_ref() != Some(&want) {
                    return Err(format!("FIRST({}) is {:?}, expected {:?}", n, got, want));
                }
            }
            Ok(())
        }))
    }
    with_rep!(c, go(c, &g))
}

fn p04_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    grammar_labels(&g, o);
    o.nontrivial = g.prods.iter().any(|p| p.1.len() >= 2 && p.1.iter().any(|s| g.is_nt(*s)));
    fn go<R: Rep>(c: &Case, g: &Gram) -> Outcome {
        let rg = match built::<R>(c) {
            Some(g) => g,
            None => return REFUSED,
        };
        verdict(guard(ANALYSIS_BUDGET, || {
            let ff = FirstFollowSymbols::from(&rg);
            for n in &g.nts {
                let want: Vec<u16> = g.follow[n].iter().cloned().collect();
                let got = set_of(ff.get_follow_symbols(&R::of(*n)));
                if got.as_ref() != Some(&want) {
                    return Err(format!("FOLLOW({}) is {:?}, expected {:?}", n, got, want));
                }
            }
            Ok(())
        }))
    }
    with_rep!(c, go(c, &g))
}

fn table_of<R: Rep>(
    t: &RecursiveDescentParserTransitions<R>,
    syms: &BTreeSet<u16>,
) -> BTreeMap<(u16, u16), Vec<(u16, Vec<u16>)>> {
    let mut m = BTreeMap::new();
    for a in syms {
        for b in syms {
            if let Some(v) = t.get_productions(&R::of(*a), &R::of(*b)) {
                if !v.is_empty() {
                    m.insert(
                        (*a, *b),
                        v.iter().map(|p| (p.input.id(), p.output.iter().map(|x| x.id()).collect())).collect(),
                    );
                }
            }
        }
    }
    m
}

fn p05_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    grammar_labels(&g, o);
    if g.table.values().any(|v| v.len() >= 2) {
        o.label("cell with several candidates");
    }
    if g.table.values().any(|v| v.len() >= 4) {
        o.label("cell with four or more candidates");
    }
    o.nontrivial = g.nts.len() >= 2 && !g.nullable.is_empty();
    fn go<R: Rep>(c: &Case, g: &Gram) -> Outcome {
        let rg = match built::<R>(c) {
            Some(g) => g,
            None => return REFUSED,
        };
        verdict(guard(ANALYSIS_BUDGET, || {
            let ff = FirstFollowSymbols::from(&rg);
            let t = RecursiveDescentParserTransitions::from(&rg, &ff);
            let mut syms = gen::symbols(c);
            syms.insert(999);
            let got = table_of(&t, &syms);
            for a in &syms {
                for b in &syms {
                    let want: Vec<(u16, Vec<u16>)> =
                        g.cands(*a, Some(*b)).iter().map(|i| g.prods[*i].clone()).collect();
                    let have = got.get(&(*a, *b)).cloned().unwrap_or_default();
                    if have != want {
                        return Err(format!("candidates for {} on {} are {:?}, expected {:?}", a, b, have, want));
                    }
                }
            }
            Ok(())
        }))
    }
    with_rep!(c, go(c, &g))
}

// ---- parsing --------------------------------------------------------------------------------

const PARSE_FAMILIES: &[(Family, usize)] = &[
    (Family::Tiny, 25),
    (Family::Mid, 20),
    (Family::Chain, 14),
    (Family::Ladder, 3),
    (Family::Conflict, 24),
    (Family::Wide, 3),
    (Family::Operators, 11),
];

fn parsing_gen(src: &mut Src, eof_pct: usize, ll1_pct: usize, hostile: bool, weights: [usize; 3], inputs: usize) -> Case {
    let fam = gen::family(src, PARSE_FAMILIES);
    let rep = rep_choice(src);
    let shape = Shape {
        eof: src.chance(eof_pct),
        no_left_recursion: true,
        productive: src.chance(85),
        ll1: src.chance(ll1_pct),
    };
    let mut c = gen::grammar(src, fam, shape);
    c.aux = vec![rep];
    let g = Gram::new(&c);
    for _ in 0..inputs {
        let long = src.chance(if fam == Family::Huge { 70 } else { 4 });
        let o = TokOpts {
            budget: if long { src.pick(&[60, 150, 400]) } else { src.pick(&[2, 4, 8, 12, 20, 30]) },
            cap: if long { 600 } else { 40 },
            keep_eof: true,
            hostile,
            weights,
        };
        let t = if long {
            gen::token_types(&mut gen::Src::grown(src.raw()), &g, &o)
        } else {
            gen::token_types(src, &g, &o)
        };
        let t = if long {
            gen::lexemes(&mut gen::Src::grown(src.raw()), &t)
        } else {
            gen::lexemes(src, &t)
        };
        c.inputs.push(t);
    }
    c.inputs.retain(|i| !i.is_empty());
    if c.inputs.is_empty() {
        c.inputs.push(vec![Tok { t: gen::T0, lex: Some(1) }]);
    }
    c
}

#[derive(Clone, Copy, PartialEq)]
enum Panics {
    /// the property promises an answer for every input
    Fail,
    /// the property promises an answer for rejected inputs
    FailIfRejected,
    /// the property is about answers only
    Skip,
}

/// Build a plain parser for the case and run `f` on it.
fn with_parser<R: Rep>(c: &Case, panics: Panics, f: impl FnOnce(&Plain<R>) -> Outcome) -> Outcome {
    let rg = match built::<R>(c) {
        Some(g) => g,
        None => return REFUSED,
    };
    let p: Plain<R> = match guard(ANALYSIS_BUDGET, || RecursiveDescentParser::from_grammar(&rg)) {
        Ok(p) => p,
        Err(m) if panics == Panics::Fail => fail!("parser construction panics: {}", m),
        Err(_) => return NO_PARSER,
    };
    f(&p)
}

/// Per input: parse with the code under test (guarded) and hand the result to `f`.
fn each_input<R: Rep>(
    c: &Case,
    g: &Gram,
    panics: Panics,
    f: &mut dyn FnMut(&[Tok], &mut Model, &Search, Res) -> Result<(), Bad>,
) -> Outcome {
    let mut ran = false;
    let mut why = Outcome::Skip("search space too large");
    let r = with_parser::<R>(c, panics, |p| {
        for t in &c.inputs {
            if t.is_empty() {
                continue;
            }
            let mut m = Model::new(g, t, MODEL_CAP);
            // beyond the reach of the exhaustive search, LL(1) grammars have a linear one
            let s = if t.len() > 60_000 && g.is_ll1() {
                match model::ll1_parse(g, t) {
                    (Some((n, end)), steps) => Search::Found(n, end, 10 * steps + t.len() as u64),
                    (None, steps) => Search::NotFound(10 * steps + t.len() as u64),
                }
            } else {
                search(&mut m)
            };
            let cost = match &s {
                Search::Found(_, _, k) | Search::NotFound(k) => *k,
                Search::TooBig => continue,
            };
            let res = match guard(parse_budget(cost), || run::parse(p, t)) {
                Ok(r) => r,
                Err(e) => {
                    let rejected = matches!(s, Search::NotFound(_));
                    if panics == Panics::Fail || panics == Panics::FailIfRejected && rejected {
                        fail!("parsing {:?} panics: {}", t.iter().map(|x| x.t).collect::<Vec<_>>(), e)
                    }
                    why = PANICS;
                    continue;
                }
            };
            match f(t, &mut m, &s, res) {
                Ok(()) => ran = true,
                Err(Bad::Big) => continue,
                Err(Bad::No(e)) => {
                    fail!("input {:?}: {}", t.iter().map(|x| x.t).collect::<Vec<_>>(), e)
                }
            }
        }
        Outcome::Pass
    });
    match r {
        Outcome::Pass if !ran => why,
        r => r,
    }
}

fn parse_labels(g: &Gram, s: &Search, o: &mut Obs) {
    match s {
        Search::Found(..) => o.label("accepted input"),
        Search::NotFound(_) => o.label("rejected input"),
        Search::TooBig => {}
    }
    if !g.is_ll1() {
        o.label("grammar with conflicts");
    }
}

fn long_label(t: &[Tok], o: &mut Obs) {
    if t.len() > 65_536 {
        o.label("input of more than 65536 tokens");
    }
}

// ---- P06 ------------------------------------------------------------------------------------

fn p06_gen(src: &mut Src) -> Case {
    if src.below(800) == 799 {
        return gen::deep(src, 3000);
    }
    if src.below(4000) == 3999 {
        return gen::flat(src);
    }
    let hostile = src.chance(25);
    parsing_gen(src, 70, 10, hostile, [45, 35, 20], 3)
}

fn p06_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut nt = false;
    let mut labels = Obs::default();
    let r = {
        let mut f = |t: &[Tok], _m: &mut Model, s: &Search, res: Res| -> Result<(), Bad> {
            parse_labels(&g, s, &mut labels);
            long_label(t, &mut labels);
            if let Res::Ok(n) = &res {
                let end = canon::tree(&g, t, n, g.start, 0)?;
                if end_marked(&g, t) && end != t.len() {
                    return Err(Bad::No(format!("tree covers {} of {} tokens", end, t.len())));
                }
                if canon::node_count(n) >= 5 {
                    nt = true;
                }
                if !g.is_ll1() {
                    labels.label("accepted by a grammar with conflicts");
                }
            }
            if let Res::Fix(_) = res {
                return Err(Bad::No("fixed result without solver".into()));
            }
            Ok(())
        };
        with_rep!(c, each_input(c, &g, Panics::Skip, &mut f))
    };
    o.labels = labels.labels;
    o.nontrivial = nt;
    r
}

// ---- P07 ------------------------------------------------------------------------------------

fn p07_gen(src: &mut Src) -> Case {
    if src.below(800) == 799 {
        return gen::deep(src, 3000);
    }
    if src.below(4000) == 3999 {
        return gen::flat(src);
    }
    let long = src.chance(6);
    let fam = gen::family(
        src,
        &[
            (Family::Tiny, 28),
            (Family::Mid, 22),
            (Family::Chain, 20),
            (Family::Ladder, 4),
            (Family::Conflict, 6),
            (Family::Wide, 4),
            (Family::Operators, 16),
        ],
    );
    let rep = rep_choice(src);
    let shape = Shape { eof: true, no_left_recursion: src.chance(60), productive: true, ll1: true };
    let mut c = gen::grammar(src, fam, shape);
    c.aux = vec![rep];
    let g = Gram::new(&c);
    for _ in 0..if long { 2 } else { 4 } {
        let o = TokOpts {
            budget: if long { src.pick(&[200, 600, 1500]) } else { src.pick(&[2, 4, 8, 16, 30, 60]) },
            cap: if long { 3000 } else { 120 },
            keep_eof: true,
            hostile: false,
            weights: [60, 32, 8],
        };
        let mut t = gen::token_types(src, &g, &o);
        if long && t.len() > 1 {
            // stretch: genes run out before long sentences do, so repeat derivations
            let body = t[..t.len() - 1].to_vec();
            let k = src.pick(&[1, 2, 20, 100]);
            let mut v = vec![];
            for _ in 0..k {
                v.extend_from_slice(&body);
                if v.len() > 2500 {
                    break;
                }
            }
            v.push(*t.last().unwrap());
            t = v;
        }
        let t = gen::lexemes(src, &t);
        c.inputs.push(t);
    }
    c
}

fn p07_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    if !g.is_ll1() || g.end_marker().is_none() {
        return Outcome::Skip("not LL(1) or not end-marked");
    }
    fn go<R: Rep>(c: &Case, g: &Gram, o: &mut Obs) -> Outcome {
        with_parser::<R>(c, Panics::Fail, |p| {
            for t in &c.inputs {
                if !end_marked(g, t) {
                    continue;
                }
                let (want, steps) = model::ll1_parse(g, t);
                let types: Vec<u16> = t.iter().map(|x| x.t).collect();
                if t.len() <= 24 {
                    // the two oracles must agree; anything else is a bug of this harness
                    let ch = Chart::new(g, &types);
                    assert_eq!(ch.derives(g.start, 0, t.len()), want.is_some(), "oracle disagreement on {}", c.brief());
                }
                if let Some((_, e)) = &want {
                    assert_eq!(*e, t.len(), "oracle stops early on {}", c.brief());
                }
                let show: Vec<u16> = types.iter().take(60).cloned().collect();
                let res = match guard(parse_budget(10 * steps + t.len() as u64), || run::parse(p, t)) {
                    Ok(r) => r,
                    Err(e) => fail!("parsing {:?} panics: {}", show, e),
                };
                match (&want, &res) {
                    (Some((n, _)), Res::Ok(m)) => {
                        if n != m {
                            fail!("input {:?}: the tree is not the derivation tree of the sentence: {:?}", show, m);
                        }
                        o.label("sentence");
                        if t.len() >= 4 {
                            o.nontrivial = true;
                        }
                        if t.len() >= 200 {
                            o.label("sentence of 200 tokens or more");
                        }
                        if t.len() >= 65_536 {
                            o.label("sentence of 65536 tokens or more");
                        }
                    }
                    (None, Res::Err(_)) => {
                        o.label("non-sentence");
                        if t.len() >= 4 {
                            o.nontrivial = true;
                        }
                    }
                    (Some(_), r) => fail!("sentence {:?} is not accepted: {:?}", show, brief(r)),
                    (None, r) => fail!("non-sentence {:?} is not rejected: {:?}", show, brief(r)),
                }
            }
            Outcome::Pass
        })
    }
    if g.nullable.iter().any(|n| !g.follow[n].is_empty()) {
        o.label("nullable symbols");
    }
    with_rep!(c, go(c, &g, o))
}

fn brief(r: &Res) -> String {
    let s = format!("{:?}", r);
    if s.len() > 600 {
        format!("{}...", s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

// ---- P08 ------------------------------------------------------------------------------------

fn p08_gen(src: &mut Src) -> Case {
    if src.below(800) == 799 {
        return gen::deep(src, 3000);
    }
    parsing_gen(src, 100, 3, false, [55, 30, 15], 3)
}

pub const KF_NESTED: &str = "P08-nested-choice";

fn p08_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    if g.end_marker().is_none() {
        return Outcome::Skip("no end marker");
    }
    let mut obs = Obs::default();
    let r = {
        let mut f = |t: &[Tok], _m: &mut Model, s: &Search, res: Res| -> Result<(), Bad> {
            if !end_marked(&g, t) {
                return Ok(());
            }
            let member = if t.len() <= 40 {
                let types: Vec<u16> = t.iter().map(|x| x.t).collect();
                Some(Chart::new(&g, &types).derives(g.start, 0, t.len()))
            } else {
                None
            };
            parse_labels(&g, s, &mut obs);
            match s {
                Search::Found(n, end, cost) => {
                    assert!(*end == t.len() && member != Some(false), "oracle disagreement on {}", c.brief());
                    match &res {
                        Res::Ok(m) if m == n => {}
                        Res::Ok(m) => {
                            return Err(Bad::No(format!(
                                "the tree is not the first one in grammar order: {:?}, expected {:?}",
                                m, n
                            )))
                        }
                        r => return Err(Bad::No(format!("sentence is not accepted: {}", brief(r)))),
                    }
                    if !g.is_ll1() && *cost > 2 * canon::node_count(n) as u64 {
                        obs.label("accepted after backtracking");
                        obs.nontrivial = true;
                    }
                }
                Search::NotFound(_) => match (&res, member) {
                    (Res::Err(_), Some(true)) if known::listed(KF_NESTED) => obs.known.push(KF_NESTED),
                    (Res::Err(_), Some(true)) => {
                        return Err(Bad::No("sentence is not accepted (choice inside a finished symbol)".into()))
                    }
                    (Res::Err(_), _) => {
                        if !g.is_ll1() {
                            obs.nontrivial = true;
                        }
                    }
                    (Res::Ok(n), Some(true)) => {
                        // better than required
                        canon::tree(&g, t, n, g.start, 0)?;
                    }
                    (r, _) => return Err(Bad::No(format!("non-sentence is not rejected: {}", brief(r)))),
                },
                Search::TooBig => {}
            }
            Ok(())
        };
        with_rep!(c, each_input(c, &g, Panics::Fail, &mut f))
    };
    *o = obs;
    r
}

// ---- P09 ------------------------------------------------------------------------------------

fn p09_gen(src: &mut Src) -> Case {
    if src.below(800) == 799 {
        return gen::deep(src, 3000);
    }
    let mut c = parsing_gen(src, 55, 15, true, [45, 30, 25], 4);
    if src.chance(8) {
        c.start = src.pick(&[999, gen::EPS, gen::T0, 2, 3]);
    }
    c
}

fn p09_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    if g.left_recursive() {
        return Outcome::Skip("left-recursive grammar");
    }
    fn go<R: Rep>(c: &Case, g: &Gram, o: &mut Obs) -> Outcome {
        with_parser::<R>(c, Panics::Fail, |p| {
            for t in &c.inputs {
                if t.is_empty() {
                    continue;
                }
                let mut m = Model::new(g, t, MODEL_CAP);
                let cost = if g.is_nt(g.start) {
                    match search(&mut m) {
                        Search::Found(_, _, k) | Search::NotFound(k) => k,
                        Search::TooBig => continue,
                    }
                } else {
                    1
                };
                let types: Vec<u16> = t.iter().map(|x| x.t).collect();
                let res = match guard(parse_budget(cost), || run::parse(p, t)) {
                    Ok(r) => r,
                    Err(e) => fail!("parsing {:?} panics: {}", types, e),
                };
                match &res {
                    Res::Ok(_) if !g.is_nt(g.start) => {
                        fail!("initial symbol {} has no productions but {:?} is accepted", g.start, types)
                    }
                    Res::Fix(_) => fail!("fixed result without solver for {:?}", types),
                    Res::Err(f) if !g.is_nt(g.start) && (f.s != g.start || !f.ps.is_empty()) => {
                        fail!("initial symbol {} has no productions; error {:?}", g.start, f)
                    }
                    _ => {}
                }
                let foreign = types.iter().any(|x| *x == g.eps || !g.terms.contains(x));
                if foreign {
                    o.label("foreign token types");
                }
                if g.end_marker().is_some() && !end_marked(g, t) {
                    o.label("end marker missing or misplaced");
                }
                if matches!(res, Res::Ok(_)) {
                    o.label("accepted");
                }
                if !g.is_nt(g.start) {
                    o.label("initial symbol without productions");
                }
                let rg = run::grammar::<R>(c);
                let limit = 2 * ANALYSIS_BUDGET + 5 * parse_budget(cost) + 2_000_000;
                match guard(limit, || {
                    let ff = FirstFollowSymbols::from(&rg);
                    run::parse::<R>(&RecursiveDescentParser::from_grammar_and_first_follow_symbols(&rg, &ff), t)
                }) {
                    Ok(_) => {}
                    Err(e) => fail!("parsing {:?} with supplied FIRST/FOLLOW sets panics: {}", types, e),
                }
                match guard(limit, || {
                    run::parse::<R>(&RecursiveDescentParser::from_grammar_and_solver(&rg, run::NoSolver), t)
                }) {
                    Ok(Res::Fix(_)) => fail!("fixed result from a declining solver for {:?}", types),
                    Ok(_) => {}
                    Err(e) => fail!("parsing {:?} with a declining solver panics: {}", types, e),
                }
                if foreign || !end_marked(g, t) {
                    o.nontrivial = true;
                }
            }
            if guard(100_000, || run::parse(p, &[])).is_ok() {
                fail!("the empty token sequence is not refused");
            }
            let rg = run::grammar::<R>(c);
            if guard(2 * ANALYSIS_BUDGET, || {
                run::parse::<R>(&RecursiveDescentParser::from_grammar_and_solver(&rg, run::NoSolver), &[])
            })
            .is_ok()
            {
                fail!("the empty token sequence is not refused by a parser with a solver");
            }
            Outcome::Pass
        })
    }
    with_rep!(c, go(c, &g, o))
}

// ---- P10 / P11 ------------------------------------------------------------------------------

fn p10_gen(src: &mut Src) -> Case {
    if src.below(800) == 799 {
        return gen::deep(src, 1100);
    }
    if src.below(4000) == 3999 {
        return gen::flat(src);
    }
    let hostile = src.chance(20);
    parsing_gen(src, 80, 25, hostile, [12, 60, 28], 3)
}

fn fsym_stats(f: &FSym, depth: usize, nts: &mut usize, max: &mut usize) {
    *max = (*max).max(depth);
    for p in &f.ps {
        for x in &p.parsed {
            if let PSym::Ok(n) = x {
                if !n.k.is_empty() {
                    *nts += 1;
                }
            }
        }
        fsym_stats(&p.failed, depth + 1, nts, max);
    }
}

fn err_labels(f: &FSym, o: &mut Obs) {
    let (mut n, mut d) = (0, 0);
    fsym_stats(f, 0, &mut n, &mut d);
    if n > 0 {
        o.label("failed production with parsed non-terminals");
        o.nontrivial = true;
    }
    if d >= 2 {
        o.label("nested failure");
        o.nontrivial = true;
    }
    if f.ps.len() >= 2 {
        o.label("several failed candidates");
    }
}

fn p10_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut obs = Obs::default();
    let r = {
        let mut f = |t: &[Tok], _m: &mut Model, _s: &Search, res: Res| -> Result<(), Bad> {
            long_label(t, &mut obs);
            match res {
                Res::Err(f) => {
                    let mut nested = 0;
                    canon::error_shape(&g, t, &f, g.start, 0, &mut nested)?;
                    err_labels(&f, &mut obs);
                }
                Res::Fix(_) => return Err(Bad::No("fixed result without solver".into())),
                Res::Ok(_) => obs.label("accepted input"),
            }
            Ok(())
        };
        with_rep!(c, each_input(c, &g, Panics::FailIfRejected, &mut f))
    };
    *o = obs;
    r
}

fn p11_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut obs = Obs::default();
    let r = {
        let mut f = |_t: &[Tok], m: &mut Model, _s: &Search, res: Res| -> Result<(), Bad> {
            match res {
                Res::Err(f) => {
                    canon::error_truth(m, &f, 0)?;
                    err_labels(&f, &mut obs);
                }
                Res::Fix(_) => return Err(Bad::No("fixed result without solver".into())),
                Res::Ok(_) => obs.label("accepted input"),
            }
            Ok(())
        };
        with_rep!(c, each_input(c, &g, Panics::FailIfRejected, &mut f))
    };
    *o = obs;
    r
}

// ---- P12 / P13 / P14 ------------------------------------------------------------------------

fn solver_gen(src: &mut Src, fix_pct: usize, weights: [usize; 3]) -> Case {
    let hostile = src.chance(15);
    let mut c = if src.below(800) == 799 {
        gen::deep(src, 260)
    } else {
        parsing_gen(src, 75, 35, hostile, weights, 2)
    };
    let n = src.range(1, 6);
    for _ in 0..n {
        let v = if !src.chance(fix_pct) {
            0
        } else if src.chance(45) {
            let sync = if src.chance(40) { 8 } else { src.range(0, 8) as u32 };
            10 + sync + if src.chance(60) { 10 } else { 0 }
        } else if src.chance(15) {
            // back to an earlier token, or beyond the last one
            // or no parts at all
            match src.below(10) {
                0..=4 => 40 + src.below(4) as u32,
                5..=6 => 50 + src.below(2) as u32,
                _ => 60,
            }
        } else {
            src.range(1, 6) as u32
        };
        c.aux.push(v);
    }
    c
}

fn p12_gen(src: &mut Src) -> Case {
    solver_gen(src, 60, [25, 55, 20])
}

fn plan(c: &Case) -> &[u32] {
    if c.aux.is_empty() {
        &[]
    } else {
        &c.aux[1..]
    }
}

/// Runs plain and solving parsers on every input.
fn each_solved<R: Rep>(
    c: &Case,
    g: &Gram,
    f: &mut dyn FnMut(&[Tok], &mut Model, &Res, &dyn Fn(&[u32]) -> Result<(Res, Vec<Call>), String>) -> Result<(), Bad>,
) -> Outcome {
    let rg = match built::<R>(c) {
        Some(g) => g,
        None => return REFUSED,
    };
    let p: Plain<R> = match guard(ANALYSIS_BUDGET, || RecursiveDescentParser::from_grammar(&rg)) {
        Ok(g) => g,
        Err(_) => return NO_PARSER,
    };
    let mut ran = false;
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let mut m = Model::new(g, t, MODEL_CAP);
        let cost = match search(&mut m) {
            Search::Found(_, _, k) | Search::NotFound(k) => k,
            Search::TooBig => continue,
        };
        let types: Vec<u16> = t.iter().map(|x| x.t).collect();
        // a parser that panics on its own is P09's business
        let plain = match guard(parse_budget(cost), || run::parse(&p, t)) {
            Ok(r) => r,
            Err(_) => continue,
        };
        // fixing explores positions the plain search never visits; the sizes bound that work
        let limit = ANALYSIS_BUDGET.min(20 * analysis_bound(g)) + 5 * parse_budget(cost) + 2_000_000;
        let solved = |plan: &[u32]| guard(limit, || run::parse_solving::<R>(&rg, t, plan));
        match f(t, &mut m, &plain, &solved) {
            Ok(()) => ran = true,
            Err(Bad::Big) => continue,
            Err(Bad::No(e)) => fail!("input {:?}: {}", types, e),
        }
    }
    if ran {
        Outcome::Pass
    } else {
        Outcome::Skip("search space too large")
    }
}

/// With accepted fixes the search visits positions the plain one never does, and can be
/// exponential there: no termination is claimed, such inputs are left out.
fn fixing_panics(e: String) -> Bad {
    if over_budget(&e) {
        Bad::Big
    } else {
        Bad::No(format!("panic with solver: {}", e))
    }
}

fn p12_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut obs = Obs::default();
    let pl = plan(c).to_vec();
    let r = {
        let mut f = |t: &[Tok],
                     _m: &mut Model,
                     plain: &Res,
                     solved: &dyn Fn(&[u32]) -> Result<(Res, Vec<Call>), String>|
         -> Result<(), Bad> {
            match plain {
                Res::Ok(_) => {
                    for q in [&pl[..], &[0][..], &[1][..], &[2][..], &[3, 0][..]] {
                        let (r, log) = solved(q).map_err(|e| format!("panic with solver: {}", e))?;
                        if let Some(k) = log.first() {
                            return Err(Bad::No(format!(
                                "the solver is consulted (at token {}) although the input parses without it",
                                k.pos
                            )));
                        }
                        if &r != plain {
                            return Err(Bad::No(format!(
                                "with a solver the result is {} instead of {}",
                                brief(&r),
                                brief(plain)
                            )));
                        }
                    }
                    obs.label("valid input");
                    if t.len() >= 2 && !g.is_ll1() {
                        obs.label("valid input, grammar with conflicts");
                        obs.nontrivial = true;
                    }
                }
                _ => {
                    let (r, log) = solved(&[0]).map_err(fixing_panics)?;
                    if &r != plain {
                        return Err(Bad::No(format!(
                            "with a declining solver the result is {} instead of {}",
                            brief(&r),
                            brief(plain)
                        )));
                    }
                    obs.label("invalid input");
                    if log.len() >= 2 {
                        obs.label("several consultations declined");
                        obs.nontrivial = true;
                    }
                }
            }
            Ok(())
        };
        with_rep!(c, each_solved(c, &g, &mut f))
    };
    *o = obs;
    r
}

fn p13_gen(src: &mut Src) -> Case {
    let pct = src.pick(&[0, 20, 45]);
    solver_gen(src, pct, [15, 70, 15])
}
fn p14_gen(src: &mut Src) -> Case {
    let pct = src.pick(&[35, 60, 100]);
    solver_gen(src, pct, [8, 80, 12])
}

fn marker(parts: &[Part]) -> Option<usize> {
    match parts.first() {
        Some(Part::Gap(t, _)) if t.len() == 1 && t[0] >= MARK => Some((t[0] - MARK) as usize),
        _ => None,
    }
}

fn outputs_match(g: &Gram, call: &Call, a: u16, look: Option<u16>) -> bool {
    let cands = g.cands(a, look);
    call.plural == (cands.len() != 1)
        && cands.len() == call.cands.len()
        && cands.iter().zip(&call.cands).all(|(i, p)| p.rhs() == g.prods[*i].1)
}

/// Validity of a fixed symbol; returns the position after it.
fn fixed_valid(g: &Gram, toks: &[Tok], calls: &[Call], x: &XSym, sym: u16, pos: usize) -> Result<usize, String> {
    if x.s != sym {
        return Err(format!("fixed symbol {} stands where {} is expected", x.s, sym));
    }
    if !g.is_nt(sym) {
        return Err(format!("terminal {} is fixed", sym));
    }
    let look = toks.get(pos).map(|t| t.t);
    if let Some(id) = marker(&x.parts) {
        let call = calls.get(id).ok_or("a fix nobody supplied")?;
        let (end, parts) = call.answer.as_ref().ok_or("a fix that was declined")?;
        if call.pos != pos {
            return Err(format!("the fix asked for at token {} is placed at token {}", call.pos, pos));
        }
        if !outputs_match(g, call, sym, look) {
            return Err(format!("the fix for symbol {} was asked for another symbol", sym));
        }
        if parts != &x.parts {
            return Err(format!("the fix supplied is {:?}, the one returned {:?}", parts, x.parts));
        }
        return Ok(*end);
    }
    if x.parts.is_empty() {
        // the fixes without parts asked for at one position all end at the same one
        let end = calls.iter().find_map(|k| match &k.answer {
            Some((end, parts)) if parts.is_empty() && k.pos == pos && outputs_match(g, k, sym, look) => Some(*end),
            _ => None,
        });
        return end.ok_or(format!("symbol {} has a fix without parts nobody supplied", sym));
    }
    let cands = g.cands(sym, look);
    if cands.len() != 1 {
        return Err(format!("symbol {} with {} candidates contains a fix", sym, cands.len()));
    }
    let rhs = &g.prods[cands[0]].1;
    if rhs.len() != x.parts.len() {
        return Err(format!("fixed symbol {} has {} parts, its production {:?}", sym, x.parts.len(), rhs));
    }
    let mut at = pos;
    let mut fixes = 0;
    for (s, p) in rhs.iter().zip(&x.parts) {
        match p {
            Part::Ok(n) => at = canon::tree(g, toks, n, *s, at)?,
            Part::Fixed(y) => {
                at = fixed_valid(g, toks, calls, y, *s, at)?;
                fixes += 1;
            }
            Part::Gap(..) => return Err(format!("fixed symbol {} has a gap nobody supplied", sym)),
        }
    }
    if fixes == 0 {
        return Err(format!("fixed symbol {} contains no fix", sym));
    }
    Ok(at)
}

/// Whether a fix was accepted at or after a position. A fix is taken as soon as it is offered and the
/// symbols before it are then not parsed differently, so a symbol holding an accepted fix can
/// fail although it would have parsed without that fix.
fn fixed_inside(calls: &[Call], pos: usize) -> bool {
    calls.iter().any(|k| k.pos >= pos && k.answer.is_some())
}

/// Validity of a failed production seen by a solver or in an error; returns the end of its parsed part.
fn failed_valid(m: &mut Model, calls: &[Call], p: &canon::FProd, pos: usize) -> Result<usize, Bad> {
    let (g, toks) = (m.g, m.toks);
    let mut at = pos;
    for x in &p.parsed {
        match x {
            PSym::Ok(n) => at = canon::tree(g, toks, n, n.s, at)?,
            PSym::Fix(x) => at = fixed_valid(g, toks, calls, x, x.s, at)?,
        }
    }
    if !fixed_inside(calls, at) && !m.outcomes(p.failed.s, at)?.list.is_empty() {
        return Err(Bad::No(format!("symbol {} is reported as failed at token {} but parses there", p.failed.s, at)));
    }
    for q in &p.failed.ps {
        failed_valid(m, calls, q, at)?;
    }
    Ok(at)
}

fn contract(m: &mut Model, calls: &[Call], res: &Res) -> Result<(), Bad> {
    let (g, toks) = (m.g, m.toks);
    let look = |p: usize| toks.get(p).map(|t| t.t);
    // symbols whose ancestors all have a single candidate, with the positions they can start at
    let mut sp: BTreeSet<(u16, usize)> = BTreeSet::new();
    let mut fixed: BTreeMap<(u16, usize), BTreeSet<usize>> = BTreeMap::new();
    sp.insert((g.start, 0));
    loop {
        let before = (sp.len(), fixed.values().map(|v| v.len()).sum::<usize>());
        for (a, p) in sp.clone() {
            for k in calls {
                if let Some((end, _)) = &k.answer {
                    if k.pos == p && outputs_match(g, k, a, look(p)) {
                        fixed.entry((a, p)).or_default().insert(*end);
                    }
                }
            }
            let cands = g.cands(a, look(p));
            if cands.len() == 1 {
                let mut at: BTreeSet<usize> = [p].into();
                for s in &g.prods[cands[0]].1 {
                    let mut next: BTreeSet<usize> = BTreeSet::new();
                    for q in &at {
                        next.extend(m.ends(*s, *q)?);
                        if g.is_nt(*s) {
                            sp.insert((*s, *q));
                            if let Some(f) = fixed.get(&(*s, *q)) {
                                next.extend(f.iter().cloned());
                            }
                        }
                    }
                    at = next;
                }
                fixed.entry((a, p)).or_default().extend(at);
            }
        }
        if before == (sp.len(), fixed.values().map(|v| v.len()).sum::<usize>()) {
            break;
        }
    }
    for (i, k) in calls.iter().enumerate() {
        if k.tokens != toks {
            return Err(Bad::No(format!("consultation {} does not get the token list", i)));
        }
        if k.plural && k.cands.len() == 1 {
            return Err(Bad::No(format!("consultation {}: the several-productions callback gets one candidate", i)));
        }
        let mut matched = false;
        let mut parses = None;
        for (a, p) in &sp {
            if *p == k.pos && outputs_match(g, k, *a, look(*p)) {
                if fixed_inside(&calls[..i], k.pos) || m.outcomes(*a, *p)?.list.is_empty() {
                    matched = true;
                } else {
                    parses = Some(*a);
                }
            }
        }
        if !matched {
            return Err(Bad::No(match parses {
                Some(a) => format!("consultation {} at token {} is for symbol {}, which parses there", i, k.pos, a),
                None => format!(
                    "consultation {} ({}, at token {}, candidates {:?}) is for no symbol on the single-candidate path",
                    i,
                    if k.plural { "several" } else { "single" },
                    k.pos,
                    k.cands.iter().map(|p| p.rhs()).collect::<Vec<_>>()
                ),
            }));
        }
        for p in &k.cands {
            let at = failed_valid(m, &calls[..i], p, k.pos)?;
            if k.cands.len() == 1 && g.is_nt(p.failed.s) {
                // the failed part of an only candidate was asked for just before, and declined
                let asked = i > 0
                    && calls[i - 1].answer.is_none()
                    && calls[i - 1].pos == at
                    && calls[i - 1].cands == p.failed.ps;
                if !asked {
                    return Err(Bad::No(format!(
                        "consultation {} at token {}: its failed symbol {} at token {} was not declined just before",
                        i, k.pos, p.failed.s, at
                    )));
                }
            }
        }
    }
    match res {
        Res::Err(f) => {
            // innermost first, the initial symbol at position 0 last
            let mut chain: Vec<(usize, Vec<Vec<u16>>)> = vec![];
            let (mut f, mut pos) = (f, 0usize);
            loop {
                chain.push((pos, f.ps.iter().map(|p| p.rhs()).collect()));
                if f.ps.len() != 1 {
                    break;
                }
                let p = &f.ps[0];
                pos = failed_valid(m, calls, p, pos)?;
                if !g.is_nt(p.failed.s) {
                    break;
                }
                f = &p.failed;
            }
            chain.reverse();
            let n = chain.len();
            if calls.len() < n {
                return Err(Bad::No(format!(
                    "error with {} failed symbols on the single-candidate path after {} consultations",
                    n,
                    calls.len()
                )));
            }
            for (k, (pos, rhs)) in calls[calls.len() - n..].iter().zip(&chain) {
                let got: Vec<Vec<u16>> = k.cands.iter().map(|p| p.rhs()).collect();
                if k.pos != *pos || &got != rhs || k.plural == (rhs.len() == 1) || k.answer.is_some() {
                    return Err(Bad::No(format!(
                        "the consultations before the error do not climb the failed symbols: expected token {} {:?}, got token {} {:?}{}",
                        pos, rhs, k.pos, got, if k.answer.is_some() { " (accepted)" } else { "" }
                    )));
                }
            }
        }
        Res::Fix(_) => {
            if calls.iter().all(|k| k.answer.is_none()) {
                return Err(Bad::No("a fixed result although the solver declined everything".into()));
            }
        }
        Res::Ok(_) => {}
    }
    Ok(())
}

fn p13_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut obs = Obs::default();
    let pl = plan(c).to_vec();
    let r = {
        let mut f = |_t: &[Tok],
                     m: &mut Model,
                     plain: &Res,
                     solved: &dyn Fn(&[u32]) -> Result<(Res, Vec<Call>), String>|
         -> Result<(), Bad> {
            if let Res::Ok(_) = plain {
                obs.label("valid input");
                return Ok(());
            }
            let (r, log) = solved(&pl).map_err(fixing_panics)?;
            contract(m, &log, &r)?;
            if log.iter().any(|k| !k.plural) {
                obs.label("single-production consultation");
            }
            if log.iter().any(|k| k.plural && k.cands.len() > 1) {
                obs.label("several-productions consultation");
            }
            if log.iter().any(|k| k.cands.is_empty()) {
                obs.label("consultation without candidates");
            }
            if log.len() >= 2 {
                obs.nontrivial = true;
            }
            if log.iter().any(|k| k.cands.iter().any(|p| p.parsed.iter().any(|x| matches!(x, PSym::Fix(_))))) {
                obs.label("failed production containing a fix");
            }
            if log.len() >= 5 {
                obs.label("five or more consultations");
            }
            Ok(())
        };
        with_rep!(c, each_solved(c, &g, &mut f))
    };
    *o = obs;
    r
}

fn p14_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut obs = Obs::default();
    let pl = plan(c).to_vec();
    let r = {
        let mut f = |t: &[Tok],
                     _m: &mut Model,
                     plain: &Res,
                     solved: &dyn Fn(&[u32]) -> Result<(Res, Vec<Call>), String>|
         -> Result<(), Bad> {
            if let Res::Ok(_) = plain {
                obs.label("valid input");
                return Ok(());
            }
            for q in [&pl[..], &[28][..], &[20, 28][..], &[21, 0][..], &[22][..], &[40, 28][..], &[51][..], &[60][..]] {
                let (r, log) = solved(q).map_err(fixing_panics)?;
                match &r {
                    Res::Fix(x) => {
                        fixed_valid(&g, t, &log, x, g.start, 0)?;
                        if marker(&x.parts).is_some() || x.parts.is_empty() {
                            obs.label("initial symbol fixed");
                        } else {
                            obs.label("fix below the initial symbol");
                            obs.nontrivial = true;
                            if x.parts.iter().any(|p| matches!(p, Part::Fixed(y) if marker(&y.parts).is_none())) {
                                obs.label("fix two levels down or deeper");
                            }
                            if x.parts.iter().filter(|p| matches!(p, Part::Fixed(_))).count() >= 2 {
                                obs.label("several fixes");
                            }
                        }
                        let last = log.last().unwrap();
                        if let (Some((_, parts)), true, true) =
                            (&last.answer, last.pos == 0, marker(&x.parts).is_none() && !x.parts.is_empty())
                        {
                            // the last consultation may have been for the initial symbol only if its
                            // fix is the result
                            let below = parts.is_empty() || format!("{:?}", x).contains(&format!("{:?}", parts[0]));
                            if !below {
                                return Err(Bad::No("the last fix accepted is not part of the result".into()));
                            }
                        }
                    }
                    Res::Err(_) => {
                        if let Some(k) = log.last() {
                            if k.answer.is_some() {
                                return Err(Bad::No(format!(
                                    "an error is returned although the last consultation (token {}) was answered by a fix",
                                    k.pos
                                )));
                            }
                        }
                    }
                    Res::Ok(n) => {
                        // a fix that is dropped again can send the search to alternatives that it never
                        // reaches without solver (when choices overlap)
                        if g.is_ll1() || log.iter().all(|k| k.answer.is_none()) {
                            return Err(Bad::No("success with solver only".into()));
                        }
                        canon::tree(&g, t, n, g.start, 0)?;
                        obs.label("derivation found after every accepted fix was dropped");
                    }
                }
            }
            Ok(())
        };
        with_rep!(c, each_solved(c, &g, &mut f))
    };
    *o = obs;
    r
}

// ---- P15 ------------------------------------------------------------------------------------

fn p15_gen(src: &mut Src) -> Case {
    let hostile = src.chance(40);
    let n = src.range(2, 8);
    let mut c = if src.below(800) == 799 {
        gen::deep(src, 520)
    } else {
        parsing_gen(src, 70, 25, hostile, [45, 35, 20], n)
    };
    // repeat earlier inputs, refuse some
    for _ in 0..src.range(0, 4) {
        let i = src.below(c.inputs.len());
        let x = c.inputs[i].clone();
        c.inputs.push(x);
    }
    for _ in 0..src.weighted(&[50, 35, 15]) {
        let at = src.below(c.inputs.len() + 1);
        c.inputs.insert(at, vec![]);
    }
    for _ in 0..src.range(1, 4) {
        let v = if src.chance(40) { src.range(1, 5) as u32 } else { 0 };
        c.aux.push(v);
    }
    c
}

fn p15_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    fn go<R: Rep>(c: &Case, g: &Gram, o: &mut Obs) -> Outcome {
        let build = |c: &Case| {
            let rg = built::<R>(c)?;
            guard(ANALYSIS_BUDGET, move || {
                let ff = FirstFollowSymbols::from(&rg);
                let t = RecursiveDescentParserTransitions::from(&rg, &ff);
                let syms = gen::symbols(c);
                let first: Vec<_> = syms.iter().map(|s| set_of(ff.get_first_symbols(&R::of(*s)))).collect();
                let follow: Vec<_> = syms.iter().map(|s| set_of(ff.get_follow_symbols(&R::of(*s)))).collect();
                let table = table_of(&t, &syms);
                (rg, ff, first, follow, table)
            })
            .ok()
        };
        let (rg, ff, first, follow, table) = match build(c) {
            Some(x) => x,
            None => return NO_PARSER,
        };
        let p: Plain<R> = match guard(ANALYSIS_BUDGET, || RecursiveDescentParser::from_grammar(&rg)) {
            Ok(x) => x,
            Err(_) => return NO_PARSER,
        };
        let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let solving: RecursiveDescentParser<u64, R, run::Recorder> = match guard(ANALYSIS_BUDGET, || {
            RecursiveDescentParser::from_grammar_and_solver(
                &rg,
                run::Recorder { plan: plan(c).to_vec(), log: log.clone() },
            )
        }) {
            Ok(x) => x,
            Err(_) => return NO_PARSER,
        };
        let mut parsed = 0;
        for (i, t) in c.inputs.iter().enumerate() {
            let types: Vec<u16> = t.iter().map(|x| x.t).collect();
            if t.is_empty() {
                if guard(100_000, || run::parse(&p, t)).is_err() {
                    o.label("refused input in the history");
                }
                let _ = guard(ANALYSIS_BUDGET, || {
                    let _r = solving.parse_from_tokens(std::iter::empty());
                });
                continue;
            }
            let mut m = Model::new(g, t, MODEL_CAP);
            let cost = match search(&mut m) {
                Search::Found(_, _, k) | Search::NotFound(k) => k,
                Search::TooBig => continue,
            };
            let limit = parse_budget(cost);
            let a = match outcome(guard(limit, || run::parse(&p, t))) {
                Some(r) => r,
                None => continue,
            };
            // a fresh parser from an equal grammar, through another constructor
            let (rg2, ff2, first2, follow2, table2) = match build(c) {
                Some(x) => x,
                None => fail!("step {}: analysis of an equal grammar panics", i),
            };
            if first != first2 || follow != follow2 || table != table2 {
                fail!("step {}: analysis of an equal grammar differs from the first one", i);
            }
            let b = outcome(guard(ANALYSIS_BUDGET + limit, || match i % 3 {
                0 => run::parse(&RecursiveDescentParser::from_grammar_and_first_follow_symbols(&rg2, &ff2), t),
                1 => run::parse(&RecursiveDescentParser::from_grammar_and_first_follow_symbols(&rg, &ff), t),
                _ => run::parse(&RecursiveDescentParser::from_grammar(&rg2), t),
            }));
            match b {
                Some(b) if a == b => {}
                Some(b) => fail!(
                    "step {}: {:?} gives {} on the parser used before and {} on a fresh one",
                    i, types, brief_or(&a), brief_or(&b)
                ),
                None => continue,
            }
            let s = guard(ANALYSIS_BUDGET + 20 * limit, || {
                log.borrow_mut().clear();
                let r = canon::res(&solving.parse_from_tokens(run::tokens::<R>(t).into_iter()));
                let l = log.borrow().clone();
                (r, l)
            });
            let f = guard(ANALYSIS_BUDGET * 2 + 20 * limit, || run::parse_solving::<R>(&rg2, t, plan(c)));
            match (s, f) {
                (Ok((r1, l1)), Ok((r2, l2))) => {
                    if r1 != r2 {
                        fail!(
                            "step {}: with solver, {:?} gives {} on the parser used before and {} on a fresh one",
                            i, types, brief(&r1), brief(&r2)
                        );
                    }
                    if l1.len() != l2.len() || l1.iter().zip(&l2).any(|(x, y)| x.pos != y.pos || x.cands != y.cands) {
                        fail!("step {}: with solver, {:?} leads to other consultations on a used parser", i, types);
                    }
                }
                (Err(a), Err(b)) if !over_budget(&a) && !over_budget(&b) => o.label("panics with solver"),
                (Err(m), _) | (_, Err(m)) if over_budget(&m) => {}
                (Err(m), _) => fail!("step {}: with solver, {:?} panics on the parser used before only: {}", i, types, m),
                (_, Err(m)) => fail!("step {}: with solver, {:?} panics on a fresh parser only: {}", i, types, m),
            }
            match a {
                Ok(Res::Ok(_)) => o.label("accepted input in the history"),
                Ok(_) => o.label("rejected input in the history"),
                Err(()) => o.label("panic in the history"),
            }
            parsed += 1;
        }
        // once more from the start, on the used parser, from other iterators and many times over
        let kind = c.aux.iter().fold(c.inputs.len() as u32, |a, x| a.wrapping_mul(31).wrapping_add(*x));
        let rounds = match kind % 600 {
            7 => 66_000,
            x if x % 100 == 8 => 300,
            x if x % 50 == 9 => 40,
            _ => 1,
        };
        for (i, t) in c.inputs.iter().filter(|t| !t.is_empty()).take(3).enumerate() {
            let mut m = Model::new(g, t, MODEL_CAP);
            let cost = match search(&mut m) {
                Search::Found(_, _, k) | Search::NotFound(k) => k,
                Search::TooBig => continue,
            };
            let b = match outcome(guard(parse_budget(cost), || run::parse(&p, t))) {
                Some(b) => b,
                None => continue,
            };
            let a = outcome(guard(parse_budget(cost), || {
                canon::res(&p.parse_from_tokens(Feed::<R>::new(t, kind.wrapping_add(i as u32))))
            }));
            if a.is_some() && a != Some(b.clone()) {
                fail!("the same tokens from another iterator give another result: {}", brief_or(&a.unwrap()));
            }
            // while the tokens arrive, the parser is used for another input; or they never all arrive
            let other = &c.inputs[(i + kind as usize) % c.inputs.len()];
            if !other.is_empty() {
                let mut mo = Model::new(g, other, MODEL_CAP);
                if let Search::Found(_, _, k) | Search::NotFound(k) = search(&mut mo) {
                    let a = outcome(guard(parse_budget(cost + k), || {
                        canon::res(&p.parse_from_tokens(Busy {
                            toks: run::tokens::<R>(t).into_iter(),
                            at: kind as usize / 7 % t.len(),
                            act: || {
                                let _ = run::parse(&p, other);
                            },
                        }))
                    }));
                    // the parse in between may panic by itself
                    if let Some(Ok(a)) = a {
                        o.label("parser used while its tokens arrive");
                        if Ok(&a) != b.as_ref() {
                            fail!("using the parser for another input while tokens arrive changes the result: {}", brief(&a));
                        }
                    }
                }
            }
            let r = guard(parse_budget(cost), || {
                let _r = p.parse_from_tokens(Busy {
                    toks: run::tokens::<R>(t).into_iter(),
                    at: kind as usize / 3 % t.len(),
                    act: || panic!("no more tokens"),
                });
            });
            if r.is_err() {
                let a = outcome(guard(parse_budget(cost), || run::parse(&p, t)));
                if a.is_some() && a != Some(b.clone()) {
                    fail!("after an input whose iterator panicked the result is another one: {}", brief_or(&a.unwrap()));
                }
            }
            // a symbol operation panics somewhere inside a parse
            let _ = guard(parse_budget(cost), || run::parse(&p, t));
            let work = sym::ticks();
            let part = (u64::from(kind).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % work.max(1);
            let r = guard(part, || {
                let _r = p.parse_from_tokens(run::tokens::<R>(t).into_iter());
            });
            if r.is_err() {
                o.label("parse aborted by a symbol operation");
                let a = outcome(guard(parse_budget(cost), || run::parse(&p, t)));
                if a.is_some() && a != Some(b.clone()) {
                    fail!("after a parse in which a symbol operation panicked the result is another one: {}", brief_or(&a.unwrap()));
                }
            }
            // the same with a solver: rounds on the used parser, a solver that uses parsers itself, one that panics
            let limit = ANALYSIS_BUDGET.min(20 * analysis_bound(g)) + 20 * parse_budget(cost);
            let solved = || match i == kind as usize / 11 % 2 {
                true => guard(limit, || run::parse_solving::<R>(&rg, t, plan(c))).ok(),
                false => None,
            };
            if let Some((want, calls)) = solved() {
                let same = |l: &[Call]| {
                    l.len() == calls.len() && l.iter().zip(&calls).all(|(x, y)| x.pos == y.pos && x.cands == y.cands)
                };
                let again = |what: &str| {
                    let r = guard(limit, || {
                        log.borrow_mut().clear();
                        canon::res(&solving.parse_from_tokens(run::tokens::<R>(t).into_iter()))
                    });
                    match r {
                        Ok(r) if r == want && same(&log.borrow()) => Ok(()),
                        Ok(r) => Err(format!("{}, the parser with solver gives {} instead of {}", what, brief(&r), brief(&want))),
                        Err(m) if over_budget(&m) => Ok(()),
                        Err(m) => Err(format!("{}, the parser with solver panics: {}", what, m)),
                    }
                };
                for k in 0..if rounds > 1 && calls.len() < 20 { 40 } else { 1 } {
                    if let Err(m) = again("after other parses") {
                        fail!("round {}: {}", k, m);
                    }
                }
                if !calls.is_empty() {
                    let at = kind as usize / 5 % calls.len();
                    for panics in [false, true] {
                        let l2 = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
                        let r = guard(2 * limit, || {
                            let act = |n: usize| {
                                if panics && n == at {
                                    panic!("the solver gives up");
                                }
                                if !panics && n < 6 {
                                    let _r = p.parse_from_tokens(run::tokens::<R>(t).into_iter());
                                    if !other.is_empty() {
                                        let _r = p.parse_from_tokens(run::tokens::<R>(other).into_iter());
                                    }
                                }
                            };
                            let q: RecursiveDescentParser<u64, R, run::Acting> = RecursiveDescentParser::from_grammar_and_solver(
                                &rg,
                                run::Acting {
                                    inner: run::Recorder { plan: plan(c).to_vec(), log: l2.clone() },
                                    act: Box::new(act),
                                },
                            );
                            canon::res(&q.parse_from_tokens(run::tokens::<R>(t).into_iter()))
                        });
                        if let (false, Ok(r)) = (panics, &r) {
                            o.label("parser used by the solver");
                            if *r != want || !same(&l2.borrow()) {
                                fail!("a solver that uses another parser gets {} instead of {}", brief(r), brief(&want));
                            }
                        }
                        if panics && r.is_err() {
                            o.label("solver that panics");
                            if let Err(m) = again("after a parse whose solver panicked") {
                                fail!("{}", m);
                            }
                        }
                    }
                }
            }
            let rounds = if rounds > 40 && cost >= 100 { 40 } else { rounds };
            if rounds > 1 && cost < 3000 {
                o.label("history of more than forty parses");
                if rounds > 300 {
                    o.label("history of more than 65536 parses");
                } else if rounds > 256 {
                    o.label("history of more than 256 parses");
                }
                for k in 0..rounds {
                    let a = outcome(guard(parse_budget(cost), || run::parse(&p, t)));
                    if a.is_some() && a != Some(b.clone()) {
                        fail!(
                            "parsing {:?} again and again changes the result in round {}: {} and {}",
                            t.iter().map(|x| x.t).collect::<Vec<_>>(), k, brief_or(&b), brief_or(&a.unwrap())
                        );
                    }
                }
            }
        }
        o.nontrivial = parsed >= 2;
        if parsed == 0 {
            return Outcome::Skip("search space too large");
        }
        Outcome::Pass
    }
    with_rep!(c, go(c, &g, o))
}

/// Does something before it yields the token at an index.
struct Busy<I, F> {
    toks: I,
    at: usize,
    act: F,
}

impl<I: Iterator, F: FnMut()> Iterator for Busy<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.at == 0 {
            (self.act)();
        }
        self.at = self.at.wrapping_sub(1);
        self.toks.next()
    }
}

/// A lawful iterator over tokens with an arbitrary (lawful) size hint, which goes on after its end
/// when asked again.
struct Feed<R: Rep> {
    toks: Vec<artlr_syntax::token::token::Token<u64, R>>,
    at: usize,
    kind: u32,
}

impl<R: Rep> Feed<R> {
    fn new(t: &[Tok], kind: u32) -> Self {
        Feed { toks: run::tokens::<R>(t), at: 0, kind }
    }
}

impl<R: Rep> Iterator for Feed<R> {
    type Item = artlr_syntax::token::token::Token<u64, R>;
    fn next(&mut self) -> Option<Self::Item> {
        let n = self.toks.len();
        self.at += 1;
        if self.at == n + 1 {
            return None;
        }
        // after its end an iterator may yield anything
        self.toks.get((self.at - 1) % (n + 1)).cloned()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.toks.len().saturating_sub(self.at);
        match self.kind % 6 {
            0 => (left, Some(left)),
            1 => (0, None),
            2 => (left / 2, None),
            3 => (0, Some(usize::MAX)),
            4 => (left.min(1), Some(left + 1000)),
            _ => (left, None),
        }
    }
}

/// A result or a panic; None when the work budget ended it.
fn outcome(r: Result<Res, String>) -> Option<Result<Res, ()>> {
    match r {
        Ok(r) => Some(Ok(r)),
        Err(m) if over_budget(&m) => None,
        Err(_) => Some(Err(())),
    }
}

fn brief_or(r: &Result<Res, ()>) -> String {
    match r {
        Ok(r) => brief(r),
        Err(()) => "a panic".into(),
    }
}

// ---- P16 ------------------------------------------------------------------------------------

fn p16_gen(src: &mut Src) -> Case {
    let parsing = src.chance(65);
    let mut c = if parsing {
        let hostile = src.chance(25);
        parsing_gen(src, 70, 15, hostile, [40, 40, 20], 2)
    } else {
        analysis_gen(src)
    };
    c.aux = vec![0];
    for _ in 0..src.range(1, 8) {
        c.aux.push(src.raw());
    }
    c
}

#[derive(PartialEq, Debug)]
struct Snap {
    nts: Vec<u16>,
    terms: Vec<u16>,
    first: BTreeMap<u16, Vec<u16>>,
    follow: BTreeMap<u16, Vec<u16>>,
    table: BTreeMap<(u16, u16), Vec<(u16, Vec<u16>)>>,
    parses: Vec<Result<Res, ()>>,
}

enum Snapped {
    Yes(Snap),
    Panics,
    Slow,
}

/// Colliding hashes cost far more comparisons.
const SLOW_SYMBOLS: u64 = 60;

fn snap<R: Rep>(c: &Case, limits: &[Option<u64>]) -> Snapped {
    let rg = match built::<R>(c) {
        Some(g) => g,
        None => return Snapped::Panics,
    };
    let s = guard(SLOW_SYMBOLS * ANALYSIS_BUDGET, || {
        let ff = FirstFollowSymbols::from(&rg);
        let t = RecursiveDescentParserTransitions::from(&rg, &ff);
        let syms = gen::symbols(c);
        let sorted = |v: Vec<R>| {
            let mut v: Vec<u16> = v.iter().map(|s| s.id()).collect();
            v.sort();
            v
        };
        Snap {
            nts: sorted(rg.get_non_terminal_symbols()),
            terms: sorted(rg.get_terminal_symbols()),
            first: syms.iter().filter_map(|s| set_of(ff.get_first_symbols(&R::of(*s))).map(|v| (*s, v))).collect(),
            follow: syms.iter().filter_map(|s| set_of(ff.get_follow_symbols(&R::of(*s))).map(|v| (*s, v))).collect(),
            table: table_of(&t, &syms),
            parses: vec![],
        }
    });
    let mut s = match s {
        Ok(s) => s,
        Err(m) if over_budget(&m) => return Snapped::Slow,
        Err(_) => return Snapped::Panics,
    };
    if limits.iter().any(|l| l.is_some()) {
        let p: Plain<R> = match guard(SLOW_SYMBOLS * ANALYSIS_BUDGET, || RecursiveDescentParser::from_grammar(&rg)) {
            Ok(p) => p,
            Err(m) if over_budget(&m) => return Snapped::Slow,
            Err(_) => return Snapped::Panics,
        };
        for (t, l) in c.inputs.iter().zip(limits) {
            if let Some(l) = l {
                match outcome(guard(SLOW_SYMBOLS * *l, || run::parse(&p, t))) {
                    Some(r) => s.parses.push(r),
                    None => return Snapped::Slow,
                }
            }
        }
    }
    Snapped::Yes(s)
}

fn map_snap(s: &Snap, f: &dyn Fn(u16) -> u16) -> Snap {
    let mv = |v: &Vec<u16>| {
        let mut v: Vec<u16> = v.iter().map(|x| f(*x)).collect();
        v.sort();
        v
    };
    Snap {
        nts: mv(&s.nts),
        terms: mv(&s.terms),
        first: s.first.iter().map(|(k, v)| (f(*k), mv(v))).collect(),
        follow: s.follow.iter().map(|(k, v)| (f(*k), mv(v))).collect(),
        table: s
            .table
            .iter()
            .map(|((a, b), v)| {
                ((f(*a), f(*b)), v.iter().map(|(l, r)| (f(*l), r.iter().map(|x| f(*x)).collect())).collect())
            })
            .collect(),
        parses: s.parses.iter().map(|r| r.as_ref().map(|r| canon::map_res(r, f)).map_err(|_| ())).collect(),
    }
}

fn snap_diff(a: &Snap, b: &Snap) -> String {
    if a.nts != b.nts || a.terms != b.terms {
        return format!("symbol sets {:?}/{:?} vs {:?}/{:?}", a.nts, a.terms, b.nts, b.terms);
    }
    if a.first != b.first {
        return format!("FIRST {:?} vs {:?}", a.first, b.first);
    }
    if a.follow != b.follow {
        return format!("FOLLOW {:?} vs {:?}", a.follow, b.follow);
    }
    if a.table != b.table {
        return format!("candidates {:?} vs {:?}", a.table, b.table);
    }
    for (x, y) in a.parses.iter().zip(&b.parses) {
        if x != y {
            return format!("result {} vs {}", brief_or(x), brief_or(y));
        }
    }
    "other".into()
}

fn p16_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let parseable = !g.left_recursive() && g.is_nt(g.start);
    let limits: Vec<Option<u64>> = c
        .inputs
        .iter()
        .map(|t| {
            if !parseable || t.is_empty() {
                return None;
            }
            let mut m = Model::new(&g, t, MODEL_CAP);
            match search(&mut m) {
                Search::Found(_, _, k) | Search::NotFound(k) => Some(parse_budget(k)),
                Search::TooBig => None,
            }
        })
        .collect();
    let base = match snap::<Num>(c, &limits) {
        Snapped::Yes(s) => s,
        Snapped::Panics => return NO_PARSER,
        Snapped::Slow => return Outcome::Skip("too much work"),
    };
    if limits.iter().any(|l| l.is_some()) {
        o.label("with parses");
    }
    o.nontrivial = g.nts.len() >= 2 && g.prods.len() >= 3;
    macro_rules! other {
        ($r:ty) => {
            match snap::<$r>(c, &limits) {
                Snapped::Yes(s) if s == base => {}
                Snapped::Yes(s) => {
                    fail!("results differ between symbol types (num / {}): {}", <$r>::NAME, snap_diff(&base, &s))
                }
                Snapped::Panics => fail!("panic with symbol type {} only", <$r>::NAME),
                Snapped::Slow => o.label("too much work with another symbol type"),
            }
        };
    }
    other!(Collide);
    other!(Text);
    other!(Tagged);
    other!(sym::Shape);
    // renaming
    let syms: Vec<u16> = gen::symbols(c).into_iter().collect();
    let aux: Vec<u32> = c.aux.iter().skip(1).cloned().collect();
    let p = gen::perm(&aux, syms.len());
    let off = 1000u16;
    let fwd: BTreeMap<u16, u16> = syms.iter().zip(&p).map(|(s, i)| (*s, off + *i as u16)).collect();
    let f = |s: u16| fwd.get(&s).cloned().unwrap_or(s);
    let renamed = Case {
        eps: f(c.eps),
        start: f(c.start),
        prods: c.prods.iter().map(|(l, r)| (f(*l), r.iter().map(|x| f(*x)).collect())).collect(),
        inputs: c.inputs.iter().map(|i| i.iter().map(|t| Tok { t: f(t.t), lex: t.lex }).collect()).collect(),
        aux: vec![],
    };
    match snap::<Num>(&renamed, &limits) {
        Snapped::Yes(s) => {
            let want = map_snap(&base, &f);
            if s != want {
                fail!("renaming the symbols changes results: {}", snap_diff(&want, &s));
            }
        }
        Snapped::Panics => fail!("panic after renaming"),
        Snapped::Slow => o.label("too much work after renaming"),
    }
    // interleaving: permute the slots, keep each non-terminal's own order
    let p = gen::perm(&aux, c.prods.len());
    let mut queues: BTreeMap<u16, std::collections::VecDeque<(u16, Vec<u16>)>> = BTreeMap::new();
    for x in &c.prods {
        queues.entry(x.0).or_default().push_back(x.clone());
    }
    let mut inter = c.clone();
    inter.prods = p.iter().map(|i| queues.get_mut(&c.prods[*i].0).unwrap().pop_front().unwrap()).collect();
    if inter.prods != c.prods {
        o.label("interleaving differs");
    }
    match snap::<Num>(&inter, &limits) {
        Snapped::Yes(s) if s == base => {}
        Snapped::Yes(s) => fail!("listing order across non-terminals changes results: {}", snap_diff(&base, &s)),
        Snapped::Panics => fail!("panic with other listing order"),
        Snapped::Slow => o.label("too much work with other listing order"),
    }
    Outcome::Pass
}

// ---- P17 ------------------------------------------------------------------------------------

fn p17_gen(src: &mut Src) -> Case {
    if src.below(80) == 79 {
        let mut c = gen::deep(src, 1200);
        c.aux = vec![0];
        return c;
    }
    let kind = src.below(100);
    if kind >= 70 {
        let mut c = parsing_gen(src, 60, 0, false, [40, 45, 15], 3);
        c.aux = vec![0];
        c
    } else if kind < 35 {
        let mut c = p07_gen(src);
        c.aux = vec![0];
        c
    } else {
        let fam = gen::family(
            src,
            &[(Family::Tiny, 20), (Family::Mid, 20), (Family::Chain, 20), (Family::Ladder, 25), (Family::Wide, 15)],
        );
        let shape = Shape { eof: src.chance(60), ..Default::default() };
        let mut c = gen::grammar(src, fam, shape);
        c.aux = vec![0];
        c
    }
}

pub fn analysis_bound(g: &Gram) -> u64 {
    let nts = g.nts.len() as u64 + 1;
    let terms = g.terms.len() as u64 + 1;
    let size: u64 = g.prods.iter().map(|p| p.1.len() as u64 + 1).sum::<u64>() + 1;
    let width = g.prods.iter().map(|p| p.1.len() as u64).max().unwrap_or(0) + 1;
    // rounds x symbols visited x set operations per visit (x look-back in a right-hand side)
    2_000 + 6 * (nts + 4) * size * (terms + 8) * width.min(24)
}

pub fn parse_bound(tokens: usize, steps: u64) -> u64 {
    2_000 + 60 * tokens as u64 + 160 * steps
}

fn p17_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let bound = analysis_bound(&g);
    let rg = match built::<Num>(c) {
        Some(g) => g,
        None => return REFUSED,
    };
    let r = guard(bound, || {
        let ff = FirstFollowSymbols::from(&rg);
        let _ = RecursiveDescentParserTransitions::from(&rg, &ff);
    });
    let used = sym::ticks();
    RATIO.with(|x| x.set(x.get().max((used as f64 / bound as f64 * 1e6) as u64)));
    if let Err(m) = r {
        if !over_budget(&m) {
            return Outcome::Skip("analysis panics");
        }
        fail!("analysis of a grammar with {} productions: {} (bound {})", g.prods.len(), m, bound);
    }
    if g.nts.len() >= 10 {
        o.label("ten or more non-terminals");
    }
    if g.left_recursive() {
        o.label("left-recursive");
    }
    o.nontrivial = g.nts.len() >= 3;
    if g.left_recursive() || !g.is_nt(g.start) {
        return Outcome::Pass;
    }
    let ll1 = g.is_ll1();
    with_parser::<Num>(c, Panics::Skip, |p| {
        for t in &c.inputs {
            if t.is_empty() {
                continue;
            }
            let steps = if ll1 {
                model::ll1_parse(&g, t).1
            } else {
                match search(&mut Model::new(&g, t, MODEL_CAP)) {
                    Search::Found(_, _, k) | Search::NotFound(k) => k,
                    Search::TooBig => continue,
                }
            };
            let mut bound = parse_bound(t.len(), steps + 1);
            if !ll1 {
                // each failed candidate may list the rest of its right-hand side
                let width = g.prods.iter().map(|p| p.1.len() as u64).max().unwrap_or(0);
                bound += 10 * width * steps;
            }
            let r = guard(bound, || {
                let toks = run::tokens::<Num>(t);
                let _r = p.parse_from_tokens(toks.into_iter());
            });
            let used = sym::ticks();
            RATIO2.with(|x| x.set(x.get().max((used as f64 / bound as f64 * 1e6) as u64)));
            if let Err(m) = r {
                if !over_budget(&m) {
                    continue;
                }
                fail!(
                    "parsing {} tokens ({} {} steps): {} (bound {})",
                    t.len(), steps, if ll1 { "derivation" } else { "search" }, m, bound
                );
            }
            o.label(if ll1 { "LL(1) parse" } else { "backtracking parse" });
            if !ll1 && steps > 20 * t.len() as u64 {
                o.label("search of more than 20 steps per token");
            }
            if t.len() >= 200 {
                o.label("input of 200 tokens or more");
            }
        }
        Outcome::Pass
    })
}

thread_local! {
    pub static RATIO: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    pub static RATIO3: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    pub static RATIO2: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

// ---- P18 ------------------------------------------------------------------------------------

const LEX0: u64 = 1 << 40;

fn p18_gen(src: &mut Src) -> Case {
    let hostile = src.chance(25);
    let mut c = parsing_gen(src, 70, 20, hostile, [40, 40, 20], 2);
    for _ in 0..src.range(1, 4) {
        let v = if src.chance(50) { src.range(1, 5) as u32 } else { 0 };
        c.aux.push(v);
    }
    c
}

fn relex_node(n: &mut canon::Node, f: &dyn Fn(u64) -> Option<u64>) {
    if let Some(l) = n.l {
        n.l = f(l);
    }
    n.k.iter_mut().for_each(|k| relex_node(k, f));
}
fn relex_f(x: &mut FSym, f: &dyn Fn(u64) -> Option<u64>) {
    for p in x.ps.iter_mut() {
        relex_p(p, f);
    }
}
fn relex_p(p: &mut canon::FProd, f: &dyn Fn(u64) -> Option<u64>) {
    relex_f(&mut p.failed, f);
    for y in p.parsed.iter_mut() {
        match y {
            PSym::Ok(n) => relex_node(n, f),
            PSym::Fix(x) => relex_x(x, f),
        }
    }
}
fn relex_x(x: &mut XSym, f: &dyn Fn(u64) -> Option<u64>) {
    for p in x.parts.iter_mut() {
        match p {
            Part::Ok(n) => relex_node(n, f),
            Part::Fixed(x) => relex_x(x, f),
            Part::Gap(..) => {}
        }
    }
}
fn relex(r: &Res, f: &dyn Fn(u64) -> Option<u64>) -> Res {
    let mut r = r.clone();
    match &mut r {
        Res::Ok(n) => relex_node(n, f),
        Res::Err(x) => relex_f(x, f),
        Res::Fix(x) => relex_x(x, f),
    }
    r
}

fn p18_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    // distinct lexemes as the reference assignment
    let mut base = c.clone();
    for i in base.inputs.iter_mut() {
        for (k, t) in i.iter_mut().enumerate() {
            t.lex = Some(LEX0 + k as u64);
        }
    }
    fn go<R: Rep>(c: &Case, base: &Case, g: &Gram, o: &mut Obs) -> Outcome {
        // tokens themselves
        let toks: Vec<Tok> = c.inputs.iter().flatten().cloned().take(12).collect();
        let r = guard(1_000_000, || {
            let v = run::tokens::<R>(&toks);
            for (a, x) in v.iter().zip(&toks) {
                let k = a.clone();
                if k.lex != x.lex || k.t_type.id() != x.t || a.lex != x.lex || a.t_type.id() != x.t {
                    return Err(format!("token {:?} is cloned to ({}, {:?})", x, k.t_type.id(), k.lex));
                }
                for (b, y) in v.iter().zip(&toks) {
                    if (a == b) != (x.t == y.t) || (a != b) == (x.t == y.t) {
                        return Err(format!("tokens {:?} and {:?} compare equal: {}", x, y, a == b));
                    }
                }
            }
            Ok(())
        });
        match r {
            Err(m) => fail!("panic: {}", m),
            Ok(Err(m)) => fail!("{}", m),
            _ => {}
        }
        let rg = match built::<R>(c) {
            Some(x) => x,
            None => return REFUSED,
        };
        let p: Plain<R> = match guard(ANALYSIS_BUDGET, || RecursiveDescentParser::from_grammar(&rg)) {
            Ok(x) => x,
            Err(_) => return NO_PARSER,
        };
        let mut ran = false;
        for (t, b) in c.inputs.iter().zip(&base.inputs) {
            if t.is_empty() {
                continue;
            }
            let types: Vec<u16> = t.iter().map(|x| x.t).collect();
            let mut m = Model::new(g, b, MODEL_CAP);
            let cost = match search(&mut m) {
                Search::Found(_, _, k) | Search::NotFound(k) => k,
                Search::TooBig => continue,
            };
            let limit = parse_budget(cost);
            let f = |l: u64| {
                if l >= LEX0 && l < LEX0 + t.len() as u64 {
                    t[(l - LEX0) as usize].lex
                } else {
                    Some(l)
                }
            };
            let rb = match outcome(guard(limit, || run::parse(&p, b))) {
                Some(r) => r,
                None => continue,
            };
            if let Ok(rb) = &rb {
                let mut leaves = 0;
                if let Err(e) = true_lexemes(g, b, rb, &mut leaves) {
                    fail!("input {:?}: {}", types, e);
                }
                match rb {
                    Res::Ok(_) => o.label("tree"),
                    _ if leaves > 0 => o.label("error with tokens in it"),
                    _ => {}
                }
                if leaves >= 2 {
                    o.nontrivial = true;
                }
            }
            for variant in 0..2 {
                let t2: Vec<Tok> = if variant == 0 {
                    t.clone()
                } else {
                    t.iter().map(|x| Tok { t: x.t, lex: None }).collect()
                };
                let f2 = |l: u64| if variant == 0 { f(l) } else if l >= LEX0 && l < MARK { None } else { Some(l) };
                let r2 = match outcome(guard(limit, || run::parse(&p, &t2))) {
                    Some(r) => r,
                    None => continue,
                };
                let want = rb.as_ref().map(|r| relex(r, &f2)).map_err(|_| ());
                if r2 != want {
                    fail!(
                        "input {:?}: other lexemes change the result to {}, expected {}",
                        types, brief_or(&r2), brief_or(&want)
                    );
                }
                let sb = guard(ANALYSIS_BUDGET + 20 * limit, || run::parse_solving::<R>(&rg, b, plan(c)));
                let s2 = guard(ANALYSIS_BUDGET + 20 * limit, || run::parse_solving::<R>(&rg, &t2, plan(c)));
                match (sb, s2) {
                    (Ok((rb, lb)), Ok((r2, l2))) => {
                        let want = relex(&rb, &f2);
                        if r2 != want {
                            fail!(
                                "input {:?}: with a solver, other lexemes change the result to {}, expected {}",
                                types, brief(&r2), brief(&want)
                            );
                        }
                        let same = lb.len() == l2.len()
                            && lb.iter().zip(&l2).all(|(x, y)| {
                                let mut q = x.cands.clone();
                                q.iter_mut().for_each(|p| relex_p(p, &f2));
                                x.pos == y.pos && q == y.cands && y.tokens == t2
                            });
                        if !same {
                            fail!("input {:?}: other lexemes change what the solver is asked", types);
                        }
                        if let Res::Fix(_) = rb {
                            o.label("fixed result");
                        }
                        let mut leaves = 0;
                        if let Err(e) = true_lexemes(g, b, &rb, &mut leaves) {
                            fail!("input {:?}, with a solver: {}", types, e);
                        }
                    }
                    (Err(a), Err(b)) if !over_budget(&a) && !over_budget(&b) => o.label("panics with solver"),
                    (Err(m), _) | (_, Err(m)) if over_budget(&m) => {}
                    (Err(m), _) | (_, Err(m)) => {
                        fail!("input {:?}: with a solver, other lexemes make the difference between a panic and none: {}", types, m)
                    }
                }
            }
            ran = true;
        }
        if ran {
            Outcome::Pass
        } else {
            Outcome::Skip("search space too large")
        }
    }
    with_rep!(c, go(c, &base, &g, o))
}

/// Every leaf with a lexeme shows the type and lexeme of one input token, at most once per tree,
/// and trees hold consecutive tokens. (Lexemes in `toks` are distinct.)
fn true_lexemes(g: &Gram, toks: &[Tok], r: &Res, leaves: &mut usize) -> Result<(), String> {
    fn tree(g: &Gram, toks: &[Tok], n: &canon::Node, next: &mut Option<u64>, leaves: &mut usize) -> Result<(), String> {
        if g.is_nt(n.s) || n.s == g.eps {
            if n.l.is_some() {
                return Err(format!("node {} carries a lexeme", n.s));
            }
        } else {
            *leaves += 1;
            let Some(l) = n.l else { return Err(format!("a leaf {} lost its lexeme", n.s)) };
            let k = l.wrapping_sub(LEX0);
            if k >= toks.len() as u64 || toks[k as usize].t != n.s {
                return Err(format!("a leaf {} carries lexeme {}, which no such token has", n.s, l));
            }
            if next.map(|x| x != l).unwrap_or(false) {
                return Err(format!("a leaf {} carries the lexeme of token {}, out of order", n.s, k));
            }
            *next = Some(l + 1);
        }
        n.k.iter().try_for_each(|k| tree(g, toks, k, next, leaves))
    }
    fn fsym(g: &Gram, toks: &[Tok], f: &FSym, leaves: &mut usize) -> Result<(), String> {
        for p in &f.ps {
            for x in &p.parsed {
                match x {
                    PSym::Ok(n) => tree(g, toks, n, &mut None, leaves)?,
                    PSym::Fix(x) => xsym(g, toks, x, leaves)?,
                }
            }
            fsym(g, toks, &p.failed, leaves)?;
        }
        Ok(())
    }
    fn xsym(g: &Gram, toks: &[Tok], x: &XSym, leaves: &mut usize) -> Result<(), String> {
        if marker(&x.parts).is_some() {
            return Ok(());
        }
        for p in &x.parts {
            match p {
                Part::Ok(n) => tree(g, toks, n, &mut None, leaves)?,
                Part::Fixed(y) => xsym(g, toks, y, leaves)?,
                Part::Gap(..) => {}
            }
        }
        Ok(())
    }
    match r {
        Res::Ok(n) => {
            // the tree starts at the first token
            let mut next = Some(LEX0);
            tree(g, toks, n, &mut next, leaves)
        }
        Res::Err(f) => fsym(g, toks, f, leaves),
        Res::Fix(x) => xsym(g, toks, x, leaves),
    }
}

// ---- P19 ------------------------------------------------------------------------------------

fn p19_gen(src: &mut Src) -> Case {
    let fam = gen::family(
        src,
        &[(Family::Tiny, 28), (Family::Mid, 24), (Family::Chain, 20), (Family::Conflict, 8), (Family::Wide, 4), (Family::Operators, 16)],
    );
    let rep = rep_choice(src);
    let shape = Shape { eof: src.chance(75), no_left_recursion: true, productive: true, ll1: true };
    let mut c = gen::grammar(src, fam, shape);
    c.aux = vec![rep];
    let g = Gram::new(&c);
    let hostile = src.chance(25);
    for _ in 0..3 {
        let o = TokOpts {
            budget: src.pick(&[2, 4, 8, 16, 30]),
            cap: 40,
            keep_eof: true,
            hostile,
            weights: [20, 65, 15],
        };
        let t = gen::token_types(src, &g, &o);
        let t = gen::lexemes(src, &t);
        if !t.is_empty() {
            c.inputs.push(t);
        }
    }
    for _ in 0..src.range(1, 5) {
        c.aux.push(src.raw());
    }
    c
}

/// Where a parse with single candidates was decided: the number of tokens it took before it
/// ended, following the only failed production downwards in an error.
fn decided_at(g: &Gram, r: &Res) -> Option<usize> {
    match r {
        Res::Ok(n) => Some(canon::leaf_count(g, n)),
        Res::Err(f) => {
            let (mut f, mut at) = (f, 0);
            while let [p] = f.ps.as_slice() {
                for x in &p.parsed {
                    match x {
                        PSym::Ok(n) => at += canon::leaf_count(g, n),
                        PSym::Fix(_) => return None,
                    }
                }
                f = &p.failed;
            }
            f.ps.is_empty().then_some(at)
        }
        Res::Fix(_) => None,
    }
}

fn p19_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    if !g.is_ll1() {
        return Outcome::Skip("not LL(1)");
    }
    if g.heights().len() < g.nts.len() {
        return Outcome::Skip("unproductive symbols");
    }
    fn go<R: Rep>(c: &Case, g: &Gram, o: &mut Obs) -> Outcome {
        with_parser::<R>(c, Panics::Skip, |p| {
            for t in &c.inputs {
                if t.is_empty() || t.len() > 60 {
                    continue;
                }
                let types: Vec<u16> = t.iter().map(|x| x.t).collect();
                let (want, steps) = model::ll1_parse(g, t);
                let limit = parse_budget(10 * steps + 300);
                let Ok(r) = guard(limit, || run::parse(p, t)) else { continue };
                let at = match decided_at(g, &r) {
                    Some(x) => x,
                    None => fail!("input {:?}: the error does not lead to one failed symbol: {}", types, brief(&r)),
                };
                if let Res::Err(_) = &r {
                    // the longest prefix that some sentence starts with
                    let ch = Chart::new(g, &types);
                    let viable = ch.viable(g, &types);
                    if at != viable {
                        fail!(
                            "input {:?}: the error is at token {}, but the first token no sentence can have there is {}: {}",
                            types, at, viable, brief(&r)
                        );
                    }
                    assert!(want.is_none(), "oracle disagreement on {}", c.brief());
                    o.label(if at == t.len() { "error at the end of input" } else { "error inside the input" });
                    if at >= 2 {
                        o.nontrivial = true;
                    }
                } else {
                    o.label("accepted input");
                }
                // nothing after the deciding token matters
                if at >= t.len() {
                    continue;
                }
                let mut alphabet: Vec<u16> = g.terms.iter().cloned().collect();
                alphabet.push(999);
                for k in 0..4usize {
                    let mut more = Src::grown(c.aux.get(1 + k % c.aux.len().max(1)).cloned().unwrap_or(7).wrapping_add(k as u32 * 7919));
                    let mut v = t[..=at].to_vec();
                    for _ in 0..if k == 0 { 0 } else { more.below(t.len() - at + 6) } {
                        v.push(Tok { t: more.pick(&alphabet), lex: Some(more.raw() as u64) });
                    }
                    let vt: Vec<u16> = v.iter().map(|x| x.t).collect();
                    let Ok(q) = guard(limit + 600 * v.len() as u64, || run::parse(p, &v)) else { continue };
                    if q != r {
                        fail!(
                            "inputs {:?} and {:?} are decided at token {} yet give different results: {} and {}",
                            types, vt, at, brief(&r), brief(&q)
                        );
                    }
                    if at + 1 < t.len() {
                        o.label("tail changed");
                    }
                }
            }
            Outcome::Pass
        })
    }
    with_rep!(c, go(c, &g, o))
}

// ---- P20 ------------------------------------------------------------------------------------

fn p20_gen(src: &mut Src) -> Case {
    let mut c = if src.chance(70) {
        let ll1 = if src.chance(50) { 100 } else { 15 };
        parsing_gen(src, 75, ll1, false, [55, 30, 15], 2)
    } else {
        let mut c = analysis_gen(src);
        c.inputs.clear();
        c
    };
    c.aux.truncate(1);
    c.aux.push(src.below(4) as u32);
    c.aux.push(src.pick(&[0, 2, 6, 15, 35, 60]));
    c.aux.push(src.raw());
    c
}

/// The sets handed to the code under test: those of the grammar with random changes, or (mode 3)
/// any sets at all.
fn given_sets(c: &Case, g: &Gram) -> (BTreeMap<u16, BTreeSet<u16>>, BTreeMap<u16, BTreeSet<u16>>) {
    let mode = c.aux.get(1).cloned().unwrap_or(0) % 4;
    let pct = c.aux.get(2).cloned().unwrap_or(0).min(100) as usize;
    let mut src = Src::grown(c.aux.get(3).cloned().unwrap_or(0));
    let terms: Vec<u16> = g.terms.iter().cloned().filter(|t| *t != g.eps).collect();
    let mut first: BTreeMap<u16, BTreeSet<u16>> = BTreeMap::new();
    let mut follow = BTreeMap::new();
    for t in &g.terms {
        first.insert(*t, [*t].into());
    }
    for n in &g.nts {
        let mut f = if mode == 3 { BTreeSet::new() } else { g.first[n].clone() };
        let mut e = mode != 3 && g.nullable.contains(n);
        let mut w = if mode == 3 { BTreeSet::new() } else { g.follow[n].clone() };
        for t in &terms {
            // 0: more, 1: less, 2: both
            for s in [&mut f, &mut w] {
                if src.chance(pct) {
                    if s.contains(t) {
                        if mode != 0 {
                            s.remove(t);
                        }
                    } else if mode != 1 {
                        s.insert(*t);
                    }
                }
            }
        }
        if src.chance(pct) {
            e = match mode {
                0 => true,
                1 => false,
                _ => !e,
            };
        }
        if e {
            f.insert(g.eps);
        }
        first.insert(*n, f);
        follow.insert(*n, w);
    }
    // entries no grammar symbol needs: FOLLOW of terminals, sets of a symbol unknown to the grammar
    if src.chance(25) {
        for k in g.terms.iter().cloned().chain([998]) {
            if src.chance(50) {
                follow.insert(k, terms.iter().cloned().filter(|_| src.chance(40)).collect());
            }
        }
        first.insert(998, terms.iter().cloned().filter(|_| src.chance(40)).collect());
    }
    (first, follow)
}

fn p20_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let (first, follow) = given_sets(c, &g);
    // the predictive table of these sets
    let mut given = g.clone();
    given.table.clear();
    for a in &g.nts {
        for i in &g.by_lhs[a] {
            let mut on: BTreeSet<u16> = BTreeSet::new();
            let mut nullable = true;
            for s in &g.prods[*i].1 {
                on.extend(first[s].iter().cloned().filter(|t| *t != g.eps));
                if !first[s].contains(&g.eps) {
                    nullable = false;
                    break;
                }
            }
            if nullable {
                on.extend(follow[a].iter().cloned());
            }
            for t in on {
                given.table.entry((*a, t)).or_default().push(*i);
            }
        }
    }
    if given.table != g.table {
        o.label("other candidates than the grammar's own");
        o.nontrivial = g.nts.len() >= 2;
    }
    let parseable = !g.left_recursive() && g.is_nt(g.start);
    type Sets = BTreeMap<u16, BTreeSet<u16>>;
    fn go<R: Rep>(c: &Case, g: &Gram, given: &Gram, first: &Sets, follow: &Sets, parseable: bool, o: &mut Obs) -> Outcome {
        let rg = match built::<R>(c) {
            Some(x) => x,
            None => return REFUSED,
        };
        let to_map = |m: &Sets| -> std::collections::HashMap<R, std::collections::HashSet<R>> {
            m.iter().map(|(k, v)| (R::of(*k), v.iter().map(|x| R::of(*x)).collect())).collect()
        };
        let mut syms = gen::symbols(c);
        syms.insert(998);
        syms.insert(999);
        let r = guard(ANALYSIS_BUDGET, || {
            let ff = FirstFollowSymbols::new(to_map(first), to_map(follow));
            for s in &syms {
                for (what, got, want) in [
                    ("FIRST", set_of(ff.get_first_symbols(&R::of(*s))), first.get(s)),
                    ("FOLLOW", set_of(ff.get_follow_symbols(&R::of(*s))), follow.get(s)),
                ] {
                    let want: Vec<u16> = want.map(|x| x.iter().cloned().collect()).unwrap_or_default();
                    if got.clone().unwrap_or_default() != want {
                        return Err(format!("the {} set given for {} is {:?}, the one returned {:?}", what, s, want, got));
                    }
                }
            }
            let t = RecursiveDescentParserTransitions::from(&rg, &ff);
            let got = table_of(&t, &syms);
            for a in &syms {
                for b in &syms {
                    let want: Vec<(u16, Vec<u16>)> =
                        given.cands(*a, Some(*b)).iter().map(|i| g.prods[*i].clone()).collect();
                    let have = got.get(&(*a, *b)).cloned().unwrap_or_default();
                    if have != want {
                        return Err(format!(
                            "with FIRST {:?} and FOLLOW {:?} given, the candidates for {} on {} are {:?}, expected {:?}",
                            first, follow, a, b, have, want
                        ));
                    }
                }
            }
            Ok(())
        });
        match r {
            Err(m) => fail!("panic: {}", m),
            Ok(Err(m)) => fail!("{}", m),
            _ => {}
        }
        if !parseable || c.inputs.is_empty() {
            return Outcome::Pass;
        }
        let p: Plain<R> = match guard(ANALYSIS_BUDGET, || {
            let ff = FirstFollowSymbols::new(to_map(first), to_map(follow));
            // the sets need not outlive the construction
            RecursiveDescentParser::from_grammar_and_first_follow_symbols(&rg, &ff)
        }) {
            Ok(p) => p,
            Err(m) => fail!("parser construction panics: {}", m),
        };
        let choices = given.table.values().any(|v| v.len() > 1);
        for t in &c.inputs {
            if t.is_empty() {
                continue;
            }
            let types: Vec<u16> = t.iter().map(|x| x.t).collect();
            let mut m = Model::new(given, t, MODEL_CAP);
            let s = search(&mut m);
            let cost = match &s {
                Search::Found(_, _, k) | Search::NotFound(k) => *k,
                Search::TooBig => continue,
            };
            let Ok(r) = guard(parse_budget(cost), || run::parse(&p, t)) else { continue };
            match (&s, &r) {
                (Search::Found(n, _, _), Res::Ok(m)) if n == m => o.label("accepted input"),
                (Search::Found(n, _, _), r) => fail!(
                    "input {:?}, with FIRST {:?} and FOLLOW {:?} given: {}, expected the tree {:?}",
                    types, first, follow, brief(r), n
                ),
                (_, Res::Ok(n)) if choices => {
                    // a more thorough search than the reference's
                    if let Err(e) = canon::tree(g, t, n, g.start, 0) {
                        fail!("input {:?}: {}", types, e);
                    }
                }
                (_, Res::Ok(_)) => fail!(
                    "input {:?} is accepted although FIRST {:?} and FOLLOW {:?} given allow no such parse",
                    types, first, follow
                ),
                (_, Res::Err(_)) => o.label("rejected input"),
                (_, Res::Fix(_)) => fail!("fixed result without solver"),
            }
        }
        Outcome::Pass
    }
    with_rep!(c, go(c, &g, &given, &first, &follow, parseable, o))
}

// ---- registry -------------------------------------------------------------------------------

// ---- P21 ------------------------------------------------------------------------------------

enum Att {
    /// end, tree, and the number of the outcome after this one (no other outcome: None)
    Ok(usize, Rc<MNode>, Option<usize>),
    Fix(usize, XSym),
    Err,
}

/// The fixing attempt, replayed against a recorded consultation log: the search of `Model`, with
/// the solver asked wherever a symbol reached through single candidates fails. The answers are
/// those of the log; every difference in what is asked, or when, is an error.
struct Replay<'m, 'a, 'l> {
    m: &'m mut Model<'a>,
    log: &'l [Call],
    next: usize,
    steps: u64,
    dropped: bool,
}

impl Replay<'_, '_, '_> {
    fn consult(&mut self, s: u16, pos: usize, cands: &[usize]) -> Result<Att, Bad> {
        let i = self.next;
        let rhs: Vec<&Vec<u16>> = cands.iter().map(|c| &self.m.g.prods[*c].1).collect();
        let call = match self.log.get(i) {
            Some(c) => c,
            None => {
                return Err(Bad::No(format!(
                    "after {} consultations symbol {} fails at token {} and the solver is not asked",
                    i, s, pos
                )))
            }
        };
        let got: Vec<Vec<u16>> = call.cands.iter().map(|p| p.rhs()).collect();
        if call.pos != pos || call.plural != (cands.len() != 1) || got.iter().collect::<Vec<_>>() != rhs {
            return Err(Bad::No(format!(
                "consultation {} should be for symbol {} at token {} with candidates {:?}, it is for token {} with {:?}",
                i, s, pos, rhs, call.pos, got
            )));
        }
        self.next += 1;
        Ok(match &call.answer {
            Some((end, parts)) => Att::Fix(*end, XSym { s, parts: parts.clone() }),
            None => Att::Err,
        })
    }

    fn attempt(&mut self, s: u16, pos: usize) -> Result<Att, Bad> {
        self.steps += 1;
        if self.steps > MODEL_CAP {
            return Err(Bad::Big);
        }
        let g = self.m.g;
        if !g.is_nt(s) {
            return Ok(match self.m.outcomes(s, pos)?.list.first() {
                Some((end, n)) => Att::Ok(*end, n.clone(), None),
                None => Att::Err,
            });
        }
        let cands = g.cands(s, self.m.toks.get(pos).map(|t| t.t)).to_vec();
        if cands.len() != 1 {
            let o = self.m.outcomes(s, pos)?;
            return match o.list.first() {
                Some((end, n)) => Ok(Att::Ok(*end, n.clone(), Some(1))),
                None => self.consult(s, pos, &cands),
            };
        }
        struct St {
            from: usize,
            end: usize,
            next: Option<usize>,
            part: Result<Rc<MNode>, XSym>,
        }
        let rhs = &g.prods[cands[0]].1;
        let mut done: Vec<St> = vec![];
        while done.len() < rhs.len() {
            let at = done.last().map(|x| x.end).unwrap_or(pos);
            match self.attempt(rhs[done.len()], at)? {
                Att::Ok(end, n, next) => done.push(St { from: at, end, next, part: Ok(n) }),
                Att::Fix(end, x) => done.push(St { from: at, end, next: None, part: Err(x) }),
                Att::Err => loop {
                    self.steps += 1;
                    let x = match done.pop() {
                        Some(x) => x,
                        None => return self.consult(s, pos, &cands),
                    };
                    if x.part.is_err() {
                        self.dropped = true;
                    }
                    if let Some(k) = x.next {
                        let o = self.m.outcomes(rhs[done.len()], x.from)?;
                        if let Some((end, n)) = o.list.get(k) {
                            done.push(St { from: x.from, end: *end, next: Some(k + 1), part: Ok(n.clone()) });
                            break;
                        }
                    }
                },
            }
        }
        let end = done.last().map(|x| x.end).unwrap_or(pos);
        if done.iter().all(|x| x.part.is_ok()) {
            let k = done.into_iter().map(|x| x.part.unwrap()).collect();
            return Ok(Att::Ok(end, Rc::new(MNode { s, l: None, k }), None));
        }
        let parts = done
            .into_iter()
            .map(|x| match x.part {
                Ok(n) => Part::Ok(n.to_node()),
                Err(x) => Part::Fixed(x),
            })
            .collect();
        Ok(Att::Fix(end, XSym { s, parts }))
    }
}

fn p21_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut obs = Obs::default();
    let pl = plan(c).to_vec();
    let r = {
        let mut f = |_t: &[Tok],
                     m: &mut Model,
                     plain: &Res,
                     solved: &dyn Fn(&[u32]) -> Result<(Res, Vec<Call>), String>|
         -> Result<(), Bad> {
            if let Res::Ok(_) = plain {
                obs.label("valid input");
                return Ok(());
            }
            for q in [&pl[..], &[0][..], &[28, 0][..], &[2, 28][..], &[0, 3, 0, 28][..], &[60, 0][..]] {
                let (r, log) = solved(q).map_err(fixing_panics)?;
                let mut w = Replay { m, log: &log, next: 0, steps: 0, dropped: false };
                let want = w.attempt(g.start, 0)?;
                let (asked, dropped) = (w.next, w.dropped);
                if asked < log.len() {
                    let k = &log[asked];
                    return Err(Bad::No(format!(
                        "the solver is asked {} times instead of {}: consultation {} at token {} with {:?} has no failed symbol behind it",
                        log.len(),
                        asked,
                        asked,
                        k.pos,
                        k.cands.iter().map(|p| p.rhs()).collect::<Vec<_>>()
                    )));
                }
                match (&want, &r) {
                    (Att::Err, Res::Err(_)) => {}
                    (Att::Fix(_, x), Res::Fix(y)) if x == y => {
                        obs.label("fixed result");
                    }
                    (Att::Ok(_, n, _), Res::Ok(y)) if &n.to_node() == y => {}
                    _ => {
                        return Err(Bad::No(format!(
                            "with these answers the result is {}, the search with them in place gives {}",
                            brief(&r),
                            match &want {
                                Att::Err => "an error".into(),
                                Att::Ok(..) => "success".into(),
                                Att::Fix(_, x) => brief(&Res::Fix(x.clone())),
                            }
                        )))
                    }
                }
                if dropped {
                    obs.label("accepted fix dropped later");
                }
                if log.iter().filter(|k| k.answer.is_some()).count() >= 2 {
                    obs.label("several fixes accepted");
                }
                if log.iter().any(|k| k.answer.is_some()) && log.iter().any(|k| k.answer.is_none()) {
                    obs.label("accepted and declined consultations");
                    obs.nontrivial = true;
                }
            }
            Ok(())
        };
        with_rep!(c, each_solved(c, &g, &mut f))
    };
    *o = obs;
    r
}

// ---- P22 ------------------------------------------------------------------------------------

/// Marks a case that stands for two inputs of one shape; the next number chooses the shape.
const SCALED: u32 = 1_000_001;

fn p22_gen(src: &mut Src) -> Case {
    if src.below(100) == 99 {
        let seed = src.raw();
        let mut c = gen::scaled(seed, 30);
        c.aux = vec![0, SCALED, seed];
        return c;
    }
    if src.below(60) == 59 {
        return gen::deep(src, 1200);
    }
    if src.chance(60) {
        p17_gen(src)
    } else {
        parsing_gen(src, 60, 25, false, [40, 45, 15], 3)
    }
}

/// Bytes granted to the analysis of a grammar.
fn analysis_heap(g: &Gram) -> u64 {
    let symbols = (g.nts.len() + g.terms.len()) as u64 + 4;
    let size: u64 = g.prods.iter().map(|p| p.1.len() as u64 + 1).sum::<u64>() + 1;
    20_000 + 400 * (symbols + size) * (g.terms.len() as u64 + 8)
}

/// Bytes granted to a parse; what failed is kept, so a search may use more per step.
fn parse_heap(ll1: bool, tokens: usize, steps: u64) -> u64 {
    20_000 + if ll1 { 8_000 } else { 16_000 } * (tokens as u64 + steps)
}

const ROUNDS: usize = 40;
const GROWTH: i64 = 2_000;

/// Sixteen times the input must not need much more than sixteen times the memory.
fn p22_scaled(seed: u32, o: &mut Obs) -> Outcome {
    let mut used = vec![];
    for n in [400, 6400] {
        let c = gen::scaled(seed, n);
        let g = Gram::new(&c);
        assert!(g.is_ll1() && !g.left_recursive(), "scaled grammar is not LL(1): {}", c.brief());
        let rg = match built::<Num>(&c) {
            Some(g) => g,
            None => return REFUSED,
        };
        let solve = seed % 3 == 0;
        let t = &c.inputs[0];
        let steps = model::ll1_parse(&g, t).1;
        let r = guard(2 * (ANALYSIS_BUDGET + parse_budget(steps)), || {
            let p: run::Plain<Num> = match solve {
                true => RecursiveDescentParser::from_grammar_and_solver(&rg, run::NoSolver),
                false => RecursiveDescentParser::from_grammar(&rg),
            };
            heap::peak(|| {
                let _r = p.parse_from_tokens(t.iter().map(|x| run::token::<Num>(x)));
            })
            .1
        });
        match r {
            Ok(b) => used.push((b, t.len() as u64 + steps)),
            Err(_) => return PANICS,
        }
    }
    let ((a, x), (b, y)) = (used[0], used[1]);
    let grant = (a + 2_000) * 5 * y.div_ceil(x);
    RATIO3.with(|r| r.set(r.get().max((b as f64 / grant as f64 * 1e6) as u64)));
    if b > grant {
        fail!(
            "parsing inputs of one shape: {} bytes for {} tokens and derivation steps, {} bytes for {}",
            a, x, b, y
        );
    }
    o.label("one shape at two sizes");
    o.nontrivial = true;
    Outcome::Pass
}

fn p22_check(c: &Case, o: &mut Obs) -> Outcome {
    if c.aux.get(1) == Some(&SCALED) {
        return p22_scaled(c.aux.get(2).cloned().unwrap_or(0), o);
    }
    let g = match analysis_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let rg = match built::<Num>(c) {
        Some(g) => g,
        None => return REFUSED,
    };
    let analysis = || {
        guard(ANALYSIS_BUDGET, || {
            let ff = FirstFollowSymbols::from(&rg);
            let _ = RecursiveDescentParserTransitions::from(&rg, &ff);
        })
    };
    let bound = analysis_heap(&g);
    let (r, used) = heap::peak(analysis);
    if r.is_err() {
        return Outcome::Skip("analysis panics");
    }
    RATIO.with(|x| x.set(x.get().max((used as f64 / bound as f64 * 1e6) as u64)));
    if used > bound {
        fail!(
            "the analysis of a grammar with {} productions needs {} bytes (bound {})",
            g.prods.len(), used, bound
        );
    }
    o.nontrivial = g.nts.len() >= 3;
    let work = sym::ticks();
    let small = work < 100_000;
    let grow = |what: &str, f: &mut dyn FnMut() -> bool| -> Result<(), String> {
        let mut at = 0;
        for i in 0..ROUNDS + 3 {
            if !f() {
                return Ok(());
            }
            if i == 2 {
                at = heap::live();
            }
        }
        let more = heap::live() - at;
        if more > GROWTH {
            return Err(format!("{}: {} bytes more in use after {} repetitions", what, more, ROUNDS));
        }
        Ok(())
    };
    if small {
        let mut f = || {
            guard(ANALYSIS_BUDGET, || {
                let g2 = run::grammar::<Num>(c);
                let p: Plain<Num> = RecursiveDescentParser::from_grammar(&g2);
                let q: Plain<Num> = RecursiveDescentParser::from_grammar_and_solver(&g2, run::NoSolver);
                drop((p, q));
            })
            .is_ok()
        };
        if let Err(e) = grow("grammars and parsers built and dropped", &mut f) {
            return Outcome::Fail(e);
        }
    }
    if g.left_recursive() || !g.is_nt(g.start) {
        return Outcome::Pass;
    }
    let ll1 = g.is_ll1();
    let q: run::Plain<Num> = match guard(ANALYSIS_BUDGET, || RecursiveDescentParser::from_grammar_and_solver(&rg, run::NoSolver)) {
        Ok(q) => q,
        Err(_) => return NO_PARSER,
    };
    let skipper = run::Skipper(c.inputs.iter().map(|t| t.len()).sum());
    let fixing: RecursiveDescentParser<u64, Num, run::Skipper> =
        match guard(ANALYSIS_BUDGET, || RecursiveDescentParser::from_grammar_and_solver(&rg, skipper)) {
            Ok(q) => q,
            Err(_) => return NO_PARSER,
        };
    let mut fixed = false;
    let mut repeated: Vec<(Vec<Tok>, u64)> = vec![];
    let r = with_parser::<Num>(c, Panics::Skip, |p| {
        for t in &c.inputs {
            if t.is_empty() {
                continue;
            }
            let mut m = Model::new(&g, t, MODEL_CAP);
            let steps = if ll1 {
                model::ll1_parse(&g, t).1
            } else {
                match search(&mut m) {
                    Search::Found(_, _, k) | Search::NotFound(k) => k,
                    Search::TooBig => continue,
                }
            };
            drop(m);
            let limit = parse_budget(steps);
            for (name, q) in [("", p), (" with a declining solver", &q)] {
                let bound = parse_heap(ll1, t.len(), steps + 2);
                let (r, used) = heap::peak(|| {
                    guard(2 * limit, || {
                        let _r = q.parse_from_tokens(t.iter().map(|x| run::token::<Num>(x)));
                    })
                });
                if r.is_err() {
                    break;
                }
                RATIO2.with(|x| x.set(x.get().max((used as f64 / bound as f64 * 1e6) as u64)));
                if used > bound {
                    fail!(
                        "parsing {} tokens ({} derivation steps){} needs {} bytes (bound {})",
                        t.len(), steps, name, used, bound
                    );
                }
            }
            if steps + t.len() as u64 <= 2_000 {
                repeated.push((t.clone(), limit));
            }
            if t.len() >= 200 {
                o.label("input of 200 tokens or more");
            }
            o.label(if ll1 { "LL(1) parse" } else { "backtracking parse" });
        }
        let mut f = || {
            repeated.iter().all(|(t, limit)| {
                guard(4 * *limit, || {
                    for q in [p, &q] {
                        let _r = q.parse_from_tokens(t.iter().map(|x| run::token::<Num>(x)));
                    }
                })
                .is_ok()
            })
        };
        if let Err(e) = grow("parses whose results were dropped", &mut f) {
            return Outcome::Fail(e);
        }
        let mut f = || {
            repeated.iter().all(|(t, limit)| {
                guard(20 * *limit, || {
                    let r = fixing.parse_from_tokens(t.iter().map(|x| run::token::<Num>(x)));
                    fixed |= matches!(r, artlr_syntax::parser::parse_result::ParseResult::Fix(_));
                })
                .is_ok()
            })
        };
        match grow("parses with fixes whose results were dropped", &mut f) {
            Ok(()) => Outcome::Pass,
            Err(e) => Outcome::Fail(e),
        }
    });
    if fixed {
        o.label("fixed results dropped");
    }
    r
}

// ---- P23 ------------------------------------------------------------------------------------

fn p23_gen(src: &mut Src) -> Case {
    let n = src.range(1, 120);
    let aux: Vec<u32> = (0..n).map(|_| src.below(1 << 16) as u32).collect();
    let t: Vec<Tok> = (0..src.range(2, 8))
        .map(|_| Tok { t: src.below(6) as u16, lex: if src.chance(70) { Some(src.below(4) as u64) } else { None } })
        .collect();
    let mut c = p02_gen(src);
    c.inputs = vec![t];
    c.aux = aux;
    c
}

/// Decodes results of every shape from the auxiliary numbers, together with their expected form.
struct Values<'a> {
    aux: &'a [u32],
    next: usize,
}

impl Values<'_> {
    fn take(&mut self, n: u32) -> u32 {
        let v = self.aux.get(self.next).copied().unwrap_or(0);
        self.next += 1;
        v % n
    }
    fn count(&mut self, depth: usize) -> usize {
        if depth > 5 || self.next >= self.aux.len() {
            return 0;
        }
        match self.take(40) as usize {
            0 => 12 + self.take(300) as usize,
            n @ 1..=3 => 3 + n,
            n => n % 4,
        }
    }
    fn token(&mut self) -> (canon::Node, Token<u64, Num>) {
        let (s, l) = (self.take(9) as u16, self.take(5));
        let l = if l == 0 { None } else { Some(l as u64) };
        (canon::Node { s, l, k: vec![] }, Token::new(l, Num::of(s)))
    }
    fn node(&mut self, d: usize) -> (canon::Node, AbstractSyntaxNode<Token<u64, Num>>) {
        let (mut want, t) = self.token();
        let mut kids = vec![];
        for _ in 0..self.count(d) {
            let (w, n) = self.node(d + 1);
            want.k.push(w);
            kids.push(n);
        }
        (want, AbstractSyntaxNode::new(kids, t))
    }
    fn fixed(&mut self, d: usize) -> (XSym, FixedSymbol<u64, Num>) {
        let s = self.take(9) as u16;
        let mut want = XSym { s, parts: vec![] };
        let mut parts = vec![];
        for _ in 0..self.count(d) {
            match self.take(3) {
                0 => {
                    let (w, n) = self.node(d + 1);
                    want.parts.push(Part::Ok(w));
                    parts.push(FixedProductionPart::Ok(n));
                }
                1 => {
                    let (w, x) = self.fixed(d + 1);
                    want.parts.push(Part::Fixed(w));
                    parts.push(FixedProductionPart::Fixed(x));
                }
                _ => {
                    let (a, b) = (self.take(5) as u64, self.take(9) as u16);
                    want.parts.push(Part::Gap(vec![a, a + 1], vec![b]));
                    parts.push(FixedProductionPart::Gap(FixGap {
                        skipped_tokens: vec![a, a + 1],
                        skipped_symbols: vec![Num::of(b)],
                    }));
                }
            }
        }
        (want, FixedSymbol::new(FixedProduction::new(parts), Num::of(s)))
    }
    fn failed(&mut self, d: usize) -> (FSym, FailedSymbol<u64, Num>) {
        let s = self.take(9) as u16;
        let mut want = FSym { s, ps: vec![] };
        let mut ps = vec![];
        for _ in 0..self.count(d) {
            let (w, f) = self.failed(d + 1);
            let mut p = canon::FProd { failed: Box::new(w), parsed: vec![], pending: vec![] };
            let mut parsed = vec![];
            for _ in 0..self.count(d) {
                if self.take(2) == 0 {
                    let (w, n) = self.node(d + 1);
                    p.parsed.push(PSym::Ok(w));
                    parsed.push(ProductionParsedSymbol::Ok(n));
                } else {
                    let (w, x) = self.fixed(d + 1);
                    p.parsed.push(PSym::Fix(w));
                    parsed.push(ProductionParsedSymbol::Fix(x));
                }
            }
            for _ in 0..self.count(d) {
                p.pending.push(self.take(9) as u16);
            }
            let pending = p.pending.iter().map(|s| Num::of(*s)).collect();
            want.ps.push(p);
            ps.push(FailedProduction::new(f, parsed, pending));
        }
        (want, FailedSymbol::new(ps, Num::of(s)))
    }
}

/// A lexeme that can be cloned and nothing else.
struct Opaque(String);
impl Clone for Opaque {
    fn clone(&self) -> Self {
        Opaque(self.0.clone())
    }
}

/// A type with values that differ from themselves.
#[derive(Clone)]
struct Odd(u16);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.0 == o.0 && self.0 % 3 != 2
    }
}

fn p23_values(c: &Case, o: &mut Obs) -> Result<(), String> {
    let toks = c.inputs.first().map(|t| &t[..]).unwrap_or(&[]);
    for a in toks {
        for b in toks {
            let opaque = |x: &Tok| Token::new(x.lex.map(|l| Opaque(l.to_string())), Num::of(x.t));
            let odd = |x: &Tok| Token::new(x.lex, Odd(x.t));
            let (x, y) = (opaque(a), opaque(b));
            if (x == y) != (a.t == b.t) || (x != y) != (a.t != b.t) {
                return Err(format!("tokens {:?} and {:?}: == is {}, != is {}", a, b, x == y, x != y));
            }
            let (x, y) = (odd(a), odd(b));
            let same = x.t_type == y.t_type;
            if (x == y) != same || (x != y) == same {
                return Err(format!(
                    "tokens {:?} and {:?} of types that are {}equal: == is {}, != is {}",
                    a, b, if same { "" } else { "not " }, x == y, x != y
                ));
            }
        }
        let x = Token::new(a.lex.map(|l| Opaque(l.to_string())), Text::of(a.t));
        let mut y = x.clone();
        let z = y.clone();
        if let Some(l) = &mut y.lex {
            l.0.push('!');
        }
        for k in [&x, &z] {
            if k.lex.as_ref().map(|l| l.0.clone()) != a.lex.map(|l| l.to_string()) || k.t_type.id() != a.t {
                return Err(format!("token {:?} or its clone changed", a));
            }
        }
    }
    for (l, r) in &c.prods {
        let p = ContextFreeGrammarProduction::new(Num::of(*l), r.iter().map(|s| Num::of(*s)).collect());
        let mut q = p.clone();
        let k = q.clone();
        q.output.push(Num::of(3));
        q.input = Num::of(4);
        for x in [&p, &k] {
            if x.input.id() != *l || x.output.iter().map(|s| s.id()).collect::<Vec<_>>() != *r {
                return Err(format!("production {} -> {:?} or its clone changed", l, r));
            }
        }
    }
    let mut v = Values { aux: &c.aux, next: 0 };
    let (want, n) = v.node(0);
    let tree = AbstractSyntaxTree::new(n);
    let got = canon::node(&tree.root);
    if got != want {
        return Err(format!("a tree built as {:?} reads {:?}", want, got));
    }
    let (want, x) = v.fixed(0);
    let got = canon::xsym(&x);
    if got != want {
        return Err(format!("a fixed symbol built as {:?} reads {:?}", want, got));
    }
    let (want, f) = v.failed(0);
    let got = canon::fsym(&f);
    if got != want {
        return Err(format!("a failed symbol built as {:?} reads {:?}", want, got));
    }
    if want.ps.len() >= 2 {
        o.label("failed symbol with several productions");
        o.nontrivial = true;
    }
    Ok(())
}

fn p23_check(c: &Case, o: &mut Obs) -> Outcome {
    match guard(ANALYSIS_BUDGET, || p23_values(c, o)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(e) => fail!("panic: {}", e),
    }
}

// ---- P24 ------------------------------------------------------------------------------------

fn p24_gen(src: &mut Src) -> Case {
    if src.below(800) == 799 {
        return gen::deep(src, 3000);
    }
    if src.below(4000) == 3999 {
        return gen::flat(src);
    }
    let eof = src.pick(&[0, 0, 0, 100]);
    let hostile = src.chance(40);
    let mut c = parsing_gen(src, eof, 10, hostile, [50, 30, 20], 3);
    // more input after what is likely to be parsed already
    let g = Gram::new(&c);
    let known: Vec<u16> = g.terms.iter().cloned().filter(|t| *t != g.eps).collect();
    for t in c.inputs.iter_mut() {
        if !src.chance(50) {
            continue;
        }
        let n = src.pick(&[1, 1, 2, 3, 6, 20]);
        for k in 0..n {
            let ty = match src.below(8) {
                0 => gen::EOF,
                1 => t[src.below(t.len())].t,
                2 => 990,
                _ if known.is_empty() => gen::EOF,
                _ => known[src.below(known.len())],
            };
            t.push(Tok { t: ty, lex: Some(7000 + k as u64) });
        }
    }
    c
}

fn p24_check(c: &Case, o: &mut Obs) -> Outcome {
    let g = match parse_domain(c) {
        Ok(g) => g,
        Err(x) => return x,
    };
    let mut obs = Obs::default();
    let r = {
        let mut f = |t: &[Tok], _m: &mut Model, s: &Search, res: Res| -> Result<(), Bad> {
            parse_labels(&g, s, &mut obs);
            long_label(t, &mut obs);
            match (s, &res) {
                (Search::Found(n, end, cost), Res::Ok(m)) => {
                    if m != n {
                        return Err(Bad::No(format!(
                            "the tree is not the one of the ordered search: {:?}, expected {:?}",
                            m, n
                        )));
                    }
                    if *end < t.len() {
                        obs.label("tokens left unread");
                        obs.nontrivial = true;
                    }
                    if !g.is_ll1() && *cost > 2 * canon::node_count(n) as u64 {
                        obs.label("accepted after backtracking");
                    }
                    if *end == 0 {
                        obs.label("empty derivation accepted");
                    }
                }
                (Search::Found(..), r) => {
                    return Err(Bad::No(format!("a prefix derives but is not parsed: {}", brief(r))))
                }
                (Search::NotFound(_), Res::Ok(n)) => {
                    // a search that finds more than required still has to find a derivation
                    canon::tree(&g, t, n, g.start, 0)?;
                }
                (Search::NotFound(_), Res::Err(_)) => {}
                (Search::NotFound(_), r) => return Err(Bad::No(format!("neither tree nor error: {}", brief(r)))),
                (Search::TooBig, _) => {}
            }
            Ok(())
        };
        with_rep!(c, each_input(c, &g, Panics::Fail, &mut f))
    };
    *o = obs;
    r
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "P01", rule: "production lists from seven grammar families, 55% corrupted at random places; non-trivial: at least two productions", gen: p01_gen, check: p01_check, quick: 60_000, thorough: 1_500_000, genes: 260, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P02", rule: "well-formed production lists with duplicates and interleavings, queried for every known and an unknown symbol; non-trivial: at least three productions", gen: p02_gen, check: p02_check, quick: 30_000, thorough: 800_000, genes: 260, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P03", rule: "grammars from seven families (cyclic, left-recursive, nullable-heavy, long chains); non-trivial: at least two non-terminals and a right-hand side starting with a non-terminal", gen: analysis_gen, check: p03_check, quick: 30_000, thorough: 800_000, genes: 260, small: (Small::Grammars, [2, 0], [3, 0]) },
        Prop { id: "P04", rule: "grammars from seven families (cyclic, left-recursive, nullable-heavy, long chains); non-trivial: a non-terminal in a right-hand side of two or more symbols", gen: analysis_gen, check: p04_check, quick: 30_000, thorough: 800_000, genes: 260, small: (Small::Grammars, [2, 0], [3, 0]) },
        Prop { id: "P05", rule: "grammars from seven families, every pair of symbols (unknown ones included); non-trivial: at least two non-terminals and a nullable symbol", gen: analysis_gen, check: p05_check, quick: 20_000, thorough: 500_000, genes: 260, small: (Small::Grammars, [2, 0], [3, 0]) },
        Prop { id: "P06", rule: "non-left-recursive grammars x sentences, mutated sentences and random tokens; non-trivial: an accepted input whose tree has at least five nodes", gen: p06_gen, check: p06_check, quick: 20_000, thorough: 500_000, genes: 340, small: (Small::Marked, [2, 4], [3, 4]) },
        Prop { id: "P07", rule: "grammars repaired to LL(1) with an end marker x sentences and non-sentences up to thousands of tokens; non-trivial: an input of at least four tokens decided", gen: p07_gen, check: p07_check, quick: 20_000, thorough: 500_000, genes: 420, small: (Small::Marked, [2, 4], [3, 4]) },
        Prop { id: "P08", rule: "end-marked non-left-recursive grammars, mostly with conflicts x end-marked inputs; non-trivial: a conflicting grammar whose input is accepted after backtracking or rejected after exhausting the search", gen: p08_gen, check: p08_check, quick: 25_000, thorough: 600_000, genes: 340, small: (Small::Marked, [2, 4], [3, 4]) },
        Prop { id: "P09", rule: "non-left-recursive grammars x hostile token streams (truncated, foreign, epsilon, non-terminal, repeated end markers), start symbols without productions; non-trivial: an input that is not an end-marked sequence of known terminals", gen: p09_gen, check: p09_check, quick: 25_000, thorough: 600_000, genes: 380, small: (Small::Raw, [2, 3], [2, 5]) },
        Prop { id: "P10", rule: "non-left-recursive grammars x mostly invalid inputs; non-trivial: an error with a parsed non-terminal or a failure nested two levels", gen: p10_gen, check: p10_check, quick: 25_000, thorough: 600_000, genes: 340, small: (Small::Marked, [2, 4], [3, 4]) },
        Prop { id: "P11", rule: "non-left-recursive grammars x mostly invalid inputs; non-trivial: an error with a parsed non-terminal or a failure nested two levels", gen: p10_gen, check: p11_check, quick: 25_000, thorough: 600_000, genes: 340, small: (Small::Marked, [2, 4], [3, 4]) },
        Prop { id: "P12", rule: "grammar x input x solver answers; non-trivial: valid input of a conflicting grammar, or invalid input with at least two declined consultations", gen: p12_gen, check: p12_check, quick: 12_000, thorough: 300_000, genes: 340, small: (Small::Marked, [2, 4], [2, 7]) },
        Prop { id: "P13", rule: "grammar x invalid input x solver answers; non-trivial: at least two consultations", gen: p13_gen, check: p13_check, quick: 25_000, thorough: 600_000, genes: 340, small: (Small::Marked, [2, 4], [2, 7]) },
        Prop { id: "P14", rule: "grammar x invalid input x fixing solver; non-trivial: a fixed result with the fix below the initial symbol", gen: p14_gen, check: p14_check, quick: 12_000, thorough: 300_000, genes: 340, small: (Small::Marked, [2, 4], [2, 7]) },
        Prop { id: "P15", rule: "histories of 2 to 14 parse calls (valid, invalid, refused, repeated) on one parser, each compared with fresh parsers of all constructors; non-trivial: at least two parses compared", gen: p15_gen, check: p15_check, quick: 4_000, thorough: 100_000, genes: 420, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P16", rule: "grammar x inputs under five symbol types, a random renaming and a random interleaving; non-trivial: at least two non-terminals and three productions", gen: p16_gen, check: p16_check, quick: 6_000, thorough: 150_000, genes: 340, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P17", rule: "scaled grammars (analysis), LL(1) and conflicting grammars x inputs up to thousands of tokens (parsing), symbol operations counted; non-trivial: at least three non-terminals", gen: p17_gen, check: p17_check, quick: 15_000, thorough: 400_000, genes: 420, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P18", rule: "grammar x inputs x lexeme assignments, with and without solver; non-trivial: a tree or error that holds at least two tokens", gen: p18_gen, check: p18_check, quick: 8_000, thorough: 250_000, genes: 340, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P19", rule: "LL(1) grammars without unproductive symbols x mutated sentences, each re-parsed with its tail after the deciding token dropped or replaced; non-trivial: an error at the third token or later", gen: p19_gen, check: p19_check, quick: 20_000, thorough: 500_000, genes: 380, small: (Small::Marked, [2, 4], [3, 4]) },
        Prop { id: "P20", rule: "grammars with FIRST/FOLLOW sets that are extended, reduced, flipped or arbitrary, all symbol pairs and inputs; non-trivial: at least two non-terminals and a table other than the grammar's own", gen: p20_gen, check: p20_check, quick: 20_000, thorough: 500_000, genes: 340, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P21", rule: "grammar x invalid input x solver answers, replayed in a reference search; non-trivial: a fixing attempt with accepted and declined consultations", gen: p14_gen, check: p21_check, quick: 12_000, thorough: 400_000, genes: 340, small: (Small::Marked, [2, 4], [2, 7]) },
        Prop { id: "P22", rule: "scaled grammars (analysis), inputs up to thousands of tokens (parsing), heap bytes counted at the peak and across 40 repetitions; non-trivial: at least three non-terminals", gen: p22_gen, check: p22_check, quick: 4_000, thorough: 100_000, genes: 420, small: (Small::No, [0, 0], [0, 0]) },
        Prop { id: "P24", rule: "non-left-recursive grammars, three in four without end marker x inputs with more tokens after a sentence; non-trivial: a success that leaves tokens unread", gen: p24_gen, check: p24_check, quick: 25_000, thorough: 600_000, genes: 380, small: (Small::Raw, [2, 3], [3, 3]) },
        Prop { id: "P23", rule: "tokens, productions, trees, failed and fixed symbols of random shapes, built, cloned, compared and read back; non-trivial: a failed symbol with at least two productions", gen: p23_gen, check: p23_check, quick: 20_000, thorough: 500_000, genes: 340, small: (Small::No, [0, 0], [0, 0]) },
    ]
}
