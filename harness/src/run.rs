//! Running the code under test through its public API.

use crate::canon::{self, FProd, Part, Res};
use crate::case::{Case, Tok};
use crate::sym::{self, Rep};
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local!(static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) });

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} ({})", m, at));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<T>(limit: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(|| sym::with_budget(limit, f)));
    sym::clear_budget();
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn productions<R: Rep>(prods: &[(u16, Vec<u16>)]) -> Vec<ContextFreeGrammarProduction<R>> {
    prods
        .iter()
        .map(|(l, r)| ContextFreeGrammarProduction::new(R::of(*l), r.iter().map(|s| R::of(*s)).collect()))
        .collect()
}

pub fn grammar<R: Rep>(c: &Case) -> ContextFreeGrammar<R> {
    ContextFreeGrammar::new(R::of(c.eps), R::of(c.start), productions(&c.prods))
}

pub fn token<R: Rep>(t: &Tok) -> Token<u64, R> {
    Token::new(t.lex, R::of(t.t))
}

pub fn tokens<R: Rep>(t: &[Tok]) -> Vec<Token<u64, R>> {
    t.iter().map(token).collect()
}

/// Solver type for parsers without solver.
pub struct NoSolver;
impl<R> SyntaxErrorSolver<u64, R> for NoSolver {
    fn fix_failed_production(
        &self,
        _: &Vec<Token<u64, R>>,
        _: usize,
        _: &FailedProduction<u64, R>,
    ) -> Option<FixResult<u64, R>> {
        None
    }
    fn fix_failed_productions(
        &self,
        _: &Vec<Token<u64, R>>,
        _: usize,
        _: &Vec<FailedProduction<u64, R>>,
    ) -> Option<FixResult<u64, R>> {
        None
    }
}

/// Solver that fixes by skipping tokens at three positions of four, and keeps nothing.
pub struct Skipper(pub usize);

impl Skipper {
    fn skip<R: Rep>(&self, tokens: &Vec<Token<u64, R>>, pos: usize, symbol: &R) -> Option<FixResult<u64, R>> {
        if (pos + self.0) % 4 == 0 {
            return None;
        }
        let end = tokens.len().min(pos + 1 + self.0 % 2).max(pos);
        Some(FixResult {
            final_token_position: end,
            production: FixedProduction::new(vec![FixedProductionPart::Gap(FixGap {
                skipped_tokens: vec![pos as u64],
                skipped_symbols: vec![symbol.clone()],
            })]),
        })
    }
}

impl<R: Rep> SyntaxErrorSolver<u64, R> for Skipper {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<u64, R>>,
        pos: usize,
        f: &FailedProduction<u64, R>,
    ) -> Option<FixResult<u64, R>> {
        self.skip(tokens, pos, &f.failed_symbol.symbol_to_derive)
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<u64, R>>,
        pos: usize,
        f: &Vec<FailedProduction<u64, R>>,
    ) -> Option<FixResult<u64, R>> {
        match f.first() {
            Some(f) => self.skip(tokens, pos, &f.failed_symbol.symbol_to_derive),
            None => tokens.get(pos).and_then(|t| self.skip(tokens, pos, &t.t_type)),
        }
    }
}

pub type Plain<'a, R> = RecursiveDescentParser<'a, u64, R, NoSolver>;

pub fn parse<R: Rep>(p: &Plain<R>, t: &[Tok]) -> Res {
    canon::res(&p.parse_from_tokens(tokens::<R>(t).into_iter()))
}

pub const MARK: u64 = 1 << 60;

#[derive(Clone, Debug)]
pub struct Call {
    pub plural: bool,
    pub pos: usize,
    pub tokens: Vec<Tok>,
    pub cands: Vec<FProd>,
    pub answer: Option<(usize, Vec<Part>)>,
}

/// Solver that records every consultation. Answers are a pure function of `plan` and the call
/// number: 0 declines, 0 < v < 10 fixes with final position min(len, pos + v - 1), v >= 10 skips to
/// the next token of terminal v % 10 (20 <= v < 40 only when asked for a later position than the
/// first token); 40 <= v < 50 goes v - 39 tokens back (at most six times), 50 <= v < 60 beyond the
/// end, v >= 60 fixes with an empty production, its final position a function of the position asked.
/// It does not answer more than three times at one position without progress.
pub struct Recorder {
    pub plan: Vec<u32>,
    pub log: Rc<RefCell<Vec<Call>>>,
}

impl Recorder {
    fn answer<R: Rep>(
        &self,
        plural: bool,
        tokens: &Vec<Token<u64, R>>,
        pos: usize,
        cands: Vec<FProd>,
    ) -> Option<FixResult<u64, R>> {
        let size: usize = cands.iter().map(canon::fprod_size).sum();
        let mut log = self.log.borrow_mut();
        // the log is searched below
        sym::charge(20 * (tokens.len() + size) as u64 + log.len() as u64 / 4);
        let id = log.len();
        let mut v = if self.plan.is_empty() { 0 } else { self.plan[id % self.plan.len()] };
        // answering without consuming anything again and again never ends on recursive grammars
        if (v == 1 || v >= 10) && log.iter().filter(|k| k.pos == pos && k.answer.as_ref().map(|a| a.0) == Some(pos)).count() >= 3 {
            v = 0;
        }
        if (20..40).contains(&v) && pos == 0 {
            v = 0;
        }
        let back = |k: &&Call| k.answer.as_ref().map(|a| a.0 < k.pos) == Some(true);
        if (40..50).contains(&v) && log.iter().filter(back).count() >= 6 {
            v = 0;
        }
        let mut call = Call {
            plural,
            pos,
            tokens: tokens.iter().map(|t| Tok { t: t.t_type.id(), lex: t.lex }).collect(),
            cands,
            answer: None,
        };
        let r = if v == 0 {
            None
        } else {
            let last = if v >= 60 {
                tokens.len().min(pos + pos % 3).max(pos)
            } else if v >= 50 {
                if v % 2 == 0 { tokens.len() + 2 } else { usize::MAX / 2 }
            } else if v >= 40 {
                pos.saturating_sub(v as usize - 39)
            } else if v >= 10 {
                let k = (v % 10) as u16;
                let sync = if k >= 8 { crate::gen::EOF } else { crate::gen::T0 + k };
                (pos..tokens.len()).find(|i| tokens[*i].t_type.id() == sync).unwrap_or(tokens.len())
            } else {
                tokens.len().min(pos + (v as usize - 1))
            };
            let last = if (40..50).contains(&v) { last } else { last.max(pos) };
            let gap = |id: u64| {
                FixedProductionPart::Gap(FixGap {
                    skipped_tokens: vec![MARK + id],
                    skipped_symbols: vec![R::of(7)],
                })
            };
            let mut parts = vec![gap(id as u64)];
            if v % 2 == 0 {
                parts.push(FixedProductionPart::Ok(AbstractSyntaxNode::new(
                    vec![],
                    Token::new(Some(id as u64), R::of(8)),
                )));
            }
            if v % 3 == 0 {
                parts.push(FixedProductionPart::Fixed(FixedSymbol::new(
                    FixedProduction::new(vec![]),
                    R::of(9),
                )));
            }
            if v % 5 == 0 {
                parts.push(gap(id as u64));
            }
            if v >= 60 {
                parts.clear();
            }
            let production = FixedProduction::new(parts);
            call.answer = Some((last, canon::xparts(&production)));
            Some(FixResult { final_token_position: last, production })
        };
        log.push(call);
        r
    }
}

impl<R: Rep> SyntaxErrorSolver<u64, R> for Recorder {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<u64, R>>,
        tokens_position: usize,
        failed_production: &FailedProduction<u64, R>,
    ) -> Option<FixResult<u64, R>> {
        self.answer(false, tokens, tokens_position, vec![canon::fprod(failed_production)])
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<u64, R>>,
        tokens_position: usize,
        failed_productions: &Vec<FailedProduction<u64, R>>,
    ) -> Option<FixResult<u64, R>> {
        self.answer(
            true,
            tokens,
            tokens_position,
            failed_productions.iter().map(canon::fprod).collect(),
        )
    }
}

/// A recorder that does something else first at every consultation.
pub struct Acting<'x> {
    pub inner: Recorder,
    pub act: Box<dyn Fn(usize) + 'x>,
}

impl<'x, R: Rep> SyntaxErrorSolver<u64, R> for Acting<'x> {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<u64, R>>,
        tokens_position: usize,
        failed_production: &FailedProduction<u64, R>,
    ) -> Option<FixResult<u64, R>> {
        let n = self.inner.log.borrow().len();
        (self.act)(n);
        self.inner.fix_failed_production(tokens, tokens_position, failed_production)
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<u64, R>>,
        tokens_position: usize,
        failed_productions: &Vec<FailedProduction<u64, R>>,
    ) -> Option<FixResult<u64, R>> {
        let n = self.inner.log.borrow().len();
        (self.act)(n);
        self.inner.fix_failed_productions(tokens, tokens_position, failed_productions)
    }
}

/// Parse with a recording solver; a fresh parser per call.
pub fn parse_solving<R: Rep>(g: &ContextFreeGrammar<R>, t: &[Tok], plan: &[u32]) -> (Res, Vec<Call>) {
    let log = Rc::new(RefCell::new(vec![]));
    let p: RecursiveDescentParser<u64, R, Recorder> = RecursiveDescentParser::from_grammar_and_solver(
        g,
        Recorder { plan: plan.to_vec(), log: log.clone() },
    );
    let r = canon::res(&p.parse_from_tokens(tokens::<R>(t).into_iter()));
    let l = log.borrow().clone();
    (r, l)
}
