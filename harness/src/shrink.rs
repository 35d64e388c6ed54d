//! Structural minimisation of a failing case.

use crate::case::Case;
use std::time::{Duration, Instant};

pub fn shrink(start: Case, msg: String, fails: &mut dyn FnMut(&Case) -> Option<String>) -> (Case, String) {
    let mut best = start;
    let mut message = msg;
    let deadline = Instant::now() + Duration::from_secs(30);
    let left = std::cell::Cell::new(6000u32);
    let spent = || left.get() == 0 || Instant::now() > deadline;
    // cloning a large case for a candidate that is not tried any more is slow as well
    macro_rules! next {
        ($best:ident, $message:ident) => {
            if spent() {
                return ($best, $message);
            }
        };
    }
    let mut attempt = |c: Case, best: &mut Case, message: &mut String| -> bool {
        if spent() || c == *best {
            return false;
        }
        left.set(left.get() - 1);
        match fails(&c) {
            Some(m) => {
                *best = c;
                *message = m;
                true
            }
            None => false,
        }
    };
    loop {
        let before = best.clone();
        // inputs
        let mut i = 0;
        while i < best.inputs.len() {
            next!(best, message);
            let mut c = best.clone();
            c.inputs.remove(i);
            if !attempt(c, &mut best, &mut message) {
                i += 1;
            }
        }
        // productions, in chunks and one by one
        let mut chunk = best.prods.len() / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i + chunk <= best.prods.len() {
                next!(best, message);
                let mut c = best.clone();
                c.prods.drain(i..i + chunk);
                if !attempt(c, &mut best, &mut message) {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        // tokens
        for n in 0..best.inputs.len() {
            let mut chunk = best.inputs[n].len() / 2;
            while chunk >= 1 {
                let mut i = 0;
                while i + chunk <= best.inputs[n].len() {
                    next!(best, message);
                    let mut c = best.clone();
                    c.inputs[n].drain(i..i + chunk);
                    if !attempt(c, &mut best, &mut message) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // right-hand sides
        for p in 0..best.prods.len() {
            next!(best, message);
            let mut c = best.clone();
            c.prods[p].1 = vec![c.eps];
            attempt(c, &mut best, &mut message);
            let mut i = 0;
            while i < best.prods[p].1.len() {
                next!(best, message);
                let mut c = best.clone();
                c.prods[p].1.remove(i);
                if !attempt(c, &mut best, &mut message) {
                    i += 1;
                }
            }
        }
        // auxiliary choices
        next!(best, message);
        let mut c = best.clone();
        c.aux.iter_mut().for_each(|a| *a = 0);
        attempt(c, &mut best, &mut message);
        for i in (0..best.aux.len()).rev() {
            next!(best, message);
            let mut c = best.clone();
            c.aux.remove(i);
            if !attempt(c, &mut best, &mut message) && best.aux[i] != 0 {
                for v in [0, 1, best.aux[i] / 2] {
                    next!(best, message);
                    let mut c = best.clone();
                    c.aux[i] = v;
                    if v < best.aux[i] && attempt(c, &mut best, &mut message) {
                        break;
                    }
                }
            }
        }
        // lexemes
        next!(best, message);
        let mut c = best.clone();
        c.inputs.iter_mut().flatten().for_each(|t| t.lex = None);
        if !attempt(c, &mut best, &mut message) {
            next!(best, message);
            let mut c = best.clone();
            c.inputs.iter_mut().for_each(|v| v.iter_mut().enumerate().for_each(|(k, t)| t.lex = Some(k as u64)));
            attempt(c, &mut best, &mut message);
        }
        // fewer symbols
        let syms: Vec<u16> = crate::gen::symbols(&best).into_iter().collect();
        for a in syms.iter().rev() {
            for b in &syms {
                if b >= a || *a == best.eps || *b == best.eps {
                    continue;
                }
                next!(best, message);
                let mut c = best.clone();
                let f = |s: &mut u16| {
                    if s == a {
                        *s = *b
                    }
                };
                f(&mut c.start);
                c.prods.iter_mut().for_each(|(l, r)| {
                    f(l);
                    r.iter_mut().for_each(f)
                });
                c.inputs.iter_mut().flatten().for_each(|t| f(&mut t.t));
                if attempt(c, &mut best, &mut message) {
                    break;
                }
            }
        }
        if best == before {
            return (best, message);
        }
    }
}
