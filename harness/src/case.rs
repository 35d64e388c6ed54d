//! A test case: a grammar, token sequences and auxiliary choices, plus its text form.

use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    pub t: u16,
    pub lex: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case {
    pub eps: u16,
    pub start: u16,
    pub prods: Vec<(u16, Vec<u16>)>,
    pub inputs: Vec<Vec<Tok>>,
    pub aux: Vec<u32>,
}

impl Case {
    pub fn size(&self) -> usize {
        self.prods.iter().map(|(_, r)| r.len() + 1).sum()
    }

    pub fn types(&self, i: usize) -> Vec<u16> {
        self.inputs[i].iter().map(|t| t.t).collect()
    }

    pub fn to_text(&self, property: &str, message: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "# replay: /verif/check.sh replay <this file>");
        for l in message.lines() {
            let _ = writeln!(s, "# {}", l);
        }
        let _ = writeln!(s, "property {}", property);
        let _ = writeln!(s, "epsilon {}", self.eps);
        let _ = writeln!(s, "start {}", self.start);
        for (l, r) in &self.prods {
            let r: Vec<String> = r.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(s, "prod {} -> {}", l, r.join(" "));
        }
        for i in &self.inputs {
            let r: Vec<String> = i
                .iter()
                .map(|x| match x.lex {
                    Some(l) => format!("{}:{}", x.t, l),
                    None => format!("{}", x.t),
                })
                .collect();
            let _ = writeln!(s, "input {}", r.join(" "));
        }
        if !self.aux.is_empty() {
            let r: Vec<String> = self.aux.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(s, "aux {}", r.join(" "));
        }
        s
    }

    pub fn from_text(text: &str) -> Result<(String, Case), String> {
        let mut c = Case::default();
        let mut prop = String::new();
        let num = |x: &str| x.parse::<u16>().map_err(|e| format!("{}: {}", x, e));
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            match k {
                "property" => prop = v.to_string(),
                "epsilon" => c.eps = num(v)?,
                "start" => c.start = num(v)?,
                "prod" => {
                    let (l, r) = v.split_once("->").ok_or("bad prod")?;
                    let mut out = vec![];
                    for x in r.split_whitespace() {
                        out.push(num(x)?);
                    }
                    c.prods.push((num(l.trim())?, out));
                }
                "input" => {
                    let mut out = vec![];
                    for x in v.split_whitespace() {
                        match x.split_once(':') {
                            Some((t, l)) => out.push(Tok {
                                t: num(t)?,
                                lex: Some(l.parse::<u64>().map_err(|e| e.to_string())?),
                            }),
                            None => out.push(Tok { t: num(x)?, lex: None }),
                        }
                    }
                    c.inputs.push(out);
                }
                "aux" => {
                    for x in v.split_whitespace() {
                        c.aux.push(x.parse::<u32>().map_err(|e| e.to_string())?);
                    }
                }
                _ => return Err(format!("unknown line: {}", line)),
            }
        }
        Ok((prop, c))
    }

    /// Compact one-line form for evidence samples.
    pub fn brief(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "eps={} start={} prods=", self.eps, self.start);
        for (i, (l, r)) in self.prods.iter().enumerate() {
            if i == 14 {
                let _ = write!(s, "... ({} productions)", self.prods.len());
                break;
            }
            let r: Vec<String> = r.iter().map(|x| x.to_string()).collect();
            let _ = write!(s, "[{}->{}]", l, r.join(" "));
        }
        for (i, inp) in self.inputs.iter().enumerate() {
            if i == 3 {
                let _ = write!(s, " ... ({} inputs)", self.inputs.len());
                break;
            }
            let r: Vec<String> = inp.iter().take(24).map(|x| x.t.to_string()).collect();
            let _ = write!(s, " input({})={}", inp.len(), r.join(" "));
        }
        if !self.aux.is_empty() {
            let _ = write!(s, " aux={:?}", &self.aux[..self.aux.len().min(8)]);
        }
        s
    }
}
