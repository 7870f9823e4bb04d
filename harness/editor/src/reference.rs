//! C37: a parser of its own. It cuts a row into tokens first, and then arranges them by strength.
use crate::parsing::any_formula_of;
use crate::syntax::*;
use monitor_common::*;
use std::collections::HashMap;
use unicode_ident::{is_xid_continue, is_xid_start};

fn leaf(name: &str, row: &[MNode], start: usize, end: usize) -> T {
    let symbols = row[start..end].iter().map(|n| n.as_sym().unwrap_or_default().to_string()).collect();
    T { name: name.into(), start, end, kids: K::Leaf(symbols) }
}
/// A node around others
fn node(name: &str, kids: Vec<T>) -> T {
    T { name: name.into(), start: kids[0].start, end: kids[kids.len() - 1].end, kids: K::Kids(kids) }
}
fn missing(at: usize) -> T {
    T { name: "Error::MissingToken".into(), start: at, end: at, kids: K::Kids(vec![]) }
}
fn missing_operator(a: T, b: T) -> T {
    let gap = missing(a.end);
    node("Error::MissingOperator", vec![a, gap, b])
}

enum Token {
    Operand(T),
    /// Symbols that nothing is known about
    Unknown(T),
    Prefix(OpDef, T),
    Infix(OpDef, T),
    Postfix(String, (u16, bool), T),
}

pub struct Reference<'a> {
    pub language: &'a Language,
}

struct Row<'a> {
    language: &'a Language,
    row: &'a [MNode],
    /// What starts with an opening bracket, and where it ends
    brackets: HashMap<usize, Option<(T, usize)>>,
    containers: HashMap<usize, T>,
}

impl Reference<'_> {
    pub fn parse(&self, row: &[MNode]) -> T {
        let mut r = Row { language: self.language, row, brackets: HashMap::new(), containers: HashMap::new() };
        let (tokens, end) = r.tokens(0, None);
        assert!(end == row.len());
        arrange(tokens, 0, end)
    }
}

impl Row<'_> {
    fn sym(&self, at: usize) -> Option<&str> {
        self.row.get(at).and_then(|n| n.as_sym())
    }
    fn spaces(&self, mut at: usize) -> usize {
        while self.sym(at) == Some(" ") {
            at += 1;
        }
        at
    }
    /// With the spaces around it
    fn spaced(&self, from: usize, t: T) -> (T, usize) {
        let end = self.spaces(t.end);
        let mut kids = vec![];
        if from < t.start {
            kids.push(leaf("BuiltIn::Whitespace", self.row, from, t.start));
        }
        let at = t.end;
        kids.push(t);
        if at < end {
            kids.push(leaf("BuiltIn::Whitespace", self.row, at, end));
        }
        let t = if kids.len() == 1 { kids.remove(0) } else { node("BuiltIn::Whitespaces", kids) };
        (t, end)
    }
    fn container(&mut self, at: usize, name: &str) -> Option<T> {
        let Body::Cont(_, width, cells) = &self.row[at].body else { return None };
        let language = self.language;
        let mut t = self.containers.entry(at).or_insert_with(|| {
            let rows: Vec<T> = cells.iter().map(|c| Reference { language }.parse(c)).collect();
            let height = if *width == 0 { 0 } else { rows.len() / width };
            T { name: String::new(), start: at, end: at + 1, kids: K::Rows(*width, height, rows) }
        }).clone();
        t.name = name.into();
        Some(t)
    }
    fn kind(&self, at: usize) -> Option<Kind> {
        match self.row.get(at).map(|n| &n.body) {
            Some(Body::Cont(kind, ..)) => Some(*kind),
            _ => None,
        }
    }
    fn script(&mut self, at: usize) -> Option<(&'static str, T)> {
        let name = match self.kind(at)? {
            Kind::Sub => "BuiltIn::Sub",
            Kind::Sup => "BuiltIn::Sup",
            _ => return None,
        };
        Some((name, self.container(at, "BuiltIn::Operator")?))
    }
    fn operator(&mut self, from: usize, wanted: &[Fix]) -> Option<(OpDef, T, usize)> {
        self.operator_of(&self.language.ops, from, wanted)
    }
    fn operator_of(&mut self, ops: &[OpDef], from: usize, wanted: &[Fix]) -> Option<(OpDef, T, usize)> {
        let at = self.spaces(from);
        let op = ops.iter().rev().find(|op| wanted.contains(&op.fix) && op.symbols.iter().enumerate().all(|(i, s)| self.sym(at + i) == Some(s)))?;
        let (mut t, mut end) = self.spaced(from, leaf("BuiltIn::Operator", self.row, at, at + op.symbols.len()));
        if op.fix != Fix::Postfix {
            while let Some((name, script)) = self.script(end) {
                let (script, after) = self.spaced(end, script);
                t = node(name, vec![t, script]);
                end = after;
            }
        }
        Some((op.clone(), t, end))
    }
    fn postfix(&mut self, from: usize) -> Option<(String, (u16, bool), T, usize)> {
        let (before, behind) = self.language.ops.split_at(self.language.calls_at);
        if let Some((op, t, end)) = self.operator_of(behind, from, &[Fix::Postfix]) {
            return Some((op.name.clone(), (op.strength, true), t, end));
        }
        let at = self.spaces(from);
        if let Some((name, script)) = self.script(at) {
            let (t, end) = self.spaced(from, script);
            return Some((name.into(), (1000, true), t, end));
        }
        if let (Some(strength), Some((mut t, _))) = (self.language.calls, self.round(at)) {
            t.name = "BuiltIn::Operator".into();
            let (t, end) = self.spaced(from, t);
            return Some(("Function::FunctionApplication".into(), (strength, true), t, end));
        }
        let (op, t, end) = self.operator_of(before, from, &[Fix::Postfix])?;
        Some((op.name.clone(), (op.strength, true), t, end))
    }
    /// A pair of brackets
    fn round(&mut self, at: usize) -> Option<(T, usize)> {
        if self.sym(at) != Some("(") {
            return None;
        }
        if let Some(known) = self.brackets.get(&at) {
            return known.clone();
        }
        let open = leaf("BuiltIn::Operator", self.row, at, at + 1);
        let found = if self.sym(at + 1) == Some(")") {
            let close = leaf("BuiltIn::Operator", self.row, at + 1, at + 2);
            Some((node("Core::RoundBrackets", vec![open, close]), at + 2))
        } else {
            let (tokens, end) = self.tokens(at + 1, Some(")"));
            (self.sym(end) == Some(")")).then(|| {
                let close = leaf("BuiltIn::Operator", self.row, end, end + 1);
                (node("Core::RoundBrackets", vec![open, arrange(tokens, at + 1, end), close]), end + 1)
            })
        };
        self.brackets.insert(at, found.clone());
        found
    }
    fn operand(&mut self, from: usize) -> Option<(T, usize)> {
        let at = self.spaces(from);
        let t = match &self.row.get(at)?.body {
            Body::Cont(kind, ..) => {
                let name = match kind {
                    Kind::Frac => "BuiltIn::Fraction",
                    Kind::Root => "BuiltIn::Root",
                    Kind::Table => "BuiltIn::Table",
                    _ => return None,
                };
                self.container(at, name)?
            }
            Body::Sym(s) => {
                let s = s.clone();
                let language = self.language;
                language.operands.iter().rev().find_map(|operand| self.token(operand, at, &s))?
            }
        };
        Some(self.spaced(from, t))
    }
    fn token(&mut self, operand: &Operand, at: usize, s: &str) -> Option<T> {
        let end = match operand {
            Operand::Constant(name, symbol) => return (symbol == s).then(|| leaf(name, self.row, at, at + 1)),
            Operand::Round => return Some(self.round(at)?.0),
            Operand::Text => {
                let mut end = at + 1;
                if s != "\"" {
                    return None;
                }
                loop {
                    match self.sym(end)? {
                        "\"" => break,
                        "\\" => {
                            self.sym(end + 1)?;
                            end += 2;
                        }
                        _ => end += 1,
                    }
                }
                return Some(leaf("String::String", self.row, at, end + 1));
            }
            Operand::Number => {
                let digits = |mut at: usize| {
                    while self.sym(at).is_some_and(|s| s.bytes().all(|b| b.is_ascii_digit())) {
                        at += 1;
                    }
                    at
                };
                let mut end = digits(at);
                if end == at {
                    return None;
                }
                if self.sym(end) == Some(".") && digits(end + 1) > end + 1 {
                    end = digits(end + 1);
                }
                return Some(leaf("Arithmetic::Number", self.row, at, end));
            }
            Operand::Variable => {
                if !(s.chars().next().is_some_and(is_xid_start) && s.chars().skip(1).all(is_xid_continue)) {
                    return None;
                }
                let mut end = at + 1;
                while self.sym(end).is_some_and(|s| s.chars().all(is_xid_continue)) {
                    end += 1;
                }
                end
            }
        };
        Some(leaf("Core::Variable", self.row, at, end))
    }
    /// Does anything that is known start here?
    fn known(&mut self, at: usize) -> bool {
        self.operator(at, &[Fix::Prefix, Fix::Left, Fix::Right]).is_some() || self.operand(at).is_some() || self.postfix(at).is_some()
    }
    fn at_end(&self, at: usize, ending: Option<&str>) -> bool {
        at == self.row.len() || (ending.is_some() && self.sym(at) == ending)
    }
    fn tokens(&mut self, mut at: usize, ending: Option<&str>) -> (Vec<Token>, usize) {
        let mut out = vec![];
        let mut operand_expected = true;
        while at < self.row.len() {
            if operand_expected {
                if let Some((op, t, end)) = self.operator(at, &[Fix::Prefix]) {
                    out.push(Token::Prefix(op, t));
                    at = end;
                    continue;
                }
                if let Some((t, end)) = self.operand(at) {
                    out.push(Token::Operand(t));
                    (at, operand_expected) = (end, false);
                    continue;
                }
                if self.operator(at, &[Fix::Left, Fix::Right]).is_some() || self.postfix(at).is_some() {
                    out.push(Token::Operand(missing(at)));
                    operand_expected = false;
                    continue;
                }
            } else {
                if let Some((op, t, end)) = self.operator(at, &[Fix::Left, Fix::Right]) {
                    out.push(Token::Infix(op, t));
                    (at, operand_expected) = (end, true);
                    continue;
                }
                if let Some((name, strength, t, end)) = self.postfix(at) {
                    out.push(Token::Postfix(name, strength, t));
                    at = end;
                    continue;
                }
                if self.operator(at, &[Fix::Prefix]).is_some() || self.operand(at).is_some() {
                    out.push(Token::Infix(OpDef { name: "Error::MissingOperator".into(), symbols: vec![], fix: Fix::Left, strength: 100 }, missing(at)));
                    operand_expected = true;
                    continue;
                }
            }
            if self.at_end(at, ending) {
                break;
            }
            // Symbols that fit nothing
            let mut t = leaf("Error::UnknownToken", self.row, at, at + 1);
            at += 1;
            while !self.at_end(at, ending) && !self.known(at) {
                t = missing_operator(t, leaf("Error::UnknownToken", self.row, at, at + 1));
                at += 1;
            }
            out.push(if operand_expected { Token::Operand(t) } else { Token::Unknown(t) });
            operand_expected = false;
        }
        if operand_expected {
            out.push(Token::Operand(missing(at)));
        }
        (out, at)
    }
}

/// Operands and operators by their strength
fn arrange(tokens: Vec<Token>, start: usize, end: usize) -> T {
    enum Open {
        Prefix(OpDef, T),
        Infix(OpDef, T, T),
    }
    fn close(open: Open, right: T) -> T {
        match open {
            Open::Prefix(op, t) => node(&op.name, vec![t, right]),
            Open::Infix(op, left, _) if op.name == "Error::MissingOperator" => missing_operator(left, right),
            Open::Infix(op, left, t) => node(&op.name, vec![left, t, right]),
        }
    }
    let mut open: Vec<Open> = vec![];
    let mut top: Option<T> = None;
    // Closes what binds its right side more strongly than the next operator
    fn closed(open: &mut Vec<Open>, mut t: T, strength: (u16, bool)) -> T {
        while open.last().is_some_and(|(Open::Prefix(op, _) | Open::Infix(op, ..))| strength < op.right()) {
            t = close(open.pop().unwrap(), t);
        }
        t
    }
    for token in tokens {
        match token {
            Token::Operand(t) => top = Some(t),
            Token::Unknown(t) => top = top.map(|top| missing_operator(top, t)),
            Token::Prefix(op, t) => open.push(Open::Prefix(op, t)),
            Token::Infix(op, t) => {
                let left = closed(&mut open, top.take().expect("an operand"), op.left());
                open.push(Open::Infix(op, left, t));
            }
            Token::Postfix(name, strength, t) => {
                let left = closed(&mut open, top.take().expect("an operand"), strength);
                top = Some(node(&name, vec![left, t]));
            }
        }
    }
    let mut t = top.expect("an operand");
    while let Some(o) = open.pop() {
        t = close(o, t);
    }
    assert!(t.start >= start && t.end == end);
    t
}

pub fn c37() -> Check {
    Check {
        id: "C37",
        rule: "arbitrary formulas (token soup, long tokens, broken expressions) of the built-in and of random languages. The whole tree (names, ranges, texts) is compared with that of a parser of its own, which cuts the row into tokens first. Distinct: different formulas.",
        quick: 120_000,
        thorough: 8_000_000,
        case: |rng, size, mon| {
            let (world, row, language) = any_formula_of(rng, size);
            mon.note(|| show(&row));
            let got = world.parse(&row)?;
            let want = Reference { language: &language }.parse(&row);
            fn count(t: &T, mon: &mut Mon) {
                match t.name.as_str() {
                    "Error::UnknownToken" => mon.count("unknown tokens"),
                    "Error::MissingToken" => mon.count("missing operands and operators"),
                    "Arithmetic::Number" => mon.count("numbers"),
                    "Core::Variable" => mon.count("names"),
                    "String::String" => mon.count("strings"),
                    "Core::RoundBrackets" => mon.count("brackets"),
                    "BuiltIn::Operator" => mon.count("operators"),
                    _ => {}
                }
                if let K::Kids(kids) | K::Rows(_, _, kids) = &t.kids {
                    kids.iter().for_each(|k| count(k, mon));
                }
            }
            count(&want, mon);
            ensure!(got == want, "{} means {}, but is read as {}", show(&row), want.show(), got.show());
            mon.distinct(&row);
            Ok(())
        },
        probe: None,
        assumptions: &["chumsky is replaced by an implementation of the parts that are used, see DESIGN.md"],
    }
}
