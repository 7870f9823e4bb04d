//! C36: the printed and the stored form of syntax trees
use crate::parsing::any_formula;
use input_tree::grid::{Grid, GridVec};
use monitor_common::*;
use parser::{
    parse_modules::ParseModules,
    syntax_tree::{LeafNodeType, PathIdentifier, SyntaxLeafNode, SyntaxNode, SyntaxNodeBuilder, SyntaxNodeChildren, SyntaxNodeNameId, SyntaxNodeNameMap},
};

/// What the printed form says
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct P {
    name: Option<String>,
    kids: PK,
    value: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum PK {
    None,
    Text(String),
    Kids(Vec<P>),
    Rows(usize, usize, Vec<P>),
}
/// A name, from its stored parts
fn spelled(name: &PathIdentifier) -> String {
    let parts: Vec<String> = serde_json::to_value(name).ok().and_then(|v| serde_json::from_value(v).ok()).unwrap_or_default();
    parts.join("::")
}
fn printable(node: &SyntaxNode, names: &SyntaxNodeNameMap) -> P {
    let kids = match &node.children {
        SyntaxNodeChildren::Leaf(leaf) => PK::Text(leaf.symbols.concat()),
        SyntaxNodeChildren::Children(kids) if kids.is_empty() => PK::None,
        SyntaxNodeChildren::Children(kids) => PK::Kids(kids.iter().map(|k| printable(k, names)).collect()),
        SyntaxNodeChildren::NewRows(rows) => {
            let cells: Vec<P> = rows.values().map(|k| printable(k, names)).collect();
            if cells.is_empty() { PK::None } else { PK::Rows(rows.width(), cells.len() / rows.width(), cells) }
        }
    };
    P { name: names.get_reverse(node.name).map(spelled), kids, value: node.value.clone() }
}

/// Independent reader of the printed form
struct Reader<'a> {
    rest: &'a str,
}
impl Reader<'_> {
    fn eat(&mut self, s: &str) -> bool {
        match self.rest.strip_prefix(s) {
            Some(rest) => {
                self.rest = rest;
                true
            }
            None => false,
        }
    }
    fn word(&mut self) -> String {
        let end = self.rest.find([' ', ')', '(', '"']).unwrap_or(self.rest.len());
        let (word, rest) = self.rest.split_at(end);
        self.rest = rest;
        word.to_string()
    }
    fn text(&mut self) -> Result<String, String> {
        let mut out = String::new();
        let mut chars = self.rest.chars();
        loop {
            match chars.next() {
                None => return Err("unterminated text".into()),
                Some('"') => break,
                Some('\\') => match chars.next() {
                    Some(c @ ('"' | '\\')) => out.push(c),
                    other => return Err(format!("unknown escape {:?}", other)),
                },
                Some(c) => out.push(c),
            }
        }
        self.rest = chars.as_str();
        Ok(out)
    }
    fn node(&mut self) -> Result<P, String> {
        ensure!(self.eat("("), "expected a node at {:?}", self.rest);
        let name = if self.eat("<unknown ") {
            let end = self.rest.find('>').ok_or("no end of the unknown name")?;
            self.rest = &self.rest[end + 1..];
            None
        } else {
            Some(self.word())
        };
        let mut p = P { name, kids: PK::None, value: vec![] };
        let mut size: Option<(usize, usize)> = None;
        let mut nodes = vec![];
        while !self.eat(")") {
            ensure!(self.eat(" "), "expected a space at {:?}", self.rest);
            if self.rest.starts_with('(') {
                nodes.push(self.node()?);
            } else if self.eat("\"") {
                p.kids = PK::Text(self.text()?);
            } else {
                let word = self.word();
                if let Some((w, h)) = word.split_once('x') {
                    ensure!(size.is_none() && nodes.is_empty(), "a size behind other things");
                    size = Some((w.parse().map_err(|_| "bad width")?, h.parse().map_err(|_| "bad height")?));
                } else {
                    ensure!(!word.is_empty() && word.len() % 2 == 0 && word.is_ascii(), "unknown word {:?}", word);
                    ensure!(self.rest.starts_with(')'), "something behind the value");
                    p.value = (0..word.len() / 2).map(|i| u8::from_str_radix(&word[2 * i..2 * i + 2], 16).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
                }
            }
        }
        match size {
            Some((w, h)) => {
                ensure!(w * h == nodes.len(), "{} cells in a {}x{} grid", nodes.len(), w, h);
                p.kids = PK::Rows(w, h, nodes);
            }
            None if !nodes.is_empty() => {
                ensure!(p.kids == PK::None, "text and children");
                p.kids = PK::Kids(nodes);
            }
            None => {}
        }
        Ok(p)
    }
}

/// A tree that no parser needs to produce, and what was put into it
fn random_tree(rng: &mut Rng, names: &[(SyntaxNodeNameId, Option<String>)], start: usize, depth: usize) -> (SyntaxNode, P) {
    let (name, spelled) = rng.pick(names).clone();
    let below = |rng: &mut Rng| depth > 0 && rng.percent(70);
    let (children, kids, end) = match rng.below(if depth == 0 { 1 } else { 4 }) {
        0 => {
            let kind = if rng.bool() { LeafNodeType::Symbol } else { LeafNodeType::Operator };
            let symbols: Vec<String> = (0..rng.between(1, 4))
                .map(|_| if rng.one_in(3) { gen::nasty_symbol(rng) } else { rng.pick(&["a", "\"", "\\", " ", "(", ")", "", "é", "\u{301}", "2x2", "\n"]).to_string() })
                .collect();
            let end = start + symbols.len();
            let text = PK::Text(symbols.concat());
            (SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(kind, symbols)), text, end)
        }
        1 => {
            let (w, h) = (rng.between(1, 3), rng.between(1, 3));
            let (cells, printed): (Vec<SyntaxNode>, Vec<P>) = (0..w * h).map(|_| random_tree(rng, names, 0, depth - 1)).unzip();
            (SyntaxNodeChildren::NewRows(GridVec::from_one_dimensional(cells, w)), PK::Rows(w, h, printed), start + 1)
        }
        _ => {
            let mut at = start;
            let (mut kids, mut printed) = (vec![], vec![]);
            while below(rng) && kids.len() < 4 {
                let (kid, p) = random_tree(rng, names, at, depth - 1);
                at = kid.range().end;
                kids.push(kid);
                printed.push(p);
            }
            let printed = if printed.is_empty() { PK::None } else { PK::Kids(printed) };
            (SyntaxNodeChildren::Children(kids), printed, at)
        }
    };
    let value = if rng.one_in(3) { (0..rng.below(5)).map(|_| *rng.pick(&[0, 1, 9, 10, 15, 16, 127, 128, 255])).collect() } else { vec![] };
    let node = SyntaxNodeBuilder::new(children).set_value(value.clone()).build(name, start..end);
    (node, P { name: spelled, kids, value })
}

fn same(a: &SyntaxNode, b: &SyntaxNode) -> CaseResult {
    ensure!(a.name == b.name, "the name {:?} reads back as {:?}", a.name, b.name);
    ensure!(a.range() == b.range(), "the range {:?} reads back as {:?}", a.range(), b.range());
    ensure!(a.value == b.value, "the value {:?} reads back as {:?}", a.value, b.value);
    match (&a.children, &b.children) {
        (SyntaxNodeChildren::Leaf(a), SyntaxNodeChildren::Leaf(b)) => {
            ensure!(a.node_type == b.node_type && a.symbols == b.symbols, "the leaf {:?} reads back as {:?}", a, b);
            Ok(())
        }
        (SyntaxNodeChildren::Children(a), SyntaxNodeChildren::Children(b)) => {
            ensure!(a.len() == b.len(), "{} children read back as {}", a.len(), b.len());
            a.iter().zip(b).try_for_each(|(a, b)| same(a, b))
        }
        (SyntaxNodeChildren::NewRows(a), SyntaxNodeChildren::NewRows(b)) => {
            ensure!(a.width() == b.width() && a.values().count() == b.values().count(), "a grid of the size {:?} reads back as {:?}", a.size(), b.size());
            a.values().zip(b.values()).try_for_each(|(a, b)| same(a, b))
        }
        _ => Err("one kind of children reads back as another kind".into()),
    }
}

fn check(node: &SyntaxNode, want: P, names: &SyntaxNodeNameMap, mon: &mut Mon) -> CaseResult {
    let text = node.with_display(names).to_string();
    mon.note(|| text.clone());
    let mut reader = Reader { rest: &text };
    let got = reader.node().map_err(|e| format!("the printed tree {} cannot be read: {}", text, e))?;
    ensure!(reader.rest.is_empty(), "there is {:?} behind the printed tree", reader.rest);
    ensure!(got == want, "{} reads back as {:?}", text, got);
    mon.count("trees printed");
    fn count(p: &P, mon: &mut Mon) {
        mon.count(match &p.kids {
            PK::None => "nodes without children",
            PK::Text(_) => "leaves",
            PK::Kids(_) => "nodes with children",
            PK::Rows(..) => "nodes with rows",
        });
        if !p.value.is_empty() {
            mon.count("values");
        }
        if p.name.is_none() {
            mon.count("unknown names");
        }
        if let PK::Kids(kids) | PK::Rows(_, _, kids) = &p.kids {
            kids.iter().for_each(|k| count(k, mon));
        }
    }
    count(&want, mon);
    let stored = serde_json::to_value(node).map_err(|e| format!("the tree cannot be stored: {}", e))?;
    let again: SyntaxNode = serde_json::from_value(stored.clone()).map_err(|e| format!("the stored tree {} cannot be read: {}", stored, e))?;
    same(node, &again)?;
    ensure!(again.with_display(names).to_string() == text, "the stored tree prints as {}", again.with_display(names));
    mon.count("trees stored");
    mon.distinct(&want);
    Ok(())
}

/// Names and trees that must not exist
fn check_refused(rng: &mut Rng, name: SyntaxNodeNameId, mon: &mut Mon) -> CaseResult {
    let good = ["A", "bc", "Δ", "x_1", "é2", "名前", "a\u{301}"];
    let bad = ["", "1a", "a b", "_x", "a-b", "::", "a:", "+", "\u{301}a", "a ", "(", "\""];
    let mut parts: Vec<String> = (0..rng.below(4)).map(|_| rng.pick(&good).to_string()).collect();
    if rng.bool() {
        let at = rng.below(parts.len() + 1);
        parts.insert(at, rng.pick(&bad).to_string());
    }
    let fine = parts.len() >= 2 && parts.iter().all(|p| good.contains(&p.as_str()));
    let made = guarded(|| PathIdentifier::new(parts.clone()));
    match (&made, fine) {
        (Ok(made), true) => {
            ensure!(made.to_string() == parts.join("::"), "the name of the parts {:?} prints as {}", parts, made);
            let again: PathIdentifier = serde_json::to_value(made).and_then(serde_json::from_value).map_err(|e| format!("the stored name {} cannot be read: {}", made, e))?;
            ensure!(again == *made, "the name {} reads back as {}", made, again);
            mon.count("names made");
        }
        (Err(_), false) => mon.count("names refused"),
        (Ok(made), false) => return Err(format!("{:?} is accepted as the name {}", parts, made)),
        (Err(e), true) => return Err(format!("the name {:?} is refused: {}", parts, e)),
    }
    // Children with or without gaps and overlaps, inside of their parent or not
    let mut at = rng.below(4);
    let start = at;
    let mut fine = true;
    let mut kids = vec![];
    for i in 0..rng.between(1, 5) {
        if i > 0 && rng.one_in(8) {
            let next = if rng.bool() { at + rng.between(1, 3) } else { at.saturating_sub(rng.between(1, 3)) };
            fine &= next == at;
            at = next;
        }
        let len = rng.below(3);
        kids.push(SyntaxNodeBuilder::new_leaf_node(vec!["s".into(); len], LeafNodeType::Symbol).build(name, at..at + len));
        at += len;
    }
    let mut range = start..at;
    if range.start > range.end {
        return Ok(());
    }
    match rng.below(8) {
        0 => range.start += 1,
        1 if range.end > range.start => range.end -= 1,
        2 => range.end += 1,
        3 if range.start > 0 => range.start -= 1,
        _ => {}
    }
    fine &= range.start <= start && at <= range.end;
    let ranges: Vec<_> = kids.iter().map(|k| k.range()).collect();
    let made = guarded(|| SyntaxNodeBuilder::new(SyntaxNodeChildren::Children(kids)).build(name, range.clone()));
    match (made, fine) {
        (Ok(made), true) => {
            ensure!(made.range() == range, "a node built for {:?} has the range {:?}", range, made.range());
            mon.count("nodes built");
            Ok(())
        }
        (Err(_), false) => {
            mon.count("nodes refused");
            Ok(())
        }
        (Ok(_), false) => Err(format!("children at {:?} are accepted in a node at {:?}", ranges, range)),
        (Err(e), true) => Err(format!("children at {:?} are refused in a node at {:?}: {}", ranges, range, e)),
    }
}

pub fn c36() -> Check {
    Check {
        id: "C36",
        rule: "syntax trees of random formulas, and random syntax trees with names of their own, names that are not known, values, and texts made of quotes, backslashes, brackets and sizes. The printed text is read back by an independent reader, the stored form by the repository's own reader, and both are compared with the tree. Names from valid and invalid parts, and nodes whose children leave gaps, overlap or reach out of their parent, are made or refused. Distinct: different trees.",
        quick: 80_000,
        thorough: 8_000_000,
        case: |rng, size, mon| {
            if rng.bool() {
                let (world, row) = any_formula(rng, size);
                mon.note(|| show(&row));
                let nodes = nodes_to_repo(&row);
                let node = guarded(|| world.parser.parse(&nodes))?;
                let names = world.modules.get_rule_name_map();
                check(&node, printable(&node, names), names, mon)
            } else {
                let mut modules = ParseModules::new();
                let mut ids: Vec<(SyntaxNodeNameId, Option<String>)> = (0..rng.between(1, 5))
                    .map(|i| {
                        let mut parts = vec![rng.pick(&["A", "Bc", "é"]).to_string(), format!("N{}", i)];
                        if rng.one_in(3) {
                            parts.push("Δ1".into());
                        }
                        (modules.with_rule_name(PathIdentifier::new(parts.clone())), Some(parts.join("::")))
                    })
                    .collect();
                let names = modules.get_rule_name_map().clone();
                if rng.one_in(4) {
                    ids.push((modules.with_rule_name(PathIdentifier::new(vec!["Un".into(), "known".into()])), None));
                }
                check_refused(rng, ids[0].0, mon)?;
                let depth = 1 + size / 25;
                let (node, want) = random_tree(rng, &ids, 0, depth);
                check(&node, want, &names, mon)
            }
        },
        probe: None,
        assumptions: &["chumsky is replaced by an implementation of the parts that are used, see DESIGN.md"],
    }
}
