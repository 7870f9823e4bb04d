//! C23 to C28: parsing. C29: finding autocompletes.
use crate::syntax::*;
use crate::world::*;
use chumsky::Parser;
use input_tree::node::InputNode;
use monitor_common::*;
use parser::{
    autocomplete::{AutocompleteMatcher, AutocompleteRule, AutocompleteRules},
    make_parser::{just_operator_parser, just_symbol_parser, MakeParserFn},
    parse_module::*,
    syntax_tree::{LeafNodeType, PathIdentifier, SyntaxNodeBuilder},
};
use std::{
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
};

const TOKENS: [&str; 60] = [
    "a", "b", "x", "l", "i", "m", "s", "u", "p", "n", "f", "1", "2", "42", ".", "+", "-", "*", "/", "=", "<", ">", "≤", "≥", "(", ")", "(",
    ")", "!", "^", "_", ",", " ", " ", " ", "\"", "\"", "\\", "∑", "∫", "∞", "∧", "∨", "¬", "⟹", "⇔", "⊤", "⊥", "é", "😀", "#", "@", "%",
    "&", "ab", "a b", "", "\u{301}", "<=", "lim",
];

/// Any formula, most of them are no expressions
fn garbage(rng: &mut Rng, size: usize, extra: &[String]) -> MRow {
    let mut shape = gen::Shape::sized(size);
    shape.max_len = 2 + size / 8;
    shape.max_depth = size / 30;
    shape.containers = *rng.pick(&[0, 15, 35]);
    shape.odd = if rng.one_in(4) { 25 } else { 0 };
    if rng.one_in(15) {
        return runs(rng);
    }
    // Few kinds of symbols make interesting neighbours likely
    let few: Vec<String> = (0..rng.between(2, 8)).map(|_| pick_token(rng, extra)).collect();
    let use_few = rng.bool();
    // The parser needs exponential time for unclosed brackets (known finding)
    let mut brackets = 5;
    gen::row(rng, &shape, &mut |rng| {
        let token = if use_few { rng.pick(&few).clone() } else { pick_token(rng, extra) };
        if token == "(" {
            if brackets == 0 {
                return ")".into();
            }
            brackets -= 1;
        }
        token
    })
}
/// Long tokens: digits, words, strings, spaces
fn runs(rng: &mut Rng) -> MRow {
    let mut row = vec![];
    for _ in 0..rng.between(1, 4) {
        let pool: &[&str] = *rng.pick(&[
            &["0", "1", "2", "7", "9"][..], &["a", "b", "x", "é", "\u{301}", "1"], &[" "], &["\"", "\\", "a", " ", "\\"], &["#"], &["0"], &["+", "-"], &["!"],
        ]);
        let n = if rng.bool() { rng.between(1, 5) } else { rng.between(5, 70) };
        row.extend((0..n).map(|_| sym(*rng.pick(pool))));
        if rng.bool() {
            row.push(sym(*rng.pick(&[".", "\"", "a", "+", " ", "("])));
        }
    }
    row
}
fn pick_token(rng: &mut Rng, extra: &[String]) -> String {
    if rng.one_in(25) {
        return match rng.below(3) {
            0 => gen::nasty_symbol(rng),
            1 => gen::any_char(rng).to_string(),
            _ => (0..rng.between(2, 20)).map(|_| *rng.pick(&["a", "b", "é", "😀", "1", "+", " "])).collect(),
        };
    }
    if !extra.is_empty() && rng.bool() { rng.pick(extra).clone() } else { rng.pick(&TOKENS).to_string() }
}

/// A well-formed expression with a small mistake
fn broken(rng: &mut Rng, size: usize, language: &Language) -> MRow {
    let e = ExprGen { language, budget: 2 + size / 6 }.expr(rng, 1 + size / 25);
    let e = add_brackets(rng, e, 5);
    let mut printer = Printer::new(rng, 10);
    printer.whole_row(&Some(e));
    let mut row = printer.row;
    for _ in 0..rng.between(1, 3) {
        let path = rng.pick(&all_rows(&row)).clone();
        let target = row_at_mut(&mut row, &path).unwrap();
        let at = rng.between(0, target.len());
        match rng.below(4) {
            0 => target.truncate(at),
            1 if at < target.len() => {
                target.remove(at);
            }
            2 if at < target.len() => {
                let other = rng.below(target.len());
                target.swap(at, other);
            }
            _ => target.insert(at, sym(*rng.pick(&TOKENS))),
        }
    }
    // The parser needs exponential time for unclosed brackets (known finding)
    fn limit(row: &mut MRow) {
        let mut open = 0;
        for node in row {
            match &mut node.body {
                Body::Sym(s) if s == "(" => {
                    open += 1;
                    if open > 6 {
                        *s = "x".into();
                    }
                }
                Body::Sym(_) => {}
                Body::Cont(_, _, cells) => cells.iter_mut().for_each(limit),
            }
        }
    }
    limit(&mut row);
    row
}

/// A formula of any kind, and a parser for it
pub fn any_formula(rng: &mut Rng, size: usize) -> (Rc<World>, MRow) {
    let (world, row, _) = any_formula_of(rng, size);
    (world, row)
}
/// And the language of the parser
pub fn any_formula_of(rng: &mut Rng, size: usize) -> (Rc<World>, MRow, Language) {
    if rng.one_in(4) {
        let (language, world) = random_language(rng);
        let extra: Vec<String> = language.ops.iter().flat_map(|o| o.symbols.clone()).collect();
        let row = if rng.bool() { garbage(rng, size, &extra) } else { broken(rng, size, &language) };
        (Rc::new(world), row, language)
    } else if rng.one_in(4) {
        let (language, world) = modules_language(rng, false);
        let extra: Vec<String> = language.ops.iter().flat_map(|o| o.symbols.clone()).collect();
        let row = if rng.bool() { garbage(rng, size, &extra) } else { broken(rng, size, &language) };
        (Rc::new(world), row, language)
    } else {
        let row = if rng.one_in(3) { broken(rng, size, &full_language()) } else { garbage(rng, size, &[]) };
        let only_core = Language::new(vec![], None, false, false, vec![]);
        if rng.one_in(8) { (core(), row, only_core) } else { (full(), row, full_language()) }
    }
}

fn check_ranges(t: &T, row: &MRow, parents: &mut Vec<String>, leaves: &mut Vec<(usize, usize)>) -> CaseResult {
    ensure!(t.start <= t.end && t.end <= row.len(), "{} has the range {}..{} in a row with {} elements", t.name, t.start, t.end, row.len());
    match &t.kids {
        K::Leaf(symbols) => {
            let text: Option<Vec<&str>> = row[t.start..t.end].iter().map(|n| n.as_sym()).collect();
            let text = text.ok_or_else(|| format!("the leaf {} {:?} covers a container", t.name, symbols))?;
            ensure!(*symbols == text, "the leaf {} has the symbols {:?}, but covers {:?}", t.name, symbols, text);
            leaves.push((t.start, t.end));
        }
        K::Kids(kids) => {
            let mut last = t.start;
            parents.push(t.name.clone());
            for kid in kids {
                ensure!(kid.start >= last, "the child {} at {}..{} of {} overlaps with its predecessor or starts before its parent", kid.name, kid.start, kid.end, t.name);
                ensure!(kid.end <= t.end, "the child {} at {}..{} ends after its parent {}", kid.name, kid.start, kid.end, t.name);
                last = kid.end;
                check_ranges(kid, row, parents, leaves)?;
            }
            parents.pop();
        }
        K::Rows(w, h, trees) => {
            ensure!(t.end == t.start + 1, "the rows of {} belong to the range {}..{}", t.name, t.start, t.end);
            let Body::Cont(kind, width, cells) = &row[t.start].body else {
                return Err(format!("the rows of {} belong to a symbol", t.name));
            };
            ensure!(cells.len() == trees.len() && (cells.is_empty() || (*w == *width && w * h == cells.len())),
                "a container with {} cells in rows of {} has a tree with {}x{}", cells.len(), width, w, h);
            let name = match kind {
                Kind::Frac => "BuiltIn::Fraction",
                Kind::Root => "BuiltIn::Root",
                Kind::Table => "BuiltIn::Table",
                Kind::Sub => "BuiltIn::Sub",
                Kind::Sup => "BuiltIn::Sup",
            };
            if t.name == "BuiltIn::Operator" {
                let parent = parents.iter().rev().find(|p| *p != "BuiltIn::Whitespaces").cloned().unwrap_or_default();
                ensure!(parent == name, "a container {:?} is an operator of {}", kind, parent);
            } else {
                ensure!(t.name == name, "a container {:?} is called {}", kind, t.name);
            }
            for (tree, cell) in trees.iter().zip(cells) {
                check_cover(tree, cell)?;
            }
            leaves.push((t.start, t.end));
        }
    }
    Ok(())
}
fn check_cover(t: &T, row: &MRow) -> CaseResult {
    ensure!(t.start == 0 && t.end == row.len(), "the tree of a row has the range {}..{} instead of 0..{}: {}", t.start, t.end, row.len(), show(row));
    let mut leaves = vec![];
    check_ranges(t, row, &mut vec![], &mut leaves)?;
    let mut last = 0;
    for (start, end) in leaves {
        ensure!(start == last, "the leaves go from {} to {} in {}", last, start, show(row));
        last = end;
    }
    ensure!(last == row.len(), "the leaves end at {} in {}", last, show(row));
    Ok(())
}

fn has_errors(t: &T) -> bool {
    t.name.starts_with("Error::")
        || match &t.kids {
            K::Leaf(_) => false,
            K::Kids(kids) | K::Rows(_, _, kids) => kids.iter().any(has_errors),
        }
}

/// All brackets are closed, and there are no strings that are not
fn closed(row: &MRow) -> bool {
    let mut open = 0;
    for node in row {
        match node.as_sym() {
            Some("(") => open += 1,
            Some(")") if open == 0 => return false,
            Some(")") => open -= 1,
            Some("\"" | "\\") => return false,
            _ => {}
        }
    }
    open == 0
}

fn names_in(t: &T, mon: &mut Mon) {
    if t.name.starts_with("Error::") {
        mon.count(&t.name);
    }
    match &t.kids {
        K::Leaf(_) => {}
        K::Kids(kids) | K::Rows(_, _, kids) => kids.iter().for_each(|k| names_in(k, mon)),
    }
}

/// How often operands are looked at while parsing
fn count_attempts(row: &MRow) -> Result<u64, String> {
    let attempts = Arc::new(AtomicU64::new(0));
    let seen = attempts.clone();
    let world = core_world(|modules, built_in| {
        let name = modules.with_rule_name(PathIdentifier::new(vec!["Test".into(), "Never".into()]));
        let rule = atom_rule(
            name,
            MakeParserFn(move |_| {
                let seen = seen.clone();
                chumsky::primitive::any()
                    .try_map(move |_: InputNode, span| {
                        seen.fetch_add(1, Ordering::Relaxed);
                        Err(chumsky::error::Error::<&[InputNode]>::expected_found(None, None, span))
                    })
                    .map(|_: ()| SyntaxNodeBuilder::new_leaf_node(vec![], LeafNodeType::Symbol))
                    .boxed()
            }),
        );
        vec![
            Rc::new(parser::rule_collections::function_rules::FunctionRules::new(modules, built_in)),
            Rc::new(TestModule { name: "Test".into(), rules: vec![rule], autocomplete: vec![] }),
        ]
    });
    world.parse(row)?;
    Ok(attempts.load(Ordering::Relaxed))
}
fn symbols(text: &str) -> MRow {
    text.chars().map(|c| sym(c.to_string())).collect()
}

fn nested(n: usize, around: impl Fn(MRow) -> MRow) -> MRow {
    (0..n).fold(vec![sym("x")], |row, _| around(row))
}

/// Does the number of attempts grow exponentially with the size?
fn grows(make: impl Fn(usize) -> MRow) -> Result<Option<String>, String> {
    let counts: Vec<u64> = (4..=9).map(|n| count_attempts(&make(n))).collect::<Result<_, _>>()?;
    let exponential = counts.windows(2).all(|w| w[1] as f64 > 1.6 * w[0] as f64);
    Ok(exponential.then(|| format!("operands looked at for 4 to 9 repetitions: {:?}", counts)))
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        rule: "random formulas: arbitrary tokens (unbalanced brackets and quotes, whitespace, empty, multi-byte and unknown symbols), containers with unusual cells, well-formed expressions with mistakes; with the full parser, the minimal one, and parsers with random operators. Nothing may panic, and the tree's range must be the whole row. Distinct: different formulas with at least 2 elements.",
        quick: 220_000,
        thorough: 11_000_000,
        case: |rng, size, mon| {
            let (world, row) = any_formula(rng, size);
            mon.note(|| show(&row));
            let t = world.parse(&row)?;
            ensure!(t.start == 0 && t.end == row.len(), "the tree's range is {}..{} instead of 0..{}", t.start, t.end, row.len());
            names_in(&t, mon);
            mon.count(match count_nodes(&row) {
                0 => "empty formula",
                1 => "one element",
                2..=8 => "2 to 8 elements",
                _ => "more elements",
            });
            if row.len() > 1 {
                mon.distinct(&row);
            }
            mon.sample(|| show(&row));
            Ok(())
        },
        probe: Some(|mon| {
            if let Some(what) = grows(|n| symbols(&"(".repeat(n)))? {
                mon.finding("unclosed-brackets-exponential", what);
            }
            for before in ["2(", "#(", "a!("] {
                if let Some(what) = grows(|n| symbols(&format!("{}a{}", before.repeat(n), ")".repeat(n))))? {
                    mon.finding("missing-operator-brackets-exponential", format!("{}: {}", before, what));
                }
            }
            for (name, make) in [
                ("balanced brackets", (|n| symbols(&format!("{}a{}", "(".repeat(n), ")".repeat(n)))) as fn(usize) -> MRow),
                ("function calls", |n| symbols(&format!("{}a{}", "f(".repeat(n), ")".repeat(n)))),
                ("closing brackets", |n| symbols(&")".repeat(n))),
                ("unknown symbols", |n| symbols(&"#".repeat(n))),
                ("bracket pairs", |n| symbols(&"()".repeat(n))),
                ("nested fractions behind an atom", |n| nested(n, |row| vec![sym("a"), cont(Kind::Frac, 1, vec![row, vec![sym("b")]])])),
                ("nested tables behind an unknown symbol", |n| nested(n, |row| vec![sym("#"), cont(Kind::Table, 1, vec![row, vec![]])])),
                ("nested superscripts without a base", |n| nested(n, |row| vec![cont(Kind::Sup, 1, vec![row])])),
                ("nested subscripts behind an operator", |n| nested(n, |row| vec![sym("a"), sym("+"), cont(Kind::Sub, 1, vec![row])])),
                ("nested roots in brackets", |n| nested(n, |row| vec![sym("("), cont(Kind::Root, 2, vec![vec![], row]), sym(")")])),
                ("applied brackets", |n| symbols(&format!("{}a{}", "(a)(".repeat(n), ")".repeat(n)))),
            ] {
                if let Some(what) = grows(make)? {
                    return Err(format!("parsing {} takes exponential time: {}", name, what));
                }
                mon.count("growth of the work measured");
            }
            // Long and deep, but harmless
            let world = full();
            for (name, row) in [
                ("a long sum", symbols(&"a+".repeat(400))),
                ("many unknown symbols", symbols(&"#".repeat(400))),
                ("balanced brackets", symbols(&format!("{}a{}", "(".repeat(60), ")".repeat(60)))),
                ("closing brackets", symbols(&")".repeat(300))),
                ("many prefixes", symbols(&"-".repeat(300))),
                ("nested fractions", (0..40).fold(vec![sym("a")], |inner, _| vec![cont(Kind::Frac, 1, vec![inner, vec![]])])),
                ("nested tables", (0..40).fold(vec![], |inner, _| vec![cont(Kind::Table, 1, vec![inner])])),
            ] {
                let t = world.parse(&row).map_err(|e| format!("{}: {}", name, e))?;
                ensure!(t.start == 0 && t.end == row.len(), "{}: the range is {}..{}", name, t.start, t.end);
                mon.count("big formulas");
            }
            Ok(())
        }),
        assumptions: &[
            "the stack suffices for the nesting (the parser is recursive)",
            "chumsky is replaced by an implementation of the parts that are used, see DESIGN.md",
        ],
    }
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        rule: "same formulas as C23; the whole tree is compared with the formula: order and containment of children, text of the leaves, grids and rows of the containers. Distinct: different formulas with at least 2 elements.",
        quick: 220_000,
        thorough: 11_000_000,
        case: |rng, size, mon| {
            let (world, row) = any_formula(rng, size);
            mon.note(|| show(&row));
            let t = world.parse(&row)?;
            mon.note(|| t.show());
            check_cover(&t, &row)?;
            names_in(&t, mon);
            mon.add("nodes checked", t.count());
            mon.add("containers in the formulas", all_containers(&row).len());
            if row.len() > 1 {
                mon.distinct(&row);
            }
            mon.sample(|| show(&row));
            Ok(())
        },
        probe: None,
        assumptions: &["chumsky is replaced by an implementation of the parts that are used, see DESIGN.md"],
    }
}

struct Expression {
    world: Rc<World>,
    row: MRow,
    want: T,
    gaps: Vec<usize>,
    e: Expr,
}
thread_local! {
    static LANGUAGE: Language = full_language();
}
fn expression(rng: &mut Rng, size: usize, custom: bool, mon: &mut Mon) -> Expression {
    let make = |rng: &mut Rng, language: &Language| {
        let e = ExprGen { language, budget: 1 + size / 5 }.expr(rng, 1 + size / 16);
        let extra = *rng.pick(&[0, 0, 0, 15]);
        add_brackets(rng, e, extra)
    };
    let (world, e) = if custom {
        let (language, world) = random_language(rng);
        mon.note(|| format!("operators {:?}", language.ops));
        (Rc::new(world), make(rng, &language))
    } else if rng.one_in(5) {
        let (language, world) = modules_language(rng, true);
        mon.note(|| format!("operators {:?}, {:?}", language.ops.iter().map(|o| &o.name).collect::<Vec<_>>(), language.operands));
        (Rc::new(world), make(rng, &language))
    } else {
        (full(), LANGUAGE.with(|l| make(rng, l)))
    };
    let mut printer = Printer::new(rng, 0);
    let want = printer.whole_row(&Some(e.clone()));
    mon.note(|| show(&printer.row));
    Expression { world, row: printer.row, want, gaps: printer.gaps, e }
}

/// Pairs of operators that are next to each other in a tree
fn operator_pairs(t: &T, parent: &str, mon: &mut Mon) {
    match &t.kids {
        K::Leaf(_) => {}
        K::Rows(_, _, kids) => kids.iter().for_each(|k| operator_pairs(k, "", mon)),
        K::Kids(kids) => {
            for kid in kids {
                operator_pairs(kid, &t.name, mon);
            }
            if !parent.is_empty() && !parent.starts_with("Test") {
                mon.distinct(&(parent, &t.name, "pair"));
            }
        }
    }
}

fn count_kinds(e: &Expr, mon: &mut Mon) {
    match e {
        Expr::Token(name, _) => {
            mon.count(name);
        }
        Expr::Container(_, _, cells) => {
            mon.count("containers");
            cells.iter().flatten().for_each(|c| count_kinds(c, mon));
        }
        Expr::Infix(op, s, l, r) => {
            mon.count(if op.fix == Fix::Left { "left-associative infix" } else { "right-associative infix" });
            if !s.is_empty() {
                mon.count("operators with scripts");
            }
            count_kinds(l, mon);
            count_kinds(r, mon);
        }
        Expr::Prefix(_, s, e) => {
            mon.count("prefix");
            if !s.is_empty() {
                mon.count("operators with scripts");
            }
            count_kinds(e, mon);
        }
        Expr::Postfix(_, e) => {
            mon.count("postfix");
            count_kinds(e, mon);
        }
        Expr::Call(_, f, x) => {
            mon.count("function application");
            count_kinds(f, mon);
            x.iter().for_each(|x| count_kinds(x, mon));
        }
        Expr::Script(_, f, x) => {
            mon.count("scripts");
            count_kinds(f, mon);
            x.iter().for_each(|x| count_kinds(x, mon));
        }
        Expr::Round(x) => {
            mon.count("brackets");
            x.iter().for_each(|x| count_kinds(x, mon));
        }
    }
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        rule: "random syntax trees, over the documented operator table and over random tables (all kinds of operators, random strengths and associativities, operators of several symbols, operators with scripts), printed with the brackets that the strengths demand (and some more), must parse to exactly that tree with exactly those ranges. Distinct: different printed expressions, and neighbouring pairs of operators.",
        quick: 450_000,
        thorough: 22_500_000,
        case: |rng, size, mon| {
            let custom = rng.one_in(3);
            let x = expression(rng, size, custom, mon);
            let got = x.world.parse(&x.row)?;
            ensure!(got == x.want, "parsed {} instead of {}", got.show(), x.want.show());
            count_kinds(&x.e, mon);
            operator_pairs(&got, "", mon);
            mon.distinct(&x.row);
            mon.sample(|| show(&x.row));
            Ok(())
        },
        probe: None,
        assumptions: &[
            "a table has one associativity per strength, prefix and postfix operators do not share their strength with others, except for the built-in table",
            "chumsky is replaced by an implementation of the parts that are used, see DESIGN.md",
        ],
    }
}

fn same_after_ids(a: &World, row: &MRow) -> Result<(T, T), String> {
    let twice = (a.parse(row)?, a.parse(row)?);
    Ok(twice)
}

fn check_cells(world: &World, t: &T, row: &MRow, mon: &mut Mon) -> CaseResult {
    match &t.kids {
        K::Leaf(_) => {}
        K::Kids(kids) => {
            for kid in kids {
                check_cells(world, kid, row, mon)?;
            }
        }
        K::Rows(_, _, trees) => {
            for (tree, cell) in trees.iter().zip(row[t.start].cells()) {
                let alone = world.parse(cell)?;
                ensure!(*tree == alone, "the row {} parses to {} in a container, and to {} alone", show(cell), tree.show(), alone.show());
                mon.count("rows compared with standing alone");
                check_cells(world, tree, cell, mon)?;
            }
        }
    }
    Ok(())
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        rule: "random formulas (half of them arbitrary as in C23, half well-formed): parsed repeatedly by one parser and by a newly made one (for the full parser), every row of a container against the same row parsed alone, and rows in brackets against the row alone (well-formed expressions, and any rows that close their brackets and strings). Distinct: different formulas.",
        quick: 80_000,
        thorough: 4_000_000,
        case: |rng, size, mon| {
            let (world, row) = if rng.bool() {
                let (world, row, language) = any_formula_of(rng, size);
                if closed(&row) && !row.is_empty() && language.usual_brackets() {
                    // Whatever it is, the brackets around it do not change what it is
                    let own = world.parse(&row)?;
                    let mut wrapped = vec![sym("(")];
                    wrapped.extend(row.iter().cloned());
                    wrapped.push(sym(")"));
                    let got = world.parse(&wrapped)?;
                    let bracket = |at: usize, s: &str| T { name: "BuiltIn::Operator".into(), start: at, end: at + 1, kids: K::Leaf(vec![s.into()]) };
                    let want = T {
                        name: "Core::RoundBrackets".into(),
                        start: 0,
                        end: wrapped.len(),
                        kids: K::Kids(vec![bracket(0, "("), own.shifted(1), bracket(wrapped.len() - 1, ")")]),
                    };
                    mon.note(|| show(&wrapped));
                    ensure!(got == want, "in brackets, it parses to {} instead of {}", got.show(), want.show());
                    mon.count(if has_errors(&own) { "with mistakes in brackets" } else { "without mistakes in brackets" });
                }
                (world, row)
            } else {
                let custom = rng.one_in(3);
                let x = expression(rng, size, custom, mon);
                // Brackets
                let own = x.world.parse(&x.row)?;
                let mut wrapped = vec![sym("(")];
                wrapped.extend(x.row.iter().cloned());
                wrapped.push(sym(")"));
                let got = x.world.parse(&wrapped)?;
                let bracket = |at: usize, s: &str| T { name: "BuiltIn::Operator".into(), start: at, end: at + 1, kids: K::Leaf(vec![s.into()]) };
                let want = T {
                    name: "Core::RoundBrackets".into(),
                    start: 0,
                    end: wrapped.len(),
                    kids: K::Kids(vec![bracket(0, "("), own.shifted(1), bracket(wrapped.len() - 1, ")")]),
                };
                ensure!(got == want, "in brackets, it parses to {} instead of {}", got.show(), want.show());
                mon.count("expressions in brackets");
                // In a container
                let cell = vec![cont(*rng.pick(&[Kind::Frac, Kind::Root, Kind::Table]), 1, vec![x.row.clone(), vec![]])];
                let got = x.world.parse(&cell)?;
                match &got.kids {
                    K::Rows(_, _, trees) => ensure!(trees[0] == own, "in a container, it parses to {} instead of {}", trees[0].show(), own.show()),
                    _ => return Err(format!("a container parses to {}", got.show())),
                }
                (x.world, x.row)
            };
            mon.note(|| show(&row));
            let (a, b) = same_after_ids(&world, &row)?;
            ensure!(a == b, "parsed {} at first, and then {}", a.show(), b.show());
            if rng.one_in(40) && Rc::ptr_eq(&world, &full()) {
                let fresh = full_world();
                let c = fresh.parse(&row)?;
                ensure!(a == c, "another parser gives {} instead of {}", c.show(), a.show());
                let (x, y) = (world.parser.parse(&nodes_to_repo(&row)), fresh.parser.parse(&nodes_to_repo(&row)));
                ensure!(serde_json::to_string(&x).unwrap() == serde_json::to_string(&y).unwrap(), "another parser gives other ids");
                mon.count("compared with another parser");
            }
            check_cells(&world, &a, &row, mon)?;
            mon.distinct(&row);
            mon.sample(|| show(&row));
            Ok(())
        },
        probe: None,
        assumptions: &["chumsky is replaced by an implementation of the parts that are used, see DESIGN.md"],
    }
}

pub fn c27() -> Check {
    Check {
        id: "C27",
        rule: "random well-formed expressions as in C25, printed once without and once with spaces at random places between the tokens (also in the cells of containers); both trees must agree, ignoring whitespace nodes and ranges. Distinct: different expressions with spaces.",
        quick: 150_000,
        thorough: 7_500_000,
        case: |rng, size, mon| {
            let custom = rng.one_in(3);
            let x = expression(rng, size, custom, mon);
            let own = x.world.parse(&x.row)?;
            let percent = *rng.pick(&[10, 30, 60]);
            let mut printer = Printer::new(rng, percent);
            printer.whole_row(&Some(x.e.clone()));
            mon.note(|| show(&printer.row));
            let spaced = x.world.parse(&printer.row)?;
            ensure!(spaced.meaning() == own.meaning(), "parsed {} with spaces, and {} without", spaced.meaning().show(), own.meaning().show());
            mon.add("spaces", printer.spaces_written);
            if printer.spaces_written > 0 {
                mon.distinct(&printer.row);
            }
            // One place at a time
            if !x.gaps.is_empty() {
                let gap = *rng.pick(&x.gaps);
                let mut row = x.row.clone();
                row.insert(gap, sym(" "));
                mon.note(|| show(&row));
                let one = x.world.parse(&row)?;
                ensure!(one.meaning() == own.meaning(), "parsed {} with a space, and {} without", one.meaning().show(), own.meaning().show());
                mon.count("single spaces");
            }
            mon.sample(|| show(&printer.row));
            Ok(())
        },
        probe: None,
        assumptions: &[
            "spaces in empty brackets and empty rows are not between tokens (they become unknown tokens)",
            "chumsky is replaced by an implementation of the parts that are used, see DESIGN.md",
        ],
    }
}

/// A rule of some kind for a symbol
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum RuleKind {
    Atom,
    Prefix,
    Infix,
    Postfix,
}

pub fn c28() -> Check {
    Check {
        id: "C28",
        rule: "random modules that claim the same symbols (also symbols of the built-in modules) as operands, prefix, infix or postfix operators under different names, added in random order; the name in the tree must be that of the module added last. And random formulas: every id in a tree has a name, and names and ids map to each other, with one id for a name that is registered repeatedly. Distinct: different (modules, symbol, kind) combinations and formulas.",
        quick: 120_000,
        thorough: 6_000_000,
        case: |rng, size, mon| {
            // Names of all nodes. `parse` fails if there is one without a name
            let (world, row) = any_formula(rng, size);
            mon.note(|| show(&row));
            let t = world.parse(&row)?;
            let node = world.parser.parse(&nodes_to_repo(&row));
            fn walk(node: &parser::syntax_tree::SyntaxNode, t: &T, world: &World, mon: &mut Mon) -> CaseResult {
                let names = world.modules.get_rule_name_map();
                let path = names.get_reverse(node.name).ok_or("a node without a name")?;
                ensure!(names.get(path) == Some(node.name), "{} has the id {:?}, but is registered as {:?}", path, node.name, names.get(path));
                ensure!(world.modules.get_rule_name(path.clone()) == node.name, "{} has several ids", path);
                ensure!(path.to_string() == t.name && path.to_string().contains("::"), "unusual name {}", path);
                mon.count("nodes with names");
                match (&node.children, &t.kids) {
                    (parser::syntax_tree::SyntaxNodeChildren::Children(a), K::Kids(b)) => a.iter().zip(b).try_for_each(|(a, b)| walk(a, b, world, mon)),
                    (parser::syntax_tree::SyntaxNodeChildren::NewRows(a), K::Rows(_, _, b)) => a.values().zip(b).try_for_each(|(a, b)| walk(a, b, world, mon)),
                    _ => Ok(()),
                }
            }
            walk(&node, &t, &world, mon)?;
            mon.distinct(&row);

            // Many names
            if rng.one_in(20) {
                let mut modules = parser::parse_modules::ParseModules::new();
                let mut known: Vec<(PathIdentifier, parser::syntax_tree::SyntaxNodeNameId)> = vec![];
                let n = *rng.pick(&[3, 30, 80, 300, 700]);
                for i in 0..n {
                    let word = |rng: &mut Rng| format!("{}{}", rng.pick(&["a", "B", "é"]), (0..rng.below(3)).map(|_| *rng.pick(&["a", "B", "é", "0", "_"])).collect::<String>());
                    let path = if rng.bool() || known.is_empty() {
                        let mut parts: Vec<String> = (0..rng.between(2, 3)).map(|_| word(rng)).collect();
                        if rng.bool() {
                            parts.push(format!("N{}", i));
                        }
                        PathIdentifier::new(parts)
                    } else {
                        rng.pick(&known).0.clone()
                    };
                    let id = modules.with_rule_name(path.clone());
                    known.push((path, id));
                }
                let map = modules.get_rule_name_map().clone();
                let mut by_path = std::collections::HashMap::new();
                let mut by_id = std::collections::HashMap::new();
                for (path, id) in &known {
                    ensure!(*by_path.entry(path.clone()).or_insert(*id) == *id, "{} of {} names has several ids", path, n);
                    ensure!(*by_id.entry(*id).or_insert(path.clone()) == *path, "{} and {} have the same id", path, by_id[id]);
                    ensure!(map.get(path) == Some(*id) && map.get_reverse(*id) == Some(path), "the names map {} to {:?}, and {:?} to {:?}", path, map.get(path), id, map.get_reverse(*id));
                }
                mon.add("names registered", by_path.len());
            }
            // Conflicts
            let symbol = rng.pick(&["#", "@", "x", "+", "!", "*", "-", "alpha", "lim", "∞"]).to_string();
            let kind = *rng.pick(&[RuleKind::Atom, RuleKind::Prefix, RuleKind::Infix, RuleKind::Postfix]);
            let strength = rng.between(101, 1500) as u16;
            let count = rng.between(1, 4);
            let mut with_core = vec![];
            let before = rng.bool();
            let world = core_world(|modules, _| {
                let mut out: Vec<Rc<dyn ParseModule>> = vec![];
                if before {
                    out.push(Rc::new(parser::rule_collections::arithmetic_rules::ArithmeticRules::new(modules)));
                }
                for i in 0..count {
                    let id = |n: &str, modules: &mut parser::parse_modules::ParseModules| {
                        modules.with_rule_name(PathIdentifier::new(vec![format!("M{}", i), n.to_string()]))
                    };
                    let mut rules = vec![];
                    // Other rules around it
                    if rng.bool() {
                        rules.push(atom_rule(id("Other", modules), just_symbol_parser("other")));
                    }
                    let name = id("Rule", modules);
                    rules.push(match kind {
                        RuleKind::Atom => atom_rule(name, just_symbol_parser(symbol.clone())),
                        RuleKind::Prefix => prefix_rule(name, strength + i as u16, just_operator_parser(symbol.clone())),
                        RuleKind::Infix if rng.bool() => left_infix_rule(name, strength + i as u16, just_operator_parser(symbol.clone())),
                        RuleKind::Infix => right_infix_rule(name, strength + i as u16, just_operator_parser(symbol.clone())),
                        RuleKind::Postfix => postfix_rule(name, strength + i as u16, just_operator_parser(symbol.clone())),
                    });
                    with_core.push((name, *rules.last().and_then(|r| r.rule_name()).expect("every rule has a name")));
                    with_core.push((name, *parser::parse_module::name_only_rule(name).rule_name().expect("every rule has a name")));
                    if rng.bool() {
                        rules.push(prefix_rule(id("Another", modules), 5, just_operator_parser("another")));
                    }
                    // Registering a name again gives the same id
                    with_core.push((name, modules.with_rule_name(PathIdentifier::new(vec![format!("M{}", i), "Rule".into()]))));
                    let word = AutocompleteRule::new("word", vec![InputNode::symbol(format!("M{}", i))]);
                    out.push(Rc::new(TestModule { name: format!("M{}", i), rules, autocomplete: vec![word] }));
                }
                out
            });
            for (a, b) in with_core {
                ensure!(a == b, "a name has two ids, {:?} and {:?}", a, b);
            }
            let op = || sym(symbol.clone());
            // In brackets, because a variable would go on with a letter
            let row: MRow = symbols(match kind {
                RuleKind::Atom => "",
                RuleKind::Prefix => "y",
                RuleKind::Infix | RuleKind::Postfix => "(y)",
            });
            let row = match kind {
                RuleKind::Atom | RuleKind::Prefix => vec![vec![op()], row].concat(),
                RuleKind::Infix => vec![row.clone(), vec![op()], row].concat(),
                RuleKind::Postfix => vec![row, vec![op()]].concat(),
            };
            mon.note(|| format!("{:?} {} in {} modules, arithmetic before: {}: {}", kind, symbol, count, before, show(&row)));
            // An operand loses against a prefix operator, and a postfix operator against an infix operator: no conflict of modules
            let other_kind = before && ((kind == RuleKind::Atom && matches!(symbol.as_str(), "+" | "-"))
                || (kind == RuleKind::Postfix && matches!(symbol.as_str(), "+" | "*" | "-")));
            if !other_kind {
                let t = world.parse(&row)?;
                let want = format!("M{}::Rule", count - 1);
                ensure!(t.name == want, "{} is parsed as {} instead of {}", show(&row), t.name, want);
                mon.count(match kind {
                    RuleKind::Atom => "operand decided",
                    RuleKind::Prefix => "prefix decided",
                    RuleKind::Infix => "infix decided",
                    RuleKind::Postfix => "postfix decided",
                });
                mon.distinct(&(&symbol, kind, count, before, strength));
            }
            // Of equally good autocompletes, those of the module added last come first
            let pos = MPos::new(vec![], 4);
            let mut ed = editor_with(&world, &symbols("word"), &pos, &pos);
            let o = offered(&mut ed).ok_or("nothing is offered")?;
            let order: Vec<MRow> = o.matches.iter().map(|m| m.1.clone()).collect();
            let want: Vec<MRow> = (0..count).rev().map(|i| vec![sym(format!("M{}", i))]).collect();
            ensure!(order == want, "offered {:?} instead of {:?}", order, want);
            mon.count("autocomplete priority");
            Ok(())
        },
        probe: None,
        assumptions: &["modules conflict when they have rules of the same kind (operand, prefix, infix, postfix) for the same symbols"],
    }
}

pub fn c29() -> Check {
    Check {
        id: "C29",
        rule: "random rules (small alphabets, so that words overlap with themselves and each other; multi-byte and combining characters) and random rows of symbols (of one or several characters) and containers, every caret position and minimum length; the reported matches are compared with an independent search, for single rules and for a parser with all of them. Distinct: different (rules, row, caret, minimum) with at least one match.",
        quick: 2_000_000,
        thorough: 100_000_000,
        case: |rng, size, mon| {
            const ALPHABETS: [&[&str]; 10] = [&["a", " "], &["(", "\\", "\"", "."], &["A", "a"], &["\u{200d}", "\0", "\n", "a"], &["a", "b"], &["a"], &["é", "a", "∑"], &["e", "\u{301}", "é"], &["😀", "😁", "a"], &["a", "b", "c", "ab"]];
            let alphabet = *rng.pick(&ALPHABETS);
            let rules: Vec<(String, MRow)> = (0..rng.between(1, 4))
                .map(|i| ((0..rng.between(1, 2 + size / 15)).map(|_| *rng.pick(alphabet)).collect::<String>(), vec![sym(format!("R{}", i))]))
                .collect();
            let empties = rng.one_in(15);
            let mut row: MRow = vec![];
            for _ in 0..rng.below(4 + size / 10) {
                row.push(match rng.below(14) {
                    0 => cont(Kind::Sup, 1, vec![vec![sym("a")]]),
                    1..=2 => {
                        let n = rng.between(2, 3);
                        sym((0..n).map(|_| *rng.pick(alphabet)).collect::<String>())
                    }
                    3 if empties => sym(""),
                    _ => sym(*rng.pick(alphabet)),
                });
            }
            if rng.bool() {
                // A word at the end
                let word = rng.pick(&rules).0.clone();
                let mut chars = word.chars().peekable();
                while let Some(c) = chars.next() {
                    let mut s = c.to_string();
                    if rng.one_in(6) {
                        s.extend(chars.next());
                    }
                    row.push(sym(s));
                }
            }
            let nodes = nodes_to_repo(&row);
            mon.note(|| format!("rules {:?}, row {}", rules.iter().map(|r| &r.0).collect::<Vec<_>>(), show(&row)));
            let has_empty = row.iter().any(|n| n.as_sym() == Some(""));
            let world = with_rules(&rules);
            let list = AutocompleteRules(rules.iter().map(|(word, result)| AutocompleteRule::new(word.clone(), nodes_to_repo(result))).collect());
            for caret in 0..=row.len() {
                let min = rng.between(1, 4);
                let mut all = vec![];
                for (word, result) in &rules {
                    let rule = AutocompleteRule::new(word.clone(), nodes_to_repo(result));
                    let found = rule.matches(&nodes, caret, min);
                    for m in &found {
                        ensure!(m.is_complete_match() == (m.rule_match_length == word.len()), "{:?} is complete: {}", m, m.is_complete_match());
                        ensure!(m.rule.parser == *word, "a match of {:?} belongs to {:?}", word, m.rule.parser);
                    }
                    if has_empty {
                        // Empty symbols spell out nothing, it only must not crash
                        mon.count("rows with empty symbols");
                        continue;
                    }
                    let mut got: Vec<(usize, usize)> = found.iter().map(|m| (m.rule_match_length, m.input_match_length)).collect();
                    got.sort();
                    let mut want = vec![];
                    for k in min..=caret {
                        let Some(text) = row[caret - k..caret].iter().map(|n| n.as_sym()).collect::<Option<String>>() else { break };
                        if word.starts_with(&text) {
                            want.push((text.len(), k));
                        }
                    }
                    want.sort();
                    ensure!(got == want, "{:?} before {} with at least {} symbols: {:?} instead of {:?}", word, caret, min, got, want);
                    for (length, _) in &want {
                        mon.count(if *length == word.len() { "complete matches" } else { "partial matches" });
                    }
                    all.extend(want.into_iter().map(|(length, k)| (word.clone(), show(result), length, k)));
                }
                if has_empty {
                    world.parser.matches(&nodes, caret, min);
                    continue;
                }
                // "^" and "_" are built in
                let mut got: Vec<(String, String, usize, usize)> = world
                    .parser
                    .matches(&nodes, caret, min)
                    .iter()
                    .map(|m| (m.rule.parser.clone(), show(&m.rule.result.iter().map(node_from_repo).collect()), m.rule_match_length, m.input_match_length))
                    .collect();
                got.sort();
                all.sort();
                let mut together: Vec<(String, String, usize, usize)> = list
                    .matches(&nodes, caret, min)
                    .iter()
                    .map(|m| (m.rule.parser.clone(), show(&m.rule.result.iter().map(node_from_repo).collect()), m.rule_match_length, m.input_match_length))
                    .collect();
                together.sort();
                ensure!(together == all, "a list of the rules before {} with at least {} symbols: {:?} instead of {:?}", caret, min, together, all);
                ensure!(got == all, "all rules before {} with at least {} symbols: {:?} instead of {:?}", caret, min, got, all);
                if !all.is_empty() {
                    mon.distinct(&(rules.iter().map(|r| &r.0).collect::<Vec<_>>(), &row, caret, min));
                    mon.sample(|| format!("{:?} in {} before {}: {:?}", rules.iter().map(|r| &r.0).collect::<Vec<_>>(), show(&row), caret, all));
                }
            }
            Ok(())
        },
        probe: None,
        assumptions: &["the minimum is at least 1, and rules are not empty"],
    }
}
