//! Syntax trees, as the monitors see them, and well-formed expressions with the trees they should have.
use crate::world::*;
use input_tree::grid::Grid;
use monitor_common::*;
use parser::{
    make_parser::{just_operator_parser, just_symbol_parser},
    parse_module::*,
    syntax_tree::{PathIdentifier, SyntaxNode, SyntaxNodeChildren, SyntaxNodeNameMap},
};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct T {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub kids: K,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Leaf(Vec<String>),
    Kids(Vec<T>),
    Rows(usize, usize, Vec<T>),
}

impl T {
    pub fn of(node: &SyntaxNode, names: &SyntaxNodeNameMap) -> Result<T, String> {
        let name = names.get_reverse(node.name).ok_or_else(|| format!("a node has the name {:?}, which is not known", node.name))?;
        let kids = match &node.children {
            SyntaxNodeChildren::Leaf(leaf) => K::Leaf(leaf.symbols.clone()),
            SyntaxNodeChildren::Children(kids) => K::Kids(kids.iter().map(|k| T::of(k, names)).collect::<Result<_, _>>()?),
            SyntaxNodeChildren::NewRows(grid) => {
                K::Rows(grid.width(), grid.height(), grid.values().map(|k| T::of(k, names)).collect::<Result<_, _>>()?)
            }
        };
        Ok(T { name: name.to_string(), start: node.range().start, end: node.range().end, kids })
    }
    /// Without ranges and without whitespace
    pub fn meaning(&self) -> T {
        if let ("BuiltIn::Whitespaces", K::Kids(kids)) = (self.name.as_str(), &self.kids) {
            let inner: Vec<&T> = kids.iter().filter(|k| k.name != "BuiltIn::Whitespace").collect();
            if inner.len() == 1 {
                return inner[0].meaning();
            }
        }
        T {
            name: self.name.clone(),
            start: 0,
            end: 0,
            kids: match &self.kids {
                K::Leaf(symbols) => K::Leaf(symbols.clone()),
                K::Kids(kids) => K::Kids(kids.iter().map(T::meaning).collect()),
                K::Rows(w, h, kids) => K::Rows(*w, *h, kids.iter().map(T::meaning).collect()),
            },
        }
    }
    pub fn shifted(&self, by: usize) -> T {
        T {
            name: self.name.clone(),
            start: self.start + by,
            end: self.end + by,
            kids: match &self.kids {
                K::Kids(kids) => K::Kids(kids.iter().map(|k| k.shifted(by)).collect()),
                // New rows have positions of their own
                other => other.clone(),
            },
        }
    }
    pub fn show(&self) -> String {
        let kids = match &self.kids {
            K::Leaf(symbols) => format!("{:?}", symbols),
            K::Kids(kids) => kids.iter().map(T::show).collect::<Vec<_>>().join(" "),
            K::Rows(w, h, kids) => format!("{}x{} {}", w, h, kids.iter().map(T::show).collect::<Vec<_>>().join(" ")),
        };
        format!("({}@{}..{} {})", self.name, self.start, self.end, kids)
    }
    pub fn count(&self) -> usize {
        1 + match &self.kids {
            K::Leaf(_) => 0,
            K::Kids(kids) | K::Rows(_, _, kids) => kids.iter().map(T::count).sum(),
        }
    }
}

impl World {
    pub fn parse(&self, row: &MRow) -> Result<T, String> {
        let nodes = nodes_to_repo(row);
        let node = guarded(|| self.parser.parse(&nodes)).map_err(|e| format!("parsing {} {}", show(row), e))?;
        T::of(&node, self.modules.get_rule_name_map())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fix {
    Prefix,
    Postfix,
    Left,
    Right,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OpDef {
    pub name: String,
    pub symbols: Vec<String>,
    pub fix: Fix,
    pub strength: u16,
}
impl OpDef {
    fn new(name: &str, symbols: &str, fix: Fix, strength: u16) -> OpDef {
        OpDef { name: name.into(), symbols: symbols.chars().map(|c| c.to_string()).collect(), fix, strength }
    }
    /// How strongly the operator pulls on what is left of it
    pub fn left(&self) -> (u16, bool) {
        (self.strength, matches!(self.fix, Fix::Postfix | Fix::Right))
    }
    pub fn right(&self) -> (u16, bool) {
        (self.strength, !self.left().1)
    }
}

/// What can appear in expressions
pub struct Language {
    pub ops: Vec<OpDef>,
    /// Function application (with its strength)
    pub calls: Option<u16>,
    /// How many operators were added before it
    pub calls_at: usize,
    pub numbers: bool,
    pub strings: bool,
    pub constants: Vec<(String, String)>,
    /// What operands there are, the rules that were added last come last
    pub operands: Vec<Operand>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Operand {
    Constant(String, String),
    Number,
    Text,
    Variable,
    Round,
}

impl Language {
    pub fn new(ops: Vec<OpDef>, calls: Option<u16>, numbers: bool, strings: bool, constants: Vec<(String, String)>) -> Language {
        let mut operands = vec![Operand::Variable, Operand::Round];
        if numbers {
            operands.push(Operand::Number);
        }
        if strings {
            operands.push(Operand::Text);
        }
        operands.extend(constants.iter().map(|(name, symbol)| Operand::Constant(name.clone(), symbol.clone())));
        Language { ops, calls, calls_at: 0, numbers, strings, constants, operands }
    }
    /// Whether brackets are brackets and quotes are no operators
    pub fn usual_brackets(&self) -> bool {
        let special = |s: &String| matches!(s.as_str(), "(" | ")" | "\"" | "\\");
        self.operands.contains(&Operand::Round) && !self.ops.iter().any(|o| o.symbols.iter().any(special)) && !self.constants.iter().any(|(_, s)| special(s))
    }
}

/// The documented operators of the modules
pub fn full_language() -> Language {
    use Fix::*;
    let ops = vec![
        OpDef::new("Comparison::Equals", "=", Left, 40),
        OpDef::new("Comparison::GreaterThan", ">", Left, 50),
        OpDef::new("Comparison::LessThan", "<", Left, 50),
        OpDef::new("Comparison::GreaterThanOrEquals", "≥", Left, 50),
        OpDef::new("Comparison::LessThanOrEquals", "≤", Left, 50),
        OpDef::new("Collections::Tuple", ",", Left, 50),
        OpDef::new("Arithmetic::Add", "+", Left, 100),
        OpDef::new("Arithmetic::Subtract", "-", Left, 100),
        OpDef::new("Logic::And", "∧", Left, 100),
        OpDef::new("Logic::Or", "∨", Left, 100),
        OpDef::new("Logic::Not", "¬", Left, 100),
        OpDef::new("Logic::Equivalent", "⇔", Left, 100),
        OpDef::new("Logic::Implies", "⟹", Left, 100),
        OpDef::new("Calculus::Lim", "lim", Prefix, 100),
        OpDef::new("Calculus::LimSup", "limsup", Prefix, 100),
        OpDef::new("Calculus::LimInf", "liminf", Prefix, 100),
        OpDef::new("Calculus::Sum", "∑", Prefix, 100),
        OpDef::new("Calculus::Integral", "∫", Prefix, 100),
        OpDef::new("Arithmetic::Multiply", "*", Left, 200),
        OpDef::new("Arithmetic::Divide", "/", Left, 200),
        OpDef::new("Arithmetic::Add", "+", Prefix, 400),
        OpDef::new("Arithmetic::Subtract", "-", Prefix, 400),
        OpDef::new("Arithmetic::Factorial", "!", Postfix, 600),
        OpDef::new("Arithmetic::Exponent", "^", Postfix, 850),
    ];
    let constants = [("Calculus::Infinity", "∞"), ("Logic::True", "⊤"), ("Logic::False", "⊥")];
    let constants = constants.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    Language::new(ops, Some(800), true, true, constants)
}

/// Some of the documented modules in any order, and perhaps a module of the harness that knows some of the same symbols
pub fn modules_language(rng: &mut Rng, well_known: bool) -> (Language, World) {
    let full = full_language();
    let mut order: Vec<&str> = MODULES.iter().copied().filter(|m| !rng.one_in(4) || well_known && *m == "Core").collect();
    rng.shuffle(&mut order);
    let at = if rng.bool() { 0 } else { rng.between(0, order.len()) };
    order.insert(at, "BuiltIn");
    if !well_known && rng.percent(70) {
        let at = rng.between(0, order.len());
        order.insert(at, "Test");
    }
    let mut rules: Vec<OpDef> = vec![];
    let mut constants = vec![];
    for i in 0..rng.between(1, 5) {
        let symbols = match rng.below(4) {
            0 => vec![rng.pick(&["#", "@", "π", "e", "⊤", "1", "x", "\"", "\\", "(", ")", " ", "_", "."]).to_string()],
            1 => {
                let known = rng.pick(&full.ops).symbols.clone();
                known[..rng.between(1, known.len())].to_vec()
            }
            2 => {
                let mut known = rng.pick(&full.ops).symbols.clone();
                known.push(rng.pick(&["=", "+", "1", "e", "-"]).to_string());
                known
            }
            _ => (0..rng.between(1, 3)).map(|_| rng.pick(&["a", "l", "i", "m", "1", "#", "=", "+"]).to_string()).collect(),
        };
        if symbols.len() == 1 && rng.bool() {
            constants.push((format!("Test::Const{}", i), symbols[0].clone()));
        } else {
            let fix = *rng.pick(&[Fix::Prefix, Fix::Postfix, Fix::Left, Fix::Right]);
            // A closing bracket as an operator breaks the brackets
            let strength = *rng.pick(&[0, 40, 50, 100, 150, 200, 300, 400, 500, 600, 800, 850, 999, 1000, 1001, 65535]);
            rules.push(OpDef { name: format!("Test::Op{}", i), symbols, fix, strength });
        }
    }
    let world = world_of(&order, |modules| {
        let mut id = |name: &str| modules.with_rule_name(PathIdentifier::new(name.split("::").map(|v| v.to_string()).collect()));
        let mut out: Vec<ParseRule> = rules
            .iter()
            .map(|op| {
                let (name, parser) = (id(&op.name), just_operator_parser(op.symbols.clone()));
                match op.fix {
                    Fix::Prefix => prefix_rule(name, op.strength, parser),
                    Fix::Postfix => postfix_rule(name, op.strength, parser),
                    Fix::Left => left_infix_rule(name, op.strength, parser),
                    Fix::Right => right_infix_rule(name, op.strength, parser),
                }
            })
            .collect();
        for (name, symbol) in &constants {
            out.push(atom_rule(id(name), just_symbol_parser(symbol.clone())));
        }
        Rc::new(TestModule { name: "Test".into(), rules: out, autocomplete: vec![] })
    });
    let (mut ops, mut operands, mut calls_at) = (vec![], vec![], 0);
    for module in &order {
        match *module {
            "Test" => {
                ops.extend(rules.clone());
                operands.extend(constants.iter().map(|(n, s)| Operand::Constant(n.clone(), s.clone())));
            }
            "Core" => operands.extend([Operand::Variable, Operand::Round]),
            "Function" => calls_at = ops.len(),
            "Arithmetic" => operands.push(Operand::Number),
            "String" => operands.push(Operand::Text),
            _ => {}
        }
        let own = |name: &str| name.split("::").next() == Some(module) && *module != "Test";
        ops.extend(full.ops.iter().filter(|op| own(&op.name)).cloned());
        operands.extend(full.constants.iter().filter(|(name, _)| own(name)).map(|(n, s)| Operand::Constant(n.clone(), s.clone())));
    }
    let has = |name: &str| order.contains(&name);
    let constants = operands.iter().filter_map(|o| match o {
        Operand::Constant(n, s) => Some((n.clone(), s.clone())),
        _ => None,
    }).collect();
    let calls = has("Function").then_some(800);
    (Language { ops, calls, calls_at, numbers: has("Arithmetic"), strings: has("String"), constants, operands }, world)
}

const OP_SYMBOLS: [&str; 16] = ["#", "@", "%", "&", "$", "~", "?", ":", ";", "<", ">", "=", "|", "∘", "⊕", "→"];

/// Operators of random kinds and strengths
pub fn random_language(rng: &mut Rng) -> (Language, World) {
    use Fix::*;
    let mut strengths: Vec<u16> = vec![0, 1, 2, 40, 99, 100, 101, 255, 256, 257, 400, 999, 1000, 1001, 32767, 32768, 65534, 65535];
    for _ in 0..4 {
        let s = rng.below(65536) as u16;
        if !strengths.contains(&s) {
            strengths.push(s);
        }
    }
    let mut ops: Vec<OpDef> = vec![];
    let mut symbols: Vec<&str> = OP_SYMBOLS.to_vec();
    for i in 0..rng.between(2, 9) {
        if symbols.is_empty() || strengths.is_empty() {
            break;
        }
        let at = rng.below(symbols.len());
        let symbol = symbols.remove(at);
        let at = rng.below(strengths.len());
        let strength = strengths.remove(at);
        let fix = *rng.pick(&[Prefix, Postfix, Left, Left, Right, Right]);
        let mut word = vec![symbol.to_string()];
        // Longer operators
        for _ in 0..if rng.one_in(4) { rng.between(1, 2) } else { 0 } {
            word.push(rng.pick(&["a", "b", "#", "12", "é"]).to_string());
        }
        // Infix operators of equal strength and associativity
        let siblings = if matches!(fix, Left | Right) && rng.one_in(3) { 2 } else { 1 };
        for s in 0..siblings {
            let mut word = word.clone();
            if s > 0 {
                let Some(symbol) = symbols.pop() else { break };
                word[0] = symbol.to_string();
            }
            ops.push(OpDef { name: format!("Test::Op{}x{}", i, s), symbols: word.clone(), fix, strength });
            // The same operator before an operand and after (or between) operands, like the minus
            if rng.one_in(4) && fix != Prefix && !strengths.is_empty() {
                let at = rng.below(strengths.len());
                let strength = strengths.remove(at);
                ops.push(OpDef { name: format!("Test::Sign{}x{}", i, s), symbols: word, fix: Prefix, strength });
            }
        }
    }
    let constants = vec![("Test::Const".to_string(), "∞".to_string())];
    let calls = rng.one_in(3);
    let world = core_world(|modules, built_in| {
        let mut rules = vec![];
        let mut id = |name: &str| modules.with_rule_name(PathIdentifier::new(name.split("::").map(|v| v.to_string()).collect()));
        for op in &ops {
            let name = id(&op.name);
            let parser = just_operator_parser(op.symbols.clone());
            rules.push(match op.fix {
                Prefix => prefix_rule(name, op.strength, parser),
                Postfix => postfix_rule(name, op.strength, parser),
                Left => left_infix_rule(name, op.strength, parser),
                Right => right_infix_rule(name, op.strength, parser),
            });
        }
        for (name, symbol) in &constants {
            rules.push(atom_rule(id(name), just_symbol_parser(symbol.clone())));
        }
        let mut out: Vec<Rc<dyn ParseModule>> = vec![];
        if calls {
            out.push(Rc::new(parser::rule_collections::function_rules::FunctionRules::new(modules, built_in)));
        }
        out.push(Rc::new(TestModule { name: "Test".into(), rules, autocomplete: vec![] }));
        out
    });
    (Language::new(ops, if calls { Some(800) } else { None }, false, false, constants), world)
}

/// A well-formed expression
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Expr {
    /// Name and symbols
    Token(String, Vec<String>),
    Container(Kind, usize, Vec<Option<Expr>>),
    Infix(OpDef, Scripts, Box<Expr>, Box<Expr>),
    Prefix(OpDef, Scripts, Box<Expr>),
    Postfix(OpDef, Box<Expr>),
    Call(u16, Box<Expr>, Option<Box<Expr>>),
    Script(Kind, Box<Expr>, Option<Box<Expr>>),
    Round(Option<Box<Expr>>),
}
/// Sub- and superscripts of an operator
pub type Scripts = Vec<(Kind, Option<Expr>)>;

pub struct ExprGen<'a> {
    pub language: &'a Language,
    pub budget: usize,
}

impl ExprGen<'_> {
    fn inner(&mut self, rng: &mut Rng, depth: usize) -> Option<Expr> {
        if rng.one_in(6) { None } else { Some(self.expr(rng, depth)) }
    }
    fn scripts(&mut self, rng: &mut Rng, depth: usize) -> Scripts {
        let mut out = vec![];
        while depth > 0 && rng.one_in(7) && out.len() < 3 {
            let kind = if rng.bool() { Kind::Sub } else { Kind::Sup };
            out.push((kind, self.inner(rng, depth.min(2) - 1)));
        }
        out
    }
    fn token(&mut self, rng: &mut Rng) -> Expr {
        let language = self.language;
        match rng.below(8) {
            0..=1 if language.numbers => {
                let digits = |rng: &mut Rng| -> Vec<String> { (0..rng.between(1, 3)).map(|_| rng.pick(&["0", "1", "7", "9", "42"]).to_string()).collect() };
                let mut symbols = digits(rng);
                if rng.one_in(3) {
                    symbols.push(".".into());
                    symbols.extend(digits(rng));
                }
                Expr::Token("Arithmetic::Number".into(), symbols)
            }
            2 if language.strings => {
                let mut symbols = vec!["\"".to_string()];
                for _ in 0..rng.below(4) {
                    if rng.one_in(4) {
                        symbols.push("\\".into());
                        symbols.push(rng.pick(&["\"", "\\", "n", " "]).to_string());
                    } else {
                        symbols.push(rng.pick(&["a", " ", "+", "(", ")", "lim", "é", "1", "'"]).to_string());
                    }
                }
                symbols.push("\"".into());
                Expr::Token("String::String".into(), symbols)
            }
            3 if !language.constants.is_empty() => {
                let (name, symbol) = rng.pick(&language.constants).clone();
                Expr::Token(name, vec![symbol])
            }
            _ => {
                // No variable looks like the rest of "limsup" or "liminf"
                let mut symbols = vec![rng.pick(&["a", "b", "x", "y", "f", "é", "π", "alpha", "x2"]).to_string()];
                for _ in 0..if rng.one_in(3) { rng.between(1, 3) } else { 0 } {
                    symbols.push(rng.pick(&["l", "i", "m", "1", "2", "a", "_", "ab"]).to_string());
                }
                Expr::Token("Core::Variable".into(), symbols)
            }
        }
    }
    pub fn expr(&mut self, rng: &mut Rng, depth: usize) -> Expr {
        if self.budget == 0 || depth == 0 {
            return self.token(rng);
        }
        self.budget -= 1;
        let n = rng.below(20);
        match n {
            0..=12 if !self.language.ops.is_empty() => {
                let op = rng.pick(&self.language.ops).clone();
                match op.fix {
                    Fix::Prefix => {
                        let scripts = self.scripts(rng, depth);
                        Expr::Prefix(op, scripts, Box::new(self.expr(rng, depth - 1)))
                    }
                    Fix::Postfix => Expr::Postfix(op, Box::new(self.expr(rng, depth - 1))),
                    _ => {
                        let scripts = self.scripts(rng, depth);
                        let left = self.expr(rng, depth - 1);
                        Expr::Infix(op, scripts, Box::new(left), Box::new(self.expr(rng, depth - 1)))
                    }
                }
            }
            13 => match self.language.calls {
                Some(strength) => {
                    let f = self.expr(rng, depth - 1);
                    Expr::Call(strength, Box::new(f), self.inner(rng, depth - 1).map(Box::new))
                }
                None => self.token(rng),
            },
            14..=15 => {
                let left = self.expr(rng, depth - 1);
                let kind = if rng.bool() { Kind::Sub } else { Kind::Sup };
                Expr::Script(kind, Box::new(left), self.inner(rng, depth - 1).map(Box::new))
            }
            16 => Expr::Round(self.inner(rng, depth - 1).map(Box::new)),
            17..=18 => {
                let (kind, width, count) = match rng.below(4) {
                    0 => (Kind::Frac, 1, 2),
                    1 => (Kind::Root, 2, 2),
                    _ => {
                        let w = rng.between(1, 3);
                        (Kind::Table, w, w * rng.between(1, 2))
                    }
                };
                Expr::Container(kind, width, (0..count).map(|_| self.inner(rng, depth - 1)).collect())
            }
            _ => self.token(rng),
        }
    }
}

/// May an operator that pulls with `left` follow this expression, without taking a part of it?
fn right_side_safe(e: &Expr, left: (u16, bool)) -> bool {
    match e {
        Expr::Infix(op, _, _, right) | Expr::Prefix(op, _, right) => left < op.right() && right_side_safe(right, left),
        _ => true,
    }
}
/// May an operator that pulls with `right` precede this expression, without taking a part of it?
fn left_side_safe(e: &Expr, right: (u16, bool)) -> bool {
    match e {
        Expr::Infix(op, _, left, _) | Expr::Postfix(op, left) => op.left() >= right && left_side_safe(left, right),
        Expr::Call(strength, left, _) => (*strength, true) >= right && left_side_safe(left, right),
        Expr::Script(_, left, _) => (1000, true) >= right && left_side_safe(left, right),
        _ => true,
    }
}

/// Adds the brackets that are needed (and some that are not)
pub fn add_brackets(rng: &mut Rng, e: Expr, extra: usize) -> Expr {
    let go = |rng: &mut Rng, e: Box<Expr>, safe: &dyn Fn(&Expr) -> bool| -> Box<Expr> {
        let e = add_brackets(rng, *e, extra);
        if !safe(&e) || rng.percent(extra) { Box::new(Expr::Round(Some(Box::new(e)))) } else { Box::new(e) }
    };
    fn scripts(rng: &mut Rng, s: Scripts, extra: usize) -> Scripts {
        s.into_iter().map(|(k, e)| (k, e.map(|e| add_brackets(rng, e, extra)))).collect()
    }
    match e {
        Expr::Token(..) => e,
        Expr::Container(kind, width, cells) => {
            Expr::Container(kind, width, cells.into_iter().map(|c| c.map(|c| add_brackets(rng, c, extra))).collect())
        }
        Expr::Infix(op, s, l, r) => {
            let l = go(rng, l, &|e| right_side_safe(e, op.left()));
            let r = go(rng, r, &|e| left_side_safe(e, op.right()));
            let s = scripts(rng, s, extra);
            Expr::Infix(op, s, l, r)
        }
        Expr::Prefix(op, s, e) => {
            let e = go(rng, e, &|e| left_side_safe(e, op.right()));
            let s = scripts(rng, s, extra);
            Expr::Prefix(op, s, e)
        }
        Expr::Postfix(op, e) => {
            let e = go(rng, e, &|e| right_side_safe(e, op.left()));
            Expr::Postfix(op, e)
        }
        Expr::Call(strength, f, x) => {
            let f = go(rng, f, &|e| right_side_safe(e, (strength, true)));
            Expr::Call(strength, f, x.map(|x| go(rng, x, &|_| true)))
        }
        Expr::Script(kind, e, x) => {
            let e = go(rng, e, &|e| right_side_safe(e, (1000, true)));
            Expr::Script(kind, e, x.map(|x| go(rng, x, &|_| true)))
        }
        Expr::Round(x) => Expr::Round(x.map(|x| go(rng, x, &|_| true))),
    }
}

/// Writes an expression into a row
pub struct Printer {
    pub row: MRow,
    /// Places between tokens, where spaces do not matter
    pub gaps: Vec<usize>,
    /// Writes spaces into the gaps, with this probability (in percent)
    pub spaces: usize,
    pub rng: Rng,
    pub spaces_written: usize,
}

impl Printer {
    pub fn new(rng: &mut Rng, spaces: usize) -> Printer {
        Printer { row: vec![], gaps: vec![], spaces, rng: Rng::new(rng.next()), spaces_written: 0 }
    }
    fn nested(&mut self) -> Printer {
        let spaces = self.spaces;
        Printer::new(&mut self.rng, spaces)
    }
    fn gap(&mut self) {
        self.gaps.push(self.row.len());
        while self.rng.percent(self.spaces) {
            self.row.push(sym(" "));
            self.spaces_written += 1;
        }
    }
    fn leaf(&mut self, name: &str, symbols: &[String]) -> T {
        let start = self.row.len();
        self.row.extend(symbols.iter().map(sym));
        let symbols = symbols.to_vec();
        T { name: name.into(), start, end: self.row.len(), kids: K::Leaf(symbols) }
    }
    /// A row of its own, with the tree it should have
    pub fn whole_row(&mut self, e: &Option<Expr>) -> T {
        match e {
            None => T { name: "Error::MissingToken".into(), start: 0, end: 0, kids: K::Kids(vec![]) },
            Some(e) => {
                self.gap();
                let t = self.print(e);
                self.gap();
                t
            }
        }
    }
    fn container(&mut self, name: &str, kind: Kind, width: usize, cells: &[Option<Expr>]) -> T {
        let start = self.row.len();
        let (mut rows, mut trees) = (vec![], vec![]);
        for cell in cells {
            let mut inner = self.nested();
            trees.push(inner.whole_row(cell));
            rows.push(inner.row);
            self.spaces_written += inner.spaces_written;
        }
        self.row.push(cont(kind, width, rows));
        T { name: name.into(), start, end: start + 1, kids: K::Rows(width, trees.len() / width, trees) }
    }
    fn node(name: &str, kids: Vec<T>) -> T {
        T { name: name.into(), start: kids[0].start, end: kids.last().unwrap().end, kids: K::Kids(kids) }
    }
    fn script_name(kind: Kind) -> &'static str {
        if kind == Kind::Sub { "BuiltIn::Sub" } else { "BuiltIn::Sup" }
    }
    fn operator(&mut self, op: &OpDef, scripts: &Scripts) -> T {
        let mut t = self.leaf("BuiltIn::Operator", &op.symbols);
        for (kind, e) in scripts {
            self.gap();
            let script = self.container("BuiltIn::Operator", *kind, 1, std::slice::from_ref(e));
            t = Self::node(Self::script_name(*kind), vec![t, script]);
        }
        t
    }
    fn brackets(&mut self, name: &str, x: &Option<Box<Expr>>) -> T {
        let mut kids = vec![self.leaf("BuiltIn::Operator", &["(".to_string()])];
        if let Some(x) = x {
            self.gap();
            kids.push(self.print(x));
            self.gap();
        }
        kids.push(self.leaf("BuiltIn::Operator", &[")".to_string()]));
        Self::node(name, kids)
    }
    pub fn print(&mut self, e: &Expr) -> T {
        match e {
            Expr::Token(name, symbols) => {
                // Constants are made of one symbol
                self.leaf(name, symbols)
            }
            Expr::Container(kind, width, cells) => {
                let name = match kind {
                    Kind::Frac => "BuiltIn::Fraction",
                    Kind::Root => "BuiltIn::Root",
                    _ => "BuiltIn::Table",
                };
                self.container(name, *kind, *width, cells)
            }
            Expr::Infix(op, scripts, l, r) => {
                let l = self.print(l);
                self.gap();
                let o = self.operator(op, scripts);
                self.gap();
                let r = self.print(r);
                Self::node(&op.name, vec![l, o, r])
            }
            Expr::Prefix(op, scripts, e) => {
                let o = self.operator(op, scripts);
                self.gap();
                let e = self.print(e);
                Self::node(&op.name, vec![o, e])
            }
            Expr::Postfix(op, e) => {
                let e = self.print(e);
                self.gap();
                let o = self.operator(op, &vec![]);
                Self::node(&op.name, vec![e, o])
            }
            Expr::Call(_, f, x) => {
                let f = self.print(f);
                self.gap();
                let x = self.brackets("BuiltIn::Operator", x);
                Self::node("Function::FunctionApplication", vec![f, x])
            }
            Expr::Script(kind, e, x) => {
                let e = self.print(e);
                self.gap();
                let x = self.container("BuiltIn::Operator", *kind, 1, &[x.as_deref().cloned()]);
                Self::node(Self::script_name(*kind), vec![e, x])
            }
            Expr::Round(x) => self.brackets("Core::RoundBrackets", x),
        }
    }
}
