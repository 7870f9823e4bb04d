//! Random formulas.
use crate::{Body, cont, sym, Kind, MRow, MNode, Rng};

#[derive(Clone)]
pub struct Shape {
    pub max_depth: usize,
    pub max_len: usize,
    /// Percent of elements that are containers
    pub containers: usize,
    pub max_table: usize,
    /// Percent of rows that are empty
    pub empty: usize,
    /// Percent of containers with an unusual number of cells (e.g. a fraction with 3 cells)
    pub odd: usize,
    /// Percent of formulas that are unusually long, deep, or have unusually big tables
    pub wild: usize,
    /// How deep the very deep ones are at most
    pub deep: usize,
    /// Percent of rows that consist of the same element several times
    pub repeat: usize,
}

impl Shape {
    /// Shapes grow with the size (0..=100)
    pub fn sized(size: usize) -> Self {
        Shape {
            max_depth: 1 + size / 25,
            max_len: 2 + size / 14,
            containers: 35,
            max_table: 2 + size / 40,
            empty: 20,
            odd: 0,
            wild: if size > 40 { 5 } else { 0 },
            deep: 40,
            repeat: 2,
        }
    }
}

pub fn row(rng: &mut Rng, shape: &Shape, symbol: &mut dyn FnMut(&mut Rng) -> String) -> MRow {
    let mut budget = 120;
    if shape.wild > 0 && rng.percent(shape.wild) {
        if rng.one_in(12) {
            return huge(rng, shape, symbol);
        }
        let shape = match rng.below(5) {
            3 => Shape { repeat: 50, empty: 5, ..shape.clone() },
            0 => Shape { max_len: *rng.pick(&[20, 40, 80, 150]), containers: 4, max_depth: 2, max_table: 2, empty: 5, ..shape.clone() },
            1 => Shape { max_len: 3, containers: 60, max_depth: rng.between(6, 14), max_table: 2, empty: 5, ..shape.clone() },
            2 => Shape { max_len: 2, containers: 50, max_depth: 1, max_table: rng.between(5, 11), empty: 10, ..shape.clone() },
            _ => Shape { max_len: rng.between(5, 20), containers: 60, max_depth: 2, max_table: 3, empty: 5, ..shape.clone() },
        };
        return row_inner(rng, &shape, symbol, shape.max_depth, &mut budget);
    }
    row_inner(rng, shape, symbol, shape.max_depth, &mut budget)
}

/// Beyond anything that fits a byte, or that one would write by hand
fn huge(rng: &mut Rng, shape: &Shape, symbol: &mut dyn FnMut(&mut Rng) -> String) -> MRow {
    let flat = Shape { max_depth: 1, max_len: 2, containers: 3, max_table: 2, empty: 30, odd: 0, ..shape.clone() };
    let mut budget = 1000;
    let mut symbols = |rng: &mut Rng, n: usize| -> MRow { (0..n).map(|_| node_inner(rng, &flat, symbol, 1, &mut budget)).collect() };
    match rng.below(3) {
        0 => {
            let n = rng.between(200, 320);
            symbols(rng, n)
        }
        1 => {
            let (w, h) = *rng.pick(&[(1, 300), (300, 1), (17, 17), (40, 3), (3, 40), (260, 2), (2, 260), (12, 12)]);
            let cells = (0..w * h).map(|_| { let n = rng.below(2); symbols(rng, n) }).collect();
            let mut row = symbols(rng, 2);
            row.push(cont(Kind::Table, w, cells));
            let behind = rng.below(3);
            row.extend(symbols(rng, behind));
            row
        }
        _ => {
            let mut row = symbols(rng, 1);
            for _ in 0..rng.between(shape.deep / 3, shape.deep) {
                let before = rng.below(3);
                let mut outer = symbols(rng, before);
                let other = rng.below(2);
                let (kind, width, mut cells) = match rng.below(5) {
                    0 => (Kind::Frac, 1, vec![symbols(rng, other)]),
                    1 => (Kind::Root, 2, vec![symbols(rng, other)]),
                    2 => (Kind::Sup, 1, vec![]),
                    3 => (Kind::Sub, 1, vec![]),
                    _ => (Kind::Table, 1 + other, vec![symbols(rng, 1)]),
                };
                let at = rng.between(0, cells.len());
                cells.insert(at, row);
                outer.push(cont(kind, width, cells));
                let behind = rng.below(2);
                outer.extend(symbols(rng, behind));
                row = outer;
            }
            row
        }
    }
}

fn opens_brackets(node: &MNode) -> bool {
    match &node.body {
        Body::Sym(s) => s == "(",
        Body::Cont(_, _, rows) => rows.iter().flatten().any(opens_brackets),
    }
}

fn row_inner(
    rng: &mut Rng,
    shape: &Shape,
    symbol: &mut dyn FnMut(&mut Rng) -> String,
    depth: usize,
    budget: &mut usize,
) -> MRow {
    let len = if rng.percent(shape.empty) {
        0
    } else {
        rng.between(1, shape.max_len)
    };
    let mut out = vec![];
    if len > 0 && rng.percent(shape.repeat) {
        let depth = if rng.one_in(3) { depth } else { 0 };
        let same = node_inner(rng, shape, symbol, depth, budget);
        if opens_brackets(&same) {
            // Parsing takes exponential time in the number of brackets (a known finding of C23)
            return vec![same];
        }
        let times = if depth == 0 { rng.between(2, 14) } else { rng.between(2, 4) };
        return vec![same; times];
    }
    for _ in 0..len {
        out.push(node_inner(rng, shape, symbol, depth, budget));
    }
    out
}

pub fn node(rng: &mut Rng, shape: &Shape, symbol: &mut dyn FnMut(&mut Rng) -> String) -> MNode {
    let mut budget = 40;
    node_inner(rng, shape, symbol, shape.max_depth, &mut budget)
}

fn node_inner(
    rng: &mut Rng,
    shape: &Shape,
    symbol: &mut dyn FnMut(&mut Rng) -> String,
    depth: usize,
    budget: &mut usize,
) -> MNode {
    if *budget > 0 {
        *budget -= 1;
    }
    if depth == 0 || *budget == 0 || !rng.percent(shape.containers) {
        return sym(symbol(rng));
    }
    let (kind, mut width, mut count) = match rng.below(6) {
        0 => (Kind::Frac, 1, 2),
        1 => (Kind::Root, 2, 2),
        2 => (Kind::Sup, 1, 1),
        3 => (Kind::Sub, 1, 1),
        _ => {
            let w = rng.between(1, shape.max_table);
            let h = rng.between(1, shape.max_table);
            (Kind::Table, w, w * h)
        }
    };
    if rng.percent(shape.odd) {
        width = rng.between(1, 3);
        count = width * rng.below(4);
    }
    // Sometimes only one cell has something in it
    let only = rng.one_in(12).then(|| rng.below(count + 1));
    let cells = (0..count)
        .map(|i| if only.map_or(true, |only| only == i) { row_inner(rng, shape, symbol, depth - 1, budget) } else { vec![] })
        .collect();
    cont(kind, width, cells)
}

/// Every symbol is distinct
pub fn unique_symbols() -> impl FnMut(&mut Rng) -> String {
    let mut next = 0;
    move |_| {
        next += 1;
        format!("s{}", next)
    }
}

/// Symbols that are nasty for printing and serialization
pub fn nasty_symbol(rng: &mut Rng) -> String {
    const ATOMS: [&str; 30] = [
        "\"", "\\", "(", ")", " ", "row", "frac", "1x2", "a", "b", "\n", "\t", "\0", "é", "∑", "😀",
        "e\u{301}", "\u{7f}", "\u{2028}", "'", "`", "{", "}", "[", "]", ",", ":", "/", "\u{feff}", "x",
    ];
    match rng.below(8) {
        0 => String::new(),
        1 if rng.bool() => (0..rng.between(1, 3)).map(|_| any_char(rng)).collect(),
        1..=4 => rng.pick(&ATOMS).to_string(),
        5 => "\\".repeat(rng.between(1, 4)) + if rng.bool() { "\"" } else { "" },
        _ => (0..rng.between(2, 6)).map(|_| *rng.pick(&ATOMS)).collect(),
    }
}

/// Any character there is, those with special meanings are likelier
pub fn any_char(rng: &mut Rng) -> char {
    const SPECIAL: [char; 20] = [
        '\u{200d}', '\u{200b}', '\u{fe0f}', '\u{2061}', '\u{2062}', '\u{2063}', '\u{a0}', '\u{ad}', '\u{85}', '\u{1b}', '\r', '\u{8}',
        '\u{202e}', '\u{1f3fd}', '\u{1d465}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{338}',
    ];
    if rng.bool() {
        return *rng.pick(&SPECIAL);
    }
    let (from, to) = *rng.pick(&[(0, 0x80), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000)]);
    char::from_u32(rng.between(from, to - 1) as u32).unwrap_or('\u{2460}')
}
