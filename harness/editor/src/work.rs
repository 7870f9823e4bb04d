//! C40: how the work grows with the size of the formula. The work is the number of basic blocks that are executed; the compiler
//! puts a call that counts into each of them (sanitizer coverage, only with `--cfg count_work`, see check.sh).
#[cfg(count_work)]
std::arch::global_asm!(
    ".section .tbss,\"awT\",@nobits",
    ".p2align 3",
    "monitor_work:",
    ".zero 8",
    ".text",
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "incq %fs:monitor_work@tpoff",
    "ret",
    ".globl monitor_work_done",
    "monitor_work_done:",
    "movq %fs:monitor_work@tpoff, %rax",
    "ret",
    options(att_syntax)
);
#[cfg(count_work)]
extern "C" {
    fn monitor_work_done() -> u64;
}
/// How many basic blocks this thread has executed
#[cfg(count_work)]
fn done() -> u64 {
    unsafe { monitor_work_done() }
}
#[cfg(not(count_work))]
fn done() -> u64 {
    0
}

use crate::world::*;
use caret::primitive::{primitive_edit::CaretRemoveMode, MoveMode};
use input_tree::node::InputNode;
use monitor_common::*;
use serialization::SerializedDataType;
use std::rc::Rc;

type Work = Vec<(&'static str, u64)>;

fn count(out: &mut Work, what: &'static str, run: impl FnOnce()) {
    let before = done();
    run();
    let work = done() - before;
    match out.iter_mut().find(|(name, _)| *name == what) {
        Some((_, most)) => *most = (*most).max(work),
        None => out.push((what, work)),
    }
}

/// The most work for everything that can be done with a formula
fn measure(world: &World, row: &MRow, spots: &[MPos]) -> Work {
    let mut out = vec![];
    let nodes = nodes_to_repo(row);
    let names = world.modules.get_rule_name_map();
    count(&mut out, "parsing", || drop(world.parser.parse(&nodes)));
    let tree = world.parser.parse(&nodes);
    count(&mut out, "printing the syntax tree", || drop(tree.with_display(names).to_string()));
    count(&mut out, "storing the syntax tree", || drop(serde_json::to_string(&tree)));
    count(&mut out, "printing the formula", || drop(InputNode::fraction([row_to_repo(row), row_to_repo(&vec![])]).to_string()));
    count(&mut out, "storing the formula", || drop(serde_json::to_string(&nodes)));
    for spot in spots {
        let fresh = || {
            let mut ed = editor_with(world, row, spot, spot);
            ed.get_syntax_tree();
            ed
        };
        for direction in DIRECTIONS {
            let mut ed = fresh();
            count(&mut out, "moving", || ed.move_caret(direction, MoveMode::Char));
            let mut ed = fresh();
            count(&mut out, "selecting a step", || drop(ed.select_with_caret(direction, MoveMode::Char)));
        }
        let mut ed = fresh();
        count(&mut out, "looking for autocompletes", || drop(ed.get_autocomplete()));
        count(&mut out, "reading the caret", || drop(ed.get_caret()));
        count(&mut out, "selecting all", || ed.select_all());
        for other in spots {
            let mut ed = fresh();
            count(&mut out, "dragging", || {
                ed.start_selection(pos_to_repo(spot), MoveMode::Char);
                ed.extend_selection(pos_to_repo(other));
                ed.finish_selection();
            });
            if matches!(sel_of(&ed), Ok(sel) if !sel.is_grid()) {
                let mut copied = None;
                count(&mut out, "copying", || copied = ed.copy(SerializedDataType::JsonInputTree).ok());
                if let Some(text) = copied {
                    count(&mut out, "pasting", || drop(ed.paste(text.clone(), Some(SerializedDataType::JsonInputTree))));
                    count(&mut out, "undoing", || { let _ = ed.undo(); });
                    count(&mut out, "redoing", || drop(ed.redo()));
                    ed.undo();
                }
                count(&mut out, "deleting", || { let _ = ed.remove_at_caret(CaretRemoveMode::Left, MoveMode::Char); });
                count(&mut out, "undoing", || { let _ = ed.undo(); });
            }
        }
        let mut ed = fresh();
        count(&mut out, "deleting", || { let _ = ed.remove_at_caret(CaretRemoveMode::Left, MoveMode::Char); });
        let mut ed = fresh();
        count(&mut out, "typing", || ed.insert_at_caret(vec!["a".into()]));
        count(&mut out, "undoing", || { let _ = ed.undo(); });
    }
    out
}

fn symbols(text: &str) -> MRow {
    text.chars().map(|c| sym(c.to_string())).collect()
}

/// Elements without round brackets. (Unclosed ones, and those behind a missing operator, take exponential time: findings of C23)
fn piece(rng: &mut Rng, size: usize) -> MRow {
    const TEXTS: [&str; 40] = [
        "a", "1", "x1", "a+", "-", "a!", "a=", "a,", " ", "\"", "\\", ")", "#", "a b ", "lim", "\"a\"", "a^", "∑a+", ".", "1.", "2a", "->", ">=", "a<=",
        "limsup", "infinity", "∞", "⊤∧", "¬", "in", "sqrt", "integral", "é", "_", "/", "*", "a-b*c!", "=", "∨", "matrix",
    ];
    let mut out: MRow = vec![];
    for _ in 0..rng.between(1, 2 + size / 30) {
        if rng.one_in(4) {
            let shape = gen::Shape { wild: 0, max_depth: 2, max_len: 3, max_table: 2, ..gen::Shape::sized(size) };
            out.push(gen::node(rng, &shape, &mut |rng| rng.pick(&TEXTS).chars().next().unwrap().to_string()));
        } else {
            out.extend(symbols(rng.pick(&TEXTS)));
        }
    }
    out
}

/// The same thing n times: next to each other, or inside of each other
enum Family {
    Repeated(MRow),
    /// Before, kind of container, width, number of cells, which of them has the rest, behind
    Nested(MRow, Kind, usize, usize, usize, MRow),
    /// Round brackets: before and behind
    Brackets(MRow, MRow),
    /// A table with that many rows or columns
    Table(MRow, bool),
}
impl Family {
    fn any(rng: &mut Rng, size: usize) -> Family {
        let some = |rng: &mut Rng| if rng.bool() { vec![] } else { piece(rng, size / 2) };
        match rng.below(8) {
            0..=2 => Family::Repeated(piece(rng, size)),
            3..=5 => {
                let kind = *rng.pick(&KINDS);
                let (width, cells) = match kind {
                    Kind::Frac => (1, 2),
                    Kind::Root => (2, 2),
                    Kind::Sup | Kind::Sub => (1, 1),
                    Kind::Table => *rng.pick(&[(1, 1), (1, 2), (2, 2), (2, 4), (3, 3)]),
                };
                Family::Nested(some(rng), kind, width, cells, rng.below(cells), some(rng))
            }
            6 => {
                let before = *rng.pick(&["", "a+", "f", "-", "a*2=", "1-", "∑", "¬", "lim", "a,", "⊤∧"]);
                let behind = *rng.pick(&["", "", "+b", "!", ",1", "=x", "*"]);
                Family::Brackets(symbols(before), symbols(behind))
            }
            _ => Family::Table(some(rng), rng.bool()),
        }
    }
    fn of(&self, n: usize) -> MRow {
        match self {
            Family::Repeated(row) => (0..n).flat_map(|_| row.iter().cloned()).collect(),
            Family::Nested(before, kind, width, cells, at, behind) => (0..n).fold(vec![sym("x")], |inner, _| {
                let mut all = vec![vec![]; *cells];
                all[*at] = inner;
                [before.clone(), vec![cont(*kind, *width, all)], behind.clone()].concat()
            }),
            Family::Brackets(before, behind) => (0..n).fold(vec![sym("x")], |inner, _| {
                [before.clone(), vec![sym("(")], inner, vec![sym(")")], behind.clone()].concat()
            }),
            Family::Table(cell, rows) => vec![cont(Kind::Table, if *rows { 2 } else { n }, vec![cell.clone(); 2 * n])],
        }
    }
    /// Places in the first, the middle and the last of the n repetitions. They are always at the same place within the repetition, so
    /// that the same things happen there, whatever n is.
    fn spots(&self, n: usize, pick: usize) -> Vec<MPos> {
        [0, n / 2, n - 1]
            .into_iter()
            .map(|k| match self {
                Family::Repeated(row) => {
                    let all = all_positions(row);
                    let mut spot = all[pick % all.len()].clone();
                    match spot.path.first_mut() {
                        Some(first) => first.0 += k * row.len(),
                        None => spot.offset += k * row.len(),
                    }
                    spot
                }
                Family::Nested(before, _, _, _, at, behind) => {
                    MPos::new(vec![(before.len(), *at); k], pick % (before.len() + behind.len() + 2))
                }
                Family::Brackets(before, _) => MPos::new(vec![], k * (before.len() + 1) + pick % (before.len() + 2)),
                Family::Table(cell, rows) => MPos::new(vec![(0, if *rows { 2 * k } else { k })], pick % (cell.len() + 1)),
            })
            .collect()
    }
    fn nested(&self) -> bool {
        matches!(self, Family::Nested(..) | Family::Brackets(..))
    }
    fn name(&self) -> &'static str {
        match self {
            Family::Repeated(_) => "families: repeated pieces",
            Family::Nested(..) => "families: nested containers",
            Family::Brackets(..) => "families: nested brackets",
            Family::Table(..) => "families: tables",
        }
    }
}

pub fn c40() -> Check {
    Check {
        id: "C40",
        rule: "random pieces of formulas, repeated next to each other, as rows or columns of a table, or nested into each other in containers and in round brackets, with all modules or a random selection of them; the basic blocks executed are counted for parsing, printing and storing, and for every action of the editor at several places, at three sizes of which each is twice the one before. The work may at most become (nearly) four times as much when the size doubles. Distinct: different families of formulas.",
        quick: 300,
        thorough: 40_000,
        case: |rng, size, mon| {
            ensure!(done() > 0, "the code under test is not instrumented");
            let family = Family::any(rng, size);
            let world = if rng.bool() || matches!(family, Family::Brackets(..)) { full() } else { Rc::new(crate::syntax::modules_language(rng, true).1) };
            let smallest = if family.nested() { 4 } else { rng.between(6, 10 + size / 4) };
            mon.note(|| format!("{}: {}", family.name(), show(&family.of(2))));
            let pick = rng.below(1000);
            let of = |n| measure(&world, &family.of(n), &family.spots(n, pick));
            let small = of(smallest);
            let middle = of(2 * smallest);
            for ((what, a), (_, b)) in small.iter().zip(&middle) {
                // Before it takes forever
                ensure!(*b < 100_000 || *b < a * 14, "{} takes {} steps for {} repetitions, and {} for twice as many", what, a, smallest, b);
            }
            let large = of(4 * smallest);
            for (((what, a), (_, b)), (_, c)) in small.iter().zip(&middle).zip(&large) {
                mon.add("basic blocks counted", (a + b + c) as usize);
                mon.count(what);
                ensure!(*c < 20_000 || *c as f64 <= *b as f64 * 4.9 || *c < a * 22, "{} takes {}, {} and {} steps for {}, {} and {} repetitions", what, a, b, c, smallest, 2 * smallest, 4 * smallest);
                if *c >= 10_000 {
                    mon.count(match *c as f64 / *b as f64 {
                        r if r < 1.5 => "work barely grows",
                        r if r < 2.5 => "work doubles with the size",
                        r if r < 4.0 => "work grows more than the size",
                        _ => "work grows with the square of the size",
                    });
                }
            }
            mon.distinct(&family.of(1 + smallest));
            mon.count(family.name());
            mon.sample(|| format!("{}: {:?} steps for parsing", show(&family.of(2)), [small[0].1, middle[0].1, large[0].1]));
            Ok(())
        },
        probe: Some(|mon| {
            let world = full();
            for before in ["=", "a>=", "a*2=", "a!=", "-", "2∑", "∑", "2-", "a>=>=", "#=", ")=", "#∑", "a*"] {
                let nested = Family::Nested(symbols(before), Kind::Sup, 1, 1, 0, vec![]);
                let steps: Vec<u64> = (5..9)
                    .map(|n| {
                        let row = nodes_to_repo(&nested.of(n));
                        let start = done();
                        drop(world.parser.parse(&row));
                        done() - start
                    })
                    .collect();
                ensure!(
                    !steps.windows(2).all(|s| s[1] * 10 > s[0] * 17),
                    "parsing {}^{{{}^{{...}}}} takes {:?} steps for {:?} levels", before, before, steps, [5, 6, 7, 8]
                );
                mon.count("growth of the work for nested scripts behind operators measured");
            }
            Ok(())
        }),
        assumptions: &[
            "no unclosed round brackets, and none behind a missing operator (findings of C23)",
            "the work inside of the precompiled standard library (copying bytes, comparing texts) is not counted",
        ],
    }
}
