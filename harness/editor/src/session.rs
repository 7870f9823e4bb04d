//! Random sessions of a user: hostile but possible sequences of actions.
use crate::world::*;
use caret::{math_editor::MathEditor, primitive::primitive_edit::CaretRemoveMode};
use input_tree::direction::VerticalDirection;
use monitor_common::*;
use std::collections::VecDeque;

const WORDS: [&str; 14] = [
    "lim", "limsup", "liminf", "sum", "sqrt", "infinity", "integral", "integrate", ">=", "<=", "vector", "matrix", "in", "infin",
];
const SYMBOLS: [&str; 44] = [
    "a", "b", "x", "f", "l", "i", "m", "s", "u", "n", "1", "2", "0", ".", "+", "-", "*", "/", "=", "<", ">", "(", ")", "!", "^", "_", ",",
    " ", "\"", "\\", "∑", "∫", "∞", "∧", "⟹", "⊤", "é", "😀", "#", "@", "≥", "\u{301}", "", "ab",
];

pub struct SessionGen {
    queue: VecDeque<Act>,
    pub words: Vec<String>,
    pub symbols: Vec<String>,
    pub shape: gen::Shape,
    /// Percentages for the kinds of actions
    pub undo_weight: usize,
}

impl SessionGen {
    pub fn new(size: usize) -> Self {
        SessionGen {
            queue: VecDeque::new(),
            words: WORDS.iter().map(|s| s.to_string()).collect(),
            symbols: SYMBOLS.iter().map(|s| s.to_string()).collect(),
            shape: gen::Shape { deep: 14, max_depth: 1 + size / 40, max_len: 2 + size / 30, ..gen::Shape::sized(size) },
            undo_weight: 14,
        }
    }

    fn symbol(&self, rng: &mut Rng, open: usize) -> String {
        let s = rng.pick(&self.symbols).clone();
        // Every open bracket that is never closed doubles the time the parser needs
        if s == "(" && open >= 4 { ")".into() } else { s }
    }

    pub fn content(&self, rng: &mut Rng, open: usize) -> MRow {
        let mut shape = self.shape.clone();
        shape.containers = 45;
        if rng.one_in(12) {
            // Tables with all rows deleted and other unusual numbers of cells
            shape.odd = 30;
        }
        shape.max_table = 2;
        let mut open = open;
        let mut row = gen::row(rng, &shape, &mut |rng| {
            let s = self.symbol(rng, open);
            if s == "(" {
                open += 1;
            }
            s
        });
        row.truncate(8);
        row
    }

    /// The next thing a user might do
    pub fn next(&mut self, rng: &mut Rng, tree: &MRow, sel: &Sel) -> Act {
        if let Some(act) = self.queue.pop_front() {
            // Sometimes something interferes
            if !rng.one_in(12) && !(sel.is_grid() && needs_row(&act)) {
                return act;
            }
            self.queue.clear();
        }
        let open = all_symbols(tree).iter().filter(|s| s.as_str() == "(").count();
        let big = count_nodes(tree) > 60 || depth(tree) > 6;
        loop {
            let act = self.pick(rng, tree, open, big);
            // Known findings: the editor does not implement these for table selections
            if sel.is_grid() && needs_row(&act) {
                self.queue.clear();
                continue;
            }
            return act;
        }
    }

    fn position(&self, rng: &mut Rng, tree: &MRow) -> MPos {
        rng.pick(&all_positions(tree)).clone()
    }

    fn pick(&mut self, rng: &mut Rng, tree: &MRow, open: usize, big: bool) -> Act {
        let n = rng.below(100 + self.undo_weight);
        match n {
            0..=17 => Act::Move(*rng.pick(&DIRECTIONS)),
            18..=25 => Act::Select(*rng.pick(&DIRECTIONS)),
            26..=37 => Act::Remove(match rng.below(7) {
                0 => CaretRemoveMode::Range,
                1..=3 => CaretRemoveMode::Right,
                _ => CaretRemoveMode::Left,
            }),
            38..=47 => {
                let count = if rng.one_in(4) { rng.below(4) } else { 1 };
                Act::Insert((0..count).map(|_| self.symbol(rng, open + count)).collect())
            }
            48..=58 => {
                // Type a word, symbol by symbol, and do something afterwards
                let word = rng.pick(&self.words).clone();
                let mut acts: Vec<Act> = word.chars().map(|c| Act::Insert(vec![c.to_string()])).collect();
                if rng.one_in(5) {
                    let keep = rng.between(1, acts.len());
                    acts.truncate(keep);
                }
                for _ in 0..rng.below(4) {
                    acts.push(Act::MoveInAutocomplete(if rng.bool() { VerticalDirection::Up } else { VerticalDirection::Down }));
                }
                acts.push(match rng.below(6) {
                    0 => Act::FinishAutocomplete(true),
                    1 => Act::Insert(vec![" ".into()]),
                    2 => Act::Remove(CaretRemoveMode::Left),
                    3 => Act::StartSelection(self.position(rng, tree)),
                    _ => Act::Move(*rng.pick(&DIRECTIONS)),
                });
                let first = acts.remove(0);
                self.queue.extend(acts);
                first
            }
            59..=60 => Act::SelectAll,
            61..=64 => Act::StartSelection(self.position(rng, tree)),
            65..=69 => {
                // Drag. The formula cannot change in between, unless something is autocorrected
                let a = self.position(rng, tree);
                for _ in 0..rng.between(1, 3) {
                    let b = if rng.one_in(3) {
                        self.position(rng, tree)
                    } else {
                        // Close by
                        let all = all_positions(tree);
                        let i = all.iter().position(|p| p == &a).unwrap();
                        all[(i + rng.below(9)).saturating_sub(4).min(all.len() - 1)].clone()
                    };
                    self.queue.push_back(Act::ExtendSelection(b));
                }
                if rng.bool() {
                    self.queue.push_back(Act::FinishSelection);
                }
                Act::StartSelection(a)
            }
            70..=74 => Act::ExtendSelection(self.position(rng, tree)),
            75 => Act::FinishSelection,
            76..=77 => Act::Copy,
            78..=82 => {
                if big {
                    return Act::Remove(CaretRemoveMode::Left);
                }
                Act::Paste(self.content(rng, open))
            }
            83 => Act::PasteText(
                rng.pick(&[
                    "",
                    "{",
                    "null",
                    "[]",
                    "{\"version\":1}",
                    "{\"version\":1,\"data\":[{\"Symbol\":3}]}",
                    "{\"version\":1,\"data\":[{\"Container\":[\"Table\",{\"values\":[],\"width\":0}]}]}",
                    "{\"version\":1,\"data\":[{\"Container\":[\"Fraction\",{\"values\":[{\"values\":[]}],\"width\":2}]}]}",
                ])
                .to_string(),
            ),
            84..=85 => Act::OpenAutocomplete,
            86..=88 => Act::FinishAutocomplete(!rng.one_in(4)),
            89..=92 => Act::MoveInAutocomplete(if rng.bool() { VerticalDirection::Up } else { VerticalDirection::Down }),
            93..=97 => {
                let path = rng.pick(&all_rows(tree)).clone();
                let len = row_at(tree, &path).unwrap().len();
                let (a, b) = (rng.between(0, len), rng.between(0, len));
                let values = if big { vec![] } else { self.content(rng, open) };
                Act::Splice(path, a, b, values)
            }
            98..=99 => Act::Focus(rng.bool()),
            n => {
                if rng.one_in(15) {
                    // Back and forth
                    let (back, forth) = (rng.between(1, 25), rng.below(25));
                    self.queue.extend((0..back).map(|_| Act::Undo).chain((0..forth).map(|_| Act::Redo)));
                }
                if n % 3 == 0 { Act::Redo } else { Act::Undo }
            }
        }
    }
}

/// Actions that are not implemented for table selections (see the known findings)
pub fn needs_row(act: &Act) -> bool {
    matches!(act, Act::Select(_) | Act::Remove(_) | Act::Insert(_) | Act::Paste(_) | Act::Copy)
}

/// Are all positions of the action places in the formula?
pub fn possible(tree: &MRow, act: &Act) -> bool {
    match act {
        Act::StartSelection(pos) | Act::ExtendSelection(pos) => valid_pos(tree, pos),
        Act::Splice(path, a, b, _) => row_at(tree, path).map_or(false, |row| *a <= row.len() && *b <= row.len()),
        _ => true,
    }
}

pub struct Step<'s> {
    pub act: &'s Act,
    pub tree: &'s MRow,
    pub sel: &'s Sel,
    pub after: &'s MRow,
    pub sel_after: &'s Sel,
    pub done: bool,
}

/// Runs a session. `before` sees every action first, `observe` what it did.
pub fn run(
    rng: &mut Rng,
    gen: &mut SessionGen,
    ed: &mut MathEditor,
    steps: usize,
    mon: &mut Mon,
    observe: &mut dyn FnMut(&Step<'_>, &mut MathEditor, &mut Rng, &mut Mon) -> CaseResult,
) -> CaseResult {
    let mut tree = tree_of(ed);
    let mut sel = sel_of(ed)?;
    for _ in 0..steps {
        let act = gen.next(rng, &tree, &sel);
        if !possible(&tree, &act) {
            continue;
        }
        mon.note(|| format!("{}    (formula {}, selection {:?})", act.show(), show(&tree), sel));
        mon.count(act.kind());
        let done = guarded(|| perform(ed, &act)).map_err(|e| format!("{} {}", act.kind(), e))?;
        let (after, sel_after) = guarded(|| (tree_of(ed), sel_of(ed))).map_err(|e| format!("reading the state after {}: {}", act.kind(), e))?;
        let sel_after = sel_after?;
        observe(&Step { act: &act, tree: &tree, sel: &sel, after: &after, sel_after: &sel_after, done }, ed, rng, mon)?;
        tree = after;
        sel = sel_after;
    }
    Ok(())
}
