//! Whole sessions: C11 (no crash), C12 (valid caret), C13 (undo/redo), C19 (fresh syntax tree)
use crate::{session::*, world::*};
use caret::{
    math_editor::MathEditor,
    primitive::{primitive_edit::CaretRemoveMode, MoveMode},
};
use input_tree::direction::Direction;
use monitor_common::*;
use serialization::SerializedDataType;

/// What only shows when it is asked for
fn query(ed: &mut MathEditor) -> Result<(), String> {
    guarded(|| {
        ed.get_caret();
        ed.get_input_tree();
        let _ = ed.get_autocomplete();
        ed.get_syntax_tree();
        let _ = format!("{}", ed.get_input_tree());
    })
    .map_err(|e| format!("query {}", e))
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "random sessions of up to 60 user actions (typing, words, moving, selecting, dragging, deleting, pasting valid and malformed data, splicing, undo, redo, autocomplete) in an editor with all modules; after every action the formula, caret, autocomplete and syntax tree are queried, and any panic is caught. Distinct: different formulas reached.",
        quick: 12_000,
        thorough: 600_000,
        case: |rng, size, mon| {
            let world = full();
            let mut ed = MathEditor::new(world.parser.clone());
            let mut gen = SessionGen::new(size);
            let steps = 10 + size / 2;
            run(rng, &mut gen, &mut ed, steps, mon, &mut |step, ed, _, mon| {
                query(ed)?;
                mon.distinct(step.after);
                if step.sel_after.is_grid() {
                    mon.count("states with a table selection");
                }
                mon.count("queries");
                mon.sample(|| format!("{} -> {}", step.act.show(), show(step.after)));
                Ok(())
            })
        },
        probe: Some(|mon| {
            // Typing every word, and moving around it
            let cells = || cont(Kind::Table, 2, vec![vec![sym("a")], vec![], vec![sym("b")], vec![]]);
            // Table selections: two cells of one table
            let grid = || {
                let world = full();
                let tree = vec![cells()];
                editor_with(&world, &tree, &MPos::new(vec![(0, 0)], 0), &MPos::new(vec![(0, 3)], 0))
            };
            ensure!(sel_of(&grid())?.is_grid(), "two cells of one table do not give a table selection");
            let mut attempt = |key: &str, f: &mut dyn FnMut() -> ()| -> CaseResult {
                if let Err(e) = guarded(|| f()) {
                    ensure!(e.contains("not yet implemented"), "{}: {}", key, e);
                    mon.finding(key, e);
                }
                Ok(())
            };
            attempt("table-selection-select-step", &mut || {
                grid().select_with_caret(Direction::Right, MoveMode::Char);
            })?;
            for mode in [CaretRemoveMode::Left, CaretRemoveMode::Right, CaretRemoveMode::Range] {
                attempt("table-selection-remove", &mut || {
                    grid().remove_at_caret(mode, MoveMode::Char);
                })?;
            }
            attempt("table-selection-insert", &mut || grid().insert_at_caret(vec!["x".into()]))?;
            attempt("table-selection-paste", &mut || {
                grid().paste("{\"version\":1,\"data\":[]}".into(), Some(SerializedDataType::JsonInputTree)).ok();
            })?;
            attempt("table-selection-copy", &mut || {
                grid().copy(SerializedDataType::JsonInputTree).ok();
            })?;
            for mode in [MoveMode::Word, MoveMode::Line] {
                attempt("move-by-word-or-line", &mut || {
                    let mut ed = MathEditor::new(full().parser.clone());
                    ed.insert_at_caret(vec!["a".into()]);
                    ed.move_caret(Direction::Left, mode);
                })?;
                attempt("select-by-word-or-line", &mut || {
                    let mut ed = MathEditor::new(full().parser.clone());
                    ed.insert_at_caret(vec!["a".into()]);
                    ed.select_with_caret(Direction::Left, mode);
                })?;
            }
            attempt("paste-without-type", &mut || {
                let mut ed = MathEditor::new(full().parser.clone());
                ed.paste("{\"version\":1,\"data\":[]}".into(), None).ok();
            })?;
            // These must work with a table selection
            let mut ed = grid();
            for direction in DIRECTIONS {
                ed.move_caret(direction, MoveMode::Char);
                query(&mut ed)?;
            }
            ed.finish_autocomplete(true);
            ed.undo();
            query(&mut ed)?;
            ed.redo();
            query(&mut ed)
        }),
        assumptions: &["parser libraries are replaced by an offline stand-in for chumsky (harness/vendor/chumsky), validated with the repository's own parser tests",
            "at most four brackets are left open at any time, because the parser needs exponential time in them (known finding of C23)"],
    }
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "random sessions of up to 70 user actions with all modules (or with random autocomplete rules); after every action the reported caret or selection is checked against the formula by an independent walk. Distinct: different (formula, selection) pairs.",
        quick: 180_000,
        thorough: 9_000_000,
        case: |rng, size, mon| {
            let world = if rng.bool() { full() } else { std::rc::Rc::new(with_rules(&[])) };
            let mut ed = MathEditor::new(world.parser.clone());
            let mut gen = SessionGen::new(size);
            let steps = 15 + size / 2;
            run(rng, &mut gen, &mut ed, steps, mon, &mut |step, ed, rng, mon| {
                step.sel_after.check_valid(step.after).map_err(|e| format!("after {}: {}", step.act.kind(), e))?;
                if rng.one_in(4) {
                    // Looking changes nothing
                    let _ = ed.get_autocomplete();
                    sel_of(ed)?.check_valid(&tree_of(ed))?;
                }
                mon.count(match step.sel_after {
                    Sel::Grid { .. } => "table selections",
                    Sel::Row { start, end, .. } if start == end => "carets",
                    Sel::Row { start, end, .. } if start < end => "forward selections",
                    Sel::Row { .. } => "backward selections",
                });
                mon.distinct(&(step.after, step.sel_after));
                mon.sample(|| format!("{} -> {} {:?}", step.act.show(), show(step.after), step.sel_after));
                Ok(())
            })
        },
        probe: None,
        assumptions: &[],
    }
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        rule: "random sessions with all modules; after every action (or, in half of the sessions, at random times) the reported syntax tree is compared with a parse of the current formula from scratch. Distinct: different formulas compared.",
        quick: 11_000,
        thorough: 550_000,
        case: |rng, size, mon| {
            let world = full();
            let mut ed = MathEditor::new(world.parser.clone());
            let mut gen = SessionGen::new(size);
            gen.undo_weight = 30;
            let steps = 10 + size / 2;
            let often = rng.bool();
            run(rng, &mut gen, &mut ed, steps, mon, &mut |step, ed, rng, mon| {
                if often || rng.one_in(4) {
                    let reported = format!("{:?}", ed.get_syntax_tree());
                    let nodes = nodes_to_repo(step.after);
                    let fresh = format!("{:?}", world.parser.parse(&nodes));
                    ensure!(reported == fresh, "after {} the syntax tree is not that of the formula {}: {} instead of {}", step.act.kind(), show(step.after), reported, fresh);
                    mon.count(if step.after == step.tree { "compared, formula unchanged" } else { "compared, formula changed" });
                    mon.distinct(step.after);
                    mon.sample(|| format!("{} -> {}", step.act.show(), show(step.after)));
                }
                Ok(())
            })
        },
        probe: None,
        assumptions: &["parser libraries are replaced by an offline stand-in for chumsky (harness/vendor/chumsky), validated with the repository's own parser tests"],
    }
}

struct Change {
    kind: &'static str,
    before: MRow,
    sel_before: Sel,
    sel_after: Sel,
    /// The action itself was an edit, so undoing it puts back the selection from before
    edit: bool,
    /// An edit that can also just move the caret, and then autocorrect what it leaves
    maybe_moved: bool,
    visible: bool,
}

struct Undone {
    from: MRow,
    to: MRow,
    sel_to: Option<Sel>,
    change: Option<Change>,
}

#[derive(Default)]
struct History {
    past: Vec<Change>,
    future: Vec<Undone>,
    /// An action without visible effect may have been recorded, and discarded what can be redone
    uncertain: bool,
}

impl History {
    fn observe(&mut self, step: &Step<'_>, mon: &mut Mon) -> CaseResult {
        match step.act {
            Act::Undo => self.undo(step, mon),
            Act::Redo => self.redo(step, mon),
            act => {
                let may_record = matches!(act, Act::Insert(_) | Act::Paste(_) | Act::Splice(..) | Act::Remove(CaretRemoveMode::Range))
                    || (matches!(act, Act::Remove(_)) && step.sel.collapsed().is_none());
                if step.after != step.tree {
                    ensure!(act.is_edit() || may_autocorrect(act), "{} changed the formula", act.kind());
                    if !self.future.is_empty() {
                        mon.count("changes that discard redo");
                    }
                    self.future.clear();
                    self.uncertain = false;
                    mon.count("recorded changes");
                } else if may_record {
                    self.uncertain = true;
                } else {
                    return Ok(());
                }
                self.past.push(Change {
                    kind: act.kind(),
                    before: step.tree.clone(),
                    sel_before: step.sel.clone(),
                    sel_after: step.sel_after.clone(),
                    edit: act.is_edit(),
                    maybe_moved: matches!(act, Act::Remove(_)),
                    visible: step.after != step.tree,
                });
                Ok(())
            }
        }
    }

    fn undo(&mut self, step: &Step<'_>, mon: &mut Mon) -> CaseResult {
        if !step.done {
            ensure!(step.after == step.tree && step.sel_after == step.sel, "undo reports nothing to undo, but changes something");
            if let Some(change) = self.past.iter().rev().find(|c| c.visible) {
                return Err(format!("undo reports nothing to undo, but {} was not undone", change.kind));
            }
            self.past.clear();
            mon.count("undo with nothing left");
            return Ok(());
        }
        loop {
            let Some(change) = self.past.pop() else {
                return Err(format!("undo did something although everything was undone: {} became {}", show(step.tree), show(step.after)));
            };
            if !change.visible && step.after != step.tree {
                // That one was not recorded
                continue;
            }
            ensure!(*step.after == change.before, "undoing {} gives {} instead of {}", change.kind, show(step.after), show(&change.before));
            if change.edit {
                let restored = *step.sel_after == change.sel_before;
                let moved = change.maybe_moved
                    && change.sel_before.collapsed().map_or(false, |p| {
                        [true, false].iter().any(|left| reference_horizontal(&change.before, &p, *left).map(|p| Sel::caret(&p)).as_ref() == Some(step.sel_after))
                    });
                ensure!(restored || moved, "undoing {} puts the selection to {:?} instead of {:?}, formula {}", change.kind, step.sel_after, change.sel_before, show(step.after));
                mon.count("edits undone with selection restored");
            } else {
                mon.count("autocorrects undone");
            }
            step.sel_after.check_valid(step.after)?;
            self.future.push(Undone {
                from: step.after.clone(),
                to: step.tree.clone(),
                sel_to: change.edit.then(|| change.sel_after.clone()),
                change: Some(change),
            });
            return Ok(());
        }
    }

    fn redo(&mut self, step: &Step<'_>, mon: &mut Mon) -> CaseResult {
        if !step.done {
            ensure!(step.after == step.tree && step.sel_after == step.sel, "redo reports nothing to redo, but changes something");
            ensure!(self.future.is_empty() || self.uncertain, "redo reports nothing to redo, but {} was undone and nothing changed since", self.future.last().unwrap().change.as_ref().map_or("?", |c| c.kind));
            self.future.clear();
            mon.count("redo with nothing left");
            return Ok(());
        }
        let Some(undone) = self.future.pop() else {
            return Err(format!("redo did something although there is nothing to redo: {} became {}", show(step.tree), show(step.after)));
        };
        ensure!(undone.from == *step.tree, "harness: redo from an unexpected formula");
        ensure!(*step.after == undone.to, "redo gives {} instead of {}", show(step.after), show(&undone.to));
        if let Some(sel) = &undone.sel_to {
            ensure!(step.sel_after == sel, "redo puts the selection to {:?} instead of {:?}", step.sel_after, sel);
        }
        mon.count("redone");
        self.past.extend(undone.change);
        Ok(())
    }
}

/// Actions that move the caret, and can so complete a word
fn may_autocorrect(act: &Act) -> bool {
    matches!(act, Act::Move(_) | Act::Select(_) | Act::Remove(_) | Act::StartSelection(_) | Act::ExtendSelection(_))
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "random sessions with many undos and redos mixed in, with and without autocorrect; a history of all observed states says what every undo and redo has to restore. At the end everything is undone and redone again. Distinct: different (formula, formula after undo or redo) pairs.",
        quick: 180_000,
        thorough: 9_000_000,
        case: |rng, size, mon| {
            let world = if rng.bool() {
                core()
            } else {
                // Results differ from the words, so that every autocorrect is visible
                let words: Vec<(String, MRow)> = ["lim", "sum", "sqrt", "in", "infinity", "matrix"]
                    .iter()
                    .map(|w| (w.to_string(), if rng.bool() { vec![sym("R")] } else { vec![cont(Kind::Root, 2, vec![vec![], vec![sym("r")]]), sym("R")] }))
                    .collect();
                std::rc::Rc::new(with_rules(&words))
            };
            let mut ed = MathEditor::new(world.parser.clone());
            let mut gen = SessionGen::new(size);
            gen.undo_weight = *rng.pick(&[10, 40, 100]);
            // Once in a while a whole day of editing
            let long = size > 60 && rng.one_in(400);
            if long {
                gen.undo_weight = 2;
                mon.count("very long sessions");
            }
            let steps = if long { 1500 } else { 10 + size / 2 };
            let mut history = History::default();
            run(rng, &mut gen, &mut ed, steps, mon, &mut |step, _, _, mon| {
                history.observe(step, mon)?;
                if matches!(step.act, Act::Undo | Act::Redo) && step.done {
                    mon.distinct(&(step.tree, step.after));
                    mon.sample(|| format!("{} {} -> {}", step.act.kind(), show(step.tree), show(step.after)));
                }
                Ok(())
            })?;
            // All the way back, and all the way forward
            let mut states = vec![tree_of(&ed)];
            for (act, last) in [(Act::Undo, false), (Act::Redo, true)] {
                for n in 0.. {
                    ensure!(n < 10_000, "{} never ends", act.kind());
                    let (tree, sel) = (tree_of(&ed), sel_of(&ed)?);
                    mon.note(|| format!("{} (at the end)", act.kind()));
                    let done = perform(&mut ed, &act);
                    let (after, sel_after) = (tree_of(&ed), sel_of(&ed)?);
                    history.observe(&Step { act: &act, tree: &tree, sel: &sel, after: &after, sel_after: &sel_after, done }, mon)?;
                    if !done {
                        break;
                    }
                    if last {
                        // Exactly the same states as on the way back
                        states.pop();
                        ensure!(states.last() == Some(&after), "redo does not go through the same states as undo");
                    } else {
                        states.push(after);
                    }
                }
                if !last {
                    ensure!(tree_of(&ed).is_empty(), "undoing everything gives {} instead of the empty formula", show(&tree_of(&ed)));
                    // Redo also has to bring back what the session itself had undone
                    let mut extra = vec![];
                    for undone in history.future.iter() {
                        extra.push(undone.to.clone());
                    }
                    extra.push(vec![]);
                    states = extra;
                    mon.count("sessions undone completely");
                }
            }
            Ok(())
        },
        probe: None,
        assumptions: &[],
    }
}
