//! C42: what an editor does depends only on its own formula, selection and history
use crate::{session::*, syntax::T, world::*};
use caret::math_editor::{MathEditor, SerializedDataType};
use monitor_common::*;
use std::rc::Rc;

/// All that can be seen of an editor
#[derive(PartialEq)]
struct View {
    tree: MRow,
    sel: Sel,
    offered: Option<Offered>,
    syntax: T,
    copied: Option<String>,
}
impl View {
    fn of(world: &World, ed: &mut MathEditor) -> Result<View, String> {
        let sel = sel_of(ed)?;
        // Not implemented for table selections (known finding of C11)
        let copied = if sel.is_grid() { None } else { Some(guarded(|| ed.copy(SerializedDataType::JsonInputTree).ok()).map_err(|e| format!("copying {}", e))?.unwrap_or_default()) };
        let offered = guarded(|| offered(ed)).map_err(|e| format!("looking for autocompletes {}", e))?;
        let names = world.modules.get_rule_name_map();
        let syntax = guarded(|| T::of(ed.get_syntax_tree(), names)).map_err(|e| format!("parsing {}", e))??;
        Ok(View { tree: tree_of(ed), sel, offered, syntax, copied })
    }
    fn same(&self, other: &View, what: &str) -> CaseResult {
        ensure!(self.tree == other.tree, "{}: the formula is {} instead of {}", what, show(&other.tree), show(&self.tree));
        ensure!(self.sel == other.sel, "{}: the selection is {:?} instead of {:?}", what, other.sel, self.sel);
        ensure!(self.offered == other.offered, "{}: the autocompletes are {:?} instead of {:?}", what, other.offered, self.offered);
        ensure!(self.syntax == other.syntax, "{}: the syntax tree is {} instead of {}", what, other.syntax.show(), self.syntax.show());
        ensure!(self.copied == other.copied, "{}: what is copied is {:?} instead of {:?}", what, other.copied, self.copied);
        Ok(())
    }
}

/// The same thing but for something small
fn vary(rng: &mut Rng, row: &mut MRow) {
    for node in row.iter_mut() {
        match &mut node.body {
            Body::Sym(s) => {
                if rng.one_in(8) {
                    *s = rng.pick(&["a", "b", "1", "(", "+", "!", "ab"]).to_string();
                }
            }
            Body::Cont(kind, width, cells) => {
                // Another shape with the same cells
                if rng.bool() && cells.len() > 1 && *kind == Kind::Table {
                    *width = if *width == 1 { cells.len() } else { 1 };
                } else if rng.one_in(4) && cells.len() == 1 {
                    *kind = if *kind == Kind::Sup { Kind::Sub } else { Kind::Sup };
                }
                cells.iter_mut().for_each(|cell| vary(rng, cell));
            }
        }
    }
}

/// An editor in the background
struct Other {
    ed: MathEditor,
    gen: SessionGen,
    /// Which of the same actions it does next, if it does those, but not exactly
    follows: Option<usize>,
}
impl Other {
    fn new(rng: &mut Rng, world: &World, size: usize) -> Other {
        Other { ed: MathEditor::new(world.parser.clone()), gen: SessionGen::new(size), follows: if rng.bool() { Some(0) } else { None } }
    }
    /// What it does before the action with the given index
    fn before(&mut self, rng: &mut Rng, acts: &[Act], i: usize, mon: &mut Mon) -> CaseResult {
        match self.follows {
            None => {
                for _ in 0..rng.below(3) {
                    let (tree, sel) = (tree_of(&self.ed), sel_of(&self.ed)?);
                    let act = self.gen.next(rng, &tree, &sel);
                    self.work(rng, &act, mon)?;
                }
            }
            Some(mut next) => {
                let last = (i + rng.below(2)).min(acts.len());
                while next < last {
                    let mut act = acts[next].clone();
                    match &mut act {
                        Act::Insert(values) if values.len() == 1 && rng.one_in(6) => {
                            *values = vec![rng.pick(&["a", "b", "1", "+", "!"]).to_string()];
                        }
                        Act::Paste(row) | Act::Splice(_, _, _, row) => vary(rng, row),
                        _ => {}
                    }
                    if !(rng.one_in(20) || sel_of(&self.ed)?.is_grid() && needs_row(&act)) {
                        self.work(rng, &act, mon)?;
                    }
                    next += 1;
                }
                self.follows = Some(next);
            }
        }
        Ok(())
    }
    fn work(&mut self, rng: &mut Rng, act: &Act, mon: &mut Mon) -> CaseResult {
        let tree = tree_of(&self.ed);
        if possible(&tree, act) {
            guarded(|| perform(&mut self.ed, act)).map_err(|e| format!("{} in another editor {}", act.kind(), e))?;
            if !rng.one_in(3) {
                guarded(|| {
                    self.ed.get_syntax_tree();
                    let _ = self.ed.get_autocomplete();
                })
                .map_err(|e| format!("looking at another editor {}", e))?;
            }
            mon.count("actions of other editors");
        }
        Ok(())
    }
}

fn step(ed: &mut MathEditor, act: &Act) -> Result<bool, String> {
    let done = guarded(|| perform(ed, act)).map_err(|e| format!("{} {}", act.kind(), e))?;
    // As the application does. What is offered is remembered, so this is part of the actions.
    guarded(|| drop(ed.get_autocomplete().map(|_| ()))).map_err(|e| format!("autocompletes after {} {}", act.kind(), e))?;
    Ok(done)
}

/// The same actions again, without anyone looking, while others work
fn twin(rng: &mut Rng, size: usize, world: &Rc<World>, twin_world: &Rc<World>, mon: &mut Mon) -> CaseResult {
    let mut gen = SessionGen::new(size);
    gen.undo_weight = *rng.pick(&[5, 14, 40]);
    let mut ed = MathEditor::new(world.parser.clone());
    let mut acts = vec![];
    let mut views = vec![];
    for _ in 0..10 + size / 4 {
        let (tree, sel) = (tree_of(&ed), sel_of(&ed)?);
        let act = gen.next(rng, &tree, &sel);
        if !possible(&tree, &act) {
            continue;
        }
        mon.note(|| format!("{}    (formula {}, selection {:?})", act.show(), show(&tree), sel));
        let done = step(&mut ed, &act)?;
        views.push((done, View::of(world, &mut ed)?));
        acts.push(act);
    }
    let mut again = MathEditor::new(twin_world.parser.clone());
    let mut others: Vec<Other> = vec![];
    for _ in 0..rng.below(3) {
        let world = if rng.bool() { world } else { twin_world };
        others.push(Other::new(rng, world, size));
    }
    let rarely = rng.between(1, 20);
    for (i, act) in acts.iter().enumerate() {
        for other in others.iter_mut() {
            other.before(rng, &acts, i, mon)?;
        }
        let done = step(&mut again, act).map_err(|e| format!("again, {}", e))?;
        let (done_before, view) = &views[i];
        ensure!(done == *done_before, "{} reports {} the second time", act.kind(), done);
        if rng.one_in(rarely) || i + 1 == acts.len() {
            view.same(&View::of(twin_world, &mut again)?, &format!("the same actions again, up to number {}, {}", i, act.show()))?;
            mon.count("states compared of the same actions");
        }
    }
    drop(others);
    for act in [Act::Undo, Act::Redo] {
        for n in 0.. {
            let (a, b) = (step(&mut ed, &act)?, step(&mut again, &act)?);
            ensure!(a == b, "{} number {} reports {} the second time", act.kind(), n, b);
            if !a {
                break;
            }
            if rng.one_in(4) {
                View::of(world, &mut ed)?.same(&View::of(twin_world, &mut again)?, &format!("{} number {}", act.kind(), n))?;
                mon.count("states compared of undoing and redoing");
            }
        }
    }
    View::of(world, &mut ed)?.same(&View::of(twin_world, &mut again)?, "at the end")?;
    mon.distinct(&(tree_of(&ed), acts.len()));
    mon.sample(|| format!("{} actions twice: {}", acts.len(), show(&tree_of(&ed))));
    Ok(())
}

/// A new editor with the formula and the selection of another one goes on like that one
fn heir(rng: &mut Rng, size: usize, world: &Rc<World>, heir_world: &Rc<World>, mon: &mut Mon) -> CaseResult {
    let mut gen = SessionGen::new(size);
    let mut ed = MathEditor::new(world.parser.clone());
    let mut made = 0;
    for round in 0..2 + size / 25 {
        for _ in 0..rng.between(3, 12) {
            let (tree, sel) = (tree_of(&ed), sel_of(&ed)?);
            let act = gen.next(rng, &tree, &sel);
            if possible(&tree, &act) {
                mon.note(|| format!("{}    (formula {}, selection {:?})", act.show(), show(&tree), sel));
                step(&mut ed, &act)?;
            }
        }
        let tree = tree_of(&ed);
        let all = all_positions(&tree);
        let start = rng.pick(&all).clone();
        // Nothing is offered, and so nothing of it is remembered
        guarded(|| place(&mut ed, &start, &start)).map_err(|e| format!("selecting {}", e))?;
        if tree_of(&ed) != tree || offered(&mut ed).is_some() {
            mon.count("states with autocompletes, passed over");
            continue;
        }
        let end = if rng.bool() { start.clone() } else { rng.pick(&all).clone() };
        guarded(|| place(&mut ed, &start, &end)).map_err(|e| format!("selecting {}", e))?;
        if tree_of(&ed) != tree {
            continue;
        }
        let mut new = guarded(|| editor_with(heir_world, &tree, &start, &end)).map_err(|e| format!("a new editor {}", e))?;
        mon.note(|| format!("(a new editor with {}, selected from {:?} to {:?})", show(&tree), start, end));
        View::of(world, &mut ed)?.same(&View::of(heir_world, &mut new)?, "a new editor")?;
        made += 1;
        for _ in 0..rng.between(1, 8) {
            let (tree, sel) = (tree_of(&ed), sel_of(&ed)?);
            let act = gen.next(rng, &tree, &sel);
            if !possible(&tree, &act) || matches!(act, Act::Undo | Act::Redo) {
                continue;
            }
            mon.note(|| format!("{}    (in both, formula {}, selection {:?})", act.show(), show(&tree), sel));
            let (a, b) = (step(&mut ed, &act)?, step(&mut new, &act).map_err(|e| format!("in a new editor, {}", e))?);
            ensure!(a == b, "{} reports {} in a new editor", act.kind(), b);
            View::of(world, &mut ed)?.same(&View::of(heir_world, &mut new)?, &format!("in a new editor, after {}", act.show()))?;
            mon.count("states compared with a new editor");
            mon.distinct(&(&tree, &sel, act.kind()));
        }
        mon.count("new editors");
        // Sometimes the new one replaces the old one
        if rng.bool() && round % 2 == 0 {
            std::mem::swap(&mut ed, &mut new);
        }
    }
    mon.sample(|| format!("{} new editors on the way to {}", made, show(&tree_of(&ed))));
    Ok(())
}

pub fn c42() -> Check {
    Check {
        id: "C42",
        rule: "random sessions in an editor that is looked at after every action. (1) The same actions in another editor, which is looked at rarely, with the same or another parser of the same modules, while up to two other editors with the same parsers carry out random or very similar actions; formula, selection, autocompletes, syntax tree, and copied text must be the same, also when everything is undone and redone. (2) At random points, the formula and a random selection are given to a new editor, and both go on with the same actions, except undo and redo. Distinct: different (formula, selection, action) triples, and results of sessions.",
        quick: 20_000,
        thorough: 500_000,
        case: |rng, size, mon| {
            // New ones, so that nothing is left over from other cases
            let world = Rc::new(full_world());
            // With tables of its own, which are in another order in memory
            let own = if rng.one_in(4) {
                mon.count("two parsers");
                Rc::new(full_world())
            } else {
                world.clone()
            };
            if rng.bool() { twin(rng, size, &world, &own, mon) } else { heir(rng, size, &world, &own, mon) }
        },
        probe: None,
        assumptions: &["what is offered as an autocomplete is asked for after every action, as the application does, because the editor remembers what was offered"],
    }
}
