//! C38: memory is given back, and using an editor without changing anything does not need more and more of it.
use crate::session::SessionGen;
use crate::syntax::{modules_language, random_language};
use crate::world::*;
use caret::{math_editor::MathEditor, primitive::MoveMode};
use input_tree::direction::VerticalDirection;
use monitor_common::*;
use parser::autocomplete::AutocompleteMatcher;
use parser::parser::MathParser;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::rc::Rc;

/// Counts the bytes that are in use, for every thread on its own
pub struct Counting;

thread_local! {
    static IN_USE: Cell<isize> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _ = IN_USE.try_with(|v| v.set(v.get() + layout.size() as isize));
        let _ = TAKEN.try_with(|v| v.set(v.get() + layout.size() as u64));
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let _ = IN_USE.try_with(|v| v.set(v.get() - layout.size() as isize));
        System.dealloc(ptr, layout)
    }
}

fn in_use() -> isize {
    IN_USE.with(|v| v.get())
}

/// How many bytes are in use afterwards that were not in use before, the second time (the first time may fill caches that all share)
fn kept(mut what: impl FnMut()) -> Result<(isize, u64), String> {
    guarded(|| what())?;
    let (before, taken) = (in_use(), TAKEN.with(|v| v.get()));
    what();
    Ok((in_use() - before, TAKEN.with(|v| v.get()) - taken))
}

fn a_world(kind: usize, rng: &Rng) -> World {
    match kind {
        0 => full_world(),
        1 => with_rules(&[("ab".into(), vec![sym("R")]), ("a".into(), vec![]), ("abc".into(), vec![cont(Kind::Frac, 1, vec![vec![], vec![]])])]),
        2 => random_language(&mut rng.clone()).1,
        _ => modules_language(&mut rng.clone(), false).1,
    }
}

fn look(ed: &mut MathEditor) {
    ed.get_syntax_tree();
    ed.get_input_tree();
    ed.get_caret();
    ed.get_autocomplete();
}

pub fn c38() -> Check {
    Check {
        id: "C38",
        rule: "the bytes in use are counted by the allocator: random parsers that parse random formulas and are dropped, random sessions with editors that are dropped (while their parser stays, and along with it), and editors in which the same actions that change nothing (moving, selecting, looking, copying, refused pastes, autocompleting without accepting, undoing and redoing) are repeated up to 52 times. Distinct: different formulas.",
        quick: 24_000,
        thorough: 1_200_000,
        case: |rng, size, mon| {
            let kind = rng.below(4);
            match rng.below(4) {
                0 => {
                    // A parser
                    let formulas: Vec<MRow> = (0..rng.between(0, 3)).map(|_| crate::parsing::any_formula(rng, size).1).collect();
                    mon.note(|| format!("a parser (kind {}) that parses {:?}", kind, formulas.iter().map(|f| show(f)).collect::<Vec<_>>()));
                    let nodes: Vec<_> = formulas.iter().map(|f| nodes_to_repo(f)).collect();
                    let seed = rng.clone();
                    let (kept, taken) = kept(|| {
                        let world = a_world(kind, &seed);
                        // The modules may be gone
                        let parser: Rc<MathParser> = world.parser.clone();
                        drop(world);
                        for row in &nodes {
                            parser.parse(row);
                            for (offset, least) in [(row.len(), 2), (row.len() / 2, 1)] {
                                parser.matches(row, offset, least);
                            }
                        }
                    })?;
                    ensure!(kept == 0, "a parser (with {} formulas parsed) that is dropped keeps {} bytes of {}", nodes.len(), kept, taken);
                    formulas.iter().for_each(|f| mon.distinct(f));
                    mon.count("parsers dropped");
                    mon.sample(|| format!("a parser took {} bytes for {:?}, and gave all back", taken, formulas.iter().map(|f| show(f)).collect::<Vec<_>>()));
                }
                1 | 2 => {
                    // A session
                    let world = a_world(kind, rng);
                    let mut acts = vec![];
                    {
                        let mut ed = MathEditor::new(world.parser.clone());
                        let mut gen = SessionGen::new(size);
                        crate::session::run(rng, &mut gen, &mut ed, 4 + size / 4, mon, &mut |step, _, _, mon| {
                            acts.push(step.act.clone());
                            mon.distinct(step.after);
                            Ok(())
                        })?;
                    }
                    let own = rng.bool();
                    let seed = rng.clone();
                    let often = rng.between(1, 4);
                    let (kept, taken) = kept(|| {
                        let parser = if own { a_world(kind.min(1), &seed).parser.clone() } else { world.parser.clone() };
                        let mut ed = MathEditor::new(parser);
                        for (n, act) in acts.iter().enumerate() {
                            // (with a parser of its own, the formula may become another one)
                            if own && (matches!(sel_of(&ed), Ok(sel) if sel.is_grid() && crate::session::needs_row(act)) || !crate::session::possible(&tree_of(&ed), act)) {
                                continue;
                            }
                            perform(&mut ed, act);
                            if n % often == 0 {
                                look(&mut ed);
                            }
                        }
                    })?;
                    ensure!(kept == 0, "an editor that is dropped after {} actions keeps {} bytes of {}", acts.len(), kept, taken);
                    mon.count(if own { "editors dropped with their parser" } else { "editors dropped" });
                }
                _ => {
                    // Again and again
                    // Leaving a word replaces it, sometimes by itself
                    let words = rng.bool();
                    let world = if words { full() } else { core() };
                    let mut ed = MathEditor::new(world.parser.clone());
                    let mut gen = SessionGen::new(size);
                    crate::session::run(rng, &mut gen, &mut ed, 4 + size / 5, mon, &mut |_, _, _, _| Ok(()))?;
                    let tree = tree_of(&ed);
                    let all = all_positions(&tree);
                    let home = pos_to_repo(rng.pick(&all));
                    let back = rng.below(4);
                    let mut acts = vec![];
                    for _ in 0..rng.between(1, 8) {
                        acts.push(match rng.below(if words { 5 } else { 10 }) {
                            0 => Act::Copy,
                            1 => Act::PasteText("{\"version\":1,\"data\":[{\"Symbol\":".into()),
                            2 => Act::FinishAutocomplete(false),
                            3 => Act::OpenAutocomplete,
                            4 => Act::MoveInAutocomplete(if rng.bool() { VerticalDirection::Up } else { VerticalDirection::Down }),
                            5 | 6 => Act::Move(*rng.pick(&DIRECTIONS)),
                            7 => Act::StartSelection(rng.pick(&all).clone()),
                            8 => Act::ExtendSelection(rng.pick(&all).clone()),
                            _ => Act::Select(*rng.pick(&DIRECTIONS)),
                        });
                    }
                    mon.note(|| format!("again and again in {}: back {}, {:?}", show(&tree), back, acts.iter().map(|a| a.show()).collect::<Vec<_>>()));
                    let same = ed.get_input_tree().clone();
                    // Whether nothing changed
                    let round = |ed: &mut MathEditor| -> bool {
                        let mut undone = 0;
                        while undone < back && ed.undo().is_some() {
                            undone += 1;
                        }
                        look(ed);
                        for _ in 0..undone {
                            ed.redo();
                        }
                        for act in &acts {
                            if matches!(sel_of(ed), Ok(sel) if sel.is_grid() && crate::session::needs_row(act)) {
                                continue;
                            }
                            perform(ed, act);
                            look(ed);
                            if *ed.get_input_tree() != same {
                                return false;
                            }
                        }
                        if !words {
                            ed.start_selection(home.clone(), MoveMode::Char);
                            ed.finish_selection();
                        }
                        look(ed);
                        *ed.get_input_tree() == same
                    };
                    let mut before = 0;
                    for n in 0..52 {
                        if n == 12 {
                            before = in_use();
                        }
                        if !guarded(|| round(&mut ed))? {
                            return Err("actions that change nothing changed the formula".into());
                        }
                    }
                    let after = in_use();
                    ensure!(after - before < 256, "the same actions again and again make the editor grow by {} bytes in 40 rounds", after - before);
                    mon.distinct(&tree);
                    mon.count("actions repeated without growth");
                }
            }
            Ok(())
        },
        probe: None,
        assumptions: &["what the code keeps for all editors and parsers together is not counted (everything is done twice, and counted the second time)", "the allocator of the monitor instead of the one in the browser"],
    }
}
