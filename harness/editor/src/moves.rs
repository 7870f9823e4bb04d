//! C14, C15: moving the caret. C22: selecting.
use crate::world::*;
use caret::primitive::MoveMode;
use input_tree::direction::Direction;
use monitor_common::*;

fn formula(rng: &mut Rng, size: usize, odd: usize) -> MRow {
    let mut shape = gen::Shape::sized(size);
    shape.odd = if rng.one_in(5) { odd } else { 0 };
    shape.containers = rng.between(20, 60);
    // Some with what formulas often consist of, such as the index of a square root
    let symbols: &[&str] = if rng.bool() { &["a", "b", "1", "+", "x"] } else { &["2", "2", "x", "(", ")", "+", "-", "\"", "'", ",", " ", "3", "∑", "∞", "sin", ""] };
    let mut row = gen::row(rng, &shape, &mut |rng| rng.pick(symbols).to_string());
    if row.is_empty() && !rng.one_in(20) {
        row.push(gen::node(rng, &shape, &mut |_| "c".into()));
    }
    row
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "random formula (all container kinds, empty cells, containers with unusual numbers of cells); the caret walks from the start to the end with right, two steps further, and back with left; the trace has to be the list of all caret positions from an independent walk of the formula. Distinct: different formulas walked.",
        quick: 140_000,
        thorough: 7_000_000,
        case: |rng, size, mon| {
            let tree = formula(rng, size, 25);
            mon.note(|| format!("formula {}", show(&tree)));
            let all = all_positions(&tree);
            let world = if rng.bool() { core() } else { full() };
            let mut ed = editor_with(&world, &tree, &all[0], &all[0]);
            let expect = |ed: &mut caret::math_editor::MathEditor, at: usize, what: &str| -> CaseResult {
                let sel = sel_of(ed)?;
                ensure!(sel == Sel::caret(&all[at]), "{} (position {} of {}): the caret is at {:?} instead of {:?}", what, at, all.len(), sel, all[at]);
                Ok(())
            };
            expect(&mut ed, 0, "start")?;
            for i in 1..all.len() + 2 {
                ed.move_caret(Direction::Right, MoveMode::Char);
                expect(&mut ed, i.min(all.len() - 1), "right")?;
            }
            for i in (0..all.len() as isize - 1).rev().chain([0, 0]) {
                ed.move_caret(Direction::Left, MoveMode::Char);
                expect(&mut ed, i as usize, "left")?;
            }
            // And from anywhere, in both directions
            for _ in 0..6 {
                let i = rng.below(all.len());
                place(&mut ed, &all[i], &all[i]);
                expect(&mut ed, i, "placed")?;
                if rng.bool() {
                    ed.move_caret(Direction::Right, MoveMode::Char);
                    expect(&mut ed, (i + 1).min(all.len() - 1), "right")?;
                } else {
                    ed.move_caret(Direction::Left, MoveMode::Char);
                    expect(&mut ed, i.saturating_sub(1), "left")?;
                }
            }
            ensure!(tree_of(&ed) == tree, "moving changed the formula to {}", show(&tree_of(&ed)));
            mon.add("positions visited", all.len());
            mon.add("rows entered", all_rows(&tree).len());
            if tree.iter().any(|n| n.kind().is_some() && n.cells().is_empty()) {
                mon.count("formulas with a container without cells");
            }
            mon.distinct(&tree);
            mon.sample(|| format!("{}: {} positions", show(&tree), all.len()));
            Ok(())
        },
        probe: None,
        assumptions: &["the formulas contain no autocomplete words"],
    }
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        rule: "random formula; up and down from every caret position (or 60 random ones), compared with an independent search for the innermost container with a cell above or below. Distinct: different (formula, position, direction) triples where the caret moves.",
        quick: 240_000,
        thorough: 12_000_000,
        case: |rng, size, mon| {
            let tree = formula(rng, size, 25);
            mon.note(|| format!("formula {}", show(&tree)));
            let all = all_positions(&tree);
            let world = if rng.bool() { core() } else { full() };
            let mut ed = editor_with(&world, &tree, &all[0], &all[0]);
            let picks: Vec<usize> = if all.len() <= 30 { (0..all.len()).collect() } else { (0..60).map(|_| rng.below(all.len())).collect() };
            for i in picks {
                for direction in [Direction::Up, Direction::Down] {
                    place(&mut ed, &all[i], &all[i]);
                    ed.move_caret(direction, MoveMode::Char);
                    let target = reference_move(&tree, &all[i], direction);
                    let want = Sel::caret(target.as_ref().unwrap_or(&all[i]));
                    let got = sel_of(&ed)?;
                    ensure!(got == want, "{:?} from {:?} leads to {:?} instead of {:?}", direction, all[i], got, want);
                    match &target {
                        None => mon.count("caret stays"),
                        Some(t) => {
                            mon.count(if t.path.len() == all[i].path.len() && t.path.split_last().map(|v| v.1) == all[i].path.split_last().map(|v| v.1) {
                                "to a cell of the same container"
                            } else if t.path.len() < all[i].path.len() && t.path[..] == all[i].path[..t.path.len()] {
                                "out of a script"
                            } else {
                                "to a cell of an outer container"
                            });
                            mon.distinct(&(&tree, i, direction == Direction::Up));
                            mon.sample(|| format!("{} {:?} from {:?} to {:?}", show(&tree), direction, all[i], t));
                        }
                    }
                }
            }
            ensure!(tree_of(&ed) == tree, "moving changed the formula to {}", show(&tree_of(&ed)));
            Ok(())
        },
        probe: None,
        assumptions: &["the formulas contain no autocomplete words", "only from a collapsed caret"],
    }
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        rule: "random formula; drags between pairs of positions with several intermediate positions, keyboard selection step by step from them, and select all; every reported selection is compared with the smallest covering stretch or table rectangle computed independently. Distinct: different (formula, selection) pairs.",
        quick: 160_000,
        thorough: 8_000_000,
        case: |rng, size, mon| {
            let mut tree = formula(rng, size, 0);
            if rng.bool() {
                // More tables
                let mut shape = gen::Shape::sized(size);
                shape.containers = 50;
                let (w, h) = (rng.between(1, 3), rng.between(1, 3));
                let cells = (0..w * h).map(|_| gen::row(rng, &shape, &mut |_| "t".into())).collect();
                let at = rng.between(0, tree.len());
                tree.insert(at, cont(Kind::Table, w, cells));
            }
            mon.note(|| format!("formula {}", show(&tree)));
            let all = all_positions(&tree);
            let world = if rng.bool() { core() } else { full() };
            let mut ed = editor_with(&world, &tree, &all[0], &all[0]);
            for _ in 0..12 {
                let i = rng.below(all.len());
                ed.start_selection(pos_to_repo(&all[i]), MoveMode::Char);
                let got = sel_of(&ed)?;
                ensure!(got == Sel::caret(&all[i]), "starting to select at {:?} gives {:?}", all[i], got);
                let mut current = all[i].clone();
                for _ in 0..rng.between(1, 4) {
                    let j = if rng.bool() { rng.below(all.len()) } else { (i + rng.below(13)).saturating_sub(6).min(all.len() - 1) };
                    current = all[j].clone();
                    ed.extend_selection(pos_to_repo(&current));
                    check(&ed, &tree, &all[i], &current, "dragging", mon)?;
                }
                if rng.bool() {
                    ed.finish_selection();
                    check(&ed, &tree, &all[i], &current, "finishing", mon)?;
                }
                // Extend with the keyboard, step by step
                for _ in 0..rng.below(6) {
                    let Sel::Row { path, end, .. } = sel_of(&ed)? else { break };
                    let direction = *rng.pick(&DIRECTIONS);
                    let before = sel_of(&ed)?;
                    let target = reference_move(&tree, &MPos::new(path, end), direction);
                    let done = ed.select_with_caret(direction, MoveMode::Char);
                    match target {
                        None => {
                            ensure!(done.is_none(), "selecting {:?} at {:?} reports success at the end of the formula", direction, before);
                            ensure!(sel_of(&ed)? == before, "selecting {:?} at {:?} changes the selection to {:?} although there is nothing in that direction", direction, before, sel_of(&ed)?);
                        }
                        Some(target) => {
                            ensure!(done.is_some(), "selecting {:?} at {:?} does nothing", direction, before);
                            check(&ed, &tree, &all[i], &target, "a keyboard step", mon)?;
                            current = target;
                        }
                    }
                }
                // Outside of a drag: nothing to finish, and extending goes on from the same start
                if rng.one_in(3) {
                    ed.finish_selection();
                    check(&ed, &tree, &all[i], &current, "finishing without a drag", mon)?;
                    current = rng.pick(&all).clone();
                    ed.extend_selection(pos_to_repo(&current));
                    check(&ed, &tree, &all[i], &current, "extending after the drag", mon)?;
                }
            }
            ed.select_all();
            let want = Sel::Row { path: vec![], start: 0, end: tree.len() };
            ensure!(sel_of(&ed)? == want, "select all selects {:?} instead of {:?}", sel_of(&ed)?, want);
            if rng.bool() {
                ed.finish_selection();
                ensure!(sel_of(&ed)? == want, "finishing a selection after select all selects {:?} instead of {:?}", sel_of(&ed)?, want);
                let to = rng.pick(&all);
                ed.extend_selection(pos_to_repo(to));
                check(&ed, &tree, &MPos::new(vec![], 0), to, "extending after select all", mon)?;
            }
            ensure!(tree_of(&ed) == tree, "selecting changed the formula to {}", show(&tree_of(&ed)));
            Ok(())
        },
        probe: None,
        assumptions: &["the formulas contain no autocomplete words", "keyboard steps only while a stretch of a row is selected (known finding of C11)"],
    }
}

fn check(ed: &caret::math_editor::MathEditor, tree: &MRow, a: &MPos, b: &MPos, what: &str, mon: &mut Mon) -> CaseResult {
    let got = sel_of(ed)?;
    let want = reference_selection(tree, a, b);
    ensure!(got == want, "{} from {:?} to {:?} selects {:?} instead of {:?}", what, a, b, got, want);
    mon.count(what);
    mon.count(match &got {
        Sel::Grid { size: (1, 1), .. } => "single cell rectangles",
        Sel::Grid { .. } => "rectangles of cells",
        Sel::Row { start, end, .. } if start == end => "nothing selected",
        Sel::Row { start, end, .. } if start < end => "forward selections",
        Sel::Row { .. } => "backward selections",
    });
    mon.distinct(&(tree, &got));
    mon.sample(|| format!("{} {:?} {:?} -> {:?}", show(tree), a, b, got));
    Ok(())
}
