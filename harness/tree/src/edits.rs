use crate::util::*;
use input_tree::{
    editing::{editable::Editable, invertible::Invertible, BasicEdit},
    focus::{InputRowPosition, InputRowRange, MinimalInputRowPosition, MinimalInputRowRange},
    input_tree::InputTree,
    row::Offset,
};
use monitor_common::*;

fn tree_of(row: &MRow) -> InputTree {
    InputTree::new(row_to_repo(row))
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "random formula (all container kinds, nested, empty rows and cells, up to 5x5 tables, now and then enormous ones with more than 65,536 elements) and a random sequence of 1-8 valid row and table edits at any depth; every edit is applied and inverted on its own, and the sequence is undone in reverse. Distinct: different (formula, edit) pairs.",
        quick: 200_000,
        thorough: 3_000_000,
        case: |rng, size, mon| {
            let mut g = EditGen::new(size).with_enormous_rows(20_000);
            let mut model = g.tree(rng);
            let mut tree = tree_of(&model);
            let steps = rng.between(1, 2 + size / 16);
            let mut history: Vec<(BasicEdit, input_tree::row::InputRow)> = vec![];
            mon.note(|| format!("formula {}", show(&model)));
            if count_nodes(&model) > 60_000 {
                mon.count("enormous formulas");
            }
            for _ in 0..steps {
                let edit = g.any_edit(rng, &model);
                mon.note(|| edit.describe());
                mon.count(edit.kind());
                let repo_edit = edit.to_repo();
                let inverse = repo_edit.inverse();
                ensure!(inverse.inverse() == repo_edit, "the inverse of the inverse is a different edit");
                let before = tree.root.clone();
                tree.apply_edit(&repo_edit);
                let after = tree.root.clone();
                tree.apply_edit(&inverse);
                ensure!(
                    tree.root == before && row_from_repo(&tree.root) == model,
                    "undoing the edit gives {} instead of {}", show(&row_from_repo(&tree.root)), show(&model)
                );
                // Redo, through the inverse of the inverse
                tree.apply_edit(&inverse.inverse());
                ensure!(tree.root == after, "redoing the edit gives a different formula");
                mon.distinct(&(show(&model), edit.describe()));
                mon.sample(|| format!("{} :: {}", show(&model), edit.describe()));
                edit.apply(&mut model);
                // Follow what the real code did, C02 compares it with the model
                model = { let mut m = row_from_repo(&tree.root); let mut id = 0; assign_ids(&mut m, &mut id); m };
                history.push((repo_edit, before));
            }
            mon.add("edits undone in sequence", history.len());
            if rng.bool() {
                for (edit, before) in history.iter().rev() {
                    tree.apply_edit(&edit.inverse());
                    ensure!(&tree.root == before, "undoing a sequence of edits gives a different formula");
                }
            } else {
                let inverses: Vec<BasicEdit> = history.iter().rev().map(|(e, _)| e.inverse()).collect();
                tree.apply_edits(&inverses);
                ensure!(tree.root == history[0].1, "undoing a sequence of edits at once gives a different formula");
            }
            Ok(())
        },
        probe: None,
        assumptions: &["edits are valid: offsets exist, deleted values are the ones in the formula, a table keeps at least one column"],
    }
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "random formula (most with all symbols distinct, others with few different ones), and a sequence of 1-8 valid row and table edits; after each one the whole formula is compared with an independent model of the edit. Distinct: different (formula, edit) pairs.",
        quick: 250_000,
        thorough: 3_000_000,
        case: |rng, size, mon| {
            let mut g = EditGen::new(size).with_enormous_rows(20_000);
            let mut model = g.tree(rng);
            let mut tree = tree_of(&model);
            let steps = rng.between(1, 2 + size / 16);
            mon.note(|| format!("formula {}", show(&model)));
            if count_nodes(&model) > 60_000 {
                mon.count("enormous formulas");
            }
            let mut batch = vec![];
            for _ in 0..steps {
                let edit = g.any_edit(rng, &model);
                mon.note(|| edit.describe());
                mon.count(edit.kind());
                mon.distinct(&(show(&model), edit.describe()));
                mon.sample(|| format!("{} :: {}", show(&model), edit.describe()));
                let repo_edit = edit.to_repo();
                tree.apply_edit(&repo_edit);
                batch.push(repo_edit);
                edit.apply(&mut model);
                let got = row_from_repo(&tree.root);
                ensure!(got == model, "formula after the edit is {} but should be {}", show(&got), show(&model));
                mon.add("nodes compared", count_nodes(&model));
            }
            Ok(())
        },
        probe: None,
        assumptions: &["edits are valid (see C01)"],
    }
}

/// Where a stored place must be after an edit, by identity of the content.
fn expected_row(before: &MRow, after: &MRow, path: &Path, edit: &MEdit) -> Result<Path, (Path, usize)> {
    let (MEdit::Insert { path: edited, offset, .. } | MEdit::Delete { path: edited, offset, .. }) = edit else {
        unreachable!()
    };
    if path.len() <= edited.len() || path[..edited.len()] != edited[..] {
        return Ok(path.clone());
    }
    let (element, cell) = path[edited.len()];
    let id = row_at(before, edited).unwrap()[element].id;
    match row_at(after, edited).unwrap().iter().position(|n| n.id == id) {
        Some(new_element) => {
            let mut out = path.clone();
            out[edited.len()] = (new_element, cell);
            Ok(out)
        }
        None => Err((edited.clone(), *offset)),
    }
}

/// New offset in the edited row, counting the content that is to the left of it
fn expected_offset(before: &MRow, after: &MRow, edit: &MEdit, offset: usize, behind_inserted: bool) -> usize {
    let (MEdit::Insert { path, offset: at, .. } | MEdit::Delete { path, offset: at, .. }) = edit else {
        unreachable!()
    };
    let old: Vec<u64> = row_at(before, path).unwrap().iter().map(|n| n.id).collect();
    let new: Vec<u64> = row_at(after, path).unwrap().iter().map(|n| n.id).collect();
    let survivors_left = old[..offset].iter().filter(|id| new.contains(id)).count();
    let inserted = new.iter().filter(|id| !old.contains(id)).count();
    if inserted > 0 && (*at < offset || (*at == offset && behind_inserted)) {
        survivors_left + inserted
    } else {
        survivors_left
    }
}

fn expected_range(before: &MRow, after: &MRow, edit: &MEdit, range: &(Path, usize, usize)) -> (Path, usize, usize) {
    let (MEdit::Insert { path: edited, .. } | MEdit::Delete { path: edited, .. }) = edit else {
        unreachable!()
    };
    let (path, start, end) = range;
    if path == edited {
        let (left, right) = (*start.min(end), *start.max(end));
        let left = expected_offset(before, after, edit, left, false);
        let right = expected_offset(before, after, edit, right, true);
        return if start <= end {
            (path.clone(), left, right)
        } else {
            (path.clone(), right, left)
        };
    }
    match expected_row(before, after, path, edit) {
        Ok(path) => (path, *start, *end),
        Err((path, at)) => (path, at, at),
    }
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "random formula, a sequence of 1-6 row edits (inserting or deleting 0-5 elements, including containers) at any depth; all caret positions and a random set of forward/backward/empty ranges are tracked through the sequence and compared with the place computed from the identities of the surviving content. Distinct: different (place, edit effect) pairs.",
        quick: 60_000,
        thorough: 1_000_000,
        case: |rng, size, mon| {
            let mut g = EditGen::new(size);
            let mut model = g.tree(rng);
            let mut tree = tree_of(&model);
            mon.note(|| format!("formula {}", show(&model)));
            let mut positions: Vec<(MPos, MinimalInputRowPosition)> = all_positions(&model)
                .into_iter()
                .map(|p| { let q = pos_to_repo(&p); (p, q) })
                .collect();
            let rows = all_rows(&model);
            let mut ranges: Vec<((Path, usize, usize), MinimalInputRowRange)> = (0..40)
                .map(|_| {
                    let path = rng.pick(&rows).clone();
                    let len = row_at(&model, &path).unwrap().len();
                    let (start, end) = (rng.between(0, len), rng.between(0, len));
                    let repo = MinimalInputRowRange { row_indices: path_to_repo(&path), start: Offset(start), end: Offset(end) };
                    ((path, start, end), repo)
                })
                .collect();
            let start = positions.clone();
            let mut edits = vec![];
            for _ in 0..rng.between(1, 2 + size / 20) {
                let edit = g.row_edit(rng, &model);
                mon.note(|| edit.describe());
                mon.count(edit.kind());
                let before = model.clone();
                edit.apply(&mut model);
                let repo_edit = edit.to_repo();
                tree.apply_edit(&repo_edit);
                ensure!(row_from_repo(&tree.root) == model, "the edit itself went wrong (C02)");
                for (place, tracked) in positions.iter_mut() {
                    let (path, offset, _) = {
                        // A position behaves like the left end of an empty range
                        let as_range = (place.path.clone(), place.offset, place.offset);
                        expected_range(&before, &model, &edit, &as_range)
                    };
                    let expected = MPos::new(path, offset);
                    tracked.apply_edit(&repo_edit);
                    let got = pos_from_repo(tracked);
                    ensure!(got == expected, "position {:?} moves to {:?} instead of {:?}", place, got, expected);
                    mon.count(if got == *place { "positions unmoved" } else { "positions moved" });
                    mon.distinct(&(&place, &expected, edit.kind()));
                    guarded(|| InputRowPosition::from_minimal(tree.root_focus(), tracked).offset)
                        .map_err(|e| format!("position {:?} is invalid afterwards: {}", got, e))?;
                    *place = expected;
                }
                for (place, tracked) in ranges.iter_mut() {
                    let expected = expected_range(&before, &model, &edit, place);
                    tracked.apply_edit(&repo_edit);
                    let got = (path_from_repo(&tracked.row_indices), tracked.start.0, tracked.end.0);
                    ensure!(got == expected, "range {:?} moves to {:?} instead of {:?}", place, got, expected);
                    mon.count(if place.1 <= place.2 { "forward ranges" } else { "backward ranges" });
                    mon.distinct(&(&place, &expected, edit.kind()));
                    guarded(|| InputRowRange::from_minimal(tree.root_focus(), tracked).len())
                        .map_err(|e| format!("range {:?} is invalid afterwards: {}", got, e))?;
                    *place = expected;
                }
                edits.push(repo_edit);
                mon.sample(|| format!("{} :: {}", show(&before), edit.describe()));
            }
            // An edit of a table elsewhere leaves places alone. (On the row of the table and below it, known findings)
            if let Some(edit) = g.grid_edit(rng, &model) {
                let MEdit::Grid { path: edited, .. } = &edit else { unreachable!() };
                let repo_edit = edit.to_repo();
                for (place, tracked) in &positions {
                    if !place.path.starts_with(edited) {
                        let mut tracked = tracked.clone();
                        tracked.apply_edit(&repo_edit);
                        ensure!(pos_from_repo(&tracked) == *place, "position {:?} moves to {:?} by {}", place, tracked, edit.describe());
                        mon.count("positions elsewhere than a table edit");
                    }
                }
                for (place, tracked) in &ranges {
                    if !place.0.starts_with(edited) {
                        let mut tracked = tracked.clone();
                        tracked.apply_edit(&repo_edit);
                        let got = (path_from_repo(&tracked.row_indices), tracked.start.0, tracked.end.0);
                        ensure!(got == *place, "range {:?} moves to {:?} by {}", place, got, edit.describe());
                    }
                }
            }
            // The whole sequence at once
            for ((_, mut tracked), (expected, _)) in start.into_iter().zip(positions) {
                tracked.apply_edits(&edits);
                ensure!(pos_from_repo(&tracked) == expected, "tracking through all edits at once differs");
            }
            Ok(())
        },
        probe: Some(|mon| {
            // Tracking through table edits is not implemented
            use input_tree::focus::MinimalInputGridRange;
            use input_tree::grid::GridRectangle;
            let model = vec![cont(Kind::Table, 2, vec![vec![sym("a")], vec![sym("b")], vec![sym("c")], vec![sym("d")]])];
            let edit = MEdit::Grid {
                insert: true, rows: true, path: vec![], index: 0, at: 0, count: 1,
                cells: vec![vec![], vec![]], cells_width: 2,
            };
            let mut tree = tree_of(&model);
            let repo_edit = edit.to_repo();
            tree.apply_edit(&repo_edit);
            let mut position = pos_to_repo(&MPos::new(vec![(0, 1)], 1));
            match guarded(|| position.apply_edit(&repo_edit)) {
                Err(e) if e.contains("not yet implemented") => mon.finding("position-below-table-edit", e),
                Err(e) => return Err(format!("position below a table edit: {}", e)),
                Ok(()) => ensure!(pos_from_repo(&position) == MPos::new(vec![(0, 3)], 1), "position below a table edit moves to {:?}", position),
            }
            let mut outside = pos_to_repo(&MPos::new(vec![], 1));
            match guarded(|| outside.apply_edit(&repo_edit)) {
                Err(e) if e.contains("not yet implemented") => mon.finding("position-beside-table-edit", e),
                Err(e) => return Err(format!("position beside a table edit: {}", e)),
                Ok(()) => ensure!(pos_from_repo(&outside) == MPos::new(vec![], 1), "position beside an edited table moves to {:?}", outside),
            }
            let mut selection = MinimalInputGridRange {
                row_indices: path_to_repo(&vec![]), index: 0, range: GridRectangle::new(0..1, 2),
            };
            let row_edit = MEdit::Insert { path: vec![], offset: 0, values: vec![sym("x")] };
            match guarded(|| selection.apply_edit(&row_edit.to_repo())) {
                Err(e) if e.contains("not yet implemented") => mon.finding("table-selection", e),
                Err(e) => return Err(format!("tracking a table selection: {}", e)),
                Ok(()) => ensure!(selection.index == 1, "table selection moves to {:?}", selection),
            }
            Ok(())
        }),
        assumptions: &["row edits are valid (see C01)", "tracking through table edits is a known finding and only probed"],
    }
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        rule: "random formula; for random rows and all or random forward/backward/empty ranges in them: build remove, insert and replace edits with random content, apply them and compare formula and reported places with the model. Distinct: different (formula, range, content) triples.",
        quick: 60_000,
        thorough: 1_500_000,
        case: |rng, size, mon| {
            let mut g = EditGen::new(size).with_enormous_rows(4_000);
            let model = g.tree(rng);
            mon.note(|| format!("formula {}", show(&model)));
            if count_nodes(&model) > 60_000 {
                mon.count("enormous formulas");
            }
            for _ in 0..8 {
                let path = g.pick_row(rng, &model);
                let len = row_at(&model, &path).unwrap().len();
                let (start, end) = (near_the_end(rng, len), near_the_end(rng, len));
                let (left, right) = (start.min(end), start.max(end));
                let values = g.values(rng);
                let mut tree = tree_of(&model);
                let (edits, expected, got_place, want_place): (Vec<BasicEdit>, MRow, String, String);
                match rng.below(3) {
                    0 => {
                        mon.note(|| format!("remove {:?} {}..{}", path, start, end));
                        mon.count("remove_range");
                        let range = InputRowRange::new(tree.root_focus().walk_down_indices(&path_to_repo(&path)), Offset(start), Offset(end));
                        let (e, p) = BasicEdit::remove_range(&range);
                        edits = e;
                        let mut m = model.clone();
                        row_at_mut(&mut m, &path).unwrap().drain(left..right);
                        expected = m;
                        got_place = format!("{:?}", pos_from_repo(&p));
                        want_place = format!("{:?}", MPos::new(path.clone(), left));
                    }
                    1 => {
                        mon.note(|| format!("insert {} at {:?} {}", show(&values), path, start));
                        mon.count("insert_at_position");
                        let position = InputRowPosition::new(tree.root_focus().walk_down_indices(&path_to_repo(&path)), Offset(start));
                        let (e, p) = BasicEdit::insert_at_position(&position, nodes_to_repo(&values));
                        edits = e;
                        let mut m = model.clone();
                        row_at_mut(&mut m, &path).unwrap().splice(start..start, values.iter().cloned());
                        expected = m;
                        got_place = format!("{:?}", pos_from_repo(&p));
                        want_place = format!("{:?}", MPos::new(path.clone(), start + values.len()));
                    }
                    _ => {
                        mon.note(|| format!("replace {:?} {}..{} by {}", path, start, end, show(&values)));
                        mon.count("replace_range");
                        let range = InputRowRange::new(tree.root_focus().walk_down_indices(&path_to_repo(&path)), Offset(start), Offset(end));
                        let (e, r) = BasicEdit::replace_range(&range, nodes_to_repo(&values));
                        edits = e;
                        let mut m = model.clone();
                        row_at_mut(&mut m, &path).unwrap().splice(left..right, values.iter().cloned());
                        expected = m;
                        got_place = format!("{:?} {}..{}", path_from_repo(&r.row_indices), r.start.0.min(r.end.0), r.start.0.max(r.end.0));
                        want_place = format!("{:?} {}..{}", path, left, left + values.len());
                    }
                }
                mon.distinct(&(show(&model), &path, start, end, show(&values)));
                mon.sample(|| format!("{} :: {:?} {}..{} {}", show(&model), path, start, end, show(&values)));
                tree.apply_edits(&edits);
                let got = row_from_repo(&tree.root);
                ensure!(got == expected, "formula is {} but should be {}", show(&got), show(&expected));
                ensure!(got_place == want_place, "reported place is {} but should be {}", got_place, want_place);
                // And it can be undone
                let inverses: Vec<BasicEdit> = edits.iter().rev().map(|e| e.inverse()).collect();
                tree.apply_edits(&inverses);
                ensure!(row_from_repo(&tree.root) == model, "undoing the built edits gives {}", show(&row_from_repo(&tree.root)));
            }
            Ok(())
        },
        probe: None,
        assumptions: &[],
    }
}
