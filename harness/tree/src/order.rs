use crate::util::EditGen;
use input_tree::{
    direction::HorizontalDirection,
    focus::{InputFocusRow, InputGridRange, InputRowPosition, InputRowRange},
    grid::GridRectangle,
    input_tree::InputTree,
    row::{Offset, RowIndex, RowIndices},
};
use monitor_common::*;
use std::cmp::Ordering;

fn focus<'a>(tree: &'a InputTree, pos: &MPos) -> InputRowPosition<'a> {
    InputRowPosition::from_minimal(tree.root_focus(), &pos_to_repo(pos))
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "random formula; all caret positions are enumerated in document order by the model, then all pairs (or 1500 random pairs) are compared both ways, and random ranges in every row are asked for all positions. Distinct: different (formula, position, position) triples.",
        quick: 3_000,
        thorough: 150_000,
        case: |rng, size, mon| {
            let mut g = EditGen::new(size);
            let model = g.tree(rng);
            let tree = InputTree::new(row_to_repo(&model));
            mon.note(|| format!("formula {}", show(&model)));
            let places = all_positions(&model);
            let positions: Vec<InputRowPosition> = places.iter().map(|p| focus(&tree, p)).collect();
            let n = positions.len();
            let check = |i: usize, j: usize, mon: &mut Mon| -> CaseResult {
                let (a, b) = (&positions[i], &positions[j]);
                let want = i.cmp(&j);
                ensure!(a.cmp(b) == want, "cmp of {:?} and {:?} is {:?}, document order is {:?}", places[i], places[j], a.cmp(b), want);
                ensure!(a.partial_cmp(b) == Some(want), "partial_cmp of {:?} and {:?} is not {:?}", places[i], places[j], want);
                ensure!((a == b) == (want == Ordering::Equal), "equality of {:?} and {:?} is wrong", places[i], places[j]);
                ensure!((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j),
                    "comparison operators of {:?} and {:?} are wrong", places[i], places[j]);
                let direct = RowIndices::cmp_indices_and_offset(a.row_indices(), &a.offset, b.row_indices(), &b.offset);
                ensure!(direct == want, "comparing indices of {:?} and {:?} gives {:?}", places[i], places[j], direct);
                mon.count(match want { Ordering::Less => "pairs less", Ordering::Equal => "pairs equal", _ => "pairs greater" });
                if places[i].path.len() != places[j].path.len() {
                    mon.count("pairs at different depths");
                }
                mon.distinct(&(show(&model), i, j));
                Ok(())
            };
            if n <= 40 {
                for i in 0..n {
                    for j in 0..n {
                        check(i, j, mon)?;
                    }
                }
            } else {
                for _ in 0..1500 {
                    let i = rng.below(n);
                    let j = if rng.bool() { rng.below(n) } else { (i + rng.below(5)).saturating_sub(2).min(n - 1) };
                    check(i, j, mon)?;
                }
            }
            mon.sample(|| format!("{} with {} positions", show(&model), n));
            // Ranges contain exactly what is between their ends
            let rows = all_rows(&model);
            for _ in 0..12 {
                let path = rng.pick(&rows).clone();
                let len = row_at(&model, &path).unwrap().len();
                let (start, end) = (rng.between(0, len), rng.between(0, len));
                let row = tree.root_focus().walk_down_indices(&path_to_repo(&path));
                let range = InputRowRange::new(row, Offset(start), Offset(end));
                let find = |offset: usize| places.iter().position(|p| p.path == path && p.offset == offset).unwrap();
                let (left, right) = (find(start.min(end)), find(start.max(end)));
                ensure!(range.left_offset().0 == start.min(end) && range.right_offset().0 == start.max(end), "left/right of {}..{}", start, end);
                ensure!(range.is_forwards() == (start <= end) && range.is_collapsed() == (start == end)
                    && range.len() == start.abs_diff(end) && range.is_empty() == (start == end), "direction or length of {}..{}", start, end);
                ensure!(range.start_position() == positions[find(start)] && range.end_position() == positions[find(end)]
                    && range.left_position() == positions[left] && range.right_position() == positions[right], "ends of {:?} {}..{}", path, start, end);
                let values: Vec<MNode> = range.values().iter().map(node_from_repo).collect();
                ensure!(values[..] == row_at(&model, &path).unwrap()[start.min(end)..start.max(end)], "values of {:?} {}..{}", path, start, end);
                for (i, position) in positions.iter().enumerate() {
                    let want = left <= i && i <= right;
                    ensure!(range.contains(position) == want, "range {:?} {}..{} contains {:?}: {}", path, start, end, places[i], !want);
                    ensure!(position.in_range(range.clone()) == want, "{:?} in_range {:?} {}..{}", places[i], path, start, end);
                    mon.count(if want { "contained" } else { "not contained" });
                }
            }
            Ok(())
        },
        probe: None,
        assumptions: &[],
    }
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "random formula; all pairs (or 400 random pairs) of caret positions; the range between them is compared with the smallest covering range found by exhaustive search over the rows holding both. Distinct: different (formula, position, position) triples.",
        quick: 12_000,
        thorough: 500_000,
        case: |rng, size, mon| {
            let mut g = EditGen::new(size);
            let model = g.tree(rng);
            let tree = InputTree::new(row_to_repo(&model));
            mon.note(|| format!("formula {}", show(&model)));
            let places = all_positions(&model);
            let n = places.len();
            let pairs: Vec<(usize, usize)> = if n <= 20 {
                (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect()
            } else {
                (0..400).map(|_| {
                    let i = rng.below(n);
                    let j = if rng.bool() { rng.below(n) } else { (i + rng.below(9)).saturating_sub(4).min(n - 1) };
                    (i, j)
                }).collect()
            };
            for (i, j) in pairs {
                let (a, b) = (&places[i], &places[j]);
                // Deepest row that holds both
                let mut shared = 0;
                while shared < a.path.len() && shared < b.path.len() && a.path[shared] == b.path[shared] {
                    shared += 1;
                }
                let path: Path = a.path[..shared].to_vec();
                // Search for the smallest covering range
                let in_row: Vec<usize> = (0..n).filter(|k| places[*k].path == path).collect();
                let mut best: Option<(usize, usize)> = None;
                for (x, left) in in_row.iter().enumerate() {
                    for (y, right) in in_row.iter().enumerate().skip(x) {
                        if *left <= i.min(j) && i.max(j) <= *right && best.map_or(true, |(p, q)| y - x < q - p) {
                            best = Some((x, y));
                        }
                    }
                }
                let (left, right) = best.unwrap();
                let want = if i <= j { (left, right) } else { (right, left) };
                let range = tree.range_from_positions(&focus(&tree, a), &focus(&tree, b));
                let got = (range.start.0, range.end.0);
                ensure!(path_from_repo(range.row_indices()) == path && got == want,
                    "range from {:?} to {:?} is {:?} {:?} instead of {:?} {:?}", a, b, path_from_repo(range.row_indices()), got, path, want);
                ensure!(range.row_focus.row() == tree.root_focus().walk_down_indices(&path_to_repo(&path)).row(), "range has the wrong row");
                mon.count(match (a.path.len() > shared, b.path.len() > shared) {
                    (false, false) => "pairs in one row",
                    (true, true) => "both nested",
                    _ => "one nested",
                });
                mon.count(if i <= j { "forwards" } else { "backwards" });
                mon.distinct(&(show(&model), i, j));
                mon.sample(|| format!("{} {:?} {:?} -> {:?} {:?}", show(&model), a, b, path, want));
            }
            Ok(())
        },
        probe: None,
        assumptions: &[],
    }
}

fn check_row(row: &InputFocusRow<'_>, model: &MRow, path: &Path) -> CaseResult {
    let want = row_at(model, path).unwrap();
    ensure!(&row_from_repo(row.row()) == want, "at {:?} there is {} instead of {}", path, show(&row_from_repo(row.row())), show(want));
    ensure!(path_from_repo(row.row_indices()) == *path, "row at {:?} reports indices {:?}", path, row.row_indices());
    ensure!(row.len() == want.len() && row.is_empty() == want.is_empty(), "row at {:?} reports a wrong length", path);
    ensure!(row.index_in_parent() == path.last().map(|v| v.1), "row at {:?} reports index {:?} in its parent", path, row.index_in_parent());
    Ok(())
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "random formula; a random walk of 60 steps down and up (valid steps, and attempts to step to indices that do not exist), plus a direct walk to every row and round trips of all positions and random ranges and table selections through their stored form. Distinct: different (formula, visited place) pairs.",
        quick: 12_000,
        thorough: 500_000,
        case: |rng, size, mon| {
            let mut g = EditGen::new(size);
            if rng.one_in(3) {
                g.shape.odd = 20;
            }
            let model = g.tree(rng);
            let tree = InputTree::new(row_to_repo(&model));
            mon.note(|| format!("formula {}", show(&model)));
            // Every row, directly
            for path in all_rows(&model) {
                let row = tree.root_focus().walk_down_indices(&path_to_repo(&path));
                check_row(&row, &model, &path)?;
                mon.count("rows reached");
                mon.distinct(&(show(&model), &path));
                // From the parent row
                if let Some((last, init)) = path.split_last() {
                    let parent = tree.root_focus().walk_down_indices(&path_to_repo(&init.to_vec()));
                    let again = parent.row_at(RowIndex(last.0, last.1)).ok_or("row_at yields nothing")?;
                    check_row(&again, &model, &path)?;
                    ensure!(again == row, "the same row is not equal to itself");
                }
                // And all the way up again
                let mut up = row.clone();
                let mut here = path.clone();
                loop {
                    match up.parent() {
                        None => {
                            ensure!(here.is_empty(), "row {:?} has no parent", here);
                            break;
                        }
                        Some(node) => {
                            let (element, _) = here.pop().ok_or("the root has a parent")?;
                            let in_row = row_at(&model, &here).unwrap();
                            ensure!(node.index_in_parent() == element, "parent at {:?} reports index {}", here, node.index_in_parent());
                            ensure!(node_from_repo(node.node()) == in_row[element], "wrong parent node above {:?}", path);
                            let indices = node.element_indices();
                            ensure!(path_from_repo(&indices.row_indices) == here && indices.index == element, "parent of {:?} reports {:?}", path, indices);
                            up = node.parent();
                            check_row(&up, &model, &here)?;
                            mon.count("parents reached");
                        }
                    }
                }
            }
            // Random walk
            let mut row = tree.root_focus();
            let mut path: Path = vec![];
            for _ in 0..60 {
                let here = row_at(&model, &path).unwrap();
                match rng.below(5) {
                    0 => {
                        // Something that does not exist
                        let index = here.len() + [0, 1, 7, usize::MAX / 2, usize::MAX - here.len()][rng.below(5)];
                        ensure!(row.clone().child_at(index).is_none(), "element {} of {:?} exists", index, path);
                        ensure!(row.node_at(index).is_none(), "node {} of {:?} exists", index, path);
                        ensure!(row.clone().row_at((index, 0)).is_none(), "row {:?} in {:?} exists", (index, 0), path);
                        mon.count("missing elements");
                    }
                    1 => {
                        ensure!(row.clone().parent().is_some() == !path.is_empty(), "existence of the parent of {:?}", path);
                        if let Some(parent) = row.clone().parent() {
                            path.pop();
                            row = parent.parent();
                            mon.count("steps up");
                        }
                    }
                    _ if !here.is_empty() => {
                        let index = rng.below(here.len());
                        let node = row.clone().child_at(index).ok_or_else(|| format!("element {} of {:?} is missing", index, path))?;
                        ensure!(node_from_repo(node.node()) == here[index] && node.index_in_parent() == index, "element {} of {:?} is wrong", index, path);
                        ensure!(row.node_at(index).map(node_from_repo).as_ref() == Some(&here[index]), "node {} of {:?} is wrong", index, path);
                        let cells = here[index].cells();
                        let bad = cells.len() + [0, 1, 5, usize::MAX - cells.len()][rng.below(4)];
                        match node.clone().child_at(bad) {
                            Ok(_) => return Err(format!("cell {} of element {} in {:?} exists", bad, index, path)),
                            Err(same) => {
                                ensure!(same == node && path_from_repo(&same.element_indices().row_indices) == path, "a failed step down changes the focus");
                                mon.count("missing cells");
                            }
                        }
                        ensure!(row.clone().row_at((index, bad)).is_none(), "row {:?} in {:?} exists", (index, bad), path);
                        if !cells.is_empty() {
                            let cell = rng.below(cells.len());
                            row = node.child_at(cell).map_err(|_| format!("cell {} of element {} in {:?} is missing", cell, index, path))?;
                            path.push((index, cell));
                            mon.count("steps down");
                        } else if rng.bool() {
                            row = node.parent();
                        }
                    }
                    _ => {}
                }
                check_row(&row, &model, &path)?;
            }
            // Stored forms
            for pos in all_positions(&model) {
                let position = focus(&tree, &pos);
                ensure!(pos_from_repo(&position.to_minimal()) == pos && position.offset.0 == pos.offset, "position {:?} reads back as {:?}", pos, position.to_minimal());
                check_row(&position.row_focus, &model, &pos.path)?;
                let as_range: InputRowRange = (&position).into();
                ensure!(as_range.start == position.offset && as_range.end == position.offset && path_from_repo(as_range.row_indices()) == pos.path, "range of position {:?}", pos);
                let row = row_at(&model, &pos.path).unwrap();
                let left = position.row_focus.offset_to_index(position.offset, HorizontalDirection::Left);
                let right = position.row_focus.offset_to_index(position.offset, HorizontalDirection::Right);
                ensure!(left == pos.offset.checked_sub(1), "index left of {:?} is {:?}", pos, left);
                ensure!(right == (pos.offset < row.len()).then_some(pos.offset), "index right of {:?} is {:?}", pos, right);
                mon.count("positions round-tripped");
            }
            let rows = all_rows(&model);
            for _ in 0..10 {
                let path = rng.pick(&rows).clone();
                let len = row_at(&model, &path).unwrap().len();
                let (start, end) = (rng.between(0, len), rng.between(0, len));
                let range = InputRowRange::new(tree.root_focus().walk_down_indices(&path_to_repo(&path)), Offset(start), Offset(end));
                let minimal = range.to_minimal();
                ensure!(path_from_repo(&minimal.row_indices) == path && minimal.start.0 == start && minimal.end.0 == end, "stored range {:?}", minimal);
                ensure!(InputRowRange::from_minimal(tree.root_focus(), &minimal) == range, "range {:?} reads back differently", minimal);
            }
            for (path, index) in all_containers(&model) {
                let node = &row_at(&model, &path).unwrap()[index];
                let Body::Cont(_, width, cells) = &node.body else { continue };
                if cells.is_empty() {
                    continue;
                }
                let (a, b) = (rng.below(cells.len()), rng.below(cells.len()));
                let rectangle = GridRectangle::new(a.min(b)..a.max(b) + 1, *width);
                let range = InputGridRange::new(
                    tree.root_focus().walk_down_indices(&path_to_repo(&path)).child_at(index).unwrap(), rectangle);
                let minimal = range.to_minimal();
                ensure!(path_from_repo(&minimal.row_indices) == path && minimal.index == index && minimal.range == rectangle, "stored table selection {:?}", minimal);
                let again = InputGridRange::from_minimal(tree.root_focus(), &minimal);
                ensure!(again == range && again.to_minimal() == minimal, "table selection {:?} reads back differently", minimal);
                for (i, cell) in cells.iter().enumerate() {
                    ensure!(range.get_row(i).map(row_from_repo).as_ref() == Some(cell), "cell {} of a table selection", i);
                }
                ensure!(range.get_row(cells.len()).is_none(), "a cell behind the last one exists");
                mon.count("table selections round-tripped");
            }
            mon.sample(|| show(&model));
            Ok(())
        },
        probe: None,
        assumptions: &["stored positions and indices that are turned into a focus exist in the formula"],
    }
}
