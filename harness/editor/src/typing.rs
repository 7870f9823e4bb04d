//! C16: typing. C17: deleting. C18: copy and paste.
use crate::world::*;
use caret::{
    math_editor::MathEditor,
    primitive::{primitive_edit::CaretRemoveMode, MoveMode},
};
use monitor_common::*;
use serialization::SerializedDataType;

fn formula(rng: &mut Rng, size: usize) -> MRow {
    let mut shape = gen::Shape::sized(size);
    shape.containers = rng.between(20, 60);
    shape.odd = if rng.one_in(6) { 20 } else { 0 };
    // Deeper ones cannot be pasted (known finding of C10)
    shape.deep = 14;
    let mut unique = gen::unique_symbols();
    let few = rng.one_in(3);
    let mut symbols = move |rng: &mut Rng| if few { if rng.one_in(12) { gen::any_char(rng).to_string() } else { rng.pick(&["2", "2", "x", "(", ")", "\"", "+", " ", ",", "ab", "ab", "😀", "\r", "\n", "\t"]).to_string() } } else { unique(rng) };
    let mut row = gen::row(rng, &shape, &mut symbols);
    if row.is_empty() && !rng.one_in(20) {
        row.push(gen::node(rng, &shape, &mut symbols));
    }
    row
}

/// Two positions in one row, often the same or close
fn two_in_row(rng: &mut Rng, tree: &MRow) -> (MPos, MPos) {
    let rows = all_rows(tree);
    let mut path = rng.pick(&rows).clone();
    if rng.bool() {
        let other = rng.pick(&rows).clone();
        if row_at(tree, &other).unwrap().len() > row_at(tree, &path).unwrap().len() {
            path = other;
        }
    }
    let len = row_at(tree, &path).unwrap().len();
    (MPos::new(path.clone(), rng.between(0, len)), MPos::new(path, rng.between(0, len)))
}

/// Selects something: a stretch of a row, given directly or by two positions somewhere below
fn select_something(rng: &mut Rng, tree: &MRow, world: &World) -> Result<(MathEditor, Path, usize, usize), String> {
    let all = all_positions(tree);
    loop {
        let (a, b) = match rng.below(4) {
            0 => {
                let p = rng.pick(&all).clone();
                (p.clone(), p)
            }
            1 => (rng.pick(&all).clone(), rng.pick(&all).clone()),
            _ => two_in_row(rng, tree),
        };
        let Sel::Row { path, start, end } = reference_selection(tree, &a, &b) else {
            // Known findings: the editor does not implement edits of table selections
            continue;
        };
        let ed = editor_with(world, tree, &a, &b);
        let sel = sel_of(&ed)?;
        ensure!(sel == Sel::Row { path: path.clone(), start, end }, "selecting from {:?} to {:?} selects {:?}", a, b, sel);
        return Ok((ed, path, start, end));
    }
}

fn replaced(tree: &MRow, path: &Path, start: usize, end: usize, values: &[MNode]) -> MRow {
    let mut out = tree.clone();
    let row = row_at_mut(&mut out, path).unwrap();
    let (left, right) = (start.min(end), start.max(end));
    let tail = row.split_off(right);
    row.truncate(left);
    row.extend(values.iter().cloned());
    row.extend(tail);
    out
}

fn expect(ed: &MathEditor, tree: &MRow, sel: &Sel, what: &str) -> CaseResult {
    let got = tree_of(ed);
    ensure!(got == *tree, "{} gives {} instead of {}", what, show(&got), show(tree));
    let got = sel_of(ed)?;
    ensure!(got == *sel, "after {} the selection is {:?} instead of {:?}", what, got, sel);
    Ok(())
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        rule: "random formula with distinct symbols, random selection (forward, backward, collapsed, around containers), then several insertions of 0 to 5 symbols, at once or one by one; formula and caret are compared with an independent splice. Distinct: different (formula, selection, typed symbols) triples.",
        quick: 700_000,
        thorough: 35_000_000,
        case: |rng, size, mon| {
            let tree = formula(rng, size);
            let world = if rng.bool() { core() } else { full() };
            let (mut ed, path, mut start, mut end) = select_something(rng, &tree, &world)?;
            let mut tree = tree;
            for round in 0..rng.between(1, 3) {
                let count = if rng.one_in(40) { rng.between(6, 300) } else { rng.below(6) };
                let typed: Vec<String> = if rng.bool() {
                    (0..count).map(|i| format!("t{}{}", round, i)).collect()
                } else {
                    // What is there already, or next to it, or unusual
                    let row = row_at(&tree, &path).unwrap();
                    let (left, right) = (start.min(end), start.max(end));
                    let near: Vec<String> = row[left.saturating_sub(2)..(right + 2).min(row.len())]
                        .iter()
                        .filter_map(|n| match &n.body {
                            Body::Sym(s) => Some(s.clone()),
                            _ => None,
                        })
                        .collect();
                    if !near.is_empty() && rng.bool() {
                        if rng.bool() {
                            near[rng.below(near.len())..].to_vec()
                        } else {
                            (0..count).map(|_| rng.pick(&near).clone()).collect()
                        }
                    } else {
                        (0..count).map(|_| if rng.bool() { gen::any_char(rng).to_string() } else { rng.pick(&["\r", "\n", "\r\n", "\t", " ", "^", "_", "/", "ab", "\u{200d}", "\u{301}"]).to_string() }).collect()
                    }
                };
                mon.note(|| format!("formula {}, selection {:?} {}..{}, typing {:?}", show(&tree), path, start, end, typed));
                let values: Vec<MNode> = typed.iter().map(sym).collect();
                let want = replaced(&tree, &path, start, end, &values);
                let caret = start.min(end) + typed.len();
                if rng.one_in(3) && typed.len() < 20 && (start == end || !typed.is_empty()) {
                    for symbol in &typed {
                        ed.insert_at_caret(vec![symbol.clone()]);
                    }
                    mon.count("typed one by one");
                } else {
                    ed.insert_at_caret(typed.clone());
                    mon.count("typed at once");
                }
                expect(&ed, &want, &Sel::caret(&MPos::new(path.clone(), caret)), "typing")?;
                mon.count(if start == end { "nothing selected" } else if start < end { "forward selection replaced" } else { "backward selection replaced" });
                mon.distinct(&(&tree, &path, start, end, &typed));
                mon.sample(|| format!("{} {:?} {}..{} {:?}", show(&tree), path, start, end, typed));
                tree = want;
                start = caret;
                end = caret;
            }
            Ok(())
        },
        probe: None,
        assumptions: &["typed symbols are no autocomplete words"],
    }
}

/// What deleting next to the caret does: the new formula and the caret, or nothing
fn reference_remove(tree: &MRow, pos: &MPos, left: bool) -> Option<(MRow, MPos, &'static str)> {
    let row = row_at(tree, &pos.path).unwrap();
    let dissolve = |outer: &Path, index: usize, offset: usize| {
        let mut out = tree.clone();
        let row = row_at_mut(&mut out, outer).unwrap();
        let content: MRow = row[index].cells().iter().flatten().cloned().collect();
        row.splice(index..index + 1, content);
        (out, MPos::new(outer.clone(), index + offset))
    };
    let only_move = || reference_horizontal(tree, pos, left).map(|to| (tree.clone(), to, "only moved"));
    let adjacent = if left { pos.offset.checked_sub(1) } else { Some(pos.offset).filter(|o| *o < row.len()) };
    if let Some(adjacent) = adjacent {
        return match &row[adjacent].body {
            Body::Sym(_) => {
                let mut out = tree.clone();
                row_at_mut(&mut out, &pos.path).unwrap().remove(adjacent);
                Some((out, MPos::new(pos.path.clone(), adjacent), "symbol removed"))
            }
            Body::Cont(Kind::Sub | Kind::Sup, _, _) if !left => {
                let (out, caret) = dissolve(&pos.path, adjacent, 0);
                Some((out, caret, "script dissolved from the front"))
            }
            _ => only_move(),
        };
    }
    let (outer, (element, cell)) = (pos.path[..pos.path.len().checked_sub(1)?].to_vec(), *pos.path.last()?);
    let node = &row_at(tree, &outer).unwrap()[element];
    let Body::Cont(kind, _, cells) = &node.body else { unreachable!() };
    if matches!(kind, Kind::Sub | Kind::Sup) && left {
        let (out, caret) = dissolve(&outer, element, 0);
        return Some((out, caret, "script dissolved from its start"));
    }
    if matches!(kind, Kind::Frac | Kind::Root) && ((left && cell == 1) || (!left && cell == 0)) {
        let (out, caret) = dissolve(&outer, element, cells[0].len());
        return Some((out, caret, "fraction or root dissolved"));
    }
    let at_edge = if left { cell == 0 } else { cell + 1 == cells.len() };
    if at_edge && cells.iter().all(|c| c.is_empty()) {
        let (out, caret) = dissolve(&outer, element, 0);
        return Some((out, caret, "empty container removed"));
    }
    only_move()
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        rule: "random formula with distinct symbols; backspace and delete from every caret position (or 40 random ones) and repeated from there, and deleting random selections in all modes; formula and caret are compared with an independent description of what deleting does. Distinct: different (formula, position, key) triples.",
        quick: 40_000,
        thorough: 2_000_000,
        case: |rng, size, mon| {
            let tree = formula(rng, size);
            let world = if rng.bool() { core() } else { full() };
            let all = all_positions(&tree);
            let picks: Vec<usize> = if all.len() <= 20 { (0..all.len()).collect() } else { (0..20).map(|_| rng.below(all.len())).collect() };
            for i in picks {
                let mut tree = tree.clone();
                let mut pos = all[i].clone();
                let mut ed = editor_with(&world, &tree, &pos, &pos);
                let left = rng.bool();
                for _ in 0..rng.between(1, 5) {
                    let left = if rng.one_in(4) { !left } else { left };
                    mon.trace.clear();
                    mon.note(|| format!("formula {}, caret {:?}, {}", show(&tree), pos, if left { "backspace" } else { "delete" }));
                    let done = ed.remove_at_caret(if left { CaretRemoveMode::Left } else { CaretRemoveMode::Right }, MoveMode::Char);
                    mon.distinct(&(&tree, &pos, left));
                    match reference_remove(&tree, &pos, left) {
                        None => {
                            ensure!(done.is_none(), "deleting at the edge of the formula reports success");
                            expect(&ed, &tree, &Sel::caret(&pos), "deleting at the edge of the formula")?;
                            mon.count("edge of the formula");
                            break;
                        }
                        Some((want, caret, what)) => {
                            ensure!(done.is_some(), "deleting does nothing ({} expected)", what);
                            expect(&ed, &want, &Sel::caret(&caret), what)?;
                            mon.count(what);
                            mon.sample(|| format!("{} {:?} left={} -> {} {:?}: {}", show(&tree), pos, left, show(&want), caret, what));
                            tree = want;
                            pos = caret;
                        }
                    }
                }
            }
            for _ in 0..6 {
                let (mut ed, path, start, end) = select_something(rng, &tree, &world)?;
                mon.trace.clear();
                if start == end {
                    mon.note(|| format!("formula {}, caret {:?} {}, deleting what is selected", show(&tree), path, start));
                    ed.remove_at_caret(CaretRemoveMode::Range, MoveMode::Char);
                    expect(&ed, &tree, &Sel::caret(&MPos::new(path.clone(), start)), "deleting a selection of nothing")?;
                    mon.count("nothing selected to remove");
                    continue;
                }
                mon.note(|| format!("formula {}, selection {:?} {}..{}", show(&tree), path, start, end));
                let mode = *rng.pick(&[CaretRemoveMode::Left, CaretRemoveMode::Right, CaretRemoveMode::Range]);
                let done = ed.remove_at_caret(mode, MoveMode::Char);
                ensure!(done.is_some(), "deleting a selection does nothing");
                expect(&ed, &replaced(&tree, &path, start, end, &[]), &Sel::caret(&MPos::new(path.clone(), start.min(end))), "deleting a selection")?;
                mon.count("selection removed");
                mon.distinct(&(&tree, &path, start, end));
            }
            Ok(())
        },
        probe: None,
        assumptions: &["the formulas contain no autocomplete words"],
    }
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        rule: "random formula (with awkward symbols), random selection copied, the copied text compared with the selected content by an independent reader, then pasted into the same or another editor with its own random selection; malformed data pasted in between must change nothing, not even the undo history. Distinct: different (copied content, target, target selection) triples.",
        quick: 600_000,
        thorough: 30_000_000,
        case: |rng, size, mon| {
            let plain = rng.bool();
            let world = if plain { core() } else { full() };
            let mut shape = gen::Shape { max_depth: 1 + size / 40, deep: 14, ..gen::Shape::sized(size) };
            shape.containers = 45;
            let mut next = 0;
            let few = rng.one_in(4);
            let mut make = |rng: &mut Rng| {
                gen::row(rng, &shape, &mut |rng: &mut Rng| {
                    next += 1;
                    if few {
                        return rng.pick(&[" ", " ", "a", "(", "😀", "\u{301}"]).to_string();
                    }
                    if rng.one_in(3) {
                        let symbol = gen::nasty_symbol(rng);
                        // An empty symbol (which cannot be typed) and a "/" are two symbols that spell an autocomplete word
                        if plain || !symbol.is_empty() {
                            return symbol;
                        }
                    }
                    format!("s{}", next)
                })
            };
            let source = make(rng);
            let (ed, path, start, end) = select_something(rng, &source, &world)?;
            let selected: MRow = row_at(&source, &path).unwrap()[start.min(end)..start.max(end)].to_vec();
            let before = sel_of(&ed)?;
            mon.note(|| format!("copy {:?} {}..{} of {}", path, start, end, show(&source)));
            let text = ed.copy(SerializedDataType::JsonInputTree).map_err(|e| format!("copying fails: {}", e))?;
            expect(&ed, &source, &before, "copying")?;
            let value: serde_json::Value = serde_json::from_str(&text).map_err(|e| format!("the copied text is no JSON: {}", e))?;
            let copied = crate::json::nodes_from_json(&value["data"]).ok_or("the copied text is no formula")?;
            ensure!(copied == selected, "copied {} instead of {}", show(&copied), show(&selected));

            let same = rng.one_in(3);
            let target = if same { source.clone() } else { make(rng) };
            let (mut to, path, start, end) = select_something(rng, &target, &world)?;
            let sel = sel_of(&to)?;
            for _ in 0..rng.below(3) {
                let bad = malformed(rng, &text);
                mon.note(|| format!("paste malformed {:?}", bad));
                if let Err(e) = guarded(|| to.paste(bad.clone(), Some(SerializedDataType::JsonInputTree)))? {
                    let _ = e;
                    expect(&to, &target, &sel, "pasting malformed data")?;
                    mon.count("malformed data refused");
                } else {
                    // It happened to be a formula, which C10 looks at
                    let (again, _, _, _) = (editor_again(&world, &target, &sel), 0, 0, 0);
                    to = again;
                    mon.count("changed data accepted");
                }
            }
            mon.note(|| format!("paste at {:?} {}..{} of {}", path, start, end, show(&target)));
            to.paste(text, Some(SerializedDataType::JsonInputTree)).map_err(|e| format!("pasting fails: {}", e))?;
            let want = replaced(&target, &path, start, end, &selected);
            let caret = MPos::new(path.clone(), start.min(end) + selected.len());
            expect(&to, &want, &Sel::caret(&caret), "pasting")?;
            mon.count(if selected.is_empty() { "nothing copied" } else { "content copied and pasted" });
            if !selected.is_empty() {
                mon.distinct(&(&selected, &target, &path, start, end));
            }
            mon.sample(|| format!("{} into {} at {:?} {}..{}", show(&selected), show(&target), path, start, end));
            // The refused data left no trace in the history: one undo takes back the paste, the next one the formula
            ensure!(to.undo().is_some(), "the paste cannot be undone");
            expect(&to, &target, &sel, "undoing the paste")?;
            ensure!(to.undo().is_some() && tree_of(&to).is_empty(), "malformed data left something in the undo history: {}", show(&tree_of(&to)));
            Ok(())
        },
        probe: None,
        assumptions: &["the formulas contain no autocomplete words"],
    }
}

fn editor_again(world: &World, tree: &MRow, sel: &Sel) -> MathEditor {
    let Sel::Row { path, start, end } = sel else { unreachable!() };
    editor_with(world, tree, &MPos::new(path.clone(), *start), &MPos::new(path.clone(), *end))
}

fn malformed(rng: &mut Rng, text: &str) -> String {
    match rng.below(5) {
        0 => {
            // Cut off
            let chars: Vec<char> = text.chars().collect();
            chars[..rng.below(chars.len())].iter().collect()
        }
        1 => text.replacen("\"version\"", "\"Version\"", 1),
        2 => text.replacen("\"data\"", "\"dat\"", 1),
        3 => {
            // Break a container or a symbol
            let broken = text.replacen("\"width\":", "\"width\":-", 1);
            if broken != text { broken } else { text.replacen("{\"Symbol\":", "{\"Symbol\":1,\"x\":", 1) }
        }
        _ => rng.pick(&["", " ", "null", "{}", "[1,2]", "hello", "{\"version\":1,\"data\":null}", "{\"version\":\"1\",\"data\":[]}", "{\"version\":1,\"data\":[{\"Container\":[\"Table\",{\"values\":[{\"values\":[]}],\"width\":0}]}]}"]).to_string(),
    }
}
