//! C20: accepting autocompletes. C21: autocorrect.
use crate::session::{needs_row, possible, SessionGen};
use crate::world::*;
use caret::primitive::primitive_edit::CaretRemoveMode;
use input_tree::direction::VerticalDirection;
use monitor_common::*;

type Rules = Vec<(String, MRow)>;

const REAL_WORDS: [&str; 14] =
    ["in", "infin", "infinity", "int", "lim", "limsup", "liminf", "sum", "aaab", "abab", "aa", "aaa", "=>=", "éa"];

/// Rules whose words overlap in all kinds of ways
fn random_rules(rng: &mut Rng) -> Rules {
    let alphabet: &[&str] = *rng.pick(&[&["a", "b"] as &[&str], &["a"], &["a", "b", "c"], &["é", "a", "∑"], &["a", "ab", "b"]]);
    let count = rng.between(1, 6);
    let mut out: Rules = vec![];
    for i in 0..count {
        let word = if rng.one_in(3) {
            rng.pick(&REAL_WORDS).to_string()
        } else if rng.one_in(3) && !out.is_empty() {
            // A longer or a shorter version of another word
            let other = rng.pick(&out).0.clone();
            if rng.bool() {
                format!("{}{}", other, rng.pick(alphabet))
            } else {
                let mut chars: Vec<char> = other.chars().collect();
                if chars.len() > 2 {
                    chars.pop();
                }
                chars.into_iter().collect()
            }
        } else {
            (0..rng.between(2, 5)).map(|_| *rng.pick(alphabet)).collect()
        };
        // The rule's result tells the rules apart
        let mut result = match rng.below(5) {
            0 => vec![],
            1 => vec![sym(format!("R{}", i)), cont(Kind::Sub, 1, vec![vec![]])],
            2 => vec![cont(Kind::Frac, 1, vec![vec![sym(format!("R{}", i))], vec![]])],
            3 => vec![sym(format!("R{}", i)), sym("r"), sym("r"), sym("r"), sym("r"), sym("r")],
            _ => vec![sym(format!("R{}", i))],
        };
        if rng.one_in(10) {
            result = word.chars().map(|c| sym(c.to_string())).collect();
        }
        out.push((word, result));
    }
    out
}

fn chunks(rng: &mut Rng, word: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for c in word.chars() {
        match out.last_mut() {
            // A symbol can have multiple characters
            Some(last) if rng.one_in(12) => last.push(c),
            _ => out.push(c.to_string()),
        }
    }
    out
}

/// What should be offered for the symbols before the caret
pub fn reference_offers(rules: &Rules, row: &MRow, offset: usize, min: usize) -> Vec<(String, MRow, usize, usize)> {
    let mut out = vec![];
    for (word, result) in rules {
        for k in min..=offset {
            let Some(text) = row[offset - k..offset].iter().map(|n| n.as_sym()).collect::<Option<String>>() else {
                break;
            };
            if !text.is_empty() && word.starts_with(&text) {
                out.push((word.clone(), result.clone(), text.len(), k));
            }
        }
    }
    out
}

fn sorted(mut offers: Vec<(String, MRow, usize, usize)>) -> Vec<(String, MRow, usize, usize)> {
    offers.sort_by_key(|(w, r, a, b)| (w.clone(), show(r), *a, *b));
    offers
}

/// A formula with parts of words before a position
fn formula_with_word(rng: &mut Rng, size: usize, rules: &Rules) -> (MRow, MPos) {
    let mut shape = gen::Shape::sized(size.min(60));
    shape.containers = 40;
    let letters: Vec<String> = rules.iter().flat_map(|(w, _)| w.chars().map(|c| c.to_string()).collect::<Vec<_>>()).collect();
    let mut tree = gen::row(rng, &shape, &mut |rng| if rng.bool() { rng.pick(&letters).clone() } else { "x".to_string() });
    let path = rng.pick(&all_rows(&tree)).clone();
    let row = row_at_mut(&mut tree, &path).unwrap();
    let mut at = rng.between(0, row.len());
    let pieces = rng.between(1, 2);
    for i in 0..pieces {
        let word = &rng.pick(rules).0;
        let mut symbols = chunks(rng, word);
        if rng.one_in(3) || i + 1 < pieces {
            let keep = rng.between(1, symbols.len());
            symbols.truncate(keep);
        }
        for symbol in symbols {
            row.insert(at, sym(symbol));
            at += 1;
        }
    }
    (tree, MPos::new(path, at))
}

fn splice(tree: &MRow, path: &Path, l: usize, r: usize, values: &MRow) -> MRow {
    let mut out = tree.clone();
    row_at_mut(&mut out, path).unwrap().splice(l..r, values.iter().cloned());
    out
}

/// Where a position outside of the replaced stretch ends up
fn follow(pos: &MPos, path: &Path, l: usize, r: usize, n: usize) -> MPos {
    let mut pos = pos.clone();
    if pos.path == *path {
        if pos.offset >= r {
            pos.offset = pos.offset - (r - l) + n;
        }
    } else if pos.path.len() > path.len() && pos.path[..path.len()] == path[..] {
        let step = &mut pos.path[path.len()].0;
        if *step >= r {
            *step = *step - (r - l) + n;
        }
    }
    pos
}

pub fn c20() -> Check {
    Check {
        id: "C20",
        rule: "random autocomplete rules with overlapping words, random formula with (parts of) words before the caret; what is offered is compared with an independent search, then random steps through the list, looking, dismissing, accepting (compared with an independent splice) and undoing. Distinct: different (rules, formula, caret, accepted entry) tuples with something on offer.",
        quick: 500_000,
        thorough: 25_000_000,
        case: |rng, size, mon| {
            let rules = random_rules(rng);
            let world = with_rules(&rules);
            let (tree, pos) = formula_with_word(rng, size, &rules);
            mon.note(|| format!("rules {:?}, formula {}, caret {:?}", rules.iter().map(|(w, r)| (w, show(r))).collect::<Vec<_>>(), show(&tree), pos));
            // Something is selected: no offers
            if rng.one_in(4) {
                let other = rng.pick(&all_positions(&tree)).clone();
                if other != pos {
                    let mut ed = editor_with(&world, &tree, &other, &pos);
                    // Dragging away from a word can autocorrect it
                    let tree = tree_of(&ed);
                    if let Some(caret) = sel_of(&ed)?.collapsed() {
                        return Err(format!("dragging from {:?} to {:?} selects nothing at {:?}", other, pos, caret));
                    }
                    ensure!(offered(&mut ed).is_none(), "autocomplete is offered while {:?} is selected", sel_of(&ed)?);
                    ensure!(ed.finish_autocomplete(true).is_none() && tree_of(&ed) == tree, "an autocomplete was accepted while {:?} is selected", sel_of(&ed)?);
                    mon.count("nothing offered for a selection");
                }
            }
            let mut ed = editor_with(&world, &tree, &pos, &pos);
            let mut tree = tree;
            let mut pos = pos;
            for _ in 0..rng.between(1, 2) {
                let row = row_at(&tree, &pos.path).unwrap().clone();
                let want = sorted(reference_offers(&rules, &row, pos.offset, 2));
                let got = offered(&mut ed);
                match &got {
                    None => ensure!(want.is_empty(), "nothing is offered instead of {:?}", want),
                    Some(o) => {
                        ensure!(sorted(o.matches.clone()) == want, "offered {:?} instead of {:?}", o.matches, want);
                        ensure!(o.caret == pos, "offered at {:?} instead of {:?}", o.caret, pos);
                        ensure!(o.selected < o.matches.len(), "no entry is selected");
                    }
                }
                ensure!(ed.open_autocomplete().is_some() == !want.is_empty(), "opening the autocomplete says {:?}", !want.is_empty());
                let Some(start) = got else {
                    mon.count("nothing fits");
                    ensure!(ed.move_in_autocomplete(VerticalDirection::Down).is_none(), "moved in a list without entries");
                    ensure!(ed.finish_autocomplete(true).is_none() && tree_of(&ed) == tree, "accepting without an offer did something");
                    return Ok(());
                };
                mon.count(match want.len() {
                    1 => "one entry offered",
                    2..=3 => "2 or 3 entries offered",
                    _ => "more entries offered",
                });
                let mut selected = start.selected;
                for _ in 0..rng.below(8) {
                    match rng.below(7) {
                        0 => {
                            ed.open_autocomplete();
                        }
                        1 => {
                            ensure!(ed.finish_autocomplete(false).is_none(), "dismissing reports a change");
                            mon.count("dismissed");
                        }
                        n => {
                            let direction = if n < 4 { VerticalDirection::Up } else { VerticalDirection::Down };
                            ed.move_in_autocomplete(direction);
                            let next = match direction {
                                VerticalDirection::Up => selected.saturating_sub(1),
                                VerticalDirection::Down => (selected + 1).min(want.len() - 1),
                            };
                            mon.count(if next == selected { "stopped at an end" } else { "moved in the list" });
                            mon.note(|| format!("moving {:?} from entry {}", direction, selected));
                            selected = next;
                        }
                    }
                    let now = offered(&mut ed).ok_or("the offers disappeared")?;
                    ensure!(now.selected == selected, "entry {} is selected instead of {} of {:?}", now.selected, selected, now.matches);
                    ensure!(now.matches == start.matches, "the offers changed from {:?} to {:?}", start.matches, now.matches);
                    ensure!(tree_of(&ed) == tree && sel_of(&ed)? == Sel::caret(&pos), "looking at the offers changed the formula to {} or the caret to {:?}", show(&tree_of(&ed)), sel_of(&ed));
                }
                ensure!(tree_of(&ed) == tree && sel_of(&ed)? == Sel::caret(&pos), "looking at the offers changed something");
                if rng.one_in(3) {
                    // Typing on keeps the entry selected, as long as it matches
                    let (word, result, matched, k) = start.matches[selected].clone();
                    let begin = pos.offset - k;
                    let mut matched = matched;
                    for c in word[matched..].chars().take(rng.between(1, 3)) {
                        mon.note(|| format!("typing on: {:?}", c));
                        ed.insert_at_caret(vec![c.to_string()]);
                        matched += c.len_utf8();
                        row_at_mut(&mut tree, &pos.path).unwrap().insert(pos.offset, sym(c.to_string()));
                        pos.offset += 1;
                        ensure!(tree_of(&ed) == tree && sel_of(&ed)? == Sel::caret(&pos), "typing on gives {}", show(&tree_of(&ed)));
                        let now = offered(&mut ed).ok_or("the offers disappeared while typing on")?;
                        let entry = &now.matches[now.selected];
                        ensure!(*entry == (word.clone(), result.clone(), matched, pos.offset - begin), "typing on changes the selected entry from {:?} to {:?} of {:?}", start.matches[selected], entry, now.matches);
                        mon.count("typed on with the entry selected");
                    }
                    if matched != start.matches[selected].2 {
                        place(&mut ed, &pos, &pos);
                        continue;
                    }
                }
                let (word, result, _, k) = start.matches[selected].clone();
                mon.note(|| format!("accepting {:?} for {} symbols", word, k));
                ensure!(ed.finish_autocomplete(true).is_some(), "accepting says that nothing was accepted");
                let l = pos.offset - k;
                let after = splice(&tree, &pos.path, l, pos.offset, &result);
                let caret = MPos::new(pos.path.clone(), l + result.len());
                ensure!(tree_of(&ed) == after, "accepting gives {} instead of {}", show(&tree_of(&ed)), show(&after));
                ensure!(sel_of(&ed)? == Sel::caret(&caret), "after accepting, the caret is at {:?} instead of {:?}", sel_of(&ed)?, caret);
                mon.count("accepted");
                mon.distinct(&(&rules.iter().map(|v| &v.0).collect::<Vec<_>>(), &tree, &pos, selected));
                mon.sample(|| format!("{} at {:?}: {:?} -> {}", show(&tree), pos, word, show(&after)));
                ensure!(ed.undo().is_some() && tree_of(&ed) == tree, "undoing an accepted autocomplete gives {} instead of {}", show(&tree_of(&ed)), show(&tree));
                sel_of(&ed)?.check_valid(&tree)?;
                ensure!(ed.redo().is_some() && tree_of(&ed) == after, "redoing an accepted autocomplete gives {} instead of {}", show(&tree_of(&ed)), show(&after));
                place(&mut ed, &caret, &caret);
                tree = after;
                pos = caret;
            }
            Ok(())
        },
        probe: Some(|mon| {
            // fixed 77d4aa9
            let rules: Rules = vec![("infin".into(), vec![sym("∞")]), ("infinity".into(), vec![sym("∞")])];
            let world = with_rules(&rules);
            let tree: MRow = "infin".chars().map(|c| sym(c.to_string())).collect();
            let end = MPos::new(vec![], 5);
            for index in 0..4 {
                let mut ed = editor_with(&world, &tree, &end, &end);
                for _ in 0..index {
                    ed.move_in_autocomplete(VerticalDirection::Down);
                }
                let o = offered(&mut ed).ok_or("nothing is offered for infin")?;
                ensure!(o.matches.len() == 4 && o.selected == index, "entry {} instead of {} is selected", o.selected, index);
            }
            mon.count("probed");
            Ok(())
        }),
        assumptions: &["rules are not empty"],
    }
}

/// An action from a state with a caret: what a user might do next
fn leaving_act(rng: &mut Rng, tree: &MRow, pos: &MPos, rules: &Rules) -> Act {
    let all = all_positions(tree);
    let near = |rng: &mut Rng| {
        let i = all.iter().position(|p| p == pos).unwrap();
        all[(i + rng.below(13)).saturating_sub(6).min(all.len() - 1)].clone()
    };
    match rng.below(20) {
        0..=6 => Act::Move(*rng.pick(&DIRECTIONS)),
        7..=8 => Act::Select(*rng.pick(&DIRECTIONS)),
        9..=11 => Act::StartSelection(if rng.bool() { near(rng) } else { rng.pick(&all).clone() }),
        12..=13 => Act::ExtendSelection(if rng.bool() { near(rng) } else { rng.pick(&all).clone() }),
        14..=15 => Act::Remove(match rng.below(4) {
            0 => CaretRemoveMode::Range,
            1 => CaretRemoveMode::Left,
            _ => CaretRemoveMode::Right,
        }),
        16..=17 => Act::Insert(if rng.bool() {
            vec![" ".into()]
        } else {
            let word = &rng.pick(rules).0;
            chunks(rng, word)
        }),
        18 => Act::Paste(vec![sym("p"), cont(Kind::Sup, 1, vec![vec![sym("q")]])]),
        _ => Act::SelectAll,
    }
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        rule: "random autocomplete rules, formula with a (part of a) word before the caret, entry selected by moving in the list, then random actions (moves, clicks, drags, keyboard selection, deleting, typing, pasting); a second editor without rules does the same actions, and the formula and caret must be those of the second editor, except that the word has been replaced exactly if it was complete, selected and left. Undo takes back the replacement alone. Distinct: different (rules, formula, caret, selected entry, action) tuples where the word was complete.",
        quick: 400_000,
        thorough: 20_000_000,
        case: |rng, size, mon| {
            let rules = random_rules(rng);
            let world = with_rules(&rules);
            let plain = core();
            let (tree, pos) = formula_with_word(rng, size, &rules);
            mon.note(|| format!("rules {:?}", rules.iter().map(|(w, r)| (w, show(r))).collect::<Vec<_>>()));
            let mut ed = editor_with(&world, &tree, &pos, &pos);
            let mut tree = tree;
            let mut sel = Sel::caret(&pos);
            let mut gen = SessionGen::new(size.min(40));
            gen.words = rules.iter().map(|r| r.0.clone()).collect();
            gen.undo_weight = 0;
            for step in 0..rng.between(1, 5) {
                let here = sel.collapsed();
                let act = match &here {
                    Some(pos) if step == 0 || rng.bool() => leaving_act(rng, &tree, pos, &rules),
                    _ => gen.next(rng, &tree, &sel),
                };
                if !possible(&tree, &act) || (sel.is_grid() && needs_row(&act)) {
                    continue;
                }
                // Which entry is selected?
                for _ in 0..rng.below(4) {
                    ed.move_in_autocomplete(if rng.bool() { VerticalDirection::Down } else { VerticalDirection::Up });
                }
                let offers = offered(&mut ed);
                mon.note(|| format!("{}    (formula {}, selection {:?}, offered {:?})", act.show(), show(&tree), sel, offers.as_ref().map(|o| (o.selected, o.matches.iter().map(|m| (&m.0, m.2, m.3)).collect::<Vec<_>>()))));
                perform(&mut ed, &act);
                let (after, sel_after) = (tree_of(&ed), sel_of(&ed)?);
                sel_after.check_valid(&after)?;
                let Some(pos) = here else {
                    ensure!(act.is_edit() || after == tree, "{} changed the formula from {} to {} although no word was offered", act.kind(), show(&tree), show(&after));
                    tree = after;
                    sel = sel_after;
                    continue;
                };
                if matches!(act, Act::FinishAutocomplete(_)) {
                    // See C20
                    tree = after;
                    sel = sel_after;
                    continue;
                }
                let mut twin = editor_with(&plain, &tree, &pos, &pos);
                perform(&mut twin, &act);
                let (twin_tree, twin_sel) = (tree_of(&twin), sel_of(&twin)?);
                let word = offers.as_ref().map(|o| &o.matches[o.selected]);
                let complete = word.filter(|m| m.2 == m.0.len());
                // Ways of moving the caret
                let leaves = matches!(act, Act::Move(_) | Act::Select(_) | Act::StartSelection(_) | Act::ExtendSelection(_) | Act::Remove(_)) && twin_tree == tree;
                let start = match &twin_sel {
                    Sel::Row { path, start, .. } => Some(MPos::new(path.clone(), *start)),
                    Sel::Grid { .. } => None,
                };
                let mut replaced = None;
                if let (Some(m), true, Some(start)) = (complete, leaves, &start) {
                    let (l, r) = (pos.offset - m.3, pos.offset);
                    let key = order_key(start);
                    let outside = key < order_key(&MPos::new(pos.path.clone(), l)) || key > order_key(&MPos::new(pos.path.clone(), r));
                    if outside {
                        replaced = Some((l, r, m.1.clone()));
                    }
                }
                if complete.is_some() {
                    mon.distinct(&(rules.iter().map(|v| v.0.clone()).collect::<Vec<_>>(), &tree, &pos, offers.as_ref().map(|o| o.selected), act.show()));
                }
                match replaced {
                    None => {
                        ensure!(after == twin_tree, "{} gives {} instead of {}, the word {:?} was not to be replaced", act.kind(), show(&after), show(&twin_tree), word);
                        ensure!(sel_after == twin_sel, "{} gives the selection {:?} instead of {:?}", act.kind(), sel_after, twin_sel);
                        mon.count(match (word, complete) {
                            (None, _) => "no word before the caret",
                            (Some(_), None) => "incomplete word stays",
                            (_, Some(_)) if twin_tree != tree => "complete word, formula edited",
                            (_, Some(_)) => "complete word stays, caret at the word",
                        });
                    }
                    Some((l, r, result)) => {
                        let want = splice(&tree, &pos.path, l, r, &result);
                        ensure!(after == want, "{} gives {} instead of {}, the word {:?} was to be replaced", act.kind(), show(&after), show(&want), word);
                        if let Some(caret) = twin_sel.collapsed() {
                            let caret = follow(&caret, &pos.path, l, r, result.len());
                            ensure!(sel_after == Sel::caret(&caret), "after the autocorrect the caret is at {:?} instead of {:?}", sel_after, caret);
                        }
                        mon.count(match &act {
                            Act::Move(_) => "replaced when moving away",
                            Act::StartSelection(_) => "replaced when clicking elsewhere",
                            Act::Remove(_) => "replaced when deleting into a container",
                            _ => "replaced when selecting",
                        });
                        mon.sample(|| format!("{}: {} -> {}", act.show(), show(&tree), show(&after)));
                        if rng.bool() {
                            ensure!(ed.undo().is_some() && tree_of(&ed) == tree, "undoing an autocorrect gives {} instead of {}", show(&tree_of(&ed)), show(&tree));
                            sel_of(&ed)?.check_valid(&tree)?;
                            mon.count("undone");
                            if rng.bool() {
                                ensure!(ed.redo().is_some() && tree_of(&ed) == after, "redoing an autocorrect gives {} instead of {}", show(&tree_of(&ed)), show(&after));
                            }
                        }
                    }
                }
                tree = tree_of(&ed);
                sel = sel_of(&ed)?;
            }
            Ok(())
        },
        probe: None,
        assumptions: &["typing and pasting never autocorrect, only leaving a word does"],
    }
}

