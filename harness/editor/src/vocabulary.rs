//! C39: the words that the built-in modules know, and what becomes of them.
use crate::syntax::{K, T};
use crate::words::reference_offers;
use crate::world::*;
use input_tree::{direction::VerticalDirection, node::InputNode};
use monitor_common::*;
use parser::autocomplete::AutocompleteMatcher;
use std::rc::Rc;

/// The module, the word, what it is replaced by, and what the parser calls that
struct Word {
    module: &'static str,
    word: &'static str,
    result: MRow,
    name: &'static str,
    /// How the construct is completed: what stands around it
    around: Around,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Around {
    /// Complete on its own
    Nothing,
    /// An operand follows
    Operand,
    /// An operand on both sides
    Operands,
    /// Belongs to the operator before it
    Operator,
}

fn spelled(text: &str) -> MRow {
    text.chars().map(|c| sym(c.to_string())).collect()
}

fn vocabulary() -> Vec<Word> {
    use Around::*;
    let word = |module, word, result, name, around| Word { module, word, result, name, around };
    vec![
        word("BuiltIn", "^", vec![cont(Kind::Sup, 1, vec![vec![]])], "BuiltIn::Sup", Operator),
        word("BuiltIn", "_", vec![cont(Kind::Sub, 1, vec![vec![]])], "BuiltIn::Sub", Operator),
        word("Arithmetic", "/", vec![cont(Kind::Frac, 1, vec![vec![], vec![]])], "BuiltIn::Fraction", Nothing),
        word("Arithmetic", "sqrt", vec![cont(Kind::Root, 2, vec![vec![], vec![]])], "BuiltIn::Root", Nothing),
        word("Calculus", "infinity", spelled("∞"), "Calculus::Infinity", Nothing),
        word("Calculus", "lim", spelled("lim"), "Calculus::Lim", Operand),
        word("Calculus", "limsup", spelled("limsup"), "Calculus::LimSup", Operand),
        word("Calculus", "liminf", spelled("liminf"), "Calculus::LimInf", Operand),
        word("Calculus", "sum", spelled("∑"), "Calculus::Sum", Operand),
        word("Calculus", "integral", spelled("∫"), "Calculus::Integral", Operand),
        word("Calculus", "integrate", spelled("∫"), "Calculus::Integral", Operand),
        word("Collections", "vector", vec![cont(Kind::Table, 1, vec![vec![]])], "BuiltIn::Table", Nothing),
        word("Collections", "matrix", vec![cont(Kind::Table, 1, vec![vec![]])], "BuiltIn::Table", Nothing),
        word("Comparison", ">=", spelled("≥"), "Comparison::GreaterThanOrEquals", Operands),
        word("Comparison", "<=", spelled("≤"), "Comparison::LessThanOrEquals", Operands),
    ]
}

fn names<'a>(t: &'a T, out: &mut Vec<&'a str>) {
    out.push(&t.name);
    if let K::Kids(kids) | K::Rows(_, _, kids) = &t.kids {
        kids.iter().for_each(|kid| names(kid, out));
    }
}

pub fn c39() -> Check {
    Check {
        id: "C39",
        rule: "random selections and orders of the built-in modules, a random formula (any container kinds, words and parts of words in it), and a word (or the beginning of one) typed somewhere; what is offered is compared with a table of the words, then the word is accepted, or completed and left, and the formula compared with the table; finally the result is parsed, complete and with holes. Distinct: different (modules, formula, caret, word, how) tuples.",
        quick: 100_000,
        thorough: 5_000_000,
        case: |rng, size, mon| {
            let all_words = vocabulary();
            let order: Vec<&str> = if rng.one_in(3) {
                std::iter::once("BuiltIn").chain(MODULES).collect()
            } else {
                let mut order: Vec<&str> = MODULES.iter().copied().filter(|_| !rng.one_in(3)).collect();
                rng.shuffle(&mut order);
                let at = if rng.bool() { 0 } else { rng.between(0, order.len()) };
                order.insert(at, "BuiltIn");
                order
            };
            let world = if order.len() == 9 && order[1..] == MODULES { full() } else { Rc::new(world_of(&order, |_| unreachable!())) };
            let known = |w: &&Word| order.contains(&w.module);
            let rules: Vec<(String, MRow)> = all_words.iter().filter(known).map(|w| (w.word.to_string(), w.result.clone())).collect();
            mon.note(|| format!("modules {:?}", order));
            // A formula with (a part of) a word before the caret
            let mut shape = gen::Shape::sized(size.min(60));
            shape.containers = 30;
            let mut tree = gen::row(rng, &shape, &mut |rng| {
                let text = rng.pick(&all_words).word;
                let letters: Vec<char> = text.chars().collect();
                match rng.below(4) {
                    0 => rng.pick(&["x", "1", " ", "(", "é", "∫"]).to_string(),
                    _ => rng.pick(&letters).to_string(),
                }
            });
            let path = rng.pick(&all_rows(&tree)).clone();
            let row = row_at_mut(&mut tree, &path).unwrap();
            let mut at = rng.between(0, row.len());
            let target = rng.pick(&all_words);
            let letters: Vec<char> = target.word.chars().collect();
            let whole = letters.len() == 1 || !rng.one_in(3);
            let typed = if whole { letters.len() } else { rng.between(1, letters.len() - 1) };
            // The end of it is typed in the editor, what was there before had been there
            let by_hand = rng.between(0, typed);
            for c in &letters[..typed - by_hand] {
                row.insert(at, sym(c.to_string()));
                at += 1;
            }
            let mut pos = MPos::new(path, at);
            let mut ed = editor_with(&world, &tree, &pos, &pos);
            mon.note(|| format!("formula {}, caret {:?}, typing {:?}", show(&tree), pos, &letters[typed - by_hand..typed]));
            for c in &letters[typed - by_hand..typed] {
                if rng.one_in(4) {
                    ed.open_autocomplete();
                }
                ed.insert_at_caret(vec![c.to_string()]);
                row_at_mut(&mut tree, &pos.path).unwrap().insert(pos.offset, sym(c.to_string()));
                pos.offset += 1;
                ensure!(tree_of(&ed) == tree && sel_of(&ed)? == Sel::caret(&pos), "typing {:?} gives {} instead of {}", c, show(&tree_of(&ed)), show(&tree));
            }
            let row = row_at(&tree, &pos.path).unwrap().clone();
            // What the parser knows, single characters included
            let nodes: Vec<InputNode> = nodes_to_repo(&row);
            for min in [1, 2] {
                let mut want: Vec<(String, String, usize, usize)> = reference_offers(&rules, &row, pos.offset, min)
                    .into_iter().map(|(word, result, length, k)| (word, show(&result), length, k)).collect();
                want.sort();
                let mut got: Vec<(String, String, usize, usize)> = world.parser.matches(&nodes, pos.offset, min).iter()
                    .map(|m| (m.rule.parser.clone(), show(&m.rule.result.iter().map(node_from_repo).collect()), m.rule_match_length, m.input_match_length))
                    .collect();
                got.sort();
                ensure!(got == want, "the modules {:?} know {:?} instead of {:?} before {:?} of {}", order, got, want, pos, show(&row));
            }
            let offers = offered(&mut ed);
            let count = offers.as_ref().map_or(0, |o| o.matches.len());
            let want = reference_offers(&rules, &row, pos.offset, 2);
            ensure!(count == want.len(), "{} words are offered instead of {:?}", count, want);
            let Some(offers) = offers else {
                mon.count(if letters.len() > 1 && whole && order.contains(&target.module) { "not offered" } else { "nothing to offer" });
                ensure!(!(letters.len() > 1 && whole && order.contains(&target.module)), "{:?} is not offered", target.word);
                return check_understood(rng, mon, &world, &order, &all_words);
            };
            // Choose one of the words
            let chosen = rng.below(count);
            for _ in 0..count {
                ed.move_in_autocomplete(VerticalDirection::Up);
            }
            for _ in 0..chosen {
                ed.move_in_autocomplete(VerticalDirection::Down);
            }
            let (word, _, length, k) = offers.matches[chosen].clone();
            let entry = all_words.iter().find(|w| w.word == word).ok_or_else(|| format!("{:?} is offered, which is no word", word))?;
            ensure!(known(&entry), "{:?} is offered, but {} is not among {:?}", word, entry.module, order);
            let (l, r) = (pos.offset - k, pos.offset);
            let mut replaced = tree.clone();
            row_at_mut(&mut replaced, &pos.path).unwrap().splice(l..r, entry.result.iter().cloned());
            let leave = length == word.len() && rng.bool();
            if leave {
                // The caret is put somewhere else
                let (from, to) = (order_key(&MPos::new(pos.path.clone(), l)), order_key(&pos));
                let away: Vec<MPos> = all_positions(&tree).into_iter().filter(|p| { let key = order_key(p); key < from || key > to }).collect();
                let Some(away) = (!away.is_empty()).then(|| rng.pick(&away).clone()) else {
                    mon.count("nowhere else to go");
                    return check_understood(rng, mon, &world, &order, &all_words);
                };
                mon.note(|| format!("{:?} is chosen and left for {:?}", word, away));
                perform(&mut ed, &Act::StartSelection(away));
                perform(&mut ed, &Act::FinishSelection);
                mon.count("completed and left");
            } else {
                mon.note(|| format!("{:?} is accepted for {} symbols", word, k));
                ensure!(ed.finish_autocomplete(true).is_some(), "{:?} is not accepted", word);
                let caret = MPos::new(pos.path.clone(), l + entry.result.len());
                ensure!(sel_of(&ed)? == Sel::caret(&caret), "after {:?} the caret is at {:?} instead of {:?}", word, sel_of(&ed)?, caret);
                mon.count("accepted");
            }
            ensure!(tree_of(&ed) == replaced, "{:?} gives {} instead of {}", word, show(&tree_of(&ed)), show(&replaced));
            mon.count(entry.name);
            mon.distinct(&(&order, &tree, &pos, chosen, leave));
            mon.sample(|| format!("{:?} in {} gives {}", word, show(&tree), show(&replaced)));
            check_understood(rng, mon, &world, &order, &all_words)
        },
        probe: None,
        assumptions: &["words of one character are known by the parser, the editor offers words from two symbols on"],
    }
}

/// A random operand every parser knows
fn operand(rng: &mut Rng) -> MNode {
    match rng.below(3) {
        0 => cont(Kind::Frac, 1, vec![vec![], vec![]]),
        1 => cont(Kind::Root, 2, vec![vec![], vec![]]),
        _ => cont(Kind::Table, 1, vec![vec![]; rng.between(1, 3)]),
    }
}

/// What the words are replaced by is read as what they name
fn check_understood(rng: &mut Rng, mon: &mut Mon, world: &World, order: &[&str], words: &[Word]) -> CaseResult {
    let known: Vec<&Word> = words.iter().filter(|w| order.contains(&w.module)).collect();
    let entry = rng.pick(&known);
    // The operator that something is attached to, if there is one
    let operators: Vec<&&Word> = known.iter().filter(|w| matches!(w.around, Around::Operand | Around::Operands)).collect();
    let mut row: MRow = vec![];
    match entry.around {
        Around::Nothing => row.extend(entry.result.clone()),
        Around::Operand => {
            row.extend(entry.result.clone());
            row.push(operand(rng));
        }
        Around::Operands => {
            row.push(operand(rng));
            row.extend(entry.result.clone());
            row.push(operand(rng));
        }
        Around::Operator => {
            if operators.is_empty() {
                return Ok(());
            }
            let operator = rng.pick(&operators);
            if operator.around == Around::Operands {
                row.push(operand(rng));
            }
            row.extend(operator.result.clone());
            row.extend(entry.result.clone());
            row.push(operand(rng));
        }
    }
    mon.note(|| format!("parsing {}", show(&row)));
    let tree = world.parse(&row)?;
    let mut all = vec![];
    names(&tree, &mut all);
    ensure!(all.contains(&entry.name), "{:?} of {} is read as {}", entry.word, entry.module, tree.show());
    // The holes are missing something, and nothing else is
    ensure!(!all.iter().any(|name| name.starts_with("Error::") && *name != "Error::MissingToken"), "{} from {:?} is read with errors, as {}", show(&row), entry.word, tree.show());
    if entry.around != Around::Operator {
        ensure!(tree.name == entry.name, "{} from {:?} is read as {}", show(&row), entry.word, tree.show());
    }
    let holes = all_rows(&row).iter().filter(|path| row_at(&row, path).unwrap().is_empty()).count();
    ensure!(all.iter().filter(|name| **name == "Error::MissingToken").count() == holes, "{} holes in {} are read as {}", holes, show(&row), tree.show());
    mon.count("results understood");
    Ok(())
}
