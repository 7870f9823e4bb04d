//! Parsers, editors and the independent reference notions the monitors of the editor share.
use caret::{
    caret::MinimalCaretSelection,
    math_editor::MathEditor,
    primitive::{primitive_edit::CaretRemoveMode, MoveMode},
};
use input_tree::{
    direction::{Direction, VerticalDirection},
    focus::MinimalInputRowRange,
    node::InputNode,
    row::Offset,
};
use monitor_common::*;
use parser::{
    autocomplete::AutocompleteRule,
    parse_module::{ParseModule, ParseRule},
    parse_modules::{ParseModuleCollection, ParseModules},
    parser::MathParser,
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
        collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
        function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
    },
};
use serialization::SerializedDataType;
use std::rc::Rc;

pub struct World {
    pub parser: Rc<MathParser>,
    pub modules: ParseModules,
}

/// A module made by the harness
pub struct TestModule {
    pub name: String,
    pub rules: Vec<ParseRule>,
    pub autocomplete: Vec<AutocompleteRule>,
}
impl ParseModule for TestModule {
    fn get_module_name(&self) -> &str {
        &self.name
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.rules
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.autocomplete
    }
}

fn build(built_in: Rc<BuiltInRules>, mut rest: Vec<Rc<dyn ParseModule>>, modules: ParseModules) -> World {
    let mut all: Vec<Rc<dyn ParseModule>> = vec![built_in.clone()];
    all.append(&mut rest);
    World {
        parser: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, all))),
        modules,
    }
}

/// All modules, in the order the application uses
pub fn full_world() -> World {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let rest: Vec<Rc<dyn ParseModule>> = vec![
        Rc::new(CoreRules::new(&mut m, &built_in)),
        Rc::new(ArithmeticRules::new(&mut m)),
        Rc::new(CalculusRules::new(&mut m)),
        Rc::new(CollectionsRules::new(&mut m)),
        Rc::new(ComparisonRules::new(&mut m)),
        Rc::new(FunctionRules::new(&mut m, &built_in)),
        Rc::new(LogicRules::new(&mut m)),
        Rc::new(StringRules::new(&mut m)),
    ];
    build(built_in, rest, m)
}

/// Built-in and core rules, and modules of the harness behind them
pub fn core_world(make: impl FnOnce(&mut ParseModules, &BuiltInRules) -> Vec<Rc<dyn ParseModule>>) -> World {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let mut rest: Vec<Rc<dyn ParseModule>> = vec![Rc::new(CoreRules::new(&mut m, &built_in))];
    rest.extend(make(&mut m, &built_in));
    build(built_in, rest, m)
}

/// The modules of the application, by name
pub const MODULES: [&str; 8] = ["Core", "Arithmetic", "Calculus", "Collections", "Comparison", "Function", "Logic", "String"];

/// Some of the modules, and modules of the harness ("Test"), in the given order
pub fn world_of(order: &[&str], mut make: impl FnMut(&mut ParseModules) -> Rc<dyn ParseModule>) -> World {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let all = order
        .iter()
        .map(|name| -> Rc<dyn ParseModule> {
            match *name {
                "BuiltIn" => built_in.clone(),
                "Core" => Rc::new(CoreRules::new(&mut m, &built_in)),
                "Arithmetic" => Rc::new(ArithmeticRules::new(&mut m)),
                "Calculus" => Rc::new(CalculusRules::new(&mut m)),
                "Collections" => Rc::new(CollectionsRules::new(&mut m)),
                "Comparison" => Rc::new(ComparisonRules::new(&mut m)),
                "Function" => Rc::new(FunctionRules::new(&mut m, &built_in)),
                "Logic" => Rc::new(LogicRules::new(&mut m)),
                "String" => Rc::new(StringRules::new(&mut m)),
                _ => make(&mut m),
            }
        })
        .collect();
    World { parser: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, all))), modules: m }
}

thread_local! {
    static FULL: Rc<World> = Rc::new(full_world());
    static CORE: Rc<World> = Rc::new(core_world(|_, _| vec![]));
}
pub fn full() -> Rc<World> {
    FULL.with(|w| w.clone())
}
/// No autocorrect is possible with this one
pub fn core() -> Rc<World> {
    CORE.with(|w| w.clone())
}
/// Like `core`, but with the given autocomplete rules
pub fn with_rules(rules: &[(String, MRow)]) -> World {
    let autocomplete = rules.iter().map(|(word, result)| AutocompleteRule::new(word.clone(), nodes_to_repo(result))).collect();
    core_world(|_, _| vec![Rc::new(TestModule { name: "Test".into(), rules: vec![], autocomplete })])
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sel {
    Row { path: Path, start: usize, end: usize },
    /// The table (row and index), and two opposite corners: smallest and largest coordinates
    Grid { path: Path, index: usize, min: (usize, usize), max: Option<(usize, usize)>, size: (usize, usize) },
}

impl Sel {
    pub fn caret(pos: &MPos) -> Sel {
        Sel::Row { path: pos.path.clone(), start: pos.offset, end: pos.offset }
    }
    pub fn collapsed(&self) -> Option<MPos> {
        match self {
            Sel::Row { path, start, end } if start == end => Some(MPos::new(path.clone(), *start)),
            _ => None,
        }
    }
    pub fn is_grid(&self) -> bool {
        matches!(self, Sel::Grid { .. })
    }
    pub fn of(selection: &MinimalCaretSelection) -> Sel {
        match selection {
            MinimalCaretSelection::Row(range) => Sel::Row {
                path: path_from_repo(&range.row_indices),
                start: range.start.0,
                end: range.end.0,
            },
            MinimalCaretSelection::Grid(grid) => Sel::Grid {
                path: path_from_repo(&grid.row_indices),
                index: grid.index,
                min: grid.range.start_index().into(),
                max: grid.range.end_index_inclusive().map(|v| v.into()),
                size: grid.range.size(),
            },
        }
    }
    /// Is this a place in the formula?
    pub fn check_valid(&self, tree: &MRow) -> CaseResult {
        match self {
            Sel::Row { path, start, end } => {
                let row = row_at(tree, path).ok_or_else(|| format!("the selection {:?} is in a row that does not exist, formula {}", self, show(tree)))?;
                ensure!(*start <= row.len() && *end <= row.len(), "the selection {:?} is outside of its row, formula {}", self, show(tree));
            }
            Sel::Grid { path, index, min, max, size } => {
                let row = row_at(tree, path).ok_or_else(|| format!("the selection {:?} is in a row that does not exist, formula {}", self, show(tree)))?;
                let node = row.get(*index).ok_or_else(|| format!("the selection {:?} is in a table that does not exist, formula {}", self, show(tree)))?;
                let Body::Cont(Kind::Table, width, cells) = &node.body else {
                    return Err(format!("the selection {:?} is not in a table, formula {}", self, show(tree)));
                };
                let (w, h) = (*width, cells.len() / width);
                let max = max.ok_or_else(|| format!("the table selection {:?} is empty, formula {}", self, show(tree)))?;
                ensure!(min.0 <= max.0 && min.1 <= max.1 && max.0 < w && max.1 < h,
                    "the table selection {:?} is outside of the table {}x{}, formula {}", self, w, h, show(tree));
                ensure!(*size == (max.0 - min.0 + 1, max.1 - min.1 + 1), "the table selection {:?} has a wrong size", self);
            }
        }
        Ok(())
    }
}

pub fn tree_of(ed: &MathEditor) -> MRow {
    row_from_repo(ed.get_input_tree())
}
pub fn sel_of(ed: &MathEditor) -> Result<Sel, String> {
    let carets = ed.get_caret();
    ensure!(carets.len() == 1, "the editor reports {} carets", carets.len());
    Ok(Sel::of(&carets[0]))
}

pub fn range_to_repo(path: &Path, start: usize, end: usize) -> MinimalInputRowRange {
    MinimalInputRowRange { row_indices: path_to_repo(path), start: Offset(start), end: Offset(end) }
}

/// An editor with the given formula and the selection dragged from `start` to `end`.
/// No autocorrect happens on the way, unless there is a complete word before `start` and `end` is another position.
pub fn editor_with(world: &World, tree: &MRow, start: &MPos, end: &MPos) -> MathEditor {
    let mut ed = MathEditor::new(world.parser.clone());
    ed.splice_at_range(range_to_repo(&vec![], 0, 0), nodes_to_repo(tree));
    ed.select_all();
    place(&mut ed, start, end);
    ed
}
/// Select without any autocorrect (but dragging away from a complete word is one)
pub fn place(ed: &mut MathEditor, start: &MPos, end: &MPos) {
    ed.select_all();
    ed.start_selection(pos_to_repo(start), MoveMode::Char);
    if start != end {
        ed.extend_selection(pos_to_repo(end));
    }
    ed.finish_selection();
}

/// Sort key for document order
pub fn order_key(pos: &MPos) -> Vec<usize> {
    let mut key = vec![];
    for (element, cell) in &pos.path {
        key.push(2 * element + 1);
        key.push(*cell);
    }
    key.push(2 * pos.offset);
    key
}

/// The selection from `a` to `b`, as the properties describe it
pub fn reference_selection(tree: &MRow, a: &MPos, b: &MPos) -> Sel {
    let shared = a.path.iter().zip(&b.path).take_while(|(x, y)| x == y).count();
    let path: Path = a.path[..shared].to_vec();
    // Both in the same table, but in different cells
    if let (Some(x), Some(y)) = (a.path.get(shared), b.path.get(shared)) {
        if x.0 == y.0 {
            let node = &row_at(tree, &path).unwrap()[x.0];
            if let Body::Cont(Kind::Table, width, _) = &node.body {
                let (p, q) = ((x.1 % width, x.1 / width), (y.1 % width, y.1 / width));
                let min = (p.0.min(q.0), p.1.min(q.1));
                let max = (p.0.max(q.0), p.1.max(q.1));
                return Sel::Grid {
                    path,
                    index: x.0,
                    min,
                    max: Some(max),
                    size: (max.0 - min.0 + 1, max.1 - min.1 + 1),
                };
            }
        }
    }
    let stretch = |p: &MPos| match p.path.get(shared) {
        Some((element, _)) => (*element, *element + 1),
        None => (p.offset, p.offset),
    };
    let (x, y) = (stretch(a), stretch(b));
    let (left, right) = (x.0.min(y.0), x.1.max(y.1));
    if order_key(a) <= order_key(b) {
        Sel::Row { path, start: left, end: right }
    } else {
        Sel::Row { path, start: right, end: left }
    }
}

pub const DIRECTIONS: [Direction; 4] = [Direction::Left, Direction::Right, Direction::Up, Direction::Down];

/// Where up and down lead, as the property describes it
pub fn reference_vertical(tree: &MRow, pos: &MPos, up: bool) -> Option<MPos> {
    for depth in (0..pos.path.len()).rev() {
        let outer: Path = pos.path[..depth].to_vec();
        let (element, cell) = pos.path[depth];
        let node = &row_at(tree, &outer).unwrap()[element];
        let Body::Cont(kind, width, cells) = &node.body else { unreachable!() };
        if (*kind == Kind::Sub && !up) || (*kind == Kind::Sup && up) {
            return Some(MPos::new(outer, element));
        }
        let target = if up { cell.checked_sub(*width) } else { Some(cell + *width).filter(|t| *t < cells.len()) };
        if let Some(target) = target {
            let mut path = outer;
            path.push((element, target));
            let offset = if up { cells[target].len() } else { 0 };
            return Some(MPos::new(path, offset));
        }
    }
    None
}

/// Where left and right lead: the neighbour in document order
pub fn reference_horizontal(tree: &MRow, pos: &MPos, left: bool) -> Option<MPos> {
    let all = all_positions(tree);
    let i = all.iter().position(|p| p == pos)?;
    if left {
        i.checked_sub(1).map(|i| all[i].clone())
    } else {
        all.get(i + 1).cloned()
    }
}
pub fn reference_move(tree: &MRow, pos: &MPos, direction: Direction) -> Option<MPos> {
    match direction {
        Direction::Left => reference_horizontal(tree, pos, true),
        Direction::Right => reference_horizontal(tree, pos, false),
        Direction::Up => reference_vertical(tree, pos, true),
        Direction::Down => reference_vertical(tree, pos, false),
    }
}

#[derive(Clone, Debug)]
pub enum Act {
    Move(Direction),
    Select(Direction),
    Remove(CaretRemoveMode),
    Insert(Vec<String>),
    SelectAll,
    Undo,
    Redo,
    StartSelection(MPos),
    ExtendSelection(MPos),
    FinishSelection,
    Copy,
    Paste(MRow),
    PasteText(String),
    OpenAutocomplete,
    FinishAutocomplete(bool),
    MoveInAutocomplete(VerticalDirection),
    Splice(Path, usize, usize, MRow),
    Focus(bool),
}

impl Act {
    pub fn show(&self) -> String {
        match self {
            Act::Paste(row) => format!("Paste {}", show(row)),
            Act::Splice(path, a, b, row) => format!("Splice {:?} {}..{} {}", path, a, b, show(row)),
            other => format!("{:?}", other),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Act::Move(_) => "move",
            Act::Select(_) => "select step",
            Act::Remove(_) => "remove",
            Act::Insert(_) => "insert",
            Act::SelectAll => "select all",
            Act::Undo => "undo",
            Act::Redo => "redo",
            Act::StartSelection(_) => "start selection",
            Act::ExtendSelection(_) => "extend selection",
            Act::FinishSelection => "finish selection",
            Act::Copy => "copy",
            Act::Paste(_) => "paste",
            Act::PasteText(_) => "paste malformed",
            Act::OpenAutocomplete => "open autocomplete",
            Act::FinishAutocomplete(_) => "finish autocomplete",
            Act::MoveInAutocomplete(_) => "move in autocomplete",
            Act::Splice(..) => "splice",
            Act::Focus(_) => "focus",
        }
    }
    /// May this change the formula directly?
    pub fn is_edit(&self) -> bool {
        matches!(self, Act::Remove(_) | Act::Insert(_) | Act::Paste(_) | Act::FinishAutocomplete(true) | Act::Splice(..))
    }
}

pub fn to_json_text(nodes: &[InputNode]) -> String {
    serde_json::json!({"version": 1, "data": nodes}).to_string()
}

/// Carries out an action. Returns whether it reported to have done something.
pub fn perform(ed: &mut MathEditor, act: &Act) -> bool {
    match act {
        Act::Move(direction) => {
            ed.move_caret(*direction, MoveMode::Char);
            true
        }
        Act::Select(direction) => ed.select_with_caret(*direction, MoveMode::Char).is_some(),
        Act::Remove(mode) => ed.remove_at_caret(*mode, MoveMode::Char).is_some(),
        Act::Insert(values) => {
            ed.insert_at_caret(values.clone());
            true
        }
        Act::SelectAll => {
            ed.select_all();
            true
        }
        Act::Undo => ed.undo().is_some(),
        Act::Redo => ed.redo().is_some(),
        Act::StartSelection(pos) => {
            ed.start_selection(pos_to_repo(pos), MoveMode::Char);
            true
        }
        Act::ExtendSelection(pos) => {
            ed.extend_selection(pos_to_repo(pos));
            true
        }
        Act::FinishSelection => {
            ed.finish_selection();
            true
        }
        Act::Copy => ed.copy(SerializedDataType::JsonInputTree).is_ok(),
        Act::Paste(row) => ed.paste(to_json_text(&nodes_to_repo(row)), Some(SerializedDataType::JsonInputTree)).is_ok(),
        Act::PasteText(text) => ed.paste(text.clone(), Some(SerializedDataType::JsonInputTree)).is_ok(),
        Act::OpenAutocomplete => ed.open_autocomplete().is_some(),
        Act::FinishAutocomplete(accept) => ed.finish_autocomplete(*accept).is_some(),
        Act::MoveInAutocomplete(direction) => ed.move_in_autocomplete(*direction).is_some(),
        Act::Splice(path, a, b, row) => {
            ed.splice_at_range(range_to_repo(path, *a, *b), nodes_to_repo(row));
            true
        }
        Act::Focus(on) => {
            if *on {
                ed.focus()
            } else {
                ed.unfocus()
            }
            true
        }
    }
}

/// The offered autocompletes: selected index, and for every match the word, how much of it and how many symbols matched
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Offered {
    pub selected: usize,
    pub matches: Vec<(String, MRow, usize, usize)>,
    pub caret: MPos,
}
pub fn offered(ed: &mut MathEditor) -> Option<Offered> {
    ed.get_autocomplete().map(|results| {
        let (selected, matches, caret) = results.destructure();
        Offered {
            selected,
            matches: matches
                .iter()
                .map(|m| {
                    (
                        m.rule.parser.clone(),
                        m.rule.result.iter().map(node_from_repo).collect(),
                        m.rule_match_length,
                        m.input_match_length,
                    )
                })
                .collect(),
            caret: pos_from_repo(&caret),
        }
    })
}
