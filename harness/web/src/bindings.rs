//! C30: the functions that JavaScript calls
use crate::{session, world::*};
use aftermath_core::{
    math_editor::MathEditorBindings,
    math_parser::{MathParserBindings, ParseModuleCollectionBindings, ParseModulesBindings, ParseModulesCreator},
};
use caret::{math_editor::MathEditor, primitive::MoveMode};
use monitor_common::*;
use parser::{
    parse_module::{BoxedParseModule, ParseModule},
    parse_modules::{ParseModuleCollection, ParseModules},
    parser::MathParser,
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
        collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
        function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
    },
    syntax_tree::SyntaxNodeNameId,
};
use serde_json::{json, Value};
use serialization::SerializedDataType;
use std::rc::Rc;

const MODULES: [&str; 8] = ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string"];

fn bound_module(name: &str, m: &mut ParseModulesBindings) -> BoxedParseModule {
    match name {
        "core" => ParseModulesCreator::make_core(m),
        "arithmetic" => ParseModulesCreator::make_arithmetic(m),
        "calculus" => ParseModulesCreator::make_calculus(m),
        "collections" => ParseModulesCreator::make_collections(m),
        "comparison" => ParseModulesCreator::make_comparison(m),
        "function" => ParseModulesCreator::make_function(m),
        "logic" => ParseModulesCreator::make_logic(m),
        _ => ParseModulesCreator::make_string(m),
    }
}
fn direct_module(name: &str, m: &mut ParseModules, built_in: &BuiltInRules) -> Rc<dyn ParseModule> {
    match name {
        "core" => Rc::new(CoreRules::new(m, built_in)),
        "arithmetic" => Rc::new(ArithmeticRules::new(m)),
        "calculus" => Rc::new(CalculusRules::new(m)),
        "collections" => Rc::new(CollectionsRules::new(m)),
        "comparison" => Rc::new(ComparisonRules::new(m)),
        "function" => Rc::new(FunctionRules::new(m, built_in)),
        "logic" => Rc::new(LogicRules::new(m)),
        _ => Rc::new(StringRules::new(m)),
    }
}

struct Parsers {
    direct: Rc<MathParser>,
    bound: MathParserBindings,
}

/// A parser made by the bindings and one made directly, from the same modules in the same order
fn make_parsers(created: &[&str], used: &[&str]) -> Result<Parsers, String> {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let direct: Vec<_> = created.iter().map(|name| (*name, direct_module(name, &mut m, &built_in))).collect();
    let mut b = ParseModulesBindings::new();
    let mut bound: Vec<_> = created.iter().map(|name| (*name, Some(bound_module(name, &mut b)))).collect();

    ensure!(b.get_built_in().get_module().get_module_name() == built_in.get_module_name(), "another built-in module");
    let names = b.get_syntax_node_name_map();
    for i in 0.. {
        let id = SyntaxNodeNameId::new(i);
        let (x, y) = (m.get_rule_name_map().get_reverse(id), names.get_reverse(id));
        ensure!(x == y, "node {} is called {:?} instead of {:?}", i, y, x);
        if x.is_none() {
            break;
        }
    }
    let mut all: Vec<Rc<dyn ParseModule>> = vec![built_in.clone()];
    let mut collection = ParseModuleCollectionBindings::new(&b);
    for name in used {
        let (_, module) = direct.iter().find(|(n, _)| n == name).unwrap();
        all.push(module.clone());
        let (_, module) = bound.iter_mut().find(|(n, _)| n == name).unwrap();
        let module = module.take().unwrap();
        ensure!(module.get_module().get_module_name() == all.last().unwrap().get_module_name(), "{} is another module", name);
        collection.add_module(module);
    }
    Ok(Parsers {
        direct: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, all))),
        bound: MathParserBindings::new(collection),
    })
}

thread_local! {
    static ALL: Result<Parsers, String> = make_parsers(&MODULES, &MODULES);
}

/// Autocompletes as JSON, as the editor reports them
fn offered_json(ed: &mut MathEditor) -> Value {
    ed.get_autocomplete().map_or(Value::Null, |results| {
        let (selected, matches, caret) = results.destructure();
        json!({
            "selected_index": selected,
            "matches": matches.iter().map(|m| json!({
                "rule": m.rule,
                "rule_match_length": m.rule_match_length,
                "input_match_length": m.input_match_length,
            })).collect::<Vec<_>>(),
            "caret_position": caret,
        })
    })
}

/// Carries out the action through the bindings. What `world::perform` reports, where the binding reports it as well.
fn perform_bound(b: &mut MathEditorBindings, act: &Act) -> Option<bool> {
    Some(match act {
        Act::Move(direction) => {
            b.move_caret(*direction, MoveMode::Char);
            return None;
        }
        Act::Select(direction) => b.select_with_caret(*direction, MoveMode::Char),
        Act::Remove(mode) => b.remove_at_caret(*mode, MoveMode::Char),
        Act::Insert(values) => b.insert_at_caret(json!(values)).is_ok(),
        Act::SelectAll => {
            b.select_all();
            return None;
        }
        Act::Undo => b.undo(),
        Act::Redo => b.redo(),
        Act::StartSelection(pos) => {
            b.start_selection(pos_to_repo(pos), MoveMode::Char);
            return None;
        }
        Act::ExtendSelection(pos) => {
            b.extend_selection(pos_to_repo(pos));
            return None;
        }
        Act::FinishSelection => {
            b.finish_selection();
            return None;
        }
        Act::Copy => b.copy(SerializedDataType::JsonInputTree).is_ok(),
        Act::Paste(row) => b.paste(to_json_text(&nodes_to_repo(row)), Some(SerializedDataType::JsonInputTree)).is_ok(),
        Act::PasteText(text) => b.paste(text.clone(), Some(SerializedDataType::JsonInputTree)).is_ok(),
        Act::OpenAutocomplete => b.open_autocomplete(),
        Act::FinishAutocomplete(accept) => b.finish_autocomplete(*accept),
        Act::MoveInAutocomplete(direction) => b.move_in_autocomplete(*direction),
        Act::Splice(path, start, end, row) => b.splice_at_range(range_to_repo(path, *start, *end), json!(nodes_to_repo(row))).is_ok(),
        Act::Focus(on) => {
            if *on {
                b.focus()
            } else {
                b.unfocus()
            }
            return None;
        }
    })
}

fn same(what: &str, is: Result<Value, Value>, want: Value) -> CaseResult {
    ensure!(is.as_ref() == Ok(&want), "{}: JavaScript gets {:?} instead of {}", what, is, want);
    Ok(())
}
fn compare(b: &mut MathEditorBindings, ed: &mut MathEditor, rng: &mut Rng, mon: &mut Mon) -> CaseResult {
    same("formula", b.get_input_tree(), json!(ed.get_input_tree()))?;
    same("caret", b.get_caret(), json!(ed.get_caret()))?;
    if rng.one_in(3) {
        same("syntax tree", b.get_syntax_tree(), json!(ed.get_syntax_tree()))?;
        mon.count("syntax trees compared");
    }
    if rng.bool() {
        let want = offered_json(ed);
        if !want.is_null() {
            mon.count("autocompletes compared");
        }
        same("autocompletes", b.get_autocomplete(), want)?;
    }
    if !sel_of(ed)?.is_grid() && rng.one_in(4) {
        let (is, want) = (b.copy(SerializedDataType::JsonInputTree), ed.copy(SerializedDataType::JsonInputTree).map_err(|e| e.to_string()));
        ensure!(is == want, "JavaScript copies {:?} instead of {:?}", is, want);
        mon.count("copies compared");
    }
    Ok(())
}

/// What is no list of symbols
const NO_SYMBOLS: [&str; 6] = ["null", "3", "\"a\"", "[1]", "[[\"a\"]]", "{\"a\":1}"];
/// What is no formula
const NO_FORMULA: [&str; 6] = [
    "null",
    "{\"values\":[]}",
    "[{\"Symbol\":3}]",
    "[{\"Symbol\":\"a\"},{\"Container\":[\"Table\",{\"values\":[],\"width\":0}]}]",
    "[{\"Container\":[\"Fraction\",{\"values\":[{\"values\":[]}],\"width\":2}]}]",
    "[\"a\"]",
];

fn session(parsers: &Parsers, rng: &mut Rng, size: usize, mon: &mut Mon) -> CaseResult {
    let mut gen = session::SessionGen::new(size);
    let mut ed = MathEditor::new(parsers.direct.clone());
    let mut b = MathEditorBindings::new(&parsers.bound);
    // Another one with the same parser, which nobody touches
    let other = MathEditorBindings::new(&parsers.bound);
    let steps = rng.between(1, 4 + size / 2);
    let mut trail = vec![];
    compare(&mut b, &mut ed, rng, mon)?;
    session::run(rng, &mut gen, &mut ed, steps, mon, &mut |step, ed, rng, mon| {
        let done = guarded(|| perform_bound(&mut b, step.act)).map_err(|e| format!("{} of the bindings {}", step.act.kind(), e))?;
        if let Some(done) = done {
            ensure!(done == step.done, "{} tells JavaScript {} instead of {}", step.act.kind(), done, step.done);
            mon.count("answers compared");
        }
        compare(&mut b, ed, rng, mon)?;
        trail.push(step.act.kind());
        mon.distinct(&(show(step.tree), step.act.show()));
        if rng.one_in(8) && !step.sel_after.is_grid() {
            let text = *rng.pick(&NO_SYMBOLS);
            mon.note(|| format!("insert {}", text));
            ensure!(b.insert_at_caret(serde_json::from_str(text).unwrap()).is_err(), "typing {} is accepted", text);
            compare(&mut b, ed, rng, mon)?;
            mon.count("refused");
        }
        if rng.one_in(8) {
            let text = *rng.pick(&NO_FORMULA);
            mon.note(|| format!("splice {}", text));
            let range = range_to_repo(&vec![], 0, step.after.len());
            ensure!(b.splice_at_range(range, serde_json::from_str(text).unwrap()).is_err(), "splicing {} is accepted", text);
            compare(&mut b, ed, rng, mon)?;
            mon.count("refused");
        }
        Ok(())
    })?;
    same("another editor", other.get_input_tree(), json!({"values": []}))?;
    mon.sample(|| trail.join(", "));
    Ok(())
}

pub fn c30() -> Check {
    Check {
        id: "C30",
        rule: "the editor and the bindings that JavaScript uses, side by side: random sessions (up to 54 actions, including malformed arguments) with the modules of the application or random modules in random order; after each action formula, caret, syntax tree, autocompletes and clipboard as given to JavaScript are compared with the editor's own. Distinct: different (formula, action) pairs.",
        quick: 30_000,
        thorough: 1_500_000,
        case: |rng, size, mon| {
            if !rng.one_in(4) {
                return ALL.with(|all| match all {
                    Ok(parsers) => session(parsers, rng, size, mon),
                    Err(e) => Err(e.clone()),
                });
            }
            let mut created = MODULES.to_vec();
            rng.shuffle(&mut created);
            let mut used = created.clone();
            rng.shuffle(&mut used);
            used.truncate(rng.between(0, used.len()));
            // Without the core rules, rows cannot be parsed
            mon.note(|| format!("modules {:?}, in use {:?}", created, used));
            mon.count("parsers made");
            mon.distinct(&(&created, &used));
            let parsers = make_parsers(&created, &used)?;
            session(&parsers, rng, size, mon)
        },
        probe: None,
        assumptions: &["values of JavaScript are JSON values; the code that wasm-bindgen generates is not looked at"],
    }
}
