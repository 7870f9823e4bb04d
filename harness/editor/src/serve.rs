//! The editor behind the wasm bindings, as a process: the TypeScript harness puts this in the place of `aftermath-core/pkg`.
//! One JSON request `[op, args...]` per line, one JSON answer per line.
//! With the feature `bindings`, what the component on the page calls goes through the real bindings of `aftermath-core/web`.
use caret::{
    math_editor::MathEditor,
    primitive::{primitive_edit::CaretRemoveMode, MoveMode},
};
use input_tree::{
    direction::{Direction, VerticalDirection},
    focus::{MinimalInputRowPosition, MinimalInputRowRange},
    node::InputNode,
    row::InputRow,
};
use monitor_common::guarded;
use parser::{
    parse_module::ParseModule,
    parse_modules::{ParseModuleCollection, ParseModules},
    parser::MathParser,
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
        collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
        function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
    },
    syntax_tree::SyntaxNodeNameId,
};
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use serialization::SerializedDataType;
use std::{
    collections::HashMap,
    io::{BufRead, Write},
    rc::Rc,
};

#[cfg(feature = "bindings")]
use aftermath_core::{
    math_editor::MathEditorBindings,
    math_parser::{MathParserBindings, ParseModuleCollectionBindings, ParseModulesBindings, ParseModulesCreator},
};

#[derive(Default)]
struct Server {
    #[cfg(feature = "bindings")]
    bound_parser: Option<MathParserBindings>,
    #[cfg(feature = "bindings")]
    bound: HashMap<u64, MathEditorBindings>,
    parser: Option<Rc<MathParser>>,
    editors: HashMap<u64, MathEditor>,
    next: u64,
}

fn arg<T: DeserializeOwned>(request: &Value, index: usize) -> Result<T, String> {
    serde_json::from_value(request[index].clone()).map_err(|e| e.to_string())
}

impl Server {
    /// `["parser", modules in the order of their creation, modules in use]`, gives the names of the nodes
    fn make_parser(&mut self, request: &Value) -> Result<Value, String> {
        let created: Vec<String> = arg(request, 1)?;
        let used: Vec<String> = arg(request, 2)?;
        let mut m = ParseModules::new();
        let built_in = Rc::new(BuiltInRules::new(&mut m));
        let mut made: HashMap<String, Rc<dyn ParseModule>> = HashMap::new();
        for name in created {
            let module: Rc<dyn ParseModule> = match name.as_str() {
                "core" => Rc::new(CoreRules::new(&mut m, &built_in)),
                "arithmetic" => Rc::new(ArithmeticRules::new(&mut m)),
                "calculus" => Rc::new(CalculusRules::new(&mut m)),
                "collections" => Rc::new(CollectionsRules::new(&mut m)),
                "comparison" => Rc::new(ComparisonRules::new(&mut m)),
                "function" => Rc::new(FunctionRules::new(&mut m, &built_in)),
                "logic" => Rc::new(LogicRules::new(&mut m)),
                "string" => Rc::new(StringRules::new(&mut m)),
                _ => return Err(format!("no module {}", name)),
            };
            made.insert(name, module);
        }
        let mut all: Vec<Rc<dyn ParseModule>> = vec![built_in.clone()];
        for name in used {
            all.push(made.get(&name).ok_or("module was not created")?.clone());
        }
        self.parser = Some(Rc::new(MathParser::new(ParseModuleCollection::new(built_in, all))));
        #[cfg(feature = "bindings")]
        let m = self.make_bound_parser(request)?;
        let names: Vec<Value> = (0..)
            .map_while(|i| m.get_rule_name_map().get_reverse(SyntaxNodeNameId::new(i)).map(|path| json!([path, i])))
            .collect();
        Ok(json!(names))
    }

    /// The same with the bindings
    #[cfg(feature = "bindings")]
    fn make_bound_parser(&mut self, request: &Value) -> Result<BoundNames, String> {
        let created: Vec<String> = arg(request, 1)?;
        let used: Vec<String> = arg(request, 2)?;
        let mut m = ParseModulesBindings::new();
        let mut made = HashMap::new();
        for name in created {
            let module = match name.as_str() {
                "core" => ParseModulesCreator::make_core(&mut m),
                "arithmetic" => ParseModulesCreator::make_arithmetic(&mut m),
                "calculus" => ParseModulesCreator::make_calculus(&mut m),
                "collections" => ParseModulesCreator::make_collections(&mut m),
                "comparison" => ParseModulesCreator::make_comparison(&mut m),
                "function" => ParseModulesCreator::make_function(&mut m),
                "logic" => ParseModulesCreator::make_logic(&mut m),
                "string" => ParseModulesCreator::make_string(&mut m),
                _ => return Err(format!("no module {}", name)),
            };
            made.insert(name, module);
        }
        let mut collection = ParseModuleCollectionBindings::new(&m);
        for name in used {
            collection.add_module(made.remove(&name).ok_or("module was not created")?);
        }
        self.bound_parser = Some(MathParserBindings::new(collection));
        Ok(BoundNames(m))
    }

    /// What the component on the page asks for
    #[cfg(feature = "bindings")]
    fn answer_bound(&mut self, op: &str, id: u64, request: &Value) -> Result<Value, Value> {
        let ed = self.bound.get_mut(&id).ok_or("no such editor")?;
        Ok(match op {
            "move_caret" => json!(ed.move_caret(arg::<Direction>(request, 2)?, arg::<MoveMode>(request, 3)?)),
            "select_with_caret" => json!(ed.select_with_caret(arg(request, 2)?, arg(request, 3)?)),
            "remove_at_caret" => json!(ed.remove_at_caret(arg::<CaretRemoveMode>(request, 2)?, arg::<MoveMode>(request, 3)?)),
            "insert_at_caret" => json!(ed.insert_at_caret(request[2].clone())?),
            "select_all" => json!(ed.select_all()),
            "undo" => json!(ed.undo()),
            "redo" => json!(ed.redo()),
            "start_selection" => json!(ed.start_selection(arg::<MinimalInputRowPosition>(request, 2)?, arg(request, 3)?)),
            "extend_selection" => json!(ed.extend_selection(arg(request, 2)?)),
            "finish_selection" => json!(ed.finish_selection()),
            "copy" => json!(ed.copy(arg::<SerializedDataType>(request, 2)?)?),
            "paste" => json!(ed.paste(arg(request, 2)?, arg::<Option<SerializedDataType>>(request, 3)?)?),
            "focus" => json!(ed.focus()),
            "unfocus" => json!(ed.unfocus()),
            "open_autocomplete" => json!(ed.open_autocomplete()),
            "finish_autocomplete" => json!(ed.finish_autocomplete(arg(request, 2)?)),
            "move_in_autocomplete" => json!(ed.move_in_autocomplete(arg::<VerticalDirection>(request, 2)?)),
            "get_autocomplete" => ed.get_autocomplete()?,
            "get_caret" => ed.get_caret()?,
            "get_input_tree" => ed.get_input_tree()?,
            "get_syntax_tree" => ed.get_syntax_tree()?,
            "splice_at_range" => json!(ed.splice_at_range(arg::<MinimalInputRowRange>(request, 2)?, request[3].clone())?),
            _ => return Err(json!(format!("no operation {}", op))),
        })
    }

    fn answer_any(&mut self, request: &Value) -> Result<Value, Value> {
        #[cfg(feature = "bindings")]
        {
            if request[0] == "web_new" {
                self.next += 1;
                self.bound.insert(self.next, MathEditorBindings::new(self.bound_parser.as_ref().ok_or("no parser")?));
                return Ok(json!(self.next));
            }
            if let (Some(op), Some(id)) = (request[0].as_str(), request[1].as_u64()) {
                if op == "drop" && self.bound.remove(&id).is_some() {
                    return Ok(Value::Null);
                }
                if self.bound.contains_key(&id) {
                    return self.answer_bound(op, id, request);
                }
            }
        }
        self.answer(request).map_err(Value::String)
    }

    fn answer(&mut self, request: &Value) -> Result<Value, String> {
        let op = request[0].as_str().ok_or("no operation")?;
        match op {
            "parser" => return self.make_parser(request),
            "new" | "web_new" => {
                self.next += 1;
                let parser = self.parser.clone().ok_or("no parser")?;
                self.editors.insert(self.next, MathEditor::new(parser));
                return Ok(json!(self.next));
            }
            "drop" => {
                self.editors.remove(&arg(request, 1)?);
                return Ok(Value::Null);
            }
            "parse" => {
                let row: InputRow = arg(request, 1)?;
                let mut ed = MathEditor::new(self.parser.clone().ok_or("no parser")?);
                ed.splice_at_range(crate::world::range_to_repo(&vec![], 0, 0), row.values);
                return Ok(json!(ed.get_syntax_tree()));
            }
            _ => {}
        }
        let id: u64 = arg(request, 1)?;
        let ed = self.editors.get_mut(&id).ok_or("no such editor")?;
        Ok(match op {
            "move_caret" => {
                ed.move_caret(arg::<Direction>(request, 2)?, arg::<MoveMode>(request, 3)?);
                Value::Null
            }
            "select_with_caret" => json!(ed.select_with_caret(arg(request, 2)?, arg(request, 3)?).is_some()),
            "remove_at_caret" => {
                json!(ed.remove_at_caret(arg::<CaretRemoveMode>(request, 2)?, arg::<MoveMode>(request, 3)?).is_some())
            }
            "insert_at_caret" => {
                ed.insert_at_caret(arg(request, 2)?);
                Value::Null
            }
            "focus" => {
                ed.focus();
                Value::Null
            }
            "unfocus" => {
                ed.unfocus();
                Value::Null
            }
            "open_autocomplete" => json!(ed.open_autocomplete().is_some()),
            "select_all" => {
                ed.select_all();
                Value::Null
            }
            "undo" => json!(ed.undo().is_some()),
            "redo" => json!(ed.redo().is_some()),
            "start_selection" => {
                ed.start_selection(arg::<MinimalInputRowPosition>(request, 2)?, arg(request, 3)?);
                Value::Null
            }
            "extend_selection" => {
                ed.extend_selection(arg(request, 2)?);
                Value::Null
            }
            "finish_selection" => {
                ed.finish_selection();
                Value::Null
            }
            "copy" => json!(ed.copy(arg::<SerializedDataType>(request, 2)?).map_err(|e| e.to_string())?),
            "paste" => {
                ed.paste(arg(request, 2)?, arg::<Option<SerializedDataType>>(request, 3)?).map_err(|e| e.to_string())?;
                Value::Null
            }
            "finish_autocomplete" => json!(ed.finish_autocomplete(arg(request, 2)?).is_some()),
            "move_in_autocomplete" => json!(ed.move_in_autocomplete(arg::<VerticalDirection>(request, 2)?).is_some()),
            "get_caret" => json!(ed.get_caret()),
            "get_input_tree" => json!(ed.get_input_tree()),
            "get_syntax_tree" => json!(ed.get_syntax_tree()),
            "splice_at_range" => {
                ed.splice_at_range(arg::<MinimalInputRowRange>(request, 2)?, arg::<Vec<InputNode>>(request, 3)?);
                Value::Null
            }
            _ => return Err(format!("no operation {}", op)),
        })
    }
}

#[cfg(feature = "bindings")]
struct BoundNames(ParseModulesBindings);
#[cfg(feature = "bindings")]
impl BoundNames {
    fn get_rule_name_map(&self) -> parser::syntax_tree::SyntaxNodeNameMap {
        self.0.get_syntax_node_name_map()
    }
}

pub fn serve() {
    monitor_common::install_hook();
    let mut server = Server::default();
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let answer = match serde_json::from_str::<Value>(&line) {
            Err(e) => json!({ "error": e.to_string() }),
            Ok(request) => match guarded(|| server.answer_any(&request)) {
                Ok(Ok(value)) => json!({ "ok": value }),
                Ok(Err(error)) => json!({ "error": error }),
                Err(panic) => json!({ "panic": panic }),
            },
        };
        if writeln!(out, "{}", answer).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
