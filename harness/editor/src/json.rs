use input_tree::{
    focus::{MinimalInputGridRange, MinimalInputRowPosition, MinimalInputRowRange},
    grid::GridRectangle,
    node::InputNode,
    row::{InputRow, Offset},
};
use monitor_common::*;
use serde_json::{json, Value};
use serialization::{deserialize_input_nodes, serialize_input_nodes, SerializedDataType};

/// The parts of a struct written as JSON. serde also reads structs which are written as a list of their fields.
fn parts<'a>(value: &'a Value, names: [&str; 2]) -> Option<[&'a Value; 2]> {
    match value {
        Value::Object(map) => Some([map.get(names[0])?, map.get(names[1])?]),
        Value::Array(items) if items.len() == 2 => Some([&items[0], &items[1]]),
        _ => None,
    }
}
/// Formula from JSON, read without any of the code under test
fn row_from_json(value: &Value) -> Option<MRow> {
    match value {
        Value::Object(map) => nodes_from_json(map.get("values")?),
        Value::Array(items) if items.len() == 1 => nodes_from_json(&items[0]),
        _ => None,
    }
}
pub fn nodes_from_json(value: &Value) -> Option<MRow> {
    value.as_array()?.iter().map(node_from_json).collect()
}
fn clipboard_from_json(value: &Value) -> Option<MRow> {
    let [version, data] = parts(value, ["version", "data"])?;
    version.as_u64().filter(|v| *v <= u32::MAX as u64)?;
    nodes_from_json(data)
}
fn node_from_json(value: &Value) -> Option<MNode> {
    let object = value.as_object()?;
    if object.len() != 1 {
        return None;
    }
    if let Some(symbol) = object.get("Symbol") {
        return Some(sym(symbol.as_str()?));
    }
    let content = object.get("Container")?.as_array()?;
    if content.len() != 2 {
        return None;
    }
    // Variants without content may be written as {"Sup":null}
    let kind = match &content[0] {
        Value::String(kind) => kind,
        Value::Object(map) if map.len() == 1 && map.values().all(|v| v.is_null()) => map.keys().next().unwrap(),
        _ => return None,
    };
    let kind = match kind.as_str() {
        "Fraction" => Kind::Frac,
        "Root" => Kind::Root,
        "Sup" => Kind::Sup,
        "Sub" => Kind::Sub,
        "Table" => Kind::Table,
        _ => return None,
    };
    let [values, width] = parts(&content[1], ["values", "width"])?;
    let width = width.as_u64()? as usize;
    let cells: Vec<MRow> = values.as_array()?.iter().map(row_from_json).collect::<Option<_>>()?;
    if width == 0 || cells.len() % width != 0 {
        return None;
    }
    Some(cont(kind, width, cells))
}

/// Breaks a random place of a JSON value
fn mutate(rng: &mut Rng, value: &mut Value) -> &'static str {
    // Collect the places as JSON pointers
    fn walk(value: &Value, at: String, out: &mut Vec<String>) {
        match value {
            Value::Array(items) => items.iter().enumerate().for_each(|(i, v)| walk(v, format!("{}/{}", at, i), out)),
            Value::Object(map) => map.iter().for_each(|(k, v)| walk(v, format!("{}/{}", at, k), out)),
            _ => {}
        }
        out.push(at);
    }
    let mut places = vec![];
    walk(value, String::new(), &mut places);
    if rng.one_in(3) {
        let widths: Vec<String> = places.iter().filter(|p| p.ends_with("/width")).cloned().collect();
        if !widths.is_empty() {
            let place = value.pointer_mut(rng.pick(&widths)).unwrap();
            *place = [json!(0), json!(1), json!(2), json!(3), json!(5), json!(-1), json!(1.5), json!("2"), json!(null), json!(u64::MAX)][rng.below(10)].clone();
            return "width changed";
        }
    }
    let place = value.pointer_mut(rng.pick(&places)).unwrap();
    match place {
        Value::Array(items) if !items.is_empty() && rng.bool() => {
            let i = rng.below(items.len());
            match rng.below(3) {
                0 => { items.remove(i); }
                1 => { let v = items[i].clone(); items.insert(i, v); }
                _ => items[i] = json!({"values": []}),
            }
            "list changed"
        }
        Value::Object(map) if !map.is_empty() && rng.bool() => {
            let keys: Vec<String> = map.keys().cloned().collect();
            let key = rng.pick(&keys).clone();
            let v = map.remove(&key).unwrap();
            if rng.bool() {
                map.insert(rng.pick(&["Symbol", "Container", "Containr", "Values", "values", "width"]).to_string(), v);
            }
            "key changed"
        }
        place => {
            *place = [json!(null), json!(3), json!("x"), json!([]), json!({}), json!(true), json!([1]), json!({"Symbol": "a"}), json!({"Symbol": 5}), json!("Table")][rng.below(10)].clone();
            "value replaced"
        }
    }
}

fn valid(row: &MRow) -> bool {
    row.iter().all(|n| match &n.body {
        Body::Sym(_) => true,
        Body::Cont(_, width, cells) => *width > 0 && cells.len() % width == 0 && cells.iter().all(valid),
    })
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        rule: "random formula over nasty symbols; it, its elements, all its positions and random ranges are written as JSON and read back, the JSON is also read by an independent reader, and 12 mutated or truncated texts per formula are read (must be refused exactly when the independent reader finds no valid formula). Distinct: different JSON texts.",
        quick: 40_000,
        thorough: 2_000_000,
        case: |rng, size, mon| {
            let mut shape = gen::Shape::sized(size);
            shape.odd = 10;
            // Deeper ones cannot be read (known finding)
            shape.deep = 14;
            let model = gen::row(rng, &shape, &mut gen::nasty_symbol);
            mon.note(|| format!("formula {}", show(&model)));
            let repo = row_to_repo(&model);
            let text = serde_json::to_string(&repo).map_err(|e| format!("cannot be written: {}", e))?;
            mon.distinct(&text);
            let value: Value = serde_json::from_str(&text).map_err(|e| format!("is not JSON: {}", e))?;
            ensure!(row_from_json(&value).as_ref() == Some(&model), "the JSON does not describe the formula: {}", text);
            let again: InputRow = serde_json::from_str(&text).map_err(|e| format!("cannot be read back: {}", e))?;
            ensure!(again == repo && row_from_repo(&again) == model, "reads back as {}", show(&row_from_repo(&again)));
            mon.count("rows round-tripped");
            // The clipboard format
            let (a, b) = (rng.between(0, model.len()), rng.between(0, model.len()));
            let slice = &repo.values[a.min(b)..a.max(b)];
            let clip = serialize_input_nodes(slice, SerializedDataType::JsonInputTree).map_err(|e| format!("cannot be copied: {}", e))?;
            let back = deserialize_input_nodes(clip.clone(), Some(SerializedDataType::JsonInputTree)).map_err(|e| format!("cannot be pasted: {}", e))?;
            ensure!(back == slice && back.iter().map(node_from_repo).collect::<Vec<_>>() == model[a.min(b)..a.max(b)], "pasted content is {:?}", back);
            mon.count("clipboard round-trips");
            // Positions
            for pos in all_positions(&model) {
                let minimal = pos_to_repo(&pos);
                let text = serde_json::to_string(&minimal).unwrap();
                let back: MinimalInputRowPosition = serde_json::from_str(&text).map_err(|e| format!("position cannot be read back: {}", e))?;
                ensure!(back == minimal && pos_from_repo(&back) == pos, "position {:?} reads back as {:?}", pos, back);
                let value: Value = serde_json::from_str(&text).unwrap();
                ensure!(value["offset"] == json!(pos.offset) && value["row_indices"] == json!(pos.path), "position {:?} is written as {}", pos, text);
                let range = MinimalInputRowRange { row_indices: path_to_repo(&pos.path), start: Offset(pos.offset), end: Offset(rng.below(9)) };
                let back: MinimalInputRowRange = serde_json::from_str(&serde_json::to_string(&range).unwrap()).map_err(|e| e.to_string())?;
                ensure!(back == range && back.start.0 == pos.offset && back.end == range.end, "range {:?} reads back as {:?}", range, back);
                mon.count("positions round-tripped");
            }
            let width = rng.between(1, 5);
            let start = rng.below(20);
            let selection = MinimalInputGridRange {
                row_indices: path_to_repo(&vec![(1, 2)]),
                index: rng.below(9),
                range: GridRectangle::new(start..start + rng.below(9), width),
            };
            let back: MinimalInputGridRange = serde_json::from_str(&serde_json::to_string(&selection).unwrap()).map_err(|e| e.to_string())?;
            ensure!(back == selection, "table selection {:?} reads back as {:?}", selection, back);
            // Malformed texts
            for _ in 0..12 {
                let full = json!({"version": 1, "data": value["values"]});
                let mut broken = full.clone();
                let mut broken_text;
                let how = if rng.one_in(5) {
                    broken_text = clip_text(rng, &full.to_string());
                    "truncated"
                } else {
                    let how = mutate(rng, &mut broken);
                    broken_text = broken.to_string();
                    how
                };
                if rng.one_in(12) {
                    broken_text.push_str(rng.pick(&["}", "]", " x", "\u{0}"]));
                }
                mon.trace.truncate(1);
                mon.note(|| format!("{}: {}", how, broken_text));
                mon.count(how);
                let parsed: Option<Value> = serde_json::from_str(&broken_text).ok();
                let expected = parsed.as_ref().and_then(clipboard_from_json);
                let result = guarded(|| deserialize_input_nodes(broken_text.clone(), Some(SerializedDataType::JsonInputTree)))
                    .map_err(|e| format!("malformed data crashes: {}", e))?;
                match (result, expected) {
                    (Ok(nodes), expected) => {
                        let nodes: Vec<MNode> = guarded(|| nodes.iter().map(node_from_repo).collect())
                            .map_err(|e| format!("malformed data yields a formula that crashes: {}", e))?;
                        ensure!(valid(&nodes), "malformed data yields the impossible formula {}", show(&nodes));
                        mon.count("accepted");
                        match expected {
                            Some(expected) => ensure!(nodes == expected, "data is read as {} instead of {}", show(&nodes), show(&expected)),
                            None => return Err(format!("malformed data is accepted, it is read as {}", show(&nodes))),
                        }
                    }
                    (Err(_), Some(expected)) => return Err(format!("valid data is refused, it describes {}", show(&expected))),
                    (Err(_), None) => mon.count("refused"),
                }
            }
            mon.sample(|| text.clone());
            Ok(())
        },
        probe: Some(|mon| {
            // Very deep formulas
            let mut row = vec![sym("x")];
            for _ in 0..40 {
                row = vec![cont(Kind::Sup, 1, vec![row])];
            }
            let repo = row_to_repo(&row);
            let text = serde_json::to_string(&repo).map_err(|e| e.to_string())?;
            match serde_json::from_str::<InputRow>(&text) {
                Ok(again) => ensure!(again == repo, "a formula nested 40 deep reads back differently"),
                Err(e) if e.to_string().contains("recursion limit exceeded") => {
                    mon.finding("nesting-beyond-json-recursion-limit", e.to_string())
                }
                Err(e) => return Err(format!("a formula nested 40 deep cannot be read back: {}", e)),
            }
            // Grids with an impossible size
            for text in [
                r#"{"Container":["Table",{"values":[{"values":[]}],"width":0}]}"#,
                r#"{"Container":["Table",{"values":[],"width":0}]}"#,
                r#"{"Container":["Table",{"values":[{"values":[]},{"values":[]},{"values":[]}],"width":2}]}"#,
            ] {
                ensure!(serde_json::from_str::<InputNode>(text).is_err(), "an impossible grid is accepted: {}", text);
            }
            Ok(())
        }),
        assumptions: &["formulas nested deeper than serde_json's recursion limit are a known finding and only probed"],
    }
}

fn clip_text(rng: &mut Rng, text: &str) -> String {
    let mut at = rng.below(text.len());
    while !text.is_char_boundary(at) {
        at -= 1;
    }
    text[..at].to_string()
}
