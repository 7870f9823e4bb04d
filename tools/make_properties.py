import json, os
IT='aftermath-core/input_tree/src/'; CA='aftermath-core/caret/src/'; PA='aftermath-core/parser/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Undoing an edit restores the formula exactly",
 "For every formula and every valid edit (inserting or deleting content in any row at any depth, inserting or deleting rows or columns of a table at any depth), applying the edit and then its inverse gives back exactly the original formula. The same holds for every sequence of edits undone in reverse order, and the inverse of the inverse is the edit itself.",
 ["inputs","histories"],"all formulas (every container kind, nesting, empty rows) and all sequences of valid row and table edits",
 "edit_tests.rs inverts a handful of fixed edits on fixed formulas; it has no column deletion, no nested table and no sequences.",
 [IT+"input_tree.rs",IT+"editing/basic_edit.rs",IT+"editing/invertible.rs"],
 [("apply_edit","input_tree.rs Editable for InputTree"),("inverse","basic_edit.rs Invertible")],["formula before and after apply/inverse"])
p("C02","An edit changes exactly what it names",
 "Inserting content at a place puts exactly that content, in order, at exactly that place; deleting removes exactly the named stretch; inserting or deleting rows or columns of a table adds or removes exactly those cells and the table keeps a rectangular size that matches. Everything else in the formula, in every other row and cell, stays the same and in the same order.",
 ["inputs","histories"],"all formulas, all valid row edits and all valid table row/column edits, at every depth",
 "The existing edit tests compare a few hand-written results; they never check arbitrary table sizes, middle columns, several columns at once or untouched siblings.",
 [IT+"input_tree.rs",IT+"editing/basic_edit.rs"],[("apply_edit","input_tree.rs"),("new_grid_size","basic_edit.rs")],["formula after the edit vs an independent model of the edit"])
p("C03","Tracked positions and ranges follow the content across edits",
 "When content is inserted or deleted in a row, every stored position keeps its place relative to the content that survives, whether it is in the edited row or anywhere below it; rows that are not the edited row or nested in it are unaffected. A position exactly where content is inserted stays in front of it (the right end of a range there moves behind it), a position inside deleted content or inside a deleted container moves to where the deletion happened, and the direction of a range is kept. The tracked position or range is always a valid place in the edited formula.",
 ["inputs","histories"],"all formulas, all positions and (forward or backward) ranges in them, all sequences of row edits",
 "edit_update_range_tests.rs has five fixed cases on a flat row or one level of nesting; nested offsets, multi-level rows, backward ranges and sequences are never tried.",
 [IT+"focus/row_range.rs",IT+"focus/row_position.rs",IT+"editing/row_indices_edit.rs"],[("apply_edit","row_range.rs Editable for MinimalInputRowRange"),("get_row_indices_edit","basic_edit.rs")],["position/range after apply_edit vs identity-based oracle"])
p("C04","Positions are ordered by document order",
 "Comparing two caret positions of a formula gives exactly their order in a left-to-right walk of the whole formula, which visits a container's rows between the positions before and after it; only a position compares equal to itself. A range contains exactly the positions, at any depth, that lie between its two ends in that order, ends included.",
 ["inputs"],"all pairs of positions, and all ranges and positions, of all formulas",
 "input_position_tests.rs compares a few pairs in one formula; totality, transitivity and nested positions at different depths are never exercised.",
 [IT+"focus/row_position.rs",IT+"row.rs",IT+"focus/row_range.rs"],[("cmp_indices_and_offset","row.rs"),("contains","row_range.rs")],["cmp/partial_cmp/contains results vs enumeration order"])
p("C05","The range between two positions is the smallest one covering both",
 "For any two positions, the range between them lies in the deepest row that holds both (directly or nested), covers both positions, and is the smallest such range. It runs forwards exactly when the first position is not after the second one, and equals the two offsets themselves when both are directly in that row.",
 ["inputs"],"all pairs of positions of all formulas, in both directions",
 "selection_tests.rs covers three fixed pairs, input_position_tests.rs none of the mixed depth or backward ones.",
 [IT+"input_tree.rs",IT+"row.rs"],[("range_from_positions","input_tree.rs"),("get_shared","row.rs")],["returned range vs exhaustive search over all ranges"])
p("C06","Walking down and back up the formula is lossless",
 "Walking from the root to any row or element reaches exactly the content at those indices, and reports exactly those indices and its index in the parent. Going back to the parent returns to where one came from with the same indices, asking for anything that does not exist yields nothing instead of a wrong element or a crash, and converting a position, range or table selection to its stored form and back yields the same one.",
 ["inputs"],"all rows and elements of all formulas, all in-range and out-of-range indices, arbitrary down/up walks",
 "input_focus_tests.rs walks one path in one formula.",
 [IT+"focus.rs",IT+"focus/row_position.rs",IT+"focus/row_range.rs",IT+"focus/grid_range.rs"],[("child_at/parent/row_at/walk_down_indices","focus.rs")],["focus contents and indices vs model paths"])
p("C07","Ready-made edits do what they promise",
 "The edit built for removing a range removes exactly that range and reports the place where it was; the edit built for inserting at a position inserts exactly there and reports the place directly behind the inserted content; the edit built for replacing a range substitutes exactly that range and reports the range covering exactly the new content. This holds for forward, backward and empty ranges in every row.",
 ["inputs"],"all formulas, all ranges (forward, backward, empty) and inserted contents",
 "No existing test calls these builders directly with backward or nested ranges.",
 [IT+"editing/basic_edit.rs"],[("remove_range/insert_at_position/replace_range","basic_edit.rs")],["formula and reported place after applying the edits"])
p("C08","Grid coordinates, sizes and rectangles are consistent",
 "In every grid, cell lookup by coordinates, lookup by running index and the order of the cells agree (row by row), every coordinate outside of the grid is rejected, and stepping from a coordinate stays in the grid or reports nothing. A rectangle spanned by any two cells has exactly the smaller and larger coordinates as its corners, reports the matching width and height, and a view of it shows exactly the cells inside it and nothing else.",
 ["inputs"],"all grid sizes, all pairs of cells, all coordinates inside and outside",
 "No existing test covers views, rectangles or coordinate arithmetic besides one 2x2 selection.",
 [IT+"grid.rs",IT+"grid/grid_view.rs",IT+"grid/index2d.rs"],[("GridVec/GridView/GridRectangle/Index2D","grid/*")],["accessor results vs coordinates computed independently"])
p("C09","The printed form of a formula identifies it",
 "The textual form of a formula lists its symbols and containers with their kind, grid size and rows in order, with quotes and backslashes in symbols escaped, so that the formula can be read back from it without loss; two formulas print the same text only if they are equal.",
 ["inputs"],"all formulas, including empty rows and symbols made of quotes, backslashes, spaces, parentheses and non-ASCII text",
 "printing_tests.rs prints a few fixed formulas; it cannot show that no two formulas collide.",
 [IT+"node.rs",IT+"row.rs",IT+"grid.rs",IT+"print_helpers.rs"],[("Display impls","node.rs, row.rs, grid.rs"),("write_with_escaped_double_quotes","print_helpers.rs")],["printed text, read back by an independent reader"])
p("C10","Serialized formulas read back unchanged, malformed ones are rejected",
 "Every formula, row or stored position written as JSON reads back as an equal value. JSON that does not describe a valid formula (missing parts, wrong types, a table whose cell count does not fit its width) is refused with an error: it never crashes and never yields a formula with an impossible grid.",
 ["inputs"],"all formulas and positions; all mutations and truncations of their serialized form",
 "There is no serialization test at all.",
 [IT+"node.rs",IT+"row.rs",IT+"grid.rs","aftermath-core/serialization/src/lib.rs"],[("Serialize/Deserialize","node.rs, row.rs, grid.rs"),("serialize_input_nodes/deserialize_input_nodes","serialization/src/lib.rs")],["JSON text and the value read back"])

p("C11","No sequence of user actions crashes the editor",
 "Whatever the user does in whatever order (typing, moving, selecting, deleting, pasting text or content, undo, redo, autocompleting, dragging with the mouse), the editor carries out each action without crashing, and can still be queried for its formula, caret, autocomplete and syntax tree after every step.",
 ["histories","inputs"],"all sequences of editor actions from an empty or pasted formula, with all built-in parse modules",
 "No test drives the editor object at all (the caret crate has three selection tests).",
 [CA+"math_editor.rs",CA+"primitive/movement.rs",CA+"primitive/primitive_edit.rs",CA+"editor_action_builder.rs",PA+"parser.rs"],[("MathEditor","math_editor.rs"),("EditorActionBuilder","editor_action_builder.rs")],["panics (with overflow and debug assertions on) after every action"])
p("C12","The caret and selection always point into the formula",
 "After every user action the caret and the selection are valid places in the current formula: every row they name exists, their offsets are within that row, and a table selection is a non-empty rectangle inside an existing table.",
 ["histories","inputs"],"all sequences of editor actions, including accepted autocompletes, autocorrects, undo and redo",
 "No existing test checks the caret after an edit by the editor.",
 [CA+"math_editor.rs",CA+"caret.rs",CA+"editor_action_builder.rs"],[("splice_at_range/finish","math_editor.rs, editor_action_builder.rs")],["stored selection vs formula after every action"],
 [("caret","stored start and end position","math_editor.rs")])
p("C13","Undo and redo restore formula and selection exactly",
 "Undoing all recorded changes one by one walks back through exactly the earlier states of the formula, to the initial formula, and redoing walks forward through exactly the same states again; undoing an edit also puts the selection back to where it was just before that edit. A new change after undoing discards what could be redone, and actions that only move the caret or select never change what can be undone or redone.",
 ["histories"],"all sequences of edits, caret moves, undos and redos",
 "There is no undo/redo test.",
 [CA+"undo_redo_manager.rs",CA+"primitive/caret_edit.rs",CA+"math_editor.rs"],[("UndoRedoManager","undo_redo_manager.rs"),("CaretEdit::inverse","primitive/caret_edit.rs")],["formula and selection snapshots before/after undo and redo"])
p("C14","Left and right visit every caret position once, in order",
 "From the very start of a formula, pressing right repeatedly visits every caret position in every row of the formula exactly once, in document order, and then stays at the end; pressing left visits the same positions in the opposite order. Moving the caret never changes the formula (unless it triggers an autocorrect).",
 ["inputs","histories"],"all formulas (all container kinds, empty rows, nested tables), both directions, from every position",
 "No test exercises caret movement.",
 [CA+"primitive/movement.rs",CA+"math_editor.rs"],[("move_horizontal_into/move_horizontal_beyond_edge","primitive/movement.rs")],["visited positions vs enumeration of the formula"])
p("C15","Up and down move between the rows of containers",
 "Pressing up or down moves the caret to the cell directly above or below in the innermost enclosing container that has one, to its end when moving up and to its start when moving down; down in a subscript or up in a superscript leaves it to the place directly before it. If there is no such row the caret stays where it is.",
 ["inputs"],"all formulas, every caret position, both directions",
 "No test exercises vertical movement.",
 [CA+"primitive/movement.rs"],[("move_vertical","primitive/movement.rs")],["caret after Up/Down vs independent reference"])
p("C16","Typing replaces exactly the selection",
 "Typing or inserting symbols replaces exactly the selected content (nothing, if nothing is selected) by exactly the typed symbols, in order, and leaves the caret directly behind them with nothing selected. Everything outside of the selection is unchanged.",
 ["inputs","histories"],"all formulas, all row selections in either direction (also those spanning different depths), all typed symbols",
 "No test types into the editor.",
 [CA+"primitive/primitive_edit.rs",CA+"math_editor.rs"],[("insert_at_range","primitive/primitive_edit.rs"),("insert_nodes_at_caret","math_editor.rs")],["formula and caret after insertion vs model"])
p("C17","Deleting removes only what it should",
 "With a selection, deleting removes exactly the selected content and leaves the caret there. Without one, backspace and delete remove exactly the adjacent symbol, or dissolve the container at whose boundary the caret is (a sub-/superscript, or between the rows of a fraction or root) while keeping all of its content in order, or remove a completely empty container, or otherwise only move the caret; no other content is ever lost, added or reordered.",
 ["inputs","histories"],"all formulas, every caret position and selection, both directions",
 "No test deletes through the editor.",
 [CA+"primitive/primitive_edit.rs",CA+"math_editor.rs"],[("remove_at_caret/flatten_node","primitive/primitive_edit.rs")],["formula and caret after deletion vs reference"])
p("C18","Copy and paste reproduce the selected content",
 "Copying yields exactly the selected content without changing the formula or the selection, and pasting it anywhere (in this or another editor) replaces the selection there by an equal copy, with the caret behind it. Pasting malformed data reports an error and leaves the formula, the selection and the undo history as they were.",
 ["inputs","histories"],"all formulas, all row selections, all paste targets, all mutations of the clipboard data",
 "No test copies or pastes.",
 [CA+"math_editor.rs","aftermath-core/serialization/src/lib.rs"],[("copy/paste","math_editor.rs")],["clipboard text, formula and caret before and after"])
p("C19","The syntax tree shown always belongs to the current formula",
 "After every user action (edits, autocorrects, pastes, undo, redo), the syntax tree the editor reports is the one obtained by parsing the current formula from scratch.",
 ["histories"],"all sequences of editor actions interleaved with queries of the syntax tree",
 "No test queries the editor's syntax tree after a second edit.",
 [CA+"math_editor.rs",CA+"editor_action_builder.rs"],[("parsed cache","math_editor.rs get_syntax_tree/apply_action, editor_action_builder.rs finish")],["reported syntax tree vs fresh parse"],
 [("parsed","cached syntax tree","math_editor.rs")])
p("C20","Accepting an autocomplete replaces exactly the matched text",
 "Autocomplete is offered exactly when nothing is selected and at least two symbols before the caret match the start of some rule. Moving through the offered entries changes the selected one by one step and stops at the ends, and typing on keeps the selected entry selected as long as it fits; accepting replaces exactly the matched symbols before the caret by exactly the selected rule's result with the caret behind it, and dismissing or only looking changes nothing in the formula.",
 ["inputs","histories"],"all formulas around the caret, all caret positions, all sequences of list movements",
 "autocomplete_tests.rs only tests the matcher, never the editor's list, selection or acceptance.",
 [CA+"math_editor.rs",CA+"autocomplete.rs",PA+"autocomplete.rs"],[("finish_autocomplete/move_in_autocomplete","math_editor.rs"),("AutocompleteResults","autocomplete.rs")],["offered list, formula and caret before/after"])
p("C21","Autocorrect applies exactly to a completed word that is left",
 "When the caret leaves a completely typed autocomplete word that was offered and selected, exactly that word is replaced by the rule's result, as a change of its own that undo takes back; as long as the caret stays at or inside of the word, when the word is incomplete, or when it was changed by the same action so that it no longer matches, nothing is replaced.",
 ["histories","inputs"],"all words and surroundings, all ways of leaving them (moving, clicking, typing, deleting, pasting)",
 "No test triggers an autocorrect.",
 [CA+"math_editor.rs",CA+"autocomplete.rs"],[("start_autocorrect/apply_autocorrect","math_editor.rs")],["formula after caret actions vs reference autocorrect"])
p("C22","Selecting covers exactly what lies between the two ends",
 "Dragging from one position to another, or extending the selection step by step, selects the smallest stretch of one row that covers both ends in the direction of the drag; if both ends are in cells of the same table and in no common cell, it selects exactly the rectangle of cells with the two cells as opposite corners. Selecting all covers the whole formula, and selecting never changes the formula.",
 ["inputs","histories"],"all formulas, all pairs of positions, all sequences of shift-arrow steps that stay in one row",
 "selection_tests.rs covers three fixed pairs and one full-table selection.",
 [CA+"caret.rs",CA+"math_editor.rs",IT+"grid/grid_view.rs"],[("CaretSelection::from_positions","caret.rs"),("start_selection/extend_selection","math_editor.rs")],["reported selection vs reference"])

p("C23","Every formula parses, and the syntax tree covers all of it",
 "Parsing never fails or crashes: every formula, however malformed, yields a syntax tree whose range is exactly the whole row.",
 ["inputs"],"all formulas over all symbols the rules know and arbitrary others, with all containers and nesting",
 "parser_test.rs and parser_error_tests.rs parse about thirty fixed formulas (and cannot be built without network here).",
 [PA+"parser.rs",PA+"math_parser.rs",PA+"make_parser.rs",PA+"parser/pratt_parser.rs"],[("parse","math_parser.rs"),("pratt_parser error recovery","parser/pratt_parser.rs")],["root node of the syntax tree, panics"])
p("C24","The syntax tree loses nothing of the formula",
 "In every syntax tree the children of a node lie in order, do not overlap and stay within the node; reading its leaves from left to right gives every symbol of the formula exactly once, in order and kept apart from its neighbours. Every container of the formula appears exactly once, at its place, with one parsed sub-tree per row that in turn covers that row.",
 ["inputs"],"all formulas, well-formed or not",
 "The existing tests compare whole trees of a few formulas.",
 [PA+"syntax_tree/syntax_node.rs",PA+"syntax_tree/syntax_node_builder.rs",PA+"parser/pratt_parser.rs",PA+"rule_collections/built_in_rules.rs"],[("SyntaxNode ranges","syntax_tree/*")],["leaves, ranges and grids of the syntax tree vs the row"])
p("C25","Operators bind with their documented strength",
 "Well-formed expressions parse to the tree determined by the operator table: higher binding strength binds tighter, infix operators of equal strength group as defined by their associativity, prefix operators take their operand to the right and postfix operators to the left, and brackets override all of it.",
 ["inputs"],"all well-formed expressions over the built-in operators, with brackets, prefix, postfix and infix operators mixed",
 "parser_test.rs checks a handful of combinations.",
 [PA+"parser/pratt_parser.rs",PA+"rule_collections/arithmetic_rules.rs",PA+"rule_collections/comparison_rules.rs",PA+"rule_collections/logic_rules.rs",PA+"parse_module.rs"],[("pratt_parser","parser/pratt_parser.rs"),("BindingPowerType/strengths","parse_module.rs, rule_collections/*")],["syntax tree vs an independent precedence-climbing reference"])
p("C26","A row means the same wherever it stands",
 "Parsing is deterministic, and the syntax tree of a row inside a container (a fraction, root, table cell, sub- or superscript) equals the syntax tree of the same row parsed on its own; wrapping a row in round brackets (if it closes all of its own brackets and strings) yields its own tree, shifted, inside the brackets.",
 ["inputs"],"all formulas, all containers and nestings",
 "No existing test compares parses of the same row in different contexts.",
 [PA+"math_parser.rs",PA+"rule_collections/built_in_rules.rs",PA+"rule_collections/core_rules.rs",PA+"parser/pratt_parser.rs"],[("row parsing","math_parser.rs, built_in_rules.rs")],["sub-trees vs stand-alone parse"])
p("C27","Spaces do not change the meaning",
 "Inserting whitespace between the tokens of a well-formed expression does not change the structure of its syntax tree: the same operators apply to the same operands.",
 ["inputs"],"all well-formed expressions and all ways to put whitespace between their tokens",
 "parser_test.rs has two fixed formulas with a space.",
 [PA+"parser/pratt_parser.rs",PA+"make_parser.rs",PA+"rule_collections/built_in_rules.rs"],[("whitespace handling","parser/pratt_parser.rs")],["syntax tree shapes with and without whitespace"])
p("C28","Node names and ids stay consistent, later modules take priority",
 "Every node of a syntax tree carries a name from the active rules (or a built-in one), with one id per name and one name per id within a parser. When several modules have a rule of the same kind (operand, prefix, infix or postfix operator) for the same symbols, the module added last decides, and of equally long autocomplete matches those of the module added last come first.",
 ["inputs","configurations"],"all module selections and orders, all formulas",
 "No test builds a parser with several overlapping modules.",
 [PA+"parse_modules.rs",PA+"syntax_tree/node_type_id.rs",PA+"math_parser.rs",PA+"rule_collection.rs"],[("id assignment","parse_modules.rs, node_type_id.rs"),("module order","math_parser.rs")],["names/ids in trees; trees under different module orders"])
p("C29","Autocomplete finds exactly the rules that fit the text",
 "For any text before the caret, the matches of a rule are exactly the prefixes of that rule which the last symbols before the caret spell out, with at least the requested number of symbols; each match reports how much of the rule and how many symbols were matched, and counts as complete exactly when the whole rule was spelled out.",
 ["inputs"],"all symbol rows (including multi-byte, empty and multi-character symbols), all caret positions, all rules and minimum lengths",
 "autocomplete_tests.rs has eight fixed ASCII texts.",
 [PA+"autocomplete.rs"],[("AutocompleteMatcher::matches","autocomplete.rs")],["returned matches vs independent reference"])

p("C30","JavaScript gets exactly what the editor does",
 "Every function of the bindings for JavaScript has exactly the effect of the editor operation it stands for, tells JavaScript whether it did something, and hands out the editor's own formula, caret, syntax tree, autocompletes and copied text, after any history of calls; arguments that are no symbols or no formula are refused and change nothing. A parser made by the bindings has exactly the modules it was given, in the order in which they were added, and the names of all nodes; editors that share a parser do not influence each other.",
 ["histories","inputs"],"all sequences of calls, all formulas, all selections and orders of modules",
 "There is no test of the bindings.",
 ["aftermath-core/web/src/math_editor.rs","aftermath-core/web/src/math_parser.rs"],[("MathEditorBindings","aftermath-core/web/src/math_editor.rs"),("ParseModuleCollectionBindings, ParseModulesCreator","aftermath-core/web/src/math_parser.rs")],["results of the bindings against an editor next to them"])

p("C31","Importing MathML keeps content and structure",
 "Importing a MathML expression yields a formula with every character of its text exactly once, in order and in the right row: fractions, roots, scripts and tables become the corresponding containers with numerator/denominator, radicand/index, sub-/superscript and cells in the right places, rows of unequal length in tables are padded with empty cells, and nested rows are flattened without losing anything. Elements that are unknown or have a wrong number of children are reported as errors instead of crashing, and the result is always a valid formula.",
 ["inputs"],"all MathML trees over the supported elements, including malformed ones",
 "There is no test of the TypeScript code.",
 ["src/mathml/parsing.ts"],[("toMathLayout","src/mathml/parsing.ts")],["returned formula vs independent reference importer"])
p("C32","Rendering shows every symbol exactly once, in order",
 "Rendering the syntax tree of any formula produces an element tree whose text, read in order, shows every visible symbol of the formula exactly once and with the same row and container structure; every row and container of the formula has a rendered counterpart.",
 ["inputs"],"all formulas the parser can produce a syntax tree for",
 "There is no test of the TypeScript code.",
 ["src/mathml/renderer.ts","src/mathml/renderer/","src/mathml/render-result.ts"],[("MathMLRenderer","src/mathml/renderer.ts")],["rendered element tree vs the formula"])
p("C33","Clicking and caret placement agree with the rendered formula",
 "For every caret position of a rendered formula, the row and its on-screen caret location can be looked up, the location lies within the row's area, and it moves monotonically from left to right with the offset within a row; the area of a row holds everything drawn in it, and the highlight of a selection covers exactly what lies between the two caret locations. Looking up the position for any point yields a valid caret position: a click exactly on a caret location yields that place (or a row touching it), a click on one half of a symbol yields the caret position on that side of it, and a click outside of the formula yields the nearest one.",
 ["inputs"],"all formulas, all caret positions and selections, arbitrary points",
 "There is no test of the TypeScript code.",
 ["src/mathml/render-result.ts","src/mathml/renderer/","src/mathml/renderer.ts","src/core/index.ts"],[("getViewportSelection/getLayoutPosition/getViewportRowBounds","src/mathml/render-result.ts"),("getCaretBounds/getRowAreas of the element classes","src/mathml/renderer/*")],["lookup results under a fake layout"])
p("C34","The editor on the page carries out every input and shows the result",
 "Every key press, typed text, pointer press, drag, release, copy, cut and paste in the editor on the page has exactly the meaning it has for the user, applied to the formula and the selection once and in the order in which the inputs arrived; an input that cannot be carried out (malformed clipboard data) changes nothing. After each of them the screen shows the current formula, a caret exactly where the caret is, and a highlight that covers exactly the selected content (all of the selected cells in a table), and none if nothing is selected.",
 ["histories","inputs","schedules"],"all sequences of browser events reaching the editor, from every formula, including events which arrive before earlier typed text is handled",
 "There is no test of the TypeScript code, and the Rust tests never drive the editor.",
 ["src/component/math-editor.ts","src/component/caret/single-caret-element.ts","src/component/","src/core/index.ts","src/mathml/render-result.ts"],[("event handlers, rendering after each change","src/component/math-editor.ts"),("caret and selection elements","src/component/caret/*")],["calls reaching the editor core, the element tree of the component, its caret and highlight boxes"],
 [("inputs under way","typed text which was not handled yet","src/component/math-editor.ts")])
p("C35","Formulas given in MathML get into the editors, and stay there",
 "When the application starts on a page, every `<math>` element marked with `data-editor` is replaced in its place by an editor with exactly the formula that the element stands for, and nothing else on the page changes. Whenever an editor is given MathML (its `mathml` attribute, when it is made or at any later time), it holds and shows exactly that formula, whatever it held before, and one undo after replacing a formula brings the replaced one back; with an empty or removed attribute it is empty; what is no `<math>` element is refused and changes nothing. Nothing else changes the formula and the selection of an editor: not moving it on the page or out of it and back, not other attributes, and nothing that happens to other editors.",
 ["inputs","histories"],"all pages, all MathML documents, all histories of edits and attribute changes, any number of editors on a page",
 "There is no test of the TypeScript code.",
 ["src/main.ts","src/component/math-editor.ts","src/mathml/parsing.ts","src/utils/dom-utils.ts"],[("replacing marked elements","src/main.ts"),("connectedCallback, attributeChangedCallback","src/component/math-editor.ts")],["the page before and after, formula, caret and element tree of every editor"])
p("C36","Syntax trees are well-formed, and print and store exactly what they are",
 "A syntax tree node can only be built from children which follow each other without gaps and overlaps and lie within its range, and a name of a node only from at least two valid identifiers; everything else is refused. The printed form of any syntax tree shows the name of every node (or that it is unknown), its children in order, the size (width times height) and the cells of grids that are not empty, the text of leaves with quotes and backslashes escaped, and the value in hexadecimal, so that trees which differ in any of this print differently. Storing a syntax tree and reading it back gives the same tree.",
 ["inputs"],"all syntax trees, those of parsed formulas and those built by other means, with any names, texts and values",
 "The tests print the trees of a few fixed formulas; values, unknown names, and storing are never tested.",
 [PA+"syntax_tree/",IT+"print_helpers.rs"] ,[("SyntaxNodeWithDisplay, SyntaxLeafNode","syntax_tree/display_syntax_tree.rs"),("SyntaxNode::new, PathIdentifier::new","syntax_tree/syntax_node.rs, node_identifier.rs")],["printed and stored trees, read back by an independent reader"])
p("C37","Rows are read token by token, and what is wrong stays in its place",
 "A row is read from left to right. Where an operand is expected, a prefix operator, a number (digits, optionally a point and more digits), a name (an identifier), a string (everything between two quotes, a backslash keeps the next symbol from ending it), a constant, a container, or a matching pair of brackets is read; behind an operand an infix or postfix operator of the active rules. Numbers, names and strings are as long as possible, and of several rules that fit, the one added last wins. Spaces and the scripts of an operator belong to the token before them (or the first token behind them). Where an operand is missing there is an empty missing token, and nothing else changes; two operands next to each other are joined by a missing operator, which binds like an addition; every symbol that fits nothing becomes an unknown token of its own, joined to what is directly in front of it.",
 ["inputs"],"all rows, however malformed, and all sets of rules",
 "parser_test.rs has a few fixed malformed formulas.",
 [PA+"parser/pratt_parser.rs",PA+"math_parser.rs",PA+"make_parser.rs",PA+"rule_collection.rs",PA+"rule_collections/"],[("pratt_parser and its error handling","parser/pratt_parser.rs, math_parser.rs"),("rules of the tokens","rule_collections/*, make_parser.rs")],["the syntax tree against that of an independent parser"])
p("C38","Parsers and editors give back their memory",
 "When an editor or a parser is no longer used, all memory taken for it is given back, whatever has been done with it before. While an editor is used, only recorded changes and a longer formula take up memory: moving and selecting, looking at the syntax tree, copying, autocompleting without accepting, undo and redo, and refused pastes, repeated any number of times, do not make it grow.",
 ["histories"],"all parsers, all formulas they parse, all histories of an editor",
 "No test looks at memory, and nothing that is never freed changes the result of a test. The rules of a parser refer back to each other, so a parser can keep itself alive.",
 [PA+"parser/pratt_parser.rs",PA+"math_parser.rs",CA+"undo_redo_manager.rs",CA+"math_editor.rs",CA+"autocomplete.rs"],[("RcOrWeak, the recursive parser","parser/pratt_parser.rs"),("history","undo_redo_manager.rs")],["bytes in use, counted by the allocator"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
