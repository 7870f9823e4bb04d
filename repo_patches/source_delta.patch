From dbe52ebbed9fc4ab847926906a95fc2355eaae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 01/25] fix: deleting table rows or columns actually removes
 the cells

Iterator::skip is lazy, so 'let _ = old_grid.by_ref().skip(n)' skipped
nothing and every grid delete panicked on the size check.
---
 aftermath-core/input_tree/src/input_tree.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..696cabc 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,22 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
+                        old_grid
+                            .by_ref()
+                            .take(values.width() * values.height())
+                            .for_each(drop);
                         new_grid.extend(old_grid);
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            old_grid.by_ref().take(values.width()).for_each(drop);
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0 - values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From 11d5c642aee8fee5b47eb60e5a3a7d265114503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 02/25] fix: move positions below an edited row by the index in
 that row

The index that leads out of the edited row is at row_indices.len(), not one
before it (which underflows for edits of the root row).
---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From c1935c1e0b7983718c4f44d4f77a742be361426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 03/25] fix: the root row has no index in its parent

index_in_parent underflowed for the root row, so deleting at the start or
end of the formula panicked in builds with overflow checks.
---
 aftermath-core/input_tree/src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..5316876 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -100,7 +100,7 @@ impl<'a> InputFocusRow<'a> {
 
     pub fn index_in_parent(&self) -> Option<usize> {
         self.row_indices
-            .at(self.row_indices.len() - 1)
+            .at(self.row_indices.len().checked_sub(1)?)
             .map(|row_index| row_index.1)
     }
 
-- 
2.43.0


From c0255891930076efd9347ae5d45f29fe017284bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 04/25] fix: moving left out of the first cell of a container

v - 1 underflowed, so pressing left at the start of a fraction, root, sub,
sup or table panicked in builds with overflow checks.
---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..a529ed7 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                v.checked_add(1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From a77b3014964d1d9e51f7073c50b6fbf359be9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 05/25] fix: rectangles in grids report their size and cells
 correctly

---
 .../input_tree/src/grid/grid_view.rs          | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid/grid_view.rs b/aftermath-core/input_tree/src/grid/grid_view.rs
index 40c28ca..0b35528 100644
--- a/aftermath-core/input_tree/src/grid/grid_view.rs
+++ b/aftermath-core/input_tree/src/grid/grid_view.rs
@@ -16,9 +16,14 @@ impl<'a, T> Grid<T> for GridView<'a, T> {
     }
 
     fn get(&self, xy: Index2D) -> Option<&T> {
-        self.grid
-            .values
-            .get(xy.to_index_checked(self)? + self.range.start)
+        // Check the bounds of the view, then translate to an index in the underlying grid
+        xy.to_index_checked(self)?;
+        let start = self.range.start_index();
+        self.grid.get(Index2D::new(
+            start.x + xy.x,
+            start.y + xy.y,
+            self.grid.width(),
+        ))
     }
 }
 
@@ -41,7 +46,7 @@ impl<'a, T> GridView<'a, T> {
     tsify(into_wasm_abi, from_wasm_abi)
 )]
 pub struct GridRectangle {
-    /// Invariant: range.start <= range.end
+    /// Invariant: range.start <= range.end, start is the top left and end - 1 is the bottom right corner
     /// The start and end fields are conceptually turned into 2D positions, and then a rectangle is constructed.
     /// e.g. for a grid with width 6:
     /// [. . S . . .]
@@ -55,25 +60,36 @@ pub struct GridRectangle {
 
 impl GridRectangle {
     pub fn new(range: Range<usize>, width: usize) -> Self {
+        if range.is_empty() {
+            return Self {
+                start: range.start,
+                end: range.start,
+                width,
+            };
+        }
+        let (start, last) = (range.start, range.end - 1);
+        // The corners of the rectangle that contains both positions
+        let min_x = (start % width).min(last % width);
+        let max_x = (start % width).max(last % width);
         Self {
-            start: range.start,
-            end: if !range.is_empty() {
-                range.end
-            } else {
-                range.start
-            },
+            start: start / width * width + min_x,
+            end: last / width * width + max_x + 1,
             width,
         }
     }
 
     pub fn width(&self) -> usize {
-        self.width
+        match self.end_index_inclusive() {
+            Some(end) => end.x - self.start_index().x + 1,
+            None => 0,
+        }
     }
 
     pub fn height(&self) -> usize {
-        let start_y = self.start / self.width;
-        let end_y = self.end / self.width;
-        end_y - start_y
+        match self.end_index_inclusive() {
+            Some(end) => end.y - self.start_index().y + 1,
+            None => 0,
+        }
     }
 
     pub fn size(&self) -> (usize, usize) {
-- 
2.43.0


From 9c1cd10d4d3496104418c895eb84b7d5cf7537cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 06/25] fix: reject serialized grids with an invalid size

---
 aftermath-core/input_tree/src/grid.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..253119f 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -26,7 +26,7 @@ pub enum GridDirection {
 
 /// A proper grid of values.
 /// Maybe someday I'll be able to use https://docs.rs/ndarray/latest/ndarray/ instead.
-#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize)]
 #[cfg_attr(
     feature = "wasm",
     derive(tsify::Tsify),
@@ -37,6 +37,26 @@ pub struct GridVec<T> {
     width: usize,
 }
 
+/// Serialized grids can come from anywhere (e.g. the clipboard), so their size has to be checked.
+impl<'de, T: Deserialize<'de>> Deserialize<'de> for GridVec<T> {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "GridVec")]
+        struct UncheckedGridVec<T> {
+            values: Vec<T>,
+            width: usize,
+        }
+
+        let UncheckedGridVec { values, width } = UncheckedGridVec::deserialize(deserializer)?;
+        if width == 0 || values.len() % width != 0 {
+            return Err(serde::de::Error::custom(
+                "the number of values does not match the width of the grid",
+            ));
+        }
+        Ok(GridVec { values, width })
+    }
+}
+
 impl<T> Grid<T> for GridVec<T> {
     fn size(&self) -> (usize, usize) {
         (self.width, self.values.len() / self.width)
-- 
2.43.0


From 4592d6c8950fe2f064a9336560b0985c777c83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 07/25] fix: move the caret past tables without any cells

---
 aftermath-core/caret/src/primitive/movement.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a529ed7..2610408 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -224,7 +224,7 @@ impl NavigationSettings {
         let adjacent_child = caret.row_focus.clone().child_at(adjacent_index).unwrap();
 
         match adjacent_child.node() {
-            input_tree::node::InputNode::Container(_, grid) => {
+            input_tree::node::InputNode::Container(_, grid) if !grid.is_empty() => {
                 let adjacent_row = if direction == HorizontalDirection::Left {
                     adjacent_child
                         .child_at(grid.width() * grid.height() - 1)
@@ -239,7 +239,9 @@ impl NavigationSettings {
                 };
                 Some(InputRowPosition::new(adjacent_row, offset))
             }
-            input_tree::node::InputNode::Symbol(_) => Some(InputRowPosition::new(
+            // Containers without any rows (e.g. a table with all of its rows deleted) act like a symbol
+            input_tree::node::InputNode::Container(_, _)
+            | input_tree::node::InputNode::Symbol(_) => Some(InputRowPosition::new(
                 caret.row_focus.clone(),
                 if direction == HorizontalDirection::Left {
                     Offset(caret.offset.0 - 1)
-- 
2.43.0


From 0cde5aedc1193d3e5b0798ef377b3d7023fb467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 08/25] fix: autocomplete with symbols that are not a single
 byte

---
 aftermath-core/parser/src/autocomplete.rs | 28 +++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..d7515a1 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -71,13 +71,15 @@ impl AutocompleteRule {
 /// Returns the indices of all occurences of needle in haystack.
 /// Can return overlapping ranges.
 fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
-    let mut indices = Vec::new();
-    let mut i = 0;
-    while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
-        indices.push(index);
-        i = index + 1;
+    if needle.is_empty() {
+        return Vec::new();
     }
-    indices
+    // Only char boundaries are valid indices
+    haystack
+        .char_indices()
+        .map(|(index, _)| index)
+        .filter(|&index| haystack[index..].starts_with(needle))
+        .collect()
 }
 
 impl AutocompleteMatcher for AutocompleteRule {
@@ -89,22 +91,18 @@ impl AutocompleteMatcher for AutocompleteRule {
     ) -> Vec<AutocompleteRuleMatch<'b>> {
         assert!(!self.parser.is_empty());
         let input = &input[0..caret_position];
-        // Contains the *exclusive* end indices in the parser
-        // e.g.
-        // parser = "lim"
-        // input = "m slimm"
-        // matching_ranges = [0, 5, 6]
+        // Contains the start and the *exclusive* end indices of the last input symbol in the parser
         let mut potential_matches = vec![];
         // Initialize matching_ranges
         if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
             for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
+                potential_matches.push((i, i + starting_symbol.len()));
             }
         }
 
         let mut matches = Vec::new();
-        for parser_end_index in potential_matches {
-            let mut parser_current_index = parser_end_index;
+        for (parser_start_index, parser_end_index) in potential_matches {
+            let mut parser_current_index = parser_start_index;
             let mut symbol_count = 1; // The init already matched one symbol
             let mut input_reverse = input.iter().rev().skip(symbol_count);
             while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
@@ -126,7 +124,7 @@ impl AutocompleteMatcher for AutocompleteRule {
                 // Matched the whole parser
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: parser_end_index,
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From 7ec2acac9f3870efe9be8d0a4ea88dafab8a00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 09/25] fix: autocorrect matches all symbols in the range

---
 aftermath-core/caret/src/math_editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..a794379 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -309,7 +309,7 @@ impl MathEditor {
             .rule
             .matches(
                 autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
+                autocomplete_range.values().len(),
                 1,
             )
             .iter()
-- 
2.43.0


From eb99c483de6cd7a3d625038c6d373d4f5e05d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 10/25] fix: the caret follows the edit when splicing

---
 aftermath-core/caret/src/math_editor.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a794379..ca38926 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -371,18 +371,24 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
-        let (basic_edit, _) = BasicEdit::replace_range(
+        let (basic_edit, new_range) = BasicEdit::replace_range(
             &InputRowRange::from_minimal(builder.input.root_focus(), &range),
             values,
         );
-        caret.start_position.apply_edits(&basic_edit);
-        caret.end_position.apply_edits(&basic_edit);
+        for position in [&mut caret.start_position, &mut caret.end_position] {
+            if position.row_indices == range.row_indices
+                && position.offset == range.start.max(range.end)
+            {
+                // Directly after the replaced values, so stay after the new values
+                position.offset = new_range.end;
+            } else {
+                position.apply_edits(&basic_edit);
+            }
+        }
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From 77d4aa96f81ae41c0e5d00ac02c980551228889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 11/25] fix: autocomplete keeps matches of the same rule apart

---
 aftermath-core/caret/src/math_editor.rs | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index ca38926..8e58b61 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -278,8 +278,11 @@ impl MathEditor {
     pub fn move_in_autocomplete(&mut self, direction: VerticalDirection) -> Option<()> {
         let mut autocomplete = self.get_autocomplete()?;
         autocomplete.move_selection(direction);
-        let rule = autocomplete.get_selected().rule.clone();
-        self.autocomplete_state.set_current_autocomplete(Some(rule));
+        let selected = autocomplete.get_selected();
+        let rule = selected.rule.clone();
+        let start = autocomplete.get_caret_range(selected).end;
+        self.autocomplete_state
+            .set_current_autocomplete(Some((rule, start)));
         Some(())
     }
 
@@ -393,8 +396,9 @@ impl MathEditor {
 }
 
 pub struct AutocompleteState {
-    /// Autocomplete rule that the main caret was last on
-    current_autocomplete: Option<AutocompleteRule>,
+    /// Autocomplete rule that the main caret was last on, and where the matched text starts.
+    /// The same rule can match in multiple ways, e.g. "infin" ends with "in" and with "infin".
+    current_autocomplete: Option<(AutocompleteRule, Offset)>,
 }
 
 impl Default for AutocompleteState {
@@ -422,13 +426,23 @@ impl AutocompleteState {
         }
         matches.sort();
 
+        let match_start =
+            |v: &AutocompleteRuleMatch| Offset(caret_position.offset.0 - v.input_match_length);
         let selected_index = self
             .current_autocomplete
             .take()
-            .and_then(|last_rule| matches.iter().position(|v| v.rule == &last_rule))
+            .and_then(|(last_rule, last_start)| {
+                matches
+                    .iter()
+                    .position(|v| v.rule == &last_rule && match_start(v) == last_start)
+                    // Otherwise, use the longest match of that rule
+                    .or_else(|| matches.iter().rposition(|v| v.rule == &last_rule))
+            })
             .unwrap_or(0);
 
-        self.current_autocomplete = matches.get(selected_index).map(|v| v.rule.clone());
+        self.current_autocomplete = matches
+            .get(selected_index)
+            .map(|v| (v.rule.clone(), match_start(v)));
         Some(AutocompleteResults::new(
             selected_index,
             matches,
@@ -436,7 +450,7 @@ impl AutocompleteState {
         ))
     }
 
-    pub fn set_current_autocomplete(&mut self, rule: Option<AutocompleteRule>) {
+    pub fn set_current_autocomplete(&mut self, rule: Option<(AutocompleteRule, Offset)>) {
         self.current_autocomplete = rule;
     }
 }
-- 
2.43.0


From 700418cdc097c8a1e6dc9cb64a98e4e5f45418a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 12/25] fix: autocomplete can step between equal rules

---
 aftermath-core/caret/src/math_editor.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index 8e58b61..45a3e21 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -281,8 +281,9 @@ impl MathEditor {
         let selected = autocomplete.get_selected();
         let rule = selected.rule.clone();
         let start = autocomplete.get_caret_range(selected).end;
+        let (index, _, _) = autocomplete.destructure();
         self.autocomplete_state
-            .set_current_autocomplete(Some((rule, start)));
+            .set_current_autocomplete(Some((rule, start, index)));
         Some(())
     }
 
@@ -396,9 +397,10 @@ impl MathEditor {
 }
 
 pub struct AutocompleteState {
-    /// Autocomplete rule that the main caret was last on, and where the matched text starts.
+    /// Autocomplete rule that the main caret was last on, where the matched text starts, and its index.
     /// The same rule can match in multiple ways, e.g. "infin" ends with "in" and with "infin".
-    current_autocomplete: Option<(AutocompleteRule, Offset)>,
+    /// And there can be multiple equal rules.
+    current_autocomplete: Option<(AutocompleteRule, Offset, usize)>,
 }
 
 impl Default for AutocompleteState {
@@ -431,10 +433,16 @@ impl AutocompleteState {
         let selected_index = self
             .current_autocomplete
             .take()
-            .and_then(|(last_rule, last_start)| {
+            .and_then(|(last_rule, last_start, last_index)| {
+                let is_last = |v: &AutocompleteRuleMatch| {
+                    v.rule == &last_rule && match_start(v) == last_start
+                };
+                if matches.get(last_index).is_some_and(is_last) {
+                    return Some(last_index);
+                }
                 matches
                     .iter()
-                    .position(|v| v.rule == &last_rule && match_start(v) == last_start)
+                    .position(is_last)
                     // Otherwise, use the longest match of that rule
                     .or_else(|| matches.iter().rposition(|v| v.rule == &last_rule))
             })
@@ -442,7 +450,7 @@ impl AutocompleteState {
 
         self.current_autocomplete = matches
             .get(selected_index)
-            .map(|v| (v.rule.clone(), match_start(v)));
+            .map(|v| (v.rule.clone(), match_start(v), selected_index));
         Some(AutocompleteResults::new(
             selected_index,
             matches,
@@ -450,7 +458,10 @@ impl AutocompleteState {
         ))
     }
 
-    pub fn set_current_autocomplete(&mut self, rule: Option<(AutocompleteRule, Offset)>) {
+    pub fn set_current_autocomplete(
+        &mut self,
+        rule: Option<(AutocompleteRule, Offset, usize)>,
+    ) {
         self.current_autocomplete = rule;
     }
 }
-- 
2.43.0


From 625d4fccbfd6831f72ddc9894ba2d147b5d063f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 13/25] fix: Importing MathML dropped everything inside of
 mstyle elements

---
 src/mathml/parsing.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 3574fd6..cf07372 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -78,7 +78,7 @@ function table(values: InputRow[], width: number): InputNode {
 function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode) | (InputRow | InputNode)[] {
   let children = [...element.children];
 
-  if (tagIs(element, "math", "mrow", "mtd")) {
+  if (tagIs(element, "math", "mrow", "mtd", "mstyle")) {
     // Uses flatMap so that msub can return two elements...
     return wrapInRow(children.flatMap((c) => toMathLayout(c, errors)));
   } else if (tagIs(element, "semantics") && children.length > 0) {
@@ -163,8 +163,6 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     );
 
     return table(tableCells, tableWidth);
-  } else if (tagIs(element, "mstyle")) {
-    return [];
   } else {
     errors.push(new Error("Unknown element " + element.tagName));
     return symbol("Error");
-- 
2.43.0


From c9777726057e070b960294c64057cf824ce1ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 14/25] fix: Importing msub, msup and msubsup elements without
 children crashed

---
 src/mathml/parsing.ts | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index cf07372..6dcce65 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -102,25 +102,23 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
       root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])
     );
   } else if (tagIs(element, "msub")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sub(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sup(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msubsup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
     return (
       expectNChildren(element, 3, errors) ?? [
-        ...base,
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
         sub(wrapInRow(toMathLayout(children[1], errors))),
         sup(wrapInRow(toMathLayout(children[2], errors))),
       ]
-- 
2.43.0


From 7813daa323a37b1aa5b89285b83201372b822cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 15/25] fix: Importing an mtable without cells gave a table of
 width 0

---
 src/mathml/parsing.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 6dcce65..8cf6f40 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -153,6 +153,10 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     }
 
     const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
+    if (tableWidth === 0) {
+      errors.push(new Error("Expected at least one cell in mtable"));
+      return symbol("Error");
+    }
 
     const tableCells = children.flatMap((c) =>
       Array.from({ length: tableWidth }, (_, i) =>
-- 
2.43.0


From 8ca2f9b1fbf815d379bed56d7f65ea7b9d113b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 16/25] fix: Rendering a sub- or superscript behind a space
 crashed

---
 src/mathml/renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index e36f556..1fe4089 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -83,7 +83,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
@@ -93,7 +92,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-- 
2.43.0


From 76b1c9cca690598135c4197ebdda0e59fd60bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 17/25] fix: Clicking on a lone sub- or superscript gave a
 position outside of the formula

---
 src/mathml/renderer.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index 1fe4089..26010c0 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -84,7 +84,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
@@ -93,7 +93,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
-- 
2.43.0


From 5828e8d91cc72ae594b086dc8743de86a71f3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 18/25] fix: Operators of several symbols keep their symbols
 apart

---
 aftermath-core/parser/src/make_parser.rs       | 2 +-
 aftermath-core/parser/src/parser_extensions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/parser/src/make_parser.rs b/aftermath-core/parser/src/make_parser.rs
index bf2412f..079e73c 100644
--- a/aftermath-core/parser/src/make_parser.rs
+++ b/aftermath-core/parser/src/make_parser.rs
@@ -70,7 +70,7 @@ impl MakeParser for MakeSymbolsParser {
     fn build<'a>(&self, _parser: RcPrattParserType<'a, 'a>) -> BoxedTokenParser<'a, 'a> {
         let node_type = self.node_type;
         just_symbols(&self.symbols)
-            .map(move |v| SyntaxNodeBuilder::new_leaf_node(vec![v], node_type))
+            .map(move |v| SyntaxNodeBuilder::new_leaf_node(v, node_type))
             .with_ctx(())
             .boxed()
     }
diff --git a/aftermath-core/parser/src/parser_extensions.rs b/aftermath-core/parser/src/parser_extensions.rs
index d2f6a51..5a262a6 100644
--- a/aftermath-core/parser/src/parser_extensions.rs
+++ b/aftermath-core/parser/src/parser_extensions.rs
@@ -12,7 +12,7 @@ pub fn just_symbol<'a, E: ParserExtra<'a, &'a [InputNode]>>(
 
 pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
     symbols: &[String],
-) -> impl chumsky::Parser<'a, &'a [InputNode], String, E> {
+) -> impl chumsky::Parser<'a, &'a [InputNode], Vec<String>, E> {
     let symbol_nodes = symbols
         .iter()
         .map(|v| InputNode::Symbol(v.clone()))
@@ -23,6 +23,6 @@ pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
                 InputNode::Symbol(v) => v,
                 _ => panic!("Expected symbol"),
             })
-            .collect::<String>()
+            .collect::<Vec<_>>()
     })
 }
-- 
2.43.0


From 5aed7bac07662792e5abf39239a35c59292c04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 19/25] fix: Events that arrive before typed text is handled no
 longer overtake it

---
 src/component/math-editor.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 9607db6..508bffc 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -35,7 +35,11 @@ class RenderTaskQueue {
     }, 0);
   }
 
-  private run() {
+  /**
+   * Runs the waiting tasks right away.
+   * Other events might arrive before the timeout, and have to be handled after those tasks.
+   */
+  run() {
     while (this.tasks.length > 0) {
       const task = this.tasks.shift()!;
       task();
@@ -142,6 +146,7 @@ export class MathEditor extends HTMLElement {
 
   private addInputEventListeners() {
     this.inputHandler.element.addEventListener("keydown", (ev) => {
+      this.renderTaskQueue.run();
       if (ev.key === "ArrowUp") {
         this.mathEditor.move_caret("Up", "Char");
       } else if (ev.key === "ArrowDown") {
@@ -180,6 +185,7 @@ export class MathEditor extends HTMLElement {
     });
 
     const handleCopy = (clipboard: DataTransfer) => {
+      this.renderTaskQueue.run();
       clipboard.setData("application/json", this.mathEditor.copy("JsonInputTree"));
     };
 
@@ -208,6 +214,7 @@ export class MathEditor extends HTMLElement {
         console.error("No clipboard data");
         return;
       }
+      this.renderTaskQueue.run();
       const json = ev.clipboardData.getData("application/json");
       if (json) {
         this.mathEditor.paste(json, "JsonInputTree");
@@ -222,6 +229,7 @@ export class MathEditor extends HTMLElement {
 
   private addPointerEventListeners(container: HTMLSpanElement, focusCallback: () => void) {
     const getPointerPosition = (e: MouseEvent): MinimalInputRowPosition | null => {
+      this.renderTaskQueue.run();
       const newCaret = this.renderResult.getLayoutPosition({ x: e.clientX, y: e.clientY });
       if (!newCaret) return null;
       return {
-- 
2.43.0


From 3acc02b8d891d0b296d73ef4407c0881747f9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 20/25] fix: The highlight of selected table cells did not
 cover all of them

---
 src/component/math-editor.ts | 39 ++++++++++++++----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 508bffc..24d319e 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -22,7 +22,7 @@ import { AutocompleteElement } from "./autocomplete/autocomplete-element";
 import { CaretDomElement } from "./caret/single-caret-element";
 import { createNode, htmlToElement } from "../utils/dom-utils";
 import { keyIn } from "../utils/pattern-matching-utils";
-import { ViewportMath } from "../rendering/viewport-coordinate";
+import { ViewportMath, type ViewportRect } from "../rendering/viewport-coordinate";
 
 class RenderTaskQueue {
   tasks: (() => void)[] = [];
@@ -405,30 +405,21 @@ export class MathEditor extends HTMLElement {
         const range = caret.Grid;
         // Assumes a lot of internal details about the grid range
         // (Start index, exclusive end index)
-        const startIndices = new RowIndices([...range.row_indices, [range.index, range.range.start]]);
-        const renderedStart = this.renderResult.getViewportRowBounds(startIndices);
-        const endIndices = new RowIndices([
-          ...range.row_indices,
-          [range.index, Math.max(range.range.end - 1, range.range.start)],
-        ]);
-        const renderedEnd = this.renderResult.getViewportRowBounds(endIndices);
+        // The cells can have different sizes, so we need the bounds of every selected cell
+        const { start, end, width } = range.range;
+        const last = Math.max(end - 1, start);
+        let bounds: ViewportRect | null = null;
+        for (let i = start; i <= last; i++) {
+          const isInSelectedColumn = start % width <= i % width && i % width <= last % width;
+          if (!isInSelectedColumn) continue;
+          const cellBounds = this.renderResult.getViewportRowBounds(
+            new RowIndices([...range.row_indices, [range.index, i]])
+          );
+          bounds = bounds === null ? cellBounds : ViewportMath.joinRectangles(bounds, cellBounds);
+        }
+        assert(bounds !== null);
         element.clearSelections();
-        element.addSelection(
-          ViewportMath.joinRectangles(
-            {
-              x: Math.min(renderedStart.x, renderedEnd.x),
-              y: Math.min(renderedStart.y, renderedEnd.y),
-              width: 0,
-              height: 0,
-            },
-            {
-              x: Math.max(renderedStart.x + renderedStart.width, renderedEnd.x + renderedEnd.width),
-              y: Math.max(renderedStart.y + renderedStart.height, renderedEnd.y + renderedEnd.height),
-              width: 0,
-              height: 0,
-            }
-          )
-        );
+        element.addSelection(bounds);
         element.setHeight(0);
       } else {
         assertUnreachable(caret);
-- 
2.43.0


From e3ec94c90e2579024c2c446fd1ed4c5eebf9255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 21/25] fix: Releasing a pointer that was not pressed in the
 editor changed the selection

---
 src/component/math-editor.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 24d319e..65d364d 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -252,6 +252,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointerup", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
       const newPosition = getPointerPosition(e);
       if (newPosition) {
@@ -263,6 +264,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
 
       const newPosition = getPointerPosition(e);
-- 
2.43.0


From 34fdcf9129eede02ac9012870071031cab9afc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 22/25] fix: The formula on the screen was outdated after
 dragging caused an autocorrect

---
 src/component/math-editor.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 65d364d..5c25a84 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -240,6 +240,7 @@ export class MathEditor extends HTMLElement {
 
     let isPointerDown = false;
 
+    // Moving the caret away from a word can autocorrect it, so the formula has to be updated as well
     container.addEventListener("pointerdown", (e) => {
       if (!e.isPrimary) return;
       const newPosition = getPointerPosition(e);
@@ -260,7 +261,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
@@ -273,7 +274,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     // For double clicking
     // - The dblclick event fires too late for text selection (text selection should happen on pointerdown)
@@ -288,11 +289,11 @@ export class MathEditor extends HTMLElement {
       if (clickCount === 2) {
         // double click select
         this.mathEditor.start_selection(newPosition, "Word");
-        this.renderCarets();
+        this.updateInput();
       } else if (clickCount === 3) {
         // triple click select
         this.mathEditor.start_selection(newPosition, "Line");
-        this.renderCarets();
+        this.updateInput();
       }
     });
     container.addEventListener("pointermove", (e) => {
@@ -302,7 +303,7 @@ export class MathEditor extends HTMLElement {
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
       this.mathEditor.extend_selection(newPosition);
-      this.renderCarets();
+      this.updateInput();
     });
   }
 
-- 
2.43.0


From 1e1fb2d0272d99f3987ec881ddf3dcb4682525ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 23/25] fix: moving an editor on the page keeps the formula

---
 src/component/math-editor.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 5c25a84..48e0d2a 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -308,8 +308,8 @@ export class MathEditor extends HTMLElement {
   }
 
   connectedCallback() {
-    // Try to initialize the math element
-    this.attributeChangedCallback("mathml", "", this.getAttribute("mathml") ?? "");
+    // The formula was already set by the attributeChangedCallback, and may have been edited since then
+    this.updateInput();
   }
 
   disconnectedCallback() {
-- 
2.43.0


From 26451e2c16c7cd2bfedccd6bc8141db0ca7c0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 24/25] fix: typed text stays in front of loading a formula

---
 src/component/math-editor.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 48e0d2a..b14c867 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -326,6 +326,7 @@ export class MathEditor extends HTMLElement {
       if (parsedInput.errors.length > 0) {
         console.warn("Parsed input has errors", parsedInput.errors);
       }
+      this.renderTaskQueue.run();
       MathEditorHelper.spliceAtRange(
         this.mathEditor,
         {
-- 
2.43.0


From 75e0e228e5c72945ee0421a424ce097e9baaa2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:19 +0000
Subject: [PATCH 25/25] fix: scripts of an operator are parsed once, not again
 for every operand around it

---
 .../parser/src/parser/pratt_parser.rs         | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/parser/src/parser/pratt_parser.rs b/aftermath-core/parser/src/parser/pratt_parser.rs
index 53f9f54..cefb406 100644
--- a/aftermath-core/parser/src/parser/pratt_parser.rs
+++ b/aftermath-core/parser/src/parser/pratt_parser.rs
@@ -318,11 +318,14 @@ where
 
             if inp.is_at_end() {
                 return PrattParseResult::End(left);
-            } else if let Some((value, op)) = inp.parse_iter(&self.symbols.infix_ops) {
+            } else if let Some(op) = inp.find_iter(&self.symbols.infix_ops) {
+                // Check this before parsing the operator. It might have a sub or sup with a lot in it, which would be parsed again.
                 if op.binding_power.strength_left() < min_binding_power {
-                    inp.rewind(pre_op);
                     return PrattParseResult::Expression(left);
                 }
+                let Ok(value) = inp.parse(op.parser()) else {
+                    unreachable!("The operator can be parsed");
+                };
                 let right = self
                     .pratt_parse(inp, op.binding_power.strength_right(), ending_parser)
                     .map(|right| op.build.build(value, (left, right)));
@@ -556,6 +559,12 @@ where
         parsers: impl IntoIterator<Item = &'has_p HasP>,
     ) -> Option<(O, &'has_p HasP)>;
 
+    /// Returns the first parser that could parse the input.
+    fn find_iter<'has_p, O, P: Parser<'a, I, O, E>, HasP: HasParser<P>>(
+        &mut self,
+        parsers: impl IntoIterator<Item = &'has_p HasP>,
+    ) -> Option<&'has_p HasP>;
+
     /// Check if the given parser could parse the input.
     fn can_parse<O, P: Parser<'a, I, O, E>>(&mut self, parser: &P) -> bool;
     fn can_parse_iter<'has_p, O, P: Parser<'a, I, O, E>, HasP: HasParser<P> + 'has_p>(
@@ -600,6 +609,13 @@ where
         None
     }
 
+    fn find_iter<'has_p, O, P: Parser<'a, I, O, E>, HasP: HasParser<P>>(
+        &mut self,
+        parsers: impl IntoIterator<Item = &'has_p HasP>,
+    ) -> Option<&'has_p HasP> {
+        parsers.into_iter().find(|p| self.can_parse(p.parser()))
+    }
+
     fn can_parse<O, P: Parser<'a, I, O, E>>(&mut self, parser: &P) -> bool {
         let marker = self.save();
         let result = self.check(parser);
-- 
2.43.0

