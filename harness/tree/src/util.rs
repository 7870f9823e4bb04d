use input_tree::{
    editing::{BasicEdit, EditType, GridEdit, RowEdit},
    grid::{GridDirection, GridVec},
    row::{ElementIndices, Offset},
};
use monitor_common::*;

/// An edit in terms of the model
#[derive(Clone, Debug)]
pub enum MEdit {
    Insert { path: Path, offset: usize, values: Vec<MNode> },
    Delete { path: Path, offset: usize, values: Vec<MNode> },
    /// Cells are given row by row, for the stretch that is inserted or deleted
    Grid {
        insert: bool,
        rows: bool,
        path: Path,
        index: usize,
        at: usize,
        count: usize,
        cells: Vec<MRow>,
        cells_width: usize,
    },
}

impl MEdit {
    pub fn to_repo(&self) -> BasicEdit {
        match self {
            MEdit::Insert { path, offset, values } => row_edit(EditType::Insert, path, *offset, values),
            MEdit::Delete { path, offset, values } => row_edit(EditType::Delete, path, *offset, values),
            MEdit::Grid { insert, rows, path, index, at, cells, cells_width, .. } => {
                BasicEdit::Grid(GridEdit {
                    edit_type: if *insert { EditType::Insert } else { EditType::Delete },
                    element_indices: ElementIndices {
                        row_indices: path_to_repo(path),
                        index: *index,
                    },
                    direction: if *rows { GridDirection::Row } else { GridDirection::Column },
                    row_or_column: Offset(*at),
                    values: GridVec::from_one_dimensional(
                        cells.iter().map(row_to_repo).collect(),
                        *cells_width,
                    ),
                })
            }
        }
    }

    /// The independent model of what an edit does
    pub fn apply(&self, root: &mut MRow) {
        match self {
            MEdit::Insert { path, offset, values } => {
                let row = row_at_mut(root, path).unwrap();
                let tail = row.split_off(*offset);
                row.extend(values.iter().cloned());
                row.extend(tail);
            }
            MEdit::Delete { path, offset, values } => {
                let row = row_at_mut(root, path).unwrap();
                let tail = row.split_off(*offset + values.len());
                row.truncate(*offset);
                row.extend(tail);
            }
            MEdit::Grid { insert, rows, path, index, at, count, cells, .. } => {
                let row = row_at_mut(root, path).unwrap();
                let Body::Cont(_, width, old) = &mut row[*index].body else {
                    panic!("harness: not a table")
                };
                let w = *width;
                let h = old.len() / w;
                // As a list of lines (rows or columns), each a list of cells
                let line_count = if *rows { h } else { w };
                let line_len = if *rows { w } else { h };
                let get = |line: usize, i: usize| {
                    if *rows { line * w + i } else { i * w + line }
                };
                let mut lines: Vec<Vec<MRow>> = (0..line_count)
                    .map(|line| (0..line_len).map(|i| old[get(line, i)].clone()).collect())
                    .collect();
                if *insert {
                    let new_lines: Vec<Vec<MRow>> = (0..*count)
                        .map(|line| {
                            (0..line_len)
                                .map(|i| cells[if *rows { line * w + i } else { i * count + line }].clone())
                                .collect()
                        })
                        .collect();
                    lines.splice(*at..*at, new_lines);
                } else {
                    lines.drain(*at..*at + *count);
                }
                if *rows {
                    *old = lines.into_iter().flatten().collect();
                } else {
                    *width = lines.len();
                    *old = (0..h)
                        .flat_map(|y| lines.iter().map(|l| l[y].clone()).collect::<Vec<_>>())
                        .collect();
                }
            }
        }
    }

    pub fn describe(&self) -> String {
        match self {
            MEdit::Insert { path, offset, values } => {
                format!("insert {} at {:?}/{}", show(values), path, offset)
            }
            MEdit::Delete { path, offset, values } => {
                format!("delete {} at {:?}/{}", show(values), path, offset)
            }
            MEdit::Grid { insert, rows, path, index, at, count, cells, .. } => format!(
                "{} {} {} at {} of table {:?}[{}]: {}",
                if *insert { "insert" } else { "delete" },
                count,
                if *rows { "rows" } else { "columns" },
                at,
                path,
                index,
                cells.iter().map(show).collect::<Vec<_>>().join("")
            ),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            MEdit::Insert { .. } => "row insert",
            MEdit::Delete { .. } => "row delete",
            MEdit::Grid { insert: true, rows: true, .. } => "table rows insert",
            MEdit::Grid { insert: true, rows: false, .. } => "table columns insert",
            MEdit::Grid { insert: false, rows: true, .. } => "table rows delete",
            MEdit::Grid { insert: false, rows: false, .. } => "table columns delete",
        }
    }
}

fn row_edit(edit_type: EditType, path: &Path, offset: usize, values: &[MNode]) -> BasicEdit {
    BasicEdit::Row(RowEdit {
        edit_type,
        position: pos_to_repo(&MPos::new(path.clone(), offset)),
        values: nodes_to_repo(values),
    })
}

pub struct EditGen {
    next_symbol: u64,
    /// The symbols of some formulas are all different, those of others are not
    few: bool,
    next_id: u64,
    /// One in how many formulas has more than 65,536 elements (0: none)
    enormous: usize,
    pub shape: gen::Shape,
}

/// Any place up to `max`, in enormous rows mostly one behind the 16 bits
pub fn near_the_end(rng: &mut Rng, max: usize) -> usize {
    if max > 65_000 && !rng.one_in(4) {
        rng.between(65_000, max)
    } else {
        rng.between(0, max)
    }
}

impl EditGen {
    pub fn new(size: usize) -> Self {
        EditGen { next_symbol: 0, few: false, next_id: 0, enormous: 0, shape: gen::Shape::sized(size) }
    }

    pub fn with_enormous_rows(mut self, one_in: usize) -> Self {
        self.enormous = one_in;
        self
    }

    fn symbols(&mut self) -> impl FnMut(&mut Rng) -> String + '_ {
        let few = self.few;
        let next = &mut self.next_symbol;
        move |rng: &mut Rng| {
            if few {
                return rng.pick(&["2", "2", "x", "+", "(", ")", " ", ""]).to_string();
            }
            *next += 1;
            format!("s{}", next)
        }
    }

    pub fn tree(&mut self, rng: &mut Rng) -> MRow {
        let shape = self.shape.clone();
        self.few = rng.one_in(3);
        let mut row = gen::row(rng, &shape, &mut self.symbols());
        if self.enormous > 0 && shape.wild > 0 && rng.one_in(self.enormous) {
            row = self.enormous_row(rng);
        }
        assign_ids(&mut row, &mut self.next_id);
        row
    }

    /// More elements (or cells) than 16 bits can count
    fn enormous_row(&mut self, rng: &mut Rng) -> MRow {
        let shape = gen::Shape { wild: 0, ..self.shape.clone() };
        let len = rng.between(65_530, 67_000);
        let mut symbols = self.symbols();
        if rng.one_in(4) {
            let width = *rng.pick(&[1, 2, 255, 256, 257]);
            let cells = (0..len / width * width).map(|_| vec![sym(symbols(rng))]).collect();
            return vec![sym("a"), cont(Kind::Table, width, cells), sym("b")];
        }
        let mut row: MRow = (0..len).map(|_| sym(symbols(rng))).collect();
        for at in [65_535, 65_536, len - 2] {
            if at < row.len() && rng.bool() {
                row[at] = gen::node(rng, &shape, &mut symbols);
            }
        }
        row
    }

    pub fn values(&mut self, rng: &mut Rng) -> Vec<MNode> {
        let n = match rng.below(8) {
            0 => 0,
            1..=3 => 1,
            _ if self.shape.wild > 0 && rng.one_in(200) => rng.between(20, 300),
            _ => rng.between(1, 5),
        };
        let shape = gen::Shape { max_depth: 1, max_len: 3, ..self.shape.clone() };
        let mut values: Vec<MNode> =
            (0..n).map(|_| gen::node(rng, &shape, &mut self.symbols())).collect();
        assign_ids(&mut values, &mut self.next_id);
        values
    }

    /// Prefers rows deep in the tree and long rows
    pub fn pick_row(&mut self, rng: &mut Rng, root: &MRow) -> Path {
        let rows = all_rows(root);
        let a = rng.pick(&rows).clone();
        let b = rng.pick(&rows).clone();
        match rng.below(4) {
            0 => vec![],
            1 => a,
            2 => if row_at(root, &a).unwrap().len() >= row_at(root, &b).unwrap().len() { a } else { b },
            _ => if a.len() >= b.len() { a } else { b },
        }
    }

    pub fn row_edit(&mut self, rng: &mut Rng, root: &MRow) -> MEdit {
        let path = self.pick_row(rng, root);
        let row = row_at(root, &path).unwrap();
        if row.is_empty() || rng.bool() {
            let offset = near_the_end(rng, row.len());
            let values = self.values(rng);
            MEdit::Insert { path, offset, values }
        } else {
            let offset = near_the_end(rng, row.len() - 1);
            let max = row.len() - offset;
            let count = if rng.one_in(4) || (max > 100 && rng.bool()) { rng.between(0, max) } else { rng.between(1, max.min(3)) };
            let values = row[offset..offset + count].to_vec();
            MEdit::Delete { path, offset, values }
        }
    }

    pub fn grid_edit(&mut self, rng: &mut Rng, root: &MRow) -> Option<MEdit> {
        let tables: Vec<(Path, usize)> = all_containers(root)
            .into_iter()
            .filter(|(path, i)| row_at(root, path).unwrap()[*i].kind() == Some(Kind::Table))
            .collect();
        if tables.is_empty() {
            return None;
        }
        let (path, index) = rng.pick(&tables).clone();
        let node = &row_at(root, &path).unwrap()[index];
        let Body::Cont(_, w, cells) = &node.body else { unreachable!() };
        let (w, h) = (*w, cells.len() / w);
        let rows = rng.bool();
        let lines = if rows { h } else { w };
        let insert = lines == 0 || (!rows && lines == 1) || rng.bool();
        if insert {
            let at = rng.between(0, lines);
            let count = if self.shape.wild > 0 && rng.one_in(100) { rng.between(4, 20) } else { rng.between(1, 3) };
            let shape = gen::Shape { max_depth: 1, max_len: 2, ..self.shape.clone() };
            let new_cells: Vec<MRow> = (0..count * if rows { w } else { h })
                .map(|_| {
                    let mut row = gen::row(rng, &shape, &mut self.symbols());
                    assign_ids(&mut row, &mut self.next_id);
                    row
                })
                .collect();
            let cells_width = if rows { w } else { count };
            Some(MEdit::Grid { insert, rows, path, index, at, count, cells: new_cells, cells_width })
        } else {
            let at = rng.below(lines);
            // A table keeps at least one column, deleting all rows is fine
            let max = if rows { lines - at } else { (lines - at).min(lines - 1) };
            let count = if rng.bool() { 1 } else { rng.between(1, max) };
            let mut removed = vec![];
            for y in 0..h {
                for x in 0..w {
                    let line = if rows { y } else { x };
                    if at <= line && line < at + count {
                        removed.push(cells[y * w + x].clone());
                    }
                }
            }
            let cells_width = if rows { w } else { count };
            Some(MEdit::Grid { insert, rows, path, index, at, count, cells: removed, cells_width })
        }
    }

    pub fn any_edit(&mut self, rng: &mut Rng, root: &MRow) -> MEdit {
        if rng.percent(40) {
            if let Some(edit) = self.grid_edit(rng, root) {
                return edit;
            }
        }
        self.row_edit(rng, root)
    }
}
