//! An independent model of formulas. Every node has an identity, which is ignored when comparing.
use input_tree::{
    grid::{Grid, GridVec},
    node::{InputNode, InputNodeVariant},
    row::{InputRow, Offset, RowIndex, RowIndices},
};
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Frac,
    Root,
    Sup,
    Sub,
    Table,
}

pub const KINDS: [Kind; 5] = [Kind::Frac, Kind::Root, Kind::Sup, Kind::Sub, Kind::Table];

impl Kind {
    pub fn variant(self) -> InputNodeVariant {
        match self {
            Kind::Frac => InputNodeVariant::Fraction,
            Kind::Root => InputNodeVariant::Root,
            Kind::Sup => InputNodeVariant::Sup,
            Kind::Sub => InputNodeVariant::Sub,
            Kind::Table => InputNodeVariant::Table,
        }
    }
    pub fn of(variant: InputNodeVariant) -> Self {
        match variant {
            InputNodeVariant::Fraction => Kind::Frac,
            InputNodeVariant::Root => Kind::Root,
            InputNodeVariant::Sup => Kind::Sup,
            InputNodeVariant::Sub => Kind::Sub,
            InputNodeVariant::Table => Kind::Table,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Sym(String),
    /// kind, width, cells row by row
    Cont(Kind, usize, Vec<MRow>),
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub id: u64,
    pub body: Body,
}
impl PartialEq for MNode {
    fn eq(&self, other: &Self) -> bool {
        self.body == other.body
    }
}
impl Eq for MNode {}
impl Hash for MNode {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.body.hash(state)
    }
}

pub type MRow = Vec<MNode>;
/// (element index, cell index)*
pub type Path = Vec<(usize, usize)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MPos {
    pub path: Path,
    pub offset: usize,
}

impl MPos {
    pub fn new(path: Path, offset: usize) -> Self {
        MPos { path, offset }
    }
}

pub fn sym(s: impl Into<String>) -> MNode {
    MNode {
        id: 0,
        body: Body::Sym(s.into()),
    }
}
pub fn cont(kind: Kind, width: usize, cells: Vec<MRow>) -> MNode {
    MNode {
        id: 0,
        body: Body::Cont(kind, width, cells),
    }
}

impl MNode {
    pub fn as_sym(&self) -> Option<&str> {
        match &self.body {
            Body::Sym(s) => Some(s),
            _ => None,
        }
    }
    pub fn cells(&self) -> &[MRow] {
        match &self.body {
            Body::Sym(_) => &[],
            Body::Cont(_, _, cells) => cells,
        }
    }
    pub fn kind(&self) -> Option<Kind> {
        match &self.body {
            Body::Sym(_) => None,
            Body::Cont(kind, _, _) => Some(*kind),
        }
    }
}

pub fn node_to_repo(node: &MNode) -> InputNode {
    match &node.body {
        Body::Sym(s) => InputNode::Symbol(s.clone()),
        // Through the public constructors where they exist
        Body::Cont(Kind::Frac, 1, cells) if cells.len() == 2 => InputNode::fraction([row_to_repo(&cells[0]), row_to_repo(&cells[1])]),
        Body::Cont(Kind::Root, 2, cells) if cells.len() == 2 => InputNode::root([row_to_repo(&cells[0]), row_to_repo(&cells[1])]),
        Body::Cont(Kind::Sup, 1, cells) if cells.len() == 1 => InputNode::sup(row_to_repo(&cells[0])),
        Body::Cont(Kind::Sub, 1, cells) if cells.len() == 1 => InputNode::sub(row_to_repo(&cells[0])),
        Body::Cont(Kind::Table, width, cells) => InputNode::table(cells.iter().map(row_to_repo).collect(), *width),
        Body::Cont(kind, width, cells) => InputNode::Container(
            kind.variant(),
            GridVec::from_one_dimensional(cells.iter().map(row_to_repo).collect(), *width),
        ),
    }
}
pub fn row_to_repo(row: &MRow) -> InputRow {
    InputRow::new(nodes_to_repo(row))
}
pub fn nodes_to_repo(row: &[MNode]) -> Vec<InputNode> {
    row.iter().map(node_to_repo).collect()
}
pub fn node_from_repo(node: &InputNode) -> MNode {
    match node {
        InputNode::Symbol(s) => sym(s.clone()),
        InputNode::Container(variant, grid) => cont(
            Kind::of(*variant),
            grid.width(),
            grid.values().map(row_from_repo).collect(),
        ),
    }
}
pub fn row_from_repo(row: &InputRow) -> MRow {
    row.values.iter().map(node_from_repo).collect()
}

pub fn path_to_repo(path: &Path) -> RowIndices {
    RowIndices::new(path.iter().map(|(a, b)| RowIndex(*a, *b)).collect())
}
pub fn path_from_repo(indices: &RowIndices) -> Path {
    indices.iter().map(|v| (v.0, v.1)).collect()
}
pub fn pos_to_repo(pos: &MPos) -> input_tree::focus::MinimalInputRowPosition {
    input_tree::focus::MinimalInputRowPosition {
        row_indices: path_to_repo(&pos.path),
        offset: Offset(pos.offset),
    }
}
pub fn pos_from_repo(pos: &input_tree::focus::MinimalInputRowPosition) -> MPos {
    MPos::new(path_from_repo(&pos.row_indices), pos.offset.0)
}

/// The row at a path, if it exists.
pub fn row_at<'a>(root: &'a MRow, path: &[(usize, usize)]) -> Option<&'a MRow> {
    let mut row = root;
    for (element, cell) in path {
        row = row.get(*element)?.cells().get(*cell)?;
    }
    Some(row)
}
pub fn row_at_mut<'a>(root: &'a mut MRow, path: &[(usize, usize)]) -> Option<&'a mut MRow> {
    let mut row = root;
    for (element, cell) in path {
        row = match &mut row.get_mut(*element)?.body {
            Body::Sym(_) => return None,
            Body::Cont(_, _, cells) => cells.get_mut(*cell)?,
        };
    }
    Some(row)
}
pub fn valid_pos(root: &MRow, pos: &MPos) -> bool {
    row_at(root, &pos.path).map_or(false, |row| pos.offset <= row.len())
}

/// All rows, in document order of their starts.
pub fn all_rows(root: &MRow) -> Vec<Path> {
    fn walk(row: &MRow, path: &mut Path, out: &mut Vec<Path>) {
        out.push(path.clone());
        for (i, node) in row.iter().enumerate() {
            for (j, cell) in node.cells().iter().enumerate() {
                path.push((i, j));
                walk(cell, path, out);
                path.pop();
            }
        }
    }
    let mut out = vec![];
    walk(root, &mut vec![], &mut out);
    out
}

/// All caret positions, in document order: a container's rows are between the position before and the position after it.
pub fn all_positions(root: &MRow) -> Vec<MPos> {
    fn walk(row: &MRow, path: &mut Path, out: &mut Vec<MPos>) {
        for (i, node) in row.iter().enumerate() {
            out.push(MPos::new(path.clone(), i));
            for (j, cell) in node.cells().iter().enumerate() {
                path.push((i, j));
                walk(cell, path, out);
                path.pop();
            }
        }
        out.push(MPos::new(path.clone(), row.len()));
    }
    let mut out = vec![];
    walk(root, &mut vec![], &mut out);
    out
}

/// All containers: path of the row and index in the row
pub fn all_containers(root: &MRow) -> Vec<(Path, usize)> {
    let mut out = vec![];
    for path in all_rows(root) {
        for (i, node) in row_at(root, &path).unwrap().iter().enumerate() {
            if node.kind().is_some() {
                out.push((path.clone(), i));
            }
        }
    }
    out
}

/// Gives every node without one a fresh identity.
pub fn assign_ids(row: &mut MRow, next: &mut u64) {
    for node in row {
        if node.id == 0 {
            *next += 1;
            node.id = *next;
        }
        if let Body::Cont(_, _, cells) = &mut node.body {
            for cell in cells {
                assign_ids(cell, next);
            }
        }
    }
}

/// All symbols in document order
pub fn all_symbols(row: &MRow) -> Vec<String> {
    fn walk(row: &MRow, out: &mut Vec<String>) {
        for node in row {
            match &node.body {
                Body::Sym(s) => out.push(s.clone()),
                Body::Cont(_, _, cells) => cells.iter().for_each(|c| walk(c, out)),
            }
        }
    }
    let mut out = vec![];
    walk(row, &mut out);
    out
}

pub fn count_nodes(row: &MRow) -> usize {
    row.iter()
        .map(|n| 1 + n.cells().iter().map(count_nodes).sum::<usize>())
        .sum()
}
pub fn depth(row: &MRow) -> usize {
    row.iter()
        .flat_map(|n| n.cells())
        .map(|c| 1 + depth(c))
        .max()
        .unwrap_or(0)
}

/// Compact text for reports and hashes
pub fn show(row: &MRow) -> String {
    fn go(row: &MRow, out: &mut String) {
        out.push('[');
        for (i, node) in row.iter().enumerate() {
            if i > 0 {
                out.push(' ');
            }
            match &node.body {
                Body::Sym(s) => out.push_str(&format!("{:?}", s)),
                Body::Cont(kind, width, cells) => {
                    out.push_str(&format!("{:?}<{}>", kind, width));
                    for cell in cells {
                        go(cell, out);
                    }
                }
            }
        }
        out.push(']');
    }
    let mut out = String::new();
    go(row, &mut out);
    out
}

pub fn hash_of<T: Hash>(value: &T) -> u64 {
    // FNV, stable across runs
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 ^= *b as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    value.hash(&mut h);
    h.finish()
}
