mod edits;
mod grids;
mod order;
mod text;
mod util;

use monitor_common::{main as run, Check};

fn main() {
    let checks: Vec<Check> = vec![
        edits::c01(),
        edits::c02(),
        edits::c03(),
        order::c04(),
        order::c05(),
        order::c06(),
        edits::c07(),
        grids::c08(),
        text::c09(),
    ];
    run(&checks)
}
