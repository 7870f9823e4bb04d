use input_tree::{
    focus::InputGridRange,
    grid::{Grid, GridRectangle, GridVec, Index2D},
    input_tree::InputTree,
    node::InputNode,
    row::InputRow,
};
use monitor_common::*;

pub fn c08() -> Check {
    Check {
        id: "C08",
        rule: "grids of random size (1..=7 x 0..=7, larger ones in the second half), every coordinate in and around them, all pairs of cells as rectangle corners for small grids (random pairs else), and every coordinate in and around each view. Distinct: different (grid size, corner, corner) triples.",
        quick: 30_000,
        thorough: 200_000,
        case: |rng, size, mon| {
            let max = 3 + size / 16;
            let (w, h) = (rng.between(1, max), if rng.one_in(20) { 0 } else { rng.between(1, max) });
            let (w, h) = if size > 40 && rng.one_in(60) { *rng.pick(&[(1, 300), (300, 1), (17, 17), (40, 3), (3, 40), (12, 30), (260, 2), (2, 260)]) } else { (w, h) };
            let (w, h) = if size > 40 && rng.one_in(4_000) { *rng.pick(&[(257, 256), (255, 258), (65_540, 1), (1, 65_540)]) } else { (w, h) };
            mon.note(|| format!("grid {}x{}", w, h));
            if w * h > 60_000 {
                mon.count("enormous grids");
            }
            let values: Vec<u32> = (0..(w * h) as u32).map(|v| v * 3 + 1).collect();
            let mut grid = GridVec::from_one_dimensional(values.clone(), w);
            ensure!(grid.size() == (w, h) && grid.width() == w && grid.height() == h, "size of a {}x{} grid is {:?}", w, h, grid.size());
            ensure!(grid.is_empty() == values.is_empty(), "is_empty of a {}x{} grid", w, h);
            ensure!(grid.values().cloned().collect::<Vec<_>>() == values && grid.clone().into_iter().collect::<Vec<_>>() == values, "order of the cells of a {}x{} grid", w, h);
            // Coordinates
            for y in 0..h + 2 {
                for x in 0..w + 2 {
                    let index = Index2D::new(x, y, w);
                    let inside = x < w && y < h;
                    let want = inside.then(|| values[y * w + x]);
                    ensure!(grid.get(index).copied() == want, "cell ({}, {}) of a {}x{} grid is {:?}", x, y, w, h, grid.get(index));
                    ensure!(grid.get_mut(index).copied() == want, "mutable cell ({}, {}) of a {}x{} grid", x, y, w, h);
                    ensure!(index.to_index_checked(&grid) == inside.then_some(y * w + x), "running index of ({}, {}) in a {}x{} grid is {:?}", x, y, w, h, index.to_index_checked(&grid));
                    ensure!(<(usize, usize)>::from(index) == (x, y), "coordinates of an index");
                    // An index of a grid with another width is not an index of this grid
                    let other = Index2D::new(x, y, w + 1);
                    ensure!(grid.get(other).is_none() && other.to_index_checked(&grid).is_none(), "an index of a grid of width {} works in width {}", w + 1, w);
                    if inside {
                        ensure!(index.to_index() == y * w + x, "running index of ({}, {})", x, y);
                        let again = Index2D::from_index(y * w + x, &grid);
                        ensure!(again == index, "index {} of a {}x{} grid is {:?}", y * w + x, w, h, again);
                        for (dx, dy) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 3), (w, 0), (0, h), (usize::MAX, 0), (0, usize::MAX)] {
                            let plus = index.add_checked((dx, dy), &grid).map(|v| (v.x, v.y));
                            let want = x.checked_add(dx).zip(y.checked_add(dy)).filter(|(x, y)| *x < w && *y < h);
                            ensure!(plus == want, "({}, {}) + ({}, {}) in a {}x{} grid is {:?}", x, y, dx, dy, w, h, plus);
                            let minus = index.sub_checked((dx, dy), &grid).map(|v| (v.x, v.y));
                            let want = x.checked_sub(dx).zip(y.checked_sub(dy));
                            ensure!(minus == want, "({}, {}) - ({}, {}) in a {}x{} grid is {:?}", x, y, dx, dy, w, h, minus);
                        }
                    }
                    mon.count("coordinates");
                }
            }
            for beyond in [w * h, w * h + 1, w * h + w] {
                ensure!(grid.get(Index2D::from_index(beyond, &grid)).is_none(), "cell {} of a {}x{} grid exists", beyond, w, h);
            }
            if w * h > 0 {
                let (x, y) = (rng.below(w), rng.below(h));
                let old = grid.set(Index2D::new(x, y, w), 1_000_000);
                ensure!(old == Some(values[y * w + x]), "setting a cell returns {:?}", old);
                let mut changed = values.clone();
                changed[y * w + x] = 1_000_000;
                ensure!(grid.values().cloned().collect::<Vec<_>>() == changed, "setting cell ({}, {}) of a {}x{} grid changes the wrong cells", x, y, w, h);
                grid.set(Index2D::new(x, y, w), values[y * w + x]);
                ensure!(grid.set(Index2D::new(w, 0, w), 0).is_none() && grid.set(Index2D::new(0, h, w), 0).is_none(), "setting a cell outside");
                ensure!(grid.values().cloned().collect::<Vec<_>>() == values, "setting a cell outside changes the grid");
            }
            // Rectangles
            let n = w * h;
            let pairs: Vec<(usize, usize)> = if n <= 20 {
                (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect()
            } else {
                (0..if n > 10_000 { 4 } else if n > 100 { 25 } else { 150 }).map(|_| (rng.below(n), rng.below(n))).collect()
            };
            let table = InputTree::new(InputRow::new(vec![InputNode::table(
                (0..n).map(|i| InputRow::new(vec![InputNode::symbol(i.to_string())])).collect(), w)]));
            for (a, b) in pairs {
                let (ia, ib) = (Index2D::from_index(a, &grid), Index2D::from_index(b, &grid));
                let rect = GridRectangle::from_indices_inclusive(ia, ib, &grid);
                let (x0, x1) = ((a % w).min(b % w), (a % w).max(b % w));
                let (y0, y1) = ((a / w).min(b / w), (a / w).max(b / w));
                let (vw, vh) = (x1 - x0 + 1, y1 - y0 + 1);
                mon.distinct(&(w, h, a, b));
                mon.count("rectangles");
                let what = format!("rectangle of cells {} and {} in a {}x{} grid", a, b, w, h);
                ensure!(!rect.is_empty(), "{} is empty", what);
                ensure!(<(usize, usize)>::from(rect.start_index()) == (x0, y0), "{} starts at {:?}", what, rect.start_index());
                ensure!(rect.end_index_inclusive().map(<(usize, usize)>::from) == Some((x1, y1)), "{} ends at {:?}", what, rect.end_index_inclusive());
                ensure!(rect.size() == (vw, vh) && rect.width() == vw && rect.height() == vh, "{} has size {:?}", what, rect.size());
                ensure!(rect == GridRectangle::from_indices_inclusive(ib, ia, &grid), "{} depends on the order of the cells", what);
                let view = grid.get_view(rect);
                ensure!(view.size() == (vw, vh) && !view.is_empty(), "view of {} has size {:?}", what, view.size());
                for y in 0..vh + 2 {
                    for x in 0..vw + 2 {
                        let got = view.get(Index2D::new(x, y, view.width())).copied();
                        let want = (x < vw && y < vh).then(|| values[(y0 + y) * w + x0 + x]);
                        ensure!(got == want, "view of {} shows {:?} at ({}, {}) instead of {:?}", what, got, x, y, want);
                        if want.is_some() {
                            ensure!(view.get(Index2D::from_index(y * vw + x, &view)).copied() == want, "view of {} by running index", what);
                        }
                        mon.count("view cells");
                    }
                }
                let selection = InputGridRange::new(table.root_focus().child_at(0).unwrap(), rect);
                ensure!(selection.top_left_index() == (x0, y0) && selection.bottom_right_index() == Some((x1, y1)) && !selection.is_collapsed(), "selection of {}", what);
                mon.sample(|| format!("{}: ({}, {})..=({}, {})", what, x0, y0, x1, y1));
            }
            if n > 0 {
                let at = rng.below(n);
                let empty = GridRectangle::new(at..at, w);
                ensure!(empty.is_empty() && empty.end_index_inclusive().is_none(), "an empty rectangle is not empty");
                ensure!(empty.size() == (0, 0) && empty.width() == 0 && empty.height() == 0, "an empty rectangle has size {:?}", empty.size());
            }
            Ok(())
        },
        probe: None,
        assumptions: &["grids have at least one column"],
    }
}
