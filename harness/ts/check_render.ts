// C32: rendering. C33: carets and clicks
import { document, FakeElement, layoutOptions, MATH_NS, relayout } from "./dom";
import { MathMLRenderer, joinPathIdentifier } from "repo:mathml/renderer";
import { RowIndices } from "repo:input-tree/row-indices";
import { ModulesCreator, getNodeWithRowIndices } from "repo:core/index";
import { call } from "./pkg";
import { allRows, boxOfItem, FormulaGen, normal, normalShown, readShown, rowAt, show, shownRowAt, type Path, type Row, type ShownRow } from "./model";
import { ensure, type Check, type Mon } from "./mon";
import type { Rng } from "./rng";

let renderer: any;
const holder = document.createElement("math");
document.body.append(holder);

export function render(formula: Row) {
  renderer ??= new (MathMLRenderer as any)(new Map(Array.from(ModulesCreator.get_syntax_node_name_map().values as any, ([k, v]: any) => [joinPathIdentifier(k), v])));
  const syntaxTree = call("parse", formula);
  const result = renderer.renderAll({ errors: null, value: syntaxTree });
  const elements: FakeElement[] = result.getElement(RowIndices.default()).getElements();
  holder.replaceChildren(...elements);
  return { result, syntaxTree };
}
/** What an element on the screen shows of the formula */
export function shown(formula: Row, result: any, element: FakeElement = holder): ShownRow {
  const starts = new Map();
  for (const { path } of allRows(formula)) {
    if (path.length === 0) continue;
    const elements = result.getElement(new RowIndices(path)).getElements();
    starts.set(elements[0], elements);
  }
  return { items: readShown(element, starts), element };
}

/** Does the syntax tree node of the row belong to it? */
function checkCounterparts(formula: Row, result: any, syntaxTree: any, mon: Mon) {
  for (const { path, row } of allRows(formula)) {
    const indices = new RowIndices(path);
    const element = result.getElement(indices);
    const { range } = element.syntaxTree;
    ensure(range.start === 0 && range.end === row.values.length, () => `row ${JSON.stringify(path)} with ${row.values.length} elements is rendered as ${range.start}..${range.end}`);
    ensure(element.getElements().length > 0 && element.getElements().every((e: any) => e.isConnected), () => `row ${JSON.stringify(path)} is not on the screen`);
    ensure(getNodeWithRowIndices(syntaxTree, indices as any) === element.syntaxTree, () => `looking up row ${JSON.stringify(path)} in the syntax tree and in the rendered formula gives different ones`);
    mon.count("rows looked up");
  }
}

export const C32: Check = {
  rule: "random formulas (containers up to 3 deep, operators, brackets, strings, numbers, words, well-formed or not) parsed by the real parser and rendered by the real renderer into a small DOM; an independent reader reads the formula back from the element tree. Distinct: different formulas.",
  assumptions: ["a small DOM of the harness instead of a browser", "the symbols '⬚' and non-breaking space are left out, they mark missing parts"],
  run(rng, size, mon) {
    const formula = new FormulaGen(rng, size).row();
    mon.note(show(formula));
    const { result, syntaxTree } = render(formula);
    const want = JSON.stringify(normal(formula));
    const got = JSON.stringify(normalShown(shown(formula, result).items));
    ensure(got === want, () => `shows ${got} instead of ${want}`);
    checkCounterparts(formula, result, syntaxTree, mon);
    for (const e of holder.querySelectorAll("*")) mon.count("element " + e.localName);
    mon.distinct(want);
    mon.sample(`${show(formula)} => ${holder.innerHTML}`);
  },
};

const EPS = 1e-6;

type Caret = { path: Path; offset: number; x: number; y: number };

/** Checks where the carets of the whole formula are, and returns them */
export function checkCarets(formula: Row, result: any, screen: ShownRow, mon: Mon): Caret[] {
  const carets: Caret[] = [];
  for (const { path, row } of allRows(formula)) {
    const where = () => `in row ${JSON.stringify(path)} of ${show(formula)}`;
    const indices = new RowIndices(path);
    const bounds = result.getViewportRowBounds(indices);
    const size = result.getViewportCaretSize(indices);
    ensure(size > 0 && Number.isFinite(size), () => `the caret has size ${size} ${where()}`);
    const shownRow = shownRowAt(screen, path);
    ensure(shownRow, () => `nothing shown ${where()}`);
    const items = shownRow.items;
    const mapped = items.length === row.values.length;
    const boxes = mapped ? items.map(boxOfItem) : [];
    let last = -Infinity;
    for (let offset = 0; offset <= row.values.length; offset++) {
      const at = result.getViewportSelection({ indices, start: offset, end: offset });
      const { x, y, width, height } = at.rect;
      ensure([x, y, width, height].every(Number.isFinite), () => `caret ${offset} is nowhere ${where()}`);
      ensure(Math.abs(width) < EPS && Math.abs(height) < EPS, () => `caret ${offset} has an area ${where()}`);
      ensure(x >= last - EPS, () => `caret ${offset} is at ${x}, left of the one before at ${last}, ${where()}`);
      ensure(
        bounds.x - EPS <= x && x <= bounds.x + bounds.width + EPS && bounds.y - EPS <= y && y <= bounds.y + bounds.height + EPS,
        () => `caret ${offset} at ${x},${y} is outside of ${JSON.stringify(bounds)} ${where()}`
      );
      if (mapped) {
        const left = offset > 0 ? boxes[offset - 1] : null;
        const right = offset < boxes.length ? boxes[offset] : null;
        ensure(!left || left.x + left.w <= x + EPS, () => `caret ${offset} at ${x} is not right of the element before it, ${where()}`);
        ensure(!right || x <= right.x + EPS, () => `caret ${offset} at ${x} is not left of the element behind it, ${where()}`);
        mon.count("carets between their neighbours");
      }
      last = x;
      carets.push({ path, offset, x, y });
    }
  }
  return carets;
}

export function setLayout(rng: Rng) {
  layoutOptions.scale = rng.pick([1, 1, 0.5, 2.25]);
  layoutOptions.originX = rng.pick([0, 12.5, -300]);
  layoutOptions.originY = rng.pick([0, 100.25, -77]);
  layoutOptions.elseX = layoutOptions.originX + rng.pick([0, 0, 60, -31.5]);
  layoutOptions.elseY = layoutOptions.originY + rng.pick([0, 0, 45, -20.25]);
  relayout();
}

const far = (a: { x: number; y: number }, b: { x: number; y: number }) => Math.hypot(a.x - b.x, a.y - b.y);

const contains = (b: any, p: { x: number; y: number }, margin: number) => b.x - margin <= p.x && p.x <= b.x + b.width + margin && b.y - margin <= p.y && p.y <= b.y + b.height + margin;
const startsWith = (path: Path, prefix: Path) => JSON.stringify(path.slice(0, prefix.length)) === JSON.stringify(prefix);

export const C33: Check = {
  rule: "random formulas parsed, rendered and laid out by the small DOM of the harness at varying scales and places; all caret positions, random selections, and clicks on carets, on symbols and anywhere are looked up and compared with where the elements really are. Distinct: different (formula, layout) pairs.",
  assumptions: ["the layout of the harness (symbols next to each other, fractions and tables with a margin, scripts above or below the line) instead of a browser", "brackets are not stretched"],
  run(rng, size, mon) {
    const formula = new FormulaGen(rng, Math.round(size * 0.7)).row();
    mon.note(show(formula));
    setLayout(rng);
    const { result } = render(formula);
    const screen = shown(formula, result);
    const carets = checkCarets(formula, result, screen, mon);
    const caretOf = (path: any, offset: number) => carets.find((c) => JSON.stringify(c.path) === JSON.stringify(path) && c.offset === offset);

    const boundsOf = (path: Path) => result.getViewportRowBounds(new RowIndices(path));
    const lookUp = (point: { x: number; y: number }) => {
      const position = result.getLayoutPosition(point);
      const path = position.indices.indices;
      const at = rowAt(formula, path);
      ensure(at && Number.isInteger(position.offset) && 0 <= position.offset && position.offset <= at.values.length, () => `clicking at ${point.x},${point.y} gives ${JSON.stringify(path)}/${position.offset}, which is not in ${show(formula)}`);
      return { path, offset: position.offset, caret: caretOf(path, position.offset)! };
    };
    // Clicking on a caret gives a caret at that place. Where a caret lies on the edge of another row, that row may take the click.
    for (const caret of rng.oneIn(4) ? carets : Array.from({ length: 4 }, () => rng.pick(carets))) {
      const found = lookUp(caret);
      if (far(found.caret, caret) < EPS) {
        mon.count("clicks on carets");
        continue;
      }
      const first = found.path.findIndex((index: any, i: number) => JSON.stringify(index) !== JSON.stringify(caret.path[i]));
      const taken = first === -1 ? found.path.length < caret.path.length : contains(boundsOf(found.path.slice(0, first + 1)), caret, EPS);
      ensure(taken, () => `clicking on the caret ${JSON.stringify(caret)} gives ${JSON.stringify(found.caret)} in ${show(formula)}`);
      mon.count("clicks on carets, taken by a row touching it");
    }
    // Clicking on a symbol gives a caret next to it
    for (const { path, row } of allRows(formula)) {
      const items = shownRowAt(screen, path)!.items;
      if (items.length !== row.values.length || items.length === 0 || !rng.oneIn(2)) continue;
      const i = rng.below(items.length);
      if (!("text" in items[i])) continue;
      const box = boxOfItem(items[i]);
      if (box.w === 0) continue;
      const part = rng.pick([0.1, 0.3, 0.7, 0.9]);
      const found = lookUp({ x: box.x + box.w * part, y: box.y + box.h * rng.pick([0.2, 0.5, 0.8]) });
      // Symbols do not overlap with those of other rows in this layout
      ensure(
        JSON.stringify(found.path) === JSON.stringify(path) && found.offset === i + (part > 0.5 ? 1 : 0),
        () => `clicking on the ${part > 0.5 ? "right" : "left"} half of ${JSON.stringify(row.values[i])} (${i} in row ${JSON.stringify(path)}) gives ${JSON.stringify(found.path)}/${found.offset} in ${show(formula)}`
      );
      mon.count("clicks on symbols");
    }
    // Clicking anywhere
    for (let i = 0; i < 4; i++) {
      const b = holder.getBoundingClientRect();
      const s = layoutOptions.scale;
      const inside = rng.bool();
      const m = inside ? 0 : 40 * s;
      const point = { x: b.x - m + rng.float() * (b.width + 2 * m), y: b.y - m + rng.float() * (b.height + 2 * m) };
      const found = lookUp(point);
      if (!inside && (point.x < b.x || point.x > b.x + b.width || point.y < b.y || point.y > b.y + b.height)) {
        // Outside of everything, the closest caret of all
        const closest = Math.min(...carets.map((c) => far(c, point)));
        ensure(far(found.caret, point) <= closest + EPS, () => `clicking outside at ${point.x},${point.y} gives ${JSON.stringify(found.caret)}, there is a closer caret in ${show(formula)}`);
        mon.count("clicks outside");
      } else {
        // Stays in the innermost row around it, and is as close as the carets next to what is above or below
        const around = allRows(formula).filter(({ path }) => contains(boundsOf(path), point, -EPS));
        const edges = allRows(formula).some(({ path }) => contains(boundsOf(path), point, EPS) !== contains(boundsOf(path), point, -EPS));
        const innermost = around.reduce((a: any, b) => (a === null || b.path.length > a.path.length ? b : a), null);
        if (innermost && !edges && around.every(({ path }) => startsWith(innermost.path, path))) {
          ensure(startsWith(found.path, innermost.path), () => `clicking at ${point.x},${point.y} in row ${JSON.stringify(innermost.path)} gives ${JSON.stringify(found.caret)} in ${show(formula)}`);
          const items = shownRowAt(screen, innermost.path)!.items;
          const at = items.findIndex((item) => { const box = boxOfItem(item); return box.x + EPS < point.x && point.x < box.x + box.w - EPS; });
          if (items.length === innermost.row.values.length && at !== -1) {
            const box = boxOfItem(items[at]);
            if (box.y + EPS < point.y && point.y < box.y + box.h - EPS) {
              // On an element: next to it or inside of it
              const next = found.path.length === innermost.path.length ? found.offset === at || found.offset === at + 1 : found.path[innermost.path.length][0] === at;
              ensure(next, () => `clicking at ${point.x},${point.y} on element ${at} of row ${JSON.stringify(innermost.path)} gives ${JSON.stringify(found.caret)} in ${show(formula)}`);
              mon.count("clicks on elements");
            }
          }
          mon.count("clicks inside");
        }
      }
    }
    // The highlight of a selection
    for (let i = 0; i < 3; i++) {
      const { path, row } = rng.pick(allRows(formula));
      const [start, end] = [rng.between(0, row.values.length), rng.between(0, row.values.length)];
      if (start === end) continue;
      const rect = result.getViewportSelection({ indices: new RowIndices(path), start, end }).rect;
      const [l, r] = [Math.min(start, end), Math.max(start, end)];
      const where = () => `of ${l}..${r} in row ${JSON.stringify(path)} of ${show(formula)}`;
      ensure(Math.abs(rect.x - caretOf(path, l)!.x) < EPS && Math.abs(rect.x + rect.width - caretOf(path, r)!.x) < EPS, () => `the highlight ${JSON.stringify(rect)} does not go from caret to caret ${where()}`);
      const items = shownRowAt(screen, path)!.items;
      if (items.length === row.values.length) {
        for (const item of items.slice(l, r)) {
          const b = boxOfItem(item);
          ensure(b.x >= rect.x - EPS && b.x + b.w <= rect.x + rect.width + EPS && b.y >= rect.y - EPS && b.y + b.h <= rect.y + rect.height + EPS, () => `the highlight ${JSON.stringify(rect)} does not cover ${JSON.stringify(b)} ${where()}`);
        }
        // Nothing above or below what is selected (scripts can stand at something that is missing)
        const boxes = items.slice(l, r).map(boxOfItem);
        const [top, bottom] = [Math.min(...boxes.map((b) => b.y)), Math.max(...boxes.map((b) => b.y + b.h))];
        const scripts = row.values.slice(l, r).some((v: any) => v.Container?.[0] === "Sup" || v.Container?.[0] === "Sub");
        ensure(scripts || rect.y >= top - EPS && rect.y + rect.height <= bottom + EPS, () => `the highlight ${JSON.stringify(rect)} is higher than what it covers, ${top} to ${bottom}, ${where()}`);
        mon.count("highlights");
      }
    }
    mon.distinct(show(formula) + layoutOptions.scale + layoutOptions.originX);
    mon.sample(show(formula) + " :: " + carets.map((c) => `${c.path.join(";")}/${c.offset}@${c.x.toFixed(1)},${c.y.toFixed(1)}`).join(" "));
  },
};
