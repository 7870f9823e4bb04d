// Formulas as the editor gives them out, and an independent reader of rendered formulas
import { FakeElement, FakeNode, FakeText, type Box } from "./dom";
import { Rng } from "./rng";

export type Sym = { Symbol: string };
export type Cont = { Container: [string, { values: Row[]; width: number }] };
export type MNode = Sym | Cont;
export type Row = { values: MNode[] };
/** Indices of the containers and of the rows in them */
export type Path = [number, number][];

export const sym = (s: string): Sym => ({ Symbol: s });
export const row = (values: MNode[] = []): Row => ({ values });
export const cont = (kind: string, width: number, values: Row[]): Cont => ({ Container: [kind, { values, width }] });
export const isSym = (n: MNode): n is Sym => "Symbol" in n;

export function show(r: Row): string {
  return r.values.map((n) => (isSym(n) ? JSON.stringify(n.Symbol) : `${n.Container[0]}<${n.Container[1].width}>${n.Container[1].values.map((v) => `[${show(v)}]`).join("")}`)).join(" ");
}
export function allRows(r: Row, path: Path = []): { path: Path; row: Row }[] {
  const out = [{ path, row: r }];
  r.values.forEach((n, i) => {
    if (!isSym(n)) n.Container[1].values.forEach((inner, j) => out.push(...allRows(inner, [...path, [i, j]])));
  });
  return out;
}
export function rowAt(r: Row, path: Path): Row | null {
  for (const [i, j] of path) {
    const n = r.values[i];
    if (!n || isSym(n) || !n.Container[1].values[j]) return null;
    r = n.Container[1].values[j];
  }
  return r;
}

/** Sizes a container must have: width, height or null for any */
const SHAPES: Record<string, [number, number] | null> = { Fraction: [1, 2], Root: [2, 1], Sup: [1, 1], Sub: [1, 1], Table: null };
/** What is wrong with a formula? */
export function invalid(value: any): string | null {
  const isObject = (v: any, keys: string[]) => v !== null && typeof v === "object" && !Array.isArray(v) && Object.keys(v).sort().join() === keys.sort().join();
  if (!isObject(value, ["values"]) || !Array.isArray(value.values)) return "no row: " + JSON.stringify(value);
  for (const n of value.values) {
    if (isObject(n, ["Symbol"])) {
      if (typeof n.Symbol !== "string" || n.Symbol === "") return "no symbol: " + JSON.stringify(n);
    } else if (isObject(n, ["Container"])) {
      const [kind, grid] = n.Container;
      if (!(kind in SHAPES)) return "no container: " + JSON.stringify(kind);
      if (!isObject(grid, ["values", "width"]) || !Array.isArray(grid.values)) return "no grid: " + JSON.stringify(grid);
      const { values, width } = grid;
      if (!Number.isInteger(width) || width < 1 || values.length === 0 || values.length % width !== 0) return `a ${kind} of width ${width} with ${values.length} rows`;
      const shape = SHAPES[kind];
      if (shape && (shape[0] !== width || shape[0] * shape[1] !== values.length)) return `a ${kind} of width ${width} with ${values.length} rows`;
      for (const r of values) {
        const e = invalid(r);
        if (e) return e;
      }
    } else {
      return "no element of a formula: " + JSON.stringify(n);
    }
  }
  return null;
}

// ---- What is on the screen ----

export type ShownRow = { items: ShownItem[]; element: FakeNode | null };
export type ShownItem = { text: FakeText } | { kind: string; width: number; rows: ShownRow[]; element: FakeElement };

/** Stands for "nothing" or "something is missing" */
const PLACEHOLDER = /^(⬚|\xA0+)$/;
const GROUPS = ["math", "mrow", "mstyle", "mpadded", "mtd"];
const TOKENS = ["mi", "mn", "mo", "mtext", "ms", "mspace", "merror"];

/** The first elements of all rows, with all elements of the row */
export type RowStarts = Map<any, FakeElement[]>;

export function readShown(node: FakeNode, starts: RowStarts): ShownItem[] {
  if (!(node instanceof FakeElement)) return [];
  const kids = node.children;
  const name = node.localName.toLowerCase();
  const asRow = (e: FakeElement): ShownRow => ({ items: readShown(e, starts), element: e });
  const expect = (n: number) => {
    if (kids.length !== n) throw new Error(`<${name}> with ${kids.length} children`);
  };
  if (TOKENS.includes(name)) {
    return node.childNodes.flatMap((c): ShownItem[] => (c instanceof FakeText ? (PLACEHOLDER.test(c.data) ? [] : [{ text: c }]) : readShown(c, starts)));
  }
  if (GROUPS.includes(name)) return kids.flatMap((k) => readShown(k, starts));
  switch (name) {
    case "mphantom":
      return [];
    case "mfrac":
      expect(2);
      return [{ kind: "Fraction", width: 1, rows: kids.map(asRow), element: node }];
    case "mroot":
      expect(2);
      return [{ kind: "Root", width: 2, rows: [asRow(kids[1]), asRow(kids[0])], element: node }];
    case "msup":
    case "msub":
      expect(2);
      return [...readShown(kids[0], starts), ...readScript(kids[1], name === "msup" ? "Sup" : "Sub", starts)];
    case "mtable": {
      const width = kids[0]?.children.length ?? 0;
      for (const tr of kids) {
        if (tr.localName !== "mtr" || tr.children.length !== width || tr.children.some((td) => td.localName !== "mtd")) throw new Error("a ragged <mtable>");
      }
      return [{ kind: "Table", width, rows: kids.flatMap((tr) => tr.children).map(asRow), element: node }];
    }
  }
  throw new Error(`<${name}> on the screen`);
}
/** The script is one row, but the spaces around it that belong to the outer row are drawn next to it */
function readScript(e: FakeElement, kind: string, starts: RowStarts): ShownItem[] {
  const row = starts.get(e);
  if (row) return [{ kind, width: 1, rows: [{ items: row.flatMap((r) => readShown(r, starts)), element: e }], element: row.length === 1 ? e : e.parentElement! }];
  const kids = e.children;
  const at = kids.findIndex((k) => [...starts.keys()].some((s) => k.contains(s)));
  if (at < 0 || !GROUPS.includes(e.localName)) throw new Error(`no script in <${e.localName}>`);
  const script = readScript(kids[at], kind, starts);
  const rowLength = starts.get(kids[at])?.length ?? 1;
  return [...kids.slice(0, at).flatMap((k) => readShown(k, starts)), ...script, ...kids.slice(at + rowLength).flatMap((k) => readShown(k, starts))];
}
/** Comparable forms: text between containers, however it is divided */
export function normalShown(items: ShownItem[]): any[] {
  const out: any[] = [];
  for (const item of items) {
    if ("text" in item) typeof out[out.length - 1] === "string" ? (out[out.length - 1] += item.text.data) : out.push(item.text.data);
    else out.push([item.kind, item.width, ...item.rows.map((r) => normalShown(r.items))]);
  }
  return out.filter((v) => v !== "");
}
export function normal(r: Row): any[] {
  const out: any[] = [];
  for (const n of r.values) {
    if (isSym(n)) typeof out[out.length - 1] === "string" ? (out[out.length - 1] += n.Symbol) : out.push(n.Symbol);
    else out.push([n.Container[0], n.Container[1].width, ...n.Container[1].values.map(normal)]);
  }
  return out.filter((v) => v !== "");
}
export function shownRowAt(r: ShownRow, path: Path): ShownRow | null {
  for (const [i, j] of path) {
    const item = r.items[i];
    if (!item || "text" in item) return null;
    r = item.rows[j];
    if (!r) return null;
  }
  return r;
}
export function boxOfItem(item: ShownItem): Box {
  const range = (globalThis as any).document.createRange();
  if ("text" in item) {
    range.selectNode(item.text);
    const b = range.getBoundingClientRect();
    return { x: b.x, y: b.y, w: b.width, h: b.height };
  }
  const b = item.element.getBoundingClientRect();
  return { x: b.x, y: b.y, w: b.width, h: b.height };
}

// ---- Random formulas ----

const LETTERS = [..."abcxyzABZ"];
const DIGITS = [..."0123456789."];
const OPERATORS = ["+", "-", "*", "=", "<", ">", "≥", "≤", "!", ",", "∧", "∨", "¬", "⇔", "⇒", "⟹", "⊤", "⊥", "/", "∑", "∫", "∞", "≔", ";", "|", "&", "'"];
const ODD = ["é", "e\u0301", "👨‍👩‍👧", "한", "𝔸", "]", "[", "}", "\\", "_"];
const WORDS = ["lim", "limsup", "sum", "int", "true", "false", "sin", "and", "infinity"];

export class FormulaGen {
  private brackets = 0;
  constructor(private rng: Rng, private size: number, private plain = false) {}

  row(depth = 0): Row {
    const rng = this.rng;
    const max = Math.max(1, Math.round((2 + this.size / 10) / (depth + 1)));
    const values: MNode[] = [];
    const n = rng.oneIn(8) ? 0 : rng.between(depth === 0 ? 1 : 0, max) + (depth < 2 && rng.oneIn(300) ? rng.between(30, 90) : 0);
    while (values.length < n) values.push(...this.some(depth));
    return row(values);
  }
  some(depth: number): MNode[] {
    const rng = this.rng;
    if (depth < 3 && rng.percent(depth === 0 ? 35 : 25)) return [this.container(depth)];
    if (this.plain) return [sym(rng.pick(LETTERS))];
    switch (rng.below(12)) {
      case 0: case 1: case 2: return [sym(rng.pick(LETTERS))];
      case 3: case 4: return Array.from({ length: rng.between(1, 4) }, () => sym(rng.pick(DIGITS)));
      case 5: case 6: return [sym(rng.pick(OPERATORS))];
      case 7: return [sym(rng.pick(ODD))];
      case 8: return [...rng.pick(WORDS)].map(sym);
      case 9: return [sym(" ")];
      case 10: {
        if (this.brackets >= 4) return [sym(rng.pick(DIGITS))];
        this.brackets++;
        if (rng.oneIn(5)) return [sym(rng.pick(["(", ")"]))];
        return [sym("("), ...(rng.oneIn(6) ? [] : this.some(depth + 1)), ...(rng.oneIn(3) ? [sym(","), ...this.some(depth + 1)] : []), sym(")")];
      }
      default: {
        const text = Array.from({ length: rng.below(4) }, () => sym(rng.pick(["a", " ", "+", "é"])));
        return [sym('"'), ...text, ...(rng.oneIn(5) ? [] : [sym('"')])];
      }
    }
  }
  container(depth: number): MNode {
    const rng = this.rng;
    const inner = () => this.row(depth + 1);
    switch (rng.below(6)) {
      case 0: case 1: return cont("Fraction", 1, [inner(), inner()]);
      case 2: return cont("Root", 2, [inner(), inner()]);
      case 3: return cont("Sup", 1, [inner()]);
      case 4: return cont("Sub", 1, [inner()]);
      default: {
        if (rng.oneIn(15)) {
          // Large, with little in it
          const w = rng.between(1, 14), h = rng.between(1, Math.max(2, 30 / w));
          return cont("Table", w, Array.from({ length: w * h }, () => row(rng.oneIn(3) ? [] : [sym(rng.pick(LETTERS))])));
        }
        const w = rng.between(1, 3), h = rng.between(1, 3);
        return cont("Table", w, Array.from({ length: w * h }, inner));
      }
    }
  }
}
