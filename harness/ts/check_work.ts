// C41: how the work on the page grows with the size of the formula
import * as inspector from "node:inspector";
import * as fs from "node:fs";
import { document, FakeElement, layoutOptions, MATH_NS } from "./dom";
import { fromElement } from "repo:mathml/parsing";
import { RowIndices } from "repo:input-tree/row-indices";
import { getNodeWithRowIndices } from "repo:core/index";
import { cont, FormulaGen, row, show, sym, type MNode, type Path, type Row } from "./model";
import { ensure, type Check, type Mon } from "./mon";
import type { Rng } from "./rng";
import { render } from "./check_render";

// ---- Counting: V8 counts how often every block of the code under test is executed ----

let session: inspector.Session | undefined;
/** Which parts of the bundle are the code under test */
let own: [number, number][] = [];
const post = (method: string, params: any = {}): any => {
  let result: any;
  session!.post(method as any, params, (error: any, r: any) => {
    if (error) throw new Error(`${method}: ${error.message}`);
    result = r;
  });
  return result;
};
function start() {
  session = new inspector.Session();
  session.connect();
  const file = process.argv[1];
  const bundle = fs.readFileSync(file, "utf8");
  // The bundler names every file in a line of its own
  let from = -1;
  for (const m of bundle.matchAll(/^\/\/ (\S+\.(?:ts|js|mjs))$/gm)) {
    if (from >= 0) own.push([from, m.index]);
    from = m[1].includes("harness/ts/") ? -1 : m.index;
  }
  if (from >= 0) own.push([from, bundle.length]);
  post("Profiler.enable");
  post("Profiler.startPreciseCoverage", { callCount: true, detailed: true });
}
function blocks(): number {
  let sum = 0;
  for (const script of post("Profiler.takePreciseCoverage").result) {
    if (!script.url.endsWith("/bundle.mjs")) continue;
    for (const f of script.functions) {
      const at = f.ranges[0].startOffset;
      if (!own.some(([a, b]) => a <= at && at < b)) continue;
      for (const r of f.ranges) sum += r.count;
    }
  }
  return sum;
}
type Work = Map<string, number>;
function count(work: Work, what: string, run: () => void) {
  blocks();
  run();
  work.set(what, Math.max(work.get(what) ?? 0, blocks()));
}

// ---- Formulas that grow ----

type Spot = { path: Path; offset: number };
type Family = { name: string; nested: boolean; of: (n: number) => Row; spots: (n: number) => Spot[] };

/** MathML that grows, from more elements than the editor writes */
function mathml(rng: Rng): { text: string; of: (n: number) => any } {
  const tags: [string, number][] = [["mrow", 0], ["mstyle", 0], ["semantics", 1], ["mfrac", 2], ["msqrt", 0], ["mroot", 2], ["msub", 2], ["msup", 2], ["msubsup", 3], ["munder", 2], ["mover", 2], ["munderover", 3], ["mtable", 0], ["mpadded", 0]];
  const element = (tag: string, children: any[]) => {
    const e = document.createElementNS(MATH_NS, tag);
    e.append(...children);
    return e;
  };
  const leaf = (name: string) => element(name, [document.createTextNode("x")]);
  const tokens = Array.from({ length: 5 }, () => rng.pick(["mi", "mn", "mo", "mtext", "ms"]));
  const [tag, arity] = rng.pick(tags);
  const other = rng.bool() ? rng.pick(tags) : null;
  const around = (tag: string, arity: number, inner: any[], at: number) => {
    const tokensOf = (n: number) => tokens.slice(0, n).map(leaf);
    if (tag === "mtable") return element("mtable", [element("mtr", [element("mtd", inner), element("mtd", tokensOf(1))])]);
    if (arity === 0) return element(tag, [...tokensOf(at % 3), ...inner, ...tokensOf(at % 2)]);
    const children = tokensOf(arity);
    children[at % arity] = inner.length === 1 ? inner[0] : element("mrow", inner);
    return element(tag, children);
  };
  const at = rng.below(6);
  const nested = rng.bool();
  return {
    text: `${nested ? "nested" : "repeated"} ${tag}${other ? " in " + other[0] : ""} ${at} ${tokens.slice(0, 3)}`,
    of: (n) => {
      const one = (inner: any[]) => [around(tag, arity, inner, at)].map((e) => (other ? around(other[0], other[1], [e], at) : e));
      if (!nested) return element("math", Array.from({ length: n }, () => one([leaf(tokens[0])])).flat());
      let inner = [leaf(tokens[0])];
      for (let i = 0; i < n; i++) inner = one(inner);
      return element("math", inner);
    },
  };
}

function family(rng: Rng, size: number): Family {
  const piece = (): MNode[] => {
    const gen = new FormulaGen(rng, Math.round(size / 2));
    for (;;) {
      const values = Array.from({ length: rng.between(1, 3) }, () => gen.some(1)).flat();
      // Unclosed brackets take exponential time to parse (finding of C23)
      if (!JSON.stringify(values).match(/"[()]"/)) return values;
    }
  };
  const some = () => (rng.oneIn(3) ? [] : piece());
  const pick = rng.below(1000);
  const three = (n: number, spot: (k: number) => Spot) => [0, n >> 1, n - 1].map(spot);
  switch (rng.below(8)) {
    case 0: case 1: case 2: {
      const values = piece();
      return {
        name: "repeated pieces", nested: false,
        of: (n) => row(Array.from({ length: n }, () => values).flat()),
        spots: (n) => three(n, (k) => ({ path: [], offset: k * values.length + pick % (values.length + 1) })),
      };
    }
    case 3: case 4: case 5: {
      const [kind, width, cells] = rng.pick<[string, number, number]>([["Fraction", 1, 2], ["Root", 2, 2], ["Sup", 1, 1], ["Sub", 1, 1], ["Table", 1, 1], ["Table", 2, 4], ["Table", 1, 2], ["Table", 3, 3]]);
      const at = rng.below(cells);
      const [before, behind] = [some(), some()];
      return {
        name: "nested containers", nested: true,
        of: (n) => {
          let inner = row([sym("x")]);
          for (let i = 0; i < n; i++) inner = row([...before, cont(kind, width, Array.from({ length: cells }, (_, j) => (j === at ? inner : row()))), ...behind]);
          return inner;
        },
        spots: (n) => three(n, (k) => ({ path: Array.from({ length: k }, (): [number, number] => [before.length, at]), offset: pick % (before.length + behind.length + 2) })),
      };
    }
    case 6: {
      const before = [...rng.pick(["", "a+", "f", "-", "1-", "a,"])].map(sym);
      return {
        name: "nested brackets", nested: true,
        of: (n) => {
          let inner: MNode[] = [sym("x")];
          for (let i = 0; i < n; i++) inner = [...before, sym("("), ...inner, sym(")")];
          return row(inner);
        },
        spots: (n) => three(n, (k) => ({ path: [], offset: k * (before.length + 1) + pick % (before.length + 2) })),
      };
    }
    default: {
      const cell = some(), rows = rng.bool();
      return {
        name: "tables", nested: false,
        of: (n) => row([cont("Table", rows ? 2 : n, Array.from({ length: 2 * n }, () => row(cell)))]),
        spots: (n) => three(n, (k) => ({ path: [[0, rows ? 2 * k : k]], offset: pick % (cell.length + 1) })),
      };
    }
  }
}

function measure(formula: Row, spots: Spot[], imported: any): Work {
  const work: Work = new Map();
  count(work, "reading other MathML", () => { fromElement(imported); });
  let shown: any;
  count(work, "showing a formula", () => { shown = render(formula); });
  const { result, syntaxTree } = shown;
  const math = document.createElementNS(MATH_NS, "math");
  const holder: FakeElement = result.getElement(RowIndices.default()).getElements()[0].parentElement;
  math.append(...holder.childNodes.map((c: any) => c.cloneNode(true)));
  count(work, "reading MathML", () => { fromElement(math as any); });
  for (const { path, offset } of spots) {
    const indices = new RowIndices(path);
    let caret: any;
    count(work, "looking up a caret", () => { caret = result.getViewportSelection({ indices, start: offset, end: offset }); });
    count(work, "looking up a row", () => { getNodeWithRowIndices(syntaxTree, indices as any); });
    count(work, "looking up the area of a row", () => { result.getViewportRowBounds(indices); result.getViewportCaretSize(indices); });
    const last = result.getElement(indices).syntaxTree.range.end;
    for (const [start, end] of [[0, last], [0, offset], [last, offset]]) {
      count(work, "looking up a selection", () => { result.getViewportSelection({ indices, start, end }); });
    }
    count(work, "clicking", () => { result.getLayoutPosition({ x: caret.rect.x, y: caret.rect.y }); });
  }
  const b = holder.getBoundingClientRect();
  count(work, "clicking", () => { result.getLayoutPosition({ x: b.x - 1, y: b.y + b.height / 2 }); });
  count(work, "clicking", () => { result.getLayoutPosition({ x: b.x + b.width + 1, y: b.y + b.height + 1 }); });
  return work;
}

export const C41: Check = {
  rule: "random pieces of formulas, repeated next to each other, as rows or columns of a table, or nested into each other in containers and in round brackets, at four sizes of which each is twice the one before; V8 counts how often every block of the application's code is executed when the formula is shown and read back from MathML, when other MathML that is nested or repeated in the same way is read, and when carets, rows, selections and clicks are looked up at several places. The work may at most become (nearly) four times as much when the size doubles. Distinct: different families of formulas.",
  assumptions: ["the work inside of the DOM and of JavaScript's built-in functions is not counted"],
  run(rng, size, mon) {
    if (!session) start();
    layoutOptions.scale = 1;
    const f = family(rng, size);
    const m = mathml(rng);
    mon.note(`${f.name}: ${show(f.of(2))}, and MathML of ${m.text}`);
    // Small sizes come first, so that exponential work is noticed before it takes forever
    const sizes = [f.nested ? 2 : rng.between(2, 4 + size / 16)];
    while (sizes.length < 4) sizes.push(2 * sizes.at(-1)!);
    const works: Work[] = [];
    for (const n of sizes) {
      const work = measure(f.of(n), f.spots(n), m.of(n));
      const steps = (what: string) => [...works.map((w) => w.get(what)), work.get(what)].join(", ") + ` steps for ${sizes.slice(0, works.length + 1)} repetitions`;
      ensure(work.get("showing a formula")! > 0, () => "the work is not counted");
      for (const [what, c] of work) {
        const [a, b] = [works.at(-2)?.get(what), works.at(-1)?.get(what)];
        if (b !== undefined) ensure(c < 2_000 || c < b * 12, () => `${what} takes ${steps(what)}`);
        if (a !== undefined) ensure(c < 2_000 || c <= b! * 4.9 || c < a * 22, () => `${what} takes ${steps(what)}`);
        mon.count("blocks counted", c);
        mon.count(what);
      }
      works.push(work);
    }
    mon.count(f.name);
    mon.distinct(show(f.of(sizes[0] + 1)) + m.text);
    mon.sample(`${f.name}: ${show(f.of(2))}: ${works.map((w) => w.get("showing a formula"))} steps for showing it`);
  },
};
