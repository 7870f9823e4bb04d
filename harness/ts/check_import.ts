// C31: importing MathML
import { document, FakeElement, FakeText, MATH_NS } from "./dom";
import { fromElement } from "repo:mathml/parsing";
import { call, setup } from "./pkg";
import { cont, invalid, isSym, row, show, sym, type MNode, type Row } from "./model";
import { ensure, type Check, type Mon } from "./mon";
import type { Rng } from "./rng";

/** What an element should become. `null` stands for whatever shows that there was an error. */
export type Out = (MNode | null | Hole)[];
/** A container with rows that may have errors in them */
type Hole = { kind: string; width: number; rows: Out[] };

const GRAPHEMES = [..."abcxyzXYZ0123456789+-=<>,.()[]{}|/^_'\"&", "é", "e\u0301", "ü", "한", "👨‍👩‍👧", "🇩🇪", "👍🏽", "∑", "∞", "𝔸", "ﬁ", "Å", "⬚", "\u212B"];
const BAD = ["mspace", "menclose", "mphantom", "mpadded", "mfenced", "maction", "mmultiscripts", "annotation", "none", "foo", "div", "mtr", "mlabeledtr"];

export class Gen {
  bad = 0;
  constructor(private rng: Rng, private size: number, private withErrors: boolean) {}

  el(name: string, children: (FakeElement | FakeText)[] = []): FakeElement {
    const e = document.createElementNS(MATH_NS, name);
    const token = ["mi", "mn", "mo", "mtext", "ms"].includes(name);
    for (const c of children) {
      // The source has line breaks between elements
      if (!token && this.rng.oneIn(8)) e.append(new FakeText(this.rng.pick(["\n  ", " ", "\t"])));
      e.append(c);
    }
    if (this.rng.oneIn(10)) e.setAttribute(this.rng.pick(["mathvariant", "stretchy", "class", "values"]), this.rng.pick(["normal", "false", "x"]));
    return e;
  }
  text(max: number): { text: string; graphemes: string[] } {
    const graphemes = Array.from({ length: this.rng.between(0, max) }, () => this.rng.pick(GRAPHEMES));
    if (graphemes.length > 2 && this.rng.oneIn(4)) graphemes[1] = this.rng.pick([" ", " ", "\u00A0", "\t"]);
    if (graphemes.length > 3 && this.rng.oneIn(4)) graphemes[2] = " ";
    // Two flags next to each other are fine, but nothing may combine
    return { text: this.rng.pick(["", "", " ", "\n "]) + graphemes.join("") + this.rng.pick(["", "", " ", "\n"]), graphemes };
  }
  token(name: string): { e: FakeElement; out: Out } {
    const { text, graphemes } = this.text(name === "mtext" || name === "ms" ? 6 : this.rng.oneIn(4) ? 4 : 1);
    const symbols = graphemes.map((g) => sym(g.normalize("NFD")));
    const parts = text.length > 1 && this.rng.oneIn(6) ? [text] : [text];
    const e = this.el(name, parts.map((p) => new FakeText(p)));
    return { e, out: name === "mtext" || name === "ms" ? [sym('"'), ...symbols, sym('"')] : symbols };
  }
  many(depth: number): { es: FakeElement[]; out: Out } {
    const max = Math.max(1, Math.round((1 + this.size / 12) / (depth + 1)));
    const parts = Array.from({ length: this.rng.oneIn(6) ? 0 : this.rng.between(1, max) }, () => this.any(depth));
    return { es: parts.map((p) => p.e), out: parts.flatMap((p) => p.out) };
  }
  any(depth: number): { e: FakeElement; out: Out } {
    const rng = this.rng;
    if (this.withErrors && rng.oneIn(14)) return this.wrong(depth);
    if (depth >= 5 || rng.percent(45)) return this.token(rng.pick(["mi", "mi", "mn", "mo", "mtext", "ms"]));
    const one = () => this.any(depth + 1);
    const group = (name: string) => {
      const { es, out } = this.many(depth + 1);
      return { e: this.el(name, es), out };
    };
    const c = (kind: string, width: number, ...rows: Out[]): Hole => ({ kind, width, rows });
    switch (rng.below(14)) {
      case 0: case 1: return group("mrow");
      case 2: return group("mstyle");
      case 3: {
        const [a, b] = [one(), one()];
        return { e: this.el("mfrac", [a.e, b.e]), out: [c("Fraction", 1, a.out, b.out)] };
      }
      case 4: {
        const { es, out } = this.many(depth + 1);
        return { e: this.el("msqrt", es), out: [c("Root", 2, [sym("2")], out)] };
      }
      case 5: {
        const [base, index] = [one(), one()];
        return { e: this.el("mroot", [base.e, index.e]), out: [c("Root", 2, index.out, base.out)] };
      }
      case 6: case 7: {
        const [a, b] = [one(), one()];
        const name = rng.pick(["msub", "munder"]);
        return { e: this.el(name, [a.e, b.e]), out: [...a.out, c("Sub", 1, b.out)] };
      }
      case 8: case 9: {
        const [a, b] = [one(), one()];
        const name = rng.pick(["msup", "mover"]);
        return { e: this.el(name, [a.e, b.e]), out: [...a.out, c("Sup", 1, b.out)] };
      }
      case 10: {
        const [a, b, d] = [one(), one(), one()];
        const name = rng.pick(["msubsup", "munderover"]);
        return { e: this.el(name, [a.e, b.e, d.e]), out: [...a.out, c("Sub", 1, b.out), c("Sup", 1, d.out)] };
      }
      case 11: {
        const first = one();
        const rest = Array.from({ length: rng.below(3) }, () => this.el(rng.pick(["annotation", "annotation-xml"]), [new FakeText("x+1")]));
        return { e: this.el("semantics", [first.e, ...rest]), out: first.out };
      }
      default: {
        const large = rng.oneIn(20);
        const h = rng.between(1, large ? 12 : 3);
        const lines = Array.from({ length: h }, () => Array.from({ length: rng.between(0, large ? 13 : 3) }, () => this.many(large ? 5 : depth + 1)));
        if (lines.every((l) => l.length === 0)) lines[0].push(this.many(depth + 1));
        const width = Math.max(...lines.map((l) => l.length));
        const cells = lines.flatMap((l) => Array.from({ length: width }, (_, i) => l[i]?.out ?? []));
        const e = this.el("mtable", lines.map((l) => this.el("mtr", l.map((cell) => this.el("mtd", cell.es)))));
        return { e, out: [c("Table", width, ...cells)] };
      }
    }
  }
  /** Something that is no valid MathML, or not supported */
  wrong(depth: number): { e: FakeElement; out: Out } {
    this.bad++;
    const rng = this.rng;
    const children = (n: number) => Array.from({ length: n }, () => this.token("mi").e);
    const counts: Record<string, number> = { mfrac: 2, mroot: 2, msub: 2, msup: 2, munder: 2, mover: 2, msubsup: 3, munderover: 3 };
    switch (rng.below(4)) {
      case 0: {
        const name = rng.pick(BAD);
        return { e: this.el(name, children(rng.below(3))), out: [null] };
      }
      case 1: {
        // A table with something else in it, or with nothing at all
        const cell = () => this.el("mtd", children(1));
        const tr = () => this.el("mtr", [cell()]);
        const lines = rng.pick([[], [this.el("mtr")], [this.el("mtr"), this.el("mtr")], [tr(), this.el("mtd", children(1))], [this.el("mi")], [tr(), this.el("mtr", [this.el("mi")])]]);
        return { e: this.el("mtable", lines), out: [null] };
      }
      case 2:
        return { e: this.el("semantics"), out: [null] };
      default: {
        const name = rng.pick(Object.keys(counts));
        let n = rng.below(5);
        if (n === counts[name]) n++;
        return { e: this.el(name, children(n)), out: [null] };
      }
    }
  }
}

export function asRow(out: Out): Row {
  return row(out.map((o) => (o === null ? sym("?") : "kind" in o ? cont(o.kind, o.width, o.rows.map(asRow)) : o)));
}

/** Compares, where an error may have become anything */
export function matches(got: Row, want: Out, from = 0, at = 0): boolean {
  if (at === want.length) return from === got.values.length;
  const w = want[at];
  if (w === null) {
    for (let end = from; end <= got.values.length; end++) if (matches(got, want, end, at + 1)) return true;
    return false;
  }
  const g = got.values[from];
  if (!g) return false;
  if ("kind" in w) {
    if (isSym(g) || g.Container[0] !== w.kind || g.Container[1].width !== w.width || g.Container[1].values.length !== w.rows.length) return false;
    if (!g.Container[1].values.every((r, i) => matches(r, w.rows[i]))) return false;
  } else if (!isSym(g) || !isSym(w) || g.Symbol !== w.Symbol) {
    return false;
  }
  return matches(got, want, from + 1, at + 1);
}

export const C31: Check = {
  rule: "random MathML element trees (tokens with awkward characters and surrounding whitespace, rows, fractions, roots, all kinds of scripts, ragged tables, semantics, styles), a part of them with unknown elements, wrong numbers of children or broken tables. The generator knows what every element stands for; the imported formula is compared with that, checked by an independent validator and read by the real editor. Distinct: different element trees.",
  assumptions: ["the elements come from a small DOM of the harness instead of a browser", "characters are compared in their decomposed form (NFD), as the editor stores them"],
  run(rng, size, mon) {
    const withErrors = rng.oneIn(3);
    const g = new Gen(rng, size, withErrors);
    const { es, out } = g.many(0);
    const math = g.el("math", es);
    const source = math.outerHTML;
    mon.note(source);
    const result = fromElement(math as any);
    const got = result.root as any as Row;
    const problem = invalid(got);
    ensure(problem === null, () => `the import gives no formula: ${problem}`);
    ensure(matches(got, out), () => `imported ${show(got)} instead of ${show(asRow(out))}`);
    if (g.bad > 0) {
      ensure(result.errors.length > 0, () => "no error is reported");
      mon.count("documents with errors");
      mon.count("errors reported", result.errors.length);
    } else {
      ensure(result.errors.length === 0, () => `there is no error, but ${result.errors[0]}`);
      mon.count("documents without errors");
    }
    ensure(math.outerHTML === source, () => "the import changes the document");
    // And the editor takes it
    if (rng.oneIn(4) && size < 60) {
      const text = JSON.stringify(got);
      if ((text.match(/\(/g) ?? []).length < 5) {
        if (!setup.names) call("parser", ["core"], ["core"]);
        setup.names ??= [];
        call("parse", got);
        mon.count("formulas taken by the editor");
      }
    }
    for (const e of [math, ...math.querySelectorAll("*")]) mon.count("element " + e.localName);
    mon.distinct(source);
    mon.sample(`${source} => ${show(got)}`);
  },
};
