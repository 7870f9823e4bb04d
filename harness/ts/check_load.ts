// C35: getting formulas onto the page, and several editors on it
import * as path from "node:path";
import { pathToFileURL } from "node:url";
import { document, encode, FakeElement, FakeEvent, FakeNode, FakeText, forgetDefinitions, point, runTimers, uncaught } from "./dom";
import { RowIndices } from "repo:input-tree/row-indices";
import * as pkg from "./pkg";
import { asRow, Gen, matches, type Out } from "./check_import";
import { render, setLayout } from "./check_render";
import { rowAt, show, type Row } from "./model";
import { ensure, type Check, type Mon } from "./mon";
import type { Rng } from "./rng";

(globalThis as any).__pkg = pkg;
let pages = 0;

/** A <math> element as text, and what it stands for */
function mathml(rng: Rng, size: number): { text: string; out: Out } {
  for (;;) {
    const g = new Gen(rng, Math.min(size, 30), rng.oneIn(6));
    const { es, out } = g.many(1);
    const math = g.el("math", es);
    const text = math.outerHTML;
    // Unclosed brackets take the parser too long
    if ((text.match(/\(/g) ?? []).length < 5 && text.length < 3000) return { text, out };
  }
}

/** Something on the page */
type Item = { html: string; expect: Out | null };

function bindingsOf(editor: FakeElement): pkg.MathEditorBindings {
  const own = pkg.MathEditorBindings.all.filter((b) => b.owner === editor);
  ensure(own.length === 1, () => `${own.length} editors behind ${editor.outerHTML}`);
  return own[0];
}
const formulaOf = (b: pkg.MathEditorBindings): Row => pkg.call("get_input_tree", b.id);
const caretOf = (b: pkg.MathEditorBindings): string => JSON.stringify(pkg.call("get_caret", b.id));

function inShadow(editor: FakeElement, name: string): FakeElement {
  const found = editor.shadowRoot!.childNodes.flatMap((c) => (c instanceof FakeElement ? [c, ...c.querySelectorAll("*")] : [])).filter((e) => e.localName === name);
  ensure(found.length === 1, () => `${found.length} <${name}> in the editor`);
  return found[0];
}
/** The screen shows the formula, and the caret is somewhere in it */
function checkShown(editor: FakeElement, formula: Row) {
  const { result } = render(formula);
  const holder = result.getElement(RowIndices.default()).getElements()[0].parentElement as FakeElement;
  const is = inShadow(editor, "math").innerHTML;
  ensure(is === holder.innerHTML, () => `shows ${is} instead of ${holder.innerHTML}`);
  const [caret] = JSON.parse(caretOf(bindingsOf(editor)));
  if ("Row" in caret) {
    const at = rowAt(formula, caret.Row.row_indices);
    ensure(at !== null && Math.max(caret.Row.start, caret.Row.end) <= at.values.length, () => `the caret ${JSON.stringify(caret)} is outside of ${show(formula)}`);
  }
}
function noErrors(where: string) {
  const errors = uncaught.splice(0);
  ensure(errors.length === 0, () => `error ${where}: ${errors.map((e: any) => e?.stack ?? e).join("; ").split("\n").slice(0, 4).join(" ")}`);
}

/** The whole application starts on a page with formulas */
async function loadPage(rng: Rng, size: number, mon: Mon) {
  const items: Item[] = [];
  const one = (depth: number): string => {
    const kind = rng.below(12);
    const { text, out } = mathml(rng, size / 3);
    const marked = (extra = "") => {
      const item = { html: text.replace("<math", `<math${extra}`), expect: out };
      items.push(item);
      return item.html;
    };
    if (kind < 4) return marked(` data-editor="${rng.pick(["true", "", "false", "data-editor"])}"`);
    if (kind < 5) return marked(` display="block" style="color: red" data-editor="true" class="a b"`);
    if (kind < 7) return text;
    if (kind < 8) {
      items.push({ html: "", expect: out });
      return `<math-editor mathml="${encode(text)}"></math-editor>`;
    }
    if (kind < 9) return rng.pick([`<div data-editor="true">x</div>`, `<p>1 &lt; 2</p>`, `<span class="math">y</span>`]);
    if (kind < 10 || depth > 2) return encode(rng.pick(["text", " a & b ", "\n"]));
    const name = rng.pick(["div", "p", "section", "li"]);
    return `<${name}>${Array.from({ length: rng.below(4) }, () => one(depth + 1)).join("")}</${name}>`;
  };
  const restore = forgetDefinitions();
  const page = document.createElement("div");
  page.innerHTML = Array.from({ length: rng.between(1, 2 + Math.floor(size / 20)) }, () => one(0)).join("");
  mon.note(`page ${page.innerHTML}`);
  const isEditor = (n: FakeNode) => n instanceof FakeElement && (n.localName === "math-editor" || (n.localName === "math" && n.hasAttribute("data-editor")));
  const outline = (n: FakeNode): string => {
    if (isEditor(n)) return "[editor]";
    if (n instanceof FakeText) return encode(n.data);
    const e = n as FakeElement;
    return `<${e.localName} ${JSON.stringify(e.attributes)}>${e.childNodes.map(outline).join("")}</>`;
  };
  const before = outline(page);
  const others = page.querySelectorAll("*").filter((e) => !isEditor(e) && !e.closest("math[data-editor]"));
  document.body.append(page);
  try {
    await import(pathToFileURL(path.join(path.dirname(process.argv[1]), "page.mjs")).href + "?page=" + ++pages);
    runTimers();
    noErrors("while the page loads");
    const left = page.querySelectorAll("math[data-editor]");
    ensure(left.length === 0, () => `${left[0].outerHTML} did not become an editor`);
    ensure(outline(page) === before, () => `the page is ${outline(page)} instead of ${before}`);
    ensure(others.every((e) => page.contains(e)), () => "other parts of the page were replaced");
    const editors = page.querySelectorAll("math-editor");
    ensure(editors.length === items.length, () => `${editors.length} editors instead of ${items.length}`);
    editors.forEach((editor, i) => {
      const formula = formulaOf(bindingsOf(editor));
      ensure(matches(formula, items[i].expect!), () => `editor ${i} has ${show(formula)} instead of ${show(asRow(items[i].expect!))}`);
      checkShown(editor, formula);
      mon.count("formulas of a page");
      mon.distinct(show(formula));
    });
    mon.count("pages loaded");
  } finally {
    restore();
    page.remove();
    close();
  }
}

function close() {
  for (const b of pkg.MathEditorBindings.all.splice(0)) pkg.call("drop", b.id);
  runTimers();
  uncaught.splice(0);
}

const WRONG = ["<p>x</p>", "x", "   ", "<math-editor></math-editor>", "<!-- <math></math> -->", "<div><math></math></div>", "&lt;math&gt;"];

/** Editors that are given formulas while they are used */
function attributes(rng: Rng, size: number, mon: Mon) {
  const editors: { e: FakeElement; b: pkg.MathEditorBindings; formula: Row; caret: string; connected: boolean }[] = [];
  const places = Array.from({ length: 2 }, () => document.createElement("div"));
  document.body.append(...places);
  type Editor = (typeof editors)[number];
  const keep = (x: Editor) => {
    x.formula = formulaOf(x.b);
    x.caret = caretOf(x.b);
  };
  const same = (x: Editor, what: string) => {
    const formula = formulaOf(x.b);
    ensure(JSON.stringify(formula) === JSON.stringify(x.formula), () => `${what} changes the formula ${show(x.formula)} to ${show(formula)}`);
    ensure(caretOf(x.b) === x.caret, () => `${what} changes the caret ${x.caret} to ${caretOf(x.b)}`);
    checkShown(x.e, formula);
  };
  const loaded = (x: Editor, out: Out, what: string) => {
    noErrors(what);
    const formula = formulaOf(x.b);
    ensure(matches(formula, out), () => `${what} gives ${show(formula)} instead of ${show(asRow(out))}`);
    checkShown(x.e, formula);
    keep(x);
    mon.distinct(show(formula));
    mon.count("formulas loaded");
  };
  const send = (x: Editor, type: string, init: any, wait = false) => {
    inShadow(x.e, "textarea").dispatchEvent(new FakeEvent(type, { bubbles: true, ctrlKey: false, shiftKey: false, ...init }));
    if (!wait) runTimers();
  };
  // An editor with typed text that was not handled yet
  let waiting: Editor | null = null;
  const handleWaiting = () => {
    if (waiting === null) return;
    runTimers();
    noErrors("handling input");
    keep(waiting);
    checkShown(waiting.e, waiting.formula);
    waiting = null;
  };
  const undo = (x: Editor) => send(x, "keydown", { key: "z", code: "KeyZ", ctrlKey: true });
  try {
    const steps = 3 + Math.floor(size / 8);
    for (let i = 0; i < steps; i++) {
      const kind = rng.below(20);
      const late = waiting !== null && kind >= 2 && kind < 6 && rng.bool();
      if (!late) handleWaiting();
      let touched: Editor | null = null;
      if (editors.length === 0 || (kind < 2 && editors.length < 3)) {
        const { text, out } = mathml(rng, size);
        const early = rng.bool();
        mon.note(`new editor ${editors.length} with ${early ? "early " : ""}${text}`);
        const e: FakeElement = document.createElement("math-editor");
        touched = { e, b: bindingsOf(e), formula: { values: [] }, caret: "", connected: false };
        editors.push(touched);
        if (early) e.setAttribute("mathml", text);
        if (!rng.oneIn(5)) {
          rng.pick(places).append(e);
          touched.connected = true;
        }
        if (!early) {
          loaded(touched, [], "a new editor");
          e.setAttribute("mathml", text);
        }
        loaded(touched, out, "a new editor with a formula");
      } else {
        const x: Editor = late ? waiting! : rng.pick(editors);
        touched = x;
        const n = editors.indexOf(x);
        const inTable = JSON.parse(x.caret)[0].Grid !== undefined;
        if (kind < 6) {
          const { text, out } = mathml(rng, size);
          mon.note(`editor ${n}: mathml = ${text}`);
          const before = x.formula;
          x.e.setAttribute("mathml", text);
          if (late) {
            runTimers();
            waiting = null;
            mon.count("formulas loaded while typed text was waiting");
          }
          loaded(x, out, "setting the attribute");
          if (!late && x.connected && rng.oneIn(3)) {
            mon.note("  and undo");
            undo(x);
            noErrors("undoing it");
            const after = formulaOf(x.b);
            ensure(JSON.stringify(after) === JSON.stringify(before), () => `undo after loading gives ${show(after)} instead of ${show(before)}`);
            checkShown(x.e, after);
            mon.count("loads undone");
          }
        } else if (kind < 7 && x.e.hasAttribute("mathml")) {
          mon.note(`editor ${n}: ${rng.bool() ? "no" : "empty"} attribute`);
          rng.bool() ? x.e.removeAttribute("mathml") : x.e.setAttribute("mathml", "");
          loaded(x, [], "taking the formula away");
        } else if (kind < 9) {
          const text = rng.pick(WRONG);
          mon.note(`editor ${n}: mathml = ${text}`);
          x.e.setAttribute("mathml", text);
          const errors = uncaught.splice(0);
          ensure(errors.length > 0, () => `${text} is taken without complaints`);
          same(x, `mathml = ${JSON.stringify(text)}`);
          mon.count("refused");
        } else if (kind < 10) {
          const [name, value] = rng.pick([["class", "x"], ["data-mathml", "<math><mi>q</mi></math>"], ["style", "color: red"], ["id", "e"]]);
          mon.note(`editor ${n}: ${name} = ${value}`);
          x.e.setAttribute(name, value);
          noErrors("setting another attribute");
          same(x, `${name} = ${value}`);
        } else if (kind < 13) {
          // To another place on the page, out of it and back
          const what = rng.pick(["move", "move", "remove"]);
          mon.note(`editor ${n}: ${what}`);
          if (what === "remove" && x.connected) x.e.remove();
          else rng.bool() ? rng.pick(places).append(x.e) : rng.pick(places).prepend(x.e);
          x.connected = !(what === "remove" && x.connected);
          noErrors("moving the editor");
          same(x, "moving the editor");
          mon.count("editors moved");
        } else if (x.connected) {
          if (kind === 13) {
            const { result } = render(x.formula);
            const holder = result.getElement(RowIndices.default()).getElements()[0].parentElement as FakeElement;
            const math = inShadow(x.e, "math");
            const [from, to] = [holder.getBoundingClientRect(), math.getBoundingClientRect()];
            const at = { x: from.x + rng.float() * from.width, y: from.y + rng.float() * from.height };
            const position = result.getLayoutPosition(at);
            const event = { bubbles: true, isPrimary: true, pointerId: 1, button: 0, detail: 1, clientX: at.x - from.x + to.x, clientY: at.y - from.y + to.y };
            mon.note(`editor ${n}: click at ${JSON.stringify(position)}`);
            for (const type of ["pointerdown", "mousedown", "pointerup"]) point(math, new FakeEvent(type, event));
            runTimers();
            noErrors("clicking");
            // Leaving a word can also replace it
            if (JSON.stringify(formulaOf(x.b)) === JSON.stringify(x.formula)) {
              const [{ Row: is }, ...others] = JSON.parse(caretOf(x.b));
              const right =
                others.length === 0 &&
                is !== undefined &&
                is.start === position.offset &&
                is.end === position.offset &&
                JSON.stringify(is.row_indices) === JSON.stringify(position.indices.indices);
              ensure(right, () => `a click leads to ${caretOf(x.b)} instead of ${position.offset} in ${JSON.stringify(position.indices.indices)}`);
              mon.count("clicks");
            }
          } else if (kind < 17 && !inTable) {
            const data = rng.pick(["a", "1", "+", "/", "^", "x", "lim", ")", "∑"]);
            mon.note(`editor ${n}: type ${data}`);
            const wait = rng.oneIn(3);
            send(x, "beforeinput", { inputType: "insertText", data }, wait);
            if (wait) waiting = x;
          } else {
            const key = rng.pick(["ArrowLeft", "ArrowRight", "ArrowUp", "ArrowDown"]);
            mon.note(`editor ${n}: ${key}`);
            send(x, "keydown", { key, code: key });
          }
          noErrors("handling input");
        }
        if (waiting !== x) keep(x);
      }
      for (const other of editors) if (other !== touched) same(other, `something in editor ${editors.indexOf(touched!)}, in another one,`);
      if (editors.length > 1) mon.count("other editors left alone");
    }
    mon.sample(mon.trace.join("; "));
  } finally {
    for (const { e } of editors) e.remove();
    for (const p of places) p.remove();
    close();
  }
}

export const C35: Check = {
  rule: "random MathML documents, valid ones and ones with errors, (a) marked with data-editor or in editor elements, on pages with other content, on which the whole application is started, and (b) as attributes of one to three editors on a page, set when the editor is made or while it is used, taken away, replaced by something that is no formula, while editors are moved around the page. Formulas are compared with what the generator knows the document stands for, the screen with an independent rendering, and what was not touched with what it was before. Distinct: different formulas.",
  assumptions: ["a small DOM of the harness instead of a browser, with the reactions of custom elements that the application uses"],
  async run(rng, size, mon) {
    setLayout(rng);
    close();
    if (rng.oneIn(6)) await loadPage(rng, size, mon);
    else attributes(rng, size, mon);
  },
};
