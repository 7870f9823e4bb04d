// C34: the web component, from events to what is on the screen
import { document, FakeElement, FakeEvent, FakeNode, layoutOptions, point, runTimers, uncaught } from "./dom";
import { MathEditor } from "repo:component/math-editor";
import { fromElement } from "repo:mathml/parsing";
import { RowIndices } from "repo:input-tree/row-indices";
import { call, MathEditorBindings, Panic } from "./pkg";
import { allRows, FormulaGen, isSym, rowAt, show, type Row } from "./model";
import { ensure, type Check, type Mon } from "./mon";
import type { Rng } from "./rng";
import { render, setLayout } from "./check_render";

(globalThis as any).customElements.define("math-editor", MathEditor);

const EPS = 1e-6;
const segmenter = new Intl.Segmenter(undefined, { granularity: "grapheme" });

function find(node: FakeNode, f: (e: FakeElement) => boolean, out: FakeElement[] = []): FakeElement[] {
  if (node instanceof FakeElement) {
    if (f(node)) out.push(node);
    if (node.shadowRoot) find(node.shadowRoot, f, out);
  }
  for (const child of node.childNodes) find(child, f, out);
  return out;
}

type Box = { x: number; y: number; r: number; b: number };
const join = (boxes: Box[]): Box => ({ x: Math.min(...boxes.map((b) => b.x)), y: Math.min(...boxes.map((b) => b.y)), r: Math.max(...boxes.map((b) => b.r)), b: Math.max(...boxes.map((b) => b.b)) });
const px = (v: any) => (v === undefined || v === "" ? 0 : Number.parseFloat(v));

export const TEXT = ["a", "x", "1", "2", "+", "-", "=", "*", "/", "/", "^", "_", "(", ")", ",", "!", "'", '"', " ", "l", "lim", "sum", "int", "ab", "12", "é", "e\u0301", "👨‍👩‍👧", "한글", "\\", "&", "<", "infinity", "and", ">=", "=", "⊤", "⊥", "⟹"];
export const MATHML = (rng: Rng): string => {
  const leaf = () => rng.pick(["<mi>x</mi>", "<mn>12</mn>", "<mo>+</mo>", "<mo>(</mo><mi>a</mi><mo>)</mo>", "<mtext>hi</mtext>", "<mo>=</mo>", "<mi>sum</mi>", "<mi>lim</mi>", "<mi>and</mi>"]);
  const some = (depth: number): string => Array.from({ length: rng.between(0, 3) }, () => one(depth)).join("");
  const row = (depth: number) => `<mrow>${some(depth)}</mrow>`;
  const one = (depth: number): string => {
    if (depth > 1) return leaf();
    switch (rng.below(6)) {
      case 0: return `<mfrac>${row(depth + 1)}${row(depth + 1)}</mfrac>`;
      case 1: return `<msup><mi>y</mi>${row(depth + 1)}</msup>`;
      case 2: return `<msqrt>${some(depth + 1)}</msqrt>`;
      case 3: {
        const w = rng.between(1, 3);
        return `<mtable>${Array.from({ length: rng.between(1, 3) }, () => `<mtr>${Array.from({ length: w }, () => `<mtd>${some(depth + 1)}</mtd>`).join("")}</mtr>`).join("")}</mtable>`;
      }
      default: return leaf();
    }
  };
  return `<math>${some(0)}</math>`;
};

class Session {
  element: any;
  bindings: MathEditorBindings;
  twin: number;
  replayed = 0;
  math: FakeElement;
  input: FakeElement;
  clipboard: Record<string, string> = {};
  pointerDown = false;
  /** Typed, but the component may not have noticed it yet */
  pending: (() => void)[] = [];
  ops = 0;
  states = "";

  constructor(private rng: Rng, private mon: Mon, mathml: string | null) {
    this.element = document.createElement("math-editor");
    this.bindings = MathEditorBindings.last;
    this.twin = call("new");
    if (mathml !== null) this.element.setAttribute("mathml", mathml);
    document.body.prepend(this.element);
    runTimers();
    this.replay();
    const only = (name: string) => {
      const found = find(this.element.shadowRoot, (e) => e.localName === name);
      ensure(found.length === 1, () => `${found.length} <${name}> in the component`);
      return found[0];
    };
    this.math = only("math");
    this.input = only("textarea");
  }
  close() {
    this.element.remove();
    call("drop", this.bindings.id);
    call("drop", this.twin);
  }
  /** Does what the component asked for with the other editor as well, for what the monitor does not prescribe */
  replay() {
    for (; this.replayed < this.bindings.log.length; this.replayed++) {
      const [op, ...args] = this.bindings.log[this.replayed];
      call(op, this.twin, ...args);
    }
  }
  get formula(): Row { return call("get_input_tree", this.twin); }
  get caret(): any { return call("get_caret", this.twin); }
  /** What the other editor should do */
  twinDo(op: string, ...args: any[]): any { return call(op, this.twin, ...args); }

  errors(): unknown[] { return uncaught.splice(0); }
  send(target: FakeElement, type: string, init: any = {}) {
    const event = new FakeEvent(type, { bubbles: true, ...init });
    target.dispatchEvent(event);
    return event;
  }

  /** The formula as it should be on the screen, next to the component */
  expected() {
    const formula = this.formula;
    const { result } = render(formula);
    const holder = result.getElement(RowIndices.default()).getElements()[0].parentElement as FakeElement;
    const a = this.math.getBoundingClientRect();
    const b = holder.getBoundingClientRect();
    return { formula, result, holder, dx: a.x - b.x, dy: a.y - b.y };
  }

  /** Everything that should hold once the events are handled */
  check() {
    const errors = this.errors();
    ensure(errors.length === 0, () => `error in the component: ${errors.map((e: any) => e?.stack ?? e).join("; ").split("\n").slice(0, 4).join(" ")}`);
    const is = call("get_input_tree", this.bindings.id);
    const want = this.formula;
    ensure(JSON.stringify(is) === JSON.stringify(want), () => `the formula is ${show(is)} instead of ${show(want)}`);
    const caretIs = call("get_caret", this.bindings.id);
    const carets = this.caret;
    ensure(JSON.stringify(caretIs) === JSON.stringify(carets), () => `the caret is ${JSON.stringify(caretIs)} instead of ${JSON.stringify(carets)}`);
    const { result, holder, dx, dy } = this.expected();
    ensure(this.math.innerHTML === holder.innerHTML, () => `shows ${this.math.innerHTML} instead of ${holder.innerHTML}`);
    const shift = (b: any): Box => ({ x: b.x + dx, y: b.y + dy, r: b.x + b.width + dx, b: b.y + b.height + dy });
    // Carets and highlights on the screen
    const visible = (e: FakeElement) => e.style.display !== "none";
    const drawn = find(this.element.shadowRoot, (e) => e.classList.contains("caret"));
    const highlights = find(this.element.shadowRoot, (e) => e.classList.contains("caret-selection")).map((e): Box => {
      const at = e.parentElement!.getBoundingClientRect();
      const x = px(e.style.left) + at.x, y = px(e.style.top) + at.y;
      return { x, y, r: x + px(e.style.width), b: y + px(e.style.height) };
    });
    ensure(carets.length === 1, () => "more than one caret");
    const caret = carets[0];
    if ("Row" in caret) {
      const { row_indices, start, end } = caret.Row;
      const indices = new RowIndices(row_indices);
      const shownCarets = drawn.filter(visible);
      ensure(shownCarets.length === 1, () => `${shownCarets.length} carets on the screen`);
      const e = shownCarets[0];
      const at = e.parentElement!.getBoundingClientRect();
      const focus = result.getViewportSelection({ indices, start: end, end });
      const x = px(e.style.left) + at.x;
      const height = px(e.style.height);
      const top = px(e.style.top) + px(e.style.marginTop) + at.y;
      ensure(Math.abs(x - focus.rect.x - dx) < EPS, () => `the caret is drawn at ${x} instead of ${focus.rect.x + dx}, for ${JSON.stringify(caret)} in ${show(want)}`);
      const baseline = focus.baseline + dy;
      ensure(height > 0 && top <= baseline - height / 2 && baseline <= top + height + EPS, () => `the caret is drawn from ${top} with a height of ${height}, the baseline is ${baseline}, for ${JSON.stringify(caret)} in ${show(want)}`);
      if (start === end) {
        ensure(highlights.length === 0, () => `highlights ${JSON.stringify(highlights)} although nothing is selected`);
      } else {
        const should = shift(result.getViewportSelection({ indices, start, end }).rect);
        ensure(highlights.length > 0, () => `no highlight for ${JSON.stringify(caret)}`);
        const all = join(highlights);
        for (const side of ["x", "y", "r", "b"] as const) ensure(Math.abs(all[side] - should[side]) < EPS, () => `the highlight ${JSON.stringify(all)} should be ${JSON.stringify(should)} for ${JSON.stringify(caret)} in ${show(want)}`);
        this.mon.count("highlights of rows on the screen");
      }
      this.mon.count("carets on the screen");
    } else {
      const { row_indices, index, range } = caret.Grid;
      ensure(drawn.filter(visible).length === 0, () => "a caret is shown although table cells are selected");
      ensure(highlights.length > 0, () => `no highlight for ${JSON.stringify(caret)}`);
      const at = rowAt(want, row_indices)!.values[index];
      const grid = (at as any).Container[1];
      const all = join(highlights);
      const x = (i: number) => i % grid.width, y = (i: number) => Math.floor(i / grid.width);
      const w = range.width, n = range.end - range.start;
      ensure(n > 0, () => `nothing selected in ${JSON.stringify(caret)}`);
      const last = range.end - 1;
      for (let i = 0; i < grid.values.length; i++) {
        const selected = x(range.start) <= x(i) && x(i) <= x(last) && y(range.start) <= y(i) && y(i) <= y(last);
        const cell = shift(result.getViewportRowBounds(new RowIndices([...row_indices, [index, i]])));
        if (selected) ensure(all.x <= cell.x + EPS && all.y <= cell.y + EPS && cell.r <= all.r + EPS && cell.b <= all.b + EPS, () => `the highlight ${JSON.stringify(all)} does not cover the selected cell ${i} at ${JSON.stringify(cell)}, for ${JSON.stringify(caret)} in ${show(want)}`);
        else {
          const [cx, cy] = [(cell.x + cell.r) / 2, (cell.y + cell.b) / 2];
          ensure(!(all.x + EPS < cx && cx < all.r - EPS && all.y + EPS < cy && cy < all.b - EPS), () => `the highlight ${JSON.stringify(all)} covers the cell ${i} at ${JSON.stringify(cell)} that is not selected, for ${JSON.stringify(caret)} in ${show(want)}`);
        }
      }
      this.mon.count("highlights of table cells on the screen");
    }
    this.mon.count("states compared");
    this.mon.distinct(JSON.stringify([is, carets]));
  }

  flush() {
    runTimers();
    for (const f of this.pending.splice(0)) f();
  }

  /** Where a click should lead to, and the click */
  point() {
    const rng = this.rng;
    const { result, holder, dx, dy } = this.expected();
    const b = holder.getBoundingClientRect();
    const m = rng.oneIn(6) ? 30 * layoutOptions.scale : 0;
    let x = b.x - m + rng.float() * (b.width + 2 * m);
    let y = b.y - m + rng.float() * (b.height + 2 * m);
    if (rng.oneIn(4)) {
      // At a caret, or behind a word, which may be replaced when the caret leaves it
      const all = allRows(this.formula).flatMap(({ path, row }) => Array.from({ length: row.values.length + 1 }, (_, offset) => ({ path, row, offset })));
      const letter = (n: any) => n !== undefined && isSym(n) && /^[a-z]$/.test(n.Symbol);
      const words = all.filter(({ row, offset }) => letter(row.values[offset - 1]) && letter(row.values[offset - 2]) && !letter(row.values[offset]));
      const { path, offset } = rng.pick(words.length > 0 && rng.bool() ? words : all);
      const caret = result.getViewportSelection({ indices: new RowIndices(path), start: offset, end: offset }).rect;
      x = caret.x + rng.pick([0, 0.5, -0.5]);
      y = caret.y;
    }
    const position = result.getLayoutPosition({ x, y });
    return { clientX: x + dx, clientY: y + dy, position: { row_indices: position.indices.indices.slice(), offset: position.offset } };
  }
  pointer(type: string, init: any = {}) {
    if (this.pending.length > 0 && this.rng.bool()) {
      // What has been typed comes first, and moves what is on the screen before the event arrives
      const { x, y, width, height } = this.math.getBoundingClientRect();
      const at = { clientX: x + this.rng.float() * width, clientY: y + this.rng.float() * height };
      this.pointAt(this.math, type, { ...at, ...init });
      this.flush();
      const { result, dx, dy } = this.expected();
      const position = result.getLayoutPosition({ x: at.clientX - dx, y: at.clientY - dy });
      this.mon.count("pointer events while something was not handled yet");
      return { row_indices: position.indices.indices.slice(), offset: position.offset };
    }
    this.flush();
    const { position, ...rest } = this.point();
    const { left, right, top, bottom } = this.math.getBoundingClientRect();
    const outside = rest.clientX < left || rest.clientX > right || rest.clientY < top || rest.clientY > bottom;
    // Only what started in the editor goes on elsewhere
    const away = outside && type !== "pointerdown" && type !== "mousedown";
    if (away) this.mon.count("pointer events outside of the editor");
    this.pointAt(away ? document.body : this.below(rest.clientX, rest.clientY), type, { ...rest, ...init });
    return position;
  }
  /** The innermost element of the formula on the screen at a point */
  below(x: number, y: number, e: FakeElement = this.math): FakeElement {
    for (const c of e.children) {
      const { left, right, top, bottom } = c.getBoundingClientRect();
      if (left <= x && x < right && top <= y && y < bottom) return this.below(x, y, c);
    }
    return e;
  }
  pointAt(target: FakeElement, type: string, init: any) {
    point(target, new FakeEvent(type, { bubbles: true, isPrimary: true, pointerId: 1, button: 0, buttons: 1, detail: 1, ...init }));
  }
  /** The user moves to the editor with the keyboard */
  step_tab() {
    this.flush();
    (document.activeElement as FakeElement | null)?.blur();
    const stops = find(this.element.shadowRoot, (e) => e.focusable && e.tabIndex >= 0);
    ensure(stops.length > 0, () => "the tab key does not reach the editor");
    const stop = this.rng.pick(stops);
    this.mon.note(`tab to the <${stop.localName}>`);
    stop.focus();
    ensure(document.activeElement === this.input, () => `what is typed after moving to the <${stop.localName}> of the editor is lost`);
    this.mon.count("moves to the editor with the tab key");
    this.check();
  }

  step() {
    const rng = this.rng;
    const mon = this.mon;
    this.ops++;
    const inTable = "Grid" in this.caret[0];
    const typed = this.pending.length > 0;
    const kind = rng.below(100);
    if (kind < 36) {
      if (inTable) return this.step_key();
      const formula = this.formula;
      const brackets = JSON.stringify(formula).split('"("').length + this.pending.length;
      const length = JSON.stringify(formula).length;
      let data = rng.pick(TEXT);
      if (data === "(" && brackets > 5) data = ")";
      if (length > 1500) data = "x";
      mon.note(`type ${JSON.stringify(data)}`);
      this.send(this.input, "beforeinput", { inputType: "insertText", data });
      this.pending.push(() => this.twinDo("insert_at_caret", [...segmenter.segment(data)].map((s) => s.segment)));
      mon.count("typed");
      if (rng.oneIn(4)) { mon.note("  (not handled yet)"); return; }
    } else if (kind < 45) {
      if (inTable) return this.step_key();
      const inputType = rng.pick(["deleteContentBackward", "deleteContentBackward", "deleteWordBackward", "deleteContentForward", "deleteWordForward"]);
      mon.note(inputType);
      this.send(this.input, "beforeinput", { inputType, data: null });
      this.pending.push(() => this.twinDo("remove_at_caret", inputType.endsWith("Backward") ? "Left" : "Right", "Char"));
      mon.count("deleted");
      if (rng.oneIn(6)) { mon.note("  (not handled yet)"); return; }
    } else if (kind < 48) {
      const [inputType, data] = rng.pick([["insertText", null], ["insertCompositionText", "x"], ["insertFromPaste", null], ["historyUndo", null]] as [string, string | null][]);
      mon.note(`${inputType} ${data}`);
      this.send(this.input, "beforeinput", { inputType, data });
      this.send(this.input, "input", { inputType, data });
    } else if (kind < 70) {
      return this.step_key();
    } else if (kind < 78) {
      if (inTable) return this.step_key();
      this.step_clipboard();
    } else if (kind < 97) {
      this.step_pointer();
    } else {
      this.flush();
      const mathml = MATHML(rng);
      mon.note(`mathml = ${mathml}`);
      this.replayed = this.bindings.log.length;
      this.element.setAttribute("mathml", mathml);
      this.replay();
      const template = document.createElement("template") as any;
      template.innerHTML = mathml;
      const want = fromElement(template.content.firstElementChild).root;
      ensure(JSON.stringify(this.formula) === JSON.stringify(want), () => `setting mathml="${mathml}" gives ${show(this.formula)}`);
      mon.count("mathml set");
    }
    if (typed) mon.count("events while something was not handled yet");
    this.flush();
    this.check();
  }
  step_key() {
    const rng = this.rng;
    const [init, op]: [any, any[] | null] = rng.pick([
      [{ key: "ArrowLeft", code: "ArrowLeft" }, ["move_caret", "Left", "Char"]],
      [{ key: "ArrowLeft", code: "ArrowLeft" }, ["move_caret", "Left", "Char"]],
      [{ key: "ArrowRight", code: "ArrowRight" }, ["move_caret", "Right", "Char"]],
      [{ key: "ArrowRight", code: "ArrowRight" }, ["move_caret", "Right", "Char"]],
      [{ key: "ArrowUp", code: "ArrowUp" }, ["move_caret", "Up", "Char"]],
      [{ key: "ArrowDown", code: "ArrowDown" }, ["move_caret", "Down", "Char"]],
      [{ key: "z", code: "KeyZ", ctrlKey: true }, ["undo"]],
      [{ key: "z", code: "KeyZ", ctrlKey: true }, ["undo"]],
      [{ key: "y", code: "KeyY", ctrlKey: true }, ["redo"]],
      [{ key: "z", code: "KeyZ" }, null],
      [{ key: "y", code: "KeyY" }, null],
      [{ key: "z", code: "KeyZ", ...rng.pick([{ altKey: true }, { shiftKey: true, key: "Z" }]) }, null],
      [{ key: "y", code: "KeyY", ...rng.pick([{ altKey: true }, { shiftKey: true, key: "Y" }]) }, null],
      [rng.pick([{ key: "c", code: "KeyC", ctrlKey: true }, { key: "Enter", code: "Enter" }, { key: "Escape", code: "Escape" }, { key: "x", code: "KeyX" }, { key: "Backspace", code: "Backspace" }]), null],
      [{ key: "Shift", code: "ShiftLeft", shiftKey: true }, null],
    ] as [any, any[] | null][]);
    this.mon.note(`key ${init.key}${["ctrl", "shift", "alt", "meta"].map((m) => (init[m + "Key"] ? " with " + m : "")).join("")}`);
    this.send(this.input, "keydown", { ctrlKey: false, shiftKey: false, altKey: false, metaKey: false, ...init });
    if (this.pending.length > 0) this.mon.count("events while something was not handled yet");
    this.flush();
    if (op) this.twinDo(op[0], ...op.slice(1));
    this.send(this.input, "keyup", init);
    this.flush();
    this.mon.count("keys");
    this.check();
  }
  step_clipboard() {
    const rng = this.rng;
    const kind = rng.pick(["copy", "copy", "cut", "paste", "paste", "paste", "nothing"]);
    if (kind === "nothing") {
      const type = rng.pick(["copy", "cut", "paste"]);
      this.mon.note(`${type} without a clipboard`);
      this.send(this.input, type, { clipboardData: null });
      return;
    }
    if (kind === "paste") {
      const data: Record<string, string> = rng.oneIn(4)
        ? { [rng.pick(["application/json", "text/plain"])]: rng.pick(["", "{", "[1]", "null", '{"Symbol":3}', "[{}]", "hello", '[{"Container":["Fraction",{"values":[{"values":[]}],"width":0}]}]']) }
        : rng.oneIn(4) || !this.clipboard["application/json"] ? { [rng.pick(["text/plain", "application/json"])]: JSON.stringify({ version: 1, data: new FormulaGen(rng, 10, true).row(1).values }) } : { ...this.clipboard };
      // Other programs may see it as text
      if (data["application/json"] && !data["text/plain"] && rng.oneIn(3)) data["text/plain"] = rng.pick(["hello", "1+2", "[]", JSON.stringify({ version: 1, data: [{ Symbol: "t" }] })]);
      const json = data["application/json"] || data["text/plain"] || "";
      this.mon.note(`paste ${JSON.stringify(data)}`);
      this.send(this.input, "paste", { clipboardData: { getData: (type: string) => data[type] ?? "" } });
      this.flush();
      try {
        this.twinDo("paste", json, "JsonInputTree");
        this.mon.count("pasted");
      } catch (e) {
        if (e instanceof Panic) throw e;
        // Refused: reported as an error, and nothing changes
        const errors = this.errors();
        for (const error of errors) if (error instanceof Panic) throw error;
        this.mon.count("refused to paste");
      }
      return;
    }
    this.mon.note(kind);
    const got: Record<string, string> = {};
    const event = this.send(this.input, kind, { clipboardData: { setData: (type: string, value: string) => { got[type] = value; } } });
    this.flush();
    const want = this.twinDo("copy", "JsonInputTree");
    ensure(got["application/json"] === want, () => `${kind} gave ${JSON.stringify(got)} instead of ${want}`);
    ensure(event.defaultPrevented, () => `the browser would put something else on the clipboard`);
    if (kind === "cut") this.twinDo("remove_at_caret", "Range", "Char");
    this.clipboard = got;
    this.mon.count(kind);
  }
  step_pointer() {
    const rng = this.rng;
    const mon = this.mon;
    const other = { isPrimary: false, pointerId: 7 };
    if (rng.oneIn(8)) return this.step_tab();
    if (rng.oneIn(8)) {
      // Nothing is pressed, or it is another finger
      const type = rng.pick(["pointermove", "pointermove", "pointerup", "pointerdown", "pointercancel"]);
      const init = type === "pointerdown" || rng.bool() ? other : {};
      mon.note(`${type} ${init === other ? "of another finger" : "although nothing is pressed"}`);
      this.pointer(type, init);
      if (rng.oneIn(3)) this.pointer("mousedown", { detail: rng.between(1, 3) });
      mon.count("pointer events to ignore");
      return;
    }
    const down = this.pointer("pointerdown");
    mon.note(`pointerdown at ${JSON.stringify(down)}`);
    this.twinDo("start_selection", down, "Char");
    this.flush();
    ensure(document.activeElement === this.input, () => "clicking does not focus the input");
    const clicks = rng.oneIn(4) ? rng.between(2, 4) : 1;
    if (clicks === 2 || clicks === 3) {
      const at = this.pointer("mousedown", { detail: clicks });
      mon.note(`${clicks} clicks, at ${JSON.stringify(at)}`);
      this.twinDo("start_selection", at, clicks === 2 ? "Word" : "Line");
      mon.count(clicks === 2 ? "double clicks" : "triple clicks");
    } else {
      const { x, y } = this.math.getBoundingClientRect();
      this.pointAt(this.math, "mousedown", { detail: clicks, clientX: x, clientY: y });
    }
    ensure(document.activeElement === this.input, () => "pressing the mouse moves the focus away from the input");
    this.check();
    const moves = rng.oneIn(2) ? 0 : rng.between(1, 4);
    for (let i = 0; i < moves; i++) {
      if (rng.oneIn(6)) {
        const type = rng.pick(["pointermove", "pointerdown", "pointerup", "pointercancel"]);
        mon.note(`${type} of another finger`);
        this.pointer(type, other);
        this.check();
        mon.count("pointer events of another finger while dragging");
      }
      if (rng.oneIn(12)) this.step_key();
      const to = this.pointer("pointermove");
      mon.note(`pointermove to ${JSON.stringify(to)}`);
      const before = JSON.stringify(this.formula);
      this.twinDo("extend_selection", to);
      if (JSON.stringify(this.formula) !== before) mon.count("words replaced while dragging");
      this.check();
      mon.count("drags");
    }
    const type = rng.oneIn(8) ? "pointercancel" : "pointerup";
    const up = this.pointer(type, {});
    mon.note(`${type} at ${JSON.stringify(up)}`);
    this.twinDo("extend_selection", up);
    this.twinDo("finish_selection");
    mon.count("clicks");
  }
}

export const C34: Check = {
  rule: "random sessions with the web component in the small DOM of the harness: typing (also faster than the component handles it), deleting, arrow keys, undo, redo, copy, cut, paste of valid and invalid data, clicks and drags (also of other fingers and with nothing pressed), setting the mathml attribute. After every event, formula and caret are compared with an editor that was told what the event means; the screen is compared with an independent rendering of that formula, its caret and its selection. Distinct: different (formula, caret) states.",
  assumptions: ["a small DOM and layout of the harness instead of a browser", "the editor runs in another process, not as wasm", "what double and triple clicks select is up to the editor, and there are only moves while table cells are selected (known findings of C11)"],
  run(rng, size, mon) {
    setLayout(rng);
    const mathml = rng.oneIn(3) ? MATHML(rng) : null;
    mon.note(`mathml ${mathml}`);
    uncaught.splice(0);
    const session = new Session(rng, mon, mathml);
    try {
      session.check();
      const steps = 4 + Math.floor(size / 3);
      for (let i = 0; i < steps; i++) session.step();
      session.flush();
      session.check();
      mon.sample(mon.trace.join("; "));
    } finally {
      session.close();
      runTimers();
      uncaught.splice(0);
    }
  },
};

