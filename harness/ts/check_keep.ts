// C43: what remains of what has been done on the page
import * as v8 from "node:v8";
import { document, FakeElement, FakeEvent, FakeNode, FakeText, latest, point, runTimers, scheduled, uncaught, window } from "./dom";
import { call, MathEditorBindings, Panic } from "./pkg";
import { FormulaGen, show } from "./model";
import { ensure, type Check, type Mon } from "./mon";
import type { Rng } from "./rng";
import { setLayout } from "./check_render";
import { MATHML, TEXT } from "./check_component";

// ---- What is there ----

let started = false;
function start() {
  started = true;
  const warn = process.emitWarning;
  process.emitWarning = () => {};
  objects();
  process.emitWarning = warn;
}
/** All objects that can still be reached */
const objects = (): number => (v8 as any).queryObjects(Object, { format: "count" });
const editors = (): number => (v8 as any).queryObjects(customElements.get("math-editor"), { format: "count" });
/** Everything on the page, with styles and listeners */
function page(): string[] {
  const lines: string[] = [];
  const write = (n: any, at: string) => {
    const listening = n.listening ? ` listens to ${n.listening}` : "";
    if (n instanceof FakeText) lines.push(`${at}"${n.data}"${listening}`);
    else if (n instanceof FakeElement) {
      const attributes = n.attributes.map((a) => ` ${a.name}="${a.value}"`).sort().join("");
      const style = Object.entries(n.style).filter(([, v]) => typeof v === "string" && v !== "").map(([k, v]) => `${k}: ${v}`).sort().join("; ");
      lines.push(`${at}<${n.localName}${attributes}${style && ` {${style}}`}>${listening}`);
    } else if (listening) lines.push(at + "listening" + listening);
    if (n instanceof FakeElement && n.shadowRoot) write(n.shadowRoot, at + " #");
    for (const child of n.childNodes) write(child, at + " ");
  };
  write(document, "");
  lines.push(`window listens to ${window.listening}`);
  lines.push(`${scheduled()} timers`);
  return lines;
}
function same(a: string[], b: string[], when: string) {
  for (let i = 0; i < Math.max(a.length, b.length); i++) {
    ensure(a[i] === b[i], () => `${when}, there is ${b[i]?.trim() ?? "nothing"} instead of ${a[i]?.trim() ?? "nothing"} (${b.length} instead of ${a.length} things on the page)`);
  }
}

// ---- What is done ----

type Place = { editor: FakeElement | null; id: number; log: any[]; mon: Mon };
type Input = { text: string; run: (p: Place) => void };

const send = (target: any, type: string, init: any = {}) => { target.dispatchEvent(new FakeEvent(type, { bubbles: true, ...init })); };
function inShadow(editor: FakeElement, name: string): FakeElement {
  const walk = (n: FakeNode): FakeElement | null => {
    if (n instanceof FakeElement && n.localName === name) return n;
    for (const c of n.childNodes) { const found = walk(c); if (found) return found; }
    return null;
  };
  const found = walk(editor.shadowRoot!);
  ensure(found, () => `no <${name}> in the editor`);
  return found;
}
/** Editing table selections is a finding of C11 */
const inTable = (id: number) => "Grid" in call("get_caret", id)[0];

function input(rng: Rng): Input {
  const key = (init: any): Input => ({
    text: `key ${init.ctrlKey ? "ctrl " : ""}${init.key}`,
    run: (p) => { const t = inShadow(p.editor!, "textarea"); send(t, "keydown", { altKey: false, shiftKey: false, ctrlKey: false, metaKey: false, ...init }); send(t, "keyup", init); },
  });
  const arrow = () => { const k = rng.pick(["ArrowLeft", "ArrowRight", "ArrowUp", "ArrowDown"]); return key({ key: k, code: k }); };
  const at = () => ({ fx: rng.float() * 1.2 - 0.1, fy: rng.float() * 1.2 - 0.1 });
  const pointer = (p: Place, type: string, { fx, fy }: { fx: number; fy: number }, init: any = {}) => {
    const math = inShadow(p.editor!, "math");
    const b = math.getBoundingClientRect();
    point(math, new FakeEvent(type, { bubbles: true, isPrimary: true, pointerId: 1, button: 0, buttons: 1, detail: 1, clientX: b.x + fx * b.width, clientY: b.y + fy * b.height, ...init }));
  };
  switch (rng.below(14)) {
    case 0: case 1: case 2: {
      const data = rng.pick(TEXT.filter((t) => t !== "("));
      return { text: `type ${JSON.stringify(data)}`, run: (p) => { if (!inTable(p.id)) send(inShadow(p.editor!, "textarea"), "beforeinput", { inputType: "insertText", data }); } };
    }
    case 3: case 4: {
      const inputType = rng.pick(["deleteContentBackward", "deleteWordForward", "deleteContentForward", "insertCompositionText"]);
      return { text: inputType, run: (p) => { if (!inTable(p.id)) send(inShadow(p.editor!, "textarea"), "beforeinput", { inputType, data: null }); } };
    }
    case 5: case 6: return arrow();
    case 7: return rng.bool() ? key({ key: "z", code: "KeyZ", ctrlKey: true }) : key({ key: "y", code: "KeyY", ctrlKey: true });
    case 8: case 9: {
      const places = Array.from({ length: rng.between(2, 5) }, at);
      const end = rng.oneIn(4) ? "pointercancel" : "pointerup";
      const clicks = rng.oneIn(5) ? rng.between(2, 3) : 1;
      const lost = rng.oneIn(6);
      return {
        text: `drag over ${places.length} places with ${clicks} clicks${lost ? " without letting go" : `, ${end}`}`,
        run: (p) => {
          pointer(p, "pointerdown", places[0]);
          pointer(p, "mousedown", places[0], { detail: clicks });
          for (const place of places.slice(1)) pointer(p, "pointermove", place);
          if (!lost) pointer(p, end, places.at(-1)!);
        },
      };
    }
    case 10: {
      const type = rng.pick(["pointermove", "pointerup", "mousedown", "pointerdown", "focus", "blur", "copy", "paste", "cut"]);
      const place = at();
      return {
        text: `${type} of another finger, or without a clipboard`,
        run: (p) => {
          if (type === "cut" && inTable(p.id)) return;
          if (type.includes("p") && type !== "paste") pointer(p, type, place, { isPrimary: false, pointerId: 5 });
          else send(inShadow(p.editor!, "textarea"), type, { clipboardData: null });
        },
      };
    }
    case 11: {
      const json = rng.pick([JSON.stringify({ version: 1, data: new FormulaGen(rng, 8, true).row(1).values }), "{", "", "hello"]);
      const cut = rng.pick(["copy", "cut"]);
      return {
        text: `${cut}, paste ${json}`,
        run: (p) => {
          if (inTable(p.id)) return;
          const t = inShadow(p.editor!, "textarea");
          send(t, cut, { clipboardData: { setData() {} } });
          send(t, "paste", { clipboardData: { getData: (type: string) => (type === "application/json" ? json : "") } });
        },
      };
    }
    case 12: {
      const way = rng.below(4);
      return {
        text: ["off the page and back", "moved", "another attribute", "the mathml attribute is taken away"][way],
        run: (p) => {
          const e = p.editor!;
          if (way === 0) { e.remove(); document.body.prepend(e); }
          else if (way === 1) { document.body.append(e); document.body.prepend(e); }
          else if (way === 2) { e.setAttribute("data-x", "1"); e.setAttribute("class", "y"); }
          else e.removeAttribute("mathml");
        },
      };
    }
    default: {
      const mathml = MATHML(rng);
      return { text: `mathml = ${mathml}`, run: (p) => p.editor!.setAttribute("mathml", mathml) };
    }
  }
}

function put(mon: Mon, mathml: string, later: boolean): Place {
  const editor: FakeElement = document.createElement("math-editor") as any;
  const { id, log } = MathEditorBindings.last;
  // The harness must not keep it
  latest.custom = null;
  MathEditorBindings.all.length = 0;
  (MathEditorBindings as any).last = null;
  if (!later) editor.setAttribute("mathml", mathml);
  document.body.prepend(editor);
  if (later) editor.setAttribute("mathml", mathml);
  runTimers();
  return { editor, id, log, mon };
}
/** All inputs, and what the formula and the selection are then. Whether they are carried out is up to C34 */
function use(p: Place, inputs: Input[]): string {
  for (const { run } of inputs) {
    run(p);
    runTimers();
    for (const e of uncaught.splice(0)) if (e instanceof Panic) throw e;
    p.mon.count("inputs");
  }
  p.log.length = 0;
  return JSON.stringify([call("get_input_tree", p.id), call("get_caret", p.id)]);
}
function away(p: Place) {
  p.editor!.remove();
  p.editor = null;
  runTimers();
  document.activeElement = null;
  call("drop", p.id);
}

export const C43: Check = {
  rule: "a random list of inputs (typing, deleting, arrow keys, undo, redo, drags that are also lost or cancelled, inputs that mean nothing, clipboard, moving the editor on the page and out of it, other formulas as MathML) is repeated with the same editor. Whenever formula and selection are the same as after an earlier repetition, everything on the page (elements, texts, attributes, styles, listeners, timers) is compared. V8 counts all reachable objects after a garbage collection, while they are the same: at least one more for each repetition, also when there are many more repetitions, is a violation. Then editors are made, used in the same way and taken away, one after the other: the page has to be as before, and V8 has to have got rid of them. Distinct: different (formula, selection) states that came up again.",
  assumptions: ["a small DOM of the harness instead of a browser, time does not pass", "the memory of the editor itself is up to C38", "only what is an object counts for the memory, not texts and numbers"],
  run(rng, size, mon) {
    if (!started) start();
    setLayout(rng);
    uncaught.splice(0);
    const empty = page();
    const mathml = MATHML(rng);
    const reset: Input = { text: `mathml = ${mathml}`, run: (p) => p.editor!.setAttribute("mathml", mathml) };
    const inputs = [reset, ...Array.from({ length: rng.between(1, 3 + Math.floor(size / 10)) }, () => input(rng))];
    inputs.forEach((i) => mon.note(i.text));
    const later = rng.bool();
    let place: Place | null = null;
    try {
      place = put(mon, mathml, later);
      const seen = new Map<string, string[]>();
      let done = 0;
      const repeat = (times: number): string => {
        let state = "";
        for (let i = 0; i < times; i++) {
          state = use(place!, inputs);
          done++;
          if (times > 50) continue;
          const before = seen.get(state);
          const now = page();
          if (before) {
            same(before, now, `${show(JSON.parse(state)[0])} with the caret at ${JSON.stringify(JSON.parse(state)[1])} came up again after ${done} repetitions`);
            mon.count("the same state again");
            mon.count("things compared", now.length);
            mon.distinct(state);
          } else seen.set(state, now);
        }
        return state;
      };
      repeat(4);
      seen.clear();
      let last = repeat(2);
      /** How many more objects there are after each repetition, from when to when they are equal */
      const growth = (times: number): number => {
        let before = objects();
        let least = Infinity;
        for (let i = 0; i < 2; i++) {
          const state = repeat(times);
          const now = objects();
          // Undo may bring the past back
          if (state !== last) { last = state; mon.count("not the same state again"); return 0; }
          least = Math.min(least, (now - before) / times);
          before = now;
        }
        mon.count("growth looked at");
        return least;
      };
      let by = growth(6);
      for (const times of [100, 200]) {
        if (by < 1) break;
        mon.count("growth looked at for longer");
        by = growth(times);
      }
      ensure(by < 1, () => `every repetition leaves ${by.toFixed(1)} objects behind`);
      away(place);
      place = null;
      same(empty, page(), "after the editor has been taken away");
      // More of them
      const count = editors();
      for (let i = 0; i < 4; i++) {
        place = put(mon, mathml, later);
        use(place, inputs);
        away(place);
        place = null;
      }
      same(empty, page(), "after more editors have been taken away");
      const left = editors() - count;
      ensure(left < 3, () => `${left} of 4 editors are still there after they have been taken away`);
      mon.count("editors taken away", 5);
      mon.sample(inputs.map((i) => i.text).join("; "));
    } catch (e) {
      // Up to C34
      if (!(e instanceof Panic)) throw e;
      mon.count("inputs that made the editor fail");
    } finally {
      if (place) away(place);
      for (const child of document.body.childNodes.slice()) child.remove();
      uncaught.splice(0);
    }
  },
};
