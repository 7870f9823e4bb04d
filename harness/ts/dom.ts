// A small DOM: just the parts of it that the code under test may reasonably use, with a layout for MathML.
// It exists because no browser or jsdom is available offline.

export const MATH_NS = "http://www.w3.org/1998/Math/MathML";
const HTML_NS = "http://www.w3.org/1999/xhtml";

export type Box = { x: number; y: number; w: number; h: number };

export function rectOf(b: Box) {
  return {
    x: b.x, y: b.y, width: b.w, height: b.h,
    left: b.x, top: b.y, right: b.x + b.w, bottom: b.y + b.h,
    toJSON() { return { x: b.x, y: b.y, width: b.w, height: b.h }; },
  };
}

/** What the layout looks like, varied by the monitors */
export const layoutOptions = { scale: 1, originX: 0, originY: 0, elseX: 0, elseY: 0 };

export class FakeEvent {
  defaultPrevented = false;
  target: any = null;
  currentTarget: any = null;
  stopped = false;
  [key: string]: any;
  constructor(public type: string, init: Record<string, any> = {}) {
    Object.assign(this, init);
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = true; this.stoppedImmediately = true; }
  composedPath() {
    const out: any[] = [];
    for (let at: any = this.target; at; at = at instanceof FakeShadowRoot ? at.host : at.parentNode) out.push(at);
    return out;
  }
}

class FakeEventTarget {
  #listeners = new Map<string, Map<any, any>>();
  addEventListener(type: string, listener: any, options?: any) {
    if (!listener || options?.signal?.aborted) return;
    let listeners = this.#listeners.get(type);
    if (!listeners) this.#listeners.set(type, (listeners = new Map()));
    if (!listeners.has(listener)) listeners.set(listener, typeof options === "object" && options !== null ? options : {});
    options?.signal?.addEventListener?.("abort", () => this.removeEventListener(type, listener));
  }
  removeEventListener(type: string, listener: any) {
    this.#listeners.get(type)?.delete(listener);
  }
  /** How many listeners there are for each type */
  get listening(): string {
    return [...this.#listeners].filter(([, l]) => l.size > 0).map(([type, l]) => `${type} ${l.size}`).sort().join(", ");
  }
  dispatchEvent(event: FakeEvent) {
    event.target ??= this;
    let at: FakeEventTarget | null = this;
    while (at) {
      event.currentTarget = at;
      for (const [listener, options] of [...(at.#listeners.get(event.type) ?? [])]) {
        if (options.once) at.removeEventListener(event.type, listener);
        if (event.stoppedImmediately) break;
        try {
          typeof listener === "function" ? listener.call(at, event) : listener.handleEvent(event);
        } catch (e) {
          uncaught.push(e);
        }
      }
      if (!event.bubbles || event.stopped || !(at instanceof FakeNode)) break;
      at = at === document_ ? window_ : at instanceof FakeShadowRoot ? at.host : at.parentNode;
    }
    return !event.defaultPrevented;
  }
}
/** The pointers that are there, and the elements that get all of their events */
const pointers = new Set<number>();
const captures = new Map<number, FakeElement>();
/** An event of the user's pointer, which goes to the element below it, or to the element that captured the pointer */
export function point(below: FakeElement, event: FakeEvent) {
  const id = (event as any).pointerId ?? 1;
  if (event.type.startsWith("pointer")) pointers.add(id);
  const target = captures.get(id)?.isConnected ? captures.get(id)! : below;
  target.dispatchEvent(event);
  if (event.type === "pointerup" || event.type === "pointercancel") captures.delete(id);
  if (event.type === "mousedown" && !event.defaultPrevented) {
    // The browser focuses what has been pressed
    let at: FakeNode | null = target;
    while (at && !(at instanceof FakeElement && at.focusable)) at = at instanceof FakeShadowRoot ? at.host : at.parentNode;
    if (at) (at as FakeElement).focus();
    else document_.activeElement?.blur();
  }
}
/** Errors of event listeners and timers, which the browser reports and then goes on */
export const uncaught: unknown[] = [];

export class FakeNode extends FakeEventTarget {
  static ELEMENT_NODE = 1;
  static TEXT_NODE = 3;
  parentNode: FakeNode | null = null;
  childNodes: FakeNode[] = [];
  box: Box | null = null;
  ascent = 0;
  descent = 0;
  width = 0;

  get nodeType(): number { return 0; }
  get parentElement(): FakeElement | null { return this.parentNode instanceof FakeElement ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get nextSibling(): FakeNode | null {
    const siblings = this.parentNode?.childNodes ?? [];
    return siblings[siblings.indexOf(this) + 1] ?? null;
  }
  get previousSibling(): FakeNode | null {
    const siblings = this.parentNode?.childNodes ?? [];
    return siblings[siblings.indexOf(this) - 1] ?? null;
  }
  get isConnected(): boolean {
    let node: FakeNode | null = this;
    while (node) {
      if (node === document_) return true;
      node = node instanceof FakeShadowRoot ? node.host : node.parentNode;
    }
    return false;
  }
  getRootNode(): FakeNode {
    let node: FakeNode = this;
    while (node.parentNode) node = node.parentNode;
    return node;
  }
  get ownerDocument() { return document_; }

  private static toNodes(nodes: (FakeNode | string)[]): FakeNode[] {
    return nodes.flatMap((n) => {
      if (n instanceof FakeFragment) return n.childNodes.slice();
      return n instanceof FakeNode ? [n] : [new FakeText(String(n))];
    });
  }
  #insert(nodes: FakeNode[], before: FakeNode | null) {
    for (const node of nodes) {
      for (let up: FakeNode | null = this; up; up = up.parentNode) {
        if (up === node) throw new Error("HierarchyRequestError");
      }
      const wasConnected = node.isConnected;
      node.remove();
      const index = before ? this.childNodes.indexOf(before) : this.childNodes.length;
      this.childNodes.splice(index, 0, node);
      node.parentNode = this;
      changed();
      if (!wasConnected && this.isConnected) walk(node, (n) => react(n, "connectedCallback"));
    }
  }
  append(...nodes: (FakeNode | string)[]) { this.#insert(FakeNode.toNodes(nodes), null); }
  prepend(...nodes: (FakeNode | string)[]) { this.#insert(FakeNode.toNodes(nodes), this.firstChild); }
  appendChild<T extends FakeNode>(node: T): T { this.append(node); return node; }
  insertBefore<T extends FakeNode>(node: T, before: FakeNode | null): T { this.#insert(FakeNode.toNodes([node]), before); return node; }
  removeChild<T extends FakeNode>(node: T): T {
    if (node.parentNode !== this) throw new Error("NotFoundError");
    node.remove();
    return node;
  }
  replaceChildren(...nodes: (FakeNode | string)[]) {
    const list = FakeNode.toNodes(nodes);
    for (const child of this.childNodes.slice()) child.remove();
    this.#insert(list, null);
  }
  replaceWith(...nodes: (FakeNode | string)[]) {
    const parent = this.parentNode;
    if (!parent) return;
    const before = this.nextSibling;
    this.remove();
    parent.#insert(FakeNode.toNodes(nodes), before);
  }
  before(...nodes: (FakeNode | string)[]) { this.parentNode?.#insert(FakeNode.toNodes(nodes), this); }
  after(...nodes: (FakeNode | string)[]) { this.parentNode?.#insert(FakeNode.toNodes(nodes), this.nextSibling); }
  remove() {
    const parent = this.parentNode;
    if (!parent) return;
    const wasConnected = this.isConnected;
    parent.childNodes.splice(parent.childNodes.indexOf(this), 1);
    this.parentNode = null;
    changed();
    // What is not on the page has no focus
    if (wasConnected && document_.activeElement && !document_.activeElement.isConnected) document_.activeElement = null;
    if (wasConnected) walk(this, (n) => react(n, "disconnectedCallback"));
  }
  contains(other: FakeNode | null): boolean {
    for (let node = other; node; node = node.parentNode) if (node === this) return true;
    return false;
  }
  replaceChild<T extends FakeNode>(node: FakeNode, old: T): T {
    if (old.parentNode !== this) throw new Error("NotFoundError");
    old.replaceWith(node);
    return old;
  }
  cloneNode(deep = false): FakeNode {
    let copy: FakeNode;
    if (this instanceof FakeText) copy = new FakeText(this.data);
    else if (this instanceof FakeElement) {
      copy = createElementNS(this.namespaceURI, this.localName);
      for (const [name, value] of this.attributes_) (copy as FakeElement).setAttribute(name, value);
      for (const [name, value] of Object.entries(this.style)) if (typeof value === "string") (copy as FakeElement).style[name] = value;
    } else copy = new FakeFragment();
    if (deep) copy.append(...this.childNodes.map((c) => c.cloneNode(true)));
    return copy;
  }
  hasChildNodes() { return this.childNodes.length > 0; }
  get textContent(): string { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(text: string) { this.replaceChildren(...(text === "" ? [] : [new FakeText(text)])); }
}

function walk(node: FakeNode, f: (n: FakeNode) => void) {
  f(node);
  for (const child of node.childNodes.slice()) walk(child, f);
}

export class FakeText extends FakeNode {
  constructor(public data: string = "") { super(); }
  get nodeType() { return 3; }
  get nodeValue() { return this.data; }
  get length() { return this.data.length; }
  get textContent() { return this.data; }
  set textContent(text: string) { this.data = text; changed(); }
}

export class FakeFragment extends FakeNode {
  get nodeType() { return 11; }
  get children(): FakeElement[] { return this.childNodes.filter((c): c is FakeElement => c instanceof FakeElement); }
  get firstElementChild() { return this.children[0] ?? null; }
}
export class FakeShadowRoot extends FakeFragment {
  constructor(public host: FakeElement) { super(); }
}

export class FakeElement extends FakeNode {
  attributes_ = new Map<string, string>();
  style: any = {
    setProperty(name: string, value: string) { this[name.replace(/-([a-z])/g, (_: string, c: string) => c.toUpperCase())] = value; },
    removeProperty(name: string) { this.setProperty(name, ""); },
    getPropertyValue(name: string) { return this[name.replace(/-([a-z])/g, (_: string, c: string) => c.toUpperCase())] ?? ""; },
    set cssText(text: string) {
      for (const [name, value] of Object.entries(this)) if (typeof value === "string") delete this[name];
      for (const part of text.split(";")) {
        const at = part.indexOf(":");
        if (at > 0) this.setProperty(part.slice(0, at).trim(), part.slice(at + 1).trim());
      }
    },
  };
  localName = "";
  namespaceURI = HTML_NS;
  shadowRoot: FakeShadowRoot | null = null;
  get tabIndex() {
    const given = parseInt(this.getAttribute("tabindex") ?? "");
    return Number.isNaN(given) ? (this.takesInput ? 0 : -1) : given;
  }
  set tabIndex(v: number) { this.setAttribute("tabindex", v); }
  private get takesInput() { return ["textarea", "input", "button", "select"].includes(this.localName); }
  get focusable() { return this.takesInput || this.hasAttribute("tabindex"); }

  get nodeType() { return 1; }
  get tagName() { return this.namespaceURI === HTML_NS ? this.localName.toUpperCase() : this.localName; }
  get nodeName() { return this.tagName; }
  get children(): FakeElement[] { return this.childNodes.filter((c): c is FakeElement => c instanceof FakeElement); }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] ?? null; }
  get previousElementSibling() {
    const siblings = this.parentElement?.children ?? [];
    return siblings[siblings.indexOf(this) - 1] ?? null;
  }
  insertAdjacentElement(where: string, e: FakeElement) {
    if (where === "beforebegin") this.before(e);
    else if (where === "afterbegin") this.prepend(e);
    else if (where === "beforeend") this.append(e);
    else this.after(e);
    return e;
  }
  toggleAttribute(name: string, force?: boolean) {
    const on = force ?? !this.hasAttribute(name);
    on ? this.setAttribute(name, "") : this.removeAttribute(name);
    return on;
  }
  get offsetWidth() { return this.getBoundingClientRect().width; }
  get offsetHeight() { return this.getBoundingClientRect().height; }
  get nextElementSibling() {
    const siblings = this.parentElement?.children ?? [];
    return siblings[siblings.indexOf(this) + 1] ?? null;
  }
  get className() { return this.getAttribute("class") ?? ""; }
  set className(v: string) { this.setAttribute("class", v); }
  get id() { return this.getAttribute("id") ?? ""; }
  set id(v: string) { this.setAttribute("id", v); }
  get classList() {
    const names = () => this.className.split(/\s+/).filter((v) => v !== "");
    const self = this;
    return {
      add(...add: string[]) { self.className = [...new Set([...names(), ...add])].join(" "); },
      remove(...drop: string[]) { self.className = names().filter((v) => !drop.includes(v)).join(" "); },
      contains(name: string) { return names().includes(name); },
      toggle(name: string, force?: boolean) {
        const on = force ?? !names().includes(name);
        on ? this.add(name) : this.remove(name);
        return on;
      },
      get length() { return names().length; },
      [Symbol.iterator]() { return names()[Symbol.iterator](); },
    };
  }
  setAttribute(name: string, value: any) {
    const old = this.getAttribute(name);
    this.attributes_.set(name, String(value));
    react(this, "attributeChangedCallback", name, old, String(value));
  }
  setAttributeNS(_ns: string, name: string, value: any) { this.setAttribute(name, value); }
  getAttribute(name: string): string | null { return this.attributes_.get(name) ?? null; }
  hasAttribute(name: string) { return this.attributes_.has(name); }
  removeAttribute(name: string) {
    const old = this.getAttribute(name);
    if (old === null) return;
    this.attributes_.delete(name);
    react(this, "attributeChangedCallback", name, old, null);
  }
  getAttributeNames() { return [...this.attributes_.keys()]; }
  get attributes() { return [...this.attributes_].map(([name, value]) => ({ name, value })); }
  get dataset(): any {
    const self = this;
    return new Proxy({}, {
      set(_t, name: string, value) { self.setAttribute("data-" + name.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase()), value); return true; },
      get(_t, name: string) { return self.getAttribute("data-" + name.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase())) ?? undefined; },
    });
  }
  attachShadow(_options: any) { return (this.shadowRoot = new FakeShadowRoot(this)); }
  getBoundingClientRect() { return rectOf(boxOf(this)); }
  getClientRects() { return [this.getBoundingClientRect()]; }
  focus() {
    if (!this.isConnected || !this.focusable || document_.activeElement === this) return;
    document_.activeElement?.blur();
    document_.activeElement = this;
    this.dispatchEvent(new FakeEvent("focus"));
    this.dispatchEvent(new FakeEvent("focusin", { bubbles: true }));
  }
  blur() {
    if (document_.activeElement !== this) return;
    document_.activeElement = null;
    this.dispatchEvent(new FakeEvent("blur"));
    this.dispatchEvent(new FakeEvent("focusout", { bubbles: true }));
  }
  setPointerCapture(id: number) {
    if (!pointers.has(id)) throw new Error("NotFoundError: no such pointer");
    if (!this.isConnected) throw new Error("InvalidStateError: not on the page");
    captures.set(id, this);
  }
  releasePointerCapture(id: number) {
    if (!pointers.has(id)) throw new Error("NotFoundError: no such pointer");
    if (captures.get(id) === this) captures.delete(id);
  }
  hasPointerCapture(id: number) { return captures.get(id) === this; }
  get innerText() { return this.textContent; }
  set innerText(v: string) { this.textContent = v; }
  get innerHTML() { return this.childNodes.map(serialize).join(""); }
  set innerHTML(html: string) { this.replaceChildren(...parse(html)); }
  get outerHTML() { return serialize(this); }
  matches(selector: string) { return matchesSelector(this, selector); }
  closest(selector: string): FakeElement | null {
    for (let e: FakeElement | null = this; e; e = e.parentElement) if (e.matches(selector)) return e;
    return null;
  }
  querySelectorAll(selector: string): FakeElement[] {
    const out: FakeElement[] = [];
    walk(this, (n) => { if (n !== this && n instanceof FakeElement && n.matches(selector)) out.push(n); });
    return out;
  }
  querySelector(selector: string) { return this.querySelectorAll(selector)[0] ?? null; }
  getElementsByTagName(name: string) { return this.querySelectorAll(name); }
  getElementsByClassName(name: string) { return this.querySelectorAll("." + name); }
  insertAdjacentText(where: string, text: string) { this.insertAdjacentElement(where, new FakeText(text) as any); }
  insertAdjacentHTML(where: string, html: string) {
    const nodes = parse(html);
    if (where === "beforebegin") this.before(...nodes);
    else if (where === "afterbegin") this.prepend(...nodes);
    else if (where === "beforeend") this.append(...nodes);
    else this.after(...nodes);
  }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v: boolean) { this.toggleAttribute("hidden", v); }
  set outerHTML(html: string) { this.replaceWith(...parse(html)); }
  get isContentEditable() { return false; }
  scrollIntoView() {}
  click() { this.dispatchEvent(new FakeEvent("click", { bubbles: true })); }
}

function matchesSelector(e: FakeElement, selector: string): boolean {
  return selector.split(",").some((s) => {
    const m = /^([a-zA-Z-]+|\*)?((?:[.#][\w-]+|\[[\w-]+(?:=(?:"[^"]*"|'[^']*'|[\w-]+))?\])*)$/.exec(s.trim());
    if (!m) throw new Error("selector " + selector);
    if (m[1] && m[1] !== "*" && m[1].toLowerCase() !== e.localName.toLowerCase()) return false;
    return (m[2].match(/[.#][\w-]+|\[[^\]]+\]/g) ?? []).every((p) => {
      if (p[0] === ".") return e.classList.contains(p.slice(1));
      if (p[0] === "#") return e.id === p.slice(1);
      const [, name, value] = /^\[([\w-]+)(?:=(.*))?\]$/.exec(p)!;
      return e.hasAttribute(name) && (value === undefined || e.getAttribute(name) === value.replace(/^["']|["']$/g, ""));
    });
  });
}

/** Elements that were on the page before their class was defined */
let upgrading: FakeElement | null = null;
/** The custom element that is being made, or was made last */
export const latest: { custom: FakeElement | null } = { custom: null };

export class FakeHTMLElement extends FakeElement {
  constructor() {
    super();
    const name = definitions.get(new.target as any);
    if (!name) return;
    this.localName = name;
    if (upgrading) {
      const e = upgrading;
      upgrading = null;
      Object.setPrototypeOf(e, new.target.prototype);
      latest.custom = e;
      return e as any;
    }
    latest.custom = this;
  }
}
function upgrade(root: FakeNode, name: string, constructor: any) {
  walk(root, (n) => {
    if (!(n instanceof FakeElement) || n.localName !== name || n.namespaceURI !== HTML_NS || n instanceof constructor) return;
    upgrading = n;
    new constructor();
    upgrading = null;
    for (const [attribute, value] of n.attributes_) react(n, "attributeChangedCallback", attribute, null, value);
    react(n, "connectedCallback");
  });
}
/** Calls a custom element, errors are reported and then it goes on */
function react(e: any, callback: string, ...args: any[]) {
  if (!(callback in e)) return;
  if (callback === "attributeChangedCallback" && !((e.constructor as any).observedAttributes ?? []).includes(args[0])) return;
  try {
    e[callback](...args);
  } catch (error) {
    uncaught.push(error);
  }
}
export class FakeTemplate extends FakeHTMLElement {
  content = new FakeFragment();
  get innerHTML() { return this.content.childNodes.map(serialize).join(""); }
  set innerHTML(html: string) { this.content.replaceChildren(...parse(html)); }
}
export class FakeMathMLElement extends FakeElement {
  namespaceURI = MATH_NS;
}

/** As if nothing had been defined: for the next page */
export function forgetDefinitions(): () => void {
  const kept = [...constructors];
  constructors.clear();
  return () => {
    constructors.clear();
    for (const [name, constructor] of kept) constructors.set(name, constructor);
  };
}
const definitions = new Map<any, string>();
const constructors = new Map<string, any>();

function createElementNS(ns: string, name: string): FakeElement {
  let e: FakeElement;
  if (ns === MATH_NS) e = new FakeMathMLElement();
  else if (name === "template") e = new FakeTemplate();
  else if (constructors.has(name)) e = new (constructors.get(name))();
  else e = new FakeHTMLElement();
  e.localName = name;
  return e;
}

class FakeDocument extends FakeNode {
  get nodeType() { return 9; }
  body: FakeElement = null as any;
  documentElement: FakeElement = null as any;
  activeElement: any = null;
  createElement(name: string) { return createElementNS(HTML_NS, name.toLowerCase()); }
  createElementNS(ns: string, name: string) { return createElementNS(ns, name); }
  createTextNode(text: string) { return new FakeText(String(text)); }
  createDocumentFragment() { return new FakeFragment(); }
  createRange() { return new FakeRange(); }
  createComment(_text: string) { return new FakeText(""); }
  importNode(node: FakeNode, deep = false) { return node.cloneNode(deep); }
  adoptNode(node: FakeNode) { node.remove(); return node; }
  getElementById(id: string) { return this.body.querySelectorAll("*").find((e) => e.id === id) ?? null; }
  getElementsByTagName(name: string) { return this.body.querySelectorAll(name); }
  getElementsByClassName(name: string) { return this.body.querySelectorAll("." + name); }
  hasFocus() { return true; }
  querySelectorAll(selector: string) { return this.body.querySelectorAll(selector); }
  querySelector(selector: string) { return this.body.querySelector(selector); }
}

class FakeRange {
  #node: FakeNode | null = null;
  #start = 0;
  #end = Infinity;
  selectNode(node: FakeNode) { this.#node = node; this.#start = 0; this.#end = Infinity; }
  selectNodeContents(node: FakeNode) { this.selectNode(node); }
  setStart(node: FakeNode, index: number) { this.#node = node; this.#start = index; this.#end = Math.max(this.#end === Infinity ? index : this.#end, index); }
  setEnd(node: FakeNode, index: number) { this.#node = node; this.#end = index; }
  getBoundingClientRect() {
    const node = this.#node!;
    const box = boxOf(node);
    if (!(node instanceof FakeText) || node.length === 0) return rectOf(box);
    const start = Math.min(this.#start, node.length) / node.length;
    const end = Math.min(this.#end, node.length) / node.length;
    return rectOf({ ...box, x: box.x + box.w * start, w: box.w * (end - start) });
  }
  getClientRects() { return [this.getBoundingClientRect()]; }
}

let version = 0;
let laidOut = -1;
function changed() { version++; }
export function relayout() { version++; }

const document_: FakeDocument = new FakeDocument();
document_.documentElement = createElementNS(HTML_NS, "html");
document_.append(document_.documentElement);
document_.body = createElementNS(HTML_NS, "body");
document_.documentElement.append(document_.body);

/** What gets the events of the whole window */
const window_ = new FakeEventTarget();
export { window_ as window };
const timers: (() => void)[] = [];
const intervals = new Set<number>();
/** What is still scheduled */
export const scheduled = () => timers.length + intervals.size;
const timersById = new Map<number, () => void>();
let lastTimer = 0;
function addTimer(f: (...args: any[]) => void, args: any[] = []): number {
  const id = ++lastTimer;
  const run = () => { timersById.delete(id); f(...args); };
  timersById.set(id, run);
  timers.push(run);
  return id;
}
function removeTimer(id: number) {
  const run = timersById.get(id);
  if (!run) return;
  timersById.delete(id);
  timers.splice(timers.indexOf(run), 1);
}
/** Runs what was scheduled */
export function runTimers() {
  while (timers.length > 0) {
    try {
      timers.shift()!();
    } catch (e) {
      uncaught.push(e);
    }
  }
}

export function install() {
  const g = globalThis as any;
  g.document = document_;
  g.window = g;
  g.Node = FakeNode;
  g.Text = FakeText;
  g.Element = FakeElement;
  g.HTMLElement = FakeHTMLElement;
  g.HTMLTemplateElement = FakeTemplate;
  g.MathMLElement = FakeMathMLElement;
  g.DocumentFragment = FakeFragment;
  g.ShadowRoot = FakeShadowRoot;
  g.Event = FakeEvent;
  for (const name of ["UIEvent", "MouseEvent", "PointerEvent", "KeyboardEvent", "InputEvent", "FocusEvent", "ClipboardEvent", "CustomEvent", "CompositionEvent"]) {
    // Which one it is can be told from its type
    g[name] = class extends FakeEvent {
      static [Symbol.hasInstance](e: any) { return e instanceof FakeEvent; }
    };
  }
  g.Document = FakeDocument;
  g.Range = FakeRange;
  g.EventTarget = FakeEventTarget;
  g.DOMRect = g.DOMRectReadOnly = class {
    constructor(x = 0, y = 0, w = 0, h = 0) { Object.assign(this, rectOf({ x, y, w, h })); }
    static fromRect(r: any = {}) { return new g.DOMRect(r.x, r.y, r.width, r.height); }
  };
  g.DOMPoint = g.DOMPointReadOnly = class {
    constructor(public x = 0, public y = 0, public z = 0, public w = 1) {}
  };
  g.DOMParser = class {
    parseFromString(text: string) {
      const root = new FakeFragment();
      root.append(...parse(text));
      return { documentElement: root.firstElementChild, body: root, querySelector: (q: string) => [...root.children, ...root.children.flatMap((c) => c.querySelectorAll("*"))].find((e) => e.matches(q)) ?? null };
    }
  };
  g.customElements = {
    define(name: string, constructor: any) {
      if (constructors.has(name)) throw new Error(`NotSupportedError: ${name} is defined already`);
      definitions.set(constructor, name);
      constructors.set(name, constructor);
      upgrade(document_, name, constructor);
    },
    get: (name: string) => constructors.get(name),
    whenDefined: (name: string) => Promise.resolve(constructors.get(name)),
  };
  g.getComputedStyle = (_e: any) => ({ getPropertyValue: (name: string) => (name === "font-size" ? `${16 * layoutOptions.scale}px` : ""), fontSize: `${16 * layoutOptions.scale}px` });
  g.setTimeout = (f: any, _delay?: number, ...args: any[]) => addTimer(f, args);
  g.clearTimeout = removeTimer;
  // Time does not pass
  g.setInterval = () => { intervals.add(++lastTimer); return lastTimer; };
  g.clearInterval = (id: number) => { intervals.delete(id); };
  for (const name of ["addEventListener", "removeEventListener", "dispatchEvent"] as const) g[name] = (...args: [any, any, any]) => (window_ as any)[name](...args);
  g.queueMicrotask = (f: () => void) => { addTimer(f); };
  g.requestAnimationFrame = (f: any) => addTimer(f, [0]);
  g.cancelAnimationFrame = removeTimer;
  g.getSelection = () => null;
  g.MutationObserver = class { observe() {} disconnect() {} takeRecords() { return []; } };
  g.ResizeObserver = class { observe() {} unobserve() {} disconnect() {} };
}
export { document_ as document };

// ---- Layout ----

function boxOf(node: FakeNode): Box {
  if (!node.isConnected) return { x: 0, y: 0, w: 0, h: 0 };
  if (laidOut !== version) {
    laidOut = version;
    clear(document_);
    const y = { at: layoutOptions.originY };
    layoutBlock(document_.body, y);
  }
  return node.box ?? { x: layoutOptions.elseX, y: layoutOptions.elseY, w: 0, h: 0 };
}
function clear(node: FakeNode) {
  walk(node, (n) => {
    n.box = null;
    if (n instanceof FakeElement && n.shadowRoot) clear(n.shadowRoot);
  });
}
/** Everything outside of formulas has no size and is in one place, formulas stand below each other */
function layoutBlock(node: FakeNode, y: { at: number }) {
  if (node instanceof FakeElement && node.localName === "math") {
    const s = layoutOptions.scale;
    measure(node);
    place(node, layoutOptions.originX + 7 * s, y.at + 20 * s + node.ascent);
    y.at = node.box!.y + node.box!.h;
    return;
  }
  for (const child of node.childNodes) layoutBlock(child, y);
  if (node instanceof FakeElement && node.shadowRoot) layoutBlock(node.shadowRoot, y);
}

/** Symbols have different widths */
function textWidth(text: string): number {
  let h = 7;
  for (const c of text) h = (h * 31 + c.codePointAt(0)!) % 1009;
  return text === "" ? 0 : 6 + (h % 7) + 2 * Math.min(text.length, 4);
}

const PAD = 2;
function measure(node: FakeNode) {
  const s = layoutOptions.scale;
  if (node instanceof FakeText) {
    node.width = textWidth(node.data) * s;
    node.ascent = 8 * s;
    node.descent = 3 * s;
    return;
  }
  const kids = boxesIn(node);
  kids.forEach(measure);
  const pad = PAD * s;
  const name = (node as FakeElement).localName;
  const [a, b] = kids;
  if (name === "mfrac" && kids.length === 2) {
    node.width = Math.max(a.width, b.width) + 2 * pad;
    node.ascent = a.ascent + a.descent + 3 * s + 2 * pad;
    node.descent = b.ascent + b.descent - 3 * s + 2 * pad;
  } else if (name === "mroot" && kids.length === 2) {
    node.width = a.width + b.width + 4 * pad;
    node.ascent = Math.max(a.ascent, b.ascent + b.descent + 5 * s) + 2 * pad;
    node.descent = a.descent + pad;
  } else if (name === "msup" && kids.length === 2) {
    const up = b.descent + Math.max(6 * s, a.ascent - 2 * s);
    node.width = a.width + b.width + pad;
    node.ascent = Math.max(a.ascent, up + b.ascent);
    node.descent = a.descent;
  } else if (name === "msub" && kids.length === 2) {
    const down = b.ascent + Math.max(1 * s, a.descent - 2 * s);
    node.width = a.width + b.width + pad;
    node.ascent = a.ascent;
    node.descent = Math.max(a.descent, down + b.descent);
  } else if (name === "mtable") {
    const { widths, heights } = tableSizes(node);
    node.width = widths.reduce((x, y) => x + y, 0) + pad;
    const height = heights.reduce((x, y) => x + y, 0) + pad;
    node.ascent = height / 2 + 3 * s;
    node.descent = height / 2 - 3 * s;
  } else {
    node.width = kids.reduce((x, k) => x + k.width, 0);
    node.ascent = Math.max(0, ...kids.map((k) => k.ascent));
    node.descent = Math.max(0, ...kids.map((k) => k.descent));
    if (name === "mtd") {
      node.ascent = Math.max(node.ascent, 8 * s) + 2 * pad;
      node.descent = Math.max(node.descent, 3 * s) + 2 * pad;
      node.width = Math.max(node.width, 8 * s) + 4 * pad;
    } else if (name === "mo") {
      node.width += 2 * s;
    }
  }
}
/** Text between elements is not shown */
function boxesIn(node: FakeNode): FakeNode[] {
  const token = node instanceof FakeElement && ["mi", "mo", "mn", "mtext", "mspace", "ms", "merror"].includes(node.localName);
  return token ? node.childNodes : node.childNodes.filter((c) => c instanceof FakeElement);
}
function tableSizes(node: FakeNode) {
  const rows = boxesIn(node).map((r) => boxesIn(r));
  const widths: number[] = [];
  for (const row of rows) row.forEach((cell, i) => (widths[i] = Math.max(widths[i] ?? 0, cell.width)));
  const heights = rows.map((row) => Math.max(0, ...row.map((c) => c.ascent)) + Math.max(0, ...row.map((c) => c.descent)));
  return { rows, widths, heights };
}

function place(node: FakeNode, x: number, baseline: number) {
  const s = layoutOptions.scale;
  const pad = PAD * s;
  node.box = { x, y: baseline - node.ascent, w: node.width, h: node.ascent + node.descent };
  if (node instanceof FakeText) return;
  const kids = boxesIn(node);
  const name = (node as FakeElement).localName;
  const [a, b] = kids;
  if (name === "mfrac" && kids.length === 2) {
    place(a, x + (node.width - a.width) / 2, baseline - 3 * s - pad - a.descent);
    place(b, x + (node.width - b.width) / 2, baseline - 3 * s + pad + b.ascent);
  } else if (name === "mroot" && kids.length === 2) {
    place(b, x + pad, baseline - 5 * s - b.descent);
    place(a, x + 3 * pad + b.width, baseline);
  } else if (name === "msup" && kids.length === 2) {
    place(a, x, baseline);
    place(b, x + a.width + pad, baseline - b.descent - Math.max(6 * s, a.ascent - 2 * s));
  } else if (name === "msub" && kids.length === 2) {
    place(a, x, baseline);
    place(b, x + a.width + pad, baseline + b.ascent + Math.max(1 * s, a.descent - 2 * s));
  } else if (name === "mtable") {
    const { rows, widths, heights } = tableSizes(node);
    let top = node.box.y + pad / 2;
    boxesIn(node).forEach((tr, y) => {
      tr.box = { x: x + pad / 2, y: top, w: node.width - pad, h: heights[y] };
      let left = x + pad / 2;
      const ascent = Math.max(0, ...rows[y].map((c) => c.ascent));
      rows[y].forEach((cell, i) => {
        place(cell, left, top + ascent);
        // A cell takes all the room
        cell.box = { x: left, y: top, w: widths[i], h: heights[y] };
        left += widths[i];
      });
      top += heights[y];
    });
  } else {
    let left = x + (name === "mo" ? s : 0) + (name === "mtd" ? 2 * pad : 0);
    for (const kid of kids) {
      place(kid, left, baseline);
      left += kid.width;
    }
  }
}

// ---- HTML ----

const VOID = new Set(["br", "img", "input"]);
function decode(text: string) {
  const named: Record<string, string> = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\xA0" };
  return text.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (all, name) => {
    if (name[0] === "#") return String.fromCodePoint(name[1] === "x" ? parseInt(name.slice(2), 16) : parseInt(name.slice(1), 10));
    return named[name] ?? all;
  });
}
export function encode(text: string) {
  return text.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;").replace(/\xA0/g, "&nbsp;");
}
function serialize(node: FakeNode): string {
  if (node instanceof FakeText) return encode(node.data);
  const e = node as FakeElement;
  const attributes = e.attributes.map((a) => ` ${a.name}="${encode(a.value)}"`).join("");
  return `<${e.localName}${attributes}>${e.childNodes.map(serialize).join("")}</${e.localName}>`;
}
function parse(html: string): FakeNode[] {
  const top = new FakeFragment();
  const stack: FakeNode[] = [top];
  const token = /<!--[\s\S]*?-->|<\/([\w-]+)\s*>|<([\w-]+)((?:\s+[\w:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'))?)*)\s*(\/?)>|[^<]+|</g;
  for (const m of html.matchAll(token)) {
    const current = stack[stack.length - 1];
    if (m[0].startsWith("<!--")) continue;
    if (m[1] !== undefined) {
      const at = stack.findLastIndex((n) => n instanceof FakeElement && n.localName === m[1].toLowerCase());
      if (at > 0) stack.length = at;
    } else if (m[2] !== undefined) {
      const name = m[2].toLowerCase();
      const inMath = name === "math" || (current instanceof FakeElement && current.namespaceURI === MATH_NS);
      const e = createElementNS(inMath ? MATH_NS : HTML_NS, name);
      for (const a of m[3].matchAll(/([\w:-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'))?/g)) e.attributes_.set(a[1], decode(a[2] ?? a[3] ?? ""));
      current.append(e);
      // In HTML, only foreign elements can be closed right away
      if (!(m[4] && inMath) && !VOID.has(name)) stack.push(e);
    } else {
      current.append(new FakeText(decode(m[0])));
    }
  }
  return top.childNodes.slice();
}
