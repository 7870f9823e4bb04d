// Takes the place of the wasm bindings `aftermath-core/pkg`: forwards to the real editor in another process (see serve.rs).
import * as fs from "node:fs";
import { latest } from "./dom";

const chunk = Buffer.alloc(1 << 16);
export const stats = { requests: 0 };

export class Died extends Error {}

function send(text: string) {
  const bytes = Buffer.from(text + "\n");
  let at = 0;
  while (at < bytes.length) {
    try {
      at += fs.writeSync(4, bytes, at);
    } catch (e: any) {
      if (e.code === "EAGAIN") continue;
      throw new Died("the editor process has ended");
    }
  }
  const parts: Buffer[] = [];
  for (;;) {
    let n: number;
    try {
      n = fs.readSync(3, chunk, 0, chunk.length, null);
    } catch (e: any) {
      if (e.code === "EAGAIN") continue;
      throw e;
    }
    if (n === 0) throw new Died("the editor process has ended");
    parts.push(Buffer.from(chunk.subarray(0, n)));
    if (chunk[n - 1] === 10) break;
  }
  return Buffer.concat(parts).toString("utf8");
}

export class Panic extends Error {}

export function call(...request: any[]): any {
  stats.requests++;
  const answer = JSON.parse(send(JSON.stringify(request)));
  if ("panic" in answer) throw new Panic(answer.panic);
  if ("error" in answer) throw answer.error;
  return answer.ok ?? undefined;
}

export default async function init() {}

/** What the application set up */
export const setup = { created: [] as string[], used: [] as string[], names: undefined as [string[], number][] | undefined };

function ensureParser() {
  if (!setup.names) setup.names = call("parser", setup.created, setup.used);
  return setup.names!;
}

export class BoxedParseModule {
  constructor(readonly name: string) {}
}
export class ParseModulesBindings {
  get_built_in() { return new BoxedParseModule("built_in"); }
  get_syntax_node_name_map() {
    const names = ensureParser();
    return { values: new Map(names), reverse_values: new Map(names.map(([k, v]) => [v, k])) };
  }
}
const make = (name: string) => (modules: any) => {
  if (!(modules instanceof ParseModulesBindings)) throw new Error("expected ParseModulesBindings");
  setup.created.push(name);
  return new BoxedParseModule(name);
};
export const ParseModulesCreator = {
  make_core: make("core"), make_arithmetic: make("arithmetic"), make_calculus: make("calculus"),
  make_collections: make("collections"), make_comparison: make("comparison"), make_function: make("function"),
  make_logic: make("logic"), make_string: make("string"),
};
export class ParseModuleCollectionBindings {
  modules: string[] = [];
  constructor(_modules: any) {}
  add_module(module: BoxedParseModule) { this.modules.push(module.name); }
}
export class MathParserBindings {
  constructor(collection: ParseModuleCollectionBindings) { setup.used = collection.modules.filter((m) => m !== "built_in"); }
}

export class MathEditorBindings {
  readonly id: number;
  /** What the component asked the editor to do */
  log: any[][] = [];
  static last: MathEditorBindings;
  static all: MathEditorBindings[] = [];
  /** The element that it was made for */
  owner = latest.custom;
  constructor(_parser: any) {
    ensureParser();
    MathEditorBindings.last = this;
    MathEditorBindings.all.push(this);
    this.id = call("web_new");
  }
  private do(op: string, ...args: any[]) {
    this.log.push([op, ...args]);
    return call(op, this.id, ...args);
  }
  free() { call("drop", this.id); }
  focus() { return this.do("focus"); }
  unfocus() { return this.do("unfocus"); }
  move_caret(direction: any, mode: any) { return this.do("move_caret", direction, mode); }
  select_with_caret(direction: any, mode: any) { return this.do("select_with_caret", direction, mode); }
  remove_at_caret(remove: any, mode: any) { return this.do("remove_at_caret", remove, mode); }
  insert_at_caret(values: string[]) { return this.do("insert_at_caret", values); }
  select_all() { return this.do("select_all"); }
  undo() { return this.do("undo"); }
  redo() { return this.do("redo"); }
  start_selection(position: any, mode: any) { return this.do("start_selection", position, mode); }
  extend_selection(position: any) { return this.do("extend_selection", position); }
  finish_selection() { return this.do("finish_selection"); }
  copy(type: any) { return this.do("copy", type); }
  paste(data: string, type?: any) { return this.do("paste", data, type ?? null); }
  open_autocomplete() { return this.do("open_autocomplete"); }
  finish_autocomplete(accept: boolean) { return this.do("finish_autocomplete", accept); }
  move_in_autocomplete(direction: any) { return this.do("move_in_autocomplete", direction); }
  get_autocomplete() { return call("get_autocomplete", this.id); }
  get_caret() { return call("get_caret", this.id); }
  get_input_tree() { return call("get_input_tree", this.id); }
  get_syntax_tree() { return call("get_syntax_tree", this.id); }
  splice_at_range(range: any, values: any) { return this.do("splice_at_range", range, values); }
}
