import { hash, Rng } from "./rng";

export class Mon {
  counters: Record<string, number> = {};
  distinctSet = new Set<number>();
  samples: string[] = [];
  trace: string[] = [];
  findings: Record<string, string> = {};
  count(key: string, n = 1) { this.counters[key] = (this.counters[key] ?? 0) + n; }
  distinct(text: string) { if (this.distinctSet.size < 2_000_000) this.distinctSet.add(hash(text) * 4096 + (hash(text, 1) & 4095)); }
  note(text: string) { this.trace.push(text); }
  sample(text: string) { if (this.samples.length < 2 && text.length > 60) this.samples.push(text.slice(0, 600)); }
  finding(key: string, detail: string) { this.findings[key] ??= detail; }
}
export class Violation extends Error {}
export function ensure(condition: any, message: () => string): asserts condition {
  if (!condition) throw new Violation(message());
}
export type Check = {
  rule: string;
  assumptions: string[];
  run: (rng: Rng, size: number, mon: Mon) => void | Promise<void>;
  /** Run once, by the first worker */
  probe?: (mon: Mon) => void;
};
