export function hash(text: string, seed = 0): number {
  let h = 0x811c9dc5 ^ seed;
  for (let i = 0; i < text.length; i++) h = Math.imul(h ^ text.charCodeAt(i), 0x01000193);
  h ^= h >>> 15; h = Math.imul(h, 0x2c1b3c6d); h ^= h >>> 12; h = Math.imul(h, 0x297a2d39); h ^= h >>> 15;
  return h >>> 0;
}
/** mulberry32 */
export class Rng {
  private s: number;
  constructor(seed: number) { this.s = seed >>> 0; }
  next(): number {
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  below(n: number): number { return Math.floor((this.next() / 4294967296) * n); }
  between(a: number, b: number): number { return a + this.below(b - a + 1); }
  float(): number { return this.next() / 4294967296; }
  bool(): boolean { return this.below(2) === 0; }
  oneIn(n: number): boolean { return this.below(n) === 0; }
  percent(n: number): boolean { return this.below(100) < n; }
  pick<T>(list: readonly T[]): T { return list[this.below(list.length)]; }
}
