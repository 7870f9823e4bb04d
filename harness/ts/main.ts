import "./setup";
import * as fs from "node:fs";
import { Died, stats } from "./pkg";
import { hash, Rng } from "./rng";
import { Mon, type Check } from "./mon";
import { C31 } from "./check_import";
import { C34 } from "./check_component";
import { C35 } from "./check_load";
import { C32, C33 } from "./check_render";
import { C41 } from "./check_work";
import { C43 } from "./check_keep";

const checks: Record<string, Check> = { C31, C32, C33, C34, C35, C41, C43 };
const log = console.log;
console.log = () => {};
const warnings: Record<string, number> = {};
console.warn = (m: any) => { warnings[String(m).slice(0, 200)] = 1; };
console.error = () => {};

const [id, command, ...rest] = process.argv.slice(2);
const check = checks[id];
const mon = new Mon();

async function runCase(seed: number, size: number): Promise<{ message: string; died: boolean } | null> {
  mon.trace = [];
  try {
    await check.run(new Rng(seed), size, mon);
    return null;
  } catch (e: any) {
    const message = e instanceof Error ? (e.constructor.name === "Violation" ? e.message : `${e.constructor.name}: ${e.message} ${(e.stack ?? "").split("\n").slice(1, 4).join(" ").replace(/\s+/g, " ")}`) : String(e);
    return { message, died: e instanceof Died };
  }
}

if (command === "replay") {
  const replay = JSON.parse(fs.readFileSync(rest[0], "utf8"));
  const failure = await runCase(Number(replay.case_seed), replay.size);
  mon.trace.forEach((t) => log("  " + t));
  log("replay: " + (failure ? failure.message : "holds"));
  if (failure) log(`VIOLATION property=${id} replay=${rest[0]}`);
  process.exit(failure ? 1 : 0);
} else {
  const [worker, workers, seed, total, limit, out] = [Number(rest[0]), Number(rest[1]), rest[2], Number(rest[3]), Number(rest[4]), rest[5]];
  const start = Date.now();
  const failures: any[] = [];
  let executed = 0;
  if (worker === 0 && check.probe) {
    try {
      check.probe(mon);
    } catch (e: any) {
      failures.push({ probe: true, message: `probe: ${e.message ?? e}`, trace: mon.trace, size: 0, index: -1 });
    }
  }
  for (let index = worker; index < total; index += workers) {
    if (Date.now() - start > limit * 1000) break;
    const ramp = Math.min(total / 2, 20000);
    const size = index < ramp ? Math.floor((index * 100) / ramp) : hash(String(index)) % 101;
    const caseSeed = hash(`${seed}/${id}/${index}`);
    const failure = await runCase(caseSeed, size);
    executed++;
    if (failure) {
      failures.push({ case_seed: String(caseSeed), size, index, message: failure.message, trace: mon.trace });
      if (failures.length >= 5 || failure.died) break;
    }
  }
  fs.writeFileSync(out, JSON.stringify({ executed, requests: stats.requests, failures, counters: mon.counters, distinct: [...mon.distinctSet], samples: mon.samples, findings: mon.findings, warnings: Object.keys(warnings), rule: check.rule, assumptions: check.assumptions }));
  process.exit(0);
}
