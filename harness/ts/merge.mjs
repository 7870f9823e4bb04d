// Puts the results of the workers together: report and evidence
import * as fs from "node:fs";
import * as path from "node:path";
import * as crypto from "node:crypto";

const [command, ...args] = process.argv.slice(2);
if (command === "total") {
  const counts = JSON.parse(fs.readFileSync(path.join(args[0], "counts.json"), "utf8"))[args[1]];
  console.log(counts[args[2] === "thorough" ? "thorough" : "quick"]);
  process.exit(0);
}
const [scratch, id, tier, seed, root, start, workers] = args;
const results = [];
const violations = [];
for (let i = 0; i < Number(workers); i++) {
  try {
    results.push(JSON.parse(fs.readFileSync(path.join(scratch, `result${i}.json`), "utf8")));
  } catch {
    let err = "";
    try { err = fs.readFileSync(path.join(scratch, `err${i}`), "utf8"); } catch {}
    console.error(err.slice(0, 4000));
    // The code under test hung or could not even be loaded
    violations.push({ text: `worker ${i} gave no result: ${err.split("\n").slice(0, 6).join(" ").slice(0, 600)}`, value: { property: id, worker: i, seed, tier } });
  }
}
const counters = {};
const distinct = new Set();
const findings = {};
let executed = 0, requests = 0, failed = 0;
for (const r of results) {
  executed += r.executed;
  requests += r.requests;
  for (const [k, v] of Object.entries(r.counters)) counters[k] = (counters[k] ?? 0) + v;
  for (const d of r.distinct) distinct.add(d);
  Object.assign(findings, r.findings);
}
const failures = results.flatMap((r) => r.failures).sort((a, b) => a.size - b.size || a.index - b.index);
failed = failures.length;
const kinds = new Set();
for (const f of failures) {
  const kind = f.message.replace(/\d/g, "").slice(0, 60);
  if (kinds.has(kind) || kinds.size >= 5) continue;
  kinds.add(kind);
  violations.push({ text: [f.message, ...f.trace.map((t) => "  " + t)].join("\n"), value: { property: id, ...f } });
}
const known = {};
for (const line of fs.existsSync(path.join(root, "known_findings.txt")) ? fs.readFileSync(path.join(root, "known_findings.txt"), "utf8").split("\n") : []) {
  const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(line);
  if (m && m[1] === id) known[m[2]] = m[3];
}
const seen = [];
for (const [key, detail] of Object.entries(findings)) {
  if (key in known) {
    console.log(`KNOWN-FINDING: property=${id} ${known[key]} (${key})`);
    seen.push(key);
  } else {
    violations.push({ text: `${key}: ${detail}`, value: { property: id, probe: true, key, message: detail } });
  }
}
const wall = Date.now() / 1000 - Number(start);
const evidence = {
  property: id,
  tier: tier === "thorough" ? "thorough" : "quick",
  seed: Number(seed),
  level: "exploration",
  coverage: {
    evaluations: executed,
    distinct_nontrivial: distinct.size,
    rule: results[0]?.rule ?? "",
    samples: results.flatMap((r) => r.samples).slice(0, 6),
    monitor_counters: counters,
    requests_to_the_editor: requests,
    known_findings_seen: seen,
    failed_cases: failed,
    warnings: [...new Set(results.flatMap((r) => r.warnings))],
  },
  assumptions: results[0]?.assumptions ?? [],
  wall_s: wall,
  violations: violations.length,
};
fs.mkdirSync(path.join(root, "evidence"), { recursive: true });
fs.writeFileSync(path.join(root, "evidence", `${id}.json`), JSON.stringify(evidence, null, 2));
console.log(`${id}: ${executed} cases, ${distinct.size} distinct, ${wall.toFixed(1)} s`);
for (const { text, value } of violations) {
  console.log(text);
  const body = JSON.stringify(value, null, 2);
  fs.mkdirSync(path.join(root, "replays"), { recursive: true });
  const file = path.join(root, "replays", `${id}-${crypto.createHash("sha1").update(body).digest("hex").slice(0, 16)}.json`);
  fs.writeFileSync(file, body);
  console.log(`VIOLATION property=${id} replay=${file}`);
}
process.exit(violations.length > 0 ? 1 : 0);
