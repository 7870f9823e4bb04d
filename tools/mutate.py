#!/usr/bin/env python3
"""Plants small mechanical changes one after another in scratch copies and reports those no check notices.
usage: mutate.py OUT.jsonl WORKERS CHECK,CHECK,... FILE... (files relative to the repository)
A way to find gaps in the checks; no check uses it."""
import json, os, re, shutil, subprocess, sys, threading, queue, random
out_path, workers, checks, files = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(","), sys.argv[4:]
SCRATCH = os.environ.get("SCRATCH", "/tmp/mut")
CASES = os.environ.get("CASES_DIV", "4")
RULES = [
    (r" <= ", [" < "]), (r" < ", [" <= "]), (r" >= ", [" > "]), (r" > ", [" >= "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" === ", [" !== "]), (r" !== ", [" === "]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b|>)", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.start\b", [".end"]), (r"\.end\b", [".start"]), (r"\bstart\b(?!:)", ["end"]), (r"\bend\b(?!:)", ["start"]),
    (r"\bLeft\b", ["Right"]), (r"\bRight\b", ["Left"]), (r"\bUp\b", ["Down"]), (r"\bDown\b", ["Up"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\bwidth\b(?!:)", ["height"]), (r"\bheight\b(?!:)", ["width"]),
    (r"\bleft\b(?!:)", ["right"]), (r"\bright\b(?!:)", ["left"]), (r"\btop\b(?!:)", ["bottom"]), (r"\bbottom\b(?!:)", ["top"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.\.=", [".."]), (r"\.rev\(\)", [""]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]),
    (r"\bif (?!let)([^{]+) \{", [r"if true {", r"if false {"]), (r"\bif \((.+)\)", ["if (true)", "if (false)"]),
    (r"\bSome\(([a-z_.]+)\)(?=[,;)]|$)", ["None"]), (r"\bBefore\b", ["After"]), (r"\bGreater\b", ["Less"]), (r"\bLess\b", ["Greater"]),
    (r"\bSup\b", ["Sub"]), (r"\bSub\b", ["Sup"]), (r"\banchor\b", ["focus"]), (r"\bHorizontal\b", ["Vertical"]), (r"\bVertical\b", ["Horizontal"]),
    (r"\bInfix\b", ["Postfix"]), (r"\bPrefix\b", ["Postfix"]), (r"\.clone\(\)\.", ["."]), (r"\binsert\b", ["remove"]), (r"\?\?", ["&&"]),
    (r"\.unwrap_or\(0\)", [".unwrap_or(1)"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\bindex\b", ["0"]), (r"\boffset\b(?!:)", ["0"]),
]
STATEMENT = re.compile(r"^\s*(?!let |const |return|use |pub |import |type |}|break|continue|mod |assert|debug_assert|export )[A-Za-z_*(].*;\s*$")
mutants = []
for f in files:
    text = open("/repo/" + f).read().split("\n")
    skip = False
    for n, line in enumerate(text):
        s = line.strip()
        if s.startswith("#[cfg(test)]"): break
        if s.startswith(("//", "use ", "*", "/*", "import ", "#[", "mod ", "pub mod", "pub use", "export type", "export interface", "assert", "debug_assert")) or s == "": continue
        if re.match(r"(pub )?(fn|struct|enum|trait|impl)\b", s) and not s.endswith(","): continue
        code = re.split(r"\s//", line)[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2 == 1: continue
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    mutants.append((f, n, line, new))
        if STATEMENT.match(line): mutants.append((f, n, line, re.match(r"\s*", line).group(0) + ";"))
seen = set(); unique = []
for m in mutants:
    k = (m[0], m[1], m[3])
    if k not in seen: seen.add(k); unique.append(m)
random.Random(5).shuffle(unique)
limit = int(os.environ.get("MAX_MUTANTS", "100000"))
unique = unique[:limit]
print(len(unique), "mutants", flush=True)
jobs = queue.Queue()
for m in unique: jobs.put(m)
lock = threading.Lock(); out = open(out_path, "a"); stats = {}
cpus = os.cpu_count() // workers
def setup(w):
    base = f"{SCRATCH}/w{w}"
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", "node_modules", "--exclude", ".git", "/repo/", base + "/repo/"], check=True) if shutil.which("rsync") else subprocess.run(f"cd /repo && git archive HEAD | (mkdir -p {base}/repo && tar x -C {base}/repo)", shell=True, check=True)
    subprocess.run(f"cd {os.environ.get("VERIF", "/verif")} && git ls-files -z | tar c --null -T - | (mkdir -p {base}/verif && tar x -C {base}/verif)", shell=True, check=True)
    subprocess.run(f"grep -rlE '\"/repo' {base}/verif/harness --include=Cargo.toml | xargs sed -i 's#\"/repo#\"{base}/repo#g'", shell=True, check=True)
    return base
def run(w):
    base = setup(w)
    # generous on purpose: a slow case is no gap
    env = dict(os.environ, REPO=base + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
    mask = ",".join(str(c) for c in range(w * cpus, (w + 1) * cpus))
    while True:
        try: f, n, old, new = jobs.get_nowait()
        except queue.Empty: return
        path = f"{base}/repo/{f}"
        text = open(path).read()
        lines = text.split("\n"); lines[n] = new
        open(path, "w").write("\n".join(lines))
        result = "SURVIVED"
        for c in checks:
            try:
                r = subprocess.run(["taskset", "-c", mask, base + "/verif/check.sh", c], env=env, cwd=base + "/verif", capture_output=True, text=True, timeout=400)
                code, text_out = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                code, text_out = -1, ""
                subprocess.run(["pkill", "-f", base + "/verif/target"])
            if code == 2: result = "build:" + c; break
            if code == 1: result = "killed:" + c; break
            if code != 0: result = f"odd{code}:" + c; break
        open(path, "w").write(text)
        with lock:
            kind = result.split(":")[0]
            stats[kind] = stats.get(kind, 0) + 1
            out.write(json.dumps({"result": result, "file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}) + "\n"); out.flush()
threads = [threading.Thread(target=run, args=(w,)) for w in range(workers)]
for t in threads: t.start()
for t in threads: t.join()
print(stats)
