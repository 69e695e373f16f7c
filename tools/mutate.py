#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--n N] [--seed S] [--files re] [--frac F] [--workers W]

Breaks the code under test mechanically (one small change at a time, in scratch copies under /tmp/mw),
runs every check with a fraction of its quick runs and records which one notices. What survives is read
by hand: it is equivalent, touches nothing a property is about, or shows a gap in a check.
A tool for whoever works on the checks; no check uses it."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue, time

ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--n", type=int, default=100)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files", default=".")
ap.add_argument("--frac", type=float, default=0.15)
ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--verif", default="/verif")
ap.add_argument("--kinds", default=".")
ap.add_argument("--list", action="store_true")
a = ap.parse_args()
REPO = "/repo"

QUICK = {}
for l in subprocess.run([a.verif + "/target/release/dst", "list"], capture_output=True, text=True).stdout.split("\n"):
    w = l.split()
    if len(w) >= 2 and re.match(r"C\d\d$", w[0]):
        QUICK[w[0]] = int(w[1])
if not QUICK:
    QUICK = dict(C01=30000, C02=40000, C03=20000, C04=10000, C05=20000, C06=5500, C07=12000, C08=5000, C09=5000, C10=50000, C11=5000, C12=4000, C13=60000, C14=20000, C15=3000, C16=5000, C17=40000, C18=30000, C19=100000, C20=100000, C21=24000)
ORDER = {
    "ruin_recreate/ruin.rs": ["C26", "C13", "C24"],
    "ruin_recreate/recreate.rs": ["C26", "C13", "C24"],
    "ruin_recreate/node.rs": ["C26", "C13"],
    "ruin_recreate/schedule.rs": ["C24", "C14", "C13"],
    "improvement/ruin_recreate": ["C24", "C13", "C26", "C03", "C12", "C10", "C04"],
    "improvement/moves": ["C19", "C02", "C06"],
    "improvement/": ["C19", "C13", "C24", "C06"],
    "genetic/split": ["C20", "C10"],
    "genetic/decomp": ["C12", "C11"],
    "genetic/population": ["C25", "C17", "C28"],
    "genetic/": ["C25", "C24", "C17", "C05", "C14", "C18", "C10"],
    "solver/history": ["C27", "C03", "C28"],
    "models/": ["C02", "C21", "C20"],
    "utils/parser": ["C21", "C07"],
    "utils/": ["C09", "C06", "C24"],
    "solver/context": ["C03", "C04", "C27"],
    "src/config": ["C08"],
    "src/cli": ["C08"],
    "src/main": ["C09", "C08", "C27"],
    "src/wasm": ["C22"],
}
DEFAULT = ["C25", "C24", "C19", "C26", "C27", "C01", "C03", "C02", "C18", "C05", "C17", "C14", "C20", "C13", "C12", "C10", "C04", "C06", "C11", "C21", "C07", "C09", "C08", "C15", "C16", "C23", "C28"]
SKIPFILES = re.compile(r"src/lib\.rs|/mod\.rs$")
KEEPMOD = re.compile(r"moves/mod\.rs|ruin_recreate/mod\.rs|wasm/mod\.rs")


SIBLINGS = [("u", "v"), ("x", "y"), ("u", "x"), ("v", "y"), ("r1", "r2"), ("u_prev", "v_prev"), ("x_next", "y_next"), ("u_demand", "v_demand"),
            ("x_demand", "y_demand"), ("overload_one", "overload_two"), ("distance_one", "distance_two"), ("route_u", "route_v"), ("start_depot", "end_depot"),
            ("predecessor", "successor"), ("first", "second"), ("start", "end"), ("penalty_inc_multiplier", "penalty_dec_multiplier"), ("feasible_population", "infeasible_population"),
            ("lower", "upper"), ("best", "current"), ("load", "overload"), ("demand", "distance"), ("cost", "penalized_cost"), ("genotype", "phenotype"),
            ("row", "column"), ("i", "j"), ("from", "to"), ("min", "max"), ("lat", "lng"), ("p1", "p2"), ("index", "other_index"), ("old", "new"),
            ("best_pos_u", "best_pos_v"), ("pos_u", "pos_v"), ("cum_load", "cum_distance"), ("best_cost", "current_cost"),
            ("num_elites", "min_population_size"), ("iteration", "max_iterations"), ("r1_ptr", "r2_ptr"), ("u_ptr", "v_ptr"), ("last_tested", "last_modified")]


def mutants():
    out = []
    files = subprocess.run(["git", "-C", REPO, "ls-files", "src"], capture_output=True, text=True).stdout.split()
    for f in files:
        if SKIPFILES.search(f) and not KEEPMOD.search(f):
            continue
        if not re.search(a.files, f):
            continue
        lines = open(f"{REPO}/{f}").read().split("\n")
        depth_test = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                depth_test = True
            if depth_test or not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or "println!" in s or s.startswith("log::"):
                continue
            code = l.split("//")[0]
            def add(new, kind):
                if new != l:
                    out.append((f, i, l, new, kind))
            for m in re.finditer(r" (<=|>=|<|>|==|!=|&&|\|\||\+|-|\*|/|\+=|-=|\*=) ", code):
                op = m.group(1)
                if op in "<>" and re.search(r"(fn|impl|Vec|Option)\b", code):
                    continue
                for r in {"<": ["<=", ">="], ">": [">=", "<="], "<=": ["<", ">"], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "+=": ["-="], "-=": ["+="], "*=": ["/="]}[op]:
                    add(l[: m.start(1)] + r + l[m.end(1):], f"{op} to {r}")
            for m in re.finditer(r"\b(\d+)\b(?!\.\.)", code):
                if re.search(r"\w", code[max(0, m.start() - 1):m.start()]) or "[u8" in code:
                    continue
                v = int(m.group(1))
                add(l[: m.start()] + str(v + 1) + l[m.end():], "constant + 1")
                if v == 1:
                    add(l[: m.start()] + "0" + l[m.end():], "1 to 0")
            for x, y in [("approx_lt(", "approx_gt("), ("approx_lt(", "approx_lte("), ("approx_gt(", "approx_lt("), ("approx_gte(", "approx_gt("), ("approx_lte(", "approx_lt("), ("approx_eq(", "approx_ne("),
                         (".min(", ".max("), (".max(", ".min("), ("true", "false"), ("false", "true"), (".ceil()", ".floor()"), (".round()", ".floor()"), ("if !", "if "), (".is_empty()", ".len() == 1"),
                         (".successor(", ".predecessor("), (".predecessor(", ".successor("), ("break", "continue"), ("continue", "break"), ("INFINITY", "MAX"), (".first()", ".last()"), (".last()", ".first()"),
                         ("is_some()", "is_none()"), ("is_none()", "is_some()"), ("..=", ".."), (".push(", ".insert(0, "), (".rev()", ""), (".abs()", ""), (".skip(1)", ""), ("> 0", "> 1")]:
                for m in re.finditer(re.escape(x), code):
                    add(l[: m.start()] + y + l[m.end():], f"{x} to {y}")
            for x, y in SIBLINGS:
                for p, q in ((x, y), (y, x)):
                    for m in re.finditer(r"\b" + p + r"\b", code):
                        add(l[: m.start()] + q + l[m.end():], f"sibling {p} to {q}")
            m = re.match(r"^(\s*)(&&|\|\|) .*$", code.rstrip())
            if m and code.count("(") == code.count(")") and not code.rstrip().endswith("{"):
                add(m.group(1), "operand removed")
            m = re.match(r"^(.*?) (?:&&|\|\|) [^&|]*( \{)$", code.rstrip())
            if m:
                add(m.group(1) + " {", "last operand removed")
            m = re.match(r"^(\s*(?:\} else )?(?:if|while) )[^&|]* (?:&&|\|\|) (.*)$", code.rstrip())
            if m:
                add(m.group(1) + m.group(2), "first operand removed")
            m = re.match(r"^(\s*)(return .*|continue|break);$", code.rstrip())
            if m:
                add(m.group(1) + ";", "jump removed")
            m = re.match(r"^(\s*)(self\.\w+ |\w+(?:\.\w+)* )= (.*);$", code.rstrip())
            if m and not s.startswith("let"):
                add(m.group(1) + "if " + m.group(2).strip() + " < " + m.group(3) + " { " + m.group(2) + "= " + m.group(3) + "; }", "assigned only if greater")
            m = re.match(r"^(\s*)(\.(?:filter|take|skip|sorted|rev|dedup|chain|unique)\w*\(.*\))$", code.rstrip())
            if m and code.count("(") == code.count(")"):
                add(m.group(1), "adaptor removed")
            m = re.match(r"^(\s*)((?!let |return|use |pub |break|continue|\}|type|use |pub |break|continue|\}|type |const |fn |mod ).*[\w\)\]]);$", code.rstrip())
            if m and (s.count("(") == s.count(")")):
                if "=" in s or "(" in s:
                    add(m.group(1) + ";", "statement removed")
            m = re.match(r"^(\s*)(?:\} else )?if (?!let)(.*) \{$", code.rstrip())
            if m:
                add(l.replace("if " + m.group(2) + " {", "if !(" + m.group(2) + ") {"), "condition negated")
    return [m for m in out if re.search(a.kinds, m[4])]


lock = threading.Lock()


def sh(cmd, env=None, timeout=None):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -9, "timeout"


def worker(k, q, outf):
    base = f"/tmp/mw/{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    sh(f"cp -a {REPO} {base}/rw && rm -rf {base}/rw/target {base}/rw/.git")
    os.makedirs(f"{base}/vw/replays"); os.makedirs(f"{base}/vw/evidence")
    sh(f"cp -a {a.verif}/sim {a.verif}/vendor {a.verif}/build.sh {a.verif}/known-findings.txt {base}/vw/; mkdir -p {base}/vw/target; cp -a {a.verif}/target/release {base}/vw/target/ 2>/dev/null")
    sh(f"grep -rl /repo {base}/vw/sim {base}/vw/build.sh --include=*.rs --include=*.toml --include=*.sh --include=*.lock | xargs sed -i 's#/repo#{base}/rw#g'")
    env = dict(os.environ, DST_SCRATCH=base, VERIF_DIR=f"{base}/vw", DST_APP=f"{base}/vw/target/release/app", DST_PROBE=f"{base}/vw/target/release/probe", DST_APP_DIMACS=f"{base}/vw/target/dimacs/release/app_dimacs", VERIF_SEED="1")
    while True:
        try:
            n, (f, i, old, new, kind) = q.get_nowait()
        except queue.Empty:
            return
        path = f"{base}/rw/{f}"
        orig = open(path).read()
        lines = orig.split("\n")
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        t0 = time.time()
        rec = dict(n=n, file=f, line=i + 1, kind=kind, old=old.strip(), new=new.strip())
        web = "src/wasm" in f
        rc, o = sh(f"cd {base}/vw && bash build.sh{' none web' if web else ''}", env, 300)
        if rc != 0:
            rec["result"] = "does not build"
        else:
            first = next((v for p, v in ORDER.items() if p in f), [])
            order = first if web else first + [c for c in DEFAULT if c not in first]
            rec["result"] = "survived"
            dim = False
            for c in order:
                if c in ("C16", "C23") and not dim:
                    rc, o = sh(f"cd {base}/vw && bash build.sh dimacs", env, 300)
                    dim = True
                    if rc != 0:
                        rec["dimacs"] = "does not build"
                        continue
                runs = max(200, int(QUICK.get(c, 24000) * a.frac))
                rc, o = sh(f"cd {base}/vw && timeout 160 target/{'web/' if c == 'C22' else ''}release/dst check {c} --runs {runs} --seed 1", env, 170)
                if rc == 1 and "VIOLATION" in o:
                    m = re.search(r"VIOLATION.*", o)
                    rec["result"] = "caught"
                    rec["by"] = c
                    rec["how"] = "\n".join(x for x in o.split("\n") if x and not x.startswith("seed"))[:300]
                    break
                if rc not in (0, 1):
                    rec.setdefault("odd", []).append([c, rc, o[-300:]])
        rec["s"] = round(time.time() - t0, 1)
        open(path, "w").write(orig)
        sh(f"rm -rf {base}/vw/replays/* {base}/dst*")
        with lock:
            outf.write(json.dumps(rec) + "\n"); outf.flush()
            print(rec["n"], rec["result"], rec.get("by", ""), f"{f}:{i+1}", kind, "|", rec["new"], f"({rec['s']} s)", flush=True)


ms = mutants()
print(len(ms), "possible changes")
random.Random(a.seed).shuffle(ms)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        r = json.loads(l)
        done.add((r["file"], r["line"], r["new"]))
ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done][: a.n]
if a.list:
    for m in ms:
        print(m[0], m[1] + 1, m[4], "|", m[3].strip())
    sys.exit()
q = queue.Queue()
for n, m in enumerate(ms):
    q.put((n, m))
outf = open(a.out, "a")
ts = [threading.Thread(target=worker, args=(k, q, outf)) for k in range(a.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree("/tmp/mw", ignore_errors=True)
