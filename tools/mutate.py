#!/usr/bin/env python3
"""mutate.py list            all one-place changes of /repo/src
mutate.py run SLOTS [N]    build each in scratch copies under /tmp/mut, run the tests, then
                           short runs of all monitors; results in /tmp/mut/results.tsv
One line per change: number, verdict (nobuild, tests, seen, missed), by what, the change."""
import os, re, subprocess, sys, multiprocessing, glob, random
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["sweeper", "shape", "triangles", "points", "cdt", "utils", "loader", "advancing_front/vec_backed", "advancing_front/mod"]
ROOT = "/tmp/mut"

SWAPS = [  # (pattern, replacements)
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r"\+= 1", ["+= 2"]), (r"-= 1", ["-= 2"]),
    (r"\bis_cw\(\)", ["is_ccw()"]), (r"\bis_ccw\(\)", ["is_cw()"]), (r"\bis_collinear\(\)", ["is_cw()"]),
    (r"point_ccw\(", ["point_cw("]), (r"point_cw\(", ["point_ccw("]),
    (r"neighbor_ccw\(", ["neighbor_cw("]), (r"neighbor_cw\(", ["neighbor_ccw("]),
    (r"edge_attr_ccw\(", ["edge_attr_cw("]), (r"edge_attr_cw\(", ["edge_attr_ccw("]),
    (r"\.prev\(\)", [".next()"]), (r"\.next\(\)", [".prev()"]), (r"locate_prev_node", ["locate_next_node"]), (r"locate_next_node", ["locate_prev_node"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\bxmin\b", ["xmax"]), (r"\bxmax\b", ["xmin"]), (r"\bymin\b", ["ymax"]),
    (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1", "3"]), (r"\b3\b", ["2"]),
    (r"\.invalid\(\)", [".invalid() == false"]), (r"\bif !", ["if "]), (r"\bif (?!let|!|const)([^{]*) \{", ["if !(\\1) {", "if false && (\\1) {", "if true || (\\1) {"]),
    (r"\bedge\.p\b", ["edge.q"]), (r"\bedge\.q\b", ["edge.p"]), (r"\bep\b", ["eq"]), (r"\beq\b(?!\()", ["ep"]), (r"\bp1\b", ["p2"]), (r"\bp2\b", ["p1"]),
    (r"\bn1\b", ["n4"]), (r"\bn2\b", ["n3"]), (r"\bn3\b", ["n2"]), (r"\bn4\b", ["n1"]), (r"\bea1\b", ["ea2"]), (r"\bea2\b", ["ea3"]), (r"\bea3\b", ["ea4"]), (r"\bea4\b", ["ea1"]),
    (r"\bt_id\b", ["ot_id"]), (r"\bot_id\b", ["t_id"]), (r"\btriangle_id\b", ["opposite_triangle_id"]), (r"\bnode_id\b", ["next_id"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]),
    (r"\bskip\(", ["take("]), (r"\.any\(", [".all("]), (r"\bCW\b", ["CCW"]), (r"\bCCW\b", ["CW"]),
    (r"(\d)\.(\d)\b", ["\\1.0"]), (r" as u32\b", [" as u16 as u32"]),
]


def code_lines(path):
    out, test = [], False
    for i, l in enumerate(open(path).read().split("\n")):
        if l.startswith("#[cfg(test)]"):
            test = True
        if test:
            continue
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "debug_assert" in s:
            continue
        if "_count" in s or "fetch_add" in s:  # of tests
            continue
        if path.endswith("shape.rs") and 395 <= i < 428:  # branches that cannot be reached
            continue
        out.append((i, l))
    return out


def mutants():
    seen = set()
    for f in SRC:
        p = f"/repo/src/{f}.rs"
        for i, l in code_lines(p):
            body = l.split(" //")[0]
            for pat, reps in SWAPS:
                for m in re.finditer(pat, body):
                    for r in reps:
                        new = body[:m.start()] + m.expand(r) + body[m.end():]
                        if "\\1" in new or new == body or (f, i, new) in seen:
                            continue
                        if pat.startswith((r"\b0", r"\b1", r"\b2", r"\b3")) and re.match(r"\s*(pub )?(fn|struct|enum|impl|const)", body):
                            continue
                        seen.add((f, i, new))
                        yield f, i, l, new
            s = body.strip()
            # a statement of one line that is dropped
            if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "}", ")", "break", "continue")) and s.count("(") == s.count(")"):
                new = re.match(r"\s*", l).group(0) + "{}"
                if (f, i, new) not in seen:
                    seen.add((f, i, new))
                    yield f, i, l, new


def sh(cmd, cwd=None, timeout=300):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


RUNNER = '''
import sys, os
sys.path.insert(0, {v!r}); os.chdir({v!r})
import check
I = dict(bin="iworker"); Q = dict(bin="qworker"); A = dict(bin="aworker")
R = lambda m, s=2, **k: check.Run(m, quick=s, thorough=s, **k)
check.CORES = 3
for name in {which!r}:
    pass
check.CHECKS["T_x"] = check.runs(*[R(m, s, **dict(bin=b)) for m, s, b in {runs!r}])
sys.exit(check.check("T_x"))
'''
RUNS = [
    ("tiling", 3, "worker"), ("extreme", 3, "worker"), ("state", 3, "iworker"), ("queries", 2, "qworker"), ("front", 2, "iworker"),
    ("protocol", 2, "worker"), ("views", 2, "worker"), ("builder", 2, "worker"), ("loader", 2, "worker"), ("selfcheck", 2, "iworker"),
    ("steiner", 2, "worker"), ("delaunay", 2, "worker"), ("invariance", 2, "worker"), ("memory", 2, "aworker"), ("xstate", 2, "iworker"), ("xqueries", 2, "qworker"),
    ("ltiling", 5, "worker"), ("lstate", 4, "iworker"), ("lqueries", 3, "qworker"), ("lmemory", 4, "aworker"), ("determinism", 2, "worker"), ("total", 2, "worker"),
    ("fmemory", 2, "aworker"), ("lfront", 3, "iworker"),
]


def slot_init(k):
    d = f"{ROOT}/{k}"
    os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {d}/repo && cp -a /repo {d}/repo")
    sh(f"mkdir -p {d}/verif && cd {VERIF} && cp check.py MANIFEST.json KNOWN_FINDINGS {d}/verif/ && mkdir -p {d}/verif/harness && cp -a harness/Cargo.* harness/src {d}/verif/harness/")
    sh(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/harness/Cargo.toml {d}/verif/check.py")


def one(job):
    n, (f, i, old, new) = job
    k = multiprocessing.current_process()._identity[0]
    d = f"{ROOT}/{k}"
    if not os.path.exists(d + "/ready"):
        slot_init(k)
        open(d + "/ready", "w").close()
    p = f"{d}/repo/src/{f}.rs"
    orig = open(f"/repo/src/{f}.rs").read()
    L = orig.split("\n")
    L[i] = new
    open(p, "w").write("\n".join(L))
    try:
        rc, out = sh("timeout 120 cargo test --offline --lib -- --test-threads 4", d + "/repo", 150)
        if rc != 0:
            v = "nobuild" if "error" in out and "test result" not in out and "running" not in out else "tests"
            return n, v, "", f, i + 1, old.strip(), new.strip()
        open(d + "/run.py", "w").write(RUNNER.format(v=d + "/verif", which=[], runs=RUNS))
        rc, out = sh(f"python3 {d}/run.py", d, 400)
        if rc == 0:
            return n, "missed", "", f, i + 1, old.strip(), new.strip()
        by = re.findall(r"replays/(\S+)", out)
        if rc == 2 and "build" in out:
            by = ["harness-build"]
        why = re.findall(r"^(?:VIOLATION.*|.*mode.*)$", out, re.M)
        return n, "seen", (out.strip().split("\n") or [""])[-1][:150] if rc != 1 else " ".join(why)[:200], f, i + 1, old.strip(), new.strip()
    finally:
        open(p, "w").write(orig)
        sh(f"rm -rf {d}/verif/replays {d}/verif/evidence")


if __name__ == "__main__":
    ms = list(enumerate(mutants()))
    if sys.argv[1] == "list":
        for n, m in ms:
            print(n, m[0], m[1] + 1, m[2].strip(), "=>", m[3].strip())
    else:
        done = set()
        res = ROOT + "/results.tsv"
        if os.path.exists(res):
            done = {int(l.split("\t")[0]) for l in open(res)}
        random.Random(7).shuffle(ms)
        ms = [m for m in ms if m[0] not in done]
        if len(sys.argv) > 3:
            ms = ms[: int(sys.argv[3])]
        with multiprocessing.Pool(int(sys.argv[2])) as pool, open(res, "a") as out:
            for r in pool.imap_unordered(one, ms):
                print(*r, sep="\t", file=out, flush=True)
