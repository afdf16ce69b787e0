#!/usr/bin/env python3
"""plant.py screen [ID..]   which of bugs.py compile and pass the stable tests
plant.py check ID [PROP..]  run checks against one (applies to /repo and restores it)
plant.py keep [ID..]     write seeded/ID for screened bugs that have a replay in results.tsv (see demo/)
plant.py verify [ID..]   confirm seeded/: patch applies, builds, tests pass, demo 0 / nonzero"""
import json, os, subprocess, sys, shutil, re, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SCR = "/tmp/plant"


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, errors="replace")
    return p.returncode, p.stdout


def fresh():
    if not os.path.exists(SCR + "/repo"):
        os.makedirs(SCR, exist_ok=True)
        sh(f"git -C /repo worktree prune; cp -a /repo {SCR}/repo")
    sh(f"git -C {SCR}/repo checkout -q -- . && git -C {SCR}/repo pull -q /repo 2>/dev/null; git -C {SCR}/repo clean -fdq -e target")
    assert sh(f"git -C {SCR}/repo rev-parse HEAD")[1] == sh("git -C /repo rev-parse HEAD")[1]


def edit(b):
    for f, old, new in b["edits"]:
        p = f"{SCR}/repo/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return f"no match in {f}: {old[:60]!r}"
        if s.count(old) > 1:
            return f"{s.count(old)} matches in {f}: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    return None


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def tests(n=3):
    rc, out = sh("cargo build --offline", cwd=SCR + "/repo")
    if rc:
        return "does not compile: " + " | ".join(l for l in out.splitlines() if l.startswith("error"))[:300]
    for _ in range(n):
        sh("rm -f test_data/latest_test_data", cwd=SCR + "/repo")
        rc, out = sh("timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=SCR + "/repo")
        if rc:
            return "tests: " + " ".join(re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)) + (out[-200:] if "could not compile" in out else "")
    sh("rm -f test_data/latest_test_data", cwd=SCR + "/repo")
    return None


def bugs(ids):
    from bugs import BUGS
    return [b for b in BUGS if not ids or b["id"] in ids or any(i.endswith("*") and b["id"].startswith(i[:-1]) for i in ids)]


def screen(ids):
    os.makedirs(SCR + "/ok", exist_ok=True)
    for b in bugs(ids):
        fresh()
        r = edit(b) or tests()
        if not r:
            open(f"{SCR}/ok/{b['id']}.diff", "w").write(sh("git diff", cwd=SCR + "/repo")[1])
        elif os.path.exists(f"{SCR}/ok/{b['id']}.diff"):
            os.remove(f"{SCR}/ok/{b['id']}.diff")
        print(f"{b['id']:28} {'OK' if not r else r}", flush=True)


def check(diff, props, seed="1"):
    assert not sh("git -C /repo status --porcelain")[1].strip(), "repo dirty"
    res = {}
    rc, out = sh(f"git -C /repo apply {diff}")
    assert rc == 0, out
    try:
        for p in props:
            t = time.time()
            rc, out = sh(f"python3 {VERIF}/check.py {p}", cwd=VERIF, env={"VERIF_SEED": seed})
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            rep = re.search(r"replay=(\S+)", v[0]).group(1) if v else ""
            why = ""
            if rep and os.path.exists(rep):
                why = "; ".join(l[2:] for l in open(rep).read().splitlines()[:5] if l.startswith("# "))[:160]
            res[p] = (rc, rep, time.time() - t, why or out.strip().splitlines()[-1][:200])
    finally:
        sh("git -C /repo checkout -- .")
    return res


def run_check(ids):
    props = [i for i in ids if re.fullmatch(r"C\d\d", i)]
    ids = [i for i in ids if i not in props]
    for b in bugs(ids):
        d = f"{SCR}/ok/{b['id']}.diff"
        if not os.path.exists(d):
            continue
        for p, (rc, rep, t, why) in check(d, props or [b["prop"]]).items():
            print(f"{b['id']:28} {p} rc={rc} {t:.0f}s {rep} {why}", flush=True)
            with open(SCR + "/results.tsv", "a") as f:
                f.write(f"{b['id']}\t{p}\t{rc}\t{rep}\t{why}\n")


KIND = dict(C01="full", C02="full", C03="full", C04="full", C05="views", C06="builder", C07="giant", C08="ub", C09="invariance",
            C10="determinism", C11="protocol", C12="state", C13="loader", C14="full", C15="full", C16="legality", C17="front", C18="queries", C19="memory")
BASE = "065799c"


def replays():
    r = {}
    if os.path.exists(SCR + "/results.tsv"):
        for l in open(SCR + "/results.tsv"):
            f = l.rstrip("\n").split("\t")
            if f[2] == "1" and os.path.exists(f[3]):
                r[(f[0], f[1])] = f[3]
                r[f[0]] = f[3]
    return r


def keep(ids):
    rep = replays()
    for b in bugs(ids):
        d = f"{SCR}/ok/{b['id']}.diff"
        if not os.path.exists(d) or not b.get("keep", True):
            continue
        out = f"{VERIF}/seeded/{b['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        shutil.copy(d, out + "/patch.diff")
        kind = b.get("demo") or KIND[b["prop"]]
        for f, g in (("demo.sh", "demo.sh"), ("poly.rs", "poly.rs"), (kind + ".rs", "main.rs")):
            shutil.copy(f"{HERE}/demo/{f}", f"{out}/{g}")
        main = open(out + "/main.rs").read()
        if "input.txt" in main:
            r = b.get("input") or rep.get(b["id"])
            if b.get("input"):
                text = b["input"]
            elif r:
                text = "".join(l for l in open(r) if not l.startswith("#"))
            else:
                print(b["id"], "no input"); shutil.rmtree(out); continue
            open(out + "/input.txt", "w").write(text)
        if b.get("features"):
            open(out + "/features", "w").write('"' + b["features"] + '"')
        if kind == "profiles":
            open(out + "/profiles", "w").write("")
        if b.get("profile"):
            open(out + "/profile", "w").write(b["profile"])
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        print("kept", b["id"], kind)


def original(diff):
    """(changed lines from the original repository, changed lines from later commits)"""
    good = bad = 0
    blame = {}
    f, ln = None, 0
    lines = open(diff).read().splitlines()
    for k, l in enumerate(lines):
        if l.startswith("--- a/"):
            f = l[6:]
            b = sh(f"git -C /repo blame -l -s HEAD -- {f}")[1].splitlines()
            base = sh(f"git -C /repo log --format=%H {BASE}..HEAD")[1].split()
            blame[f] = [x.lstrip("^").split()[0] not in base for x in b]
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1)) - 1
            continue
        if f is None or l.startswith(("+++", "diff", "index")):
            continue
        if l.startswith("-"):
            good += blame[f][ln]; bad += not blame[f][ln]
            ln += 1
        elif l.startswith(" ") or l == "":
            ln += 1
        elif l.startswith("+") and not lines[k - 1].startswith(("-", "+")):
            if not any(x.startswith("-") for x in lines[k:k + 40] if not x.startswith("@@")):
                good += blame[f][max(ln - 1, 0)] and blame[f][min(ln, len(blame[f]) - 1)]
    return good, bad


def demo(sd):
    return sh(f"timeout 300 bash {SCR}/d/demo.sh", cwd=SCR + "/repo", timeout=400)


def verify(ids):
    for sd in sorted(os.listdir(VERIF + "/seeded")):
        if ids and sd not in ids and not any(i.endswith("*") and sd.startswith(i[:-1]) for i in ids):
            continue
        full = f"{VERIF}/seeded/{sd}"
        fresh()
        sh(f"rm -rf {SCR}/d; mkdir {SCR}/d; cp {full}/* {SCR}/d/; rm -f {SCR}/d/*.diff {SCR}/d/meta.json")
        rc0, o0 = demo(sd)
        rc, out = sh(f"git apply {full}/patch.diff", cwd=SCR + "/repo")
        if rc:
            print(sd, "DOES NOT APPLY", out); continue
        t = tests(2)
        rc1, o1 = demo(sd)
        g, bad = original(full + "/patch.diff")
        ok = rc0 == 0 and rc1 not in (0, 3) and not t and g > 0
        print(f"{sd:28} {'ok ' if ok else 'BAD'} clean={rc0} patched={rc1} tests={t} original={g} later={bad} | {o0.strip()[-150:] if rc0 else ''} | {[l for l in o1.splitlines() if l.strip() and 'backtrace' not in l][-2:][0:1]}", flush=True)
    fresh()


if __name__ == "__main__":
    a = sys.argv
    {"screen": lambda: screen(a[2:]), "check": lambda: run_check(a[2:]), "keep": lambda: keep(a[2:]), "verify": lambda: verify(a[2:])}[a[1]]()
