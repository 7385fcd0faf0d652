#!/usr/bin/env python3
# mkseed.py FILE...: each FILE (python) sets id, property, needs, breaks, edits [(file, old, new)], demo (Go source), optional pkg.
# Writes /verif/seeded/<id>, confirms it in a scratch copy, and runs the property's check on the copy.
import sys, os, subprocess, json, shutil, concurrent.futures as cf, tempfile
V = "/verif"
def sh(c, cwd=None, env=None, t=1200):
    r = subprocess.run(c, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t, errors="replace")
    return r.returncode, r.stdout + r.stderr
STABLE = None
def one(f):
    ns = {}
    exec(open(f).read(), ns)
    id = ns["id"]; d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); r = w + "/repo"
    out = [f"== {id} ({ns['property']})"]
    try:
        sh(f"cp -a /repo {r}"); sh("git checkout -q -- . && git clean -fdq", r)
        pkg = ns.get("pkg", "")
        for x in os.listdir(d): os.remove(d + "/" + x)
        shutil.copy(V + "/tools/demokit/demo.sh", d)
        if pkg: open(d + "/pkg", "w").write(pkg)
        if not pkg: shutil.copy(V + "/tools/demokit/kit_test.go", d)
        open(d + "/demo_test.go", "w").write(ns["demo"])
        sh(f"gofmt -w {d}/demo_test.go")
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        for n in range(ns.get("reps", 2)):
            rc, o = sh(f"bash {d}/demo.sh", r)
            if rc: out.append("DEMO FAILS ON CLEAN: " + o[-1500:]); return "\n".join(out)
        for (p, a, b) in ns["edits"]:
            s = open(f"{r}/{p}").read()
            if s.count(a) != 1: out.append(f"EDIT {p}: {s.count(a)} matches: {a[:60]!r}"); return "\n".join(out)
            open(f"{r}/{p}", "w").write(s.replace(a, b))
        rc, o = sh("gofmt -l .", r)
        if o.strip(): sh(f"gofmt -w {o.strip().splitlines()[0]}", r)
        rc, o = sh("git diff -U12", r); open(d + "/patch.diff", "w").write(o)
        rc, o = sh(". /opt/vp/env.sh; go build ./...", r)
        if rc: out.append("BUILD: " + o[-800:]); return "\n".join(out)
        rc, o = sh(f"bash {d}/demo.sh", r)
        out.append("demo on patched: rc=%d %s" % (rc, [l for l in o.splitlines() if "_test.go" in l][:3]) if rc else "DEMO PASSES ON PATCHED")
        if os.environ.get("TESTS", "1") == "1":
            rc, o = sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 5m -exec /opt/vp/align-exec.sh ./...", r)
            ps = set()
            for l in o.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get("Test") and e.get("Action") == "pass": ps.add(e["Package"] + "/" + e["Test"])
            miss = [s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"] if s not in ps]
            out.append("tests: " + ("all stable pass" if not miss else "FAILED " + str(miss)))
        if os.environ.get("CHECK", "1") == "1":
            for p in os.environ.get("PROPS", ns["property"]).split(","):
                rc, o = sh(f"./check.sh {p} quick", V, {"MC_REPO": r, "MC_ARGS": os.environ.get("MC_ARGS", "") + f" -evidence {w}/ev"})
                v = [l[:300] for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("  [") or l.startswith("  C")]
                out.append(f"check {p}: rc={rc} {'CAUGHT' if rc == 1 else 'MISSED'} {v[:1]}" + ("" if rc < 2 else o[-500:]))
    except Exception as ex:
        out.append(f"ERR {ex!r}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n".join(out)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for o in ex.map(one, sys.argv[1:]): print(o, flush=True)
