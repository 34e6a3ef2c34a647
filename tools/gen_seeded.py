#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeded_list.py and confirms each entry in a scratch copy of /repo.
usage: gen_seeded.py SCRATCH_DIR [ID-regex...]     (SCRATCH_DIR is created; delete it afterwards)
Kept: entries that build, pass the stable tests, and whose demonstration exits 0 without and nonzero with the change."""
import os, re, subprocess, sys, json, shutil
here = os.path.dirname(os.path.abspath(__file__)); out = os.path.join(os.path.dirname(here), "seeded")
B = []
U = "ucan/src/"; K = "ucan-key-support/src/"
def b(id, prop, edits, needs, breaks, demo): B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
src = open(os.path.join(here, "seeded_list.py")).read()
exec(src)
DEMO_SH = open(os.path.join(here, "seeded_demo.sh")).read()
PRELUDE = open(os.path.join(here, "seeded_prelude.rs")).read()
def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: return 124, "timeout"
def main():
    d = os.path.abspath(sys.argv[1]); want = sys.argv[2:]
    repo = d + "/repo"
    if not os.path.exists(repo): os.makedirs(d, exist_ok=True); sh(f"cp -a /repo {repo}", "/")
    sh("git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", repo)
    for x in B:
        if want and not any(re.fullmatch(w, x["id"]) for w in want): continue
        t = f"{d}/{x['id']}"; os.makedirs(t, exist_ok=True)
        open(t + "/demo.sh", "w").write(DEMO_SH); os.chmod(t + "/demo.sh", 0o755)
        open(t + "/prelude.rs", "w").write(PRELUDE)
        open(t + "/main.rs", "w").write("#![allow(dead_code, unused_imports)]\ninclude!(\"prelude.rs\");\n\n" + x["demo"].strip() + "\n")
        json.dump(dict(property=x["prop"], needs=x["needs"], what_it_breaks=x["breaks"]), open(t + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .", repo)
        rc0, o0 = sh(f"{t}/demo.sh", repo)
        if rc0: print(f"{x['id']:28} DEMO FAILS UNPATCHED\n{o0[-700:]}", flush=True); continue
        bad = None
        for (f, old, new) in x["edits"]:
            p = f"{repo}/{f}"; s = open(p).read()
            if s.count(old) != 1: bad = (f, s.count(old), old[:60]); break
            open(p, "w").write(s.replace(old, new, 1))
        if bad: print(f"{x['id']:28} BAD EDIT {bad}", flush=True); continue
        rc, diff = sh("git diff", repo); open(t + "/patch.diff", "w").write(diff)
        rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo)
        if rc:
            f = re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
            print(f"{x['id']:28} " + ("TESTS FAIL " + ",".join(f)[:200] if f else "DOES NOT BUILD " + "\n".join(re.findall(r"^error.*(?:\n.*){6}", o, re.M))[:900]), flush=True); continue
        rc1, o1 = sh(f"{t}/demo.sh", repo)
        if rc1 == 0: print(f"{x['id']:28} DEMO PASSES PATCHED", flush=True); continue
        sh("git checkout -q -- .", repo)
        if os.path.exists(f"{out}/{x['id']}"): shutil.rmtree(f"{out}/{x['id']}")
        shutil.copytree(t, f"{out}/{x['id']}")
        print(f"{x['id']:28} kept: " + " ".join(l for l in o1.splitlines() if l.strip() and not l.startswith("note"))[-170:], flush=True)
    sh("git checkout -q -- .", repo)
main()
