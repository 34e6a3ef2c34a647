#!/usr/bin/env python3
"""Sensitivity sweep: applies each planted change below to a scratch copy of /repo, runs the existing tests and the check of the
property it breaks, and prints a table.  usage: [NOTEST=1] [FULL=1] mutants.py SCRATCH_DIR [ID-regex...]   (SCRATCH_DIR is created; delete it afterwards)
`E-` ids are behaviour-preserving edits: every check must stay quiet on them; `S-` ids are
the changes in /verif/seeded."""
import os, re, subprocess, sys, json, shutil
M = []
def m(id, props, file, old, new, *more):
    M.append(dict(id=id, props=props.split(), edits=[(file, old, new)] + [tuple(x) for x in more]))
U = "ucan/src/"
K = "ucan-key-support/src/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutants_list.py")).read())

SD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
for n in sorted(os.listdir(SD)):
    if os.path.exists(f"{SD}/{n}/meta.json"):
        M.append(dict(id="S-" + n, props=[json.load(open(f"{SD}/{n}/meta.json"))["property"]], edits=[], patch=f"{SD}/{n}/patch.diff"))

def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true"); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def main():
    d = os.path.abspath(sys.argv[1]); want = sys.argv[2:]
    repo, ver = d + "/repo", d + "/verif"
    if not os.path.exists(repo):
        os.makedirs(ver); sh(f"cp -a /repo {repo}", "/"); sh(f"cp -a /verif/harness {ver}/ && cp /verif/KNOWN_FINDINGS {ver}/", "/")
    sh(f"mkdir -p {ver}/harness/hook && cp -a /verif/harness/src/. {ver}/harness/src/ && cp -a /verif/harness/hook/. {ver}/harness/hook/ && cp -a /verif/harness/.cargo /verif/harness/rustc-wrapper.sh /verif/harness/Cargo.lock {ver}/harness/ && cp -a /verif/harness/keys/. {ver}/harness/keys/ && cp /verif/KNOWN_FINDINGS {ver}/ && cp /verif/harness/Cargo.toml {ver}/harness/ && sed -i 's#/repo/#{repo}/#' {ver}/harness/Cargo.toml", "/")
    for k in ("evidence", "replays", "work"): os.makedirs(f"{ver}/{k}", exist_ok=True)
    sh("git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", repo)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for x in M:
        if want and not any(re.fullmatch(w, x["id"]) for w in want): continue
        sh("git checkout -q -- . ; git clean -fdq -- ucan ucan-key-support", repo)
        bad = False
        for (f, old, new) in x["edits"]:
            p = f"{repo}/{f}"; s = open(p).read()
            if s.count(old) < 1: print(f"{x['id']:28} BAD EDIT {f}: {old[:60]!r}"); bad = True; break
            open(p, "w").write(s.replace(old, new, 1))
        if x.get("patch"):
            rc, o = sh(f"git apply {x['patch']}", repo)
            if rc: print(f"{x['id']:28} DOES NOT APPLY {o[:200]}"); continue
        if bad: continue
        t = ""
        if not os.environ.get("NOTEST"):
            rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo)
            if rc:
                f = re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
                t = "TESTS FAIL " + ",".join(f)[:90] if f else "DOES NOT BUILD " + " ".join(re.findall(r"^error.*", o, re.M))[:160]
                print(f"{x['id']:28} {t}", flush=True); continue
        env = dict(UCANSIM_ROOT=ver, CARGO_TARGET_DIR=ver + "/harness/target")
        rc, o = sh("cargo build --release --offline", ver + "/harness", env=env)
        if rc: print(f"{x['id']:28} HARNESS DOES NOT BUILD " + " ".join(re.findall(r"^error.*", o, re.M))[:200], flush=True); continue
        allp = [f"C{i:02}" for i in range(1, 15)]
        first = x["props"] if x["props"] != ["-"] else allp
        res = []
        def run(p):
            rc, o = sh(f"timeout 800 target/release/ucansim check {p}", ver + "/harness", env=env)
            cl = re.search(r"^ *([a-z0-9:_-]+): ", o[o.find("runs ("):], re.M)
            msg = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            runs = re.search(r"(\d+) runs in ([\d.]+)s", o)
            why = re.search(r"VIOLATION ([a-z0-9:_-]+): (.{0,140})", o[:o.find("VIOLATION property") if "VIOLATION property" in o else None])
            res.append((p, rc)); 
            return rc, f"{p}={'caught' if rc == 1 else 'quiet' if rc == 0 else 'ERROR %d' % rc}" + (f" after {runs[1]} runs" if runs and rc == 1 else "") + (f" [{why[1]}]" if why else "") + (o[-300:] if rc > 1 else "")
        out = []
        for p in first:
            rc, s = run(p); out.append(s)
        if x["props"] != ["-"] and os.environ.get("FULL") and not any(r == 1 for _, r in res):
            for p in allp:
                if p not in first:
                    rc, s = run(p)
                    if rc: out.append("(" + s + ")")
        elif x["props"] == ["-"] and all(r == 0 for _, r in res): out = ["all quiet"]
        print(f"{x['id']:28} {' '.join(out)}", flush=True)
    sh("git checkout -q -- .", repo)
main()
