#!/usr/bin/env python3
"""try.py PATCH|-COMMIT|ID PROP...: runs checks of the working tree of /verif against a scratch copy of /repo with a patch applied
(or a commit taken back; ID is one of seeded/, whose property is the default)."""
import json, os, shutil, subprocess, sys, tempfile, time
a, props = sys.argv[1], sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if os.path.isdir("/verif/seeded/" + a):
    props = props or [json.load(open("/verif/seeded/%s/meta.json" % a))["property"]]
    a = "/verif/seeded/%s/patch.diff" % a
if not a.startswith("-"): a = os.path.abspath(a)
d = tempfile.mkdtemp(prefix="try-", dir="/tmp")
try:
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    sh("git checkout -q -- . ; git reset -q --hard", cwd=d + "/repo")
    os.mkdir(d + "/verif")
    for x in ("checks", "harness", "spec"):
        shutil.copytree("/verif/" + x, d + "/verif/" + x)
    for x in ("known-findings.json", "MANIFEST.json", "properties.jsonl"):
        shutil.copy("/verif/" + x, d + "/verif/" + x)
    m = d + "/verif/harness/go.mod"
    s = open(m).read()
    assert "=> /repo" in s or "/repo" in s, s
    import re
    s = re.sub(r"=> \S*repo\b", "=> " + d + "/repo", s)
    open(m, "w").write(s)
    if a == "-": r = sh("true")
    elif a.startswith("-"):
        r = sh("git show %s > %s/rev.diff; git apply -R --3way %s/rev.diff" % (a[1:], d, d), cwd=d + "/repo")
    else:
        r = sh("git apply " + a, cwd=d + "/repo")
    print(a, "applied" if r.returncode == 0 else "FAILED " + r.stderr[:400], flush=True)
    if r.returncode == 0:
        for p in props:
            t = time.time()
            r = sh("timeout %s python3 %s %s" % (os.environ.get("T", "900"), os.environ.get("CMD", "checks/check.py"), p), cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            out = (r.stdout + r.stderr).strip().split("\n")
            print("  %s rc=%d %.0fs %s" % (p, r.returncode, time.time() - t, " | ".join(x[:260] for x in out[-3:] + [x for x in out[:-3] if "KNOWN" in x])), flush=True)
            if r.returncode == 1 and os.environ.get("KEEP"):
                sh("cp %s/verif/replay/* %s" % (d, os.environ["KEEP"]))
finally:
    shutil.rmtree(d, ignore_errors=True)
