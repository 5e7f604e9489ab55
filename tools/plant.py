#!/usr/bin/env python3
"""plant.py ID...: builds the planted bugs described in tools/plants/ID.py under seeded/ID, and confirms each in a scratch copy."""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(i):
    d = {}
    exec(open(f"{V}/tools/plants/{i}.py").read(), d)
    w = f"/tmp/w/{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    for f, old, new in d["edits"]:
        s = open(f"{w}/{f}").read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    s = f"{V}/seeded/{i}"
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    open(s + "/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
    shutil.copy(f"{V}/tools/kit/kit_test.go", s)
    shutil.copy(f"{V}/tools/kit/demo-jitter.sh" if d.get("jitter") or d.get("steps") else f"{V}/tools/kit/demo.sh", s + "/demo.sh")
    if d.get("steps"): shutil.copy(f"{V}/tools/kit/steps_test.go", s)
    if d.get("jitter"): shutil.copy(f"{V}/tools/kit/jitter_test.go", s)
    t = open(s + "/demo.sh").read().replace("(jitter_test.go)", "(steps_test.go)" if d.get("steps") else "(jitter_test.go)").replace("TIMEOUT", str(d.get("timeout", 60)))
    open(s + "/demo.sh", "w").write(t)
    os.chmod(s + "/demo.sh", 0o755)
    open(s + "/demo_test.go", "w").write("package radix\n\n" + d["demo"].lstrip())
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(s + "/meta.json", "w"), indent=1)
    env = ". /opt/vp/env.sh; "
    out = sh(env + "go vet ./ 2>&1 | grep -v '^#' | head -3; go build ./ && go test -vet=off -count=1 -run '^(TestInteger10MDense|TestInteger10MSparse|TestInteger1MDense|TestInteger1MSparse|TestLeafRootUpdate|TestLongPrefix|TestPrefixMissUpdate|TestRootPrefixMissUpdate|TestSlots|TestStoreAppendLargePrefix|TestStorePrefix|TestUpdate)$' . 2>&1 | tail -3", cwd=w)
    tests = "ok" in out.stdout and "FAIL" not in out.stdout
    bad = sh(f"timeout 300 bash {s}/demo.sh", cwd=w)
    good = sh(f"timeout 300 bash {s}/demo.sh", cwd="/repo")
    print(i, "tests", tests, "demo: unchanged", good.returncode, "patched", bad.returncode, flush=True)
    if not tests: print(out.stdout[-600:])
    if good.returncode: print("GOOD:", (good.stdout + good.stderr)[:1500])
    if "-v" in sys.argv or bad.returncode == 0: print("BAD:", (bad.stdout + bad.stderr)[:900])
    shutil.rmtree(w)
for i in sys.argv[1:]:
    if i != "-v": plant(i)
