#!/usr/bin/env python3
"""bug.py new ID PROPERTY FILE... : makes seeded/ID from the current (uncommitted) diff of /repo plus /tmp/bugs/ID.{cpp,json}; then restores /repo
   bug.py try ID [CHECK...]      : applies it in /repo, builds, tests, demo, checks; restores; reports"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(["bash", "-c", c], capture_output=True, text=True, **k)
def new(i):
    m = json.load(open(f"/tmp/bugs/{i}.json")); d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout; assert diff.strip(), "no diff"
    open(f"{d}/patch.diff", "w").write(diff); sh("git -C /repo checkout -- .")
    shutil.copy(f"/tmp/bugs/{i}.cpp", f"{d}/demo.cpp")
    t = open(f"{V}/tools/demo_template.sh").read().replace("@DEFS@", m.pop("defs", "")).replace("@SRC@", " ".join(f'"$R/src/{s}"' for s in m.pop("src", [])))
    open(f"{d}/demo.sh", "w").write(t); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(m, open(f"{d}/meta.json", "w"), indent=1)
def trybug(i, checks):
    d = f"{V}/seeded/{i}"; m = json.load(open(f"{d}/meta.json")); out = [i]
    clean = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append(f"demo-clean={clean.returncode}" + (" " + clean.stderr[-600:] + clean.stdout[-300:] if clean.returncode else ""))
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, "does not apply", a.stderr); return
    try:
        b = sh("bash /opt/vp/build.sh"); out.append(f"build={b.returncode}")
        t = sh("bash /opt/vp/test.sh /tmp/o.json"); out.append("tests=" + t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "tests=?")
        p = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append(f"demo-patched={p.returncode}")
        for c in checks or [m["property"]]:
            r = sh(f"python3 {V}/run.py {c}", cwd=V); out.append(f"{c}={r.returncode} " + " | ".join(r.stdout.strip().splitlines()[-2:])[:300] + ("" if r.returncode in (0, 1) else r.stderr[-500:]))
    finally:
        sh("git -C /repo checkout -- .")
    print("\n  ".join(out), flush=True)
if sys.argv[1] == "new": new(sys.argv[2])
else:
    for i in sys.argv[2].split(","): trybug(i, sys.argv[3:])
