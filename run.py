#!/usr/bin/env python3
"""Runs the simulation check of one property: builds the harness from /repo's working tree, searches seeds, gates and minimises
a violation, writes evidence/<id>.json.   run.py <id> [--tier quick|thorough] [--replay FILE] [--build-only] [--soak SECONDS]"""
import sys, os, json, subprocess, time, shutil, argparse
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PSIM_REPO", "/repo")
sys.path.insert(0, V)
from props import PROPS
KNOWN = {}   # known-findings.txt: "KNOWN-FINDING: property=<id> <key>: <what fails>"; the harness recognises exactly that defect
for l in open(f"{V}/known-findings.txt"):
    if l.startswith("KNOWN-FINDING: property="):
        p, k, w = l.strip()[len("KNOWN-FINDING: property="):].split(" ", 2); KNOWN.setdefault(p, {})[k.rstrip(":")] = w
NCPU = min(8, os.cpu_count() or 8)
ENV = "/opt/vp/plato/env.sh"
DEFS = "-DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY"
LIBS = "epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore"

def err(msg):
    print("ERROR: " + msg, file=sys.stderr); sys.exit(2)

def build(pid, cfg, bdir):
    os.makedirs(bdir, exist_ok=True)
    fast = os.environ.get("PSIM_FAST")   # development only: keep the objects compiled from the repository
    for f in os.listdir(bdir):
        if fast and f.startswith("repo_"): continue
        if f.endswith((".o", ".log")) or f == "sim": os.unlink(os.path.join(bdir, f))
    kdir = os.path.join(bdir, "kokkos"); os.makedirs(kdir, exist_ok=True)
    subprocess.run([sys.executable, f"{V}/sim/gen_kokkos.py", kdir], check=True)
    S, H = f"{V}/sim", f"{V}/harness"
    inc = f"-I{kdir} -I{S} -I{H} " + " ".join(f"-I{V}/{i}" for i in cfg.get("inc", [])) + f" -I{REPO}/src -I/usr/include/trilinos"
    base = f"mpicxx -std=c++14 -w -O1 -g1 -fmax-errors=6 {cfg.get('dims', DEFS)} {cfg.get('defs','')} -DKOKKOS_ENABLE_GNU_ATOMICS {inc} -include /opt/vp/plato/compat.hpp"
    jobs = []
    def job(cmd, obj): jobs.append((f". {ENV} && {cmd} -o {bdir}/{obj}", obj)); return f"{bdir}/{obj}"
    objs = []
    for u in cfg["units"]: objs.append(job(f"{base} -fsanitize=thread -c {H}/{u}", u.replace(".cpp", ".o")))
    for u in cfg.get("repo", []): objs.append(job(f"{base} -fsanitize=thread -c {REPO}/src/{u}", "repo_" + u.replace("/", "_").replace(".cpp", ".o")))
    objs.append(job(f"{base} -c {H}/kokkos_main.cpp", "kokkos_main.o"))
    objs.append(job(f"g++ -std=c++17 -O2 -g1 -w -c {S}/psim_rt.cpp", "rt.o"))
    objs.append(job(f"g++ -std=c++17 -O2 -g1 -fno-builtin -w -c {S}/psim_heap.cpp", "heap.o"))
    for x in cfg.get("sim", ["psim_noio.cpp"]): objs.append(job(f"mpicxx -std=c++17 -O2 -g1 -fno-builtin -w -c {S}/{x}", x.replace(".cpp", ".o")))
    for u in cfg.get("ranked", []):   # writable globals of this source are per simulated process
        o = "repo_" + os.path.basename(u).replace(".cpp", ".o")
        objs.append(job(f"{base} -fno-data-sections -fsanitize=thread -c {REPO}/src/{u} -o {bdir}/{o}.tmp && objcopy --rename-section .data=rankdata --rename-section .bss=rankbss,alloc,load,contents,data {bdir}/{o}.tmp {bdir}/{o} && true", o))
    if fast: jobs = [j for j in jobs if not (j[1].startswith("repo_") and os.path.exists(f"{bdir}/{j[1]}"))]
    running, pend, failed = [], list(jobs), []
    while pend or running:
        while pend and len(running) < NCPU:
            c, o = pend.pop(0); lg = open(f"{bdir}/{o}.log", "w")
            running.append((subprocess.Popen(["bash", "-c", c], stdout=lg, stderr=lg), o, c))
        for r in list(running):
            if r[0].poll() is not None:
                running.remove(r)
                if r[0].returncode: failed.append(r[1])
        time.sleep(0.05)
    if failed:
        for o in failed: print(open(f"{bdir}/{o}.log").read()[:3000], file=sys.stderr)
        err(f"{pid}: the harness does not compile against {REPO}: " + " ".join(failed))
    link = f". {ENV} && mpicxx -rdynamic {' '.join(objs)} -o {bdir}/sim " + " ".join("-ltrilinos_" + l for l in (cfg.get("libs", "") + " " + LIBS).split()) + " -ldl"
    r = subprocess.run(["bash", "-c", link], capture_output=True, text=True)
    if r.returncode: err(f"{pid}: link failed\n" + r.stderr[:3000])
    return f"{bdir}/sim"

def sh(cmd, timeout=None):
    return subprocess.run(["bash", "-c", f". {ENV} && exec " + cmd], capture_output=True, text=True, errors="replace", timeout=timeout)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier"); ap.add_argument("--replay"); ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--soak", type=float); ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    os.environ["PSIM_KNOWN"] = ",".join(KNOWN.get(a.prop, {}))
    pid = a.prop; cfg = PROPS[pid]; t0 = time.time()
    bdir = os.path.join(os.environ.get("PSIM_BUILD", f"{V}/build"), pid)
    exe = f"{bdir}/sim" if a.no_build else build(pid, cfg, bdir)
    t_build = time.time() - t0
    if a.build_only: return
    if a.replay:
        r = sh(f"{exe} --replay {a.replay}"); print(r.stdout, r.stderr); sys.exit(1 if r.returncode == 10 else 2 if r.returncode else 0)
    t = cfg[tier]
    runs, limit = t["runs"], t["time"]
    if a.soak: runs, limit = 10**9, a.soak
    base = (seed * 1000003 + (7 if tier == "quick" else 13)) * 1000000 % (1 << 62)
    if a.soak: base += 500000000000
    per = (runs + NCPU - 1) // NCPU
    # determinism sample: two fresh processes, same seeds, same event hashes
    nd = 12 if tier == "quick" else 64
    dets = [subprocess.Popen(["bash", "-c", f". {ENV} && exec {exe} --hashes {base} {nd}"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for _ in range(2)]
    wdir = f"{bdir}/work"; shutil.rmtree(wdir, ignore_errors=True); os.makedirs(wdir)
    ps = []
    for i in range(NCPU):
        cmd = f"{exe} --search --from {base + i * per} --count {per} --out {wdir}/s{i}.json --fail {wdir}/f{i}.txt --time {limit}"
        lg = open(f"{wdir}/l{i}.log", "w")
        ps.append(subprocess.Popen(["bash", "-c", f". {ENV} && exec {cmd}"], stdout=lg, stderr=lg))
    for p in ps: p.wait()
    hs = [d.communicate()[0] for d in dets]
    deterministic = hs[0] == hs[1] and hs[0].strip() != ""
    bad = [i for i in range(NCPU) if ps[i].returncode == 10]
    odd = [i for i in range(NCPU) if ps[i].returncode not in (0, 10)]
    agg = dict(runs=0, episodes=0, steps=0, evals=0, launches=0, launches_interleaved=0, accesses=0, switches=0, conflicts=0, simtime=0.0, interleavings=0)
    faults, pol, samples, cover, known, wall = {}, [0] * 8, [], set(), set(), 0
    for i in range(NCPU):
        try: d = json.load(open(f"{wdir}/s{i}.json"))
        except Exception: continue
        for k in agg: agg[k] += d[k]
        for k, v in d["faults"].items(): f = faults.setdefault(k, [0, 0]); f[0] += v[0]; f[1] += v[1]
        pol = [x + y for x, y in zip(pol, d["policies"])]
        cover |= set(d["cover"]); samples += d["samples"][:6]; wall = max(wall, d["wall"]); known |= set(d.get("known", []))
    violation = None; gate_log = []
    for i in bad:
        f = f"{wdir}/f{i}.txt"
        if not os.path.exists(f): open(f, "w").write("class crash\ndetail the code under test ended the process before the first run\n")
        r = sh(f"{exe} --replay {f}"); gate_log.append(r.stdout.strip())
        if r.returncode != 10: continue
        m = f"{wdir}/m{i}.txt"
        r = sh(f"{exe} --minimise {f} {m} --time {30 if tier == 'quick' else 120}"); gate_log.append(r.stdout.strip())
        use = m if r.returncode == 10 and os.path.exists(m) and sh(f"{exe} --replay {m}").returncode == 10 else f
        os.makedirs(f"{V}/replays", exist_ok=True)
        dst = f"{V}/replays/{pid}.replay"; shutil.copy(use, dst)
        violation = dict(replay=dst, cls=[l[6:].strip() for l in open(dst) if l.startswith("class ")][0], detail=[l[7:].strip() for l in open(dst) if l.startswith("detail ")][0])
        break
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2),
      coverage=dict(evaluations=agg["runs"], distinct_nontrivial=len(cover),
        rule=cfg["rule"] + " A run is one seed; non-trivial = the run drove the real code through a workload step and compared it with the oracle; distinct = distinct (operation, shape, fault/outcome) classes reached, unioned over workers.",
        samples=samples[:24], oracle_comparisons=agg["evals"], workload_steps=agg["steps"], episodes=agg["episodes"],
        simulated_runs_per_hour=int(agg["runs"] / max(wall, 1e-3) * 3600), search_wall_s=wall, build_s=round(t_build, 1),
        simulated_time=dict(value=agg["simtime"], unit=cfg.get("timeunit", "none: the property has no clock; progress is counted in scheduling points"), scheduling_points=agg["accesses"]),
        faults_injected={k: v[0] for k, v in faults.items()}, fault_opportunities={k: v[1] for k, v in faults.items()},
        kernel_launches=agg["launches"], kernel_launches_preempted=agg["launches_interleaved"], context_switches=agg["switches"], conflicting_accesses_observed=agg["conflicts"],
        distinct_interleavings=agg["interleavings"], interleaving_measure="distinct hashes of (kernel, worker geometry, item order, every context switch) per launch, counted per worker process and summed",
        scheduling_policies=dict(zip(["serial", "permuted", "uniform", "lockstep", "stall", "hot", "pct", "burst"], pol)),
        components_real=cfg["real"], components_stub=cfg["stub"], determinism=dict(seeds_run_twice=nd, identical=deterministic)),
      assumptions=cfg.get("assumptions", []) + ["sequentially consistent interleavings only (no weak-memory reordering)", "scheduling points at every instrumented memory access; real device timing is not modelled"],
      violations=[violation] if violation else [])
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k in sorted(known):
        if k in KNOWN.get(pid, {}): print(f"KNOWN-FINDING: property={pid} {k}: {KNOWN[pid][k]}")
    if violation:
        print(f"class {violation['cls']}: {violation['detail']}")
        print(f"VIOLATION property={pid} replay={violation['replay']}"); sys.exit(1)
    if bad:
        print("\n".join(gate_log), file=sys.stderr); err(f"{pid}: a violation was seen but did not replay exactly")
    if odd:
        print(open(f"{wdir}/l{odd[0]}.log").read()[-2000:], file=sys.stderr); err(f"{pid}: worker ended with status {ps[odd[0]].returncode}")
    if not deterministic: err(f"{pid}: two runs of the same seeds differ")
    print(f"OK property={pid} tier={tier} seed={seed} runs={agg['runs']} behaviours={len(cover)} interleavings={agg['interleavings']} faults={sum(v[0] for v in faults.values())} build={t_build:.0f}s search={wall:.0f}s")
main()
