#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property by symbolic execution of the real code.

1. rebuild the encoding (LLVM IR of /repo's working tree + harnesses) and the native replayer;
2. explore every harness of the property with symx (all branches/assertions decided by Z3);
3. every counterexample is replayed against the natively compiled real code; only a confirmed one is a VIOLATION;
4. sample paths are replayed natively too (engine validated against the implementation);
5. evidence/<id>.json is rewritten.
"""
import json, os, re, subprocess, sys, time, hashlib, threading, tempfile, shutil, glob
ROOT = os.path.dirname(os.path.abspath(__file__))
os.chdir(ROOT)
from props import PROPS
T0 = time.time()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Job(threading.Thread):
    def __init__(self, cmd):
        super().__init__(); self.cmd = cmd; self.start()
    def run(self):
        t = time.time(); r = sh(self.cmd); self.rc = r.returncode; self.out = r.stdout; self.t = time.time() - t
    def done(self, what):
        self.join()
        if self.rc != 0:
            print(self.out[-6000:]); print(f"ERROR: {what} failed"); sys.exit(2)

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    runs = P[tier] if tier in P else P["quick"]
    os.makedirs("evidence", exist_ok=True)
    known = json.load(open("known_findings.json"))
    listed = {k["id"]: k for k in known["known"]}
    jx = Job(["cargo", "+stable", "build", "--release", "--offline", "--manifest-path", "symx/Cargo.toml"])
    mod = P.get("module", "sym")
    js = Job([f"./build_{mod}.sh"])
    native = ["./build_native.sh"] if mod == "sym" else ["./build_native_srv.sh"]
    jn = Job(native)
    jx.done("building symx"); js.done("building the encoding")
    t_build = time.time() - T0
    ll = max(glob.glob(f"build/{mod}/**/wat_{mod}.ll", recursive=True), key=os.path.getmtime)
    work = tempfile.mkdtemp(prefix="symx-")
    stats, viols, findings, reaches, funcs, inconc, samples = [], [], {}, {}, {}, [], []
    total_budget = P.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    t_explore = time.time()
    # ---- native replay
    ndir, nbin = ("build/native", "replay") if mod == "sym" else ("build/native_srv", "replay_srv")
    rep = f"{ndir}/debug/{nbin}"
    def replay(h, ps, inp):
        try: q = subprocess.run([rep, h, inp, ps], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40, errors="replace")
        except subprocess.TimeoutExpired: return "hang", ""
        o = q.stdout
        if "REPLAY-OK" in o and q.returncode == 0: return "ok", o
        if "REPLAY-ASSERT" in o: return "assert", o
        if "REPLAY-EXHAUSTED" in o or "REPLAY-ASSUME-FAILED" in o: return "diverged", o
        return "crash", o
    built = []
    def bad(v):
        if not built: jn.done("building the replayer"); built.append(1)
        return replay(v[0], v[1], v[4])[0] in ("assert", "crash", "hang")
    try:
        for i, r in enumerate(runs):
            h, params, budget = r["h"], r.get("p", []), r.get("b", 60)
            left = total_budget - (time.time() - t_explore)
            if left < 3:
                stats.append({"harness": h, "params": params, "skipped": True}); continue
            log = f"{work}/{i}.log"
            ps = ",".join(map(str, params))
            cmd = ["symx/target/release/symx", "--ll", ll, "--harness", h, "--param", ps, "--out", log,
                   "--workers", "8", "--budget", str(min(budget, left)), "--max-viol", "6", "--instr-limit", str(r.get("limit", 400_000_000))]
            q = sh(cmd)
            vs = [(h, ps, *(l.rstrip("\n").split("\t") + ["", ""])[1:6]) for l in open(log, errors="replace") if l.startswith("V\t")] if os.path.exists(log) else []
            if vs and not any(bad(v) for v in vs):  # the encoding abstracts something here (hashes, say): look at more counterexamples than the first few
                cmd[cmd.index("--max-viol") + 1] = "400"
                q = sh(cmd)
            st = None
            for l in open(log, errors="replace") if os.path.exists(log) else []:
                f = l.rstrip("\n").split("\t")
                if f[0] == "S": st = json.loads(f[1])
                elif f[0] == "V": viols.append((h, ps, f[1], f[2], f[3], f[4] if len(f) > 4 else ""))
                elif f[0] == "F": funcs[f[1]] = int(f[2])
                elif f[0] == "I": inconc.append((h, ps, *f[1:4]))
                elif f[0] == "R":
                    reaches.setdefault(h, {}).setdefault(f[1], 0); reaches[h][f[1]] += 1
                    if f[1].startswith("KF"): findings.setdefault(f[1], (h, ps, f[2]))
                    if not f[1].startswith("KF-") and len([s for s in samples if s[0] == h and s[3] == f[1]]) < 2: samples.append((h, ps, f[2], f[1]))
            if st is None:
                inconc.append((h, ps, "symx ended without statistics: " + q.stdout[-300:])); st = {"harness": h, "stop": 9}
            st["params"] = params
            st["exhaustive"] = st.get("stop") == 0 and st.get("inconclusive") == 0 and st.get("unknown") == 0 and st.get("died", 0) == 0
            stats.append(st)
            vs = [v for v in viols if v[0] == h and v[1] == ps]
            vs = vs[::max(1, len(vs) // 40)]
            good = next((v for v in vs if bad(v)), None)
            if good: viols.remove(good); viols.insert(0, good)
            if good and not P.get("all"): break
        t_explore = time.time() - t_explore
        if not built: jn.done("building the replayer")
        confirmed, unconfirmed = [], []
        for v in viols[:40]:
            k, o = replay(v[0], v[1], v[4])
            (confirmed if k in ("assert", "crash", "hang") else unconfirmed).append((v, k, o))
            if len(confirmed) >= 3: break
        if viols and not confirmed:  # arithmetic that only misbehaves without overflow checks
            Job(native + ["--release"]).done("building the replayer (release)")
            rep = f"{ndir}/release/{nbin}"
            for v in viols[:40]:
                k, o = replay(v[0], v[1], v[4])
                if k in ("assert", "crash", "hang"): confirmed.append((v, k, o)); break
        validated = diverged = 0
        for s in samples:
            k, o = replay(*s[:3])
            if k == "ok": validated += 1
            elif k == "diverged": diverged += 1
            else: diverged += 1; inconc.append((s[0], s[1], f"path passes symbolically but replays as {k}", s[2]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # ---- verdict
    code, lines = 0, []
    for fid, (h, ps, inp) in sorted(findings.items()):
        k = listed.get(fid)
        if k and pid in k["properties"]: lines.append(f"KNOWN-FINDING: property={pid} {fid}: {k['what']}")
        else:
            confirmed.append(((h, ps, "finding", f"{fid} (not listed as a known finding)", inp, ""), "assert", ""))
    if confirmed:
        os.makedirs("evidence/replay", exist_ok=True)
        for v, k, o in confirmed[:3]:
            notes = [bytes.fromhex(x).decode("utf-8", "replace") for x in v[5].split(";") if x]
            name = f"evidence/replay/{pid}-{hashlib.sha1(repr(v[:5]).encode()).hexdigest()[:10]}.json"
            json.dump({"property": pid, "harness": v[0], "params": v[1], "inputs": v[4], "kind": v[2], "message": v[3], "documents": notes, "native": k,
                       "native_output": o[-3000:], "replay_cmd": f"{native[0]} && {ndir}/debug/{nbin} {v[0]} '{v[4]}' '{v[1]}'"}, open(name, "w"), indent=1)
            lines.append(f"{v[0]}: {v[2]}: {v[3]}"); lines += [f"   | {n!r}" for n in notes[:4]]
            lines.append(f"VIOLATION property={pid} replay={ROOT}/{name}")
        code = 1
    missing = [(r["h"], x) for r in runs for x in r.get("r", []) if x not in reaches.get(r["h"], {}) and any(s["harness"] == r["h"] and not s.get("skipped") for s in stats)]
    tot = lambda k: sum(s.get(k, 0) for s in stats)
    exhaustive = all(s.get("exhaustive") for s in stats) and not inconc
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot("paths"), "transitions": tot("forks") + tot("infeasible"), "traces_validated_against_impl": validated,
              "samples": [{"harness": s[0], "params": s[1], "inputs": s[2], "reached": s[3]} for s in samples[:12]],
              "exhaustive_within_bounds": exhaustive, "bounds": P["bounds"], "outside": P.get("outside", ""),
              "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "cached_verdicts": tot("cache_hits"),
              "solver_s": round(tot("solver_s"), 3), "assertions": tot("asserts"), "assertions_symbolic": tot("asserts_symbolic"), "instructions": tot("instructions"),
              "functions_encoded": len(funcs), "functions": sorted(funcs)[:400], "reached": reaches, "not_reached": missing,
              "inconclusive": [list(map(str, x))[:5] for x in inconc[:20]], "diverged_replays": diverged,
              "unconfirmed_counterexamples": [[*u[0][:5], u[1]] for u in unconfirmed[:10]], "runs": stats,
              "build_s": round(t_build, 1)},
          "wall_s": round(time.time() - T0, 2)}
    json.dump(ev, open(f"evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {tot('paths')} paths, {tot('queries')} queries, solver {tot('solver_s'):.1f}s, {len(funcs)} functions of /repo executed, exhaustive={exhaustive}, validated={validated}, inconclusive={len(inconc)}, unconfirmed={len(unconfirmed)}, not reached={missing}, wall {time.time()-T0:.0f}s")
    for x in inconc[:5]: print("  inconclusive:", *[str(y)[:300] for y in x[:4]])
    for u in unconfirmed[:5]: print("  not confirmed natively:", u[0][:5], u[1])
    for s in stats:
        if not s.get("exhaustive"): print("  not exhaustive:", s["harness"], s["params"], "skipped" if s.get("skipped") else f"stop={s.get('stop')} paths={s.get('paths')}")
        elif "-v" in sys.argv: print("  ", s["harness"], s["params"], s["paths"], "paths", s["wall_s"], "s")
    for l in lines: print(l)
    sys.exit(code)
main()
