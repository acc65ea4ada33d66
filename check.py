#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's working tree with the runtime, enumerates, aggregates.

usage: check.py <property id> [quick|thorough]       exit 0: held, 1: VIOLATION, 3: the check itself failed
       check.py --replay <file written by a VIOLATION>
"""
import sys, os, json, re, struct, tempfile, shutil, subprocess, threading, time
import vlib
from concurrent.futures import ThreadPoolExecutor
from spec import CHECKS

V = vlib.V

def read_progress(path):
    try:
        b = open(path, "rb").read()
        idx, = struct.unpack("q", b[:8])
        return idx, b[8:].split(b"\0")[0].decode(errors="replace")
    except Exception:
        return None, ""

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_context_size=6",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", OMP_NUM_THREADS="2")

class Runner:
    def __init__(self, prop, tier, deadline):
        self.prop, self.tier, self.deadline = prop, tier, deadline
        self.sum, self.mx, self.kinds = {}, {}, {}
        self.viol, self.samples, self.capped, self.errors, self.units = [], {}, False, [], {}
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="vchk.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)

    def shard(self, unit, exe, s, n):
        resume, restarts = 0, 0
        while True:
            left = self.deadline - time.time()
            if left <= 1:
                with self.lock: self.capped = True
                return
            prog = f"{self.scratch}/p.{unit['name']}.{s}"
            sd = f"{self.scratch}/s.{unit['name']}.{s}"
            os.makedirs(sd, exist_ok=True)
            if os.path.exists(prog): os.unlink(prog)
            cmd = [exe, "--shard", str(s), "--nshards", str(n), "--resume", str(resume), "--tier", self.tier, "--scratch", sd,
                   "--progress", prog, "--mode", unit.get("mode", "")]
            budget = left - 4
            if "seconds" in unit: budget = min(budget, unit["seconds"][self.tier])
            cmd += ["--seconds", f"{max(1, budget):.1f}"]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=sd)
            timer = threading.Timer(left + 60, p.kill); timer.start()
            out, err = p.communicate(); timer.cancel()
            out, err = out.decode(errors="replace"), err.decode(errors="replace")
            done = self.parse(unit, exe, out)
            if done: return
            idx, spec = read_progress(prog)
            if p.returncode == 70 or idx is None or idx < 0:
                with self.lock: self.errors.append(f"{unit['name']} shard {s}: exit {p.returncode} before the first case\n{err[-2000:]}")
                return
            kind = "hang" if p.returncode == 76 else "memory" if p.returncode == 77 else "crash"
            d = ""
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion[^\n]*|terminate called[^\n]*(\n[^\n]*)?)", err)
            if m: d = m.group(1).replace("\n", " ").replace("\t", " ")
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*/(?:lib\w+|binding)/[\w.\-]+:\d+)", err)[:3]
            if fr: d += " at " + " < ".join(fr)
            detail = f"the process ended with status {p.returncode} {d}".strip()
            with self.lock:
                self.kinds[kind] = self.kinds.get(kind, 0) + 1
                self.viol.append(dict(kind=kind, spec=spec, sched="", detail=detail, unit=unit, exe=exe, proc=True))
            restarts += 1
            if restarts > 2 or kind == "hang": return
            resume = idx + 1

    def parse(self, unit, exe, out):
        done = False
        with self.lock:
            u = self.units.setdefault(unit["name"], {})
            for ln in out.split("\n"):
                f = ln.split("\t")
                if f[0] == "V" and unit.get("memory_only"): pass # values are judged by the property the harness belongs to
                elif f[0] == "V" and len(f) >= 5:
                    self.viol.append(dict(kind=f[1], spec=f[2], sched=f[3], detail=f[4], unit=unit, exe=exe, proc=False))
                elif f[0] == "S" and len(f) == 3:
                    self.sum[f[1]] = self.sum.get(f[1], 0) + float(f[2]); u[f[1]] = u.get(f[1], 0) + float(f[2])
                elif f[0] == "M" and len(f) == 3:
                    self.mx[f[1]] = max(self.mx.get(f[1], 0), float(f[2]))
                elif f[0] == "K" and len(f) == 3:
                    if not unit.get("memory_only") and not any(v["unit"] is unit and v["kind"] == f[1] for v in self.viol): self.errors.append(f"{unit['name']}: violations of kind {f[1]} were counted but not printed")
                    self.kinds[f[1]] = self.kinds.get(f[1], 0) + int(f[2])
                elif f[0] == "C": self.capped = True; u["capped"] = 1
                elif f[0] == "N":
                    l = self.samples.setdefault(unit["name"], [])
                    if len(l) < 3: l.append(f[1])
                elif f[0] == "E": done = True
        return done

def replay_cmd(v):
    c = [v["exe"], "--only", v["spec"], "--mode", v["unit"].get("mode", ""), "--tier", v.get("tier", "quick")]
    if v["sched"]: c += ["--sched", v["sched"]]
    return c

def reproduce(v, tier, scratch):
    v["tier"] = tier
    try:
        p = subprocess.run(replay_cmd(v) + ["--scratch", scratch], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=scratch, timeout=200)
    except subprocess.TimeoutExpired:
        return True, "(timed out again)"
    out = p.stdout.decode(errors="replace")
    ended = any(l.startswith("E\t") for l in out.split("\n"))
    again = (not ended) if v["proc"] else bool(re.search(r"^V\t", out, re.M))
    if v["kind"] == "hang": again = p.returncode == 76
    return again, out + p.stderr.decode(errors="replace")[-6000:]

def known():
    ks = []
    fn = os.path.join(V, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            if ln.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) unit=(\S+) kind=(\S+) spec=~(.*?)~ what=(.*)$", ln.rstrip("\n"))
                if not m: vlib.die("malformed line in known_findings.txt: " + ln)
                ks.append(m.groups())
    return ks

def replay_file(path):
    v = json.load(open(path)); c = CHECKS[v["property"]]
    unit = next(u for u in c["units"] if u["name"] == v["unit"])
    v["unit"] = unit; v["exe"] = build(unit)
    sc = tempfile.mkdtemp(prefix="vchk.")
    again, out = reproduce(v, v["tier"], sc)
    shutil.rmtree(sc, ignore_errors=True)
    print(out); print("REPRODUCED" if again else "not reproduced")
    sys.exit(1 if again else 0)

def build(unit):
    return vlib.build(unit["variant"], unit["harness"], unit["groups"], unit.get("extra", []), name=unit.get("exe"))

def main():
    if sys.argv[1] == "--replay": return replay_file(sys.argv[2])
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else vlib.TIER
    if tier not in ("quick", "thorough"): tier = "quick"
    c = CHECKS[prop]; t0 = time.time()
    units = [u for u in c["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    exes = {}
    for u in units: exes[u["name"]] = build(u)
    tb = time.time() - t0
    limit = c.get("limit", {}).get(tier, 200 if tier == "quick" else 820)
    R = Runner(prop, tier, t0 + limit)
    try:
        jobs = []
        for u in units:
            n = u.get("shards", vlib.NCPU)
            jobs += [(u, exes[u["name"]], s, n) for s in range(n)]
        with ThreadPoolExecutor(vlib.NCPU) as ex: list(ex.map(lambda j: R.shard(*j), jobs))
        if R.errors: vlib.die("\n".join(R.errors[:3]))
        ks = known(); fresh, seen = [], {}
        for v in R.viol:
            for p, un, kd, rx, what in ks:
                if p == prop and re.fullmatch(un, v["unit"]["name"]) and re.fullmatch(kd, v["kind"]) and re.fullmatch(rx, v["spec"]):
                    seen[what] = seen.get(what, 0) + 1; break
            else: fresh.append(v)
        # simplest first, one of each kind and unit; every one is replayed in a fresh process before it is reported
        fresh.sort(key=lambda v: (len(v["spec"]) + len(v["sched"]), v["spec"]))
        picked, kinds = [], set()
        for v in fresh:
            if (v["kind"], v["unit"]["name"]) in kinds or len(picked) >= 8: continue
            kinds.add((v["kind"], v["unit"]["name"])); picked.append(v)
        wall = time.time() - t0
        reported = []
        if picked:
            os.makedirs(os.path.join(V, "replay"), exist_ok=True)
            with ThreadPoolExecutor(4) as ex: reps = list(ex.map(lambda v: reproduce(v, tier, R.scratch), picked))
            for i, (v, (again, out)) in enumerate(zip(picked, reps)):
                fn = os.path.join(V, "replay", f"{prop}-{i}.json")
                json.dump(dict(property=prop, unit=v["unit"]["name"], kind=v["kind"], spec=v["spec"], sched=v["sched"], detail=v["detail"], tier=tier,
                               proc=v["proc"], reproduced=again, command=replay_cmd(v), output=out[-8000:].split("\n")), open(fn, "w"), indent=1)
                if not again and v["kind"] == "hang":
                    print(f"note: a case ran out of time but not when run alone: {v['spec']}"); continue
                reported.append((v, fn, again))
        for what, n in sorted(seen.items()): print(f"KNOWN-FINDING: property={prop} {what} ({n} cases)")
        ev = evidence(prop, tier, c, R, units, tb, wall, len(reported), seen)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        cov = ev["coverage"]
        print(f"{prop} {tier}: evaluations={cov['evaluations']} nontrivial={cov['distinct_nontrivial']} exhaustive={cov['exhaustive']} build={tb:.1f}s wall={wall:.1f}s")
        for v, fn, again in reported:
            print(f"VIOLATION property={prop} replay={fn}")
            print(f"  unit {v['unit']['name']} kind {v['kind']}{'' if again else ' (not reproduced when run alone)'}\n  case {v['spec'][:600]}\n  schedule {v['sched'][:300] or 'default'}\n  {v['detail'][:900]}")
        sys.stdout.flush()
        sys.exit(1 if reported else 0)
    finally:
        shutil.rmtree(R.scratch, ignore_errors=True)

def evidence(prop, tier, c, R, units, tb, wall, nv, seen):
    S = R.sum
    ev_key = c.get("evaluations", "cases")
    samples = []
    for u in units:
        for s in R.samples.get(u["name"], [])[:2]: samples.append(f"{u['name']}: {s[:400]}")
    cov = dict(evaluations=int(S.get("schedules", 0) + S.get("runs", 0) + S.get("ops", 0)) or int(S.get("cases", 0)),
               distinct_nontrivial=int(S.get("nontrivial", 0)), rule=c["rule"], samples=samples[:14],
               exhaustive=not R.capped, cases=int(S.get("cases", 0)),
               per_unit={u["name"]: dict(variant=u["variant"], **{k: int(v) for k, v in sorted(R.units.get(u["name"], {}).items())}) for u in units},
               maxima={k: v for k, v in sorted(R.mx.items())}, build_s=round(tb, 1), known_findings_seen=len(seen))
    for k in ("schedules", "points", "choice_points"):
        if k in S: cov[k] = int(S[k])
    if any(k.startswith("schedules_dev") for k in S): cov["schedules_by_deviations"] = {k[13:]: int(v) for k, v in sorted(S.items()) if k.startswith("schedules_dev")}
    return dict(property=prop, tier=tier, seed=vlib.SEED, level="exploration", coverage=cov, assumptions=c["assumptions"], wall_s=round(wall, 2), violations=nv)

main()
