#!/usr/bin/env python3
"""Decide one property: discharge its contracts on /repo's current source, and
evaluate the run-time contracts (the bounded stand-in) on the real code.

    check.py C01 [--tier quick|thorough]

Exit 0: nothing violated.  Exit 1: `VIOLATION property=... replay=...` printed.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL = os.environ.get("VERIF_REAL_PYTHON", "/opt/venv/bin/python")
EXACT = ("invariant:",)

BUDGET = {"quick": 28, "thorough": 420}
LIMIT = {"quick": 60, "thorough": 120}
NSHARDS = 5


class Shard:
    def __init__(self, k, mod, scratch, a):
        self.k, self.out = k, os.path.join(scratch, f"shard{k}.json")
        self.hb = self.out + ".cur"
        self.log = open(os.path.join(scratch, f"shard{k}.log"), "w")
        env = child_env(scratch)
        self.limit = LIMIT[a.tier]
        self.p = subprocess.Popen([REAL, os.path.join(HERE, "rt", "run.py"), mod, "--shard", str(k), "--nshards", str(NSHARDS),
                                   "--seed", str(a.seed), "--tier", a.tier, "--budget", str(a.budget), "--limit", str(self.limit), "--out", self.out],
                                  stdout=self.log, stderr=self.log, env=env, start_new_session=True, cwd=scratch)
        self.t0 = time.time()
        self.stuck = None
        self.crash = None

    def poll(self):
        """True once finished"""
        if self.p.poll() is not None:
            if not os.path.exists(self.out):
                self.crash = self.current()
            return True
        try:
            age = time.time() - os.path.getmtime(self.hb)
        except OSError:
            age = 0
        if age > self.limit + 20:
            self.stuck = self.current()
            kill(self.p)
            return True
        return False

    def current(self):
        try:
            with open(self.hb) as f:
                return json.load(f)
        except Exception:
            return None


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def child_env(scratch):
    env = dict(os.environ)
    env.update(VERIF_SCRATCH=scratch, NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", VERIF_REPO=REPO, TMPDIR=scratch, PYTHONHASHSEED="0")
    return env


def replay_case(mod, case, scratch, limit):
    """('broken'|'ok'|'timeout'|'crash'|..., message)"""
    f = os.path.join(scratch, "replay_in.json")
    with open(f, "w") as h:
        json.dump(case, h)
    p = subprocess.Popen([REAL, os.path.join(HERE, "rt", "run.py"), mod, "--replay", f, "--limit", str(limit)],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=child_env(scratch), start_new_session=True, cwd=scratch)
    try:
        out, _ = p.communicate(timeout=limit * 4 + 60)
    except subprocess.TimeoutExpired:
        kill(p)
        return "timeout", f"no answer within {limit * 4} s"
    try:
        d = json.loads(out.strip().splitlines()[-1])
        return d["status"], d["message"]
    except Exception:
        return ("crash", f"the interpreter ended with status {p.returncode}") if p.returncode else ("skip", "")


def prove(names, tier):
    from pyvc.verify import Program, verify_function, discharge
    import contracts
    cs, invs = contracts.load()
    prog = Program(REPO)
    reps = []
    state = [n for n in names if n not in cs]
    if state:
        from pyvc.objverify import verify_many
        sc = contracts.state_contracts()
        state.sort(key=lambda n: -sc[n].get("cost", 0))
        reps += verify_many(REPO, state, 4 if tier == "quick" else 6, 150 if tier == "quick" else 400)
    for n in names:
        if n in state:
            continue
        reps.append(verify_function(prog, cs[n], cs, invs, 40 if tier == "quick" else 200))
    discharge(reps, ms=12000 if tier == "quick" else 60000, jobs=4 if tier == "quick" else 6)
    return prog, cs, reps


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    if a.setup:
        import z3
        import contracts
        contracts.load()
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        subprocess.run([REAL, "-c", "import numpy, numba, sympy, scipy"], check=True)
        print("z3", z3.get_version_string())
        sys.exit(0)
    a.tier = a.tier if a.tier in BUDGET else "quick"
    a.budget = a.budget or BUDGET[a.tier]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{a.property}_", dir="/tmp")
    try:
        rc = decide(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(a, scratch, t0):
    import contracts
    pid = a.property
    mod = pid.lower()
    have_rt = os.path.exists(os.path.join(HERE, "rt", mod + ".py"))
    names = contracts.all_names(pid)
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    shards = [Shard(k, mod, scratch, a) for k in range(NSHARDS)] if have_rt else []
    prog = cs = None
    reps, enginefail = [], ""
    if names:
        try:
            prog, cs, reps = prove(names, a.tier)
        except Exception as e:
            import traceback
            enginefail = f"{type(e).__name__}: {e}"
            traceback.print_exc()
    tproof = time.time() - t0
    live = list(shards)
    hard = time.time() + a.budget + LIMIT[a.tier] + 120
    while live:
        live = [s for s in live if not s.poll()]
        if live and time.time() > hard:
            for s in live:
                s.stuck = s.current()
                kill(s.p)
            break
        time.sleep(.1)
    # ------------------------------------------------------------ collect
    ev = dict(evaluations=0, distinct=0, trivial=0, groups={}, samples=[], skipped=[], exhausted=set())
    suspects = []
    for s in shards:
        if s.stuck:
            suspects.append(dict(s.stuck, message="no answer", kind="hang"))
        if s.crash:
            suspects.append(dict(s.crash, message="interpreter crash", kind="crash"))
        try:
            d = json.load(open(s.out))
        except Exception:
            continue
        ev["evaluations"] += d["evaluations"]
        ev["distinct"] += d["distinct"]
        ev["trivial"] += d["trivial"]
        for g, c in d["groups"].items():
            t = ev["groups"].setdefault(g, dict(ok=0, skip=0, broken=0, timeout=0))
            for k, v in c.items():
                t[k] += v
        if len(ev["samples"]) < 4:
            have = {x["group"] for x in ev["samples"]}
            ev["samples"] += [x for x in d["samples"] if x["group"] not in have]
        ev["skipped"] += d["skipped"][:3]
        suspects += d["broken"] + [dict(t, kind="timeout") for t in d["timeouts"]]
    suspects.sort(key=lambda c: (c.get("kind") is not None, len(json.dumps(c.get("params")))))
    violations, known = [], {}
    findings = [f for f in json.load(open(os.path.join(HERE, "known_findings.json"))) if f.get("property") == pid and f.get("status") == "open"]
    done_msgs = set()
    for c in suspects:
        key = (c["group"], c.get("message", "")[:60])
        if key in done_msgs or len(violations) >= 3:
            continue
        st, msg = replay_case(mod, dict(group=c["group"], params=c["params"]), scratch, LIMIT[a.tier] / 2)
        if st in ("broken", "timeout", "crash"):
            done_msgs.add(key)
            f = next((f for f in findings if f["group"] == c["group"] and f["match"] in msg), None)
            if f:
                known[f["what"]] = f
                continue
            violations.append(dict(kind="contract", status=st, module=mod, group=c["group"], params=c["params"], message=msg))
    # ------------------------------------------------------------ obligations
    oblig = disch = 0
    funcs, notes = [], []
    replay_until = time.time() + (60 if a.tier == "quick" else 300)
    for r in reps:
        oblig += max(len(r.obls), 1)
        disch += sum(o.status == "proved" for o in r.obls)
        by = {}
        for o in r.obls:
            if o.status == "proved":
                by[o.solver.split("/")[0]] = by.get(o.solver.split("/")[0], 0) + 1
        funcs.append(dict(function=r.name, status=r.status, reason=r.reason[:300], obligations=len(r.obls),
                          discharged=sum(o.status == "proved" for o in r.obls), backends=by,
                          solver_s=round(sum(o.time for o in r.obls), 2), loop_rules=sorted({x[2] for x in r.rules}),
                          vacuity=r.vacuity, library=r.lib[:40], inlined=r.inlined, callees_by_contract=getattr(r, "stubs", [])))
        refuted = [o for o in r.obls if o.status == "refuted"]
        missing = refuted + [o for o in r.obls if o.status not in ("proved", "refuted")]
        if not missing:
            continue
        exact = not any("invariant:" in x[2] for x in r.rules)
        from pyvc.concrete import replay
        hit = None
        for o in missing[:3]:
            if r.name not in cs:
                break
            if time.time() > replay_until:
                break
            o.vals = r.vals
            hit = replay(REPO, prog, cs[r.name], cs, o)
            if hit:
                violations.insert(0, dict(kind="counterexample", function=r.name, obligation=o.name, clause=hit[0], arguments=hit[1], answer=hit[2],
                                          message=f"{r.name}: {hit[0]}"))
                break
        if hit is None and exact and refuted:
            notes.append(f"{r.name}: {refuted[0].name} refuted, no failing input found")
            o = refuted[0]
            violations.append(dict(kind="obligation", function=r.name, obligation=o.name, verifier_output=o.model, nofail=True,
                                   message=f"{r.name}: obligation `{o.name}` is refuted"))
        elif hit is None and refuted:
            notes.append(f"{r.name}: {refuted[0].name} not provable with the given invariant (undecided; bounded stand-in decides)")
    real = [v for v in violations if not v.get("nofail")]
    violations = real or violations
    # ------------------------------------------------------------ evidence
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(os.path.join(HERE, "evidence")):
        if f.startswith(f"replay_{pid}_"):
            os.unlink(os.path.join(HERE, "evidence", f))
    from contracts import meta
    proved = bool(names) and not enginefail
    cov = dict(
        evaluations=ev["evaluations"], distinct_nontrivial=ev["distinct"],
        rule=meta.RULE.get(pid, "cases generated from the seed; distinct by content; trivial ones (no pair of objects to compare) are counted apart"),
        samples=[json.loads(json.dumps(s)[:2000]) if len(json.dumps(s)) <= 2000 else dict(group=s["group"], params=json.dumps(s["params"])[:2000]) for s in ev["samples"]] or ["none"],
        groups=ev["groups"], bounded="run-time contract evaluation on generated cases: bounded, never counted as proved",
        skipped=ev["skipped"][:6])
    if names:
        cov.update(obligations=oblig, discharged=disch, functions=funcs, functions_proved=sum(f["status"] == "proved" for f in funcs),
                   checker_cmd=f"python3-vt {os.path.join(HERE, 'check.py')} {pid} --tier {a.tier}",
                   trusted_base=meta.trusted(names), solver_s=round(sum(f["solver_s"] for f in funcs), 2), proof_wall_s=round(tproof, 1), engine_failure=enginefail)
    level = meta.LEVEL.get(pid, "proof" if names else "exploration")
    out = dict(property=pid, tier=a.tier, seed=a.seed, level=level, coverage=cov,
               assumptions=meta.ASSUME.get(pid, []) + notes, wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    for f in findings:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    print(f"{pid}: {disch}/{oblig if names else 0} obligations of {len(names)} functions, {ev['evaluations']} contract evaluations, {time.time() - t0:.1f} s")
    for f in funcs:
        if f["status"] != "proved":
            print(f"  {f['function']}: {f['status']} ({f['reason'][:160]})")
    for n in notes:
        print("  note:", n)
    for k, v in enumerate(violations):
        path = os.path.join(HERE, "evidence", f"replay_{pid}_{k}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print(f"  {v['message'][:500]}")
        if v["kind"] == "contract":
            print(f"  replay: {REAL} {HERE}/rt/run.py {v['module']} --replay {path}")
        print(f"VIOLATION property={pid} replay={path}" + (" no-failing-input-found" if v.get("nofail") else ""))
    return 1 if violations else 0


if __name__ == "__main__":
    main()
