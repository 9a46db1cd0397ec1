"""Runner: drives the generated cases of one property over worker processes, shrinks failures, writes replay + evidence."""
import argparse
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(env.VERIF, "evidence")
CASE_ALARM_S = 120  # a single case normally takes milliseconds to a few seconds


class Violation(Exception):
    """The property does not hold on this case."""


class Reject(Exception):
    """The generated case is outside the domain (counted, not evaluated)."""


class CaseTimeout(BaseException):
    pass


class Sub:
    """One family of generated cases of a property: a strategy for JSON-able cases and the oracle run on each."""

    def __init__(self, name, strategy, run, quick, thorough=None, shards=None, desc=""):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.desc = desc


class Rec:
    """What one run of a case reports about itself."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.checks = 0

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def ok(self, cond, msg, *args):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg % args if args else msg)

    def fail(self, msg):
        raise Violation(msg)

    def reject(self):
        raise Reject()


def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def seed_everything(key):
    import numpy as np
    import torch

    h = int(hashlib.sha256(key.encode()).hexdigest()[:15], 16)
    random.seed(h)
    np.random.seed(h % (2**32))
    torch.manual_seed(h)
    torch.set_grad_enabled(True)
    torch.set_default_dtype(torch.float32)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Run the oracle on one case. Returns (rec, error message or None). Reject propagates."""
    key = case_key(case)
    case = json.loads(key)  # the run may not influence what is stored
    rec = Rec()
    seed_everything(key)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_ALARM_S)
    try:
        sub.run(case, rec)
        return rec, None
    except Reject:
        raise
    except Violation as e:
        return rec, str(e)
    except CaseTimeout:
        return rec, f"did not return within {CASE_ALARM_S} s"
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # on a valid case nothing may raise
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f for f in tb if f.filename.startswith(env.REPO + os.sep)]
        where = "; ".join(f"{os.path.relpath(f.filename, env.REPO)}:{f.name}" for f in frames[-3:])
        last = f"{tb[-1].filename}:{tb[-1].lineno}"
        kind = "raised" if frames else "broke the oracle (result of an unexpected form?)"
        return rec, f"{kind} {type(e).__name__}: {str(e)[:300]} [{where}] at {last}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _case_size(case):
    return len(case_key(case))


def _worker(prop, sub, shard, n, seed, out_path, deadline):
    import faulthandler

    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        import hypothesis.internal.conjecture.engine as eng

        if hasattr(eng, "MAX_SHRINKING_SECONDS"):
            eng.MAX_SHRINKING_SECONDS = 25
        st_ = {
            "evaluations": 0, "rejected": 0, "skipped_late": 0, "checks": 0, "keys": {}, "labels": {}, "samples": [],
            "failure": None, "error": None,
        }
        cur_path = out_path + ".cur"
        state = {"shrinking": False, "last": None, "hung": False}

        class Found(Exception):
            pass

        def body(case):
            if time.time() > deadline and not state["shrinking"]:
                st_["skipped_late"] += 1
                return
            if state["hung"]:  # every smaller case could take the whole alarm again: report this one as it is
                return
            key = case_key(case)
            with open(cur_path, "w") as f:
                f.write(key)
            try:
                rec, err = run_case(sub, case)
            except Reject:
                st_["rejected"] += 1
                hypothesis.reject()
            if not state["shrinking"]:
                st_["evaluations"] += 1
                st_["checks"] += rec.checks
                for l in set(rec.labels):
                    st_["labels"][l] = st_["labels"].get(l, 0) + 1
                if rec.is_nontrivial:
                    kh = hashlib.sha1(key.encode()).hexdigest()[:16]
                    st_["keys"][kh] = 1
                    if len(st_["samples"]) < 3 and (len(st_["keys"]) % 7 == 1):
                        st_["samples"].append(key[:900])
            if err is not None:
                state["shrinking"] = True
                state["last"] = (json.loads(key), err)
                state["hung"] = err.startswith("did not return")
                raise Found("violation")

        test = hypothesis.given(sub.strategy())(body)
        test = settings(
            max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), print_blob=False,
        )(test)
        hseed = int(hashlib.sha256(f"{seed}|{prop}|{sub.name}|{shard}".encode()).hexdigest()[:12], 16)
        test = hypothesis.seed(hseed)(test)
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        sys.stderr = open(out_path + ".err", "w")
        faulthandler.enable(sys.stderr)
        try:
            test()
        except BaseException as e:
            if state["last"] is None:
                st_["error"] = "".join(traceback.format_exception(e))[-3000:]
        if state["last"] is not None:
            case, msg = state["last"]
            st_["failure"] = {"case": case, "message": msg, "reproduced": False}
            for _ in range(1 if state["hung"] else 3):
                try:
                    _, err = run_case(sub, case)
                except Reject:
                    err = None
                if err is not None:
                    st_["failure"].update(message=err, reproduced=True)
                    break
    except BaseException as e:
        st_["error"] = "".join(traceback.format_exception(e))[-3000:]
    with open(out_path + ".tmp", "w") as f:
        json.dump(st_, f)
    os.replace(out_path + ".tmp", out_path)
    os._exit(0)


def load_property(pid):
    return importlib.import_module(f"pbt.props.{pid.lower()}")


def known_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open:") and f"property={pid} " in line + " ":
                out.append(dict(t.split("=", 1) for t in line.split()[1:3]) | {"text": line.split(None, 3)[3]})
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args(argv)
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_pbt_")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["VERIF_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    try:
        try:
            env.setup()
            mod = load_property(a.property)
        except ImportError as e:
            # a module of the repository which cannot be imported any more breaks every property stated about it
            traceback.print_exc()
            if env.REPO + os.sep in "".join(traceback.format_exception(e)):
                return 2
            return 2
        if a.replay:
            return replay(a.property, mod, a.replay)
        return drive(a, mod, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(pid, mod, path):
    r = json.load(open(path))
    sub = {s.name: s for s in mod.SUBS}[r["sub"]]
    try:
        rec, err = run_case(sub, r["case"])
    except Reject:
        print("case is outside the domain")
        return 0
    if err is None:
        print(f"held on the replayed case of {pid}/{sub.name}")
        return 0
    print(f"{pid}/{sub.name}: {err}")
    print(f"VIOLATION property={pid} replay={os.path.abspath(path)}")
    return 1


def drive(a, mod, scratch, t0):
    pid = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET_S", "240" if tier == "quick" else "14400"))
    deadline = t0 + budget
    known = known_findings(pid)
    for k in known:
        probe = getattr(mod, "KNOWN", {}).get(k["id"])
        if probe is None:
            print(f"ERROR: known finding {k['id']} has no probe")
            return 2
        if probe():
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
    tasks = []
    for s in mod.SUBS:
        if a.sub and s.name != a.sub:
            continue
        n = max(1, int(math.ceil((s.quick if tier == "quick" else s.thorough) * a.scale)))
        shards = s.shards or max(1, min(a.procs, n // 6))
        per = int(math.ceil(n / shards))
        tasks += [(s, i, per) for i in range(shards)]
    ctx = mp.get_context("fork")
    pending = list(tasks)
    running, results = {}, []
    failure, errors = None, []
    while (pending or running) and failure is None:
        while pending and len(running) < a.procs:
            s, i, per = pending.pop(0)
            out = os.path.join(scratch, f"{s.name}.{i}.json")
            p = ctx.Process(target=_worker, args=(pid, s, i, per, seed, out, deadline))
            p.start()
            running[p] = (s, i, out)
        time.sleep(0.02)
        for p in list(running):
            if p.exitcode is None:
                continue
            s, i, out = running.pop(p)
            if os.path.exists(out):
                r = json.load(open(out))
                r["sub"], r["shard"] = s.name, i
                results.append(r)
                if r["error"]:
                    errors.append(f"{s.name}/{i}: {r['error']}")
                if r["failure"]:
                    if r["failure"]["reproduced"]:
                        failure = (s.name, r["failure"])
                    else:
                        errors.append(f"{s.name}/{i}: not reproducible: {r['failure']}")
            else:
                sig = -p.exitcode if p.exitcode and p.exitcode < 0 else 0
                cur = out + ".cur"
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and os.path.exists(cur):
                    failure = (s.name, {"case": json.load(open(cur)), "message": f"process died of signal {sig}"})
                else:
                    errors.append(f"{s.name}/{i}: worker ended with {p.exitcode} and no result")
    for p in running:
        p.terminate()
    for p in running:
        p.join(5)
        if p.exitcode is None:
            p.kill()
    wall = time.time() - t0
    per_sub, keys, samples = {}, set(), []
    for r in results:
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "rejected": 0, "skipped_late": 0,
                                          "oracle_comparisons": 0, "labels": {}})
        d["evaluations"] += r["evaluations"]
        d["rejected"] += r["rejected"]
        d["skipped_late"] += r["skipped_late"]
        d["oracle_comparisons"] += r["checks"]
        new = {f"{r['sub']}:{k}" for k in r["keys"]} - keys
        keys |= new
        d["distinct_nontrivial"] += len(new)
        for l, c in r["labels"].items():
            d["labels"][l] = d["labels"].get(l, 0) + c
        if r["samples"] and sum(1 for x in samples if x["sub"] == r["sub"]) < 2:
            samples.append({"sub": r["sub"], "case": r["samples"][-1]})
    rule = getattr(mod, "RULE", "")
    for s in mod.SUBS:
        if s.desc:
            rule += f" [{s.name}] {s.desc}"
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per_sub.values()),
            "distinct_nontrivial": len(keys),
            "rule": rule,
            "samples": samples or ["none: the run ended before a non-trivial case completed"],
            "per_sub": per_sub,
            "exhaustive": False,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if failure else 0,
    }
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if failure:
        name, fl = failure
        d = os.path.join(EVIDENCE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-{name}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": name, "case": fl["case"], "message": fl["message"]}, f, indent=1)
        print(f"{pid}/{name}: {fl['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR", e)
        return 2
    c = ev["coverage"]
    print(f"{pid}: held on {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {wall:.1f}s")
    if a.sub or "-v" in sys.argv or os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(per_sub, indent=1))
    return 0
