"""check runner: drives a suite's scenarios over seeded cases in forked workers,
turns the first violations into replay files, and writes the evidence file."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import struct
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AKMON_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, VERIF)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy
numpy.seterr(all="ignore")

import awkward0
assert os.path.realpath(awkward0.__file__).startswith(os.path.realpath(REPO) + os.sep), awkward0.__file__
from akmon.monitor import Mon, Violation, Skip

CASE_CPU = 100.0         # CPU seconds one case may use (they take milliseconds)
WORKERS = max(1, min(8, os.cpu_count() or 1))
MEMORY = 3 << 30
QUICK = {"P26": 1.5, "P16": 2.5, "P15": 2.5}     # times the quick counts of the scenarios, for about 20 s on 8 cores
QUICK_DEFAULT = 4.0


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def case_rng(seed, scenario, i):
    return random.Random("%d/%s/%d" % (seed, scenario, i))


def run_case(sc, seed, i, watch=False, judge=True):
    mon = Mon(case_rng(seed, sc.name, i), sc.name, watch=watch, judge=judge)
    numpy.random.seed(int(hashlib.sha256(("%d/%s/%d" % (seed, sc.name, i)).encode()).hexdigest()[:8], 16))
    numpy.seterr(all="ignore")
    bad = None
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        sc.fn(mon)
    except Skip:
        mon.events["skipped"] += 1
    except Violation as err:
        bad = ("wrong", str(err), None)
    except Hang:
        bad = ("hang", "no result after %g s of CPU time" % CASE_CPU, None)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as err:
        tbs = traceback.extract_tb(err.__traceback__)
        mine = [t for t in tbs if "awkward0" in t.filename] or tbs
        t = mine[-1]
        bad = ("raised", "%s: %s" % (type(err).__name__, str(err)[:300]), "%s:%d" % (os.path.basename(t.filename), t.lineno))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if bad is not None and bad[0] == "raised" and not judge:
        bad = None
        mon.events["op raised"] += 1
    return mon, bad


def worker(wid, nworkers, plan, seed, path, deadline, watch, judge, maxbad):
    events = collections.Counter()
    sigs = set()
    bads, samples = [], {}
    ncases = collections.Counter()
    prog = open(path + ".prog", "wb", buffering=0)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    signal.signal(signal.SIGVTALRM, _alarm)
    cut = False
    for si, (sc, n) in enumerate(plan):
        for i in range(wid, n, nworkers):
            if time.time() > deadline:
                cut = True
                break
            prog.seek(0)
            prog.write(struct.pack("qq", si, i))
            mon, bad = run_case(sc, seed, i, watch, judge)
            ncases[sc.name] += 1
            events.update(mon.events)
            sigs.update(hashlib.md5(repr(s).encode()).digest() for s in mon.sigs)
            if sc.name not in samples and mon.sigs:
                samples[sc.name] = dict(scenario=sc.name, case=i, layout=mon.layout()[:300], **mon.desc)
            if bad is not None:
                bads.append((sc.name, i, bad, mon.layout()[:600], dict(mon.desc)))
                if len(bads) >= maxbad:
                    break
        if len(bads) >= maxbad:
            break
    with open(path, "wb") as f:
        pickle.dump((events, sigs, bads, samples, ncases, cut), f)
    os._exit(0)


def explore(suite, plan, seed, workers, watch, judge, budget, maxbad=5):
    import tempfile
    deadline = time.time() + budget
    tmp = tempfile.mkdtemp(prefix="akmon-")
    pids = {}
    try:
        sys.stdout.flush()
        for w in range(workers):
            path = os.path.join(tmp, "w%d" % w)
            pid = os.fork()
            if pid == 0:
                try:
                    worker(w, workers, plan, seed, path, deadline, watch, judge, maxbad)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            pids[pid] = (w, path)
        events, sigs, bads, samples, ncases, cut = collections.Counter(), set(), [], {}, collections.Counter(), False
        while pids:
            pid, status = os.wait()
            if pid not in pids:
                continue
            w, path = pids.pop(pid)
            if status == 0 and os.path.exists(path):
                with open(path, "rb") as f:
                    e, s, b, sm, nc, c = pickle.load(f)
                events.update(e)
                sigs.update(s)
                bads.extend(b)
                ncases.update(nc)
                for k, v in sm.items():
                    samples.setdefault(k, v)
                cut = cut or c
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                with open(path + ".prog", "rb") as f:
                    si, i = struct.unpack("qq", f.read(16))
                bads.append((plan[si][0].name, i, ("crashed", "the process died with signal %d" % os.WTERMSIG(status), None), "", {}))
            else:
                raise RuntimeError("worker %d ended with status %d" % (w, status))
        bads.sort(key=lambda b: (b[0], b[1]))
        return events, sigs, bads, samples, ncases, cut
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def load(prop):
    return importlib.import_module("checks.%s" % prop.lower())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--explore", action="store_true", help="bucket all failures instead of stopping")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=WORKERS)
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    prop = a.property
    mod = load(prop)
    suite = mod.SUITE
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        signal.signal(signal.SIGVTALRM, _alarm)
        sc = [s for s in suite.scenarios if s.name == r["scenario"]][0]
        mon, bad = run_case(sc, r["seed"], r["case"], suite_watch(suite, sc), suite_judge(suite))
        print(mon.layout())
        for k, v in mon.desc.items():
            print("  %s = %s" % (k, v))
        print(bad if bad is not None else "held")
        return 1 if bad is not None else 0
    t0 = time.time()
    scale = a.scale * float(os.environ.get("AKMON_SCALE", "1"))
    plan = []
    for s in suite.scenarios:
        if a.only and not any(s.name.startswith(o) for o in a.only.split(",")):
            continue
        n = int(s.quick * QUICK.get(prop, QUICK_DEFAULT)) if a.tier == "quick" else s.thorough
        plan.append((s, max(1, int(n * scale))))
    budget = a.budget or (420.0 if a.tier == "quick" else 3600.0)
    watch, judge = getattr(suite, "watch", False), getattr(suite, "judge", True)
    events, sigs, bads, samples, ncases, cut = explore(suite, plan, a.seed, a.workers, watch, judge, budget, maxbad=10 ** 9 if a.explore else 3)
    if a.explore:
        buckets = collections.OrderedDict()
        for b in bads:
            kind, msg, where = b[2]
            import re
            key = (b[0], kind, re.sub(r"[-+]?[0-9.]+", "#", msg)[:60] if kind == "raised" else b[4].get("op"), where)
            buckets.setdefault(key, []).append(b)
        for key, bs in sorted(buckets.items(), key=lambda kv: -len(kv[1]))[:25]:
            b = min(bs, key=lambda b: (len(b[3]), len(str(b[4]))))
            print(len(bs), key)
            print("     case %d  %s" % (b[1], b[3][:250]))
            print("     %s" % (b[2][1][:300],))
            for k, v in b[4].items():
                print("     %s = %s" % (k, v[:260]))
        print("cases %s  failures %d  distinct %d  wall %.1fs cut=%s" % (dict(ncases), len(bads), len(sigs), time.time() - t0, cut))
        print({k: v for k, v in events.most_common(60)})
        return 0
    # known findings: fixed reproducers, run on every run
    listed = known_findings(prop)
    for key, fn in suite.known:
        try:
            what = fn()
        except Exception as err:
            what = "%s: %s" % (type(err).__name__, str(err)[:200])
        events["finding-probe"] += 1
        if what is not None:
            if key in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, what))
            else:
                bads.append(("finding:" + key, 0, ("wrong", what, None), "", {}))
    evdir = os.environ.get("AKMON_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    total = sum(ncases.values())
    needed = getattr(suite, "needs", {})
    short = ["%s=%d<%d" % (k, events[k], n) for k, n in needed.items() if events[k] < 0.5 * n * min(1.0, scale)]
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(sigs),
            "rule": getattr(suite, "rule", "cases are drawn from the seeded generators of checks/%s.py; distinct_nontrivial counts the different (scenario, operation, physical layout of the inputs) combinations and, for stateful scenarios, (scenario, history of operations) on which the library was actually called" % prop.lower()),
            "samples": list(samples.values())[:12],
            "cases_per_scenario": dict(ncases),
            "observed_events": dict(events.most_common(200)),
            "oracle_comparisons": events["oracle"],
            "cut_short_by_budget": bool(cut),
        },
        "assumptions": getattr(suite, "assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bads),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for k, b in enumerate(bads[:5]):
        path = os.path.join(evdir, "%s-replay-%d.json" % (prop, k))
        with open(path, "w") as f:
            json.dump({"property": prop, "scenario": b[0], "seed": a.seed, "case": b[1], "verdict": b[2], "layout": b[3], "case_values": b[4]}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s #%d: %s" % (b[0], b[1], " ".join(str(x) for x in b[2] if x)))
    if bads:
        return 1
    if total == 0 or (events["oracle"] == 0 and events["watched"] == 0) or (short and not cut):
        print("INCONCLUSIVE property=%s: %s" % (prop, ", ".join(short) or "the monitors observed nothing"))
        return 2
    print("held: property=%s cases=%d distinct=%d oracle=%d wall=%.1fs" % (prop, total, len(sigs), events["oracle"], time.time() - t0))
    return 0


def suite_watch(suite, sc):
    return getattr(suite, "watch", False)


def suite_judge(suite):
    return getattr(suite, "judge", True)


def known_findings(prop):
    out = set()
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split()
                if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop:
                    out.add(w[2])
    return out


if __name__ == "__main__":
    sys.exit(main())
