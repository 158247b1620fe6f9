"""Runs the sub-checks of one property in parallel shards and reports."""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")
NSHARDS = 8
CASE_CPU_LIMIT = 120  # CPU seconds for one case (they take milliseconds to seconds)
MEMORY_LIMIT = 3 << 30  # address space of one shard (cases need well under 1 GB)
SOFT_CAP = {"quick": 300, "thorough": 3000}  # wall seconds per shard, then stop
SHRINK_CAP = {"quick": float(os.environ.get("PBT_SHRINK_CAP", 60)), "thorough": 240}


def load(pid):
    return importlib.import_module(f"pbt.props.{pid.lower()}")


class StopSearch(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------- one case


def run_case(sub, case):
    """Runs one case; returns T, or raises Violation / Skip."""
    import random

    import numpy as np

    from pbt import core

    seed = int(core.digest(case)[:8], 16)
    random.seed(seed)
    np.random.seed(seed)
    t = core.T()

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        sub.check(case, t)
    except (core.Violation, core.Skip):
        raise
    except CaseTimeout:
        raise core.Violation(
            f"does not terminate (over {CASE_CPU_LIMIT} s of CPU time)"
        ) from None
    except MemoryError:
        raise core.Violation(
            f"needs over {MEMORY_LIMIT >> 30} GB of memory for a small input"
        ) from None
    except Exception as e:  # the code under test misbehaved
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        at = where[-1] if where else tb[-1]
        raise core.Violation(
            f"unexpected {type(e).__name__}: {str(e)[:300]} "
            f"(at {at.filename}:{at.lineno} in {at.name})"
        ) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return t


# ---------------------------------------------------------------- a shard


def shard_main(pid, tier, shard, nshards, out):
    from pbt import boot, core

    boot.install()
    import hypothesis
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    from hypothesis import HealthCheck, Phase, given, settings

    hypothesis.configuration.set_hypothesis_home_dir(
        os.path.join(os.path.dirname(out), "hyp")
    )
    import mentpy

    assert os.path.abspath(mentpy.__file__).startswith(REPO), mentpy.__file__
    mod = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    res = {"subs": {}, "violation": None}
    known = known_findings(pid)

    for si, sub in enumerate(mod.SUBS):
        n = sub.quick if tier == "quick" else sub.thorough
        n = n // nshards + (1 if shard < n % nshards else 0)
        st = {
            "evaluations": 0, "skipped": 0, "labels": {}, "hashes": set(),
            "samples": [], "capped": False, "known": 0,
        }
        res["subs"][sub.name] = st
        if n == 0:
            continue
        fails, earlier = [], []
        t_fail = [None]

        def body(case):
            now = time.time()
            if t_fail[0] is None and now - t0 > SOFT_CAP[tier]:
                st["capped"] = True
                raise StopSearch()
            if t_fail[0] is not None and now - t_fail[0] > SHRINK_CAP[tier]:
                raise StopSearch()
            if is_known(known, sub.name, case):
                st["known"] += 1
                return
            st["evaluations"] += 1
            if t_fail[0] is None:
                earlier.append(case)
            try:
                t = run_case(sub, case)
            except core.Skip:
                st["skipped"] += 1
                return
            except core.Violation as v:
                fails.append((case, str(v)))
                if t_fail[0] is None:
                    t_fail[0] = time.time()
                if "does not terminate" in str(v) or "of memory for" in str(v):
                    raise StopSearch()
                raise
            for l in t.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if t.nontrivial:
                h = core.digest(case)
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    if len(st["samples"]) < 2 and st["evaluations"] > 5:
                        st["samples"].append(case)

        test = given(sub.strategy())(body)
        test = hypothesis.seed(seed * 1000 + shard * 37 + si * 7919)(test)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.target, Phase.shrink],
            verbosity=hypothesis.Verbosity.quiet,
            print_blob=False,
        )(test)
        try:
            test()
        except StopSearch:
            pass
        except core.Violation:
            pass
        except BaseException:
            if not fails:
                raise
        st["hashes"] = sorted(st["hashes"])
        if fails:
            # smallest failing case that still fails on its own
            origin = fails[0]
            fails.sort(key=lambda f: len(core.canon(f[0])))
            chosen = fails[0]
            for case, msg in fails[:5]:
                if "does not terminate" in msg:
                    chosen = (case, msg)
                    break
                try:
                    run_case(sub, case)
                except core.Violation as v:
                    chosen = (case, str(v))
                    break
                except core.Skip:
                    pass
            res["violation"] = {
                "sub": sub.name, "case": chosen[0], "message": chosen[1],
                "failing_cases_seen": len(fails), "origin": origin, "earlier": earlier[:-1],
            }
            break
        if st["capped"]:
            break
    for st in res["subs"].values():
        st["hashes"] = list(st["hashes"])
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)


# ---------------------------------------------------------------- known findings


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == pid and e.get("kind") == "finding":
                    found.append(e)
    return found


def is_known(known, sub, case):
    from pbt import core

    return any(
        k["sub"] == sub and core.canon(k["case"]) == core.canon(case) for k in known
    )


# ---------------------------------------------------------------- parent


def write_replay(pid, v):
    from pbt import core

    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = f"{pid}-{v['sub'].replace(' ', '_')}-{core.digest(v['case'])}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": pid, **v}, f, indent=1, default=str)
    return path


def rerun(sub, cases):
    """Runs all cases in this process, ignoring what they say."""
    from pbt import core

    for case in cases:
        try:
            run_case(sub, case)
        except (core.Violation, core.Skip):
            pass


def fails_afresh(sub, before, case, seconds=60):
    """Whether the case fails in a new process in which only `before` was run."""
    from pbt import core

    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            rerun(sub, before)
            run_case(sub, case)
        except core.Violation:
            code = 1
        except BaseException:
            code = 0
        finally:
            os._exit(code)
    end = time.time() + seconds
    while time.time() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.waitstatus_to_exitcode(status) == 1
        time.sleep(0.01)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return False


def settle(pid, v):
    """Makes the violation reproducible from its replay file: where the minimal case only
    fails after other cases (the code keeps something between them), the fewest of those
    that are needed become part of the replay."""
    origin, earlier = v.pop("origin", None), v.pop("earlier", None)
    if origin is None or "does not terminate" in v["message"]:
        return v
    sub = next(s for s in load(pid).SUBS if s.name == v["sub"])
    if fails_afresh(sub, [], v["case"]) or not fails_afresh(sub, earlier, origin[0], 120):
        return v
    end, size = time.time() + 90, max(1, len(earlier) // 2)
    while time.time() < end:
        at, shorter = 0, False
        while at < len(earlier) and time.time() < end:
            trial = earlier[:at] + earlier[at + size:]
            if fails_afresh(sub, trial, origin[0]):
                earlier, shorter = trial, True
            else:
                at += size
        if size == 1 and not shorter:
            break
        size = max(1, size // 2)
    return {**v, "case": origin[0], "message": origin[1], "before": earlier}


def replay(pid, path):
    from pbt import boot, core

    boot.install()
    mod = load(pid)
    v = json.load(open(path))
    sub = next(s for s in mod.SUBS if s.name == v["sub"])
    rerun(sub, v.get("before", []))
    try:
        run_case(sub, v["case"])
    except core.Violation as e:
        print(f"{sub.name}: {e}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    except core.Skip:
        print("case is outside the domain")
        return 0
    print("replayed case passes")
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    pid = a.property
    if pid == "selftest":
        return selftest()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        return replay(pid, a.replay)
    if a.shard is not None:
        shard_main(pid, tier, int(a.shard), NSHARDS, a.out)
        return 0

    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"pbt-{pid}-")
    procs = []
    try:
        for k in range(NSHARDS):
            out = os.path.join(work, f"{k}.json")
            err = open(os.path.join(work, f"{k}.err"), "w")
            p = subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "check.py"), pid, "--tier", tier,
                 "--shard", str(k), "--out", out],
                stdout=err, stderr=err, cwd=work, start_new_session=True,
            )
            procs.append((p, out, err.name))
        results, errors, first = {}, [], None
        hard = SOFT_CAP[tier] + SHRINK_CAP[tier] + 240
        while len(results) + len(errors) < NSHARDS:
            time.sleep(0.1)
            for k, (p, out, err) in enumerate(procs):
                if k in results or any(e[0] == k for e in errors):
                    continue
                if p.poll() is not None:
                    if p.returncode == 0 and os.path.exists(out):
                        results[k] = json.load(open(out))
                        if results[k]["violation"]:
                            first = first or results[k]["violation"]
                    else:
                        tail = open(err).read()[-3000:]
                        errors.append((k, f"exit {p.returncode}\n{tail}"))
            if first or errors:
                break
            if time.time() - t0 > hard:
                errors.append((-1, "shards did not finish in time"))
                break
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(work, ignore_errors=True)

    mod_rules, known = describe(pid), known_findings(pid)
    known_lines, known_bad = check_known(pid, known)
    write_evidence(pid, tier, results, mod_rules, time.time() - t0, first)

    for line in known_lines:
        print(line)
    if first is None and known_bad:
        first = known_bad
    if first:
        first = settle(pid, first)
        path = write_replay(pid, first)
        print(f"{pid} / {first['sub']}: {first['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for k, e in errors:
            print(f"shard {k}: {e}", file=sys.stderr)
        return 2
    ev = sum(s["evaluations"] for r in results.values() for s in r["subs"].values())
    print(f"{pid}: held on {ev} generated cases ({tier}, {time.time()-t0:.0f} s)")
    return 0


def selftest():
    """Everything a check needs can be imported."""
    from pbt import boot

    boot.install()
    import hypothesis
    import mentpy

    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.startswith("c") and f.endswith(".py"):
            load(f[:-3])
    print("hypothesis", hypothesis.__version__, "mentpy from", mentpy.__file__)
    return 0


def describe(pid):
    from pbt import boot

    boot.install()
    mod = load(pid)
    return {s.name: s.rule for s in mod.SUBS}


def check_known(pid, known):
    """Each listed finding is exercised: it is reported while it still fails."""
    from pbt import core

    lines = []
    if not known:
        return lines, None
    mod = load(pid)
    for k in known:
        sub = next(s for s in mod.SUBS if s.name == k["sub"])
        try:
            run_case(sub, k["case"])
        except core.Violation:
            lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
        except core.Skip:
            pass
    return lines, None


def write_evidence(pid, tier, results, rules, wall, violation):
    hashes, samples, ev, skipped, known = set(), [], 0, 0, 0
    subs = {}
    for r in results.values():
        for name, s in r["subs"].items():
            d = subs.setdefault(
                name, {"evaluations": 0, "skipped": 0, "distinct_nontrivial": set(),
                       "labels": {}, "capped": False})
            d["evaluations"] += s["evaluations"]
            d["skipped"] += s["skipped"]
            d["capped"] = d["capped"] or s["capped"]
            known += s["known"]
            d["distinct_nontrivial"].update(s["hashes"])
            for l, c in s["labels"].items():
                d["labels"][l] = d["labels"].get(l, 0) + c
            ev += s["evaluations"]
            skipped += s["skipped"]
            hashes.update(name + h for h in s["hashes"])
            if s["samples"] and sum(x["sub"] == name for x in samples) < 2:
                samples.append({"sub": name, "case": s["samples"][0]})
    for name, d in subs.items():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
        d["labels"] = dict(sorted(d["labels"].items()))
    rule = " | ".join(f"{n}: {r}" for n, r in rules.items())
    evd = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:10],
            "skipped_outside_domain": skipped,
            "excluded_known_findings": known,
            "sub_checks": subs,
        },
        "assumptions": [
            "numpy/scipy/networkx linear algebra is correct",
            "the reference models in /verif/pbt are correct",
        ],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(evd, f, indent=1, default=str)
