"""python run.py <property> [quick|thorough]     run the check of a property
python run.py --replay <file>                 run one saved case again
python run.py --selftest                      import everything"""
import os
import sys

ENV = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           HYPOTHESIS_NO_PLUGINS="1", TQDM_DISABLE="1")
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

import glob
import hashlib
import importlib
import json
import shutil
import signal
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vf"))
import core

sys.path.insert(0, core.REPO)
for path in core.HYPOTHESIS_PATHS:
    if path not in sys.path:
        sys.path.append(path)

LIMIT = {"quick": 420, "thorough": 3300}
JOBS = 8


def prepare(scratch):
    """A private matplotlib configuration (the font cache is copied)."""
    config = os.path.join(scratch, "mplconfig")
    os.mkdir(config)
    for name in glob.glob("/opt/vp/mplconfig/*.json"):
        shutil.copy(name, config)
    os.environ["MPLCONFIGDIR"] = config
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)


def load(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)
    return {e["id"]: e for e in entries["findings"] if e["property"] == pid}


def run_jobs(pid, jobs, scratch, limit):
    """Run shards in forked processes, at most JOBS at a time."""
    results, running, queue = [None] * len(jobs), {}, list(enumerate(jobs))
    hard = time.monotonic() + limit + 240
    while queue or running:
        while queue and len(running) < JOBS:
            index, (sub, examples, seed, deadline) = queue.pop(0)
            out = os.path.join(scratch, f"result{index}.json")
            child = os.fork()
            if child == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    result = core.run_shard(pid, sub, examples, seed, deadline,
                        os.path.join(scratch, f"shard{index}"))
                    with open(out + ".tmp", "w") as f:
                        json.dump(result, f)
                    os.rename(out + ".tmp", out)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 7
                finally:
                    os._exit(code)
            running[child] = (index, out)
        child, status = os.waitpid(-1, os.WNOHANG)
        if child == 0:
            if time.monotonic() > hard:
                for c in running:
                    os.kill(c, signal.SIGKILL)
            time.sleep(0.01)
            continue
        if child in running:
            index, out = running.pop(child)
            if os.path.exists(out):
                with open(out) as f:
                    results[index] = json.load(f)
            else:
                results[index] = dict(error=f"shard {index} ended with status "
                    f"{status} and no result", failure=None, sub="?")
    return results


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.monotonic()
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="vf-"))
    try:
        prepare(scratch)
        module = load(pid)
        limit = LIMIT[tier]
        deadline = start + limit
        jobs = []
        for k, sub in enumerate(module.SUBS):
            n = sub.quick if tier == "quick" else sub.thorough
            shards = sub.shards if tier == "quick" else sub.thorough_shards
            for shard in range(shards):
                text = f"{seed}/{pid}/{sub.name}/{shard}"
                digest = hashlib.sha256(text.encode()).digest()
                jobs.append((sub, n, int.from_bytes(digest[:6], "big"),
                             deadline))
        results = run_jobs(pid, jobs, scratch, limit)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)

    failures = [r for r in results if r.get("failure")]
    errors = [r for r in results if r.get("error")]
    distinct = set()
    labels, known, per_sub, samples = {}, {}, {}, []
    evaluations = 0
    for r in results:
        if "evaluations" not in r:
            continue
        evaluations += r["evaluations"]
        entry = per_sub.setdefault(r["sub"], dict(evaluations=0,
            distinct_nontrivial=0))
        entry["evaluations"] += r["evaluations"]
        mine = {(r["sub"], d) for d in r["nontrivial"]}
        entry["distinct_nontrivial"] += len(mine - distinct)
        distinct |= mine
        for k, v in r["labels"].items():
            k = f"{r['sub']}: {k}"
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        if sum(s["sub"] == r["sub"] for s in samples) < 3:
            samples += r["samples"][:2]
    listed = known_findings(pid)
    unlisted = [k for k in known if k not in listed]
    evidence = dict(property=pid, tier=tier, seed=seed, level=module.LEVEL,
        coverage=dict(evaluations=evaluations,
            distinct_nontrivial=len(distinct), rule=module.RULE,
            samples=samples[:12], per_sub=per_sub,
            labels=dict(sorted(labels.items())), known_findings=known,
            timed_out=any(r.get("timed_out") for r in results)),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.monotonic() - start, 3),
        violations=len(failures))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    for k in sorted(known):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[k]['what']}")
    if failures:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        for r in failures:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            record = dict(property=pid, sub=r["sub"], **r["failure"])
            text = json.dumps(record, indent=1)
            name = hashlib.sha256(text.encode()).hexdigest()[:12]
            path = os.path.join(HERE, "replays", f"{pid}-{name}.json")
            with open(path, "w") as f:
                f.write(text + "\n")
            print(f"  {r['sub']}: {r['failure']['message'][:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors or unlisted:
        for r in errors:
            print(f"HARNESS ERROR in {r['sub']}:\n{r['error']}",
                  file=sys.stderr)
        for k in unlisted:
            print(f"HARNESS ERROR: unlisted finding {k}", file=sys.stderr)
        return 3
    if not distinct:
        print("HARNESS ERROR: no non-trivial case", file=sys.stderr)
        return 3
    print(f"OK property={pid} tier={tier} seed={seed} "
          f"evaluations={evaluations} distinct_nontrivial={len(distinct)} "
          f"wall_s={evidence['wall_s']}")
    return 0


def replay(path):
    with open(path) as f:
        record = json.load(f)
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="vf-"))
    try:
        prepare(scratch)
        module = load(record["property"])
        sub = {s.name: s for s in module.SUBS}[record["sub"]]
        import warnings
        warnings.simplefilter("ignore")
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        os.chdir(work)
        core.GUARD.install(work)
        try:
            with core.Silence():
                core.evaluate(sub, record["case"])
        finally:
            core.GUARD.active = False
    except core.Violation as ex:
        print(f"  {record['sub']}: {ex}")
        print(f"VIOLATION property={record['property']} replay={path}")
        return 1
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    print("OK: the case passes")
    return 0


def selftest():
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="vf-"))
    try:
        prepare(scratch)
        import hypothesis
        import matplotlib
        import numpy
        names = sorted(os.path.basename(p)[:-3] for p in
                       glob.glob(os.path.join(HERE, "vf/props/c*.py")))
        for name in names:
            load(name)
        print("numpy", numpy.__version__, "matplotlib",
              matplotlib.__version__, "hypothesis", hypothesis.__version__,
              "properties", " ".join(names))
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    if sys.argv[1] == "--selftest":
        sys.exit(selftest())
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    sys.exit(check(sys.argv[1], tier))
