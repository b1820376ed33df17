"""Command line: python -m nnjmon.run <property> [--tier quick|thorough] [--replay FILE]

Parent process: starts one worker per shard, merges, writes evidence, prints the verdict.
Exit 0: held on everything observed; 1: VIOLATION; 2: inconclusive or error (never counted as either)."""
import argparse
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("NNJMON_EVIDENCE", os.path.join(HERE, "evidence"))
SHARDS = 8


def worker(a):
    import torch

    torch.set_num_threads(1)
    torch.use_deterministic_algorithms(True, warn_only=True)  # also fills torch.empty with NaN: a read of uninitialised memory shows
    torch.utils.deterministic.fill_uninitialized_memory = True
    import warnings

    warnings.simplefilter("ignore")
    from . import checks, checks2, core, monitor

    chk = {**checks.CHECKS, **checks2.CHECKS}[a.prop]()
    ctx = core.Ctx(a.prop, a.tier, a.seed)
    chk.setup(ctx)
    k, n = map(int, a.shard.split("/"))
    total = chk.cases(a.tier)
    cap = chk.time_cap(a.tier)
    t0 = time.time()
    done, errors, last = 0, [], None
    only = [int(a.case)] if a.case is not None else range(k, total, n)
    for i in only:
        if time.time() - t0 > cap:
            break
        s = core.case_seed(a.seed, a.prop, i)
        ctx.case = [i, s]
        try:
            chk.run(ctx, i, s)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            repo = [f for f in tb if monitor.REPO + "/nnj/" in f.filename]
            if repo:  # the code under test failed where the workload needs an answer (construction, forward pass, ...)
                ctx.violation(f"raised/{os.path.basename(repo[-1].filename)}:{repo[-1].name}", f"nnj raised {type(ex).__name__}: {str(ex)[:300]} in {repo[-1].name} ({os.path.basename(repo[-1].filename)})")
            elif isinstance(ex, (RuntimeError, ValueError, TypeError, AttributeError, IndexError, KeyError)) and "memory" not in str(ex):
                # what the code under test returned broke the judge: not a tensor, wrong structure, unusable shape
                ctx.violation(f"unusable/{tb[-1].name}", f"a result of nnj cannot be used: {type(ex).__name__}: {str(ex)[:300]} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}")
            else:
                errors.append(dict(case=i, trace=traceback.format_exc()[-1500:]))
            if len(errors) > 20:
                break
        done += 1
        if len(ctx.violations) >= 12:
            break
    chk.finish(ctx)
    out = dict(done=done, total=total, evaluations=ctx.evaluations, distinct=sorted(ctx.distinct), inconclusive=dict(ctx.inconclusive),
               refused=ctx.refused, violations=ctx.violations, samples=ctx.samples, notes=dict(ctx.notes), errors=errors,
               events=[[*key, v] for key, v in ctx.mon.counts.items()], top=ctx.mon.top, inner=ctx.mon.inner, depth=ctx.mon.max_depth,
               wrapped=len(ctx.mon.wrapped), rule=chk.rule, min_evaluations=chk.min_evaluations, assumptions=chk.assumptions)
    with open(a.out, "w") as f:
        json.dump(out, f)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=SHARDS)
    a = ap.parse_args()
    if a.shard:
        return worker(a)
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.seed, a.tier, a.case = r["property"], r["seed"], r["tier"], str(r["case"])
    tmp = tempfile.mkdtemp(prefix="nnjmon_")
    try:
        return parent(a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parent(a, tmp, t0):
    env = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), PYTHONPATH=HERE)
    n = 1 if a.case is not None else a.shards
    hard = 840 if a.tier == "quick" else 3 * 3600
    procs = []
    for k in range(n):
        out = os.path.join(tmp, f"{k}.json")
        cmd = [sys.executable, "-W", "ignore", "-m", "nnjmon.run", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--shard", f"{k}/{n}", "--out", out]
        if a.case is not None:
            cmd += ["--case", a.case]
        procs.append((subprocess.Popen(cmd, env=env, cwd=HERE, stdout=open(os.path.join(tmp, f"{k}.log"), "w"), stderr=subprocess.STDOUT), out, k))
    failed = []
    for p, out, k in procs:
        try:
            p.wait(timeout=max(1, hard - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            failed.append(f"shard {k}: watchdog")
            continue
        if p.returncode != 0 or not os.path.exists(out):
            failed.append(f"shard {k}: exit {p.returncode}: " + open(os.path.join(tmp, f"{k}.log")).read()[-1500:])
    res = [json.load(open(o)) for _, o, _ in procs if os.path.exists(o)]
    if not res:
        print("INCONCLUSIVE: no worker finished\n" + "\n".join(failed))
        return 2
    distinct = set()
    ev, inc, notes = collections.Counter(), collections.Counter(), collections.Counter()
    for r in res:
        distinct.update(r["distinct"])
        inc.update(r["inconclusive"])
        notes.update(r["notes"])
        for c, op, d, v in r["events"]:
            ev[f"{c}.{op}({d})"] += v
    evaluations = sum(r["evaluations"] for r in res)
    violations = [v for r in res for v in r["violations"]]
    errors = [e for r in res for e in r["errors"]]
    known = known_findings(a.prop)
    new, seen_known = [], {}
    for v in violations:
        hit = next((k for k in known if k["key"] in v["key"]), None)
        if hit:
            seen_known[hit["key"]] = hit
        else:
            new.append(v)
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=res[0]["rule"],
               samples=[s for r in res for s in r["samples"]][:6], cases_run=sum(r["done"] for r in res), cases_planned=res[0]["total"],
               monitored_calls_top=sum(r["top"] for r in res), monitored_calls_inner=sum(r["inner"] for r in res),
               max_call_depth=max(r["depth"] for r in res), distinct_call_kinds=len(ev), wrapped_methods=res[0]["wrapped"],
               call_kinds_most=dict(ev.most_common(12)), refused_documented_gaps=sum(r["refused"] for r in res),
               inconclusive_cases=dict(inc), observed=dict(notes), harness_errors=len(errors) + len(failed), exhaustive=False)
    evidence = dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
                    assumptions=res[0]["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new))
    if a.case is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, a.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(f"{a.prop} {a.tier} seed={a.seed}: {cov['cases_run']}/{cov['cases_planned']} cases, {evaluations} oracle evaluations, {len(distinct)} distinct, "
          f"{cov['monitored_calls_top']}+{cov['monitored_calls_inner']} calls observed, {len(ev)} call kinds, {sum(inc.values())} inconclusive, {time.time()-t0:.1f}s")
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if new:
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        shown = set()
        for v in new:
            if v["key"] in shown or len(shown) >= 8:
                continue
            shown.add(v["key"])
            path = os.path.join(d, f"{a.prop}-{a.seed}-{v['case'][0]}.json")
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, case=v["case"][0], key=v["key"], message=v["msg"], detail=v["detail"],
                               how=f"/opt/venv/bin/python -m nnjmon.run {a.prop} --replay {path}   (in {HERE})"), f, indent=1)
            print(f"  {v['msg'][:600]}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if failed or errors:
        for e in failed[:2]:
            print("INCONCLUSIVE:", e)
        for e in errors[:3]:
            print(f"INCONCLUSIVE: harness error in case {e['case']}:\n{e['trace']}")
        return 2
    if a.case is None and evaluations < res[0]["min_evaluations"]:
        print(f"INCONCLUSIVE: only {evaluations} evaluations (needs {res[0]['min_evaluations']})")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
