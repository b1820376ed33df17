"""Checks of properties C23 (edited containers), C24 (concurrent calls) and C25 (devices)."""
import collections
import hashlib
import json
import math
import os
import sys
import threading

import torch

from . import gen, monitor, oracle
from . import spec as S
from .checks import (ASSUME, D, F32, LEAVES, LIKS, MODES, NETS, Check, Req, all_reqs, attempt, mk, same, some_case)
from .core import Case, ProductOracle, arg_for, drive, make_case, snap


# --------------------------------------------------------------------------------------------------------------
# C23
# --------------------------------------------------------------------------------------------------------------
def boundary_shapes(L, shape):
    out = [tuple(shape)]
    for s in L:
        out.append(tuple(S.out_shape(s, out[-1])))
    return out


class C23(Check):
    rule = ("an evaluation is one forward value, product or weight vector of an edited (or sliced, or dictionary-built) Sequential compared with the reference of "
            "the layers it now holds; distinct by structure, kind of edit, operation, target and mode")
    quick, thorough = 1200, 20000
    min_evaluations = 2000

    def setup(self, ctx):
        self.po = ProductOracle(ctx)
        self.nets = [(s, sh) for s, sh in NETS if s["t"] == "seq"]

    def containers(self, spec, model, shape, path=()):
        """All (spec of a Sequential, module, input shape) reachable from the top, through nested containers."""
        out = []
        if spec["t"] == "skip":
            model = next(iter(model.children()))  # the branch
        if spec["t"] == "seq" or path:
            out.append((spec, model, shape, path))
        sh = shape
        for k, (s, m) in enumerate(zip(spec["L"], list(model))):
            if s["t"] in ("seq", "skip"):
                out += self.containers(s, m, sh, path + ((spec, model, k, shape),))
            sh = S.out_shape(s, sh)
        return out

    def rewire(self, ctx, rng, boxes, dtype):
        """Changes the width of what some container returns; whatever came after it, at every level above, is deleted."""
        vec = lambda s, sh: s["t"] == "seq" or len(sh) == 1  # a skip connection concatenates its input with what its branch returns
        flat = [b for b in boxes if len(boundary_shapes(b[0]["L"], b[2])[-1]) == 1 and vec(b[0], b[2]) and all(vec(s, sh) for s, _, _, sh in b[3])]
        nested = [b for b in flat if b[3]]
        if not flat:
            return None
        sp, m, sh, path = rng.choice(nested if nested and rng.random() < 0.8 else flat)
        B = boundary_shapes(sp["L"], sh)
        k = len(sp["L"]) - 1
        if k >= 0 and len(B[k]) == 1 and rng.random() < 0.6:  # another last layer
            s = dict(t="linear", i=B[k][0], o=rng.randint(1, 6), bias=rng.random() < 0.6)
            m[k] = self.fresh(ctx, s, dtype)
            sp["L"][k] = s
        elif list(m._modules) == [str(j) for j in range(k + 1)]:
            s = dict(t="linear", i=B[-1][0], o=rng.randint(1, 6), bias=rng.random() < 0.6)
            m.append(self.fresh(ctx, s, dtype))
            sp["L"].append(s)
        else:
            return None
        for up_s, up_m, j, _ in path:
            for n in range(len(up_s["L"]) - 1, j, -1):
                del up_m[n]
            del up_s["L"][j + 1 :]
        return "rewire" + ("-nested" if path else "")

    def fresh(self, ctx, s, dtype):
        m = S.build(s, ctx.nnj).to(dtype)
        return m

    def same_shape_layer(self, rng, shape):
        r = len(shape)
        o = ["act", "act", "l2", "seq", "empty"]
        if r == 1:
            o += ["linear", "linear", "seqlin"]
        if r == 3:
            o += ["conv", "conv"]
        k = rng.choice(o)
        if k == "act":
            return gen.act(rng, False)
        if k == "l2":
            return dict(t="l2")
        if k == "seq":
            return dict(t="seq", L=[gen.act(rng, False), gen.act(rng, False)])
        if k == "empty":
            return dict(t="seq", L=[])
        if k == "linear":
            return dict(t="linear", i=shape[0], o=shape[0], bias=rng.random() < 0.5)
        if k == "seqlin":
            h = rng.randint(1, 4)
            return dict(t="seq", L=[dict(t="linear", i=shape[0], o=h, bias=rng.random() < 0.5), gen.act(rng, False), dict(t="linear", i=h, o=shape[0], bias=True)])
        return dict(t="conv", i=shape[0], o=shape[0], k=rng.choice([1, 3]), p=0, bias=rng.random() < 0.5, vmap=rng.random() < 0.5)

    def fix_conv(self, s):
        if s["t"] == "conv":
            s["p"] = 1 if s["k"] == 3 else 0
        return s

    def edit(self, ctx, rng, spec, model, shape, dtype):
        """Performs one random edit in place; returns its name (spec is updated alongside)."""
        boxes = self.containers(spec, model, shape)
        if rng.random() < 0.2:
            op = self.rewire(ctx, rng, boxes, dtype)
            if op:
                return op
        sp, m, sh, _ = rng.choice(boxes)
        top = m is model
        L = sp["L"]
        B = boundary_shapes(L, sh)
        n = len(L)
        names = list(m._modules)
        ops = ["insert", "insert"]
        if n:
            ops += ["replace"] * 4 + ["setattr"]
        keep = [k for k in range(n) if B[k] == B[k + 1]]
        if keep and n > 1:
            ops += ["del", "pop", "delslice"]
        if top:
            ops += ["append", "extend", "iadd", "add_module"]
        if names != [str(k) for k in range(n)]:
            # torch's own insert, append and extend assume the default names
            ops = [o for o in ops if o not in ("insert", "append", "extend", "iadd")]
        if not ops:
            return "none"
        op = rng.choice(ops)
        mk_ = lambda s: self.fresh(ctx, s, dtype)
        if op in ("replace", "setattr"):
            k = rng.randrange(n)
            old = L[k]
            if B[k] == B[k + 1]:
                s = self.fix_conv(self.same_shape_layer(rng, B[k]))
            elif old["t"] == "linear":
                s = dict(t="linear", i=old["i"], o=old["o"], bias=not old["bias"])
                if rng.random() < 0.3:
                    s = dict(t="seq", L=[s, gen.act(rng, False)])
            elif old["t"] == "conv":
                s = dict(old, bias=not old["bias"])
            else:
                s = json.loads(json.dumps(old))
            lay = mk_(s)
            if op == "replace":
                m[k if rng.random() < 0.7 else k - n] = lay
            else:
                setattr(m, names[k], lay)
            L[k] = s
        elif op == "insert":
            k = rng.randint(0, n)
            s = self.fix_conv(self.same_shape_layer(rng, B[k]))
            m.insert(k, mk_(s))
            L.insert(k, s)
        elif op == "del":
            k = rng.choice(keep)
            del m[k]
            del L[k]
        elif op == "pop":
            k = rng.choice(keep)
            m.pop(k)
            L.pop(k)
        elif op == "delslice":
            k = rng.choice(keep)
            del m[k : k + 1]
            del L[k : k + 1]
        else:
            cur, new = B[-1], []
            for _ in range(1 if op in ("append", "add_module") else 2):
                s = gen.leaf(rng, cur, exotic=False)
                o = S.out_shape(s, cur)
                if math.prod(o) > 60 or S.n_params(s) > 60:
                    s, o = gen.act(rng, False), cur
                new.append(s)
                cur = o
            mods = [mk_(s) for s in new]
            if op == "append":
                m.append(mods[0])
            elif op == "add_module":
                m.add_module(f"extra{len(names)}", mods[0])
            elif op == "extend":
                m.extend(mods)
            else:
                m += ctx.nnj.Sequential(*mods)
            L.extend(new)
        return op + ("" if top else "-nested")

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        for _ in range(30):
            spec, shape = self.nets[i % len(self.nets)] if i < len(self.nets) else (gen.network(rng) if rng.random() < 0.7 else rng.choice(self.nets))
            if spec["t"] == "skip":
                spec = dict(t="seq", L=[spec])
            if math.prod(shape) <= 30 and S.n_params(spec) <= 100:
                break
        spec = json.loads(json.dumps(spec))
        dtype = D if rng.random() < 0.85 else F32
        how = "plain"
        model = S.build(spec, ctx.nnj).to(dtype)
        if rng.random() < 0.25:
            how = "ordered-dict"
            model = ctx.nnj.Sequential(collections.OrderedDict((f"layer{k}", m) for k, m in enumerate(model))).to(dtype)
        b = rng.choice([1, 2, 3])
        hist = [how]
        ok = self.judge(ctx, spec, model, shape, b, dtype, hist, rng, g, few=True)
        for step in range(rng.randint(1, 3)):
            if ok is False:
                return
            if rng.random() < 0.15 and spec["L"]:
                a = rng.randint(0, len(spec["L"]) - 1)
                z = rng.randint(a, len(spec["L"]))
                shape = boundary_shapes(spec["L"], shape)[a]
                model, ex = attempt(lambda: model[a:z])
                hist.append(f"slice[{a}:{z}]")
                if ex is not None:
                    ctx.violation("slice/raised", f"slicing {S.describe(spec)} [{a}:{z}] raised {ex!r}"[:300])
                    return
                spec = dict(t="seq", L=spec["L"][a:z])
            else:
                hist.append(self.edit(ctx, rng, spec, model, shape, dtype))
            o = S.out_shape(spec, shape)
            if math.prod(o) > 90 or S.n_params(spec) > 220:
                return
            ok = self.judge(ctx, spec, model, shape, b, dtype, hist, rng, g)

    def judge(self, ctx, spec, model, shape, b, dtype, hist, rng, g, few=False):
        n = S.n_params(spec)
        tag = hist[-1].split("[")[0]
        pars = list(model.parameters())
        if sum(p.numel() for p in pars) != n:
            ctx.violation(f"{tag}/parameters", f"after {hist} the model has {sum(p.numel() for p in pars)} parameters instead of {n}: {S.describe(spec)}")
            return False
        if not isinstance(model, ctx.nnj.Sequential):
            ctx.violation(f"{tag}/type", f"after {hist} the model is a {type(model).__name__}")
            return False
        w = gen.weights(spec, g, rng).to(dtype)
        if rng.random() < 0.5:
            S.load_flat(model, w)
        else:
            _, ex = attempt(model.set_weight, w.clone())
            if ex is not None:
                ctx.violation(f"{tag}/set_weight", f"set_weight after {hist} on {S.describe(spec)} raised {ex!r}"[:400])
                return False
        gw, ex = attempt(model.get_weight) if n else (w, None)
        ctx.evaluated((tag, "get_weight", S.signature(spec)))
        if ex is not None or gw.shape != w.shape or not torch.equal(gw, w):
            ctx.violation(f"{tag}/get_weight", f"get_weight after {hist} on {S.describe(spec)} is not the installed weight: {ex!r}"[:400])
            return False
        c = None
        for kind in ("normal", "big", "small", "normal"):
            c = Case(ctx, spec, shape, b, dtype, kind, "plain", rng, g, w=w)
            if c.bad is None:
                break
        if c.bad is not None:
            ctx.inconclusive[c.bad] += 1
            return None
        c.model = model
        self.po.watch(c)
        y, ex = attempt(model, c.x)
        ref = c.ref.val()
        d = repr(ex)[:200] if ex is not None else oracle.compare(y, ref, (ref.abs().amax() + 1).expand(ref.shape) if ref.numel() else ref, dtype, slack=10)
        ctx.evaluated((tag, "forward", S.signature(spec)))
        if d:
            ctx.violation(f"{tag}/forward", f"forward after {hist} on {c.text()}: {d}")
            return False
        ctx.notes["edit " + tag] += 1
        k0 = len(ctx.violations)
        todo = [("jacobian", None), ("vjp", None), ("mjp", None), ("jTmjp", rng.choice(MODES)), ("jTmjp", "approx")]
        if not any(s["t"] in ("conv", "up", "pool") for s in S.leaves(spec)):
            todo += [("jvp", None), ("jmp", None), ("jmjTp", rng.choice(MODES)), ("jmjTp", "approx")]
        if few:
            todo = rng.sample(todo, 2)
        for op, mode in todo:
            for wrt in ("input", "weight"):
                if rng.random() < 0.25:
                    continue
                v = rng.choice([None, True])
                none = rng.random() < 0.15 and op not in ("jvp", "vjp")
                if mode == "approx":
                    drive(c, op, wrt, rng, g, True, True, approx=True, val=v)
                elif mode is not None:
                    drive(c, op, wrt, rng, g, *mode, val=v, none=none)
                else:
                    drive(c, op, wrt, rng, g, val=v, none=none)
        for v in ctx.violations[k0:]:
            v["msg"] = f"after {hist}: " + v["msg"]
            v["key"] = tag + "/" + v["key"]
        return len(ctx.violations) == k0


# --------------------------------------------------------------------------------------------------------------
# C24
# --------------------------------------------------------------------------------------------------------------
class Stuck(Exception):
    pass


class Scheduler:
    """Runs functions in real threads of which exactly one executes at any time; the running thread may be preempted
    at every source line of the nnj package.  decide(tid, step, alive) names the thread that runs next."""

    def __init__(self, decide, prefix):
        self.decide, self.prefix = decide, prefix
        self.trace = []
        self.steps = 0
        self.lines = collections.Counter()

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(n))
        self.out = [None] * n
        self.done = threading.Semaphore(0)
        self.stuck = False
        ts = [threading.Thread(target=self._body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.sem[0].release()
        if not self.done.acquire(timeout=120):
            self.stuck = True
            raise Stuck()
        for t in ts:
            t.join(10)
        return self.out

    def _wait(self, k):
        if not self.sem[k].acquire(timeout=130):
            raise Stuck()

    def _body(self, k, f):
        self._wait(k)
        prefix = self.prefix

        def local(frame, event, arg):
            if event == "line":
                self._point(k, frame)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(prefix) else None

        sys.settrace(tracer)
        try:
            self.out[k] = (f(), None)
        except Exception as ex:
            self.out[k] = (None, ex)
        finally:
            sys.settrace(None)
            self.alive.discard(k)
            if self.alive:
                nxt = self.decide(k, self.steps, sorted(self.alive), True)
                self.trace.append((k, "end", nxt))
                self.sem[nxt].release()
            else:
                self.done.release()

    def _point(self, k, frame):
        self.steps += 1
        self.lines[k] += 1
        if len(self.alive) < 2:
            return
        nxt = self.decide(k, self.lines[k], sorted(self.alive), False)
        if nxt != k:
            self.trace.append((k, os.path.basename(frame.f_code.co_filename) + ":" + frame.f_code.co_name + f":{self.lines[k]}", nxt))
            self.sem[nxt].release()
            self._wait(k)


class C24(Check):
    rule = ("an evaluation is the result of one call that ran interleaved with others in another thread, compared with the same call alone on a fresh model; distinct "
            "by network structure, calls and the exact switch points (source function and line count) of the schedule")
    quick, thorough = 330, 9000
    min_evaluations = 1500
    assumptions = ASSUME + ["weights are not changed while calls are in flight", "preemption points are the source lines of nnj (plus free-running threads in part of the cases)"]

    def setup(self, ctx):
        pools = [(s, sh) for s, sh in LEAVES if s["t"] == "pool"][:3]
        others = [(s, sh) for s, sh in LEAVES if s["t"] in ("conv", "up", "linear", "l2", "reshape", "flatten", "act")][::7]
        self.enum = NETS + pools + others
        L = lambda i, o, b=True: dict(t="linear", i=i, o=o, bias=b)
        T = dict(t="act", n="Tanh")
        seen, leaves = set(), []
        for s, sh in LEAVES:
            k = (s["t"], s.get("n"), s.get("bias"), s.get("vmap"), s.get("s") not in (None, s.get("k")) and s["t"] == "pool")
            if k not in seen:
                seen.add(k)
                leaves.append((s, sh))
        self.pairs = leaves + [
            (dict(t="seq", L=[L(3, 2), T]), (3,)), (dict(t="seq", L=[L(2, 3), T, L(3, 2)]), (2,)), (dict(t="skip", L=[L(3, 2), T]), (3,)), (dict(t="skip", L=[T]), (2,)), (dict(t="seq", L=[dict(t="skip", L=[L(2, 1)]), L(3, 2)]), (2,)),
            (dict(t="seq", L=[dict(t="conv", i=1, o=2, k=2, p=0, bias=True, vmap=True), dict(t="pool", k=2), dict(t="flatten"), L(2, 2)]), (1, 3, 3)),
        ]

    def pair(self, ctx, k, rng, g):
        """Two calls of the same kind on one module, the second inside the first one at every source line of it."""
        spec, shape = self.pairs[k % len(self.pairs)]
        prefix = os.path.join(monitor.REPO, "nnj") + os.sep
        c, d = (make_case(ctx, rng, g, spec, shape, b, D, "normal", "plain") for b in (2, rng.choice([1, 2, 2])))
        if c is None or d is None:
            return
        d.w = c.w
        S.load_flat(d.model, c.w)
        c.model = S.build_model(spec, ctx.nnj, c.w, D)
        y, z = (S.build_model(spec, ctx.nnj, c.w, D)(q.x).detach() for q in (c, d))
        jobs = []
        for q1, q2 in zip(all_reqs(c, rng, g), all_reqs(d, rng, g)):
            v, shared = rng.random() < 0.3, rng.random() < 0.3
            if shared and c.b == d.b:  # the two threads look at the same input
                jobs.append((str(q1), lambda m, q=q1, v=v: q.on(m, c.x, y if v else None), lambda m, q=q2, v=v: q.on(m, c.x, y if v else None), q1.m, q2.m))
            else:
                jobs.append((str(q1), lambda m, q=q1, v=v: q.on(m, c.x, y if v else None), lambda m, q=q2, v=v: q.on(m, d.x, z if v else None), q1.m, q2.m))
        jobs.append(("forward", lambda m: m(c.x).detach().clone(), lambda m: m(d.x).detach().clone(), None, None))
        jobs.append(("autograd", *[lambda m, x=x: torch.autograd.grad(m(x.clone().requires_grad_(True)).square().sum(), [p for p in m.parameters()] or [x])[0] if list(m.parameters()) else m(x).detach() for x in (c.x, d.x)], None, None))
        for cls in ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"):
            L = getattr(ctx.nnj, cls)(rng.choice(["sum", "average", "return all"]), rng.choice(["diag", "full"]), "exact")
            t, u = (torch.rand(q.shape, generator=g, dtype=D) for q in (y, z))
            jobs.append((cls, lambda m, L=L, t=t: L(c.x, m, t), lambda m, L=L, u=u: L(d.x, m, u), None, None))
            wrt = "weight" if c.n_par and rng.random() < 0.6 else "input"
            for what in ("gradient", "ggn"):
                jobs.append((f"{cls}.{what}", lambda m, L=L, t=t, what=what, wrt=wrt: getattr(L, what)(c.x, m, t, wrt), lambda m, L=L, u=u, what=what, wrt=wrt: getattr(L, what)(d.x, m, u, wrt), None, None))
        for label, f1, f2, m1, m2 in jobs:
            alone = []
            for f in (f1, f2):
                r, ex = attempt(f, S.build_model(spec, ctx.nnj, c.w, D))
                alone.append((snap(r), ex))
            fns = [lambda: f1(c.model), lambda: f2(c.model)]
            solo = Scheduler(lambda k, s, alive, end: k, prefix)
            try:
                solo.run([fns[0]])
            except Stuck:
                ctx.inconclusive["scheduler stuck"] += 1
                return
            n = solo.steps
            top = 60 if ctx.tier == "quick" else 400
            for at in range(1, n + 1) if n <= top else sorted(rng.sample(range(1, n + 1), top)):
                fired = []

                def decide(t, step, alive, end, at=at, fired=fired):
                    if end:
                        return alive[0]
                    if t == 0 and step >= at and not fired and 1 in alive:
                        fired.append(1)
                        return 1
                    return t

                ctx.notes["second call at every line of the first"] += 1
                if not self.schedule(ctx, c, [(label, None, m1), (label, None, m2)], fns, alone, decide, prefix, f"inside at line {at}/{n}", "one model"):
                    return

    def thunks(self, ctx, c, rng, g, bs):
        """Calls as (label, f(model)) with their own inputs."""
        out = []
        for b in bs:
            d = None
            for kind in ("normal", "big", "small"):
                d = Case(ctx, c.spec, c.shape, b, D, kind, "plain", rng, g, w=c.w)
                if d.bad is None:
                    break
            if d.bad is not None:
                continue
            reqs = all_reqs(d, rng, g)
            r = rng.random()
            x = d.x
            if r < 0.2:
                out.append(("forward", lambda m, x=x: m(x).detach().clone(), None))
            elif r < 0.3:
                L = ctx.nnj.LogGaussian(rng.choice(["sum", "return all"]), rng.choice(["diag", "full"]), "exact")
                t = torch.randn(b, *S.out_shape(c.spec, c.shape), generator=g, dtype=D)
                k = rng.choice(["forward", "gradient", "ggn"])
                wrt = "weight" if c.n_par and rng.random() < 0.7 else "input"
                if k == "forward":
                    out.append(("LogGaussian.forward", lambda m, x=x, L=L, t=t: L(x, m, t), None))
                else:
                    out.append((f"LogGaussian.{k}({wrt})", lambda m, x=x, L=L, t=t, k=k, wrt=wrt: getattr(L, k)(x, m, t, wrt), None))
            elif r < 0.36 and c.n_par:
                out.append(("get_weight", lambda m: m.get_weight(), None))
            elif r < 0.42:
                def grad(m, x=x):
                    z = x.clone().requires_grad_(True)
                    (gz,) = torch.autograd.grad(m(z).square().sum(), z)
                    return gz
                out.append(("autograd", grad, None))
            else:
                q = rng.choice(reqs)
                given = rng.random() < 0.4
                v = S.build_model(c.spec, ctx.nnj, c.w, D)(x).detach() if given else None
                out.append((str(q) + ("+val" if given else ""), lambda m, q=q, x=x, v=v: q.on(m, x, v), q.m))
        return out

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        if i % 3 == 0 and (i // 3 < len(self.pairs) or i % 4 == 0):
            return self.pair(ctx, i // 3, rng, g)
        i -= min(i // 3 + 1, len(self.pairs))
        c = some_case(ctx, rng, g, i, self.enum, b=2, dtype=D, x_kind="normal", layout="plain")
        if c is None:
            return
        prefix = os.path.join(monitor.REPO, "nnj") + os.sep
        th = self.thunks(ctx, c, rng, g, [rng.choice([1, 2, 2, 2, 3]) for _ in range(3)])
        if len(th) < 2:
            return
        alone = []
        for label, f, m in th:
            fresh = S.build_model(c.spec, ctx.nnj, c.w, D)
            r, ex = attempt(f, fresh)
            alone.append((snap(r), ex))
        models = [c.model] * len(th)
        sharing = "one model"
        if c.spec["t"] == "seq" and rng.random() < 0.3 and c.spec["L"]:
            other = ctx.nnj.Sequential(*list(c.model))  # another network of the same layer objects
            models = [c.model if rng.random() < 0.5 else other for _ in th]
            sharing = "shared layers"
        fns = [lambda f=f, m=m: f(m) for (l, f, a), m in zip(th, models)]
        # 1. one call runs completely inside another, at several lines of the outer one
        solo = Scheduler(lambda k, s, alive, end: k, prefix)
        with torch.enable_grad():
            try:
                solo.run([fns[0]])
            except Stuck:
                ctx.inconclusive["scheduler stuck"] += 1
                return
        n = solo.steps
        ks = sorted(rng.sample(range(1, n + 1), min(n, 7)))
        for k in ks:
            fired = []

            def decide(t, step, alive, end, k=k, fired=fired):
                if end:
                    return alive[0]
                if t == 0 and step >= k and not fired and 1 in alive:
                    fired.append(1)
                    return 1
                return t

            if not self.schedule(ctx, c, th[:2], fns[:2], alone[:2], decide, prefix, f"inside at line {k}/{n}", sharing):
                return
        # 2. random preemption of two or three calls
        for _ in range(3):
            p = rng.choice([0.03, 0.15, 0.5])

            def decide(t, step, alive, end, p=p):
                if end or rng.random() < p:
                    return rng.choice(alive)
                return t

            if not self.schedule(ctx, c, th, fns, alone, decide, prefix, f"random p={p}", sharing):
                return
        # 3. free-running threads
        if i % 5 == 4:
            self.free(ctx, c, th, fns, alone, rng, sharing)

    def schedule(self, ctx, c, th, fns, alone, decide, prefix, what, sharing):
        s = Scheduler(decide, prefix)
        try:
            out = s.run(fns)
        except Stuck:
            ctx.inconclusive["scheduler stuck"] += 1
            return False
        ctx.notes["context switches"] += len(s.trace)
        ctx.notes["schedules"] += 1
        h = hashlib.sha256(repr(s.trace).encode()).hexdigest()[:12]
        return self.verdict(ctx, c, th, out, alone, what, sharing, h, s.trace)

    def verdict(self, ctx, c, th, out, alone, what, sharing, h, trace):
        for (label, _, m), (r, ex), (e, eex) in zip(th, out, alone):
            key = f"{label.split('(')[0]}/{sharing}/{S.signature(c.spec)}"
            ctx.evaluated((label, S.signature(c.spec), h), sample=dict(call=label, others=[t[0] for t in th], network=c.text(), schedule=what, switches=[str(t) for t in trace[:4]]))
            if eex is not None:
                if ex is None:
                    ctx.violation(key, f"{label} raises alone but answers in schedule {what}")
                    return False
                continue
            d = f"raised {type(ex).__name__}: {str(ex)[:200]}" if ex is not None else same(r, e, D, scale=oracle.floor_of(m))
            if d:
                ctx.violation(key, f"{label} on {c.text()} ({sharing}) next to {[t[0] for t in th]} in other threads, {what}, switches {trace[:6]}: {d}")
                return False
        return True

    def free(self, ctx, c, th, fns, alone, rng, sharing):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for rep in range(6):
                out = [None] * len(fns)
                bar = threading.Barrier(len(fns))

                def body(k):
                    bar.wait()
                    out[k] = attempt(fns[k])

                ts = [threading.Thread(target=body, args=(k,)) for k in range(len(fns))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                ctx.notes["free-running rounds"] += 1
                if not self.verdict(ctx, c, th, out, alone, "free-running threads", sharing, "free", []):
                    return
        finally:
            sys.setswitchinterval(old)


# --------------------------------------------------------------------------------------------------------------
# C25
# --------------------------------------------------------------------------------------------------------------
def move(model, device, dtype):
    """What Module.to does: parameters and buffers move, other attributes stay."""
    for k in model.modules():
        for n, p in list(k._parameters.items()):
            if p is not None:
                k._parameters[n] = torch.nn.Parameter(p.detach().to(device, dtype))
        for n, p in list(k._buffers.items()):
            if p is not None:
                k._buffers[n] = p.detach().to(device, dtype)
    return model


def devices(r):
    if torch.is_tensor(r):
        return {r.device.type}
    if isinstance(r, (list, tuple)):
        return set().union(*[devices(t) for t in r]) if r else set()
    return set()


def map_t(m, f):
    return f(m) if torch.is_tensor(m) else ([map_t(t, f) for t in m] if isinstance(m, (list, tuple)) else m)


class C25(Check):
    rule = ("an evaluation is one call whose intermediate and final tensors were tracked: on a simulated accelerator (every operation mixing devices raises), or on the "
            "cpu while the default device is another one; distinct by structure, operation, target, mode and scenario")
    quick, thorough = 480, 15000
    min_evaluations = 2000
    assumptions = ASSUME + ["the accelerator is simulated: torch fake tensors carry device, shape and dtype and raise on mixed devices; there is no such hardware in the sandbox"]

    def setup(self, ctx):
        self.enum = LEAVES + NETS

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        c = some_case(ctx, rng, g, i // 2, self.enum, dtype=D if rng.random() < 0.5 else F32, layout="plain")
        if c is None:
            return
        reqs = all_reqs(c, rng, g)
        extra = [Req(op, wrt, None, *m) for op, m in (("mjp", (None, None, None)), ("jTmjp", (True, True, False)), ("jTmjp", (True, False, False)), ("jTmjp", (True, True, True))) for wrt in ("input", "weight")]
        if not oracle.may_refuse(c.spec, "jmjTp"):
            extra += [Req("jmp", "input", None), Req("jmjTp", "input", None, True, False, False)]
            if c.n_par:
                extra += [Req("jmjTp", "weight", None, True, True, False), Req("jmp", "weight", None)]
        reqs = reqs + extra
        rng.shuffle(reqs)
        if i % 2 == 0:
            self.fake(ctx, c, reqs, rng, g)
        else:
            self.default_device(ctx, c, reqs, rng, g)

    # ---- simulated accelerator
    def fake(self, ctx, c, reqs, rng, g):
        from torch._subclasses.fake_tensor import FakeTensorMode

        sig = S.signature(c.spec)
        out_shape = S.out_shape(c.spec, c.shape)
        forms = [(rng.choice(["sum", "average", "return all"]), *rng.choice([("diag", "exact"), ("full", "exact"), ("diag", "approx")])) for _ in range(3)]
        wrts = ["weight", "input"] if c.n_par else ["input"]
        moved = rng.random() < 0.5  # one model that is used on the cpu first and then moved, or one model for each device
        with FakeTensorMode():
            res = {}
            model = None
            for dev in ("cpu", "cuda"):
                T = lambda t: torch.zeros(t.shape, dtype=t.dtype, device=dev)
                model = move(model if moved and model is not None else S.build(c.spec, ctx.nnj), dev, c.dtype)
                x = torch.zeros(c.b, *c.shape, dtype=c.dtype, device=dev)
                row = {}
                y, ex = attempt(model, x)
                row["forward"] = (y, ex, None)
                val = y if ex is None else None
                if ex is None:
                    for k, q in enumerate(reqs):
                        v = val if (val is not None and k % 2) else None
                        q2 = Req(q.op, q.wrt, map_t(q.m, T), q.fd, q.td, q.approx)
                        r, e2 = attempt(q2.on, model, x, v)
                        row[str(q) + ("+val" if v is not None else "")] = (r, e2, q)
                    if c.n_par:
                        r, e2 = attempt(model.get_weight)
                        row["get_weight"] = (r, e2, None)
                        if e2 is None:
                            _, e3 = attempt(model.set_weight, r * 2)
                            y2, e4 = attempt(model, x) if e3 is None else (None, None)
                            row["set_weight"] = (y2, e3 or e4, None)
                    for cls, form in zip(("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"), forms):
                        lik = getattr(ctx.nnj, cls)(*form)
                        t = torch.zeros(c.b, *out_shape, dtype=c.dtype, device=dev)
                        r, e2 = attempt(lambda: lik(x, model, t))
                        row[f"{cls}{form}.value"] = (r, e2, None)
                        for wrt in wrts:
                            for what in ("gradient", "ggn"):
                                r, e2 = attempt(getattr(lik, what), x, model, t, wrt)
                                row[f"{cls}{form}.{what}.{wrt}"] = (r, e2, None)
                    r, e2 = attempt(ctx.nnj.utils.invert_block_diagonal, [torch.eye(3, dtype=c.dtype, device=dev).expand(2, 3, 3).clone()])
                    row["invert_block_diagonal"] = (r, e2, None)
                res[dev] = row
        for name, (r, ex, q) in res["cuda"].items():
            cr, cex, _ = res["cpu"].get(name, (None, RuntimeError("missing"), None))
            if cex is not None:  # not runnable on shapes alone
                ctx.inconclusive["not traceable on fake tensors: " + type(cex).__name__] += 1
                continue
            op = name.split("(")[0]
            ctx.notes["calls on a model moved after use" if moved else "calls on a model moved before use"] += 1
            ctx.evaluated((name, sig, "fake", moved), sample=dict(call=name, network=c.text(), scenario="simulated accelerator", result_devices=sorted(devices(r)), verdict="ok" if ex is None else repr(ex)[:100]))
            ctx.notes["calls on the simulated accelerator"] += 1
            if ex is not None:
                ctx.violation(f"fake/{op}/{sig}", f"{name} on {c.text()} with model{' (moved after use)' if moved else ''} and arguments on an accelerator raised {type(ex).__name__}: {str(ex)[:250]}")
            elif devices(r) - {"cuda"}:
                ctx.violation(f"fake/{op}/{sig}", f"{name} on {c.text()} with model and arguments on an accelerator returned tensors on {devices(r)}")

    # ---- default device is another one
    def default_device(self, ctx, c, reqs, rng, g):
        sig = S.signature(c.spec)
        m, x = c.model, c.x
        target = torch.rand(c.b, *S.out_shape(c.spec, c.shape), generator=g, dtype=D).to(c.dtype)
        calls = [("forward", lambda: m(x).detach(), None)]
        val = m(x).detach()
        for k, q in enumerate(reqs[:14]):
            v = val if k % 2 else None
            calls.append((str(q) + ("+val" if v is not None else ""), lambda q=q, v=v: q.on(m, x, v), q))
        wrt = "weight" if c.n_par else "input"
        for cls in ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"):
            agg, (shape, mode) = rng.choice(["sum", "average", "return all"]), rng.choice([("diag", "exact"), ("full", "exact"), ("diag", "approx")])
            lik = getattr(ctx.nnj, cls)(agg, shape, mode)
            calls.append((f"{cls}.value", lambda lik=lik: lik(x, m, target), None))
            calls.append((f"{cls}.gradient", lambda lik=lik: lik.gradient(x, m, target, wrt), None))
            calls.append((f"{cls}.ggn", lambda lik=lik: lik.ggn(x, m, target, wrt), None))
        if c.n_par:
            calls.append(("get_weight", lambda: m.get_weight(), None))
            w2 = c.w.clone()

            def setw():
                m.set_weight(w2)
                return m(x).detach()

            calls.append(("set_weight", setw, None))
        spd = torch.randn(2, 4, 4, generator=g, dtype=D)
        spd = [(spd @ spd.transpose(1, 2) + torch.eye(4, dtype=D)).to(c.dtype)]
        calls.append(("invert_block_diagonal", lambda: ctx.nnj.utils.invert_block_diagonal(spd), None))
        for name, f, q in calls:
            e, eex = attempt(f)
            e = snap(e)
            with torch.device("meta"):
                r, ex = attempt(f)
            op = name.split("(")[0]
            if eex is not None:
                ctx.inconclusive["call raises with the usual default device"] += 1
                continue
            if ex is not None:
                d = f"raised {type(ex).__name__}: {str(ex)[:250]}"
            elif devices(r) - {"cpu"}:
                d = f"returned tensors on {devices(r)}"
            else:
                d = same(r, e, c.dtype, scale=oracle.floor_of(q.m) if q is not None else None)
            ctx.evaluated((name, sig, "default"), sample=dict(call=name, network=c.text(), scenario="default device differs", verdict=d or "ok"))
            ctx.notes["calls with another default device"] += 1
            if d:
                ctx.violation(f"default/{op}/{sig}", f"{name} on {c.text()} on the cpu while the default device is another one: {d}")


CHECKS = dict(C23=C23, C24=C24, C25=C25)
