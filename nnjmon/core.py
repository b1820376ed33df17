"""Case construction, the online product oracle and the per-shard context."""
import collections
import contextlib
import hashlib
import json
import math
import random
import time
import traceback

import torch

from . import gen, monitor, oracle
from . import spec as S


def case_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.nnj = monitor.import_nnj()
        self.mon = monitor.Monitor(self.nnj).install()
        self.evaluations = 0
        self.distinct = set()
        self.inconclusive = collections.Counter()
        self.refused = 0
        self.violations = []
        self.samples = []
        self.notes = collections.Counter()
        self.case = None  # (index, seed, text)

    def violation(self, key, msg, **detail):
        self.violations.append(dict(key=key, msg=msg, case=self.case, detail=detail))

    def evaluated(self, sig, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(int.from_bytes(hashlib.sha256(repr(sig).encode()).digest()[:8], "big"))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)


# --------------------------------------------------------------------------------------------------------------
class Case:
    """A model with weights and an input.  Deterministic from the generator state."""

    def __init__(self, ctx, spec, shape, b, dtype, x_kind, layout, rng, g, w=None):
        self.ctx, self.spec, self.shape, self.b, self.dtype = ctx, spec, tuple(shape), b, dtype
        self.x_kind, self.layout, self.rng, self.g = x_kind, layout, rng, g
        w = gen.weights(spec, g, rng) if w is None else w
        self.w = w.to(dtype)
        self.model = S.build_model(spec, ctx.nnj, self.w, dtype)
        if rng.random() < 0.12:
            gen.relayout_weights(self.model, rng)
        self.x = gen.inputs(x_kind, (b, *self.shape), g).to(dtype)
        self.x = self.x[:1].expand(self.x.shape) if layout == "expanded" else gen.relayout(self.x, layout)
        self.ref = S.Ref(spec, self.x, self.w)
        self.bad = S.kink_report(spec, self.ref, x_kind, dtype)
        if self.bad is None and any(s["t"] == "pool" for s in S.leaves(spec)) and not torch.isfinite(self.ref.val()).all():
            self.bad = "pool window inside the padding"

    @property
    def n_in(self):
        return math.prod(self.shape)

    @property
    def n_out(self):
        return math.prod(S.out_shape(self.spec, self.shape))

    @property
    def n_par(self):
        return S.n_params(self.spec)

    def text(self):
        a = getattr(self, "ambient", None)
        return f"{S.describe(self.spec)} in={self.shape} b={self.b} {str(self.dtype)[6:]} x={self.x_kind}/{self.layout}" + (f" [{a}]" if a else "")


def make_case(ctx, rng, g, spec, shape, b=None, dtype=None, x_kind=None, layout=None, tries=6):
    b = b or rng.choice([1, 2, 2, 3, 4, 5, 7])
    dtype = dtype or (torch.float64 if rng.random() < 0.8 else torch.float32)
    kind = x_kind or rng.choice(gen.X_KINDS)
    layout = layout or rng.choice(gen.LAYOUTS)
    c = None
    for t in range(tries):
        c = Case(ctx, spec, shape, b, dtype, kind, layout, rng, g)
        if c.bad is None:
            return c
        kind = "normal" if t < 3 else "small"
        if t >= 4:
            dtype = torch.float64
    ctx.inconclusive[c.bad] += 1
    return None


# --------------------------------------------------------------------------------------------------------------
class Subject:
    def __init__(self, case):
        self.case, self.refs = case, [case.ref]

    def ref(self, x):
        w = S.read_flat(self.case.model).double()
        for r in self.refs:
            if r.x.shape == x.shape and torch.equal(r.x, x.double()) and torch.equal(r.w, w):
                return r
        r = S.Ref(self.case.spec, x, w)
        self.refs.append(r)
        return r


def snap(v):
    if torch.is_tensor(v):
        return v.detach().clone()
    if isinstance(v, (list, tuple)):
        return [snap(t) for t in v]
    return v


class ProductOracle:
    """Judges every depth-0 product call on a registered model against the reference semantics."""

    def __init__(self, ctx, ops=oracle.PRODUCTS, slack=1.0):
        self.ctx, self.ops, self.slack = ctx, set(ops), slack
        self.subjects = {}
        self.pending = None
        self.last = None
        ctx.mon.before.append(self.before)
        ctx.mon.after.append(self.after)

    def watch(self, case):
        self.subjects = {id(case.model): Subject(case)}

    def close(self):
        self.ctx.mon.before.remove(self.before)
        self.ctx.mon.after.remove(self.after)

    def before(self, e):
        with neutral():
            self.note(e)

    def after(self, e):
        with neutral():
            self.conclude(e)

    def note(self, e):
        self.pending = {k: snap(v) for k, v in e.named.items()} if e.op in oracle.PRODUCTS else None

    def conclude(self, e):
        self.last = None
        sub = self.subjects.get(id(e.obj))
        if sub is None or e.op not in self.ops or e.named.get("diag"):
            return
        a = self.pending
        c = sub.case
        wrt = a.get("wrt", "input")
        m = a.get("vector", a.get("matrix"))
        fd, td, ap = bool(a.get("from_diag")), bool(a.get("to_diag")), bool(a.get("diag_backprop"))
        what = f"{e.op}(wrt={wrt}" + (f",from_diag={fd},to_diag={td}" + (",diag_backprop=True" if ap else "") if e.op in ("jmjTp", "jTmjp") else "") + (",None" if e.op not in ("jacobian",) and m is None else "") + (",val" if a.get("val") is not None else "") + ")"
        key = f"{e.op}/{wrt}/{fd}{td}{ap}/{S.signature(c.spec)}"
        ctx = self.ctx
        if e.exc is not None:
            if isinstance(e.exc, NotImplementedError) and oracle.may_refuse(c.spec, e.op, m is not None):
                ctx.refused += 1
                self.last = "refused"
                return
            ctx.evaluated((key, c.b, c.x_kind))
            ctx.violation(key, f"{what} on {c.text()} raised {type(e.exc).__name__}: {str(e.exc)[:200]}")
            self.last = "bad"
            return
        ref = sub.ref(a["x"])
        exp, d = oracle.judge(e.result, c.dtype, c.spec, ref, e.op, wrt, m, fd, td, ap, self.slack, elementwise=c.spec["t"] == "act" and e.op in ("jacobian", "vjp", "jvp"))
        nz = exp is not None and any(bool(t.abs().max() > 0) for t in oracle.flatten_list(exp) if t.numel())
        sample = None
        if nz and len(ctx.samples) < 2:
            t0 = oracle.flatten_list(exp)[0]
            sample = dict(call=what, network=c.text(), result_shape=list(t0.shape), expected_first=round(float(t0.reshape(-1)[0]), 6), verdict="equal" if d is None else d)
        ctx.evaluated((key, c.b, str(c.dtype), c.x_kind, c.layout, a.get("val") is not None), nz or exp is None, sample)
        if d is not None:
            ctx.violation(key, f"{what} on {c.text()}: {d}")
            self.last = "bad"
        else:
            self.last = "ok"


# --------------------------------------------------------------------------------------------------------------
def weight_metric(case, diag, rng, g, kind):
    """A weight-space metric in one of its documented forms."""
    P = case.n_par
    st = oracle.block_structure(case.spec)
    if diag:
        return gen.direction(kind, (case.b, P), g).to(case.dtype)
    if isinstance(st, list) and rng.random() < 0.2:
        # blocks of equal size are one and the same tensor
        of_size = {}

        def block(lo, hi):
            if hi - lo not in of_size:
                of_size[hi - lo] = gen.direction(kind, (case.b, hi - lo, hi - lo), g).to(case.dtype)
            return of_size[hi - lo]

        return oracle.map_structure(st, block)
    if isinstance(st, list) and rng.random() < 0.5:
        return oracle.map_structure(st, lambda lo, hi: gen.direction(kind, (case.b, hi - lo, hi - lo), g).to(case.dtype))
    return gen.direction(kind, (case.b, P, P), g).to(case.dtype)


@contextlib.contextmanager
def neutral():
    """The oracle's own surroundings, whatever those of the observed call are."""
    dd = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32)
    try:
        with torch.inference_mode(False), torch.set_grad_enabled(True):
            yield
    finally:
        torch.set_default_dtype(dd)


AMBIENTS = ["inference", "no_grad", "default64", "eval", "frozen", "partly frozen", "x_grad"]


def set_ambient(case, rng, p=0.3):
    """Unusual but legitimate surroundings for the calls on a case."""
    case.ambient = rng.choice(AMBIENTS) if rng.random() < p else None
    if case.ambient == "eval":
        case.model.eval()
    elif case.ambient == "frozen":
        for q in case.model.parameters():
            q.requires_grad_(False)
    elif case.ambient == "partly frozen":
        for q in case.model.parameters():
            if rng.random() < 0.5:
                q.requires_grad_(False)
    elif case.ambient == "x_grad":
        case.x = case.x.detach().requires_grad_(True)
    if case.ambient:
        case.ctx.notes["surroundings: " + case.ambient] += 1


@contextlib.contextmanager
def surroundings(case):
    a = getattr(case, "ambient", None)
    dd = torch.get_default_dtype()
    try:
        if a == "default64":
            torch.set_default_dtype(torch.float64)
        with torch.inference_mode() if a == "inference" else torch.no_grad() if a == "no_grad" else contextlib.nullcontext():
            yield
    finally:
        torch.set_default_dtype(dd)


def call(case, op, wrt="input", m=None, from_diag=None, to_diag=None, approx=None, val=None, style=0):
    """One workload call on the monitored model; exceptions are left to the observers."""
    try:
        with surroundings(case):
            return _call(case, op, wrt, m, from_diag, to_diag, approx, val, style)
    except Exception:
        return None


def _call(case, op, wrt, m, from_diag, to_diag, approx, val, style):
    f = getattr(case.model, op)
    if op == "jacobian":
        if style == 1:
            return f(case.x, val, wrt)
        if style == 2 and val is None:
            return f(case.x, wrt=wrt)
        return f(case.x, val, wrt=wrt)
    kw = {}
    for k, v in (("from_diag", from_diag), ("to_diag", to_diag), ("diag_backprop", approx)):
        if v is not None:
            kw[k] = v
    if style == 1:
        return f(case.x, val, m, wrt, **kw)
    if style == 2:
        return f(x=case.x, val=val, **{"vector" if op in ("jvp", "vjp") else "matrix": m}, wrt=wrt, **kw)
    return f(case.x, val, m, wrt=wrt, **kw)


def arg_for(case, op, wrt, rng, g, from_diag=False, kind=None, rows=None):
    kind = kind or rng.choice(gen.D_KINDS)
    n = case.n_in if wrt == "input" else case.n_par
    o = case.n_out
    r = rng.choice([1, 2, 3, 5, n or 1, o, o + 1, 8, 20]) if rows is None else rows
    if rows is None and rng.random() < 0.05 and case.b * max(n, o, 1) <= 300:
        r = rng.choice([31, 33, 64, 65, 100, 129, 257])
    lay = rng.choice(gen.LAYOUTS)
    if op == "jvp":
        m = gen.direction(kind, (case.b, n), g)
    elif op == "vjp":
        m = gen.direction(kind, (case.b, o), g)
    elif op == "jmp":
        m = gen.direction(kind, (case.b, n, r), g)
    elif op == "mjp":
        m = gen.direction(kind, (case.b, r, o), g)
    elif op == "jmjTp":
        if wrt == "weight":
            return weight_metric(case, from_diag, rng, g, kind)
        m = gen.direction(kind, (case.b, n) if from_diag else (case.b, n, n), g)
    elif op == "jTmjp":
        m = gen.direction(kind, (case.b, o) if from_diag else (case.b, o, o), g)
    else:
        return None
    m = m.to(case.dtype)
    if rng.random() < 0.06:  # one and the same direction for all samples, stored once
        return m[:1].expand(m.shape)
    return gen.relayout(m, lay)


def fresh_val(case):
    with torch.no_grad():
        return case.model(case.x)


def drive(case, op, wrt, rng, g, fd=False, td=False, approx=False, none=False, val=None, kind=None):
    """Builds the argument of one product call and performs it on the monitored model."""
    metric = op in ("jmjTp", "jTmjp")
    if wrt == "weight" and case.n_par == 0 and op in ("jvp", "jmp", "jmjTp"):
        # directions in a zero-dimensional weight space
        m = torch.zeros((case.b, 0) if op == "jvp" or (metric and fd) else (case.b, 0, 0 if metric else 2), dtype=case.dtype)
        if none:
            m = None
    else:
        m = None if none or op == "jacobian" else arg_for(case, op, wrt, rng, g, fd, kind)
    v = fresh_val(case) if val else None
    style = rng.randrange(3)
    if metric:
        return call(case, op, wrt, m, fd, td, True if approx else (None if rng.random() < 0.5 else False), val=v, style=style)
    return call(case, op, wrt, m, val=v, style=style)
