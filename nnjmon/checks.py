"""One class per property.  Each builds workloads, drives the monitored nnj code and lets an oracle judge what was
observed.  Nothing here looks at nnj's source or at private attributes: only at what public calls return and touch."""
import collections
import copy
import gc
import io
import itertools
import json
import math
import os
import pickle
import random
import sys
import threading
import warnings

import torch
import torch.nn.functional as F

from . import gen, monitor, oracle
from . import spec as S
from .core import (Case, ProductOracle, Subject, arg_for, call, case_seed, drive, fresh_val, make_case, set_ambient, snap, weight_metric)

D, F32 = torch.float64, torch.float32
BATCHES = [1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9]
BATCHES_BIG = [11, 16, 17, 32, 33, 64, 65, 100, 128, 130, 257]
MODES = [(False, False), (True, False), (False, True), (True, True)]

ASSUME = [
    "PyTorch's own forward kernels and torch.func.jacrev in float64 are trusted as the reference for the mathematical derivative",
    "CPU tensors; batch dimension first; points within rounding distance of a kink (ReLU, pooling tie, softplus threshold inside a network) are not judged",
    "held on the executions observed, not for all inputs",
]


# --------------------------------------------------------------------------------------------------------------
# catalogue of single layers, enumerated in every check that concerns single layers
# --------------------------------------------------------------------------------------------------------------
def act_s(n, **kw):
    return dict(t="act", n=n, **kw)


def leaf_catalogue(custom=False):
    out = []
    for i, o in ((3, 5), (5, 3), (1, 4), (4, 1), (1, 1), (6, 6), (9, 2), (12, 17)):
        for bias in (True, False):
            out.append((dict(t="linear", i=i, o=o, bias=bias), (i,)))
    for shape in ((5,), (1,), (3, 4), (2, 3, 2), (1, 4, 4)):
        for n in gen.ACTS:
            out.append((act_s(n), shape))
        out.append((dict(t="flatten"), shape))
        out.append((dict(t="l2"), shape))
        out.append((dict(t="l2", eps=0.1), shape))
        out.append((act_s("Softplus", beta=2, threshold=1), shape))
        out.append((act_s("Softplus", beta=0.5, threshold=20), shape))
    out.append((act_s("Softplus", beta=4, threshold=0.5), (6,)))
    out.append((dict(t="l2", eps=1.5), (4,)))
    for shape, dims in (((6,), [2, 3]), ((6,), [1, 3, 2]), ((2, 3), [3, 2]), ((2, 3), [6]), ((2, 2, 3), [3, 4]), ((2, 2, 3), [12]), ((2, 2, 3), [3, 2, 2]), ((4,), [4]), ((2, 2, 2), [1, 8, 1])):
        out.append((dict(t="reshape", dims=dims), shape))
    for vm in (True, False):
        for bias in (True, False):
            out.append((dict(t="conv", i=2, o=3, k=3, p=1, bias=bias, vmap=vm), (2, 3, 4)))
            out.append((dict(t="conv", i=2, o=3, k=2, p=0, bias=bias, vmap=vm), (2, 3, 4)))
            out.append((dict(t="conv", i=1, o=2, k=[2, 3], p=[1, 0], bias=bias, vmap=vm), (1, 4, 3)))
            out.append((dict(t="conv", i=3, o=2, k=[3, 1], p=[0, 0], bias=bias, vmap=vm), (3, 4, 2)))
            out.append((dict(t="conv", i=3, o=1, k=1, p=0, bias=bias, vmap=vm), (3, 2, 3)))
            out.append((dict(t="conv", i=1, o=4, k=[1, 3], p=[0, 2], bias=bias, vmap=vm), (1, 2, 4)))
            out.append((dict(t="conv", i=2, o=2, k=2, p=1, bias=bias, vmap=vm), (2, 2, 2)))
    for s, shape in ((2, (2, 2, 3)), (3, (1, 2, 2)), (1, (2, 3, 2)), (2, (3, 1, 4)), (4, (1, 1, 2)), (2, (1, 4, 1))):
        out.append((dict(t="up", s=s), shape))
    for p, shape in (
        (dict(k=2), (2, 4, 4)), (dict(k=2), (1, 5, 3)), (dict(k=3, s=1), (2, 4, 4)), (dict(k=2, s=1), (1, 3, 4)),
        (dict(k=3, s=2), (1, 5, 5)), (dict(k=3, s=2, p=1), (2, 5, 4)), (dict(k=[2, 3]), (2, 4, 6)), (dict(k=[1, 2], s=[1, 2]), (2, 3, 4)),
        (dict(k=2, d=2), (1, 5, 5)), (dict(k=2, s=2, ceil=True), (2, 3, 5)), (dict(k=3, s=2, ceil=True), (1, 4, 4)), (dict(k=1), (2, 3, 2)),
        (dict(k=2, s=3), (1, 5, 5)), (dict(k=[3, 2], s=[1, 2], p=[1, 1]), (2, 4, 3)), (dict(k=3, s=1, p=1), (1, 3, 3)), (dict(k=[2, 1], s=[2, 1]), (3, 4, 2)),
        (dict(k=3), (2, 6, 6)), (dict(k=2, s=2), (3, 4, 6)),
    ):
        out.append((dict(t="pool", **p), shape))
    return out


LEAVES = leaf_catalogue()

BIG_LEAVES = [
    (dict(t="linear", i=40, o=33, bias=True), (40,)),
    (dict(t="linear", i=17, o=70, bias=False), (17,)),
    (act_s("Tanh"), (130,)), (act_s("Sigmoid"), (4, 6, 6)), (act_s("ReLU"), (70,)), (act_s("Softplus"), (66,)),
    (act_s("Sinusoidal"), (4, 20)), (act_s("TruncExp"), (3, 5, 6)), (dict(t="l2"), (40,)), (dict(t="flatten"), (4, 5, 5)),
    (dict(t="reshape", dims=[10, 9]), (90,)),
    (dict(t="conv", i=5, o=6, k=3, p=1, bias=True, vmap=True), (5, 5, 5)),
    (dict(t="conv", i=5, o=6, k=3, p=1, bias=True, vmap=False), (5, 5, 5)),
    (dict(t="conv", i=4, o=9, k=2, p=0, bias=True, vmap=True), (4, 4, 4)),
    (dict(t="linear", i=130, o=3, bias=True), (130,)), (dict(t="linear", i=2, o=140, bias=True), (2,)),
    (dict(t="conv", i=1, o=17, k=2, p=1, bias=True, vmap=True), (1, 2, 3)), (dict(t="conv", i=17, o=1, k=1, p=0, bias=True, vmap=False), (17, 2, 3)),
    (dict(t="conv", i=1, o=1, k=5, p=2, bias=True, vmap=True), (1, 9, 8)), (dict(t="up", s=5), (1, 2, 3)), (dict(t="pool", k=4, s=3), (2, 10, 7)),
    (act_s("Tanh"), (300,)), (act_s("ReLU"), (2, 9, 11)), (dict(t="l2"), (3, 9, 5)),
    (dict(t="up", s=2), (3, 4, 4)), (dict(t="pool", k=2), (5, 6, 6)), (dict(t="pool", k=3, s=1, p=1), (3, 6, 6)),
]


def typical_nets():
    """Hand-written architectures with the shapes users build (from the tests, the docs and their variations)."""
    L = lambda i, o, b=True: dict(t="linear", i=i, o=o, bias=b)
    C = lambda i, o, k, p=0, b=True, vm=True: dict(t="conv", i=i, o=o, k=k, p=p, bias=b, vmap=vm)
    seq = lambda *a: dict(t="seq", L=list(a))
    skip = lambda *a: dict(t="skip", L=list(a))
    T, R, G, N, E, P = (act_s(n) for n in ("Tanh", "ReLU", "Sigmoid", "Sinusoidal", "TruncExp", "Softplus"))
    fl = dict(t="flatten")
    rs = lambda *d: dict(t="reshape", dims=list(d))
    pool = lambda k, **kw: dict(t="pool", k=k, **kw)
    up = lambda s: dict(t="up", s=s)
    l2 = dict(t="l2")
    sh = lambda s: dict(s, share=json.dumps(s))
    us = lambda s: dict(s, sub=True)
    return [
        (seq(L(3, 5), T, L(5, 2)), (3,)),
        (seq(L(3, 5, False), R, L(5, 4, False), G, L(4, 1)), (3,)),
        (seq(T, L(4, 4), N, L(4, 4), P), (4,)),
        (seq(L(2, 3), E, L(3, 6), rs(2, 3), T, fl, L(6, 2)), (2,)),
        (seq(seq(L(3, 4), T), seq(L(4, 3), seq(R, L(3, 3))), G), (3,)),
        (seq(L(3, 4), seq(T), L(4, 2)), (3,)),
        (seq(T, R), (4,)),
        (seq(seq(T), skip(N)), (3,)),
        (skip(L(3, 5, False)), (3,)),
        (skip(L(3, 4), T, skip(L(4, 2), T), L(6, 3)), (3,)),
        (skip(T), (3,)),
        (skip(T, R), (2, 3)),
        (seq(skip(skip(T), L(6, 2)), L(5, 3)), (3,)),
        (seq(L(3, 3), l2, L(3, 2)), (3,)),
        (seq(l2), (5,)),
        (skip(l2, L(4, 2)), (4,)),
        (seq(L(4, 12), rs(3, 2, 2), C(3, 2, 2, 1), R, fl, L(18, 3)), (4,)),
        (seq(C(2, 3, 3, 1), T, pool(2), fl, L(12, 3)), (2, 4, 4)),
        (seq(C(1, 2, 2, 0, False), R, C(2, 2, 2, 0), fl), (1, 4, 4)),
        (seq(C(2, 2, 3, 1, True, False), T, up(2)), (2, 2, 3)),
        (seq(pool(3, s=1, p=1), C(2, 2, 2), G), (2, 4, 3)),
        (skip(C(2, 2, 3, 1), T), (2, 3, 3)),
        (skip(pool(2), C(2, 1, 1), T, up(2)), (2, 4, 4)),
        (seq(skip(C(1, 2, 3, 1), R), C(3, 1, 2), fl, L(4, 2)), (1, 3, 3)),
        (seq(fl, L(12, 6), T, rs(2, 3)), (3, 2, 2)),
        (skip(fl, L(8, 4), T, rs(1, 2, 2)), (2, 2, 2)),
        (seq(T, pool(2), up(3), T), (2, 4, 4)),
        (seq(up(2), pool(2, s=1), fl), (1, 2, 3)),
        (seq(fl), (2, 3)),
        (seq(L(3, 2)), (3,)),
        (seq(L(3, 3), L(3, 3), L(3, 3)), (3,)),
        (seq(C(1, 1, 1), C(1, 2, 2)), (1, 3, 3)),
        (seq(rs(1, 2, 3), skip(C(1, 1, 3, 1)), fl, L(12, 3), skip(T)), (6,)),
        (seq(G, L(5, 5), G, L(5, 5, False), G), (5,)),
        (seq(skip(L(2, 2)), skip(L(4, 2), T), L(6, 1)), (2,)),
        (skip(seq(L(3, 3), T), seq(R), skip(L(3, 1))), (3,)),
        (seq(), (4,)),
        (seq(), (2, 3)),
        (seq(L(3, 2), seq(), T), (3,)),
        (skip(), (3,)),
        (seq(skip(seq()), L(6, 2)), (3,)),
        # deeper and longer
        (seq(seq(seq(seq(L(3, 4), T), L(4, 3)), seq(seq(seq(R)), L(3, 3))), G), (3,)),
        (skip(skip(skip(L(2, 2), T), L(4, 2)), L(4, 1)), (2,)),
        (seq(L(2, 3), T, L(3, 3), N, L(3, 3), G, L(3, 3), P, L(3, 3), T, L(3, 3), R, L(3, 2)), (2,)),
        (seq(skip(seq(skip(seq(L(3, 2), T)), L(5, 2))), seq(seq(L(5, 3)), skip(skip(T))), L(9, 2)), (3,)),
        (seq(C(1, 2, 3, 1), R, skip(skip(C(2, 1, 3, 1), T), C(3, 1, 1)), pool(2), C(3, 2, 1), up(2), skip(T), C(4, 1, 3, 1)), (1, 4, 4)),
        (seq(seq(seq(C(1, 2, 2), T)), seq(C(2, 2, 2, 1), seq(pool(2), fl)), L(8, 2)), (1, 4, 4)),
        # one module object in several places
        (seq(L(3, 4), sh(T), L(4, 4), sh(T), L(4, 2)), (3,)),
        (seq(sh(N), sh(N), L(3, 3), skip(sh(N)), L(6, 2)), (3,)),
        (skip(sh(G), L(3, 3), sh(G), seq(L(3, 2), sh(G))), (3,)),
        (seq(C(1, 2, 3, 1), sh(T), C(2, 2, 3, 1), sh(T), sh(pool(2)), sh(T), fl, L(8, 2)), (1, 4, 4)),
        (seq(sh(pool(2)), sh(pool(2)), sh(up(2)), sh(up(2))), (2, 4, 8)),
        (seq(L(4, 4), sh(l2), L(4, 4), sh(l2)), (4,)),
        # user-defined subclasses of the classes of the package
        (us(seq(us(L(3, 4)), us(T), us(L(4, 2)))), (3,)),
        (seq(L(3, 4), us(seq(us(R), L(4, 3))), us(skip(us(l2), T)), L(6, 2)), (3,)),
        (us(skip(us(C(1, 2, 3, 1)), us(G), us(pool(2)), us(up(2)))), (1, 4, 4)),
        (us(seq(us(rs(2, 3)), us(P), us(fl), us(N), us(seq(us(L(6, 2)))))), (6,)),
        # without the feature maps of the forward pass being stored
        (dict(t="seq", L=[L(3, 4), T, L(4, 2)], hooks=False), (3,)),
        (dict(t="skip", L=[L(3, 4), T, dict(t="seq", L=[L(4, 2)], hooks=False)], hooks=False), (3,)),
    ]


NETS = typical_nets()


def pick_batch(rng, big=0.04):
    return rng.choice(BATCHES_BIG) if rng.random() < big else rng.choice(BATCHES)


def mk(ctx, rng, g, spec, shape, b=None, dtype=None, x_kind=None, layout=None, big=0.04):
    kind = x_kind or rng.choice(gen.X_KINDS)
    lay = layout or rng.choice(gen.LAYOUTS)
    if any(s["t"] == "pool" for s in S.leaves(spec)) and kind in ("zeros", "ones", "ints", "onehot", "sparse", "mixed"):
        lay = "plain"  # which of several equal maxima is chosen may depend on the memory layout of torch's own kernel
    if kind == "huge":
        dtype = D
    return make_case(ctx, rng, g, spec, shape, b or pick_batch(rng, big), dtype, kind, lay)


class Check:
    rule = ""
    min_evaluations = 300
    assumptions = ASSUME
    quick, thorough = 800, 40000
    cap = dict(quick=300, thorough=2400)

    def setup(self, ctx):
        pass

    def finish(self, ctx):
        pass

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def time_cap(self, tier):
        return self.cap["quick" if tier == "quick" else "thorough"]

    def rngs(self, seed):
        return random.Random(seed), gen.tgen(seed)


class ProductCheck(Check):
    """Every top-level product call on every generated module is judged by the online ProductOracle."""

    ops = ()
    leaves = True
    nets = True
    custom = True  # user-written layers on the abstract classes, alone and inside networks
    rule = ("an evaluation is one judged top-level call; two are the same if network structure, operation, target, mode, batch size, dtype, "
            "input kind, layout and val-given all agree; trivial if the expected result is entirely zero")

    def setup(self, ctx):
        self.po = ProductOracle(ctx, self.ops)
        self.enum = []
        if self.leaves:
            self.enum += LEAVES + BIG_LEAVES
            if self.custom:
                self.enum += CUSTOM_LEAVES
        if self.nets:
            self.enum += NETS
            if self.custom:
                self.enum += CUSTOM_NETS

    def pick(self, rng, i):
        if i < len(self.enum):
            return self.enum[i]
        if self.leaves and (not self.nets or rng.random() < 0.42):
            if rng.random() < 0.5:
                return rng.choice(self.enum)
            shape = gen.in_shape(rng)
            return gen.leaf(rng, shape, custom=self.custom and rng.random() < 0.3), shape
        return gen.network(rng, fwd=self.fwd, custom=self.custom and rng.random() < 0.3)

    fwd = None

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        spec, shape = self.pick(rng, i)
        big = math.prod(shape) > 60
        c = mk(ctx, rng, g, spec, shape, b=rng.choice([1, 2, 3]) if big else None)
        if c is None:
            return
        set_ambient(c, rng)
        self.po.watch(c)
        self.calls(ctx, c, rng, g)

    def calls(self, ctx, c, rng, g):
        raise NotImplementedError


# --------------------------------------------------------------------------------------------------------------
class C01(Check):
    rule = ("an evaluation is one forward (or autograd) comparison of a module with the reference; distinct by structure, batch size, dtype, input kind, "
            "layout and mode")
    quick, thorough = 6000, 60000

    def setup(self, ctx):
        self.enum = LEAVES + BIG_LEAVES + NETS

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        if i < 2 * len(self.enum):
            spec, shape = self.enum[i % len(self.enum)]
        elif rng.random() < 0.35:
            shape = gen.in_shape(rng)
            spec = gen.leaf(rng, shape)
        else:
            spec, shape = gen.network(rng)
        leaf = spec["t"] not in ("seq", "skip")
        kind = None
        if leaf and rng.random() < 0.25:
            kind = rng.choice(["huge", "tiny"])
        c = mk(ctx, rng, g, spec, shape, x_kind=kind)
        if c is None:
            return
        el = spec["t"] == "act"
        train = rng.random() < 0.5
        c.model.train(train)
        grad = rng.random() < 0.6
        # plain forward
        x = c.x.detach().clone() if grad and rng.random() < 0.5 else c.x.detach()
        leafx = x.clone().requires_grad_(grad)
        xin = leafx
        if grad:
            y = c.model(xin)
        else:
            with torch.no_grad():
                y = c.model(x)
        ref = c.ref.val()
        d = oracle.compare(y, ref, self.bound(c, ref), c.dtype, elementwise=el)
        ctx.evaluated((S.signature(spec), S.describe(spec), c.b, str(c.dtype), c.x_kind, c.layout, train), sample=dict(network=c.text(), verdict=d or "equal", out_shape=list(y.shape) if torch.is_tensor(y) else None))
        ctx.notes["forward"] += 1
        if d:
            ctx.violation("forward/" + S.signature(spec), f"forward of {c.text()}: {d}")
            return
        if not grad:
            return
        # autograd through the module against autograd through the reference
        w = gen.direction(rng.choice(["normal", "normal", "pos", "sparse"]), tuple(y.shape), g).to(c.dtype)
        if not y.requires_grad:
            ctx.violation("autograd/" + S.signature(spec), f"output of {c.text()} does not carry a gradient")
            return
        ps = list(c.model.parameters())
        got = torch.autograd.grad(y, [leafx] + ps, w, allow_unused=True)
        x2 = c.ref.x.clone().requires_grad_(True)
        w2 = c.ref.w.clone().requires_grad_(True)
        y2 = S.forward(spec, S._Take(w2), x2)
        ex, ew = torch.autograd.grad(y2, [x2, w2], w.double(), allow_unused=True)
        ex = torch.zeros_like(x2) if ex is None else ex
        gx = torch.zeros_like(leafx) if got[0] is None else got[0]
        A = self.gbound(c, w)
        d = oracle.compare(gx, ex, ex.abs() if el else A[0].reshape(ex.shape), c.dtype, elementwise=el)
        if d is None and ps:
            ew = torch.zeros_like(w2) if ew is None else ew
            flat = torch.cat([(torch.zeros_like(p) if t is None else t).reshape(-1) for p, t in zip(ps, got[1:])])
            d = oracle.compare(flat.unsqueeze(0), ew.unsqueeze(0), A[1].unsqueeze(0), c.dtype)
            d = d and "parameters: " + d
        ctx.notes["autograd"] += 1
        ctx.evaluated(("grad", S.describe(spec), c.b, str(c.dtype), c.x_kind, c.layout))
        if d:
            ctx.violation("autograd/" + S.signature(spec), f"autograd through {c.text()}: {d}")

    def bound(self, c, ref):
        m = ref.abs().reshape(c.b, -1).max(dim=1).values if ref.numel() else ref
        if c.spec["t"] == "act":
            return ref.abs()
        s = torch.zeros(c.b, dtype=D)
        for sp, x in c.ref.leaf_inputs():
            s = torch.maximum(s, x.abs().reshape(c.b, -1).max(dim=1).values if x.numel() else s)
        ws = 1 + (c.ref.w.abs().max().item() if c.ref.w.numel() else 0)
        t = torch.maximum(m, s) * ws
        return t.reshape(-1, *([1] * (ref.dim() - 1))).expand(ref.shape)

    def gbound(self, c, w):
        J = c.ref.J("input").abs()
        wd = w.double().abs().reshape(c.b, -1)
        a = torch.einsum("bi,bij->bj", wd, J)
        a = a.max(dim=1, keepdim=True).values.expand_as(a) if a.numel() else a
        Jw = c.ref.J("weight")
        return a, (torch.einsum("bi,bij->j", wd, Jw.abs()) if Jw is not None else None)


class C02(ProductCheck):
    ops = ("jacobian",)
    nets = False
    custom = False
    quick, thorough = 9000, 80000
    STRESS = ["normal", "big", "small", "zeros", "ones", "sparse", "ints", "neg", "mixed", "offset", "onehot", "huge", "tiny"]

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        n = len(LEAVES)
        if i < 5 * n:
            spec, shape = LEAVES[i % n]
            kind = self.STRESS[(i // n * 3 + i) % len(self.STRESS)] if i >= n else "normal"
        elif i < 5 * n + len(BIG_LEAVES):
            spec, shape = BIG_LEAVES[i - 5 * n]
            kind = "normal"
        else:
            if rng.random() < 0.3:
                spec, shape = rng.choice(LEAVES)
            else:
                shape = gen.in_shape(rng)
                spec = gen.leaf(rng, shape)
            kind = rng.choice(self.STRESS)
        big = math.prod(shape) > 60
        c = mk(ctx, rng, g, spec, shape, x_kind=kind, b=rng.choice([1, 2]) if big else None)
        if c is None:
            return
        set_ambient(c, rng)
        self.po.watch(c)
        for wrt in ("input", "weight"):
            for v in (None, True):
                drive(c, "jacobian", wrt, rng, g, val=v)
        if spec["t"] in ("act", "flatten", "reshape"):
            try:
                r = c.model.jacobian(c.x, None, wrt="input", diag=True)
            except Exception as ex:
                ctx.violation("diag/" + S.signature(spec), f"jacobian(diag=True) of {c.text()} raised {ex!r}")
                return
            e = torch.diagonal(c.ref.J("input"), dim1=1, dim2=2)
            d = oracle.compare(r, e, e.abs(), c.dtype, elementwise=True)
            ctx.evaluated(("diag", S.describe(spec), c.b, c.x_kind))
            if d:
                ctx.violation("diag/" + S.signature(spec), f"jacobian(diag=True) of {c.text()}: {d}")


class C03(ProductCheck):
    ops = ("jacobian",)
    leaves = False
    quick, thorough = 3600, 40000

    def calls(self, ctx, c, rng, g):
        for wrt in ("input", "weight"):
            for v in (None, True):
                drive(c, "jacobian", wrt, rng, g, val=v)


class C04(ProductCheck):
    ops = ("jvp", "vjp")
    quick, thorough = 5600, 40000

    def run(self, ctx, i, seed):
        if i % 25 == 24:
            return self.large(ctx, i, seed)
        return super().run(ctx, i, seed)

    def calls(self, ctx, c, rng, g):
        for wrt in ("input", "weight"):
            for v in (None, True):
                drive(c, "vjp", wrt, rng, g, val=v)
                drive(c, "jvp", wrt, rng, g, val=v)

    def large(self, ctx, i, seed):
        """Networks too large for a Jacobian: per-sample autograd gradients, finite adjointness and linearity."""
        rng, g = self.rngs(seed)
        spec, shape = gen.large_network(rng)
        b = rng.choice([1, 2, 3, 9])
        w = gen.weights(spec, g, rng)
        x = torch.randn(b, *shape, generator=g, dtype=D)
        model = S.build_model(spec, ctx.nnj, w, D)
        o = math.prod(S.out_shape(spec, shape))
        u = torch.randn(b, o, generator=g, dtype=D)
        text = f"large {S.describe(spec)[:300]} b={b}"
        fwd = gen.supports_forward_pass(spec)
        for wrt in ("input", "weight"):
            val = model(x).detach() if rng.random() < 0.5 else None
            try:
                got = model.vjp(x, val, u, wrt=wrt)
            except Exception as ex:
                ctx.violation(f"large/vjp/{wrt}", f"vjp(wrt={wrt}) on {text} raised {ex!r}"[:600])
                continue
            exp = []
            for k in range(b):
                xk = x[k : k + 1].clone().requires_grad_(True)
                wk = w.clone().requires_grad_(True)
                y = S.forward(spec, S._Take(wk), xk)
                gx, gw = torch.autograd.grad(y.reshape(-1) @ u[k], [xk, wk])
                exp.append((gx if wrt == "input" else gw).reshape(-1))
            exp = torch.stack(exp)
            d = oracle.compare(got, exp, exp.abs() + 1, D, slack=100)
            ctx.evaluated(("large", S.describe(spec), wrt, b), sample=dict(network=text, wrt=wrt, params=int(w.numel()), inputs=math.prod(shape), outputs=o, verdict=d or "equal"))
            ctx.notes["large networks"] += 1
            if d:
                ctx.violation(f"large/vjp/{wrt}", f"vjp(wrt={wrt}) on {text}: {d}")
            if fwd:
                v = torch.randn(exp.shape, generator=g, dtype=D)
                try:
                    jv = model.jvp(x, val, v, wrt=wrt)
                except Exception as ex:
                    ctx.violation(f"large/jvp/{wrt}", f"jvp(wrt={wrt}) on {text} raised {ex!r}"[:600])
                    continue
                lhs, rhs = (jv * u).sum(dim=1), (v * exp).sum(dim=1)
                sc = (jv * u).abs().sum(dim=1) + (v * exp).abs().sum(dim=1) + 1
                ctx.evaluated(("large-adj", S.describe(spec), wrt, b))
                if not bool(((lhs - rhs).abs() <= 1e-8 * sc).all()):
                    ctx.violation(f"large/adjoint/{wrt}", f"<Jv,u> != <v,J^T u> on {text}: {lhs.tolist()} vs {rhs.tolist()}"[:600])


class C05(ProductCheck):
    ops = ("jmp", "mjp")
    quick, thorough = 5600, 40000

    def calls(self, ctx, c, rng, g):
        for wrt in ("input", "weight"):
            n = c.n_in if wrt == "input" else c.n_par
            for op in ("mjp", "jmp"):
                rows = [1, n or 1, c.n_out, rng.choice([2, 3, 5, 17]), rng.choice([0, 4])]
                for r in rng.sample(rows, 2):
                    v = rng.choice([None, True])
                    if wrt == "weight" and n == 0 and op == "jmp":
                        drive(c, op, wrt, rng, g, val=v)
                        continue
                    m = arg_for(c, op, wrt, rng, g, rows=r)
                    call(c, op, wrt, m, val=fresh_val(c) if v else None, style=rng.randrange(3))


class MetricCheck(ProductCheck):
    def calls(self, ctx, c, rng, g):
        op = self.ops[0]
        for wrt in ("input", "weight"):
            for fd, td in MODES * (2 if c.spec["t"] in ("act", "pool", "up", "l2") and wrt == "input" and c.n_in <= 40 else 1):
                drive(c, op, wrt, rng, g, fd, td, val=rng.choice([None, True]))


class C06(MetricCheck):
    ops = ("jmjTp",)
    quick, thorough = 6400, 40000
    fwd = True

    def pick(self, rng, i):
        if i < len(self.enum):
            return self.enum[i]
        for _ in range(20):
            s = super().pick(rng, i)
            if gen.supports_forward_pass(s[0]):
                return s
        return s


class C07(MetricCheck):
    ops = ("jTmjp",)
    quick, thorough = 5600, 40000


class C08(ProductCheck):
    ops = ("jmjTp", "jTmjp")
    quick, thorough = 5600, 40000

    def calls(self, ctx, c, rng, g):
        for wrt in ("input", "weight"):
            for op in self.ops:
                for kind in (rng.choice(["pos", "normal", "sparse"]), "pos"):
                    r = drive(c, op, wrt, rng, g, True, True, approx=True, val=rng.choice([None, True]), kind=kind)
                    if kind == "pos" and torch.is_tensor(r) and r.numel():
                        ctx.notes["non-negativity checks"] += 1
                        if bool((r < 0).any()):
                            ctx.violation(f"{op}/negative/{S.signature(c.spec)}", f"{op}(diag_backprop=True,wrt={wrt}) of a non-negative diagonal on {c.text()} is negative: min {r.min().item()}")


class C09(ProductCheck):
    ops = ("jmp", "mjp", "jmjTp", "jTmjp")
    quick, thorough = 4500, 40000

    def calls(self, ctx, c, rng, g):
        for wrt in ("input", "weight"):
            drive(c, "mjp", wrt, rng, g, none=True, val=rng.choice([None, True]))
            drive(c, "jmp", wrt, rng, g, none=True, val=rng.choice([None, True]))
            for op in ("jTmjp", "jmjTp"):
                for td in (False, True):
                    for fd in (False, True):
                        drive(c, op, wrt, rng, g, fd, td, none=True, val=rng.choice([None, True]))
                drive(c, op, wrt, rng, g, rng.random() < 0.5, True, approx=True, none=True, val=rng.choice([None, True]))


CUSTOM_LEAVES = [
    (dict(t="custom", kind="quad", i=3, o=5), (3,)), (dict(t="custom", kind="quad", i=4, o=2), (4,)), (dict(t="custom", kind="quad", i=3, o=3), (3,)),
    (dict(t="custom", kind="bilin", i=5), (5,)), (dict(t="custom", kind="cumprod", i=4), (4,)), (dict(t="custom", kind="widen", i=3), (3,)),
    (dict(t="custom", kind="cube", i=4), (4,)), (dict(t="custom", kind="cube", i=6), (2, 3)), (dict(t="custom", kind="gain", i=4), (4,)),
    (dict(t="custom", kind="quad", i=1, o=1), (1,)), (dict(t="custom", kind="gain", i=1), (1,)), (dict(t="custom", kind="widen", i=1), (1,)),
    (dict(t="custom", kind="shift", i=4), (4,)), (dict(t="custom", kind="wrap", i=3, o=4), (3,)), (dict(t="custom", kind="wrap", i=4, o=2), (4,)),
]


def custom_nets():
    L = lambda i, o, b=True: dict(t="linear", i=i, o=o, bias=b)
    cu = lambda kind, **kw: dict(t="custom", kind=kind, **kw)
    seq = lambda *a: dict(t="seq", L=list(a))
    skip = lambda *a: dict(t="skip", L=list(a))
    T, G = act_s("Tanh"), act_s("Sigmoid")
    return [
        (seq(L(3, 4), cu("quad", i=4, o=3), T, L(3, 2)), (3,)),
        (seq(cu("bilin", i=4), T, L(3, 2)), (4,)),
        (seq(L(3, 4), cu("cumprod", i=4), cu("gain", i=4), L(4, 2)), (3,)),
        (skip(cu("quad", i=3, o=2), T), (3,)),
        (seq(skip(cu("bilin", i=3)), cu("quad", i=5, o=2)), (3,)),
        (seq(cu("cube", i=4), cu("widen", i=4), G), (4,)),
        (seq(seq(cu("gain", i=3)), skip(L(3, 3), cu("cumprod", i=3)), L(6, 1)), (3,)),
        (seq(cu("quad", i=3, o=4)), (3,)),
        (seq(cu("cumprod", i=3)), (3,)),
        (skip(cu("widen", i=2)), (2,)),
        (seq(dict(t="flatten"), cu("quad", i=6, o=3)), (2, 3)),
        (seq(cu("quad", i=3, o=4), dict(t="l2"), cu("bilin", i=4)), (3,)),
        (seq(cu("shift", i=3), cu("shift", i=3)), (3,)),
        (seq(cu("shift", i=3), T, skip(cu("shift", i=3), cu("gain", i=3)), cu("wrap", i=6, o=2)), (3,)),
        (seq(L(2, 4), cu("shift", i=4), dict(t="flatten"), cu("shift", i=4), G), (2,)),
        (seq(cu("wrap", i=3, o=3), cu("shift", i=3), L(3, 2)), (3,)),
    ]


CUSTOM_NETS = custom_nets()


class C18(ProductCheck):
    ops = oracle.PRODUCTS
    quick, thorough = 2250, 40000

    def setup(self, ctx):
        self.po = ProductOracle(ctx, self.ops)
        self.enum = CUSTOM_LEAVES * 3 + CUSTOM_NETS * 3

    def pick(self, rng, i):
        if i < len(self.enum):
            return self.enum[i]
        if rng.random() < 0.4:
            shape = (rng.randint(1, 7),)
            return gen.leaf(rng, shape, "custom", custom=True), shape
        for _ in range(60):
            s = gen.network(rng, fwd=rng.random() < 0.7, custom=True, rank=1)
            if any(t["t"] == "custom" for t in S.leaves(s[0])):
                return s
        return s

    def calls(self, ctx, c, rng, g):
        for wrt in ("input", "weight"):
            drive(c, "jacobian", wrt, rng, g, val=rng.choice([None, True]))
            for op in ("jvp", "vjp", "jmp", "mjp"):
                drive(c, op, wrt, rng, g, val=rng.choice([None, True]))
            for op in ("jmjTp", "jTmjp"):
                for fd, td in MODES:
                    drive(c, op, wrt, rng, g, fd, td, val=rng.choice([None, True]))
                drive(c, op, wrt, rng, g, True, True, approx=True, val=rng.choice([None, True]))


# --------------------------------------------------------------------------------------------------------------
# requests: one product call as data, so that the same call can be repeated on another model, sub-batch or dtype
# --------------------------------------------------------------------------------------------------------------
class Req:
    def __init__(self, op, wrt="input", m=None, fd=None, td=None, approx=None):
        self.op, self.wrt, self.m, self.fd, self.td, self.approx = op, wrt, m, fd, td, approx

    def on(self, model, x, val=None, m="own"):
        m = self.m if isinstance(m, str) else m
        f = getattr(model, self.op)
        if self.op == "jacobian":
            return f(x, val, wrt=self.wrt)
        kw = {k: v for k, v in (("from_diag", self.fd), ("to_diag", self.td), ("diag_backprop", self.approx)) if v is not None}
        return f(x, val, m, wrt=self.wrt, **kw)

    def __str__(self):
        s = f"{self.op}(wrt={self.wrt}"
        if self.fd is not None:
            s += f",from_diag={self.fd},to_diag={self.td}" + (",diag_backprop" if self.approx else "")
        return s + (",None" if self.m is None and self.op != "jacobian" else "") + ")"


def all_reqs(c, rng, g, ops=None):
    """All product requests that the module of a case supports."""
    out = []
    for wrt in ("input", "weight"):
        out.append(Req("jacobian", wrt))
        for op in ("vjp", "mjp", "jvp", "jmp"):
            if wrt == "weight" and c.n_par == 0 and op in ("jvp", "jmp"):
                continue
            out.append(Req(op, wrt, arg_for(c, op, wrt, rng, g)))
        for op in ("jTmjp", "jmjTp"):
            for fd, td in MODES:
                if wrt == "weight" and c.n_par == 0 and op == "jmjTp":
                    continue
                out.append(Req(op, wrt, arg_for(c, op, wrt, rng, g, fd), fd, td, False))
            if not (wrt == "weight" and c.n_par == 0 and op == "jmjTp"):
                out.append(Req(op, wrt, arg_for(c, op, wrt, rng, g, True), True, True, True))
    out = [r for r in out if (not ops or r.op in ops) and not oracle.may_refuse(c.spec, r.op)]
    return out


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as ex:
        return None, ex


def same(a, b, dtype, slack=10.0, scale=None):
    """Relational comparison of two results (tensors, nested lists, None)."""
    if a is None or b is None:
        return None if a is None and b is None else f"{type(a).__name__} versus {type(b).__name__}"
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return "different block structure"
        for s, t in zip(a, b):
            d = same(s, t, dtype, slack, scale)
            if d:
                return d
        return None
    e = b.detach().double()
    m = e.abs()
    if e.numel() and e.dim():
        m = m.reshape(e.shape[0], -1).max(dim=1).values.reshape(-1, *([1] * (e.dim() - 1))).expand(e.shape)
    return oracle.compare(a, e, m, dtype, slack=slack, floor=1.0 if scale is None else scale)


def sensible(c):
    """Reference magnitudes are moderate, so that relational tolerances are meaningful."""
    return c is not None


def some_case(ctx, rng, g, i, enum, b=None, dtype=None, x_kind=None, layout=None, **kw):
    if i < len(enum):
        spec, shape = enum[i]
    elif rng.random() < 0.3:
        spec, shape = rng.choice(enum)
    elif rng.random() < 0.2:
        shape = gen.in_shape(rng)
        spec = gen.leaf(rng, shape)
    else:
        spec, shape = gen.network(rng, **kw)
    if math.prod(shape) > 60 and b is None:
        b = rng.choice([1, 2])
    return mk(ctx, rng, g, spec, shape, b=b, dtype=dtype, x_kind=x_kind, layout=layout)


# --------------------------------------------------------------------------------------------------------------
def fresh_call(nnj, spec, w, x, req):
    return req.on(S.build_model(spec, nnj, w, D), x.clone(), None)


class Pristine:
    """A process forked before the first call; it forks one child per question, so every answer comes from a process in which
    nothing but that one call has happened."""

    def __init__(self, nnj):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                self.serve(nnj, os.fdopen(a, "rb"), os.fdopen(d, "wb"))
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.to, self.back = os.fdopen(b, "wb"), os.fdopen(c, "rb")

    @staticmethod
    def serve(nnj, inp, out):
        while True:
            try:
                q = pickle.load(inp)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    r, ex = attempt(fresh_call, nnj, *q)
                    pickle.dump((r, None if ex is None else (type(ex).__name__, str(ex))), out)
                    out.flush()
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, q):
        pickle.dump(q, self.to)
        self.to.flush()
        r, ex = pickle.load(self.back)
        return r, None if ex is None else RuntimeError(": ".join(ex))

    def close(self):
        self.to.close()
        os.waitpid(self.pid, 0)


class C10(Check):
    rule = ("an evaluation is one product call made after a random history and compared with the same call (val omitted) on a freshly built model with "
            "the same weights; distinct by structure, operation, history shape, val-given and sharing")
    quick, thorough = 950, 30000
    min_evaluations = 1000

    def setup(self, ctx):
        self.enum = NETS + LEAVES[::3]

        self.judged = 0
        self.pristine = Pristine(ctx.nnj)

    def finish(self, ctx):
        self.pristine.close()

    def build_shared(self, c, rng, ctx):
        """The same network, but equal parameter-free layers are one and the same object."""
        memo = {}

        def b(s):
            if s["t"] in ("seq", "skip"):
                kids = [b(t) for t in s["L"]]
                return (ctx.nnj.Sequential if s["t"] == "seq" else ctx.nnj.SkipConnection)(*kids)
            if S.n_params(s) == 0:
                key = json.dumps(s, sort_keys=True)
                if key not in memo:
                    memo[key] = S.build(s, ctx.nnj)
                return memo[key]
            return S.build(s, ctx.nnj)

        m = b(c.spec).to(c.dtype)
        S.load_flat(m, c.w)
        return m

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        c = some_case(ctx, rng, g, i, self.enum, dtype=D)
        if c is None:
            return
        if i % 9 == 8:
            return self.retained(ctx, c, rng, g)
        shared = rng.random() < 0.4
        model = self.build_shared(c, rng, ctx) if shared else c.model
        reqs = all_reqs(c, rng, g)
        rng.shuffle(reqs)
        other_net = None
        if c.spec["t"] == "seq" and rng.random() < 0.6:
            kids = list(model)
            kids = kids if rng.random() < 0.5 else kids[: rng.randint(1, max(1, len(kids)))]
            other_net = ctx.nnj.Sequential(*kids)
        val = None
        hist = []
        kept = []
        for req in reqs[:14]:
            # history
            hist = []
            if rng.random() < 0.6 or val is None:
                val = model(c.x).detach() if rng.random() < 0.7 else model(c.x)
                hist.append("fwd")
            for _ in range(rng.randint(0, 4)):
                h = rng.choice(["fwd", "fwdb", "prod", "inplace", "otherfwd", "otherprod", "sub", "grad", "nograd", "step", "relatives"])
                hist.append(h)
                y = torch.randn(c.b + rng.choice([0, 0, 1, 2]), *c.shape, generator=g, dtype=D)
                if h == "fwd":
                    model(y)
                elif h == "fwdb":
                    y2 = c.x + 1e-3 * torch.randn(c.x.shape, generator=g, dtype=D)
                    with torch.no_grad():
                        model(y2)
                elif h == "prod":
                    r2 = rng.choice(reqs)
                    attempt(r2.on, model, torch.randn(c.b, *c.shape, generator=g, dtype=D), None)
                elif h == "inplace":
                    # reuse one input buffer for different contents
                    buf = torch.randn(c.b, *c.shape, generator=g, dtype=D)
                    model(buf)
                    buf.copy_(c.x)
                    r3, e3 = attempt(req.on, model, buf, None)
                    self.judge(ctx, c, req, r3, e3, ["buffer refilled in place"], False, shared)
                elif h == "otherfwd" and other_net is not None:
                    other_net(y)
                elif h == "otherprod" and other_net is not None:
                    o = other_net(y)
                    attempt(other_net.vjp, y, o if rng.random() < 0.5 else None, torch.ones(y.shape[0], o[0].numel(), dtype=D), "input")
                elif h == "sub":
                    mods = [m for m in model.modules() if hasattr(m, "vjp") and m is not model]
                    if mods and c.spec["t"] in ("seq", "skip"):
                        ch = [m for m in model.modules() if m is not model and hasattr(m, "vjp")]
                        # the first layer accepts the network's own input
                        for m in ch[:2]:
                            attempt(m, y)
                elif h == "grad":
                    z = c.x.clone().requires_grad_(True)
                    model(z).sum().backward()
                elif h == "nograd":
                    with torch.no_grad():
                        model(c.x[:1])
                elif h == "relatives":
                    # modules of the same classes, made with other options and used
                    relatives(ctx.nnj, rng, g)
                elif h == "step":
                    # weights change and come back
                    S.load_flat(model, torch.randn(c.n_par, generator=g, dtype=D))
                    attempt(req.on, model, c.x, None)
                    S.load_flat(model, c.w)
            given = rng.random() < 0.6
            # either the object returned by the forward pass, an equal copy of it, or nothing
            v = None if not given else (val if rng.random() < 0.6 else val.detach().clone())
            x = c.x if rng.random() < 0.6 else c.x.clone()
            r, ex = attempt(req.on, model, x, v)
            self.judge(ctx, c, req, r, ex, hist, given, shared)
            if torch.is_tensor(r):
                kept.append((req, r, r.clone()))
        for req, r, before in kept:
            if not torch.equal(torch.nan_to_num(r), torch.nan_to_num(before)):
                ctx.violation(f"overwritten/{req.op}/{req.wrt}", f"the tensor returned by {req} on {c.text()} was changed by later calls")
                break
        ctx.notes["retained results re-read"] += len(kept)
        self.refill(ctx, c, model, reqs, rng, g, shared)
        # permanently changed weights: no val, then the new val
        if c.n_par and rng.random() < 0.5:
            model(c.x)
            w2 = torch.randn(c.n_par, generator=g, dtype=D) * 0.7
            how = rng.choice(["load", "data", "datacopy", "set_weight", "opt"])
            warm = rng.sample(reqs, min(4, len(reqs)))
            for req in warm:  # whatever is remembered about the old weights is now remembered
                attempt(req.on, model, c.x, None)
            if how == "datacopy":
                p = 0
                for par in model.parameters():
                    par.data.copy_(w2[p : p + par.numel()].reshape(par.shape))
                    p += par.numel()
            elif how == "set_weight":
                model.set_weight(w2.clone())
            elif how == "data":
                p = 0
                for par in model.parameters():
                    par.data = w2[p : p + par.numel()].reshape(par.shape).clone()
                    p += par.numel()
            elif how == "opt":
                opt = torch.optim.SGD(model.parameters(), lr=1.0)
                p = 0
                for par in model.parameters():
                    par.grad = (par.detach() - w2[p : p + par.numel()].reshape(par.shape)).clone()
                    p += par.numel()
                opt.step()
                w2 = S.read_flat(model)
            else:
                S.load_flat(model, w2)
            c2 = Case(ctx, c.spec, c.shape, c.b, D, c.x_kind, c.layout, rng, g, w=w2)
            c2.x = c.x
            ref2 = S.Ref(c.spec, c.x, w2)
            if S.kink_report(c.spec, ref2, c.x_kind, D) is None:
                for req in warm + rng.sample(reqs, min(3, len(reqs))):
                    given = rng.random() < 0.5
                    v = model(c.x).detach() if given else None
                    r, ex = attempt(req.on, model, c.x, v)
                    self.judge(ctx, c2, req, r, ex, ["weights:" + how], given, shared)

    def refill(self, ctx, c, model, reqs, rng, g, shared):
        """The same buffers (input, output and direction) hold other contents in the preceding call of the same pass."""
        for req in rng.sample(reqs, min(5, len(reqs))):
            buf = torch.randn(c.b, *c.shape, generator=g, dtype=D)
            given = rng.random() < 0.4
            m = snap(req.m)
            if torch.is_tensor(m):
                m = m.mul(rng.choice([-1.0, 2.0, 0.0])) + 0.25
            r2 = Req(req.op, req.wrt, m, req.fd, req.td, req.approx)
            val = model(buf).detach().clone() if given else None
            attempt(r2.on, model, buf, val)
            raw = rng.random() < 0.3  # also without the version counter of the tensor noticing
            (buf.data if raw else buf).copy_(c.x)
            if torch.is_tensor(m):
                (m.data if raw else m).copy_(req.m)
            if given:
                val.copy_(model(c.x).detach())
            r, ex = attempt(r2.on, model, buf, val)
            ctx.notes["refilled buffers"] += 1
            self.judge(ctx, c, req, r, ex, ["same buffers, same pass, other contents"], given, shared)

    def judge(self, ctx, c, req, r, ex, hist, given, shared):
        self.judged += 1
        if self.judged % 5 == 0:  # the history of the whole process is out of the way, too
            e, eex = self.pristine.ask((c.spec, c.w, c.x.detach(), req))
            ctx.notes["judged by a process that has made no call before"] += 1
        else:
            with ctx.mon.paused():
                e, eex = attempt(fresh_call, ctx.nnj, c.spec, c.w, c.x.detach(), req)
        key = f"{req.op}/{req.wrt}/{'val' if given else 'none'}/{'shared' if shared else 'own'}/{S.signature(c.spec)}"
        if eex is not None and ex is not None:
            ctx.inconclusive["call raises on a fresh model too"] += 1
            return
        what = f"{req} with val {'given' if given else 'omitted'} after {hist} on {c.text()}" + (" (shared layer objects)" if shared else "")
        ctx.evaluated((key, tuple(hist), c.b), sample=dict(call=str(req), history=hist, val_given=given, network=c.text()))
        if ex is not None:
            ctx.violation(key, f"{what} raised {type(ex).__name__}: {str(ex)[:200]}, a fresh model answers")
        elif eex is not None:
            ctx.violation(key, f"{what} answers, a fresh model raises {type(eex).__name__}: {str(eex)[:200]}")
        else:
            d = same(r, e, D, scale=oracle.floor_of(req.m))
            if d:
                ctx.violation(key, f"{what} differs from a fresh model: {d}")

    def retained(self, ctx, c, rng, g):
        reqs = all_reqs(c, rng, g)
        rng.shuffle(reqs)
        for req in reqs[:3]:
            given, new = rng.random() < 0.5, rng.random() < 0.5

            def once():
                y = c.x.clone() if new else c.x
                q = Req(req.op, req.wrt, map_m(req.m, torch.clone) if new else req.m, req.fd, req.td, req.approx)
                attempt(q.on, c.model, y, c.model(y) if given else None)

            a, b, z = retained_growth(once, 3, 6)
            ctx.evaluated(("retained", S.signature(c.spec), req.op, req.wrt, given, new))
            ctx.notes["retention probes"] += 1
            if z > b > a:
                ctx.violation(f"retained/{req.op}", f"repeating {req} (val {'given' if given else 'omitted'}) on {c.text()} retains tensors: {a} -> {b} -> {z} live tensors")


def relatives(nnj, rng, g):
    """Makes and uses modules of every class with options of all kinds."""
    b = rng.randint(1, 3)
    flat, img = torch.randn(b, 6, generator=g, dtype=D), torch.randn(b, 2, 4, 4, generator=g, dtype=D)
    makers = [
        (lambda: nnj.L2Norm(eps=rng.choice([1e-9, 1e-3, 0.7])), flat), (lambda: nnj.Softplus(beta=rng.choice([0.3, 3.0]), threshold=rng.choice([0.1, 5.0])), flat),
        (lambda: nnj.Conv2d(2, 3, rng.choice([1, 2, 3]), padding=rng.choice([0, 0, 1]), bias=rng.random() < 0.5, do_vmap=rng.random() < 0.5), img), (lambda: nnj.MaxPool2d(rng.choice([1, 2, 3]), stride=rng.choice([1, 2])), img),
        (lambda: nnj.Upsample(scale_factor=rng.choice([1, 2, 3])), img), (lambda: nnj.Linear(6, rng.randint(1, 4), bias=rng.random() < 0.5), flat),
        (lambda: nnj.Reshape(*rng.choice([(2, 3), (3, 2), (6,), (1, 2, 3)])), flat), (lambda: nnj.Flatten(), img), (lambda: nnj.Sequential(nnj.Linear(6, 3), nnj.Tanh(), add_hooks=rng.random() < 0.5), flat),
        (lambda: nnj.SkipConnection(nnj.Linear(6, 2), nnj.Sigmoid(), add_hooks=rng.random() < 0.5), flat), (lambda: getattr(nnj, rng.choice(["Tanh", "ReLU", "Sigmoid", "Sinusoidal", "TruncExp"]))(), flat),
    ]
    for mk, y in rng.sample(makers, rng.randint(1, 4)):
        m, ex = attempt(mk)
        if m is None:
            continue
        m = m.to(D)
        o, ex = attempt(m, y)
        if o is not None:
            attempt(m.vjp, y, o if rng.random() < 0.5 else None, torch.ones(b, o[0].numel(), dtype=D), rng.choice(["input", "weight"]))
            attempt(m.jTmjp, y, None, None, rng.choice(["input", "weight"]))


def map_m(m, f):
    return [map_m(t, f) for t in m] if isinstance(m, (list, tuple)) else (m if m is None else f(m))


def live_tensors():
    gc.collect()
    n = 0
    for o in gc.get_objects():
        try:
            if issubclass(type(o), torch.Tensor):
                n += 1
        except Exception:
            pass
    return n


def retained_growth(once, warm, reps):
    for _ in range(warm):
        once()
    a = live_tensors()
    for _ in range(reps):
        once()
    b = live_tensors()
    for _ in range(reps):
        once()
    return a, b, live_tensors()


# --------------------------------------------------------------------------------------------------------------
class C11(Check):
    rule = ("an evaluation is one top-level call around which arguments, parameters, gradients, flags, modes, RNG state and global settings were snapshotted "
            "and compared bit by bit; distinct by structure, operation, mode, val-given and result kind")
    quick, thorough = 2400, 30000
    min_evaluations = 2000

    def setup(self, ctx):
        self.enum = NETS + LEAVES[::2] + CUSTOM_NETS[:4] + CUSTOM_NETS[-4:] + CUSTOM_LEAVES[-3:]
        ctx.mon.before.append(self.before)
        ctx.mon.after.append(self.after)
        self.ctx = ctx
        self.s = None
        self.watch = []

    def args_of(self, e):
        out = []

        def rec(name, v):
            if torch.is_tensor(v):
                out.append((name, v))
            elif isinstance(v, (list, tuple)):
                for k, t in enumerate(v):
                    rec(f"{name}[{k}]", t)

        for k, v in enumerate(e.args):
            rec(f"arg{k}", v)
        for k, v in e.kwargs.items():
            rec(k, v)
        return out

    def lists_of(self, v):
        out = []
        for t in v:
            if isinstance(t, list):
                out += [t] + self.lists_of(t)
        return out

    @staticmethod
    def globals():
        return dict(threads=torch.get_num_threads(), deterministic=torch.are_deterministic_algorithms_enabled(), device=torch.get_default_device(),
                    anomaly=torch.is_anomaly_enabled(), autocast=torch.is_autocast_enabled("cpu"), multithreading=torch.autograd.is_multithreading_enabled(),
                    flush=torch.get_float32_matmul_precision(), warn=len(warnings.filters), err=torch.is_warn_always_enabled(),
                    denormals=(torch.tensor(5e-310, dtype=D) * torch.tensor(0.5, dtype=D)).item() > 0, fill=torch.utils.deterministic.fill_uninitialized_memory,
                    mkldnn=torch.backends.mkldnn.enabled, cudnn=(torch.backends.cudnn.enabled, torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic),
                    tf32=(torch.backends.cuda.matmul.allow_tf32, torch.backends.cudnn.allow_tf32), einsum=(torch.backends.opt_einsum.enabled, torch.backends.opt_einsum.strategy),
                    printing=dict(vars(torch._tensor_str.PRINT_OPTS)), cwd=os.getcwd(), environ=dict(os.environ), path=list(sys.path), recursion=sys.getrecursionlimit(),
                    gc=gc.isenabled(), alive=threading.active_count())

    def state(self, e):
        pars, mods = [], []
        for root in [e.obj] + [a for a in list(e.args) + list(e.kwargs.values()) if isinstance(a, torch.nn.Module)] + self.watch:
            pars += [(n, p) for n, p in root.named_parameters()]
            mods += list(root.modules())
        return dict(
            versions=[(n, t, t._version) for n, t in self.args_of(e) + pars if not t.is_inference()],
            args=[(n, t, t.detach().clone(), t.shape, t.requires_grad, None if not t.is_leaf or t.grad is None else t.grad.clone()) for n, t in self.args_of(e)],
            lists=[(v, list(v)) for v in self.lists_of(list(e.args) + list(e.kwargs.values()))],
            pars=[(n, p, p.detach().clone(), p.requires_grad, None if p.grad is None else p.grad.clone()) for n, p in pars],
            train=[(m, m.training) for m in mods],
            hooks=[(m, len(m._forward_hooks), len(m._forward_pre_hooks), len(m._backward_hooks)) for m in mods],
            bufs=[(b, b.clone()) for m in mods for b in m.buffers(recurse=False)],
            kids=[(m, list(m._modules.items()), [id(p) for p in m._parameters.values()]) for m in mods],
            glob=self.globals(),
            rng=torch.random.get_rng_state(), py=random.getstate(),
            dd=torch.get_default_dtype(), gm=torch.is_grad_enabled(), inf=torch.is_inference_mode_enabled(),
        )

    def before(self, e):
        self.s = self.state(e)

    def after(self, e):
        s, ctx = self.s, self.ctx
        if s is None:
            return
        self.s = None
        bad = []
        eq = lambda a, b: a.shape == b.shape and a.dtype == b.dtype and torch.equal(torch.nan_to_num(a.detach(), nan=1.25), torch.nan_to_num(b, nan=1.25))
        setw = e.op == "set_weight"
        for n, t, old, shape, rg, gr in s["args"]:
            if not eq(t, old):
                bad.append(f"argument {n} was modified")
            if t.requires_grad != rg:
                bad.append(f"requires_grad of argument {n} changed")
            if t.is_leaf and ((t.grad is None) != (gr is None) or (gr is not None and not torch.equal(t.grad, gr))):
                bad.append(f".grad of argument {n} changed")
        if not setw:
            for n, t, ver in s["versions"]:
                if t._version != ver:
                    bad.append(f"{n} was written to in place")
        for v, old in s["lists"]:
            if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                bad.append("a list argument was modified")
        if not setw:
            for n, p, old, rg, gr in s["pars"]:
                if not eq(p, old):
                    bad.append(f"parameter {n} was modified")
                if p.requires_grad != rg:
                    bad.append(f"requires_grad of parameter {n} changed")
                if (p.grad is None) != (gr is None) or (gr is not None and not torch.equal(p.grad, gr)):
                    bad.append(f"gradient of parameter {n} changed")
        if any(m.training != t for m, t in s["train"]):
            bad.append("train/eval mode changed")
        if any((len(m._forward_hooks), len(m._forward_pre_hooks), len(m._backward_hooks)) != (a, b, c) for m, a, b, c in s["hooks"]):
            bad.append("hooks were added to or removed from a module")
        if any(not eq(b, old) for b, old in s["bufs"]):
            bad.append("a buffer was modified")
        if any(list(m._modules.items()) != k or [id(p) for p in m._parameters.values()] != q for m, k, q in s["kids"]) and not setw:
            bad.append("the module's layers or parameter objects were exchanged")
        now = self.globals()
        if now != s["glob"]:
            bad.append("global settings changed: " + ", ".join(k for k in now if now[k] != s["glob"][k]))
        if not torch.equal(torch.random.get_rng_state(), s["rng"]) or random.getstate() != s["py"]:
            bad.append("random generator state changed")
        if torch.get_default_dtype() != s["dd"]:
            bad.append("default dtype changed")
            torch.set_default_dtype(s["dd"])
        if torch.is_grad_enabled() != s["gm"]:
            bad.append("grad mode changed")
            torch.set_grad_enabled(s["gm"])
        if torch.is_inference_mode_enabled() != s["inf"]:
            bad.append("inference mode changed")
        if e.op not in ("forward",) and e.exc is None:
            given = {t.untyped_storage().data_ptr() for _, t, *_ in s["args"] if t.numel()}
            weights = {p.untyped_storage().data_ptr() for _, p, *_ in s["pars"] if p.numel()}
            for t in oracle.flatten_list(e.result) if isinstance(e.result, list) else [e.result]:
                if not torch.is_tensor(t) or not t.numel():
                    continue
                ptr = t.untyped_storage().data_ptr()
                if e.op != "set_weight" and ptr in weights and ptr not in given:
                    bad.append("the result shares memory with a parameter")
                    break
                # a pass that is the identity may hand back the very direction it was given
                if (t.requires_grad or t.grad_fn is not None) and ptr not in given:
                    bad.append("the result carries an autograd graph")
                    break
        key = f"{e.op}/{e.named.get('wrt')}/{type(e.obj).__name__}"
        ctx.evaluated((key, self.sig, e.exc is None, bool(e.named.get("from_diag")), bool(e.named.get("to_diag")), e.named.get("val") is not None),
                      sample=dict(call=key, network=self.text, arguments_snapshotted=len(s["args"]), parameters_snapshotted=len(s["pars"]), verdict=bad or "unchanged"))
        if e.exc is not None:
            ctx.notes["calls that raised (state still checked)"] += 1
        for m in bad[:1]:
            ctx.violation(f"{m.split(' ')[0]}/{key}", f"{e.op}(wrt={e.named.get('wrt')}) on {self.text}: " + "; ".join(bad[:4]))

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        c = some_case(ctx, rng, g, i, self.enum, custom=rng.random() < 0.2)
        if c is None:
            return
        self.sig, self.text, self.watch = S.signature(c.spec), c.text(), [c.model]
        torch.manual_seed(seed & 0xFFFF)
        # hostile but legitimate surroundings: accumulated gradients, mixed flags, train/eval, grad mode on and off
        for k, p in enumerate(c.model.parameters()):
            if rng.random() < 0.7:
                p.grad = torch.randn(p.shape, generator=g, dtype=D).to(p.dtype)
            if rng.random() < 0.3:
                p.requires_grad_(False)
        c.model.train(rng.random() < 0.5)
        for m in c.model.modules():
            if rng.random() < 0.1:
                m.training = not m.training
        if rng.random() < 0.5:
            c.x = c.x.detach().clone().requires_grad_(True)
            if rng.random() < 0.5:
                c.x.grad = torch.ones_like(c.x)
        reqs = all_reqs(c, rng, g)
        rng.shuffle(reqs)
        for req in reqs[:12]:
            gm = rng.random() < 0.7
            if rng.random() < 0.3 and torch.is_tensor(req.m):
                req.m = req.m.detach().clone().requires_grad_(True)
            if rng.random() < 0.2 and req.op not in ("jvp", "vjp", "jacobian"):
                req.m = None
                if req.fd is not None:
                    req.fd = req.fd or req.approx
            with torch.set_grad_enabled(gm):
                val = None
                if rng.random() < 0.6:
                    val = c.model(c.x)
                    if rng.random() < 0.5:
                        val = val.detach()
                attempt(req.on, c.model, c.x, val)
                if rng.random() < 0.15:  # a call that has to fail half-way leaves everything as it was, too
                    self.misuse(c, req, val, rng, g)
        attempt(c.model.get_weight)
        if c.n_par:
            attempt(c.model.set_weight, torch.randn(c.n_par, generator=g, dtype=D).to(c.dtype))
        if c.n_par and c.spec["t"] == "seq":
            self.likelihoods(ctx, c, rng, g)
        if i % 5 == 0:
            self.conversion(ctx, rng, g)

    def misuse(self, c, req, val, rng, g):
        how = rng.choice(["wrt", "short", "wide", "input"])
        m, x, wrt = snap(req.m), c.x, req.wrt
        if how == "wrt":
            wrt = "weights"
        elif how == "input":
            x = torch.randn(c.b, *[n + 1 for n in c.shape], generator=g, dtype=D).to(c.dtype)
        elif torch.is_tensor(m):
            n = m.shape[-1] + (1 if how == "wide" else -1)
            m = torch.randn(*m.shape[:-1], max(n, 0), generator=g, dtype=D).to(c.dtype)
        attempt(Req(req.op, wrt, m, req.fd, req.td, req.approx).on, c.model, x, val)

    def likelihoods(self, ctx, c, rng, g):
        nnj = ctx.nnj
        o = (c.b, *S.out_shape(c.spec, c.shape))
        for cls in ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"):
            lik, ex = attempt(getattr(nnj, cls), rng.choice(["sum", "average"]), rng.choice(["full", "diag"]), "exact")
            if lik is None:
                continue
            t = torch.rand(o, generator=g, dtype=D).to(c.dtype)
            attempt(lik.forward, c.x, c.model, t)
            attempt(lik.gradient, c.x, c.model, t, rng.choice(["weight", "input"]))
            attempt(lik.ggn, c.x, c.model, t, rng.choice(["weight", "input"]))

    def conversion(self, ctx, rng, g):
        spec, shape = gen.torch_network(rng)
        tm = S.build_torch(spec).double()
        S.load_flat(tm, gen.weights(spec, g, rng))
        for p in tm.parameters():
            p.grad = torch.ones_like(p)
            p.requires_grad_(rng.random() < 0.5)
        tm.train(rng.random() < 0.5)
        tag = tm
        before = [(n, p, p.detach().clone(), p.requires_grad, p.grad.clone()) for n, p in tm.named_parameters()]
        n_mod, training = [type(m) for m in tm.modules()], [m.training for m in tm.modules()]
        rs = torch.random.get_rng_state()
        conv, ex = attempt(ctx.nnj.convert_to_nnj, tm)
        if conv is None:
            return
        x = torch.randn(2, *shape, generator=g, dtype=D)
        o = conv(x)
        attempt(conv.vjp, x, None, torch.ones(2, o[0].numel(), dtype=D), "weight")
        attempt(conv.jTmjp, x, None, None, "weight", True, True)
        bad = []
        now = list(tm.named_parameters())
        if [n for n, *_ in before] != [n for n, _ in now]:
            bad.append("parameters of the converted torch model changed")
        for (n, p, old, rg, gr), (_, q) in zip(before, now):
            if q is not p or not torch.equal(q.detach(), old) or q.requires_grad != rg or q.grad is None or not torch.equal(q.grad, gr):
                bad.append(f"parameter {n} of the torch model changed")
        if [type(m) for m in tm.modules()] != n_mod or [m.training for m in tm.modules()] != training:
            bad.append("modules or modes of the torch model changed")
        if any(len(m._forward_hooks) for m in tm.modules()):
            bad.append("hooks were left on the torch model")
        ctx.evaluated(("convert", S.signature(spec)))
        ctx.notes["conversions"] += 1
        if bad:
            ctx.violation("convert", f"convert_to_nnj({S.describe(spec)}): " + "; ".join(bad[:3]))


# --------------------------------------------------------------------------------------------------------------
class C12(Check):
    rule = ("an evaluation is one batched call compared with the calls on its sub-batches, permutation or duplicates; distinct by structure, operation, "
            "mode, batch size and regrouping")
    quick, thorough = 3000, 30000
    min_evaluations = 1500

    def setup(self, ctx):
        self.enum = NETS + LEAVES[::2] + CUSTOM_NETS[:4] + CUSTOM_NETS[-4:] + CUSTOM_LEAVES[-3:]
        # few numbers per sample, for batches beyond a hundred samples
        small = [s for s in LEAVES + NETS + CUSTOM_NETS if self.size(s) <= 120]
        random.Random(5).shuffle(small)
        first = {}
        for s in small:  # every kind of layer and of network early
            first.setdefault(S.signature(s[0]) if s[0]["t"] in ("seq", "skip") else str((s[0]["t"], s[0].get("n"), s[0].get("bias"), s[0].get("vmap"))), s)
        self.small = list(first.values()) + [s for s in small if all(s is not f for f in first.values())]

    @staticmethod
    def size(s):
        spec, shape = s
        n = max(math.prod(shape), S.n_params(spec), 1)
        return n * max(math.prod(S.out_shape(spec, shape)), 1)

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        enum, b = self.enum, rng.choice([2, 3, 4, 5, 8, 9, 13, 33]) if rng.random() < 0.95 else 65
        huge = i % 9 == 5
        if huge:
            i, enum, b = (i // 9) % len(self.small), self.small, rng.choice([129, 130, 257, 300, 513, 700, 1025])
        c = some_case(ctx, rng, g, i, enum, b=b,
                      x_kind=rng.choice(["normal", "normal", "mixed", "mixed", "sparse", "big", "offset", "neg"]), dtype=D)
        if c is None:
            return
        reqs = all_reqs(c, rng, g)
        rng.shuffle(reqs)
        fw = Req("forward")
        for req in [fw] + reqs[: (10 if c.b < 20 else 6 if huge else 4)]:
            run = (lambda x, m: c.model(x).detach()) if req is fw else (lambda x, m: req.on(c.model, x, c.model(x).detach() if given else None, m))
            given = rng.random() < 0.5
            whole, ex = attempt(run, c.x, req.m)
            groups = self.regroup(rng, c.b)
            for name, idx_lists in groups:
                for idx in idx_lists:
                    t = torch.tensor(idx)
                    part, ex2 = attempt(run, c.x[t], take(req.m, t))
                    if ex is not None and ex2 is not None:
                        ctx.inconclusive["both raise"] += 1
                        continue
                    key = f"{req.op}/{req.wrt}/{name}/{S.signature(c.spec)}"
                    ctx.evaluated((key, c.b, len(idx), req.fd, req.td, req.approx), sample=dict(call=str(req), regrouping=name, samples=idx[:8], network=c.text()))
                    if (ex is None) != (ex2 is None):
                        ctx.violation(key, f"{req} on {c.text()}: the whole batch {'raises ' + repr(ex)[:150] if ex else 'answers'}, samples {idx[:8]} {'raise ' + repr(ex2)[:150] if ex2 else 'answer'}")
                        return
                    d = same(part, take(whole, t), D, scale=oracle.floor_of(req.m))
                    if d:
                        ctx.violation(key, f"{req} on {c.text()}: {name} {idx[:8]} computed alone differs from the batch: {d}")
                        return
            # poisoning one sample must not change the others
            if c.b > 1 and rng.random() < 0.5 and ex is None:
                k = rng.randrange(c.b)
                x2 = c.x.detach().clone()
                x2[k] = torch.randn(c.shape, generator=g, dtype=D) * rng.choice([0.3, 1.0])
                keep = torch.tensor([j for j in range(c.b) if j != k])
                r2, ex2 = attempt(run, x2, req.m)
                if ex2 is None:
                    d = same(take(r2, keep), take(whole, keep), D, scale=oracle.floor_of(req.m))
                    ctx.evaluated((f"{req.op}/{req.wrt}/poison/{S.signature(c.spec)}", c.b))
                    if d:
                        ctx.violation(f"{req.op}/{req.wrt}/poison/{S.signature(c.spec)}", f"{req} on {c.text()}: changing sample {k} changed the result of another sample: {d}")
                        return

    def regroup(self, rng, b):
        out = [("singletons", [[k] for k in (range(b) if b <= 9 else rng.sample(range(b), 6) + [0, b - 1])])]
        p = list(range(b))
        rng.shuffle(p)
        out.append(("permutation", [p]))
        if b > 2:
            s = rng.randint(1, b - 1)
            out.append(("split", [list(range(s)), list(range(s, b))]))
        out.append(("duplicates", [[rng.randrange(b) for _ in range(b + 1)]]))
        rng.shuffle(out)
        return out[:2]


def take(v, t):
    if torch.is_tensor(v):
        return v[t]
    if isinstance(v, (list, tuple)):
        return [take(s, t) for s in v]
    return v


# --------------------------------------------------------------------------------------------------------------
class C13(Check):
    rule = ("an evaluation is one result whose dtype and precision were checked: float64 results must match the float64 reference to 1e-9 whenever the "
            "float32 run of the same call agrees with it to float32 accuracy; distinct by structure, operation, mode and dtype")
    quick, thorough = 1500, 30000
    min_evaluations = 2000

    def setup(self, ctx):
        self.enum = LEAVES + NETS + CUSTOM_NETS[:3]
        self.sub = None

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        c = some_case(ctx, rng, g, i, self.enum, dtype=D, layout="plain", x_kind=rng.choice(["normal", "normal", "normal", "offset", "neg", "small", "big"]))
        if c is None:
            return
        m32 = S.build_model(c.spec, ctx.nnj, c.w, F32)
        x32 = c.x.float()
        if rng.random() < 0.3:
            # a model cast after construction and use, as users do
            m = S.build(c.spec, ctx.nnj)
            m(x32)
            m = m.double()
            S.load_flat(m, c.w)
            c.model = m
        reqs = all_reqs(c, rng, g)
        nones = [Req(r.op, r.wrt, None, True if r.approx else r.fd, r.td, r.approx) for r in reqs if r.op in ("jmp", "mjp", "jTmjp", "jmjTp")]
        reqs = [Req("forward")] + reqs + rng.sample(nones, min(5, len(nones)))
        for req in reqs:
            given = rng.random() < 0.5
            if req.op == "forward":
                f64 = lambda: c.model(c.x).detach()
                f32 = lambda: m32(x32).detach()
            else:
                f64 = lambda: req.on(c.model, c.x, c.model(c.x).detach() if given else None)
                f32 = lambda: req.on(m32, x32, m32(x32).detach() if given else None, cast(req.m, F32))
            r64, e64 = attempt(f64)
            r32, e32 = attempt(f32)
            self.judge(ctx, c, req, r64, e64, r32, e32)
        if i % 4 == 0 and c.n_par and c.spec["t"] == "seq":
            self.likelihoods(ctx, c, m32, rng, g)
        if i % 6 == 1:
            self.conversion(ctx, rng, g)
        if i % 3 == 2:
            self.half(ctx, c, reqs, rng, g)
        w, ex = attempt(c.model.get_weight)
        if c.n_par:
            ctx.evaluated(("get_weight", S.signature(c.spec)))
            if ex is not None or w.dtype != D:
                ctx.violation("get_weight", f"get_weight of a float64 model gives {ex or w.dtype}")

    def half(self, ctx, c, reqs, rng, g):
        """bfloat16 and float16 models: every call that works in float64 works, keeps the dtype and the shape."""
        dt = rng.choice([torch.bfloat16, torch.float16])
        m, x = S.build_model(c.spec, ctx.nnj, c.w, dt), c.x.to(dt)
        if not bool(torch.isfinite(x).all()):
            return
        for req in rng.sample(reqs, min(8, len(reqs))):
            given = rng.random() < 0.5
            if req.op == "forward":
                full, low = lambda: c.model(c.x), lambda: m(x)
            else:
                full, low = lambda: req.on(c.model, c.x, None), lambda: req.on(m, x, m(x).detach() if given else None, cast(req.m, dt))
            r, ex = attempt(full)
            if ex is not None:
                continue
            h, ex = attempt(low)
            key = f"half/{dt}/{req}/{S.signature(c.spec)}"
            ctx.evaluated((key,))
            ctx.notes[f"results in {str(dt)[6:]}"] += 1
            if ex is not None:
                ctx.violation(key, f"{req} on {c.text()} fails for a {dt} model: {type(ex).__name__}: {str(ex)[:160]}")
                return
            if [t.shape for t in tensors(h)] != [t.shape for t in tensors(r)] or any(t.dtype != dt for t in tensors(h)):
                ctx.violation(key, f"{req} on {c.text()} gives {[(str(t.dtype), tuple(t.shape)) for t in tensors(h)][:4]} for a {dt} model")
                return
        if c.n_par:
            h, ex = attempt(m.get_weight)
            if ex is not None or h.dtype != dt:
                ctx.violation(f"half/{dt}/get_weight", f"get_weight of a {dt} model gives {ex or h.dtype}")
            if c.spec["t"] == "seq":
                y = m(x).detach()
                cls = rng.choice(["LogGaussian", "LogBinaryBernoulli", "LogBernoulli"])
                agg, shape, way = rng.choice(["return all", "sum", "average"]), rng.choice(["full", "diag"]), rng.choice(["exact", "approx"])
                if way == "approx":
                    shape = "diag"
                L = getattr(ctx.nnj, cls)(agg, shape, way)
                t = torch.softmax(torch.randn(y.shape, generator=g), -1).to(dt)
                for name, f in (("value", lambda: L(x, m, t)), ("gradient", lambda: L.gradient(x, m, t)), ("ggn", lambda: L.ggn(x, m, t))):
                    h, ex = attempt(f)
                    key = f"half/{dt}/{cls}/{name}/{agg}/{shape}/{way}"
                    ctx.evaluated((key, S.signature(c.spec)))
                    if ex is not None or not tensors(h) or any(q.dtype != dt for q in tensors(h)):
                        ctx.violation(key, f"{name} of {cls}({agg}, {shape}, {way}) on {c.text()} with a {dt} model: {repr(ex)[:200] if ex is not None else [str(q.dtype) for q in tensors(h)][:4]}")
                        return

    def judge(self, ctx, c, req, r64, e64, r32, e32, label=None, exp=None):
        key = f"{label or req}/{S.signature(c.spec)}"
        text = f"{label or req} on {c.text()}"
        if e64 is not None and e32 is not None:
            ctx.inconclusive["raises in both precisions"] += 1
            return
        ctx.evaluated((key, c.b), sample=dict(call=str(label or req), network=c.text(), dtypes=[str(t.dtype) for t in tensors(r64)[:1] + tensors(r32)[:1]]))
        if e64 is not None:
            ctx.violation(key, f"{text} fails in float64 ({type(e64).__name__}: {str(e64)[:160]}) but works in float32")
            return
        if e32 is not None:
            ctx.violation(key, f"{text} fails in float32 ({type(e32).__name__}: {str(e32)[:160]}) but works in float64")
            return
        for r, dt in ((r64, D), (r32, F32)):
            for t in tensors(r):
                if t.dtype != dt:
                    ctx.violation(key, f"{text}: result is {t.dtype} for a {dt} model")
                    return
        # precision: error against the reference in the band that only lost precision explains
        if exp is None:
            if req.op == "forward":
                e = c.ref.val()
                b = e.abs()
            else:
                e, b = oracle.expected(c.spec, c.ref, req.op, req.wrt, req.m, bool(req.fd), bool(req.td), bool(req.approx), loose=True)
        else:
            e, b = exp
        if e is None:
            return
        fl = oracle.floor_of(req.m) if req is not None else 1.0
        for t, ee, bb in zip(tensors(r64), oracle.flatten_list(e) if isinstance(e, list) else [e], oracle.flatten_list(b) if isinstance(b, list) else [b]):
            if t.shape != ee.shape or not t.numel():
                continue
            n = ee.shape[0] if ee.dim() else 1
            err = (t - ee).abs().reshape(n, -1).max(dim=1).values
            sc = bb.reshape(n, -1).max(dim=1).values + fl
            rel = (err / sc)
            worst = rel.max().item()
            ctx.notes["precision comparisons"] += 1
            if 1e-9 < worst < 3e-5:
                ctx.violation(key, f"{text}: float64 result only accurate to {worst:.1e} (float32-level rounding)")
                return

    def likelihoods(self, ctx, c, m32, rng, g):
        nnj = ctx.nnj
        o = (c.b, *S.out_shape(c.spec, c.shape))
        for cls in ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"):
            agg, ms = rng.choice(["sum", "average", "return all"]), rng.choice(["full", "diag"])
            lik, ex = attempt(getattr(nnj, cls), agg, ms, "exact")
            if lik is None:
                continue
            t = torch.rand(o, generator=g, dtype=D)
            for meth, args in (("forward", ()), ("gradient", ("weight",)), ("gradient", ("input",)), ("ggn", ("weight",)), ("ggn", ("input",))):
                a, e1 = attempt(getattr(lik, meth), c.x, c.model, t, *args)
                b, e2 = attempt(getattr(lik, meth), c.x.float(), m32, t.float(), *args)
                if e1 is None and a is None:
                    continue
                self.judge(ctx, c, None, a, e1, b, e2, label=f"{cls}.{meth}{args}[{agg},{ms}]", exp=(None, None))

    def conversion(self, ctx, rng, g):
        spec, shape = gen.torch_network(rng)
        tm = S.build_torch(spec).double()
        S.load_flat(tm, gen.weights(spec, g, rng))
        m, ex = attempt(ctx.nnj.convert_to_nnj, tm)
        if m is None:
            return
        x = torch.randn(2, *shape, generator=g, dtype=D)
        y, ex = attempt(m, x)
        ctx.evaluated(("convert", S.signature(spec)))
        bad = [p.dtype for p in m.parameters() if p.dtype != D]
        if ex is not None or bad or y.dtype != D:
            ctx.violation("convert", f"conversion of a float64 {S.describe(spec)} gives {ex or bad or y.dtype}")
            return
        e = tm(x).detach()
        if y.shape == e.shape:
            worst = ((y - e).abs().max() / (1 + e.abs().max())).item()
            if 1e-9 < worst < 3e-5:
                ctx.violation("convert", f"conversion of a float64 {S.describe(spec)} only accurate to {worst:.1e}")


def tensors(r):
    if torch.is_tensor(r):
        return [r]
    if isinstance(r, (list, tuple)):
        return [t for s in r for t in tensors(s)]
    return []


def cast(m, dt):
    if torch.is_tensor(m):
        return m.to(dt)
    if isinstance(m, (list, tuple)):
        return [cast(t, dt) for t in m]
    return m


# --------------------------------------------------------------------------------------------------------------
def smooth(spec):
    for s in S.leaves(spec):
        if s["t"] == "pool" or (s["t"] == "act" and (s["n"] == "ReLU" or (s["n"] == "Softplus" and s.get("threshold", 20) < 15))):
            return False
    return True


class C14(Check):
    rule = ("an evaluation is one coordinate-consistency, round-trip, aliasing or finite-step observation on one model; distinct by structure and kind of "
            "observation")
    quick, thorough = 1750, 30000
    min_evaluations = 1500

    def setup(self, ctx):
        self.enum = [(s, sh) for s, sh in NETS + LEAVES + CUSTOM_NETS + CUSTOM_LEAVES + BIG_LEAVES if S.n_params(s)]

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        for _ in range(20):
            c = some_case(ctx, rng, g, i, self.enum, custom=rng.random() < 0.2, layout="plain", x_kind=rng.choice(["normal", "offset", "small"]))
            if c is not None and c.n_par:
                break
        else:
            return
        m, P, sig = c.model, c.n_par, S.signature(c.spec)
        frozen = rng.random() < 0.35
        if frozen:
            for p in m.parameters():
                if rng.random() < 0.5:
                    p.requires_grad_(False)
            c.ambient = "partly frozen"
            ctx.notes["partly frozen"] += 1

        def bad(what, msg):
            ctx.violation(f"{what}/{sig}", f"{what} on {c.text()}: {msg}")

        def obs(what):
            ctx.evaluated((what, sig, c.b, str(c.dtype), frozen), sample=dict(observation=what, network=c.text(), parameters=P))
            ctx.notes[what] += 1

        def params():
            return torch.cat([p.detach().reshape(-1) for p in m.parameters()])

        try:
            w = m.get_weight()
            obs("get_weight order")
            if w.shape != (P,) or not torch.equal(w, c.w):
                return bad("get_weight", "is not the flat parameter vector")
            if w.requires_grad:
                bad("get_weight", "carries an autograd graph")
            # snapshot out
            w.mul_(-3).add_(1)
            obs("vector from get_weight is a snapshot")
            if not torch.equal(params(), c.w):
                return bad("get_weight", "writing to the returned vector changed the module")
            w = m.get_weight()
            with torch.no_grad():
                for p in m.parameters():
                    p.add_(0.5)
            if not torch.equal(w, c.w):
                return bad("get_weight", "a later parameter update changed the returned vector")
            # set_weight
            v = gen.weights(c.spec, g, rng).to(c.dtype)
            how = rng.choice(["plain", "strided", "slice", "row"])
            if how == "strided":
                big = torch.zeros(2 * P, dtype=c.dtype)
                big[::2] = v
                vin = big[::2]
            elif how == "slice":
                big = torch.zeros(P + 3, dtype=c.dtype)
                big[2 : P + 2] = v
                vin = big[2 : P + 2]
            elif how == "row":
                big = torch.randn(3, P, generator=g, dtype=D).to(c.dtype)
                big[1] = v
                vin = big[1]
            else:
                vin = v.clone()
            flags = [p.requires_grad for p in m.parameters()]
            ids = [id(p) for p in m.parameters()]
            opt = torch.optim.SGD(m.parameters(), lr=0.5)
            if rng.random() < 0.5:
                m(c.x)
            r = m.set_weight(vin)
            obs("set_weight round trip")
            if not torch.equal(m.get_weight(), v):
                return bad("set_weight", "get_weight does not return the vector that was set")
            if [p.requires_grad for p in m.parameters()] != flags:
                bad("set_weight", "requires_grad flags changed")
            y = m(c.x).detach()
            e = S.Ref(c.spec, c.x, v)
            if S.kink_report(c.spec, e, c.x_kind, c.dtype) is None:
                ev = e.val()
                obs("module computes with the set weights")
                d = oracle.compare(y, ev, (ev.abs().amax() + 1).expand(ev.shape), c.dtype, slack=10)
                if d:
                    return bad("set_weight", "output with the new weights: " + d)
            # aliasing in
            vin.mul_(0).sub_(7)
            obs("vector passed to set_weight is not aliased (in)")
            if not torch.equal(params(), v):
                return bad("set_weight", "writing to the vector after set_weight changed the module")
            v2 = gen.weights(c.spec, g, rng).to(c.dtype)
            keep = v2.clone()
            m.set_weight(v2)
            step = torch.randn(P, generator=g, dtype=D).to(c.dtype)
            p0 = 0
            for p in m.parameters():
                p.grad = step[p0 : p0 + p.numel()].reshape(p.shape).clone()
                p0 += p.numel()
            opt.step()
            obs("vector passed to set_weight is not aliased (out)")
            if not torch.equal(v2, keep):
                return bad("set_weight", "an optimizer step on the module changed the vector passed to set_weight")
            if [id(p) for p in m.parameters()] == ids and not torch.allclose(params(), keep - 0.5 * step, rtol=1e-5, atol=1e-6):
                return bad("set_weight", "an optimizer created before set_weight no longer updates the module as expected")
            m.set_weight(c.w.clone())
            # coordinates of products
            c.ref = S.Ref(c.spec, c.x, m.get_weight())
            for req in self.weight_reqs(c, rng, g):
                r, ex = attempt(req.on, m, c.x, None)
                if isinstance(ex, NotImplementedError) and oracle.may_refuse(c.spec, req.op):
                    continue
                obs("coordinates of " + req.op)
                if ex is not None:
                    bad(req.op, f"{req} raised {ex!r}"[:300])
                    continue
                e, d = oracle.judge(r, c.dtype, c.spec, c.ref, req.op, "weight", req.m, bool(req.fd), bool(req.td), False)
                if d:
                    bad(req.op, f"{req} is not in the coordinates of get_weight: {d}")
            if c.dtype == D and smooth(c.spec):
                self.finite_step(ctx, c, rng, g, bad, obs)
            if c.dtype == D:
                self.descent(ctx, c, rng, g, bad, obs)
            self.submodule(ctx, c, rng, g, bad, obs)
        except Exception as ex:
            bad("weights", f"raised {type(ex).__name__}: {str(ex)[:200]}")

    def weight_reqs(self, c, rng, g):
        out = [Req("jacobian", "weight"), Req("vjp", "weight", arg_for(c, "vjp", "weight", rng, g)), Req("mjp", "weight", arg_for(c, "mjp", "weight", rng, g)),
               Req("jvp", "weight", arg_for(c, "jvp", "weight", rng, g)), Req("jmp", "weight", arg_for(c, "jmp", "weight", rng, g)),
               Req("jTmjp", "weight", arg_for(c, "jTmjp", "weight", rng, g, True), True, True, False),
               Req("jmjTp", "weight", arg_for(c, "jmjTp", "weight", rng, g, True), True, True, False)]
        return rng.sample(out, 4)

    def finite_step(self, ctx, c, rng, g, bad, obs):
        """(f(w+hv) - f(w-hv)) / 2h, measured with set_weight on the real module, against jvp / the Jacobian."""
        m = c.model
        w = m.get_weight()
        v = torch.randn(c.n_par, generator=g, dtype=D)
        h = 1e-5
        m.set_weight(w + h * v)
        a = m(c.x).detach().reshape(c.b, -1)
        m.set_weight(w - h * v)
        b = m(c.x).detach().reshape(c.b, -1)
        m.set_weight(w)
        fd = (a - b) / (2 * h)
        vv = v.expand(c.b, -1).contiguous()
        r, ex = attempt(m.jvp, c.x, None, vv, "weight")
        if ex is not None:
            J, ex = attempt(m.jacobian, c.x, None, "weight")
            if ex is not None:
                return
            r = torch.einsum("bij,bj->bi", J, vv)
        sc = torch.einsum("bij,bj->bi", c.ref.J("weight").abs(), vv.abs()).amax() + 1
        J3 = 1e-4 * sc  # third-order term and rounding, generous
        obs("finite step agrees with jvp")
        err = (r - fd).abs().max()
        if not bool(err <= J3):
            e = torch.einsum("bij,bj->bi", c.ref.J("weight"), vv)
            if bool((e - fd).abs().max() <= J3):  # the reference agrees with the measured step, so the product is wrong
                bad("finite step", f"moving the weights by h*v changes the output by h*{fd.reshape(-1)[:3].tolist()} but jvp gives {r.reshape(-1)[:3].tolist()}")

    def descent(self, ctx, c, rng, g, bad, obs):
        """The gradient loop of the documentation against autograd gradient descent."""
        m, lr = c.model, 1e-3
        t = torch.randn(c.b, c.n_out, generator=g, dtype=D)
        wr = c.w.clone().double()
        m.set_weight(c.w.clone())
        for k in range(3):
            x = c.x
            val = m(x).detach()
            res = val.reshape(c.b, -1) - t
            grad = m.vjp(x, val, res, wrt="weight")
            m.set_weight(m.get_weight() - lr * grad.mean(dim=0))
            wv = wr.clone().requires_grad_(True)
            y = S.forward(c.spec, S._Take(wv), c.ref.x).reshape(c.b, -1)
            loss = 0.5 * ((y - t) ** 2).sum(dim=1).mean()
            (gr,) = torch.autograd.grad(loss, [wv])
            wr = wr - lr * gr
            if not torch.isfinite(wr).all() or wr.abs().max() > 1e4 or S.kink_report(c.spec, S.Ref(c.spec, c.x, wr), c.x_kind, D):
                break
            obs("documented gradient step")
            sc = 1 + wr.abs().max() + lr * gr.abs().max()
            if not bool((m.get_weight() - wr).abs().max() <= 1e-8 * sc):
                return bad("gradient descent", f"step {k}: weights differ from autograd gradient descent by {(m.get_weight() - wr).abs().max().item():.3g}")
        m.set_weight(c.w.clone())

    def submodule(self, ctx, c, rng, g, bad, obs):
        """Setting the weights of a sub-module sets exactly its slice of the network's vector."""
        m = c.model
        if c.spec["t"] not in ("seq", "skip"):
            return
        subs = [s for s in m.modules() if s is not m and hasattr(s, "set_weight") and sum(p.numel() for p in s.parameters())]
        if not subs:
            return
        s = rng.choice(subs)
        ids = {id(p) for p in s.parameters()}
        v = torch.randn(sum(p.numel() for p in s.parameters()), generator=g, dtype=D).to(c.dtype)
        exp, k = [], 0
        for p in m.parameters():
            if id(p) in ids:
                exp.append(v[k : k + p.numel()])
                k += p.numel()
            else:
                exp.append(p.detach().reshape(-1).clone())
        s.set_weight(v.clone())
        obs("sub-module weights")
        if not torch.equal(m.get_weight(), torch.cat(exp)):
            bad("submodule", f"set_weight on a {type(s).__name__} inside the network does not set exactly its slice")


# --------------------------------------------------------------------------------------------------------------
LIKS = ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli")


class LikCheck(Check):
    assumptions = ASSUME + ["categorical targets are probability vectors along the last dimension (one-hot or soft); binary targets lie in [0, 1]"]

    def setup(self, ctx):
        L = lambda i, o, b=True: dict(t="linear", i=i, o=o, bias=b)
        T = act_s("Tanh")
        seq = lambda *a: dict(t="seq", L=list(a))
        self.enum = [
            (seq(L(3, 4), T, L(4, 3)), (3,)), (L(3, 4), (3,)), (seq(L(2, 6), dict(t="reshape", dims=[2, 3])), (2,)), (seq(L(2, 8), dict(t="reshape", dims=[2, 2, 2])), (2,)),
            (dict(t="skip", L=[L(3, 2), T]), (3,)), (seq(seq(L(3, 3), T), L(3, 1)), (3,)), (seq(dict(t="conv", i=1, o=2, k=2, p=0, bias=True, vmap=True)), (1, 3, 3)),
            (seq(dict(t="conv", i=1, o=2, k=3, p=1, bias=True, vmap=True), T, dict(t="flatten"), L(8, 3)), (1, 2, 2)), (seq(L(4, 5, False), act_s("ReLU"), L(5, 4, False)), (4,)),
            (seq(T, L(3, 4), dict(t="reshape", dims=[1, 4])), (3,)), (seq(L(2, 12), dict(t="reshape", dims=[3, 4])), (2,)), (seq(L(2, 12), dict(t="reshape", dims=[3, 2, 2])), (2,)),
        ] + NETS

    def lik_case(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        dtype = D if rng.random() < 0.85 else F32
        if i < 3 * len(self.enum):
            spec, shape = self.enum[i % len(self.enum)]
        else:
            spec, shape = gen.network(rng)
        cls = LIKS[i % 3] if i < 3 * len(self.enum) else rng.choice(LIKS)
        extreme = rng.random() < 0.3
        ctx_case = None
        if extreme and any(s["t"] == "linear" for s in S.leaves(spec)):
            # logits of hundreds to thousands: a large last linear layer
            scale = rng.choice([30.0, 200.0, 900.0, 3000.0]) if dtype == D else rng.choice([20.0, 100.0])
            spec2 = dict(t="seq", L=list(spec["L"]) if spec["t"] == "seq" else [spec])
            o = S.out_shape(spec2, shape)
            if len(o) == 1 and o[0] <= 12:
                last = dict(t="linear", i=o[0], o=rng.randint(2, 4), bias=True)
                spec2["L"] = spec2["L"] + [last]
                spec = spec2
                w = gen.weights(spec, g, rng)
                n = S.n_params(last)
                w[-n:] *= scale
                b = rng.choice([1, 2, 3, 5])
                for _ in range(3):
                    c = Case(ctx, spec, shape, b, dtype, "normal", "plain", rng, g, w=w)
                    if c.bad is None:
                        return c, cls, rng, g, "extreme"
                ctx.inconclusive[c.bad] += 1
                return None, cls, rng, g, ""
        c = mk(ctx, rng, g, spec, shape, dtype=dtype, x_kind=rng.choice(["normal", "normal", "offset", "mixed", "zeros", "small"]))
        return c, cls, rng, g, "moderate"

    def target(self, cls, c, rng, g):
        o = (c.b, *S.out_shape(c.spec, c.shape))
        if cls == "LogGaussian":
            return (torch.randn(o, generator=g, dtype=D) * rng.choice([1, 5, 0.0])).to(c.dtype)
        if cls == "LogBinaryBernoulli":
            t = torch.rand(o, generator=g, dtype=D)
            return (t if rng.random() < 0.3 else torch.round(t)).to(c.dtype)
        if rng.random() < 0.7:
            k = torch.randint(0, o[-1], o[:-1], generator=g)
            return F.one_hot(k, o[-1]).to(c.dtype)
        return torch.softmax(torch.randn(o, generator=g, dtype=D), dim=-1).to(c.dtype)

    def logp(self, cls, val, t):
        if cls == "LogGaussian":
            return -0.5 * ((val - t) ** 2).reshape(val.shape[0], -1).sum(dim=1)
        if cls == "LogBinaryBernoulli":
            return (t * F.logsigmoid(val) + (1 - t) * F.logsigmoid(-val)).reshape(val.shape[0], -1).sum(dim=1)
        return (t * torch.log_softmax(val, dim=-1)).reshape(val.shape[0], -1).sum(dim=1)

    def hessian(self, cls, val):
        """(b, o, o) float64"""
        b, o = val.shape[0], val[0].numel()
        if cls == "LogGaussian":
            return -torch.eye(o, dtype=D).expand(b, o, o)
        if cls == "LogBinaryBernoulli":
            p, q = torch.sigmoid(val), torch.sigmoid(-val)
            return torch.diag_embed(-(p * q).reshape(b, -1))
        p = torch.softmax(val, dim=-1)
        k = val.shape[-1]
        H = (torch.einsum("...i,...j->...ij", p, p) - torch.diag_embed(p)).reshape(b, o // k, k, k)
        out = torch.zeros(b, o, o, dtype=D)
        for j in range(o // k):
            out[:, j * k : (j + 1) * k, j * k : (j + 1) * k] = H[:, j]
        return out


def aggregate(t, agg):
    if isinstance(t, list):
        return [aggregate(s, agg) for s in t]
    return t if agg == "return all" else (t.sum(dim=0) if agg == "sum" else t.mean(dim=0))


AGG = ("return all", "sum", "average")


def cmp_agg(r, e, b, agg, dtype, slack=1.0):
    """Comparison of possibly aggregated results: aggregated tensors get a leading dimension for the per-sample rule."""
    up = lambda t: [up(s) for s in t] if isinstance(t, (list, tuple)) else (t.unsqueeze(0) if torch.is_tensor(t) else t)
    if agg != "return all":
        r, e, b = up(r), up(e), up(b)
    return oracle.compare(r, e, b, dtype, slack=slack)


class C15(LikCheck):
    rule = ("an evaluation is one likelihood value or gradient compared with the reference; distinct by likelihood, aggregation, structure, target, batch "
            "size and logit regime")
    quick, thorough = 2250, 40000
    min_evaluations = 1500

    def run(self, ctx, i, seed):
        c, cls, rng, g, regime = self.lik_case(ctx, i, seed)
        if c is None:
            return
        t = self.target(cls, c, rng, g)
        val = c.ref.val()
        td = t.double()
        lp = self.logp(cls, val, td)
        v2 = val.clone().requires_grad_(True)
        (res,) = torch.autograd.grad(self.logp(cls, v2, td).sum(), [v2])
        mag = (val.abs().reshape(c.b, -1).sum(dim=1) + td.abs().reshape(c.b, -1).sum(dim=1) + 1)
        lpb = mag if cls != "LogGaussian" else mag**2
        for agg in rng.sample(AGG, 2) if i % 3 else AGG:
            lik, ex = attempt(self.make, ctx, cls, agg, rng)
            sig = f"{cls}/{agg}/{regime}"
            if ex is not None:
                ctx.evaluated((sig, "construct"))
                ctx.violation(f"{cls}/construct/{agg}", f"{cls}(aggregate_batch={agg!r}) raised {type(ex).__name__}: {ex}")
                continue
            r, ex = attempt(lik, c.x, c.model, t)
            e, b = aggregate(lp, agg), aggregate(lpb, "sum" if agg != "return all" else agg)
            d = f"raised {type(ex).__name__}: {str(ex)[:200]}" if ex is not None else cmp_agg(r, e, b, agg, c.dtype)
            ctx.evaluated((sig, "value", S.signature(c.spec), c.b, str(c.dtype)), sample=dict(likelihood=sig, network=c.text(), max_logit=float(val.abs().max()), verdict=d or "equal"))
            ctx.notes["values " + regime] += 1
            if d:
                ctx.violation(f"{cls}/value/{regime}", f"{cls}({agg}) value on {c.text()} max|logit|={val.abs().max():.3g}: {d}")
            for wrt in ("weight", "input"):
                J = c.ref.J(wrt)
                if J is None:
                    continue
                e = torch.einsum("bi,bij->bj", res.reshape(c.b, -1), J)
                b = torch.einsum("bi,bij->bj", torch.ones_like(res).reshape(c.b, -1) + res.abs().reshape(c.b, -1), J.abs())
                r, ex = attempt(lik.gradient, c.x, c.model, t, wrt) if rng.random() < 0.5 or wrt == "input" else attempt(lik.gradient, c.x, c.model, t)
                d = f"raised {type(ex).__name__}: {str(ex)[:200]}" if ex is not None else cmp_agg(r, aggregate(e, agg), aggregate(b, "sum" if agg != "return all" else agg), agg, c.dtype)
                ctx.evaluated((sig, "gradient", wrt, S.signature(c.spec), c.b, str(c.dtype)))
                ctx.notes["gradients " + regime] += 1
                if d:
                    ctx.violation(f"{cls}/gradient/{regime}/{wrt}", f"{cls}({agg}) gradient wrt {wrt} on {c.text()} max|logit|={val.abs().max():.3g}: {d}")

    def make(self, ctx, cls, agg, rng):
        C = getattr(ctx.nnj, cls)
        if agg == "return all" and rng.random() < 0.5:
            return C()
        return C(aggregate_batch=agg) if rng.random() < 0.5 else C(agg)


class C16(LikCheck):
    rule = ("an evaluation is one GGN compared with J^T H J from the reference; distinct by likelihood, aggregation, shape, exact/approx, target variable, "
            "structure, batch size and logit regime")
    quick, thorough = 1600, 40000
    min_evaluations = 1500

    def run(self, ctx, i, seed):
        c, cls, rng, g, regime = self.lik_case(ctx, i, seed)
        if c is None:
            return
        val = c.ref.val()
        H = self.hessian(cls, val)
        dH = torch.diagonal(H, dim1=1, dim2=2)
        t = self.target(cls, c, rng, g)
        combos = [(a, s, m) for a in AGG for s, m in (("full", "exact"), ("diag", "exact"), ("diag", "approx"))]
        one = torch.ones_like(dH)
        for agg, shape, mode in rng.sample(combos, 5):
            lik, ex = attempt(getattr(ctx.nnj, cls), agg, shape, mode)
            if ex is not None:
                ctx.violation(f"{cls}/construct/{agg}", f"{cls}({agg!r},{shape},{mode}) raised {type(ex).__name__}: {ex}")
                continue
            for wrt in ("weight", "input"):
                if wrt == "weight" and c.n_par == 0:
                    continue
                if mode == "approx":
                    e, _ = oracle.expected(c.spec, c.ref, "jTmjp", wrt, dH, True, True, True)
                    _, b = oracle.expected(c.spec, c.ref, "jTmjp", wrt, one, True, True, True, loose=True)
                else:
                    e, _ = oracle.expected(c.spec, c.ref, "jTmjp", wrt, H, False, shape == "diag")
                    _, b = oracle.expected(c.spec, c.ref, "jTmjp", wrt, H.abs() + torch.diag_embed(one), False, shape == "diag", loose=True)
                if rng.random() < 0.3:
                    r, ex = attempt(lik.ggn, c.x, c.model, wrt=wrt)
                else:
                    r, ex = attempt(lik.ggn, c.x, c.model, t, wrt)
                d = f"raised {type(ex).__name__}: {str(ex)[:200]}" if ex is not None else cmp_agg(r, aggregate(e, agg), aggregate(b, "sum" if agg != "return all" else agg), agg, c.dtype)
                sig = f"{cls}/{shape}/{mode}/{wrt}"
                ctx.evaluated((sig, agg, regime, S.signature(c.spec), c.b, str(c.dtype)), sample=dict(ggn=sig, aggregate=agg, network=c.text(), verdict=d or "equal"))
                ctx.notes["ggn " + regime] += 1
                if d:
                    ctx.violation(f"{sig}/{regime}", f"{cls}({agg},{shape},{mode}).ggn wrt {wrt} on {c.text()} max|logit|={val.abs().max():.3g}: {d}")


# --------------------------------------------------------------------------------------------------------------
class C17(Check):
    rule = ("an evaluation is one converted model whose outputs, flat parameters or products were compared with the torch model, or one unsupported layer "
            "observed to be refused; distinct by structure and kind of comparison")
    quick, thorough = 2250, 40000
    min_evaluations = 1500

    def setup(self, ctx):
        nn = torch.nn
        L = lambda i, o, b=True: dict(t="linear", i=i, o=o, bias=b)
        C = lambda i, o, k, p=0, b=True, **kw: dict(t="conv", i=i, o=o, k=k, p=p, bias=b, **kw)
        P = lambda k, **kw: dict(t="pool", k=k, **kw)
        seq = lambda *a: dict(t="seq", L=list(a))
        T, R, fl = act_s("Tanh"), act_s("ReLU"), dict(t="flatten")
        self.enum = [
            (seq(L(3, 4), T, L(4, 2)), (3,)), (seq(L(3, 4, False), R, L(4, 2, False)), (3,)), (seq(C(1, 2, 3), T, fl, L(8, 2)), (1, 4, 4)),
            (seq(C(1, 2, 3, 1), T), (1, 3, 3)), (seq(C(2, 2, [2, 1], [1, 0], False)), (2, 3, 3)), (seq(P(2), fl), (2, 4, 4)), (seq(P(3, s=1)), (1, 4, 4)),
            (seq(P(2, s=1)), (1, 3, 3)), (seq(P(3, s=2, p=1)), (1, 5, 5)), (seq(P(2, ceil=True)), (1, 3, 5)), (seq(P(2, d=2, s=1)), (1, 5, 5)), (seq(P([2, 1])), (2, 4, 3)),
            (seq(act_s("Softplus", beta=2, threshold=1)), (4,)), (seq(act_s("Softplus", beta=0.5, threshold=20), L(4, 1)), (4,)),
            (seq(dict(t="up", s=2)), (1, 2, 3)), (seq(dict(t="up", s=3), T), (1, 2, 2)), (seq(seq(L(3, 3), T), L(3, 2)), (3,)), (seq(seq(seq(R)), seq(L(2, 2))), (2,)),
            (seq(L(3, 3), seq(T, L(3, 3)), R, seq(L(3, 1))), (3,)), (seq(act_s("Sigmoid"), act_s("Softplus"), R, T), (3,)), (seq(fl, L(6, 2)), (1, 2, 3)),
        ]
        N = ctx.nnj

        def named(name, base, fwd, **attrs):
            """A user's layer whose class carries the name of another one."""
            return type(name, (base,), {"forward": fwd, "__module__": "user_layers", **attrs})

        fwd = lambda f: (lambda self, z: f(z))
        residual = named("Block", nn.Sequential, lambda self, z: z + nn.Sequential.forward(self, z))
        twice = named("Sequential", nn.Sequential, lambda self, z: nn.Sequential.forward(self, nn.Sequential.forward(self, z)))
        plain = type("Net", (nn.Sequential,), {"__module__": "user_layers"})
        double = named("Linear", nn.Linear, lambda self, z: 2 * nn.Linear.forward(self, z))
        # things that cannot be represented (or not exactly): refuse or be right
        self.odd = [
            ("own l2norm eps", lambda: [nn.Linear(3, 3), N.L2Norm(eps=0.5)], (3,)), ("own l2norm", lambda: [N.L2Norm(), nn.Linear(3, 2)], (3,)),
            ("own skip", lambda: [nn.Linear(3, 2), N.SkipConnection(N.Linear(2, 3), N.Tanh()), nn.Linear(5, 2)], (3,)),
            ("own skip same size", lambda: [N.SkipConnection(N.Linear(3, 3)), nn.Tanh()], (3,)), ("own skip tanh", lambda: [N.SkipConnection(N.Tanh())], (3,)),
            ("own reshape", lambda: [nn.Linear(3, 4), N.Reshape(2, 2), nn.Flatten()], (3,)), ("own sine", lambda: [nn.Linear(3, 3), N.Sinusoidal(), N.TruncExp()], (3,)),
            ("own reshape first", lambda: [N.Reshape(1, 2, 3), nn.Conv2d(1, 2, 2)], (6,)), ("own conv", lambda: [N.Conv2d(1, 2, 2, padding=1, use_vmap_for_backprop=False), N.ReLU()], (1, 3, 3)),
            ("own sequential", lambda: [nn.Linear(3, 3), N.Sequential(N.Linear(3, 2), N.Sigmoid(), add_hooks=False)], (3,)),
            ("own softplus", lambda: [N.Softplus(beta=3, threshold=1), nn.Linear(3, 2)], (3,)), ("own pool", lambda: [N.MaxPool2d(3, stride=1, padding=1), N.Upsample(scale_factor=2)], (1, 3, 3)),
            ("foreign sine", lambda: [nn.Linear(3, 3), named("Sinusoidal", nn.Module, fwd(lambda z: torch.sin(30 * z)))()], (3,)),
            ("foreign relu", lambda: [named("ReLU", nn.Module, fwd(lambda z: torch.relu(z) ** 2))(), nn.Linear(3, 2)], (3,)),
            ("foreign tanh", lambda: [named("Tanh", nn.Tanh, fwd(lambda z: 1.7159 * torch.tanh(2 * z / 3)))()], (3,)),
            ("foreign l2", lambda: [named("L2Norm", nn.Module, fwd(lambda z: z / z.norm(dim=1, keepdim=True) * 2))()], (3,)),
            ("foreign flatten", lambda: [named("Flatten", nn.Module, fwd(lambda z: z.transpose(1, 2).reshape(len(z), -1)))(), nn.Linear(6, 2)], (2, 3)),
            ("foreign exp", lambda: [named("TruncExp", nn.Module, fwd(lambda z: torch.exp(z).clamp(max=1.0)))()], (3,)),
            ("foreign linear", lambda: [double(3, 2), nn.Tanh()], (3,)), ("foreign pool", lambda: [named("MaxPool2d", nn.MaxPool2d, lambda self, z: -nn.MaxPool2d.forward(self, -z))(2)], (1, 4, 4)),
            ("foreign block", lambda: [nn.Linear(3, 3), residual(nn.Linear(3, 3), nn.Tanh()), nn.Linear(3, 2)], (3,)),
            ("foreign sequential", lambda: [nn.Linear(3, 3), twice(nn.Linear(3, 3), nn.Tanh())], (3,)), ("foreign nested", lambda: [nn.Sequential(nn.Sequential(residual(nn.Tanh())))], (3,)),
            ("foreign top", lambda: residual(nn.Linear(3, 3), nn.Tanh()), (3,)), ("user network", lambda: plain(nn.Linear(3, 3), plain(nn.Tanh(), nn.Linear(3, 2))), (3,)),
            ("stride", lambda: [nn.Conv2d(2, 3, 2, stride=2)], (2, 4, 4)), ("stride-pad", lambda: [nn.Conv2d(2, 2, 3, stride=2, padding=1)], (2, 5, 5)),
            ("stride(1,2)", lambda: [nn.Conv2d(1, 2, 2, stride=(1, 2))], (1, 4, 4)),
            ("dilation", lambda: [nn.Conv2d(1, 2, 2, dilation=2)], (1, 4, 4)), ("groups", lambda: [nn.Conv2d(2, 4, 2, groups=2)], (2, 3, 3)),
            ("same", lambda: [nn.Conv2d(1, 2, 3, padding="same")], (1, 3, 3)), ("valid", lambda: [nn.Conv2d(1, 2, 2, padding="valid")], (1, 3, 3)),
            ("reflect", lambda: [nn.Conv2d(1, 2, 3, padding=1, padding_mode="reflect")], (1, 3, 3)), ("circular", lambda: [nn.Conv2d(1, 2, 3, padding=1, padding_mode="circular")], (1, 3, 3)),
            ("replicate", lambda: [nn.Conv2d(1, 1, 3, padding=1, padding_mode="replicate"), nn.Tanh()], (1, 3, 3)),
            ("flatten2", lambda: [nn.Flatten(2)], (2, 2, 2)), ("flatten0", lambda: [nn.Flatten(0)], (2, 2, 2)), ("flatten12", lambda: [nn.Flatten(1, 2)], (2, 2, 2)),
            ("bilinear", lambda: [nn.Upsample(scale_factor=2, mode="bilinear")], (1, 2, 3)), ("size", lambda: [nn.Upsample(size=(5, 4))], (1, 2, 3)),
            ("scale(2,3)", lambda: [nn.Upsample(scale_factor=(2, 3))], (1, 2, 2)), ("scale1.5", lambda: [nn.Upsample(scale_factor=1.5)], (1, 2, 2)),
            ("bn", lambda: [nn.Linear(3, 3), nn.BatchNorm1d(3)], (3,)), ("dropout", lambda: [nn.Linear(3, 3), nn.Dropout(0.5)], (3,)), ("layernorm", lambda: [nn.LayerNorm(3)], (3,)),
            ("leaky", lambda: [nn.LeakyReLU(0.1)], (3,)), ("elu", lambda: [nn.ELU()], (3,)), ("gelu", lambda: [nn.Linear(3, 2), nn.GELU()], (3,)),
            ("avgpool", lambda: [nn.AvgPool2d(2)], (1, 4, 4)), ("adaptive", lambda: [nn.AdaptiveMaxPool2d(2)], (1, 4, 4)), ("identity", lambda: [nn.Identity()], (3,)),
            ("convT", lambda: [nn.ConvTranspose2d(1, 2, 2)], (1, 3, 3)), ("conv1d", lambda: [nn.Conv1d(2, 2, 2)], (2, 4)), ("indices", lambda: [nn.MaxPool2d(2, return_indices=True)], (1, 4, 4)),
            ("unflatten", lambda: [nn.Linear(3, 6), nn.Unflatten(1, (2, 3))], (3,)), ("bilinear-ac", lambda: [nn.Upsample(scale_factor=2, mode="bilinear", align_corners=True)], (1, 2, 2)),
            ("inplace", lambda: [nn.Linear(3, 3), nn.ReLU(inplace=True)], (3,)), ("empty", lambda: [], (3,)), ("groups-nobias", lambda: [nn.Conv2d(4, 2, 1, groups=2, bias=False)], (4, 2, 2)),
            ("stride-nested", lambda: [nn.Sequential(nn.Conv2d(1, 2, 2, stride=2), nn.ReLU()), nn.Flatten(), nn.Linear(8, 2)], (1, 4, 4)),
        ]

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        if i % 6 == 5:
            return self.run_odd(ctx, (i // 6) % len(self.odd), rng, g)
        k = i - i // 6
        spec, shape = self.enum[k] if k < len(self.enum) else gen.torch_network(rng)
        dtype = D if rng.random() < 0.8 else F32
        tm = S.build_torch(spec).to(dtype)
        w = gen.weights(spec, g, rng).to(dtype)
        S.load_flat(tm, w)
        if rng.random() < 0.3:
            tm.eval()
        if rng.random() < 0.3:
            for p in tm.parameters():
                p.requires_grad_(False)
        b = rng.choice([1, 2, 3, 5])
        x = gen.inputs(rng.choice(["normal", "offset", "mixed", "sparse"]), (b, *shape), g).to(dtype)
        sig = S.signature(spec)
        text = f"convert_to_nnj({S.describe(spec)}) in={shape} {dtype}"
        m, ex = attempt(ctx.nnj.convert_to_nnj, tm)
        ctx.evaluated(("convert", S.describe(spec)), sample=dict(model=S.describe(spec), input=list(shape)))
        if ex is not None:
            ctx.violation(f"convert/{sig}", f"{text} raised {type(ex).__name__}: {str(ex)[:200]}")
            return
        ref = S.Ref(spec, x, w)
        if S.kink_report(spec, ref, "normal", dtype):
            ctx.inconclusive["kink"] += 1
            return
        with torch.no_grad():
            e = tm(x)
        y, ex = attempt(m, x)
        d = f"raised {type(ex).__name__}: {ex}" if ex is not None else same(y, e, dtype)
        ctx.notes["outputs"] += 1
        if d:
            ctx.violation(f"convert/output/{sig}", f"{text}: output differs from the torch model: {str(d)[:300]}")
            return
        flat = torch.cat([p.detach().reshape(-1) for p in m.parameters()]) if list(m.parameters()) else torch.zeros(0, dtype=dtype)
        ctx.evaluated(("params", S.describe(spec)))
        if flat.shape != w.shape or not torch.equal(flat, w):
            ctx.violation(f"convert/params/{sig}", f"{text}: flat parameters differ from the torch model's")
            return
        if w.numel():
            gw, ex = attempt(m.get_weight)
            if ex is not None or not torch.equal(gw, w):
                ctx.violation(f"convert/params/{sig}", f"{text}: get_weight differs from the torch model's flat parameters")
        c = Case.__new__(Case)
        c.ctx, c.spec, c.shape, c.b, c.dtype, c.x_kind, c.layout, c.rng, c.g, c.w, c.model, c.x, c.ref = ctx, spec, tuple(shape), b, dtype, "normal", "plain", rng, g, w, m, x, ref
        if len(ctx.mon.after) == 0:
            self.po = ProductOracle(ctx, oracle.PRODUCTS)
        self.po.watch(c)
        for wrt in ("input", "weight"):
            for op in ("jacobian", "vjp", "mjp"):
                drive(c, op, wrt, rng, g, val=rng.choice([None, True]))
            for op in ("jvp", "jmp"):
                drive(c, op, wrt, rng, g)
            fd, td = rng.choice(MODES)
            drive(c, "jTmjp", wrt, rng, g, fd, td)
            drive(c, "jTmjp", wrt, rng, g, True, True, approx=True)
        # the original is unchanged
        with torch.no_grad():
            e2 = tm(x)
        if not torch.equal(e2, e):
            ctx.violation(f"convert/original/{sig}", f"{text}: the torch model's output changed after conversion and use")

    def run_odd(self, ctx, k, rng, g):
        name, make, shape = self.odd[k]
        torch.manual_seed(rng.randrange(1 << 30))
        tm = make()
        tm = (tm if isinstance(tm, torch.nn.Module) else torch.nn.Sequential(*tm)).double()
        if name in ("dropout", "bn"):
            tm.train(rng.random() < 0.5)
        b = rng.choice([1, 2, 3])
        b = max(b, 2) if name == "bn" else b
        x = torch.randn(b, *shape, generator=g, dtype=D)
        ctx.notes["unsupported configurations tried"] += 1
        ctx.evaluated(("odd", name), sample=dict(configuration=name))
        m, ex = attempt(ctx.nnj.convert_to_nnj, tm)
        if ex is not None:
            ctx.notes["refused at conversion"] += 1
            return
        y, ex = attempt(m, x)
        if ex is not None:
            ctx.notes["refused at use"] += 1
            return
        with torch.no_grad():
            e = tm(x.clone())
        if isinstance(e, tuple):
            ctx.violation(f"odd/{name}", f"converted [{name}] answers although the torch model returns a tuple") if torch.is_tensor(y) and not torch.equal(y, e[0]) else None
            return
        if name == "dropout" and tm.training:
            ctx.violation("odd/dropout", "a training-mode dropout was converted to something deterministic")
            return
        d = same(y, e, D)
        if d:
            ctx.violation(f"odd/{name}", f"converted [{name}] computes something else than the torch model: {d}")
            return
        if y.dim() < 2 or y.shape[0] != b:
            return
        if name in ("bn",) and tm.training:
            return
        # products, when given, must be the derivatives of the torch model
        f = lambda z: tm(z.unsqueeze(0)).reshape(-1)
        J = torch.stack([torch.autograd.functional.jacobian(f, x[j]).reshape(-1, x[0].numel()) for j in range(b)])
        u = torch.randn(b, J.shape[1], generator=g, dtype=D)
        for op, arg, exp in (("jacobian", None, J), ("vjp", u, torch.einsum("bi,bij->bj", u, J)), ("mjp", u.unsqueeze(1), u.unsqueeze(1) @ J),
                             ("jTmjp", u, J.transpose(1, 2) @ torch.diag_embed(u) @ J), ("jTmjp~", u, torch.einsum("bij,bi->bj", J**2, u))):
            if op == "jacobian":
                r, ex = attempt(m.jacobian, x, None, "input")
            elif op == "jTmjp":
                r, ex = attempt(m.jTmjp, x, None, arg, "input", True, False)
            elif op == "jTmjp~":
                r, ex = attempt(m.jTmjp, x, None, arg, "input", True, True)
            else:
                r, ex = attempt(getattr(m, op), x, None, arg, "input")
            if ex is not None:
                ctx.notes["refused at product"] += 1
                continue
            d = same(r, exp, D)
            ctx.evaluated(("odd", name, op))
            if d:
                ctx.violation(f"odd/{name}/{op}", f"{op} of converted [{name}] is not the derivative of the torch model: {d}")
        ps = list(tm.parameters())
        if ps and name not in ("bn",):
            exp = []
            for j in range(b):
                gs = torch.autograd.grad(tm(x[j : j + 1]).reshape(-1) @ u[j], ps)
                exp.append(torch.cat([t.reshape(-1) for t in gs]))
            r, ex = attempt(m.vjp, x, None, u, "weight")
            if ex is None:
                d = same(r, torch.stack(exp), D)
                ctx.evaluated(("odd", name, "vjp weight"))
                if d:
                    ctx.violation(f"odd/{name}/weight", f"vjp wrt weight of converted [{name}] is not the torch model's gradient: {d}")
            else:
                ctx.notes["refused at product"] += 1


# --------------------------------------------------------------------------------------------------------------
class C19(Check):
    rule = ("an evaluation is one product call on a layer with a non-default option (must be the true derivative or raise) or one call with a wrongly sized "
            "argument (must raise); distinct by options, operation, target and outcome")
    quick, thorough = 2400, 60000
    min_evaluations = 3000

    def setup(self, ctx):
        C = lambda i, o, k, p=0, b=True, vm=True, **kw: dict(t="conv", i=i, o=o, k=k, p=p, bias=b, vmap=vm, **kw)
        e = []
        for vm in (True, False):
            e += [
                (C(2, 3, 2, s=2, vm=vm), (2, 4, 4)), (C(1, 2, 3, 1, s=2, vm=vm), (1, 5, 4)), (C(1, 2, 2, s=[1, 2], vm=vm), (1, 3, 4)), (C(1, 2, 2, d=2, vm=vm), (1, 4, 4)),
                (C(2, 2, 2, 1, d=2, vm=vm), (2, 3, 3)), (C(1, 1, 2, d=[1, 2], vm=vm), (1, 3, 4)), (C(1, 1, 2, d=[2, 1], vm=vm), (1, 4, 3)), (C(2, 4, 2, groups=2, vm=vm), (2, 3, 3)), (C(4, 2, 1, groups=2, b=False, vm=vm), (4, 2, 2)),
                (C(2, 2, 3, 1, groups=2, vm=vm), (2, 3, 3)), (C(1, 2, 2, 2, vm=vm), (1, 2, 2)), (C(1, 1, 1, 1, vm=vm), (1, 2, 3)), (C(1, 2, 2, 3, vm=vm), (1, 2, 2)), (C(2, 1, [1, 2], [1, 2], vm=vm), (2, 2, 2)),
                (C(1, 2, 3, 1, pmode="reflect", vm=vm), (1, 3, 3)), (C(1, 2, 3, 1, pmode="replicate", vm=vm), (1, 3, 3)), (C(2, 1, 3, 1, pmode="circular", vm=vm), (2, 3, 3)), (C(1, 2, 2, 0, pmode="circular", vm=vm), (1, 3, 3)),
                (C(1, 1, 3, 2, s=2, d=2, vm=vm), (1, 5, 5)),
            ]
        U = lambda **kw: dict(t="up", **kw)
        e += [
            (U(size=[4, 6]), (1, 2, 3)), (U(size=[5, 4]), (1, 2, 3)), (U(size=[3, 3]), (1, 3, 3)), (U(size=[1, 2]), (1, 2, 4)), (U(size=[2, 6]), (2, 2, 3)), (U(s=[2, 3]), (1, 2, 2)), (U(s=[2, 2]), (1, 2, 3)), (U(s=[1, 2]), (1, 2, 2)), (U(s=[2, 1]), (1, 2, 3)), (U(s=1.5), (1, 2, 2)), (U(s=2.5), (1, 2, 2)),
            (U(s=1.5), (1, 4, 4)), (U(s=0.5), (1, 4, 4)), (U(s=2.0), (1, 2, 3)), (U(s=3.0), (2, 1, 2)), (U(s=1.25), (1, 4, 4)), (U(s=2, mode="bilinear"), (1, 2, 3)), (U(s=2, mode="bilinear", align=True), (1, 2, 3)), (U(s=2, mode="bicubic"), (1, 3, 3)),
            (U(s=2, mode="area"), (1, 2, 2)), (U(s=2, mode="nearest-exact"), (1, 2, 2)), (U(s=1.5, mode="nearest-exact"), (1, 3, 3)), (U(s=3, mode="bilinear", align=False), (1, 2, 2)), (U(s=1.3), (1, 3, 2)), (U(s=2.4), (1, 3, 2)), (U(s=1.0), (1, 2, 2)),
        ]
        Pl = lambda **kw: dict(t="pool", **kw)
        e += [
            (Pl(k=3, s=1), (2, 4, 4)), (Pl(k=3, s=2, p=1), (1, 5, 5)), (Pl(k=2, d=2), (1, 5, 5)), (Pl(k=2, d=[1, 2], s=1), (1, 3, 4)), (Pl(k=2, ceil=True), (1, 3, 3)), (Pl(k=3, s=2, ceil=True), (1, 4, 6)), (Pl(k=[2, 3], s=[2, 1]), (2, 4, 4)), (Pl(k=2, s=3), (1, 5, 5)), (Pl(k=3, s=3, p=1), (1, 4, 4)), (Pl(k=2, s=2, p=1, ceil=True), (1, 3, 3)),
        ]
        self.enum = e
        self.wrong = [(s, sh) for s, sh in LEAVES if s["t"] in ("conv", "up", "pool")]

    def random(self, rng):
        for _ in range(100):
            r = rng.random()
            shape = (rng.randint(1, 4), rng.randint(1, 5), rng.randint(1, 5))
            if r < 0.5:
                k = rng.choice([1, 2, 3, [1, 2], [2, 1], [3, 2]])
                s = dict(t="conv", i=shape[0], o=rng.randint(1, 4), k=k, p=rng.choice([0, 0, 1, 2, [1, 0], [0, 2]]), bias=rng.random() < 0.6, vmap=rng.random() < 0.6)
                if rng.random() < 0.5:
                    s["s"] = rng.choice([1, 2, 3, [1, 2], [2, 1]])
                if rng.random() < 0.4:
                    s["d"] = rng.choice([1, 2, [1, 2], [2, 1]])
                if rng.random() < 0.3:
                    gs = [d for d in range(1, shape[0] + 1) if shape[0] % d == 0]
                    s["groups"] = rng.choice(gs)
                    s["o"] = s["groups"] * rng.randint(1, 2)
                if rng.random() < 0.25:
                    s["pmode"] = rng.choice(["reflect", "replicate", "circular", "zeros"])
            elif r < 0.75:
                s = dict(t="up")
                if rng.random() < 0.3:
                    s["size"] = [rng.randint(1, 6), rng.randint(1, 6)]
                else:
                    s["s"] = rng.choice([1, 2, 3, 2.0, 1.5, 2.5, 0.5, 1.25, 1.7, [1, 2], [2, 1], [3, 2], [1.5, 2.0]])
                if rng.random() < 0.4:
                    s["mode"] = rng.choice(["nearest", "bilinear", "bicubic", "area", "nearest-exact"])
                    if s["mode"] in ("bilinear", "bicubic") and rng.random() < 0.5:
                        s["align"] = rng.random() < 0.5
            else:
                s = gen.pool(rng, shape)
            try:
                o = S.out_shape(s, shape)
            except Exception:
                continue
            if min(o) >= 1 and math.prod(o) <= 110 and S.n_params(s) <= 110:
                return s, shape
        return self.enum[0]

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        if i % 4 == 3:
            return self.run_extra(ctx, i // 16, rng, g) if i % 16 == 15 else self.run_wrong(ctx, i // 4, rng, g)
        k = i - i // 4
        spec, shape = self.enum[k] if k < len(self.enum) else self.random(rng)
        b = rng.choice([1, 2, 3])
        w = gen.weights(spec, g, rng)
        x = torch.randn(b, *shape, generator=g, dtype=D)
        text = f"{S.describe(spec)} in={shape} b={b}"
        model, ex = attempt(S.build_model, spec, ctx.nnj, w, D)
        if ex is not None:
            ctx.notes["refused at construction"] += 1
            ctx.evaluated(("construct", S.describe(spec)))
            return
        wrap = rng.random() < 0.25
        if wrap:
            net = ctx.nnj.Sequential(model, ctx.nnj.Tanh())
            spec = dict(t="seq", L=[spec, act_s("Tanh")])
            model = net
        y, ex = attempt(model, x)
        if ex is not None:
            ctx.notes["refused at forward"] += 1
            ctx.evaluated(("forward", S.describe(spec)))
            return
        ref = S.Ref(spec, x, w)
        e = ref.val()
        if same(y, e, D):
            # the property is about what this module's own forward computes
            return ctx.violation(f"forward/{S.signature(spec)}", f"forward of {text} differs from torch: {same(y, e, D)}")
        c = Case.__new__(Case)
        c.ctx, c.spec, c.shape, c.b, c.dtype, c.x_kind, c.layout, c.rng, c.g, c.w, c.model, c.x, c.ref = ctx, spec, tuple(shape), b, D, "normal", "plain", rng, g, w, model, x, ref
        for wrt in ("input", "weight"):
            reqs = [Req("jacobian", wrt)]
            for op in ("vjp", "mjp", "jvp", "jmp"):
                reqs.append(Req(op, wrt, arg_for(c, op, wrt, rng, g) if not (wrt == "weight" and c.n_par == 0 and op in ("jvp", "jmp")) else torch.zeros((b, 0) if op == "jvp" else (b, 0, 1), dtype=D)))
            for fd, td in MODES:
                reqs.append(Req("jTmjp", wrt, arg_for(c, "jTmjp", wrt, rng, g, fd), fd, td, False))
                if not (wrt == "weight" and c.n_par == 0):
                    reqs.append(Req("jmjTp", wrt, arg_for(c, "jmjTp", wrt, rng, g, fd), fd, td, False))
            reqs.append(Req("jTmjp", wrt, arg_for(c, "jTmjp", wrt, rng, g, True), True, True, True))
            reqs.append(Req("jTmjp", wrt, None, True, True, True))
            reqs.append(Req("jTmjp", wrt, None, False, False, False))
            reqs.append(Req("mjp", wrt, None))
            reqs.append(Req("jmp", wrt, None))
            for req in reqs:
                v = rng.random() < 0.5
                r, ex = attempt(req.on, model, x, y.detach() if v else None)
                if ex is not None:
                    ctx.notes["refused at the call"] += 1
                    ctx.evaluated((S.describe(spec), str(req), "refused"))
                    continue
                exp, d = oracle.judge(r, D, spec, ref, req.op, wrt, req.m, bool(req.fd), bool(req.td), bool(req.approx))
                ctx.notes["answered"] += 1
                ctx.evaluated((S.describe(spec), str(req), "answered"), sample=dict(layer=text, call=str(req), verdict=d or "true derivative"))
                if d:
                    ctx.violation(f"{S.signature(spec)}/{req.op}/{wrt}", f"{req} on {text} is answered but is not the derivative of the layer's forward: {d}")

    def run_extra(self, ctx, k, rng, g):
        """Linear layers accept inputs with more feature dimensions: every product is the true derivative, or refused."""
        n, o = rng.randint(1, 4), rng.randint(1, 4)
        extra = rng.choice([(1,), (2,), (3,), (n,), (o,), (2, 2), (1, 2)])
        shape = extra + (n,)
        b = rng.choice([1, 2, 3, n, extra[0]])
        L = dict(t="linear", i=n, o=o, bias=rng.random() < 0.5)
        spec = [L, dict(t="seq", L=[L]), dict(t="seq", L=[act_s("Tanh"), L]), dict(t="seq", L=[L, act_s("Sigmoid")]), dict(t="seq", L=[L, dict(t="flatten")])][k % 5]
        m = S.build_model(spec, ctx.nnj, gen.weights(spec, g, rng), D)
        x = torch.randn(b, *shape, generator=g, dtype=D)
        y = m(x).detach()
        pars = list(m.parameters())
        W0 = torch.nn.utils.parameters_to_vector(pars).detach()
        names = [q for q, _ in m.named_parameters()]

        def f(w, z):
            vals, at = {}, 0
            for q, p in zip(names, pars):
                vals[q] = w[at : at + p.numel()].reshape(p.shape)
                at += p.numel()
            return torch.func.functional_call(m, vals, (z.unsqueeze(0),)).reshape(-1)

        J = dict(input=torch.stack([torch.func.jacrev(f, argnums=1)(W0, z).reshape(-1, z.numel()) for z in x]), weight=torch.stack([torch.func.jacrev(f, argnums=0)(W0, z) for z in x]))
        r = lambda *d: torch.randn(*d, generator=g, dtype=D)
        for wrt, j in J.items():
            T = j.transpose(1, 2)
            O, N = j.shape[1:]
            v, M, A = r(b, O), r(b, 2, O), r(b, O, O)
            dg = A.abs().diagonal(dim1=1, dim2=2)
            todo = [("jacobian", (), {}, j), ("vjp", (v,), {}, (v.unsqueeze(1) @ j).squeeze(1)), ("mjp", (M,), {}, M @ j), ("jTmjp", (A,), {}, T @ A @ j),
                    ("jTmjp", (dg,), dict(from_diag=True, to_diag=True), torch.einsum("bo,bon,bon->bn", dg, j, j)), ("jTmjp", (A,), dict(to_diag=True), (T @ A @ j).diagonal(dim1=1, dim2=2))]
            u, U, P = r(b, N), r(b, N, 2), r(b, N, N)
            dp = P.abs().diagonal(dim1=1, dim2=2)
            todo += [("jvp", (u,), {}, (j @ u.unsqueeze(2)).squeeze(2)), ("jmp", (U,), {}, j @ U), ("jmjTp", (P,), {}, j @ P @ T), ("jmjTp", (dp,), dict(from_diag=True, to_diag=True), torch.einsum("bn,bon,bon->bo", dp, j, j))]
            for op, args, kw, e in todo:
                given = rng.random() < 0.5
                got, ex = attempt(lambda: getattr(m, op)(x, y if given else None, *args, wrt=wrt, **kw))
                if isinstance(got, list) and len(got) == 1:
                    got = got[0]
                ctx.evaluated(("extra dimensions", S.signature(spec), op, wrt, tuple(kw.values()), len(shape), "refused" if ex is not None else "answered"))
                ctx.notes["extra dimensions refused" if ex is not None else "extra dimensions answered"] += 1
                if ex is None and (not torch.is_tensor(got) or got.shape != e.shape or not torch.allclose(got, e, rtol=1e-8, atol=1e-8)):
                    ctx.violation(f"extra-dimensions/{op}/{wrt}", f"{op} (wrt={wrt}, {kw}) of {S.describe(spec)} on an input of shape {tuple(x.shape)} is answered with {tuple(got.shape) if torch.is_tensor(got) else got!r} but is not the derivative of its forward")
                    return

    def run_wrong(self, ctx, k, rng, g):
        spec, shape = self.wrong[k % len(self.wrong)]
        b = rng.choice([1, 2, 3, 4])
        w = gen.weights(spec, g, rng)
        x = torch.randn(b, *shape, generator=g, dtype=D)
        m = S.build_model(spec, ctx.nnj, w, D)
        y = m(x).detach()
        o = y[0].numel()
        bad = sorted({o + 1, o - 1, 2 * o, o + shape[0], 3 * o, max(1, o // 2)} - {o, 0})
        for wrt in ("input", "weight"):
            if wrt == "weight" and S.n_params(spec) == 0:
                continue
            for n in bad:
                for op, arg, kw in (("vjp", (b, n), {}), ("mjp", (b, 2, n), {}), ("mjp", (b, 1, n), {}), ("jTmjp", (b, n), dict(from_diag=True, to_diag=True)), ("jTmjp", (b, n), dict(from_diag=True, to_diag=False)),
                                    ("jTmjp", (b, n, n), dict(from_diag=False, to_diag=False)), ("jTmjp", (b, n, n), dict(from_diag=False, to_diag=True)), ("jTmjp", (b, n), dict(from_diag=True, to_diag=True, diag_backprop=True))):
                    a = torch.randn(*arg, generator=g, dtype=D)
                    r, ex = attempt(getattr(m, op), x, y if rng.random() < 0.5 else None, a, wrt, **kw)
                    ctx.evaluated(("wrong size", S.describe(spec), op, wrt, n - o, tuple(kw.values())))
                    ctx.notes["wrongly sized arguments"] += 1
                    if ex is None:
                        ctx.violation(f"wrong-size/{spec['t']}/{op}/{wrt}", f"{op}(wrt={wrt},{kw}) of {S.describe(spec)} with {o} outputs silently accepted an argument of shape {tuple(arg)}")
            # the right number of entries in the wrong shape
            vecs = [v for v in ((1, b * o), (b * o,), (2 * b, o // 2), (b * o, 1), (b + 1, o)) if v != (b, o) and (math.prod(v) == b * o or v[0] == b + 1)]
            mats = [v for v in ((2 * b, 1, o // 2), (2, b, o), (b + 1, 1, o)) if (v[0], v[2]) != (b, o)]
            mats = [v for v in mats if b > 1 or v[2] != o]  # one sample against several directions may well broadcast
            mets = [v for v in ((1, b * o, o), (b * o, o), (b, o * o), (b + 1, o, o)) if v != (b, o, o) and not (b == 1 and v == (b + 1, o, o))]
            vecs = [v for v in vecs if not (b == 1 and v == (b + 1, o))]
            todo = [("vjp", v, {}) for v in vecs] + [("mjp", v, {}) for v in mats] + [("jTmjp", v, dict(from_diag=False, to_diag=td)) for v in mets for td in (False, True)]
            if spec["t"] != "conv":  # a convolution takes the diagonal in the shape of its output, too
                todo += [("jTmjp", v, dict(from_diag=True, to_diag=td)) for v in vecs for td in (False, True)]
            for op, arg, kw in todo:
                a = torch.randn(*arg, generator=g, dtype=D)
                r, ex = attempt(getattr(m, op), x, y if rng.random() < 0.5 else None, a, wrt, **kw)
                ctx.evaluated(("wrong shape", S.describe(spec), op, wrt, len(arg), arg[0] - b, tuple(kw.values())))
                ctx.notes["wrongly shaped arguments"] += 1
                if ex is None:
                    ctx.violation(f"wrong-shape/{spec['t']}/{op}/{wrt}", f"{op}(wrt={wrt},{kw}) of {S.describe(spec)}, b={b} with {o} outputs silently accepted an argument of shape {tuple(arg)}")
        self.run_target(ctx, rng, g)

    def run_target(self, ctx, rng, g):
        """A network refuses a differentiation target it does not know, and approximate passes that are not diagonal in and out."""
        spec, shape = rng.choice(NETS) if rng.random() < 0.5 else gen.network(rng)
        if spec["t"] not in ("seq", "skip"):
            return
        c = make_case(ctx, rng, g, spec, shape, 2, D, "normal", "plain")
        if c is None:
            return
        y = c.model(c.x).detach()
        for op in ("jacobian", "jvp", "vjp", "jmp", "mjp", "jmjTp", "jTmjp"):
            for wrt in ("weights", "x", "inputs", None):
                if op == "jacobian":
                    args = ()
                else:
                    of = "input" if wrt in ("x", "inputs") or c.n_par == 0 else "weight"
                    args = (None if op not in ("jvp", "vjp") and rng.random() < 0.3 else arg_for(c, op, of, rng, g),)
                r, ex = attempt(getattr(c.model, op), c.x, y if rng.random() < 0.5 else None, *args, wrt=wrt)
                ctx.evaluated(("unknown target", op, str(wrt), S.signature(spec)))
                ctx.notes["unknown targets"] += 1
                if ex is None:
                    ctx.violation(f"target/{op}", f"{op}(wrt={wrt!r}) of {c.text()} is answered with {type(r).__name__}, not refused")
        for op in ("jmjTp", "jTmjp"):
            if op == "jmjTp" and not gen.supports_forward_pass(spec):
                continue
            for fd, td in ((False, False), (False, True), (True, False)):
                r, ex = attempt(getattr(c.model, op), c.x, None, arg_for(c, op, "input", rng, g, fd), wrt="input", from_diag=fd, to_diag=td, diag_backprop=True)
                ctx.evaluated(("approximate mode", op, fd, td, S.signature(spec)))
                if ex is None:
                    ctx.violation(f"approx-mode/{op}", f"{op}(from_diag={fd}, to_diag={td}, diag_backprop=True) of {c.text()} is answered, not refused")


# --------------------------------------------------------------------------------------------------------------
class _Sizes(torch.utils._python_dispatch.TorchDispatchMode):
    """Records the sizes of all tensors that operators create."""

    def __init__(self):
        super().__init__()
        self.largest, self.op, self.count, self.total = 0, None, 0, 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        for t in tensors(out if isinstance(out, (list, tuple)) else [out]):
            self.count += 1
            n = t.numel()
            self.total += n
            if n > self.largest:
                self.largest, self.op = n, str(func)
        return out


class C20(Check):
    rule = ("an evaluation is one pass during which the sizes of all created tensors were recorded and compared with the linear budget; distinct by "
            "structure, operation, target and batch size")
    quick, thorough = 160, 6000
    min_evaluations = 300
    cap = dict(quick=250, thorough=2400)

    def sizes(self, spec, shape):
        """Largest activation, largest number of parameters of one layer, and total number of parameters."""
        acts = [math.prod(shape)]
        ref_in = []
        S.forward(spec, S._Take(torch.zeros(S.n_params(spec))), torch.zeros(1, *shape), rec=lambda s, x: ref_in.append(x[0].numel()))
        acts += ref_in + [math.prod(S.out_shape(spec, shape))]
        return sum(acts), max(acts), S.n_params(spec)

    def nets(self, rng, i):
        L = lambda i, o: dict(t="linear", i=i, o=o, bias=True)
        C = lambda i, o, k, p, vm=True: dict(t="conv", i=i, o=o, k=k, p=p, bias=True, vmap=vm)
        A = lambda: act_s(rng.choice(gen.ACTS))
        seq = lambda *a: dict(t="seq", L=list(a))
        fixed = [
            (seq(L(300, 20), A(), L(20, 300)), (300,)), (A(), (700,)), (seq(A(), A()), (600,)), (dict(t="flatten"), (3, 14, 14)), (dict(t="reshape", dims=[14, 42]), (588,)),
            (seq(A(), dict(t="flatten"), L(588, 10)), (3, 14, 14)), (dict(t="skip", L=[L(300, 10), A(), L(10, 300)]), (300,)), (seq(dict(t="skip", L=[A()]), L(800, 10)), (400,)),
            (C(2, 2, 3, 1), (2, 18, 18)), (seq(C(1, 3, 3, 1), A(), C(3, 2, 3, 1)), (1, 18, 18)), (dict(t="up", s=2), (2, 10, 10)), (dict(t="pool", k=2), (3, 16, 16)), (seq(dict(t="pool", k=2), C(2, 2, 3, 1), dict(t="up", s=2)), (2, 16, 16)),
            (dict(t="skip", L=[dict(t="pool", k=2), C(2, 2, 3, 1), dict(t="up", s=2)]), (2, 16, 16)), (seq(dict(t="skip", L=[C(1, 2, 3, 1), A()]), dict(t="flatten"), L(768, 5)), (1, 16, 16)), (dict(t="pool", k=3, s=1, p=1), (2, 16, 16)),
            (seq(L(40, 900), A()), (40,)), (L(500, 4), (500,)), (C(2, 3, 3, 1, False), (2, 16, 16)), (seq(seq(L(400, 8), A()), seq(L(8, 400), A())), (400,)),
        ]
        def nest(d, t="seq"):
            return dict(t=t, L=[L(20, 20), A()] + ([nest(d - 1)] if d else [L(20, 20)]) + [A()])

        def cnest(d):
            return dict(t="seq", L=[C(1, 1, 3, 1), A()] + ([cnest(d - 1)] if d else []))

        fixed += [(seq(*[f() for _ in range(30) for f in (lambda: L(20, 20), A)]), (20,)), (nest(9), (20,)), (seq(*[nest(1) for _ in range(8)]), (20,)),
                  (cnest(7), (1, 8, 8)), (seq(*[f() for _ in range(15) for f in (lambda: C(1, 1, 3, 1), A)]), (1, 8, 8)),
                  (dict(t="skip", L=[dict(t="skip", L=[dict(t="skip", L=[L(30, 30), A()]), L(60, 30)]), L(60, 30), A()]), (30,))]
        fixed += [(dict(t="pool", k=2), (1, 30, 30)), (dict(t="pool", k=3, s=2, ceil=True), (1, 25, 25)), (dict(t="up", s=2), (1, 14, 14)), (C(1, 1, 3, 1), (1, 24, 24)), (C(1, 1, 5, 2, False), (1, 24, 24)),
                  (dict(t="conv", i=1, o=1, k=3, p=0, bias=False, vmap=True), (1, 26, 26)), (dict(t="linear", i=600, o=1, bias=False), (600,)), (dict(t="linear", i=1, o=600, bias=True), (1,))]
        if i < 2 * len(fixed):
            return fixed[i % len(fixed)] + ([1, None][i // len(fixed)],)
        if i % 3 == 0:  # small networks, large batches: the work per sample must not grow with the batch
            small = [(seq(dict(t="linear", i=8, o=8, bias=False), A()), (8,)), (seq(L(6, 6), A(), dict(t="linear", i=6, o=9, bias=False)), (6,)), (C(1, 2, 3, 1), (1, 5, 5)), (C(2, 1, 2, 0, False), (2, 4, 4)), (A(), (12,)),
                     (seq(dict(t="conv", i=1, o=2, k=2, p=0, bias=False, vmap=True), A(), dict(t="flatten"), L(18, 3)), (1, 4, 4)), (dict(t="skip", L=[L(6, 4), A()]), (6,)), (dict(t="pool", k=2), (2, 6, 6)), (dict(t="up", s=2), (2, 3, 3)),
                     (dict(t="flatten"), (3, 4)), (dict(t="reshape", dims=[4, 3]), (12,))]
            k = i // 3
            spec, shape = small[k % len(small)]
            for _ in range(50 * (k % 3 == 0)):
                s2, sh2 = gen.network(rng, exotic=False)
                if not any(s["t"] == "l2" for s in S.leaves(s2)):
                    spec, shape = s2, sh2
                    break
            return spec, shape, rng.choice([24, 48, 64, 97, 128])
        return gen.large_network(rng) + (None,)

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        spec, shape, many = self.nets(rng, i)
        b = many or rng.choice([1, 2, 3])
        ctx.notes["large batches" if many and many > 3 else "large networks"] += 1
        w = gen.weights(spec, g, rng)
        model = S.build_model(spec, ctx.nnj, w, D)
        x = torch.randn(b, *shape, generator=g, dtype=D)
        total, act, par = self.sizes(spec, shape)
        o, n = math.prod(S.out_shape(spec, shape)), math.prod(shape)
        fwd = gen.supports_forward_pass(spec)
        every = []
        for wrt in ("input", "weight"):
            dim = n if wrt == "input" else par
            if dim == 0:
                continue
            reqs = [Req("vjp", wrt, torch.randn(b, o, generator=g, dtype=D)), Req("jTmjp", wrt, torch.rand(b, o, generator=g, dtype=D), True, True, True), Req("jTmjp", wrt, None, True, True, True)]
            if fwd:
                reqs += [Req("jvp", wrt, torch.randn(b, dim, generator=g, dtype=D)), Req("jmjTp", wrt, torch.rand(b, dim, generator=g, dtype=D), True, True, True)]
            every += reqs
            for req in reqs:
                val = model(x).detach() if rng.random() < 0.5 else None
                z = _Sizes()
                try:
                    with z:
                        req.on(model, x, val)
                except Exception as ex:
                    ctx.inconclusive["call raised"] += 1
                    continue
                budget = self.budget(spec, b, act, total, par, wrt)
                ctx.evaluated((S.describe(spec), str(req), b), sample=dict(network=S.describe(spec)[:200], call=str(req), largest_tensor=z.largest, created_by=z.op, budget=budget, jacobian_size=b * o * dim, tensors_seen=z.count))
                ctx.notes["tensors observed"] += z.count
                ctx.notes["ratio %02d%%" % min(99, 5 * int(20 * z.largest / budget))] += 1
                flow = self.flow(spec, shape, b, par if wrt == "weight" else par // max(b, 1))
                ctx.notes["work ratio %03d" % (z.total // max(flow, 1))] += 1
                if z.total > 40 * flow * self.nesting(spec) + 20000:
                    ctx.violation(f"work/{req.op}/{wrt}/{S.signature(spec)[:80]}", f"{req} on {S.describe(spec)[:200]} in={shape} b={b} created {z.total} elements in {z.count} tensors; one ordinary sweep has about {flow}")
                if z.largest > budget:
                    ctx.violation(f"size/{req.op}/{wrt}/{S.signature(spec)[:80]}", f"{req} on {S.describe(spec)[:200]} in={shape} b={b} created a tensor of {z.largest} elements ({z.op}); linear budget {budget}, Jacobian {b * o * dim}")
        if i % 2 == 0 and every:
            for req in rng.sample(every, min(2, len(every))):
                self.grows(ctx, spec, model, x, req, rng)

    def grows(self, ctx, spec, model, x, req, rng):
        """Repeats one pass, on the same or on always new tensors, and counts the tensors that stay alive."""
        given, new = rng.random() < 0.5, rng.random() < 0.5

        def once():
            y = x.clone() if new else x
            q = Req(req.op, req.wrt, map_m(req.m, torch.clone) if new else req.m, req.fd, req.td, req.approx)
            attempt(q.on, model, y, model(y) if given else None)

        a, m, e = retained_growth(once, 3, 5)
        ctx.evaluated(("growth", S.describe(spec), str(req), given, new))
        ctx.notes["growth probes"] += 1
        if e > m > a:
            ctx.violation(f"growth/{req.op}", f"repeating {req} (val {'given' if given else 'omitted'}, {'new' if new else 'the same'} tensors) on {S.describe(spec)[:200]} leaves more and more tensors alive: {a} -> {m} -> {e}")

    def nesting(self, spec):
        return 1 + max([self.nesting(t) for t in spec["L"]], default=0) if spec["t"] in ("seq", "skip") else 1

    def flow(self, spec, shape, b, par):
        """Elements that one ordinary sweep produces: the input and output of every layer (unfolded for convolutions, copied once per
        enclosing skip connection) and the parameters."""
        tot = 0

        def rec(s, x):
            nonlocal tot
            k = math.prod(S.pair(s["k"])) if s["t"] in ("conv", "pool") else 1
            tot += x[0].numel() * k + math.prod(S.out_shape(s, tuple(x.shape[1:]))) * k

        S.forward(spec, S._Take(torch.zeros(S.n_params(spec))), torch.zeros(1, *shape), rec=rec)
        return b * (tot + math.prod(shape)) + b * par

    def budget(self, spec, b, act, total, par, wrt):
        """Elements of the largest tensor that a linear-cost pass needs, with slack 4; convolutions unfold their input
        (kernel size times the activation) and hold per-sample kernel gradients."""
        k = max([math.prod(S.pair(s["k"])) * max(1, s["i"], s["o"]) for s in S.leaves(spec) if s["t"] == "conv"] + [1])
        return 4 * (b * act * (k if k > 1 else 1) + par * (b if wrt == "weight" or b > 4 else 1) + 64)


# --------------------------------------------------------------------------------------------------------------
class C21(Check):
    rule = "an evaluation is one inverted matrix batch compared with the identity residual; distinct by nesting shape, sizes, dtype and conditioning"
    quick, thorough = 3000, 100000
    min_evaluations = 3000
    assumptions = ["symmetric positive-definite blocks with condition number up to 1e6 (float64) / 1e2 (float32)"]

    def spd(self, rng, g, dtype, b=None, n=None):
        b, n = b or rng.choice([1, 1, 2, 3, 5, 17]), n or rng.choice([1, 2, 3, 4, 6, 9, 20, 40])
        A = torch.randn(b, n, n, generator=g, dtype=D)
        Q, _ = torch.linalg.qr(A)
        top = 6 if dtype == D else 2
        kind = rng.choice(["any", "near-identity", "scaled", "diagonal", "identity", "same"])
        ev = 10 ** (torch.rand(b, n, generator=g, dtype=D) * rng.choice([1, 2, top]) - 1)
        if kind == "near-identity":
            ev = 1 + 0.1 * torch.rand(b, n, generator=g, dtype=D)
        if kind == "scaled":
            ev = ev * rng.choice([1e-4, 1e4, 1e8])
        M = Q @ torch.diag_embed(ev) @ Q.transpose(1, 2)
        if kind == "diagonal":
            M = torch.diag_embed(ev)
        if kind == "identity":
            M = torch.eye(n, dtype=D).repeat(b, 1, 1)
        if kind == "same":  # samples whose blocks are equal, or equal up to their small eigenvalues
            M = Q[:1] @ torch.diag_embed(ev[:1] * torch.where(ev[:1] < 0.2 * ev[:1].amax(), 1 + rng.choice([0, 1, 1]) * torch.rand(b, n, generator=g, dtype=D), 1.0)) @ Q[:1].transpose(1, 2)
        M = 0.5 * (M + M.transpose(1, 2))
        return gen.relayout(M.to(dtype), rng.choice(["plain", "plain", "strided", "transposed"]))

    def views(self, rng, g, dtype):
        """Diagonal blocks cut out of one dense matrix: views that share memory, overlap, start at the same element or are the same object."""
        n = rng.choice([3, 5, 9, 14])
        full = self.spd(rng, g, dtype, n=n)
        cuts = []
        for _ in range(rng.randint(2, 5)):
            a = rng.choice([0, 0, rng.randrange(n)])
            z = rng.randint(a + 1, n)
            cuts.append(full[:, a:z, a:z])
        if rng.random() < 0.4:
            cuts.append(cuts[0])
        if rng.random() < 0.3:
            cuts = [cuts[:1], cuts[1:]]
        return cuts

    def nest(self, rng, g, dtype, depth):
        if depth == 0 or rng.random() < 0.3:
            if rng.random() < 0.1:
                return self.spd(rng, g, dtype, 1)[0]  # a single matrix
            return self.spd(rng, g, dtype)
        return [self.nest(rng, g, dtype, depth - 1) for _ in range(rng.randint(1, 3))]

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        dtype = D if rng.random() < 0.75 else F32
        if i % 5 == 4:
            # blocks as produced by the metric pass
            spec, shape = gen.network(rng)
            if S.n_params(spec) == 0:
                spec, shape = NETS[0]
            c = mk(ctx, rng, g, spec, shape, dtype=D, x_kind="normal", layout="plain")
            if c is None:
                return
            r, ex = attempt(c.model.jTmjp, c.x, None, None, "weight", False, False)
            if ex is not None or r is None:
                ctx.inconclusive["no blocks"] += 1
                return
            m, ex = attempt(self.ridge, r)  # what the metric pass returns is not this property's business
            if ex is not None or any(not bool(torch.isfinite(t).all()) or float(torch.linalg.eigvalsh(t).min()) < 0.1 for t in tensors(m)):
                ctx.inconclusive["no positive-definite blocks"] += 1
                return
            dtype = D
            src = "jTmjp"
        else:
            m, src = self.nest(rng, g, dtype, rng.choice([0, 0, 1, 2, 3])), "synthetic"
            if rng.random() < 0.2:
                m, src = self.views(rng, g, dtype), "views of one matrix"
        before = snap(m)
        r, ex = attempt(ctx.nnj.invert_block_diagonal, m)
        shape = self.shape(m)
        if ex is not None:
            ctx.evaluated((src, str(shape)))
            return ctx.violation("invert/raise", f"invert_block_diagonal on {str(shape)[:200]} raised {type(ex).__name__}: {str(ex)[:200]}")
        if self.shape(r) != shape:
            ctx.evaluated((src, str(shape)))
            return ctx.violation("invert/structure", f"structure {str(self.shape(r))[:200]} for argument {str(shape)[:200]}")
        for M, R, B in zip(tensors(m), tensors(r), tensors(before)):
            ctx.evaluated((src, str(shape)[:200], str(dtype)), sample=dict(source=src, blocks=str(shape)[:120]))
            if not torch.equal(M, B):
                return ctx.violation("invert/argument", "the argument was modified")
            if R.dtype != M.dtype:
                return ctx.violation("invert/dtype", f"{R.dtype} for {M.dtype}")
            E = torch.linalg.inv(M.double())
            cond = (M.double().norm(dim=(-2, -1)) * E.norm(dim=(-2, -1)))
            eps = 2.3e-16 if M.dtype == D else 1.2e-7
            tol = 200 * eps * cond * E.norm(dim=(-2, -1)) * math.sqrt(M.shape[-1])
            err = (R.double() - E).norm(dim=(-2, -1))
            if not bool((err <= tol).all()):
                return ctx.violation("invert/value", f"result is not the inverse for a {tuple(M.shape)} {dtype} batch: error {err.max().item():.3g}, tolerance {tol.max().item():.3g}")

    def ridge(self, r):
        if isinstance(r, list):
            return [self.ridge(t) for t in r]
        return 0.5 * (r + r.transpose(1, 2)) + 0.5 * torch.eye(r.shape[-1], dtype=r.dtype)

    def shape(self, m):
        return [self.shape(t) for t in m] if isinstance(m, list) else (tuple(m.shape) if torch.is_tensor(m) else type(m).__name__)


# --------------------------------------------------------------------------------------------------------------
class C22(Check):
    rule = ("an evaluation is one product of a copy compared with the original's, or of either after the other was used or changed; distinct by structure, "
            "kind of copy, operation and phase")
    quick, thorough = 1100, 20000
    min_evaluations = 2000
    KINDS = ("deepcopy", "pickle", "torch.save", "state_dict", "deepcopy-of-deepcopy")

    def setup(self, ctx):
        self.enum = NETS + LEAVES[::2]

    @staticmethod
    def maps(model, clone=True):
        """The feature maps that the containers of the model have recorded, where they record them."""
        out = []
        for m in model.modules():
            f = getattr(m, "feature_maps", None)
            if isinstance(f, (list, tuple)) and all(torch.is_tensor(t) for t in f):
                out.append([t.clone() if clone else t for t in f])
        return out

    def copy(self, kind, c, ctx):
        m = c.model
        if kind == "deepcopy":
            return copy.deepcopy(m)
        if kind == "deepcopy-of-deepcopy":
            return copy.deepcopy(copy.deepcopy(m))
        if kind == "pickle":
            return pickle.loads(pickle.dumps(m))
        if kind == "torch.save":
            f = io.BytesIO()
            torch.save(m, f)
            f.seek(0)
            return torch.load(f, weights_only=False)
        n = S.build(c.spec, ctx.nnj).to(c.dtype)
        n.load_state_dict(m.state_dict())
        return n

    def run(self, ctx, i, seed):
        rng, g = self.rngs(seed)
        c = some_case(ctx, rng, g, i // 2, self.enum, dtype=D if rng.random() < 0.85 else F32)
        if c is None:
            return
        kind = self.KINDS[i % len(self.KINDS)]
        used = rng.choice(["unused", "forward", "product", "forward-nonleaf"])
        reqs = all_reqs(c, rng, g)
        rng.shuffle(reqs)
        reqs = reqs[:7]
        if used == "forward":
            c.model(torch.randn(2, *c.shape, generator=g, dtype=D).to(c.dtype))
        elif used == "forward-nonleaf":
            z = torch.randn(2, *c.shape, generator=g, dtype=D).to(c.dtype).requires_grad_(True)
            c.model(z * 1.0)
        elif used == "product" and reqs:
            attempt(reqs[0].on, c.model, c.x, None)
        sig = S.signature(c.spec)
        text = f"{kind} of a {used} {c.text()}"
        base = []
        for r in reqs:
            v, ex = attempt(r.on, S.build_model(c.spec, ctx.nnj, c.w, c.dtype), c.x, None)
            base.append((r, snap(v), ex))
        out = c.model(c.x).detach().clone() if used != "unused" else S.build_model(c.spec, ctx.nnj, c.w, c.dtype)(c.x).detach()
        if used == "forward-nonleaf":
            c.model(torch.randn(2, *c.shape, generator=g, dtype=D).to(c.dtype).requires_grad_(True) * 1.0)
        cp, ex = attempt(self.copy, kind, c, ctx)
        ctx.evaluated(("copy", kind, used, sig))
        if ex is not None:
            ctx.violation(f"copy/{kind}/{used}", f"{text} raised {type(ex).__name__}: {str(ex)[:200]}")
            return
        if type(cp) is not type(c.model):
            ctx.violation(f"copy/{kind}/type", f"{text} is a {type(cp).__name__}")
            return

        def agree(model, phase, who):
            y, ex = attempt(model, c.x)
            d = repr(ex) if ex is not None else same(y, out, c.dtype)
            ctx.evaluated(("output", kind, phase, who, sig))
            if d:
                ctx.violation(f"output/{kind}/{phase}/{who}", f"output of the {who} ({phase}) differs for {text}: {str(d)[:300]}")
                return False
            for r, e, eex in base:
                if eex is not None:
                    continue
                given = rng.random() < 0.5
                v, ex = attempt(r.on, model, c.x, model(c.x).detach() if given else None)
                d = f"raised {type(ex).__name__}: {str(ex)[:200]}" if ex is not None else same(v, e, c.dtype, scale=oracle.floor_of(r.m))
                ctx.evaluated((r.op, r.wrt, kind, phase, who, sig), sample=dict(call=str(r), copy=kind, phase=phase, who=who, network=c.text()))
                if d:
                    ctx.violation(f"{r.op}/{r.wrt}/{kind}/{phase}/{who}", f"{r} on the {who} ({phase}) differs for {text}: {d}")
                    return False
            return True

        order = [("copy", cp), ("original", c.model)]
        rng.shuffle(order)
        for who, m in order:
            if not agree(m, "after copying", who):
                return
        # interleaved use: val computed on one, the other used on other inputs in between
        for who, m, other in (("original", c.model, cp), ("copy", cp, c.model)):
            for r, e, eex in base[:3]:
                if eex is not None:
                    continue
                v = m(c.x).detach()
                maps = self.maps(m)
                other(torch.randn(3, *c.shape, generator=g, dtype=D).to(c.dtype))
                ctx.evaluated(("feature maps", kind, who, sig))
                if any(len(t) != len(now) or any(p.shape != q.shape or not torch.equal(p, q) for p, q in zip(t, now)) for t, now in zip(maps, self.maps(m, False))):
                    ctx.violation(f"feature-maps/{kind}/{who}", f"the feature maps recorded by the {who} changed when the other one was used, for {text}")
                    return
                got, ex = attempt(r.on, m, c.x, v)
                d = f"raised {type(ex).__name__}: {str(ex)[:200]}" if ex is not None else same(got, e, c.dtype, scale=oracle.floor_of(r.m))
                ctx.evaluated((r.op, r.wrt, kind, "interleaved", who, sig))
                if d:
                    ctx.violation(f"{r.op}/{r.wrt}/{kind}/interleaved/{who}", f"{r} on the {who} differs after the other one was used, for {text}: {d}")
                    return
        # weights of one changed, the other must not move
        if c.n_par:
            for who, m, victim in rng.sample([("copy", c.model, cp), ("original", cp, c.model)], 2):
                how = rng.choice(["inplace", "set_weight", "optimizer"])
                w2 = torch.randn(c.n_par, generator=g, dtype=D).to(c.dtype)
                if how == "inplace":
                    S.load_flat(m, w2)
                elif how == "set_weight":
                    m.set_weight(w2)
                else:
                    o = torch.optim.SGD(m.parameters(), lr=0.1)
                    m(c.x).sum().backward()
                    o.step()
                    o.zero_grad()
                if not agree(victim, f"after {how} on the other", who):
                    return
                S.load_flat(m, c.w)
        if any(a is b for a in cp.parameters() for b in c.model.parameters()):
            ctx.violation(f"copy/{kind}/shared", f"{text} shares parameters with the original")


CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
