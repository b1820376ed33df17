"""Network specifications (JSON-able), an independent reference semantics for them, and a builder of the
corresponding nnj models.

The reference (`forward`, `Ref`) uses only torch.nn.functional and torch.func.  It never calls nnj, so it is an
oracle for the forward function as well as for the derivatives.
"""
import math

import torch
import torch.nn.functional as F
from torch.func import jacrev, vmap

# --------------------------------------------------------------------------------------------------------------
# spec = dict(t=<type>, ...).  Types: linear conv act l2 flatten reshape up pool seq skip custom
# --------------------------------------------------------------------------------------------------------------


def pair(v):
    return tuple(v) if isinstance(v, (list, tuple)) else (v, v)


def leaves(spec):
    """All leaf specs, in execution order."""
    if spec["t"] in ("seq", "skip"):
        for s in spec["L"]:
            yield from leaves(s)
    else:
        yield spec


def param_shapes(spec):
    """Shapes of the parameters in the order of the module's parameter list."""
    t = spec["t"]
    if t in ("seq", "skip"):
        out = []
        for s in spec["L"]:
            out += param_shapes(s)
        return out
    if t == "linear":
        return [(spec["o"], spec["i"])] + ([(spec["o"],)] if spec["bias"] else [])
    if t == "conv":
        k = pair(spec["k"])
        return [(spec["o"], spec["i"] // spec.get("groups", 1), *k)] + ([(spec["o"],)] if spec["bias"] else [])
    if t == "custom":
        from . import custom

        return custom.KINDS[spec["kind"]].shapes(spec)
    return []


def n_params(spec):
    return sum(math.prod(s) for s in param_shapes(spec))


class _Take:
    """Hands out slices of a flat weight vector."""

    def __init__(self, w):
        self.w, self.p = w, 0

    def __call__(self, shape):
        n = math.prod(shape)
        out = self.w[self.p : self.p + n].reshape(shape)
        self.p += n
        return out


def truncexp(x):
    """exp(x), with derivative exp(clamp(x, -15, 15))."""
    slope = torch.exp(x.detach().clamp(-15, 15))
    g = slope * x
    return torch.exp(x.detach()) + (g - g.detach())


def forward(spec, take, x, rec=None):
    """Reference forward; x has a batch dimension.  rec(kind, spec, x_in) is told about every leaf input."""
    t = spec["t"]
    if t == "seq":
        for s in spec["L"]:
            x = forward(s, take, x, rec)
        return x
    if t == "skip":
        y = x
        for s in spec["L"]:
            y = forward(s, take, y, rec)
        return torch.cat([x, y], dim=1)
    if rec is not None:
        rec(spec, x)
    if t == "linear":
        W = take((spec["o"], spec["i"]))
        y = x @ W.T
        return y + take((spec["o"],)) if spec["bias"] else y
    if t == "conv":
        k = pair(spec["k"])
        W = take((spec["o"], spec["i"] // spec.get("groups", 1), *k))
        bias = take((spec["o"],)) if spec["bias"] else None
        p = pair(spec["p"])
        mode = spec.get("pmode", "zeros")
        if mode != "zeros":
            x = F.pad(x, (p[1], p[1], p[0], p[0]), mode={"replicate": "replicate", "reflect": "reflect", "circular": "circular"}[mode])
            p = (0, 0)
        return F.conv2d(x, W, bias, stride=pair(spec.get("s", 1)), padding=p, dilation=pair(spec.get("d", 1)), groups=spec.get("groups", 1))
    if t == "act":
        n = spec["n"]
        if n == "Tanh":
            return torch.tanh(x)
        if n == "ReLU":
            return torch.relu(x)
        if n == "Sigmoid":
            return torch.sigmoid(x)
        if n == "Sinusoidal":
            return torch.sin(x)
        if n == "Softplus":
            return F.softplus(x, spec.get("beta", 1), spec.get("threshold", 20))
        if n == "TruncExp":
            return truncexp(x)
        raise KeyError(n)
    if t == "l2":
        n = torch.linalg.vector_norm(x.reshape(x.shape[0], -1), dim=1) + spec.get("eps", 1e-6)
        return x / n.reshape(-1, *([1] * (x.dim() - 1)))
    if t == "flatten":
        return x.reshape(x.shape[0], -1)
    if t == "reshape":
        return x.reshape(x.shape[0], *spec["dims"])
    if t == "up":
        kw = {}
        if spec.get("mode", "nearest") in ("bilinear", "bicubic"):
            kw["align_corners"] = spec.get("align", None)
        s = spec.get("s")
        return F.interpolate(x, size=tuple(spec["size"]) if "size" in spec else None, scale_factor=tuple(s) if isinstance(s, list) else s, mode=spec.get("mode", "nearest"), **kw)
    if t == "pool":
        k = pair(spec["k"])
        s = pair(spec["s"]) if spec.get("s") is not None else k
        return F.max_pool2d(x, k, s, pair(spec.get("p", 0)), pair(spec.get("d", 1)), spec.get("ceil", False))
    if t == "custom":
        from . import custom

        return custom.KINDS[spec["kind"]].forward(spec, take, x)
    raise KeyError(t)


def out_shape(spec, in_shape):
    w = torch.zeros(n_params(spec), dtype=torch.float64)
    return tuple(forward(spec, _Take(w), torch.zeros(1, *in_shape, dtype=torch.float64)).shape[1:])


# --------------------------------------------------------------------------------------------------------------
# Reference derivatives, always computed in float64
# --------------------------------------------------------------------------------------------------------------
class Ref:
    """Values and Jacobians of a spec at (x, w).  Lazy and cached."""

    def __init__(self, spec, x, w):
        self.spec = spec
        self.x = x.detach().to(torch.float64).contiguous().clone()
        self.w = w.detach().to(torch.float64).contiguous().clone()
        self.b = x.shape[0]
        self._J = {}
        self._leaf = None

    def f(self, x1, w):
        return forward(self.spec, _Take(w), x1.unsqueeze(0)).squeeze(0).reshape(-1)

    def val(self):
        with torch.no_grad():
            return forward(self.spec, _Take(self.w), self.x)

    def J(self, wrt):
        """(b, out, in) or (b, out, params); None if there are no parameters."""
        if wrt not in self._J:
            if wrt == "weight":
                if self.w.numel() == 0:
                    self._J[wrt] = None
                else:
                    self._J[wrt] = vmap(jacrev(self.f, argnums=1), in_dims=(0, None))(self.x, self.w).detach()
            else:
                J = vmap(jacrev(self.f, argnums=0), in_dims=(0, None))(self.x, self.w).detach()
                self._J[wrt] = J.reshape(J.shape[0], J.shape[1], -1)
        return self._J[wrt]

    def leaf_inputs(self):
        out = []
        with torch.no_grad():
            forward(self.spec, _Take(self.w), self.x, rec=lambda s, x: out.append((s, x.clone())))
        return out


def kink_report(spec, ref, x_kind, dtype):
    """None if the derivative is unambiguous at this point (no activation within rounding error of a kink and no
    numerically chaotic magnitude); otherwise the reason for which the case is inconclusive.

    A single leaf layer sees the very same floating point input as the reference, so it is never ambiguous."""
    if spec["t"] not in ("seq", "skip"):
        return None
    m = 1e-8 if dtype == torch.float64 else 2e-4
    cap = 1e5 if dtype == torch.float64 else 60.0
    for s, x in ref.leaf_inputs():
        if not torch.isfinite(x).all():
            return "non-finite activation"
        scale = 1.0 + x.abs().max().item()
        if scale > cap:
            return "huge activation"
        if s["t"] == "act" and s["n"] == "ReLU":
            a = x.abs()
            if ((a > 0) & (a < m * scale)).any():
                return "relu kink"
        if s["t"] == "act" and s["n"] == "Softplus":
            a = (x * s.get("beta", 1) - s.get("threshold", 20)).abs()
            if (a < m * scale * 10).any() and s.get("threshold", 20) < 15:
                return "softplus kink"
        if s["t"] == "act" and s["n"] == "TruncExp" and x.max() > 8:
            return "large exponential"
        if s["t"] == "l2":
            n = x.reshape(x.shape[0], -1).norm(dim=1)
            if (n < 1e-2).any():
                return "tiny norm"
        if s["t"] == "pool":
            k, p, d = pair(s["k"]), pair(s.get("p", 0)), pair(s.get("d", 1))
            st = pair(s["s"]) if s.get("s") is not None else k
            xp = F.pad(x, (p[1], p[1], p[0], p[0]), value=-1e300)
            b, c, h, w = xp.shape
            full = all(n >= dd * (kk - 1) + 1 for n, kk, dd in zip((h, w), k, d))  # else only partial (ceil) windows
            u = F.unfold(xp.reshape(b * c, 1, h, w), k, dilation=d, stride=st) if full else xp[:, :0]
            if full and u.shape[1] > 1:
                top = u.max(dim=1, keepdim=True).values
                diff = top - u
                if ((diff > 0) & (diff < m * scale)).any():
                    return "pool near-tie"
                ties = (diff == 0).sum(dim=1) > 1
                if (ties & (top.squeeze(1) != 0)).any() and x_kind not in ("normal", "big", "small", "neg", "sparse", "mixed", "offset"):
                    return "pool exact tie"
            if s.get("ceil"):
                # partial windows: be conservative, require all values to be well separated
                v = x.reshape(b, c, -1).sort(dim=-1).values
                gap = (v[..., 1:] - v[..., :-1])
                if gap.numel() and ((gap > 0) & (gap < m * scale)).any():
                    return "pool near-tie (ceil)"
    return None


# --------------------------------------------------------------------------------------------------------------
# nnj models
# --------------------------------------------------------------------------------------------------------------
def user_class(cls):
    """A user's trivial subclass of a class of the package."""
    from . import custom

    name = f"User{cls.__name__}"
    sub = getattr(custom, name, None)
    if sub is None or sub.__mro__[1] is not cls:
        def forward(self, *args, **kwargs):
            return cls.forward(self, *args, **kwargs)

        sub = type(name, (cls,), {"forward": forward, "__module__": custom.__name__, "__qualname__": name})
        setattr(custom, name, sub)
    return sub


def build(spec, nnj, memo=None):
    """Leaves with the same "share" key are one and the same module object; "sub" marks an instance of a user's subclass."""
    t = spec["t"]
    memo = {} if memo is None else memo
    if spec.get("sub"):
        m = build({k: v for k, v in spec.items() if k != "sub"}, nnj, memo)
        if not m.__class__.__name__.startswith("User"):
            m.__class__ = user_class(m.__class__)
        return m
    if "share" in spec:
        if spec["share"] not in memo:
            memo[spec["share"]] = build({k: v for k, v in spec.items() if k != "share"}, nnj)
        return memo[spec["share"]]
    if t in ("seq", "skip"):
        kw = {"add_hooks": spec["hooks"]} if "hooks" in spec else {}
        return (nnj.Sequential if t == "seq" else nnj.SkipConnection)(*[build(s, nnj, memo) for s in spec["L"]], **kw)
    if t == "linear":
        return nnj.Linear(spec["i"], spec["o"], bias=spec["bias"])
    if t == "conv":
        kw = {}
        for key, name in (("s", "stride"), ("d", "dilation")):
            if key in spec:
                kw[name] = tuple(spec[key]) if isinstance(spec[key], list) else spec[key]
        if "groups" in spec:
            kw["groups"] = spec["groups"]
        if "pmode" in spec:
            kw["padding_mode"] = spec["pmode"]
        k = tuple(spec["k"]) if isinstance(spec["k"], list) else spec["k"]
        p = tuple(spec["p"]) if isinstance(spec["p"], list) else spec["p"]
        return nnj.Conv2d(spec["i"], spec["o"], k, padding=p, bias=spec["bias"], use_vmap_for_backprop=spec.get("vmap", True), **kw)
    if t == "act":
        if spec["n"] == "Softplus" and ("beta" in spec or "threshold" in spec):
            return nnj.Softplus(spec.get("beta", 1), spec.get("threshold", 20))
        if spec.get("inplace"):
            return nnj.ReLU(inplace=True)
        return getattr(nnj, spec["n"])()
    if t == "l2":
        return nnj.L2Norm(spec["eps"]) if "eps" in spec else nnj.L2Norm()
    if t == "flatten":
        return nnj.Flatten()
    if t == "reshape":
        return nnj.Reshape(*spec["dims"])
    if t == "up":
        kw = {}
        if "size" in spec:
            kw["size"] = tuple(spec["size"])
        else:
            kw["scale_factor"] = tuple(spec["s"]) if isinstance(spec["s"], list) else spec["s"]
        if "mode" in spec:
            kw["mode"] = spec["mode"]
        if "align" in spec:
            kw["align_corners"] = spec["align"]
        return nnj.Upsample(**kw)
    if t == "pool":
        def a(v):
            return tuple(v) if isinstance(v, list) else v

        kw = {}
        for key, name in (("s", "stride"), ("p", "padding"), ("d", "dilation")):
            if spec.get(key) is not None:
                kw[name] = a(spec[key])
        if "ceil" in spec:
            kw["ceil_mode"] = spec["ceil"]
        return nnj.MaxPool2d(a(spec["k"]), **kw)
    if t == "custom":
        from . import custom

        return custom.KINDS[spec["kind"]].build(spec, nnj)
    raise KeyError(t)


def load_flat(model, w):
    """Copies a flat weight vector into the parameters (without nnj's own set_weight)."""
    p = 0
    with torch.no_grad():
        for par in model.parameters():
            n = par.numel()
            par.copy_(w[p : p + n].reshape(par.shape))
            p += n
    assert p == w.numel(), (p, w.numel())


def read_flat(model):
    ps = [p.detach().reshape(-1) for p in model.parameters()]
    return torch.cat(ps).clone() if ps else torch.zeros(0)


def build_model(spec, nnj, w, dtype):
    m = build(spec, nnj).to(dtype)
    load_flat(m, w.to(dtype))
    return m


# --------------------------------------------------------------------------------------------------------------
# torch.nn counterpart (for the forward/autograd and the conversion checks)
# --------------------------------------------------------------------------------------------------------------
def build_torch(spec):
    nn = torch.nn
    t = spec["t"]
    if t == "seq":
        return nn.Sequential(*[build_torch(s) for s in spec["L"]])
    if t == "linear":
        return nn.Linear(spec["i"], spec["o"], bias=spec["bias"])
    if t == "conv":
        kw = {}
        if "s" in spec:
            kw["stride"] = spec["s"]
        if "d" in spec:
            kw["dilation"] = spec["d"]
        if "groups" in spec:
            kw["groups"] = spec["groups"]
        if "pmode" in spec:
            kw["padding_mode"] = spec["pmode"]
        return nn.Conv2d(spec["i"], spec["o"], pair(spec["k"]), padding=pair(spec["p"]), bias=spec["bias"], **kw)
    if t == "act":
        if spec["n"] == "Softplus":
            return nn.Softplus(spec.get("beta", 1), spec.get("threshold", 20))
        return getattr(nn, spec["n"])()
    if t == "flatten":
        return nn.Flatten()
    if t == "up":
        kw = {"size": tuple(spec["size"])} if "size" in spec else {"scale_factor": spec["s"]}
        return nn.Upsample(mode=spec.get("mode", "nearest"), **kw)
    if t == "pool":
        return nn.MaxPool2d(pair(spec["k"]), stride=pair(spec["s"]) if spec.get("s") is not None else None, padding=pair(spec.get("p", 0)), dilation=pair(spec.get("d", 1)), ceil_mode=spec.get("ceil", False))
    raise KeyError(t)


def describe(spec):
    t = spec["t"]
    if t in ("seq", "skip"):
        return ("User" if spec.get("sub") else "") + ("Seq" if t == "seq" else "Skip") + "(" + ", ".join(describe(s) for s in spec["L"]) + ")"
    if t == "act":
        return spec["n"] + ("" if set(spec) <= {"t", "n"} else str({k: v for k, v in spec.items() if k not in ("t", "n")}))
    return t + ":" + ",".join(f"{k}={v}" for k, v in spec.items() if k != "t")


def signature(spec):
    """Coarse structural signature, for counting distinct programs."""
    t = spec["t"]
    if t in ("seq", "skip"):
        return t + "(" + ",".join(signature(s) for s in spec["L"]) + ")"
    return spec["n"] if t == "act" else t
