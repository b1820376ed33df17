"""Random generation of specifications, inputs, directions and weights.  Everything is driven by random.Random /
torch.Generator objects derived from VERIF_SEED, so every case is replayable from its case seed."""
import math
import random

import torch

from . import spec as S

ACTS = ["Tanh", "ReLU", "Sigmoid", "Sinusoidal", "Softplus", "TruncExp"]
X_KINDS = ["normal", "normal", "normal", "big", "small", "zeros", "ones", "sparse", "ints", "neg", "mixed", "offset", "onehot"]


def act(rng, exotic=True):
    n = rng.choice(ACTS)
    s = dict(t="act", n=n)
    if n == "Softplus" and exotic and rng.random() < 0.6:
        s["beta"] = rng.choice([0.5, 2, 4, 0.25, 1])
        s["threshold"] = rng.choice([20, 20, 1, 0.5, 3])
    if n == "ReLU" and exotic and rng.random() < 0.3:
        s["inplace"] = True
    return s


def pool(rng, shape, exotic=True):
    c, h, w = shape
    for _ in range(20):
        k = rng.choice([1, 2, 2, 3, [2, 1], [1, 2], [3, 2], [2, 3]])
        s = dict(t="pool", k=k)
        if exotic and rng.random() < 0.6:
            if rng.random() < 0.7:
                s["s"] = rng.choice([1, 2, 1, [1, 2], [2, 1], 3])
            if rng.random() < 0.4:
                kk = S.pair(k)
                s["p"] = [rng.randint(0, kk[0] // 2), rng.randint(0, kk[1] // 2)]
            if rng.random() < 0.2:
                s["d"] = rng.choice([2, [1, 2], [2, 1]])
            if rng.random() < 0.3:
                s["ceil"] = True
        try:
            o = S.forward(s, None, torch.zeros(1, *shape))
        except RuntimeError:
            continue
        if o.numel() and torch.isfinite(o).all():  # no window lies inside the padding
            return s
    return dict(t="pool", k=1)


def conv(rng, shape, same=False, max_out=72):
    c, h, w = shape
    for _ in range(30):
        if same:
            k = rng.choice([1, 3, [3, 1], [1, 3]])
            kk = S.pair(k)
            p = [kk[0] // 2, kk[1] // 2]
            if p[0] == p[1] and rng.random() < 0.5:
                p = p[0]
        else:
            k = rng.choice([1, 2, 2, 3, [1, 2], [2, 1], [2, 3], [3, 1], 4, [4, 2], [2, 5]])
            kk = S.pair(k)
            p = [rng.randint(0, kk[0] - 1), rng.randint(0, kk[1] - 1)] if rng.random() < 0.6 else 0
        o = rng.randint(1, 4)
        s = dict(t="conv", i=c, o=o, k=k, p=p, bias=rng.random() < 0.6, vmap=rng.random() < 0.6)
        try:
            os_ = S.out_shape(s, shape)
        except RuntimeError:
            continue
        if min(os_) >= 1 and math.prod(os_) <= max_out and S.n_params(s) <= 110:
            return s
    return dict(t="conv", i=c, o=1, k=1, p=0, bias=True, vmap=True)


def upsample(rng, shape, max_out=100):
    s = rng.choice([2, 2, 3, 1])
    while math.prod(shape) * s * s > max_out and s > 1:
        s -= 1
    sp = dict(t="up", s=s)
    if rng.random() < 0.3:
        sp["mode"] = "nearest"
    return sp


def l2(rng, exotic=True):
    return dict(t="l2", eps=rng.choice([1e-6, 0.1, 0.5, 1e-3])) if exotic and rng.random() < 0.5 else dict(t="l2")


def factor(rng, n, rank):
    dims = []
    for _ in range(rank - 1):
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = rng.choice(ds)
        dims.append(d)
        n //= d
    dims.append(n)
    rng.shuffle(dims)
    return dims


def in_shape(rng, rank=None):
    rank = rank or rng.choice([1, 1, 2, 3, 3])
    if rank == 1:
        return (rng.randint(1, 8) if rng.random() < 0.9 else rng.randint(9, 24),)
    if rank == 2:
        return (rng.randint(1, 4), rng.randint(1, 5))
    if rng.random() < 0.1:
        return (rng.randint(1, 5), rng.choice([1, 2, 3, 6, 7]), rng.choice([1, 2, 3, 7]))
    return (rng.randint(1, 3), rng.randint(1, 5), rng.randint(1, 5))


def leaf(rng, shape, kind=None, exotic=True, custom=False):
    """A single layer applicable to `shape`."""
    r = len(shape)
    n = math.prod(shape)
    ks = ["act", "act", "l2", "flatten", "reshape"]
    if r == 1:
        ks += ["linear"] * 4
        if custom:
            ks += ["custom"] * 8
    if r == 3:
        ks += ["conv"] * 4 + ["up"] * 2 + ["pool"] * 3
    k = kind or rng.choice(ks)
    if k == "act":
        return act(rng, exotic)
    if k == "l2":
        return l2(rng, exotic)
    if k == "flatten":
        return dict(t="flatten")
    if k == "reshape":
        return dict(t="reshape", dims=factor(rng, n, rng.choice([1, 2, 3, 3])))
    if k == "linear":
        return dict(t="linear", i=shape[0], o=rng.randint(1, 7), bias=rng.random() < 0.65)
    if k == "conv":
        return conv(rng, shape)
    if k == "up":
        return upsample(rng, shape)
    if k == "pool":
        return pool(rng, shape, exotic)
    if k == "custom":
        kind = rng.choice(["quad", "bilin", "cumprod", "widen", "cube", "gain", "shift", "wrap"])
        if kind == "bilin" and shape[0] < 2:
            kind = "quad"
        if kind == "widen" and shape[0] > 8:
            kind = "quad"
        s = dict(t="custom", kind=kind, i=shape[0])
        if kind in ("quad", "wrap"):
            s["o"] = rng.randint(1, 6)
        return s
    raise KeyError(k)


def sequence(rng, shape, depth, length, fwd=False, custom=False, exotic=True, budget=None):
    """List of layers starting at `shape`; returns (layers, out_shape).  fwd: only layers supporting forward passes."""
    L = []
    for j in range(length):
        r, n = len(shape), math.prod(shape)
        opts = ["act"] * 4 + ["l2"]
        if r == 1:
            opts += ["linear"] * 5
            if n > 1:
                opts += ["reshape"] * 2
            if custom:
                opts += ["custom"] * 4
        else:
            opts += ["flatten"] * 2 + ["reshape"]
        if r == 3 and not fwd:
            opts += ["conv"] * 4 + ["pool"] * 2
            if n <= 24:
                opts += ["up"] * 2
        if depth > 0:
            opts += ["seq"] * 2 + ["skip"] * 2
        if n > 60:
            opts = [o for o in opts if o not in ("up", "skip", "l2")]
        k = rng.choice(opts)
        if k == "seq":
            sub, shape2 = sequence(rng, shape, depth - 1, rng.randint(1, 3), fwd, custom, exotic)
            s = dict(t="seq", L=sub)
            if rng.random() < 0.4:
                s["hooks"] = rng.random() < 0.5
        elif k == "skip":
            s = skip(rng, shape, depth - 1, fwd, custom, exotic)
            shape2 = S.out_shape(s, shape)
        else:
            s = leaf(rng, shape, k, exotic, custom)
            shape2 = S.out_shape(s, shape)
        if math.prod(shape2) > 80:
            continue
        L.append(s)
        shape = shape2
    if not L:
        L.append(act(rng, exotic))
    return L, shape


def skip(rng, shape, depth, fwd=False, custom=False, exotic=True):
    """A skip connection applicable to `shape`: the branch keeps all but the first dimension."""
    r = len(shape)
    if r == 1:
        L, out = sequence(rng, shape, depth, rng.randint(1, 3), fwd, custom, exotic)
        if len(out) != 1:
            L.append(dict(t="flatten"))
        return dict(t="skip", L=L)
    if r == 2 or fwd:
        style = rng.choice(["elem", "dense"])
    else:
        style = rng.choice(["elem", "conv", "conv", "conv", "pool", "dense"])
    if style == "elem":
        L = [act(rng, exotic) for _ in range(rng.randint(1, 2))]
    elif style == "dense":
        n = math.prod(shape)
        c2 = rng.randint(1, 2)
        m = c2 * math.prod(shape[1:])
        if m > 30 or n * m > 300:
            L = [act(rng, exotic)]
        else:
            L = [dict(t="flatten"), dict(t="linear", i=n, o=m, bias=rng.random() < 0.5), act(rng, exotic), dict(t="reshape", dims=[c2, *shape[1:]])]
    elif style == "conv":
        s = conv(rng, shape, same=True)
        L = [s, act(rng, exotic)]
        if rng.random() < 0.5:
            L.append(conv(rng, S.out_shape(s, shape), same=True))
        if depth > 0 and rng.random() < 0.4:
            L.append(skip(rng, S.out_shape(dict(t="seq", L=L), shape), 0, fwd, custom, exotic))
        if rng.random() < 0.3:
            L.insert(0, act(rng, exotic))
    else:
        c, h, w = shape
        if h % 2 == 0 and w % 2 == 0:
            L = [dict(t="pool", k=2), conv(rng, (c, h // 2, w // 2), same=True), act(rng, exotic), dict(t="up", s=2)]
        else:
            L = [dict(t="pool", k=3, s=1, p=1), act(rng, exotic)]
    return dict(t="skip", L=L)


def deep(rng):
    """Many layers, few units: long or deeply nested networks."""
    def block(d):
        L, cur = [], 2
        for _ in range(rng.randint(1, 3)):
            if d and rng.random() < 0.6:
                s = dict(t=rng.choice(["seq", "seq", "skip"]), L=block(d - 1)) if cur == 2 else dict(t="linear", i=cur, o=2, bias=True)
            else:
                s = rng.choice([act(rng, False), dict(t="linear", i=cur, o=2, bias=rng.random() < 0.5)])
            L.append(s)
            cur = S.out_shape(s, (cur,))[0]
        if cur != 2:
            L.append(dict(t="linear", i=cur, o=2, bias=True))
        return L

    if rng.random() < 0.5:
        L = []
        for _ in range(rng.randint(8, 20)):
            L += [dict(t="linear", i=2, o=2, bias=rng.random() < 0.5), dict(t="act", n=rng.choice(["Tanh", "Sigmoid", "Sinusoidal", "Softplus"]))]
        return dict(t="seq", L=L), (2,)
    for _ in range(50):
        s = dict(t="seq", L=block(5))
        if 0 < S.n_params(s) <= 140:
            return s, (2,)
    return dict(t="seq", L=[dict(t="linear", i=2, o=2, bias=True)]), (2,)


def network(rng, fwd=None, custom=False, rank=None, depth=None, exotic=True, max_params=140, max_io=80):
    """(spec, in_shape) of a random nested network."""
    if depth is None and rank is None and rng.random() < 0.03:
        return deep(rng)
    for _ in range(200):
        shape = in_shape(rng, rank)
        d = rng.choice([0, 1, 1, 2]) if depth is None else depth
        f = (rng.random() < 0.5) if fwd is None else fwd
        if rng.random() < 0.25:
            s = skip(rng, shape, d, f, custom, exotic)
        else:
            L, _ = sequence(rng, shape, d, rng.randint(1, 6), f, custom, exotic)
            s = dict(t="seq", L=L)
            if rng.random() < 0.3:
                s["hooks"] = rng.random() < 0.5
        try:
            o = S.out_shape(s, shape)
        except RuntimeError:
            continue
        if S.n_params(s) <= max_params and math.prod(o) <= max_io and math.prod(shape) <= max_io:
            if rng.random() < 0.15:
                share(rng, s)
            elif rng.random() < 0.1:
                subclass(rng, s)
            return s, shape
    raise RuntimeError("generator failed")


def subclass(rng, spec):
    """Makes some of the modules of a network instances of user-defined subclasses."""
    if rng.random() < 0.5:
        spec["sub"] = True
    for s in spec.get("L", []):
        subclass(rng, s)


def share(rng, spec):
    """Makes some of the activations of a network one and the same module object."""
    acts = [s for s in S.leaves(spec) if s["t"] == "act"]
    if len(acts) < 2:
        return
    first = rng.choice(acts)
    for s in rng.sample(acts, rng.randint(2, len(acts))):
        if s is not first:
            s.clear()
            s.update(first)
            s["share"] = "a"
    first["share"] = "a"


def supports_forward_pass(spec):
    """Convolution, pooling and upsampling document missing forward passes."""
    return not any(s["t"] in ("conv", "up", "pool") for s in S.leaves(spec))


# --------------------------------------------------------------------------------------------------------------
def tgen(seed):
    g = torch.Generator()
    g.manual_seed(seed & 0x7FFFFFFF)
    return g


def weights(spec, g, rng):
    parts = []
    for shape in S.param_shapes(spec):
        fan = math.prod(shape[1:]) if len(shape) > 1 else 1
        w = torch.randn(*shape, generator=g, dtype=torch.float64) / math.sqrt(max(fan, 1))
        r = rng.random()
        if r < 0.1:
            w = w * (torch.rand(*shape, generator=g, dtype=torch.float64) < 0.5)
        elif r < 0.2:
            w = w * 2.0
        parts.append(w.reshape(-1))
    return torch.cat(parts) if parts else torch.zeros(0, dtype=torch.float64)


def inputs(kind, shape, g):
    """shape includes the batch dimension; float64."""
    x = torch.randn(*shape, generator=g, dtype=torch.float64)
    if kind == "big":
        return 6 * x
    if kind == "small":
        return 1e-2 * x
    if kind == "huge":
        return 60 * x
    if kind == "tiny":
        return 1e-5 * x
    if kind == "zeros":
        return torch.zeros_like(x)
    if kind == "ones":
        return torch.ones_like(x)
    if kind == "sparse":
        return x * (torch.rand(*shape, generator=g, dtype=torch.float64) < 0.4)
    if kind == "ints":
        return torch.round(x)
    if kind == "neg":
        return -x.abs()
    if kind == "offset":
        return x + 3.0
    if kind == "onehot":
        y = torch.zeros(shape[0], math.prod(shape[1:]), dtype=torch.float64)
        idx = torch.randint(0, y.shape[1], (shape[0],), generator=g)
        y[torch.arange(shape[0]), idx] = x.reshape(shape[0], -1)[:, 0]
        return y.reshape(shape)
    if kind == "mixed":
        scale = torch.tensor([1.0, 8.0, 0.0, 1e-3, 1.0, -2.0], dtype=torch.float64)[torch.arange(shape[0]) % 6]
        return x * scale.reshape(-1, *([1] * (len(shape) - 1)))
    return x


def relayout(t, how):
    """Same values, different memory layout."""
    if t is None or how == "plain" or t.dim() < 2:
        return t
    if how == "strided":
        big = torch.zeros(*t.shape[:-1], t.shape[-1] * 2, dtype=t.dtype)
        big[..., ::2] = t
        return big[..., ::2]
    if how == "transposed":
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "offset":
        big = torch.zeros(t.shape[0] + 1, *t.shape[1:], dtype=t.dtype)
        big[1:] = t
        return big[1:]
    if how == "channels_last" and t.dim() == 4:
        return t.contiguous(memory_format=torch.channels_last)
    return t


def relayout_weights(model, rng):
    """The parameters of a model with other strides (as after .to(memory_format=...) or loading transposed weights)."""
    how = rng.choice(["strided", "transposed", "channels_last", "offset"])
    for p in model.parameters():
        if how == "channels_last" and p.dim() == 4:
            p.data = p.data.contiguous(memory_format=torch.channels_last)
        elif how != "channels_last" or p.dim() == 2:
            p.data = relayout(p.data, "transposed" if how == "channels_last" else how)


LAYOUTS = ["plain", "plain", "plain", "plain", "strided", "strided", "transposed", "transposed", "offset", "channels_last", "expanded"]


def direction(kind, shape, g):
    m = torch.randn(*shape, generator=g, dtype=torch.float64)
    if kind == "pos":
        return m.abs()
    if kind == "sparse":
        return m * (torch.rand(*shape, generator=g, dtype=torch.float64) < 0.3)
    if kind == "zero":
        return torch.zeros_like(m)
    if kind == "sym":
        return m + m.transpose(-1, -2) if m.dim() == 3 and m.shape[1] == m.shape[2] else m
    if kind == "spd":
        return m @ m.transpose(-1, -2) if m.dim() == 3 and m.shape[1] == m.shape[2] else m.abs()
    if kind == "eye":
        if m.dim() == 3 and m.shape[1] == m.shape[2]:
            return torch.eye(m.shape[1], dtype=m.dtype).expand(m.shape).contiguous()
        return torch.ones_like(m)
    if kind == "unit" and m.numel():
        z = torch.zeros_like(m).reshape(m.shape[0], -1)
        z[:, int(torch.randint(0, z.shape[1], (1,), generator=g))] = 1.0
        return z.reshape(m.shape)
    if kind == "large":
        return 100 * m
    return m


D_KINDS = ["normal"] * 5 + ["pos", "sparse", "zero", "sym", "spd", "eye", "unit", "large"]


# --------------------------------------------------------------------------------------------------------------
def large_network(rng, conv=None):
    """Networks whose Jacobian could not reasonably be formed."""
    A = lambda: act(rng, False) if rng.random() < 0.8 else dict(t="act", n="Tanh")

    def smooth():
        return dict(t="act", n=rng.choice(["Tanh", "Sigmoid", "Sinusoidal", "Softplus", "Tanh", "ReLU"]))

    L = lambda i, o: dict(t="linear", i=i, o=o, bias=rng.random() < 0.7)
    C = lambda i, o, k, p: dict(t="conv", i=i, o=o, k=k, p=p, bias=rng.random() < 0.7, vmap=True)
    kind = rng.choice(["mlp", "mlp", "res", "wide", "cnn", "unet", "auto"]) if conv is None else rng.choice(["cnn", "unet", "auto"] if conv else ["mlp", "res", "wide"])
    if kind == "mlp":
        d = [rng.randint(60, 400)] + [rng.randint(30, 200) for _ in range(rng.randint(1, 4))]
        out = []
        for a, b in zip(d, d[1:]):
            out += [L(a, b), smooth()]
        return dict(t="seq", L=out[: -1 if rng.random() < 0.5 else None]), (d[0],)
    if kind == "res":
        n, h = rng.randint(40, 120), rng.randint(20, 60)
        out = [dict(t="skip", L=[L(n, h), smooth(), L(h, h)]), L(n + h, h), smooth(), dict(t="skip", L=[smooth(), L(h, h)]), L(2 * h, 50)]
        return dict(t="seq", L=out), (n,)
    if kind == "wide":
        n = rng.randint(500, 1500)
        return dict(t="seq", L=[L(n, 60), smooth(), dict(t="seq", L=[L(60, 60), smooth()]), L(60, n)]), (n,)
    h = rng.choice([12, 16, 20])
    c = rng.randint(1, 3)
    if kind == "cnn":
        return dict(t="seq", L=[C(c, 6, 3, 1), smooth(), dict(t="pool", k=2), C(6, 8, 3, 1), smooth(), dict(t="flatten"), L(8 * (h // 2) ** 2, 40), smooth(), L(40, 10)]), (c, h, h)
    if kind == "unet":
        return dict(t="seq", L=[C(c, 4, 3, 1), smooth(), dict(t="skip", L=[dict(t="pool", k=2), C(4, 6, 3, 1), smooth(), C(6, 4, 3, 1), dict(t="up", s=2)]), C(8, c, 3, 1)]), (c, h, h)
    n = 64
    return dict(t="seq", L=[dict(t="flatten"), L(c * h * h, n), smooth(), dict(t="reshape", dims=[4, 4, 4]), dict(t="up", s=2), C(4, 3, 3, 1), smooth()]), (c, h, h)


def torch_layer(rng, shape, exotic=True):
    """A layer that exists in torch.nn and that the converter documents."""
    r, n = len(shape), math.prod(shape)
    opts = ["act"] * 3
    if r == 1:
        opts += ["linear"] * 4
    else:
        opts += ["flatten"]
    if r == 3:
        opts += ["conv"] * 4 + ["pool"] * 2
        if n <= 24:
            opts += ["up"]
    k = rng.choice(opts)
    if k == "act":
        s = dict(t="act", n=rng.choice(["Tanh", "ReLU", "Sigmoid", "Softplus"]))
        if s["n"] == "Softplus" and rng.random() < 0.5:
            s["beta"], s["threshold"] = rng.choice([0.5, 2, 4]), rng.choice([20, 20, 1, 3])
        return s
    if k == "conv":
        s = conv(rng, shape)
        s["vmap"] = True
        return s
    return leaf(rng, shape, k, exotic)


def torch_network(rng, depth=2, length=None, shape=None):
    """(spec, shape): nested sequences of torch.nn layers only."""
    for _ in range(200):
        sh = in_shape(rng, rng.choice([1, 3, 3])) if shape is None else shape
        cur, L = sh, []
        for _ in range(length or rng.randint(1, 5)):
            if depth > 0 and rng.random() < 0.2:
                s, _ = torch_network(rng, depth - 1, rng.randint(1, 3), cur)
            else:
                s = torch_layer(rng, cur)
            o = S.out_shape(s, cur)
            if math.prod(o) > 80:
                continue
            L.append(s)
            cur = o
        sp = dict(t="seq", L=L)
        if L and S.n_params(sp) <= 160:
            return sp, sh
    return dict(t="seq", L=[dict(t="act", n="Tanh")]), sh
