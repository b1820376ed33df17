"""What a call must return, computed from the reference semantics (spec.Ref), and the comparison with tolerances."""
import math

import torch

from . import spec as S

PRODUCTS = ("jacobian", "jvp", "jmp", "jmjTp", "vjp", "mjp", "jTmjp")


# --------------------------------------------------------------------------------------------------------------
def block_structure(spec, start=0):
    """Nested list of (start, stop) parameter ranges, one per parametric layer, nested like the network.
    None if there are no parameters; a plain range for a leaf."""
    n = S.n_params(spec)
    if n == 0:
        return None
    if spec["t"] in ("seq", "skip"):
        out, p = [], start
        for s in spec["L"]:
            b = block_structure(s, p)
            p += S.n_params(s)
            if b is not None:
                out.append(b)
        return out
    return (start, start + n)


def leaf_ranges(st):
    if st is None:
        return []
    if isinstance(st, tuple):
        return [st]
    return [r for s in st for r in leaf_ranges(s)]


def map_structure(st, f):
    return [map_structure(s, f) for s in st] if isinstance(st, list) else f(*st)


def dense_metric(m, spec, diag):
    """The (block-)diagonal weight metric that jmjTp documents, as one dense (b, P, P) float64 matrix."""
    st = block_structure(spec)
    P = S.n_params(spec)
    if isinstance(m, list):
        flat = flatten_list(m)
        b = flat[0].shape[0]
        out = torch.zeros(b, P, P, dtype=torch.float64)
        for (lo, hi), blk in zip(leaf_ranges(st), flat):
            out[:, lo:hi, lo:hi] = torch.diag_embed(blk.double()) if diag else blk.double()
        return out
    if diag:
        return torch.diag_embed(m.double())
    out = torch.zeros(m.shape[0], P, P, dtype=torch.float64)
    for lo, hi in leaf_ranges(st):
        out[:, lo:hi, lo:hi] = m.double()[:, lo:hi, lo:hi]
    return out


def flatten_list(m):
    return [t for s in m for t in flatten_list(s)] if isinstance(m, list) else [m]


# --------------------------------------------------------------------------------------------------------------
# diagonal-only propagation
# --------------------------------------------------------------------------------------------------------------
class Node:
    def __init__(self, spec, x, w, loose=False):
        self.spec, self.x, self.kids, self.loose = spec, x, [], loose
        n = S.n_params(spec)
        assert w.numel() == n
        if spec["t"] in ("seq", "skip"):
            p, y = 0, x
            for s in spec["L"]:
                k = S.n_params(s)
                node = Node(s, y, w[p : p + k], loose)
                self.kids.append(node)
                p += k
                y = node.y
            self.y = torch.cat([x, y], dim=1) if spec["t"] == "skip" else y
        else:
            self.ref = S.Ref(spec, x, w)
            self.y = self.ref.val()

    def leaf_abs(self, wrt):
        """Absolute Jacobian of a leaf, at the scale of the terms it is computed from: 1 - tanh^2 has terms of size 1,
        and I - n n^T has terms of size 1 where the difference may be tiny."""
        J = self.ref.J(wrt)
        if J is None or wrt == "weight":
            return None if J is None else J.abs()
        t = self.spec["t"]
        eye = torch.eye(J.shape[1], J.shape[2], dtype=torch.float64)
        if t == "act":
            return J.abs() + eye
        if t == "l2":
            x = self.x.double().reshape(self.x.shape[0], -1)
            nrm = x.norm(dim=1) + 1e-300
            n = (x / nrm[:, None]).abs()
            return J.abs() + (eye + n[:, :, None] * n[:, None, :]) / (nrm + self.spec.get("eps", 1e-6))[:, None, None]
        return J.abs()

    def chain_abs(self):
        """(absolute chain wrt input, [absolute chains wrt the parameters of each leaf]): the entries bound the sums of
        absolute terms of the chain rule, so cancellation between paths or inside a layer is part of the scale."""
        t = self.spec["t"]
        if t in ("seq", "skip"):
            n = math.prod(self.x.shape[1:])
            b = self.x.shape[0]
            A, ws = torch.eye(n, dtype=torch.float64).expand(b, n, n), []
            for k in self.kids:
                a, w = k.chain_abs()
                ws = [a @ u for u in ws] + w
                A = a @ A
            if t == "skip":
                A = torch.cat([torch.eye(n, dtype=torch.float64).expand(b, n, n), A], dim=1)
                ws = [torch.cat([torch.zeros(b, n, u.shape[2], dtype=torch.float64), u], dim=1) for u in ws]
            return A, ws
        w = self.leaf_abs("weight")
        return self.leaf_abs("input"), ([] if w is None else [w])

    def back(self, d, wrt):
        """d: (b, out) -> (diagonal wrt input, [weight diagonals])."""
        t = self.spec["t"]
        if t in ("seq", "skip"):
            n = math.prod(self.x.shape[1:])
            e = d[:, n:] if t == "skip" else d
            ws = []
            for k in reversed(self.kids):
                e, w = k.back(e, wrt)
                ws = w + ws
            return (d[:, :n] + e if t == "skip" else e), ws
        Jx = self.leaf_abs("input") if self.loose else self.ref.J("input")
        ws = []
        if wrt == "weight":
            Jw = self.ref.J("weight")
            if Jw is not None:
                ws = [torch.einsum("boi,bo->bi", Jw**2, d)]
        return torch.einsum("boi,bo->bi", Jx**2, d), ws

    def fwd(self, d):
        """diagonal through the input: (b, in) -> (b, out)."""
        t = self.spec["t"]
        if t in ("seq", "skip"):
            e = d
            for k in self.kids:
                e = k.fwd(e)
            return torch.cat([d, e], dim=1) if t == "skip" else e
        return torch.einsum("boi,bi->bo", (self.leaf_abs("input") if self.loose else self.ref.J("input")) ** 2, d)

    def fwd_weight(self, m):
        """weight diagonal (b, P) -> (b, out) (None without parameters)."""
        t = self.spec["t"]
        if t in ("seq", "skip"):
            e, p = None, 0
            for k in self.kids:
                n = S.n_params(k.spec)
                if e is not None:
                    e = k.fwd(e)
                if n:
                    c = k.fwd_weight(m[:, p : p + n])
                    e = c if e is None else e + c
                p += n
            if e is None:
                return None
            if t == "skip":
                z = torch.zeros(self.x.shape[0], math.prod(self.x.shape[1:]), dtype=torch.float64)
                return torch.cat([z, e], dim=1)
            return e
        Jw = self.ref.J("weight")
        return None if Jw is None else torch.einsum("boi,bi->bo", Jw**2, m)


# --------------------------------------------------------------------------------------------------------------
class Unsupported(Exception):
    pass


def may_refuse(spec, op, m_given=True):
    """True if the pass is documented as missing for some layer in the module."""
    ts = {s["t"] for s in S.leaves(spec)}
    if op == "jvp" or op == "jmjTp":
        return bool(ts & {"conv", "up", "pool"})
    if op == "jmp" and m_given:
        return bool(ts & {"conv", "up"})
    return False


def chain_bound(spec, ref, wrt):
    if not hasattr(ref, "_chain"):
        A, ws = Node(spec, ref.x, ref.w).chain_abs()
        ref._chain = {"input": A, "weight": torch.cat(ws, dim=2) if ws else None}
    return ref._chain[wrt]


def judge(got, dtype, spec, ref, op, wrt, m=None, from_diag=False, to_diag=False, approx=False, slack=1.0, elementwise=False):
    """(expected, None or description of the difference).  A difference counts only if it also exceeds the rounding
    scale of the chain rule evaluated layer by layer."""
    exp, bound = expected(spec, ref, op, wrt, m, from_diag, to_diag, approx)
    d = compare(got, exp, bound, dtype, slack, floor=floor_of(m), elementwise=elementwise)
    if d is not None and exp is not None and not elementwise:
        _, bound = expected(spec, ref, op, wrt, m, from_diag, to_diag, approx, loose=True)
        d = compare(got, exp, bound, dtype, slack, floor=floor_of(m))
    return exp, d


def expected(spec, ref, op, wrt, m=None, from_diag=False, to_diag=False, approx=False, loose=False):
    """(expected, bound): expected is a float64 tensor, a nested list of them, or None; bound has the same structure
    and holds, per entry, the sum of absolute terms (the natural rounding scale); with loose, the terms of the chain
    rule layer by layer."""
    J = ref.J(wrt)
    if J is None:
        return None, None
    A = J.abs()
    if loose:
        A = torch.maximum(A, chain_bound(spec, ref, wrt))
    b, o, n = J.shape
    if op == "jacobian" or (op in ("jmp", "mjp") and m is None):
        return J, A
    if op == "jvp":
        v = m.double()
        return torch.einsum("bij,bj->bi", J, v), torch.einsum("bij,bj->bi", A, v.abs())
    if op == "vjp":
        v = m.double()
        return torch.einsum("bi,bij->bj", v, J), torch.einsum("bi,bij->bj", v.abs(), A)
    if op == "jmp":
        M = m.double()
        return J @ M, A @ M.abs()
    if op == "mjp":
        M = m.double()
        return M @ J, M.abs() @ A
    if op == "jmjTp":
        if m is None:
            m, from_diag = torch.ones(b, n, dtype=torch.float64), True
        if approx:
            assert from_diag and to_diag
            node = Node(spec, ref.x, ref.w)
            top = Node(spec, ref.x, ref.w, True) if loose else node
            d = torch.cat([t.double() for t in flatten_list(m)], dim=1) if isinstance(m, list) else m.double()
            if wrt == "input":
                return node.fwd(d), top.fwd(d.abs())
            return node.fwd_weight(d), top.fwd_weight(d.abs())
        if wrt == "weight":
            M = dense_metric(m, spec, from_diag)
        else:
            M = torch.diag_embed(m.double()) if from_diag else m.double()
        R, B = J @ M @ J.transpose(1, 2), A @ M.abs() @ A.transpose(1, 2)
        if to_diag:
            return torch.diagonal(R, dim1=1, dim2=2), torch.diagonal(B, dim1=1, dim2=2)
        return R, B
    if op == "jTmjp":
        if m is None:
            m, from_diag = torch.ones(b, o, dtype=torch.float64), True
        if approx:
            assert from_diag and to_diag
            node = Node(spec, ref.x, ref.w)
            top = Node(spec, ref.x, ref.w, True) if loose else node
            d = m.double()
            if wrt == "input":
                return node.back(d, wrt)[0], top.back(d.abs(), wrt)[0]
            return torch.cat(node.back(d, wrt)[1], dim=1), torch.cat(top.back(d.abs(), wrt)[1], dim=1)
        M = torch.diag_embed(m.double()) if from_diag else m.double()
        JT, AT = J.transpose(1, 2), A.transpose(1, 2)
        R, B = JT @ M @ J, AT @ M.abs() @ A
        if to_diag:
            return torch.diagonal(R, dim1=1, dim2=2), torch.diagonal(B, dim1=1, dim2=2)
        if wrt == "weight":
            st = block_structure(spec)
            return map_structure(st, lambda lo, hi: R[:, lo:hi, lo:hi]), map_structure(st, lambda lo, hi: B[:, lo:hi, lo:hi])
        return R, B
    raise KeyError(op)


# --------------------------------------------------------------------------------------------------------------
RTOL = {torch.float64: 1e-9, torch.float32: 1e-3}
ATOL = {torch.float64: 1e-11, torch.float32: 2e-5}


def compare(got, exp, bound, dtype, slack=1.0, check_dtype=True, floor=1.0, elementwise=False):
    """None if equal within tolerance, otherwise a short description of the first difference.

    Per sample: |got - exp| <= rtol * max(bound) + atol * floor."""
    if exp is None:
        return None if got is None else f"expected None, got {type(got).__name__} {tuple(got.shape) if torch.is_tensor(got) else ''}"
    if got is None:
        return "got None"
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)):
            return f"expected a list of {len(exp)} blocks, got {type(got).__name__}"
        if len(got) != len(exp):
            return f"expected {len(exp)} blocks, got {len(got)}"
        for i, (g, e, b) in enumerate(zip(got, exp, bound)):
            r = compare(g, e, b, dtype, slack, check_dtype, floor, elementwise)
            if r:
                return f"block {i}: {r}"
        return None
    if not torch.is_tensor(got):
        return f"got {type(got).__name__} instead of a tensor"
    if tuple(got.shape) != tuple(exp.shape):
        return f"shape {tuple(got.shape)} instead of {tuple(exp.shape)}"
    if check_dtype and got.dtype != dtype:
        return f"dtype {got.dtype} instead of {dtype}"
    if exp.numel() == 0:
        return None
    g = got.detach().double()
    b = exp.shape[0] if exp.dim() > 0 else 1
    err = (g - exp).abs().reshape(b, -1)
    same = g.reshape(b, -1) == exp.reshape(b, -1)  # also equal infinities
    err = torch.where(same, torch.zeros_like(err), err)
    scale = bound.reshape(b, -1)
    if not elementwise:
        scale = scale.max(dim=1, keepdim=True).values
    scale = scale.expand_as(err)
    tol = slack * (RTOL[dtype] * scale + ATOL[dtype] * floor)
    bad = ~(err <= tol)
    if bad.any():
        i = int(torch.argmax((torch.where(torch.isfinite(err), err, torch.full_like(err, 1e300)) / tol).max(dim=1).values))
        j = int(torch.argmax(torch.where(torch.isfinite(err[i]), err[i], torch.full_like(err[i], 1e300))))
        return (f"{int(bad.sum())} of {bad.numel()} entries differ; worst: sample {i} flat index {j}: got "
                f"{g.reshape(b, -1)[i, j].item():.6g}, expected {exp.reshape(b, -1)[i, j].item():.6g} (tolerance {tol[i, j].item():.2g})")
    return None


def floor_of(m):
    """Scale of the argument for the absolute part of the tolerance."""
    if m is None:
        return 1.0
    ts = flatten_list(m)
    return 1.0 + max([float(t.abs().max()) if t.numel() else 0.0 for t in ts] + [0.0])
