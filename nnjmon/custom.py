"""User-defined layers, written exactly as the README tells users to: forward() and jacobian() only
(Shift also overrides the products, as every layer of the package does)."""
import math

import torch
from torch import nn


class Quad:
    """Parametric, rectangular, non-symmetric: y = W (x*x) + V x."""

    @staticmethod
    def shapes(s):
        return [(s["o"], s["i"]), (s["o"], s["i"])]

    @staticmethod
    def forward(s, take, x):
        W, V = take((s["o"], s["i"])), take((s["o"], s["i"]))
        return (x * x) @ W.T + x @ V.T

    @staticmethod
    def build(s, nnj):
        class QuadLayer(nnj.AbstractJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self.W = nn.Parameter(torch.zeros(s["o"], s["i"]))
                self.V = nn.Parameter(torch.zeros(s["o"], s["i"]))
                self._n_params = 2 * s["o"] * s["i"]

            def forward(self, x):
                return (x * x) @ self.W.T + x @ self.V.T

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input"):
                if wrt == "input":
                    return 2 * self.W.unsqueeze(0) * x.unsqueeze(1) + self.V.unsqueeze(0)
                b, i = x.shape
                o = self.W.shape[0]
                eye = torch.eye(o, dtype=x.dtype)
                a = torch.einsum("ok,bi->boki", eye, x * x).reshape(b, o, o * i)
                c = torch.einsum("ok,bi->boki", eye, x).reshape(b, o, o * i)
                return torch.cat([a, c], dim=2)

        return QuadLayer()


class Bilin:
    """Non-parametric, rectangular: y_k = x_k * x_{k+1} + x_0."""

    @staticmethod
    def shapes(s):
        return []

    @staticmethod
    def forward(s, take, x):
        return x[:, :-1] * x[:, 1:] + x[:, :1]

    @staticmethod
    def build(s, nnj):
        class BilinLayer(nnj.AbstractJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self._n_params = 0

            def forward(self, x):
                return x[:, :-1] * x[:, 1:] + x[:, :1]

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input"):
                if wrt == "weight":
                    return None
                b, n = x.shape
                J = torch.zeros(b, n - 1, n, dtype=x.dtype)
                r = torch.arange(n - 1)
                J[:, r, r] += x[:, 1:]
                J[:, r, r + 1] += x[:, :-1]
                J[:, :, 0] += 1
                return J

        return BilinLayer()


class CumProd:
    """Non-parametric, square, non-symmetric: y_k = x_k * sum_{j<=k} x_j."""

    @staticmethod
    def shapes(s):
        return []

    @staticmethod
    def forward(s, take, x):
        return x * torch.cumsum(x, dim=1)

    @staticmethod
    def build(s, nnj):
        class CumLayer(nnj.AbstractJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self._n_params = 0

            def forward(self, x):
                return x * torch.cumsum(x, dim=1)

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input"):
                if wrt == "weight":
                    return None
                n = x.shape[1]
                tri = torch.tril(torch.ones(n, n, dtype=x.dtype))
                return tri.unsqueeze(0) * x.unsqueeze(2) + torch.diag_embed(torch.cumsum(x, dim=1))

        return CumLayer()


class Widen:
    """Non-parametric, more outputs than inputs: y = [x, x*x, sum(x)]."""

    @staticmethod
    def shapes(s):
        return []

    @staticmethod
    def forward(s, take, x):
        return torch.cat([x, x * x, x.sum(dim=1, keepdim=True)], dim=1)

    @staticmethod
    def build(s, nnj):
        class WidenLayer(nnj.AbstractJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self._n_params = 0

            def forward(self, x):
                return torch.cat([x, x * x, x.sum(dim=1, keepdim=True)], dim=1)

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input"):
                if wrt == "weight":
                    return None
                one = torch.ones_like(x)
                return torch.cat([torch.diag_embed(one), torch.diag_embed(2 * x), one.unsqueeze(1)], dim=1)

        return WidenLayer()


class Cube:
    """Diagonal abstract class, non-parametric, any input rank: y = x^3 + x / 2."""

    @staticmethod
    def shapes(s):
        return []

    @staticmethod
    def forward(s, take, x):
        return x**3 + 0.5 * x

    @staticmethod
    def build(s, nnj):
        class CubeLayer(nnj.AbstractDiagonalJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self._n_params = 0

            def forward(self, x):
                return x**3 + 0.5 * x

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input", diag=False):
                if wrt == "weight":
                    return None
                d = (3 * x * x + 0.5).reshape(x.shape[0], -1)
                return d if diag else torch.diag_embed(d)

        return CubeLayer()


class Gain:
    """Diagonal abstract class with parameters: y = a * x; both Jacobians are diagonal."""

    @staticmethod
    def shapes(s):
        return [(s["i"],)]

    @staticmethod
    def forward(s, take, x):
        return x * take((s["i"],))

    @staticmethod
    def build(s, nnj):
        class GainLayer(nnj.AbstractDiagonalJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self.a = nn.Parameter(torch.ones(s["i"]))
                self._n_params = s["i"]

            def forward(self, x):
                return x * self.a

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input", diag=False):
                d = self.a.detach().unsqueeze(0).expand(x.shape[0], -1) if wrt == "input" else x
                return d if diag else torch.diag_embed(d)

        return GainLayer()


class Shift:
    """y = x + b, with the obvious products written out: they hand the direction back, as Flatten does."""

    @staticmethod
    def shapes(s):
        return [(s["i"],)]

    @staticmethod
    def forward(s, take, x):
        return x + take((s["i"],))

    @staticmethod
    def build(s, nnj):
        class ShiftLayer(nnj.AbstractJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self.b = nn.Parameter(torch.zeros(s["i"]))
                self._n_params = s["i"]

            def forward(self, x):
                return x + self.b

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input"):
                return torch.diag_embed(torch.ones_like(x))

            def jvp(self, x, val, vector, wrt="input"):
                return vector

            def vjp(self, x, val, vector, wrt="input"):
                return vector

            def jmp(self, x, val, matrix, wrt="input"):
                return self.jacobian(x, val, wrt) if matrix is None else matrix

            def mjp(self, x, val, matrix, wrt="input"):
                return self.jacobian(x, val, wrt) if matrix is None else matrix

            @torch.no_grad()
            def jmjTp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
                if matrix is None:
                    matrix, from_diag = torch.ones_like(x), True
                if from_diag == to_diag:
                    return matrix
                return torch.diagonal(matrix, dim1=1, dim2=2) if to_diag else torch.diag_embed(matrix)

            jTmjp = jmjTp

        return ShiftLayer()


class Wrap:
    """Parameters that live in a submodule: y = (W x + b)^2 + W x + b."""

    @staticmethod
    def shapes(s):
        return [(s["o"], s["i"]), (s["o"],)]

    @staticmethod
    def forward(s, take, x):
        W, b = take((s["o"], s["i"])), take((s["o"],))
        z = x @ W.T + b
        return z * z + z

    @staticmethod
    def build(s, nnj):
        class WrapLayer(nnj.AbstractJacobian, nn.Module):
            def __init__(self):
                super().__init__()
                self.inner = nnj.Linear(s["i"], s["o"])
                self._n_params = self.inner._n_params

            def forward(self, x):
                z = self.inner(x)
                return z * z + z

            @torch.no_grad()
            def jacobian(self, x, val=None, wrt="input"):
                z = self.inner(x)
                return (2 * z + 1).unsqueeze(2) * self.inner.jacobian(x, z, wrt=wrt)

        return WrapLayer()


KINDS = dict(quad=Quad, bilin=Bilin, cumprod=CumProd, widen=Widen, cube=Cube, gain=Gain, shift=Shift, wrap=Wrap)


def out_dim(spec, n):
    return {"quad": spec.get("o"), "bilin": n - 1, "cumprod": n, "widen": 2 * n + 1, "cube": n, "gain": n, "shift": n, "wrap": spec.get("o")}[spec["kind"]]
