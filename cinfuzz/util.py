"""Tensors from seeds, comparisons, and stream drivers shared by the properties."""
import hashlib

import torch

from .runner import HarnessError, Violation

F64, F32 = torch.float64, torch.float32


# ------------------------------------------------------------------ data
def gen(*key):
    g = torch.Generator()
    g.manual_seed(int(hashlib.sha256(repr(key).encode()).hexdigest()[:15], 16))
    return g


def data(seed, shape, kind="normal", dtype=F64):
    """Deterministic tensor; `kind` selects the value distribution."""
    g = gen("data", seed, tuple(shape), kind)
    x = torch.randn(tuple(shape), generator=g, dtype=F64)
    if kind == "neg":
        x = -x.abs() - 0.25
    elif kind == "pos":
        x = x.abs() + 0.25
    elif kind == "int":
        x = (3 * x).round()
    elif kind == "big":
        x = x * 100
    elif kind == "sparse":
        x = x * (torch.rand(tuple(shape), generator=g) < 0.4)
    elif kind == "offset":
        x = x + 5
    return x.to(dtype)


KINDS = ["normal", "neg", "int", "offset", "sparse", "pos"]


class Frames(torch.Tensor):
    """Frames with a type of their own, as torchvision.tv_tensors has them."""

    def __deepcopy__(self, memo):  # torch cannot copy subclasses which leave this out
        with torch._C.DisableTorchFunctionSubclass():
            r = self.detach().clone().as_subclass(Frames).requires_grad_(self.requires_grad)
        memo[id(self)] = r
        return r


def layout(x, how):
    """Same values, another memory layout (or a subclass of torch.Tensor)."""
    if how == "sub":
        return x.as_subclass(Frames)
    if how == "perm" and x.dim() >= 2:  # non-contiguous view
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "slice":  # view into a larger tensor
        big = torch.full((*x.shape[:-1], 2 * x.shape[-1]), 7.0, dtype=x.dtype)
        big[..., ::2] = x
        return big[..., ::2]
    if how == "expand":
        return x.clone().unsqueeze(0).expand(1, *x.shape)[0]
    return x


LAYOUTS = ["plain", "plain", "plain", "perm", "perm", "slice", "slice", "sub"]


# ------------------------------------------------------------------ comparison
def tol(dtype):
    return {F64: (1e-7, 1e-8), F32: (3e-4, 3e-5)}.get(dtype, (3e-2, 3e-2))


def diff(a, b, rtol=None, atol=None):
    """None if a and b agree, otherwise a description."""
    if a is None or b is None:
        return None if a is b else f"{_d(a)} != {_d(b)}"
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list)) or not isinstance(b, (tuple, list)) or len(a) != len(b):
            return f"{_d(a)} != {_d(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, rtol, atol)
            if r:
                return f"[{i}]: {r}"
        return None
    if not isinstance(a, torch.Tensor) or not isinstance(b, torch.Tensor):
        return None if a == b else f"{_d(a)} != {_d(b)}"
    if tuple(a.shape) != tuple(b.shape):
        return f"shape {tuple(a.shape)} != {tuple(b.shape)}"
    if a.dtype != b.dtype:
        return f"dtype {a.dtype} != {b.dtype}"
    if rtol is None:
        rtol, atol = tol(a.dtype)
    a, b = a.detach(), b.detach()
    if a.numel() == 0 or torch.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        return None
    d = (a.to(F64) - b.to(F64)).abs()
    i = int(torch.nan_to_num(d, nan=1e30).argmax())
    return f"max diff {d.flatten()[i]:.3e} at flat index {i} of shape {tuple(a.shape)}"


def _d(x):
    if isinstance(x, torch.Tensor):
        return f"tensor{tuple(x.shape)}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(_d, x)) + "]"
    return repr(x)


def same(a, b, what, rtol=None, atol=None):
    r = diff(a, b, rtol, atol)
    if r:
        raise Violation(f"{what}: {r}")


def identical(a, b, what):
    same(a, b, what, 0.0, 0.0)


def require(cond, what):
    if not cond:
        raise Violation(what)


def expect_oracle(cond, what):
    if not cond:
        raise HarnessError(what)


def snap(x):
    if isinstance(x, torch.Tensor):
        return x.detach().clone()
    if isinstance(x, (list, tuple)):
        return type(x)(snap(i) for i in x) if isinstance(x, list) else tuple(snap(i) for i in x)
    return x


# ------------------------------------------------------------------ streams
def is_out(o):
    return isinstance(o, torch.Tensor)


def step(m, x, t, **kw):
    return m.forward_step(x[:, :, t], **kw)


def chunks_of(case_chunks, T):
    """Normalises a drawn list of chunk descriptors to a full partition of T frames.

    n > 0: forward_steps over n frames; 0: one forward_step; exhausted: forward_step.
    """
    out, t = [], 0
    for c in case_chunks:
        if t >= T:
            break
        if c <= 0:
            out.append(("step", t, t + 1))
            t += 1
        else:
            n = min(c, T - t)
            out.append(("steps", t, t + n))
            t += n
    while t < T:
        out.append(("step", t, t + 1))
        t += 1
    return out


def drive(m, x, chunks):
    """Feeds x[:, :, ...] according to a partition.

    Returns a list of (t_last, tensor (B, C, n, ...)) pieces in order; a single step's
    output is unsqueezed in time.
    """
    res = []
    for kind, a, b in chunks:
        if kind == "step":
            o = m.forward_step(x[:, :, a])
            if is_out(o):
                res.append((a, b, o.unsqueeze(2), kind))
            else:
                require(o is None, f"forward_step returned {_d(o)} instead of a tensor or None")
        else:
            o = m.forward_steps(x[:, :, a:b])
            if is_out(o):
                res.append((a, b, o, kind))
            else:
                require(o is None, f"forward_steps returned {_d(o)} instead of a tensor or None")
    return res


def check_stream(pieces, Y, times, chunks, what, rtol=None, atol=None):
    """Pieces must be exactly the reference outputs Y whose emission times fall in each chunk."""
    got = {(a, b): o for a, b, o, _ in pieces}
    for kind, a, b in chunks:
        idx = [i for i, t in enumerate(times) if a <= t < b]
        o = got.get((a, b))
        if not idx:
            if o is not None:
                raise Violation(f"{what}: {kind}[{a}:{b}] produced {tuple(o.shape)} but no output is due")
            continue
        if o is None:
            raise Violation(f"{what}: {kind}[{a}:{b}] produced nothing, due are outputs {idx}")
        same(o, Y[:, :, idx[0]:idx[-1] + 1], f"{what}: {kind}[{a}:{b}]", rtol, atol)
