"""Specifications of layers and networks: construction of the continual module and an
independent offline reference.

A specification is a JSON tree.  `build` makes the module under test from it.  `ref`
computes, from the specification alone, what an offline network would compute on the
whole sequence, with the temporal padding made explicit:

  mode "forward"  both ends padded by the layer's padding mode (what `forward` does)
  mode "stream"   only the past is padded (by the temporal fill); causal part of a stream
  mode "end"      both ends padded by the temporal fill (`forward_steps(pad_end=True)`)

Together with the output of mode "stream" comes the list of emission times: at which
input frame (0-based) each output is due.
"""
import functools
from collections import OrderedDict

import torch
import torch.nn.functional as F
from torch import nn

from .runner import HarnessError, Violation
from .util import F32, F64, gen

INF = float("inf")


# =================================================================== weights
@functools.lru_cache(maxsize=512)
def _weights(op, ws, shapes, scale):
    g = gen("w", op, ws)
    return {n: torch.randn(s, generator=g, dtype=F64) * scale for n, s in shapes}


CAPTURE = None  # while gradients are compared: {"mods": {uid: module}, "refs": {uid: {name: leaf tensor}}}


def weights(s):
    w = _weights_of(s)
    if CAPTURE is not None and "uid" in s and w:
        refs = CAPTURE["refs"].setdefault(s["uid"], {})
        for n, v in w.items():
            if n not in refs:
                refs[n] = v.clone().requires_grad_(not n.startswith("running"))
        return refs
    return w


def _weights_of(s):
    op = s["op"]
    if op == "conv":
        sh = [("weight", (s["cout"], s["cin"] // s["g"], *s["k"]))]
        if s["bias"]:
            sh.append(("bias", (s["cout"],)))
    elif op == "linear":
        sh = [("weight", (s["cout"], s["cin"]))]
        if s["bias"]:
            sh.append(("bias", (s["cout"],)))
    elif op == "bn":
        c = s["cin"]
        sh = [(n, (c,)) for n in ("weight", "bias", "running_mean", "running_var")]
    elif op == "user":
        sh = [("weight", (s["k"],))]
    elif op == "rnn":
        G = {"rnn": 1, "gru": 3, "lstm": 4}[s["cell"]]
        sh, H = [], s.get("hid", s["cout"])
        for l in range(s["layers"]):
            i = s["cin"] if l == 0 else s["cout"]
            sh += [(f"weight_ih_l{l}", (G * H, i)), (f"weight_hh_l{l}", (G * H, s["cout"]))]
            if s["bias"]:
                sh += [(f"bias_ih_l{l}", (G * H,)), (f"bias_hh_l{l}", (G * H,))]
            if "hid" in s:
                sh.append((f"weight_hr_l{l}", (s["cout"], H)))
    else:
        return {}
    w = dict(_weights(op, s["ws"], tuple(sh), 0.6))
    if s.get("nl") == "relu":  # unbounded: keep long streams from growing without limit
        w = {n: 0.4 * v if "_hh_" in n else v for n, v in w.items()}
    if op == "bn":
        w["running_var"] = w["running_var"].abs() + 0.5
    return w


def load(m, w, dtype):
    m = m.to(dtype)
    with torch.no_grad():
        own = dict(m.named_parameters())
        own.update(dict(m.named_buffers()))
        for n, v in w.items():
            if n not in own or tuple(own[n].shape) != tuple(v.shape):
                kind = HarnessError if type(m).__module__.startswith("torch.") else Violation
                raise kind(f"parameter {n} of {type(m).__name__}: {tuple(own[n].shape) if n in own else 'none'}, not {tuple(v.shape)}")
            own[n].copy_(v)
    return m


def _arg(v, as_int):
    return v[0] if as_int and len(set(v)) == 1 else tuple(v)


def _given(brief, **kw):
    """Keyword arguments from name=(value, documented default); a brief caller leaves defaults out."""
    return {n: v for n, (v, default) in kw.items() if not (brief and v == default)}


# =================================================================== construction
ACTS = {
    "relu": (lambda: nn.ReLU(), F.relu),
    "sigmoid": (lambda: nn.Sigmoid(), torch.sigmoid),
    "tanh": (lambda: nn.Tanh(), torch.tanh),
    "leaky": (lambda: nn.LeakyReLU(0.2), lambda x: F.leaky_relu(x, 0.2)),
    "silu": (lambda: nn.SiLU(), F.silu),
    "hswish": (lambda: nn.Hardswish(), F.hardswish),
    "elu": (lambda: nn.ELU(), F.elu),
    "softplus": (lambda: nn.Softplus(), F.softplus),
    "gelu": (lambda: nn.GELU(), F.gelu),
    "softmax": (lambda: nn.Softmax(dim=1), lambda x: F.softmax(x, 1)),
    "dropout": (lambda: nn.Dropout(0.5), lambda x: x),
}


def _center(x):
    """Per frame (B, C, ...) function: needs the step semantics of Lambda."""
    return x - x.flatten(1).mean(1).view(-1, *([1] * (x.dim() - 1)))


FUNCS = {
    # name: (continual module or plain function, reference on (B, C, T, ...))
    "add": (lambda co: co.Add(0.75), lambda x: x + 0.75),
    "mul": (lambda co: co.Multiply(-1.5), lambda x: x * -1.5),
    "identity": (lambda co: co.Identity(), lambda x: x),
    "one": (lambda co: co.One(), torch.ones_like),
    "const": (lambda co: co.Constant(0.3), lambda x: 0.3 * torch.ones_like(x)),
    "center": (
        lambda co: co.Lambda(_center),
        lambda x: torch.stack([_center(x[:, :, t]) for t in range(x.shape[2])], 2) if x.shape[2] else x,
    ),
    "square": (lambda co: co.Lambda(lambda x: x * x, takes_time=True), lambda x: x * x),
    "fn": (lambda co: _center, lambda x: FUNCS["center"][1](x)),  # raw function, auto-converted
    "builtin": (lambda co: torch.sigmoid, torch.sigmoid),
}

HOOKS = {
    "affine": lambda x: 0.5 * x + 0.25,
    "flip": lambda x: 0.125 - x,
    "squash": lambda x: torch.tanh(x),
    "none": lambda x: x,  # the hook returns nothing
}

REDUCES = {
    "sum": lambda xs: functools.reduce(torch.add, xs),
    "concat": lambda xs: torch.cat(xs, 1),
    "mul": lambda xs: functools.reduce(torch.mul, xs),
    "max": lambda xs: functools.reduce(torch.maximum, xs),
    "fn": lambda xs: xs[0] - 2 * xs[-1],
}


def _fn_reduce(xs):
    return xs[0] - 2 * xs[-1]


def _red(name):
    return _fn_reduce if name == "fn" else name


def _rnn_kw(s):
    kw = {"nonlinearity": s["nl"]} if s.get("nl") else {}
    if "hid" in s:
        kw["proj_size"] = s["cout"]
    if "drop" in s:
        kw["dropout"] = s["drop"]
    return kw


def torch_layer(s, dtype=F64):
    """The torch.nn layer a leaf specification corresponds to (None if there is none)."""
    op = s["op"]
    r = s.get("rank")
    if op == "conv":
        m = getattr(nn, f"Conv{r}d")(
            s["cin"], s["cout"], tuple(s["k"]), tuple(s["s"]), s.get("pname") or tuple(s["p"]), tuple(s["d"]), s["g"],
            s["bias"], s["pm"]
        )
    elif op == "pool":
        kw = dict(kernel_size=tuple(s["k"]), stride=tuple(s["s"]), padding=tuple(s["p"]), ceil_mode=s["ceil"])
        if s["kind"] == "max":
            m = getattr(nn, f"MaxPool{r}d")(dilation=tuple(s["d"]), **kw)
        else:
            if r > 1 and s["div"]:
                kw["divisor_override"] = s["div"]
            if r == 1:
                kw = {k: (v[0] if isinstance(v, tuple) else v) for k, v in kw.items()}
            m = getattr(nn, f"AvgPool{r}d")(count_include_pad=s["cip"], **kw)
    elif op == "adaptive":
        m = getattr(nn, f"Adaptive{s['kind'].capitalize()}Pool{r}d")((1, *s["out"]))
    elif op == "linear":
        m = nn.Linear(s["cin"], s["cout"], s["bias"])
    elif op == "rnn":
        m = getattr(nn, s["cell"].upper())(s["cin"], s.get("hid", s["cout"]), s["layers"], bias=s["bias"], batch_first=True, **_rnn_kw(s))
    elif op == "bn":
        m = getattr(nn, f"BatchNorm{r}d")(s["cin"])
    elif op == "act":
        m = ACTS[s["f"]][0]()
    elif op == "nn":
        return framewise(s, dtype).eval()
    else:
        return None
    return load(m, weights(s), dtype).eval()


def framewise(s, dtype):
    """A torch.nn module without temporal interaction, with deterministic parameters and statistics."""
    m = getattr(nn, s["cls"])(*s.get("args", []), **s.get("kw", {})).to(dtype)
    g = gen("nn", s.get("ws", 0))
    with torch.no_grad():
        own = dict(m.named_parameters())
        own.update(m.named_buffers())
        for n, p in sorted(own.items()):
            if p.is_floating_point():
                v = torch.randn(p.shape, generator=g, dtype=F64)
                p.copy_(v.abs() + 0.5 if n.endswith("var") else v)
    return m


TRAIN = False  # set by the runner for cases whose networks are to be in training mode


def set_mode(m, training):
    """Training mode, apart from the parts which compute something else in it."""
    m.train(training)
    if training:
        for x in m.modules():
            if isinstance(x, nn.MultiheadAttention):
                x.dropout = 0.0
            elif isinstance(x, _MODAL) or isinstance(x, nn.RNNBase) and x.dropout:
                x.eval()


_MODAL = (nn.modules.batchnorm._NormBase, nn.modules.dropout._DropoutNd, nn.RReLU)


def build(s, dtype=F64, training=False):
    m = _build(s, dtype)
    if hasattr(m, "train"):
        if training:
            m.train()
        else:
            set_mode(m, TRAIN)
        m.to(dtype)
    return m


def _mods(s, dtype):
    ms = [_build(x, dtype) for x in s["mods"]]
    if s.get("named"):
        name = {"digit": "{}x{}", True: "m{1}"}[s["named"]]
        return [OrderedDict((name.format(3 + i % 3, i), m) for i, m in enumerate(ms))]
    return ms


def _build(s, dtype):
    m = _construct(s, dtype)
    if CAPTURE is not None and "uid" in s:
        CAPTURE["mods"][s["uid"]] = m
    return m


def _construct(s, dtype):  # noqa: C901
    import continual as co

    op = s["op"]
    r = s.get("rank")
    ai = s.get("as_int", False)
    if op == "conv":
        kw = _given(ai, stride=(_arg(s["s"], ai), 1), padding=(_arg(s["p"], ai), 0), dilation=(_arg(s["d"], ai), 1),
                    groups=(s["g"], 1), bias=(s["bias"], True), padding_mode=(s["pm"], "zeros"))
        if s["fill"] != "zeros" or not ai:
            kw["temporal_fill"] = s["fill"]
        m = getattr(co, f"Conv{r}d")(s["cin"], s["cout"], kernel_size=_arg(s["k"], ai), **kw)
        return load(m, weights(s), dtype)
    if op == "pool":
        kw = _given(ai, padding=(_arg(s["p"], ai), 0), ceil_mode=(s["ceil"], False))
        kw["kernel_size"] = _arg(s["k"], ai)
        if not (s["s"] == s["k"] and ai):  # the default stride is the kernel size
            kw["stride"] = _arg(s["s"], ai)
        if any(d != 1 for d in s["d"]):
            kw["dilation"] = tuple(s["d"])
        if s["fill"] != "default":
            kw["temporal_fill"] = s["fill"]
        if s["kind"] == "avg":
            if not s["cip"]:
                kw["count_include_pad"] = False
            if r > 1 and s["div"]:
                kw["divisor_override"] = s["div"]
        return getattr(co, f"{s['kind'].capitalize()}Pool{r}d")(**kw)
    if op == "adaptive":
        kw = {"stride": s["st"]} if s["st"] != 1 else {}
        kw.update(_given(False, padding=(s.get("p", 0), 0), dilation=(s.get("d", 1), 1)))
        if s["fill"] != "default":
            kw["temporal_fill"] = s["fill"]
        return getattr(co, f"Adaptive{s['kind'].capitalize()}Pool{r}d")((1, *s["out"]), kernel_size=s["k"], **kw)
    if op == "linear":
        kw = _given(s["ws"] % 2, bias=(s["bias"], True), channel_dim=(s["cd"], -1))
        m = co.Linear(s["cin"], s["cout"], **kw)
        return load(m, weights(s), dtype)
    if op == "rnn":
        kw = _given(s["ws"] % 2, num_layers=(s["layers"], 1), bias=(s["bias"], True))
        m = getattr(co, s["cell"].upper())(s["cin"], s.get("hid", s["cout"]), **kw, **_rnn_kw(s))
        return load(m, weights(s), dtype)
    if op == "user":
        from .user import Window

        return load(Window(s["k"], s["p"], s["fill"]), weights(s), dtype)
    if op in ("bn", "act", "nn"):
        return torch_layer(s, dtype)
    if op == "func":
        return FUNCS[s["f"]][0](co)
    if op == "reshape":
        return co.Reshape(*s["shape"]) if s.get("star") else co.Reshape(s["shape"])
    if op == "delay":
        kw = {"auto_shrink": s["shrink"]} if s["shrink"] else {}
        return co.Delay(s["n"], temporal_fill=s["fill"], **kw)
    if op == "skip":
        return co.Skip(s["n"])
    if op == "seq":
        return co.Sequential(*_mods(s, dtype))
    if op == "br":
        kw = {} if s["reduce"] == "sum" else {"reduce": _red(s["reduce"])}
        return co.BroadcastReduce(*_mods(s, dtype), **kw)
    if op == "res":
        kw = {}
        if s["reduce"] != "sum":
            kw["reduce"] = _red(s["reduce"])
        if s["shrink"]:
            kw["residual_shrink"] = s["shrink"]
        if s.get("fill"):
            kw["temporal_fill"] = s["fill"]
        return co.Residual(co.continual(_build(s["mod"], dtype)), **kw)
    if op == "bpr":  # explicit Broadcast -> Parallel (-> Dispatch -> Parallel) -> Reduce
        ms = [co.Broadcast() if s.get("infer", True) else co.Broadcast(len(s["mods"])), co.Parallel(*_mods(s, dtype))]
        if s.get("dispatch"):
            ms.append(co.ParallelDispatch(s["dispatch"]))
            if s.get("mods2"):
                ms.append(co.Parallel(*[_build(x, dtype) for x in s["mods2"]]))
        ms.append(co.Reduce(_red(s["reduce"])))
        return co.Sequential(*ms)
    if op == "merge":  # of streams grouped by ParallelDispatch
        return co.Reduce(_red(s["reduce"]))
    if op == "cond":
        val = s["val"]
        pred = (lambda m, x: val)
        f = None if s["f"] is None else _build(s["f"], dtype)
        return co.Conditional(pred, _build(s["t"], dtype), f)
    if op in ATT:
        return _attention(s, dtype)
    raise HarnessError("unknown op " + op)


def fill(m, ws, dtype):
    """Deterministic parameters for modules without an own weight scheme."""
    m = m.to(dtype)
    g = gen("fill", ws)
    with torch.no_grad():
        for n, p in sorted(m.named_parameters()):
            # moderate attention logits: the retroactive attention exponentiates without normalising first
            v = torch.randn(p.shape, generator=g, dtype=F64) * (0.8 / max(1, p.shape[-1]) ** 0.5)
            if "norm" in n and n.endswith("weight"):
                v = 1 + 0.3 * v
            p.copy_(v)
    return m


def _attention(s, dtype):
    import continual as co

    op = s["op"]
    if op == "rpe":
        m = co.RecyclingPositionalEncoding(s["E"], s["N"], learned=s["learned"], forward_update_index_steps=s["fu"])
        return fill(m, s["ws"], dtype)
    if op == "mha":
        kw = dict(embed_dim=s["E"], num_heads=s["H"], bias=s["bias"], batch_first=True, embed_dim_second=True,
                  sequence_len=s["S"])
        if s["type"] == "single":
            if s.get("net"):
                kw.update(forward_returns_attn_mask=False, single_output_forward=False)
            m = co.SingleOutputMultiheadAttention(query_index=s["qi"], **kw)
        else:
            m = co.RetroactiveMultiheadAttention(**kw)
        return fill(m, s["ws"], dtype)
    act = {"relu": F.relu, "gelu": F.gelu}[s["act"]]
    kw = dict(d_model=s["E"], nhead=s["H"], dim_feedforward=s["F"], dropout=0.1, sequence_len=s["S"])
    if op == "tel":
        if s["type"] == "single":
            m = co.SingleOutputTransformerEncoderLayer(
                activation=act, single_output_forward=s["sof"], query_index=s["qi"], **kw)
        else:
            m = co.RetroactiveTransformerEncoderLayer(activation=act, **kw)
        return fill(m, s["ws"], dtype)
    fac = co.TransformerEncoderLayerFactory(activation=s["act"] if s.get("str") else act, **kw)
    norm = nn.LayerNorm(s["E"]) if s["norm"] else None
    return fill(co.TransformerEncoder(fac, num_layers=s["L"], norm=norm), s["ws"], dtype)


ATT = ("rpe", "mha", "tel", "te")


# =================================================================== reference
def pad_time(X, n_front, n_end, fill):
    if n_front == 0 and n_end == 0:
        return X

    def blk(frame, n):
        f = {"zeros": torch.zeros_like, "replicate": torch.clone, "neg_inf": lambda z: torch.full_like(z, -INF)}[fill](
            frame
        )
        return [f.unsqueeze(2)] * n

    parts = blk(X[:, :, 0], n_front) + [X] + blk(X[:, :, -1], n_end)
    return torch.cat(parts, 2)


TEMPORAL = ("conv", "pool", "adaptive", "user")


def geom(s):
    """(kernel extent, stride, padding) in time of a temporal leaf."""
    op = s["op"]
    if op in ("conv", "pool"):
        return s["d"][0] * (s["k"][0] - 1) + 1, s["s"][0], s["p"][0]
    if op == "adaptive":
        return s.get("d", 1) * (s["k"] - 1) + 1, s["st"], s.get("p", 0)
    if op == "user":
        return s["k"], 1, s["p"]
    raise HarnessError(op)


def default_fill(s):
    if s["op"] == "pool" and s["fill"] == "default":
        return "neg_inf" if s["kind"] == "max" else "zeros"
    return "zeros" if s["fill"] == "default" else s["fill"]


def forward_fill(s):
    if s["op"] in ("conv", "user"):
        return s["pm" if s["op"] == "conv" else "fill"]
    return "neg_inf" if s["kind"] == "max" else "zeros"


def _conv(s, X):
    w = weights(s)
    r = s["rank"]
    p = s["p"][1:]
    sp = [0, *p]
    if s["pm"] == "replicate" and any(p):
        rp = [v for q in reversed(p) for v in (q, q)] + [0, 0]
        X = F.pad(X, rp, mode="replicate")
        sp = [0] * r
    dt = X.dtype
    f = [F.conv1d, F.conv2d, F.conv3d][r - 1]
    b = w.get("bias")
    return f(X, w["weight"].to(dt), None if b is None else b.to(dt), tuple(s["s"]), tuple(sp), tuple(s["d"]), s["g"])


def _pool(s, X):
    r = s["rank"]
    k, st, p, d = s["k"], s["s"], [0, *s["p"][1:]], s["d"]
    if s["kind"] == "max":
        f = [F.max_pool1d, F.max_pool2d, F.max_pool3d][r - 1]
        return f(X, tuple(k), tuple(st), tuple(p), tuple(d), s["ceil"])
    f = [F.avg_pool1d, F.avg_pool2d, F.avg_pool3d][r - 1]
    kw = {}
    if r > 1 and s["div"]:
        kw["divisor_override"] = s["div"]
    if d[0] == 1:
        return f(X, tuple(k), tuple(st), tuple(p), s["ceil"], s["cip"], **kw)
    # temporal dilation: gather the frames of every window, then pool them
    ext = d[0] * (k[0] - 1) + 1
    outs = []
    for a in range(0, X.shape[2] - ext + 1, st[0]):
        W = X[:, :, a:a + ext:d[0]]
        outs.append(f(W, tuple(k), (1, *st[1:]), tuple(p), s["ceil"], s["cip"], **kw))
    return torch.cat(outs, 2)


def _adaptive(s, X):
    f = getattr(F, f"adaptive_{s['kind']}_pool{s['rank']}d")
    e, d = geom(s)[0], s.get("d", 1)
    outs = [f(X[:, :, a:a + e:d], (1, *s["out"])) for a in range(0, X.shape[2] - e + 1, s["st"])]
    return torch.cat(outs, 2)


def _window(s, X):
    return torch.einsum("bct...k,k->bct...", X.unfold(2, s["k"], 1), weights(s)["weight"].to(X.dtype))


def leaf_out_len(s, n, mode):
    e, st, p = geom(s)
    if mode == "forward" and s["op"] == "pool" and s["kind"] == "avg" and s["rank"] == 3 and n < s["k"][0]:
        return 0  # torch.nn.functional.avg_pool3d rejects inputs smaller than the kernel
    n2 = n + p * (2 if mode in ("forward", "end") else 1)
    if s.get("ceil") and st > 1 and mode != "stream" and n2 >= e:  # (only in recorded findings)
        return -(-(n2 - e) // st) + 1
    return max(0, (n2 - e) // st + 1)


def ref_temporal(s, X, mode):
    e, st, p = geom(s)
    fill = forward_fill(s) if mode == "forward" else default_fill(s)
    n = leaf_out_len(s, X.shape[2], mode)
    if n == 0 or X.shape[2] == 0:
        return None
    Xp = pad_time(X, p, p if mode != "stream" else 0, fill)
    Y = {"conv": _conv, "pool": _pool, "adaptive": _adaptive, "user": _window}[s["op"]](s, Xp)
    if Y.shape[2] != n:
        raise HarnessError(f"reference length {Y.shape[2]} != {n} for {s}")
    return Y


def _sub(X, times, Y, idx):
    return Y, [times[i] for i in idx]


def same_params(src, dst):
    """Loads the parameters of a continual encoder layer into a torch one, by their common names."""
    todo = dict(src.named_parameters())
    with torch.no_grad():
        for n, p in dst.named_parameters():
            head, tail = n.split(".", 1)
            m = [k for k in todo if head in k.split(".") and k.endswith("." + tail)]
            if len(m) != 1:
                raise Violation(f"no counterpart for {n}: {m}")
            p.copy_(todo.pop(m[0]))
    if todo:
        raise Violation(f"left over: {list(todo)}")


def ref_att(s, X, mode, times):
    """Single-output attention within a network: the window around its query."""
    if s["op"] == "mha":
        m = nn.MultiheadAttention(s["E"], s["H"], bias=s["bias"], batch_first=True)
        m = fill(m, s["ws"], X.dtype).eval().requires_grad_(False)
        f = (lambda Z: m(Z, Z, Z, need_weights=False)[0])
    else:
        m = nn.TransformerEncoderLayer(s["E"], s["H"], s["F"], 0.1, s["act"], batch_first=True).to(X.dtype)
        same_params(_attention(s, X.dtype), m)
        f = m.eval().requires_grad_(False)
    n, S = X.shape[2], s["S"]
    if mode != "stream":
        return f(X.transpose(1, 2)).transpose(1, 2), list(range(n))
    if n < S:
        return None, []
    Y = [f(X[:, :, t - S + 1:t + 1].transpose(1, 2))[:, s["qi"] % S] for t in range(S - 1, n)]
    return torch.stack(Y, 2), times[S - 1:]


def ref_rnn(s, X):
    m = torch_layer(s, X.dtype)
    m.requires_grad_(False)
    if CAPTURE is not None and "uid" in s:
        return torch.func.functional_call(m, weights(s), (X.transpose(1, 2),))[0].transpose(1, 2)
    return m(X.transpose(1, 2))[0].transpose(1, 2)


def ref(s, X, mode, times=None):  # noqa: C901
    """Returns (Y, emission times); Y is None if there is no output at all."""
    if times is None:
        times = list(range(X.shape[2])) if X is not None else []
    if X is None:
        return None, []
    if s.get("hook"):  # functions installed as forward (pre-)hooks of the module
        h = s["hook"]
        x = functools.reduce(lambda v, f: HOOKS[f](v), h["pre"], X)
        bw = CAPTURE is not None and "grads" in CAPTURE and h.get("bw")
        if bw:
            x = x.clone()
            x.register_hook(lambda g: CAPTURE["grads"].setdefault(s["uid"], {}).__setitem__("in", g.clone()))
        Y, t = ref({k: v for k, v in s.items() if k != "hook"}, x, mode, times)
        if bw and Y is not None:
            Y = functools.reduce(lambda v, f: HOOKS[f](v), h["post"], Y).clone()
            Y.register_hook(lambda g: CAPTURE["grads"].setdefault(s["uid"], {}).__setitem__("out", g.clone()))
            return Y, t
        if CAPTURE is not None:
            CAPTURE.setdefault("seen", {})[s["uid"]] = (X, times, Y, t)
        return (Y if Y is None else functools.reduce(lambda v, f: HOOKS[f](v), h["post"], Y)), t
    op = s["op"]
    n = X.shape[2]
    if op in TEMPORAL:
        Y = ref_temporal(s, X, mode)
        e, st, p = geom(s)
        if Y is None:
            return None, []
        if mode != "stream":
            return Y, list(range(Y.shape[2]))
        return Y, [times[e - 1 - p + i * st] for i in range(Y.shape[2])]
    if op == "linear":
        w = weights(s)
        ax = s["cd"] % X.dim()
        Y = torch.tensordot(X.movedim(ax, -1), w["weight"].to(X.dtype), dims=([X.dim() - 1], [1]))
        if s["bias"]:
            Y = Y + w["bias"].to(X.dtype)
        return Y.movedim(-1, ax), times
    if op == "bn":
        w = {k: v.to(X.dtype).view(1, -1, *([1] * (X.dim() - 2))) for k, v in weights(s).items()}
        return (X - w["running_mean"]) / (w["running_var"] + 1e-5).sqrt() * w["weight"] + w["bias"], times
    if op == "act":
        return ACTS[s["f"]][1](X), times
    if op == "nn":
        if CAPTURE is not None and "uid" in s:
            m = framewise(s, X.dtype).eval()
            refs = CAPTURE["refs"].setdefault(s["uid"], dict(m.named_parameters()))
            return torch.func.functional_call(m, refs, (X,)), times
        with torch.no_grad():
            return framewise(s, X.dtype).eval()(X), times
    if op == "func":
        return FUNCS[s["f"]][1](X), times
    if op == "rnn":
        return ref_rnn(s, X), times
    if op in ("mha", "tel"):
        return ref_att(s, X, mode, times)
    if op == "reshape":
        return torch.stack([X[:, :, t].reshape(*s["shape"]) for t in range(n)], 2), times
    if op == "delay":
        d, sh = s["n"], s["shrink"]
        if sh in (True, "centered"):
            Y = X[:, :, d:n - d] if n > 2 * d else None
            t = [times[i + 2 * d] for i in range(max(0, n - 2 * d))]
        elif sh == "lagging":
            Y = X[:, :, :n - d] if n > d else None
            t = [times[i + d] for i in range(max(0, n - d))]
        elif mode != "stream":
            Y, t = X, list(range(n))
        else:
            Y = X[:, :, :n - d] if n > d else None
            t = [times[i + d] for i in range(max(0, n - d))]
        return Y, t
    if op == "skip":
        k = s["n"]
        return (X[:, :, k:] if n > k else None), times[k:]
    if op == "seq":
        for m in s["mods"]:
            X, times = ref(m, X, mode, times)
            if X is None:
                return None, []
        return X, times
    if op == "br":
        return ref_reduce(s["reduce"], [ref(m, X, mode, times) for m in s["mods"]], mode)
    if op == "res":
        return ref_res(s, X, mode, times)
    if op == "bpr":
        h = s.get("shook")  # a hook on one of the parts that handle several streams
        fn = HOOKS[h["f"]] if h else None
        if h and h["at"] in ("bc", "par_pre"):
            X = fn(X)
        ys = ref_align([ref(m, X, mode, times) for m in s["mods"]])
        if h and h["at"] == "par_post":
            ys = [(y if y is None else fn(y), t) for y, t in ys]
        if s.get("dispatch"):
            ys = [[ys[j] for j in i] if isinstance(i, list) else ys[i] for i in s["dispatch"]]
            if s.get("mods2"):
                ys = [ref_merged(m, y, mode) for m, y in zip(s["mods2"], ys)]
        if h and h["at"] == "red_pre":
            ys = [(y if y is None else fn(y), t) for y, t in ys]
        return ref_reduce(s["reduce"], ys, mode)
    if op == "cond":
        a, b = s["t"], s["f"]
        pick = a if s["val"] else b
        if pick is None:
            return X, times
        Y, t = ref(pick, X, mode, times)
        if mode == "stream" and b is not None:  # the shorter branch is delayed to match the longer
            shift = max(delay(a), delay(b)) - delay(pick)
            if shift:
                Y, t = ref(pick, X[:, :, :n - shift] if n > shift else None, mode, times[shift:])
        return Y, t
    raise HarnessError("unknown op " + op)


def ref_merged(s, y, mode):
    """A branch behind ParallelDispatch; grouped streams are merged first."""
    if not isinstance(y, list):
        return ref(s, y[0], mode, y[1])
    if s["op"] == "merge":
        return ref_reduce(s["reduce"], y, mode)
    X, t = ref_merged(s["mods"][0], y, mode)
    return ref(dict(s, mods=s["mods"][1:]), X, mode, t)


def ref_align(ys):
    if any(y is None for y, _ in ys):
        return [(None, []) for _ in ys]
    n = min(y.shape[2] for y, _ in ys)
    if n == 0:
        return [(None, []) for _ in ys]
    ts = [max(t[i] for _, t in ys) for i in range(n)]
    return [(y[:, :, :n], list(ts)) for y, _ in ys]


def ref_reduce(name, ys, mode):
    if mode != "stream":
        ls = {None if y is None else y.shape[2] for y, _ in ys}
        if len(ls) != 1:
            raise HarnessError(f"branches of unequal length {ls}")
    ys = ref_align(ys)
    if ys[0][0] is None:
        return None, []
    return REDUCES[name]([y for y, _ in ys]), ys[0][1]


def ref_res(s, X, mode, times):
    Y, t = ref(s["mod"], X, mode, times)
    if Y is None:
        return None, []
    n, m = X.shape[2], Y.shape[2]
    # residual: which input frame belongs to output i
    D = delay(s["mod"])
    if s["shrink"] in (True, "centered") and not equal_padding(s["mod"]):
        off = D // 2
    elif s["shrink"] == "leading" and not equal_padding(s["mod"]):
        off = D
    else:  # equal padding (same length) or lagging
        off = 0
    R = X[:, :, off:off + m]
    if R.shape[2] != m:
        raise HarnessError("residual length")
    return REDUCES[s["reduce"]]([R, Y]), t


def equal_padding(s):
    return receptive_field(s) - 2 * padding(s) == 1


# =================================================================== temporal metadata
def receptive_field(s):
    op = s["op"]
    if op in TEMPORAL:
        return geom(s)[0]
    if op == "delay":
        return s["n"] + 1
    if op == "seq":
        rf, jump = 1, 1
        for m in s["mods"]:
            rf += (receptive_field(m) - 1) * jump
            jump *= stride(m)
        return rf
    if op in ("br", "bpr"):
        # alignment by delaying makes the shorter branch observe further back
        D = max(delay(m) for m in s["mods"])
        a = max(receptive_field(m) + (D - delay(m)) for m in s["mods"])
        if op == "bpr" and s.get("mods2"):
            D2 = max(delay(m) for m in s["mods2"])
            b = max(receptive_field(m) + (D2 - delay(m)) for m in s["mods2"])
            return a + (b - 1) * stride(s["mods"][0])
        return a
    if op == "res":
        return max(receptive_field(s["mod"]), delay(s["mod"]) + 1)
    if op == "cond":
        D = delay(s)
        return max(receptive_field(m) + (D - delay(m)) for m in (s["t"], s["f"]) if m is not None)
    if op in ("mha", "tel", "te"):
        return s["S"]
    return 1


def stride(s):
    op = s["op"]
    if op in TEMPORAL:
        return geom(s)[1]
    if op == "seq":
        r = 1
        for m in s["mods"]:
            r *= stride(m)
        return r
    if op == "bpr":
        return stride(s["mods"][0]) * (stride(s["mods2"][0]) if s.get("mods2") else 1)
    if op == "br":
        return stride(s["mods"][0])
    if op == "res":
        return stride(s["mod"])
    if op == "cond":
        return stride(s["t"])
    return 1


def padding(s):
    op = s["op"]
    if op in TEMPORAL:
        return geom(s)[2]
    if op == "seq":
        p, jump = 0, 1
        for m in s["mods"]:
            p += padding(m) * jump
            jump *= stride(m)
        return p
    if op == "br":
        return max(padding(m) for m in s["mods"])
    if op == "res":
        return padding(s["mod"])
    if op == "bpr":
        p = max(padding(m) for m in s["mods"])
        if s.get("mods2"):
            p += stride(s["mods"][0]) * max(padding(m) for m in s["mods2"])
        return p
    if op == "cond":
        return max(padding(m) for m in (s["t"], s["f"]) if m is not None)
    return 0


def delay(s):
    """Number of frames before the first output of a fresh stream (semantic definition)."""
    op = s["op"]
    if op in TEMPORAL:
        e, _, p = geom(s)
        return e - 1 - p
    if op == "delay":
        return s["n"] * (2 if s["shrink"] in (True, "centered") else 1)
    if op == "skip":
        return s["n"]
    if op == "seq":
        d, jump = 0, 1
        for m in s["mods"]:
            d += delay(m) * jump
            jump *= stride(m)
        return d
    if op == "br":
        return max(delay(m) for m in s["mods"])
    if op == "bpr":
        d = max(delay(m) for m in s["mods"])
        if s.get("mods2"):
            d += stride(s["mods"][0]) * max(delay(m) for m in s["mods2"])
        return d
    if op == "res":
        return delay(s["mod"])
    if op == "cond":
        return max(delay(s["t"]), 0 if s["f"] is None else delay(s["f"]))
    if op in ("mha", "tel", "te"):
        return s["S"] - 1
    return 0


def number(s, n=None):
    """The specification with a uid at every node."""
    n = n if n is not None else [0]
    s = dict(s, uid=n[0])
    n[0] += 1
    for k in ("mods", "mods2"):
        if s.get(k):
            s[k] = [number(m, n) for m in s[k]]
    for k in ("mod", "t", "f"):
        if isinstance(s.get(k), dict):
            s[k] = number(s[k], n)
    return s


def weighted(s):
    """Does the module have parameters?"""
    return any(l["op"] in ("conv", "linear", "bn", "rnn", "user", *ATT) for l in leaves(s))


def leaves(s):
    if s["op"] in ("seq", "br", "bpr"):
        return [l for m in s["mods"] + s.get("mods2", []) for l in leaves(m)]
    if s["op"] == "res":
        return leaves(s["mod"])
    if s["op"] == "cond":
        return leaves(s["t"]) + ([] if s["f"] is None else leaves(s["f"]))
    return [s]


def depth(s):
    if s["op"] in ("seq", "br", "bpr"):
        return 1 + max(depth(m) for m in s["mods"])
    if s["op"] == "res":
        return 1 + depth(s["mod"])
    return 0


__all__ = ["build", "ref", "delay", "stride", "padding", "receptive_field", "leaves", "torch_layer", "F32", "F64"]
