"""Conversion of regular torch.nn networks."""
from collections import OrderedDict

import torch
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..util import F32, F64, check_stream, chunks_of, data, drive, layout, require, same

RULE = "the network has parameters, buffers, or a layer with memory, and at least one stream output was compared"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["evaluation mode", "GroupNorm (statistics over time) and norms without running statistics are left out"]

# framewise modules of the documented conversion list: (class, args, kwargs)
FRAMEWISE = [
    ("Threshold", [0.1, -2.0], {}), ("ReLU", [], {}), ("RReLU", [], {}), ("Hardtanh", [-0.5, 0.75], {}),
    ("ReLU6", [], {}), ("Sigmoid", [], {}), ("Hardsigmoid", [], {}), ("Tanh", [], {}), ("SiLU", [], {}),
    ("Hardswish", [], {}), ("ELU", [0.7], {}), ("CELU", [1.3], {}), ("SELU", [], {}), ("GELU", [], {}),
    ("Hardshrink", [0.3], {}), ("LeakyReLU", [0.2], {}), ("LogSigmoid", [], {}), ("Softplus", [2.0], {}),
    ("Softshrink", [0.4], {}), ("Softsign", [], {}), ("Tanhshrink", [], {}),
    ("Dropout", [0.5], {}), ("Dropout1d", [0.5], {}), ("Dropout2d", [0.5], {}), ("Dropout3d", [0.5], {}),
    ("AlphaDropout", [0.5], {}), ("FeatureAlphaDropout", [0.5], {}),
    ("Softmin", [], {"dim": 1}), ("Softmax", [], {"dim": 1}), ("LogSoftmax", [], {"dim": 1}),
]


def framewise(draw, rank, c, sp):
    k = gens.wi(draw, ("list", 8), ("prelu", 1), ("bn", 2), ("ln", 1 if sp else 0), ("glu", 1 if c % 2 == 0 else 0),
                ("in", 2), ("sm2d", 1 if rank == 2 else 0))
    ws = draw(st.integers(0, 60))
    if k == "list":
        cls, a, kw = draw(st.sampled_from(FRAMEWISE))
        if (cls, rank) in (("Dropout1d", 2), ("Dropout1d", 3), ("Dropout2d", 1), ("Dropout2d", 3), ("Dropout3d", 1),
                           ("Dropout3d", 2)):
            cls = f"Dropout{rank}d"
        return {"op": "nn", "cls": cls, "args": a, "kw": kw}, c
    if k == "prelu":
        return {"op": "nn", "cls": "PReLU", "args": [gens.pick(draw, 1, c)], "ws": ws}, c
    if k == "bn":
        return {"op": "bn", "rank": rank, "cin": c, "ws": ws}, c
    if k == "in":
        return {"op": "nn", "cls": f"InstanceNorm{rank}d", "args": [c], "kw": {"affine": True, "track_running_stats": True},
                "ws": ws}, c
    if k == "ln":
        n = draw(st.integers(1, len(sp)))
        return {"op": "nn", "cls": "LayerNorm", "args": [list(sp[-n:])], "ws": ws}, c
    if k == "sm2d":
        return {"op": "nn", "cls": "Softmax2d"}, c
    return {"op": "nn", "cls": "GLU", "kw": {"dim": 1}}, c // 2


def by_name(draw, m, sp):
    """Occasionally a padding by name; returns the spatial output size, which it may change."""
    p = gens.wi(draw, ("", 4), ("valid", 1), ("same", 1))
    isp = [(o - 1) * s - 2 * p_ + d * (k - 1) + 1 for o, s, p_, d, k in zip(sp, m["s"][1:], m["p"][1:], m["d"][1:], m["k"][1:])]
    if p == "same" and all(s == 1 for s in m["s"]) and all(d * (k - 1) % 2 == 0 for d, k in zip(m["d"], m["k"])):
        m["p"] = [d * (k - 1) // 2 for d, k in zip(m["d"], m["k"])]
    elif p == "valid" and not any(m["p"]):
        pass
    else:
        return sp
    m["pname"] = p
    return [gens.out_size(S, *q) for S, *q in zip(isp, m["k"][1:], m["s"][1:], m["p"][1:], m["d"][1:])]


def linear_(draw, sp):
    """nn.Linear acts on the last dimension."""
    return {"op": "linear", "cin": sp[-1], "cout": draw(st.integers(1, 4)), "bias": gens.flag(draw, 2, 3), "cd": -1,
            "ws": draw(st.integers(0, 60))}


def net(draw, rank, c, sp, n, d):
    mods = []
    for _ in range(n):
        k = gens.wi(draw, ("conv", 4), ("pool", 3), ("fw", 5), ("linear", 1 if sp else 0), ("seq", 2 if d else 0))
        if k == "conv":
            m, c, sp = gens.conv(draw, rank, c, sp, fill=gens.wi(draw, (("zeros", "zeros"), 3), (("replicate", "replicate"), 1)))
            m["as_int"] = False
            sp = by_name(draw, m, sp)
        elif k == "pool":
            m, c, sp = gens.pool(draw, rank, c, sp, fills=False)
            m["as_int"] = False
        elif k == "fw":
            m, c = framewise(draw, rank, c, sp)
        elif k == "linear":
            m = linear_(draw, sp)
            sp = [*sp[:-1], m["cout"]]
        else:
            m, c, sp = net(draw, rank, c, sp, draw(st.integers(1, 3)), d - 1)
        mods.append(m)
    return {"op": "seq", "mods": mods, "named": gens.flag(draw, 1, 3)}, c, sp


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    kind = gens.wi(draw, ("seq", 6), ("leaf", 3), ("fw", 3), ("rnn", 1), ("conv1", 1), ("adaptive", 1), ("pool", 1), ("linear", 1))
    rank = draw(st.integers(1, 3))
    sp = gens.spatial_dims(draw, rank)
    c = draw(st.integers(1, 4))
    kw = False
    if kind == "seq":
        s, _, _ = net(draw, rank, c, sp, draw(st.integers(1, 4)), 2)
        if gens.flag(draw, 1, 5):  # one instance in several places
            act = {"op": "act", "f": gens.pick(draw, "relu", "tanh", "sigmoid"), "shared": True}
            for _ in range(2):
                s["mods"].insert(draw(st.integers(0, len(s["mods"]))), dict(act))
    elif kind == "leaf":
        s, c, sp = gens.temporal_leaf(draw, big=True)
        rank, spi = len(sp) + 1, sp
        if s["op"] in ("delay", "adaptive"):
            s, _, _ = gens.conv(draw, 1, c, [])
            sp = spi = []
            rank = 1
        s["fill"] = {"conv": s.get("pm"), "pool": "default"}[s["op"]]
        s["as_int"] = False
        if s["op"] == "conv":
            by_name(draw, s, [1] * (s["rank"] - 1))
        if gens.flag(draw, 1, 3):  # what the original cannot say
            kw = True
            if s["op"] == "pool":
                s, _, _ = gens.pool(draw, rank, c, spi, avg_dil=True)
                s["as_int"] = False
            else:
                s["fill"] = gens.pick(draw, "zeros", "replicate")
    elif kind == "linear":
        kw = True
        cd = draw(st.integers(0, len(sp)))
        s = gens.linear(draw, [c, *sp][cd], None, [1, *range(3, 3 + len(sp))][cd])
    elif kind == "fw":
        s, _ = framewise(draw, rank, c, sp)
    elif kind == "pool":  # its options, where they matter
        rank = max(2, rank)
        sp = [draw(st.integers(3, 8)) for _ in range(rank - 1)]
        s, _, _ = gens.pool(draw, rank, c, sp, st_=1, fills=False)
        s["as_int"] = False
        s["s"] = [1, *(draw(st.integers(1, 3)) for _ in sp)]
        s["ceil"] = gens.flag(draw, 3, 4)
        if s["kind"] == "avg":
            s["div"] = draw(st.integers(0, 5))
            s["cip"] = s["p"][0] > 0 or gens.flag(draw)
    elif kind == "conv1":  # no interaction in time: may be enhanced in place
        s, _, _ = gens.conv(draw, rank, c, sp, kt=1, pt=0, st_=1, fill=("zeros", "zeros"))
        s["as_int"] = False
    elif kind == "adaptive":
        rank = max(2, rank)
        sp = gens.spatial_dims(draw, rank)
        s, _, _ = gens.adaptive(draw, rank, c, sp)
    else:
        s = gens.rnn(draw, c, drop=True)
        sp = []
    if kind == "adaptive" and gens.flag(draw):
        s["st"] = 1
    T = max(gens.frames(draw, s, 5), gens.min_T(s))
    case.update(spec=s, shape=[c, T, *sp], chunks=gens.chunk_list(draw), f32=gens.flag(draw, 1, 4), zero=gens.flag(draw, 1, 12),
                how="kw" if kw else "stepping" if kind == "conv1" else "build_from" if kind == "adaptive" else gens.pick(draw, "continual", "stepping" if kind == "fw" else "continual",
                              "wrapped" if kind == "fw" else "continual"))
    return gens.single_leaf(case)


def strategy(tier):
    return cases(tier)


def torch_net(s, dt):
    if s["op"] == "seq":
        ms = [torch_net(m, dt) for m in s["mods"]]
        shared = [m for m, t in zip(ms, s["mods"]) if t.get("shared")]
        ms = [shared[0] if t.get("shared") else m for m, t in zip(ms, s["mods"])]
        if s["named"]:
            return nn.Sequential(OrderedDict((f"m{i}", m) for i, m in enumerate(ms))).eval()
        return nn.Sequential(*ms).eval()
    m = nets.torch_layer(s, dt)
    return m


def check(case):
    import continual as co

    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, T, *sp = case["shape"]
    x = layout(data(case["seed"], (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
    orig = torch_net(s, dt)
    if case.get("zero"):  # freshly initialised: all biases are zero
        for k, p in orig.named_parameters():
            if "bias" in k:
                nn.init.zeros_(p)
    sd0 = OrderedDict((k, v.clone()) for k, v in orig.state_dict().items())
    is_rnn = s["op"] == "rnn"
    fw = (lambda m: m(x.transpose(1, 2))[0].transpose(1, 2)) if is_rnn else (lambda m: m(x))
    with torch.no_grad():
        want = None
        if case["how"] != "kw" and (case["how"] != "build_from" or T == s["k"]):
            want = fw(orig)
        if case["how"] == "stepping":
            m = co.forward_stepping(orig)
        elif case["how"] == "build_from":
            kw = {"stride": s["st"]} if s["st"] != 1 else {}
            other = orig
            kw.update({n: s[q] for n, q in (("padding", "p"), ("dilation", "d")) if q in s})
            if case["seed"] % 3 == 0:  # another size than that of the original
                kw["output_size"] = (1, *s["out"])
                other = type(orig)((1, *[(o or 1) + 1 for o in s["out"]]))
            if s["fill"] != "default":
                kw["temporal_fill"] = s["fill"]
            m = getattr(co, type(orig).__name__).build_from(other, s["k"], **kw)
        elif case["how"] == "kw":
            kw = {"channel_dim": s["cd"] if s["cd"] == 1 else s["cd"] - len(x.shape)} if s["op"] == "linear" else {}
            if s["op"] != "linear" and s["fill"] != "default":
                kw["temporal_fill"] = s["fill"]
            if s["op"] == "pool" and s["kind"] == "avg":
                kw["dilation"] = tuple(s["d"])
            m = getattr(co, type(orig).__name__).build_from(orig, **kw)
            if not case.get("zero") and (s["op"] != "pool" or s["kind"] == "max" or s["d"][0] == 1):  # (torch has no dilated average to compare with)
                want = nets.ref(s, x, "forward")[0]
        elif case["how"] == "wrapped":
            m = co.Sequential(orig)
        else:
            m = co.continual(orig)
        nets.set_mode(m, nets.TRAIN)
        require(co.CoModule.is_valid(m), f"conversion of {type(orig).__name__} is not a continual module")
        require(co.continual(m) is m, "converting a continual module again made another module")
        # same values under matching names
        sd = m.state_dict()
        require(len(sd) == len(sd0), f"converted module has entries {list(sd)}, original {list(sd0)}")
        for (k, v), (k0, v0) in zip(sorted(sd.items()), sorted(sd0.items())):
            if case["how"] == "continual":
                require(k == k0, f"converted module has entries {list(sd)}, original {list(sd0)}")
            same(v, v0, f"entry {k} was not carried over")
        for p in m.parameters():
            require(p.dtype == dt and p.requires_grad, f"parameter of dtype {p.dtype}, requires_grad {p.requires_grad}")
        out = m.forward(x) if want is not None else None
        same(out[0] if is_rnn else out, want, "forward of the converted network")
        out = m(x) if want is not None else None
        same(out[0] if is_rnn else out, want, "call of the converted network")
        if "drop" in s:
            orig.train(), m.train()
            torch.manual_seed(case["seed"])
            w = fw(orig)
            torch.manual_seed(case["seed"])
            same(m(x)[0], w, "dropout of the converted network in training mode")
            orig.eval(), m.eval()
        if case.get("zero"):  # (the reference for streams has other biases)
            return {"tags": ["zero biases"]}
        Y, times = nets.ref(s, x, "stream")
        ch = chunks_of(case["chunks"], T)
        pieces = [(a, b, o.clone(), k) for a, b, o, k in drive(m, x, ch)]
        check_stream(pieces, Y, times, ch, "stream through the converted network")
        # the original is unaffected
        for k, v in orig.state_dict().items():
            # (torch rewrites the running statistics of instance norms with rounding, even in evaluation mode)
            same(v, sd0[k], f"conversion or streaming changed {k} of the original")
        if s["op"] in ("conv", "rnn") and case["how"] == "continual":  # parameters are copies
            for p in m.parameters():
                p.add_(1.0)
            same(fw(orig), want, "original after changing the parameters of its converted copy")
        elif want is not None and case["how"] != "kw":
            same(fw(orig), want, "original after conversion")
    mem = any(nets.receptive_field(l) > 1 or l["op"] == "rnn" for l in nets.leaves(s))
    return {"nontrivial": bool((sd0 or mem) and times), "tags": [s["op"] if s["op"] != "nn" else s["cls"], case["how"]]}
