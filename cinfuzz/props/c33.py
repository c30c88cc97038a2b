"""Streams of half, brain-float, autocast, complex, integer and boolean frames."""
import contextlib

import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, check_stream, chunks_of, data, drive, layout, require, same

RULE = "an output was due which depends on frames kept from an earlier call"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["reduced precision, where torch has it on a CPU: double-precision reference on the rounded frames and weights, within 16 units of the last place of the largest value (types and times only for retroactive attention and encoders)",
               "complex: the reference for real numbers on the real and imaginary part, of networks that are affine",
               "whole numbers and truth values: layers without weights only, small values"]
I = st.integers
LOW = {"half": torch.float16, "bf16": torch.bfloat16, "autocast": torch.bfloat16}
CPLX = {"c64": torch.complex64, "c128": torch.complex128}
WHOLE = {"i64": torch.int64, "i32": torch.int32, "i16": torch.int16, "u8": torch.uint8, "bool": torch.bool}


def affine(draw, rank, c, sp, n, d, keep=False):
    """Layers that are affine in their input; c and sp are kept if `keep`."""
    mods = []
    for _ in range(n):
        k = gens.wi(draw, ("conv", 5), ("linear", 1), ("delay", 2), ("res", 2 if d else 0), ("br", 2 if d else 0))
        if k == "conv":
            if keep:
                m, _, _ = gens.conv(draw, rank, c, sp, cout=c, keep=True, st_=1, kt=1, pt=0, fill=("zeros", "zeros"))
            else:
                m, c, sp = gens.conv(draw, rank, c, sp, fill=("zeros", "zeros"))
        elif k == "linear":
            m = gens.linear(draw, c, c if keep else None)
            c = m["cout"]
        elif k == "delay":
            m = gens.delay_(draw, 4, shrink=False)
        elif k == "res":
            m, _, _ = affine(draw, rank, c, sp, draw(I(1, 2)), d - 1, True)
            m = {"op": "res", "mod": m, "reduce": "sum", "shrink": False, "fill": None}
        else:
            ms = [affine(draw, rank, c, sp, draw(I(1, 2)), 0, True)[0] for _ in range(draw(I(2, 3)))]
            red = "sum" if keep else gens.pick(draw, "sum", "concat")
            m = {"op": "br", "mods": ms, "reduce": red, "named": False}
            c = c * len(ms) if red == "concat" else c
        mods.append(m)
    return (mods[0] if n == 1 and gens.flag(draw) else {"op": "seq", "mods": mods, "named": False}), c, sp


def weightless(draw, reds, d):
    """Delays, and reductions of delayed branches."""
    k = gens.wi(draw, ("delay", 4), ("res", 2 if d else 0), ("br", 2 if d else 0), ("seq", 2 if d else 0), ("skip", 1 if d else 0), ("id", 1))
    if k == "delay":
        return gens.delay_(draw, 6, shrink=False)
    if k == "skip":
        return {"op": "skip", "n": draw(I(1, 3))}
    if k == "id":
        return {"op": "func", "f": "identity"}
    if k == "seq":
        return {"op": "seq", "mods": [weightless(draw, reds, d - 1) for _ in range(draw(I(1, 3)))], "named": False}
    if k == "res":
        return {"op": "res", "mod": weightless(draw, reds[:1], 0), "reduce": gens.pick(draw, *reds), "shrink": False, "fill": None}
    return {"op": "br", "mods": [weightless(draw, reds[:1], 0) for _ in range(draw(I(2, 3)))],
            "reduce": gens.pick(draw, *reds), "named": False}


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    fam = gens.wi(draw, ("low", 5), ("complex", 3), ("whole", 2))
    rank = draw(I(1, 3))
    if fam == "low":
        dt = gens.pick(draw, *LOW)
        k = gens.wi(draw, ("leaf", 6), ("net", 3), ("rnn", 2), ("att", 3), ("rpe", 1))
        if k == "net":
            c, sp = draw(I(1, 3)), gens.spatial_dims(draw, rank, 1, 3)
            s, c2, _ = affine(draw, rank, c, sp, draw(I(1, 3)), 1)
            if gens.flag(draw):
                s = {"op": "seq", "mods": [s, {"op": "act", "f": gens.pick(draw, "relu", "sigmoid", "tanh")}], "named": False}
        else:
            s, c, sp = gens.subject(draw, case["B"], **{n: int(n.strip("_") == k) for n in ("leaf", "net", "rnn_", "att", "rpe_")})
        case["vals"] = gens.pick(draw, "normal", "normal", "pos", "sparse")
    elif fam == "complex":
        dt = gens.pick(draw, *CPLX)
        c, sp = draw(I(1, 3)), gens.spatial_dims(draw, rank, 1, 3)
        s, _, _ = affine(draw, rank, c, sp, draw(I(1, 3)), 1)
    else:
        dt = gens.pick(draw, *WHOLE)
        c, sp = draw(I(1, 3)), gens.spatial_dims(draw, rank, 1, 3)
        s = weightless(draw, ["concat"] if dt == "bool" else ["concat", "sum", "max", "mul"], 2)
    T = min(s["N"], 9) if s["op"] == "rpe" else gens.frames(draw, s, long=40)
    cap = 4 if s["op"] != "rpe" else min(4, s["N"])
    case.update(spec=s, shape=[c, *sp], T=T, dt=dt, chunks=gens.chunk_list(draw, 6, cap), first=gens.flag(draw, 1, 4),
                phase=gens.flag(draw), fwd=gens.flag(draw))
    return case


def strategy(tier):
    return cases(tier)


def check(case):
    with torch.no_grad():
        if case["dt"] in LOW:
            try:
                return low(case)
            except RuntimeError as e:  # torch has some pooling on GPUs only
                if "not implemented for" in str(e):
                    return {"nontrivial": False, "tags": ["unavailable"]}
                raise
        return exact(case)


def info(case, got, ch):
    return {"nontrivial": any(a > 0 for a, _, _, _ in got), "tags": [case["dt"], case["spec"]["op"]]}


def low(case):
    s, (c, *sp), T = case["spec"], case["shape"], case["T"]
    auto = case["dt"] == "autocast"
    dt = LOW[case["dt"]]
    m = nets.build(s, F32)
    eps = torch.finfo(dt).eps
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(p.to(dt))
    wide = nets.build(s, F64)
    wide.load_state_dict({k: v.double() if v.is_floating_point() else v for k, v in m.state_dict().items()})
    x = layout(data(case["seed"], (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
    ch = chunks_of(case["chunks"], T)
    if auto:
        x = x.float()
    else:
        m.to(dt)
    forward = s["op"] not in ("rpe", "tel", "te", "mha") and gens.length(s, T, "forward") > 0
    with torch.autocast("cpu", torch.bfloat16) if auto else contextlib.nullcontext():
        f = None
        if forward and case["first"]:
            f = m.forward(x)
        if case["phase"] and s["op"] != "rpe":  # another stream went before
            drive(m, x, [("steps", 0, T)])
            m.clean_state()
        got = drive(m, x, ch)
        if forward and f is None:
            f = m.forward(x)
    want = drive(wide, x.double(), ch)
    require([p[:2] for p in got] == [p[:2] for p in want],
            f"outputs of {dt} at {[p[:2] for p in got]} instead of {[p[:2] for p in want]}")
    n = len(nets.leaves(s))
    # exponentials that cancel and normalisations by small deviations amplify the rounding
    retro = s["op"] in ("te", "tel") or s.get("type") == "retro"
    for (a, b, o, _), (_, _, w, _) in zip(got, want):
        scale = max(1.0, float(w.abs().max()) if w.numel() else 1.0, float(x.abs().max()))
        if not auto:
            require(o.dtype == dt, f"[{a}:{b}] of a module in {dt} is {o.dtype}")
        if not retro:
            same(o.double(), w, f"{case['dt']}: [{a}:{b}]", 0.0, 16 * eps * scale * n)
    if f is not None:
        f = f[0] if isinstance(f, tuple) else f
        w = wide.forward(x.double())
        w = w[0] if isinstance(w, tuple) else w
        scale = max(1.0, float(w.abs().max()) if w.numel() else 1.0, float(x.abs().max()))
        if got and not auto:
            require(f.dtype == got[0][2].dtype, f"{case['dt']}: steps of dtype {got[0][2].dtype}, forward of {f.dtype}")
        same(f.double(), w, f"{case['dt']}: forward", 0.0, 16 * eps * scale * n)
    return info(case, got, ch)


def exact(case):
    s, (c, *sp), T = case["spec"], case["shape"], case["T"]
    shape = (case["B"], c, T, *sp)
    cplx = case["dt"] in CPLX
    dt = CPLX[case["dt"]] if cplx else WHOLE[case["dt"]]
    m = nets.build(s, F64)
    k = 1
    if cplx:
        m.to(dt)
        if s["op"] in ("conv", "linear"):
            k = 1 + 0.5j
            for p in m.parameters():
                p.mul_(k)
        re, im = data(case["seed"], shape, case["vals"]), data(case["seed"] + 1, shape, case["vals"])
        x = layout(torch.complex(re, im).to(dt), case["layout"])
    else:
        re = (data(case["seed"], shape, "normal") * 1.3).round().clamp(-3, 3)
        if case["dt"] in ("u8", "bool"):
            re = re.abs().clamp(0, 1 if case["dt"] == "bool" else 3)
        x = layout(re.to(dt), case["layout"]) if case["dt"] != "bool" else re.bool()

    def want(mode):
        Y, times = nets.ref(s, re, mode)
        if cplx and Y is not None:
            zero = nets.ref(s, torch.zeros_like(re), mode)[0]
            Y = k * torch.complex(Y, nets.ref(s, im, mode)[0] - zero)
        return Y, times

    def real(o):  # to the type of the reference
        return o.to(torch.complex128) if cplx else o.double()

    tols = (3e-4, 3e-4) if case["dt"] == "c64" else (1e-8, 1e-8)
    ch = chunks_of(case["chunks"], T)
    forward = gens.length(s, T, "forward") > 0
    types = {}
    f = m.forward(x) if forward and case["first"] else None
    if case["phase"]:
        drive(m, x, [("steps", 0, T)])
        m.clean_state()
    got = drive(m, x, ch)
    if forward and f is None:
        f = m.forward(x)
    for a, b, o, _ in got:
        types[o.dtype] = f"[{a}:{b}]"
    if f is not None:
        types[f.dtype] = "forward"
        same(real(f), want("forward")[0], f"{dt}: forward", *tols)
    require(len(types) <= 1, f"{dt}: outputs of different types {types}")
    if cplx or s["op"] == "delay":
        require(set(types) <= {dt}, f"outputs of {types} from frames of {dt}")
    Y, times = want("stream")
    check_stream([(a, b, real(o), kk) for a, b, o, kk in got], Y, times, ch, f"stream of {dt}", *tols)
    return info(case, got, ch)
