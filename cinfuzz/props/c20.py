"""Shorthand containers and the networks they abbreviate."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F64, chunks_of, data, drive, layout, require, same

RULE = "at least two stream outputs and branches that differ in delay, or an explicitly delayed residual"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["metamorphic: two constructions of one network with the same parameters"]

KINDS = ("broadcast_reduce", "residual", "extend", "nest", "manual_delay", "named")
CHAINS = ("extend", "nest", "named")


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    rank = draw(st.integers(1, 3))
    sp = gens.spatial_dims(draw, rank, 1, 3)
    c = draw(st.integers(1, 3))
    kind = gens.pick(draw, *KINDS)
    r, s = gens.wi(draw, (0, 3), (2, 1)), gens.wi(draw, (1, 3), (2, 1))
    red = gens.pick(draw, "sum", "concat", "mul", "max", "fn")
    shrink = False
    if kind in ("residual",):
        r, s = 0, 1
    if kind == "manual_delay":
        s = 1
    if kind in CHAINS:
        net, _, _ = gens.chain(draw, rank, c, sp, draw(st.integers(1, 5)), 1)
        net = gens.set_batch(net, case["B"])
        mods = net["mods"]
    else:
        if kind == "residual" and gens.flag(draw):
            shrink = gens.pick(draw, True, "centered", "lagging", "leading")
            r = gens.rare(draw, 1, 3, 10, 6) * 2 - (shrink in ("lagging", "leading") and gens.flag(draw))
        mods = [gens.branch(draw, rank, c, sp, r, s, c, 0 if shrink else 1, p0=bool(shrink)) for _ in range(1 if kind == "residual" else gens.wi(draw, (2, 6), (3, 3), (4, 1), (draw(st.integers(5, 7)), 2)))]
        net = {"op": "seq", "mods": mods}
    d = max(nets.delay(m) for m in mods) if kind not in CHAINS else nets.delay(net)
    case.update(kind=kind, mods=mods, reduce=red, shrink=shrink, shape=[c, *sp], T=d + 1 + gens.rare(draw, 1, 8, 60, 20), chunks=gens.chunk_list(draw),
                split=draw(st.integers(0, len(mods))), fill=gens.pick(draw, "zeros", "replicate"), pad=gens.flag(draw),
                peek=gens.flag(draw, 1, 3), count=gens.flag(draw), twice=None)
    if kind == "broadcast_reduce" and r == 0 and s == 1 and gens.flag(draw, 1, 2):  # one stateless module is in several branches
        case["twice"] = sorted(draw(st.sets(st.integers(0, len(mods) + 1), min_size=2, max_size=2)))
        pw = gens.pointwise(draw, rank, c)
        for i in case["twice"]:
            mods.insert(i, pw)
    return case


def strategy(tier):
    return cases(tier)


def two(case):
    import continual as co

    def mk():
        ms = [co.continual(nets.build(m)) for m in case["mods"]]
        if case.get("twice"):
            i, j = case["twice"]
            ms[j] = ms[i]
        return ms

    k, red = case["kind"], nets._red(case["reduce"])
    a, b = mk(), mk()
    d = [int(m.delay) for m in a]
    D = max(d)
    if k == "broadcast_reduce":
        return co.BroadcastReduce(*a, reduce=red), co.Sequential(co.Broadcast(len(b) if case.get("count", True) else None), co.Parallel(*b), co.Reduce(red))
    if k == "manual_delay":  # delay the shorter branches by hand
        bb = [m if i == D else co.Sequential(co.Delay(D - i), m) for m, i in zip(b, d)]
        return co.BroadcastReduce(*a, reduce=red), co.BroadcastReduce(*bb, reduce=red, auto_delay=False)
    if k == "residual" and case.get("shrink"):
        from continual.skip import Skip
        sh = case["shrink"]
        res = Skip(d[0]) if sh == "leading" else co.Delay(
            d[0] if sh == "lagging" else d[0] // 2, temporal_fill=case["fill"], auto_shrink="lagging" if sh == "lagging" else "centered")
        return (co.Residual(a[0], temporal_fill=case["fill"], reduce=red, residual_shrink=sh),
                co.BroadcastReduce(res, b[0], reduce=red, auto_delay=False))
    if k == "residual":
        return (co.Residual(a[0], temporal_fill=case["fill"], reduce=red),
                co.BroadcastReduce(co.Delay(d[0], temporal_fill=case["fill"]), b[0], reduce=red))
    if k == "nest":
        i = case["split"]
        return co.Sequential(*a), co.Sequential(co.Sequential(*b[:i]) if i else co.Identity(), co.Sequential(*b[i:]) if i < len(b) else co.Identity())
    if k == "named":
        from collections import OrderedDict
        return co.Sequential(*a), co.Sequential(OrderedDict((f"l{i}", m) for i, m in enumerate(b)))
    n = co.Sequential()  # extend: grown one by one
    for m in b:
        n.append(m)
    return co.Sequential(*a), n


def check(case):
    c, *sp = case["shape"]
    A, B = two(case)
    nets.set_mode(A, nets.TRAIN), nets.set_mode(B, nets.TRAIN)
    x = layout(data(case["seed"], (case["B"], c, case["T"], *sp), case["vals"], F64), case["layout"])
    k = case["kind"]
    for n in ("receptive_field", "delay", "stride", "padding"):
        va, vb = getattr(A, n), getattr(B, n)
        va, vb = [int(v[0]) if isinstance(v, (tuple, list)) else int(v) for v in (va, vb)]
        if not (k == "manual_delay" and n == "receptive_field"):
            require(va == vb, f"{k}: {n} {va} of the one, {vb} of the other construction")
    fwd = gens.length({"op": "seq", "mods": case["mods"]} if k in CHAINS else {"op": "br", "mods": case["mods"]},
                      case["T"], "forward") > 0
    n_out = 0
    with torch.no_grad():
        if fwd:
            same(A(x), B(x), f"{k}: forward")
        for (p, q, o, _), (_, _, w, _) in zip(*both(A, B, x, chunks_of(case["chunks"], case["T"]), k)):
            same(o, w, f"{k}: [{p}:{q}]")
            n_out += q - p
        if case["peek"]:
            y = data((case["seed"], "p"), (case["B"], c, 3, *sp), case["vals"], F64)
            same(A.forward_steps(y, update_state=False), B.forward_steps(y, update_state=False), f"{k}: look-ahead")
        if case["pad"] and fwd:
            A.clean_state(), B.clean_state()
            same(A.forward_steps(x, pad_end=True), B.forward_steps(x, pad_end=True), f"{k}: padded end")
    ds = {nets.delay(m) for m in case["mods"]}
    return {"nontrivial": n_out >= 2 and (len(ds) > 1 or k == "residual"), "tags": [k] + ["shared"] * bool(case.get("twice"))}


def both(A, B, x, ch, k):
    ga, gb = drive(A, x, ch), drive(B, x, ch)
    require([p[:2] for p in ga] == [p[:2] for p in gb], f"{k}: outputs at {[p[:2] for p in ga]} and {[p[:2] for p in gb]}")
    return ga, gb

