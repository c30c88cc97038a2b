"""Recurrent layers against torch.nn with explicit initial and final states."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..util import F32, F64, chunks_of, data, drive, layout, require, same, snap

RULE = "at least three frames were streamed with a given, carried-over or restored state"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["evaluation mode (no dropout between layers)", "unidirectional, batched inputs"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    cell = gens.pick(draw, "RNN", "GRU", "LSTM")
    H = gens.rare(draw, 1, 5, 12)
    segs = []
    for _ in range(draw(st.integers(1, 5))):
        segs.append([gens.wi(draw, ("go", 4), ("set", 2), ("clean", 1), ("peek", 1), ("forward", 2)),
                     draw(st.integers(1, 6 if not gens.flag(draw, 1, 15) else 40)),
                     gens.chunk_list(draw, 4, 4 if not gens.flag(draw, 1, 8) else 40)])
    case.update(cell=cell, cin=gens.rare(draw, 1, 4, 12), H=H, layers=gens.rare(draw, 1, 3, 5), bias=gens.flag(draw, 3, 4),
                proj=draw(st.integers(1, H - 1)) if cell == "LSTM" and H > 1 and gens.flag(draw, 1, 3) else 0,
                nl=gens.pick(draw, "tanh", "relu"), how=gens.pick(draw, "direct", "build_from", "continual", "seq_first"),
                dropout=gens.pick(draw, 0.0, 0.0, 0.5), segs=gens.long_op(draw, segs, 1), ws=draw(st.integers(0, 60)), f32=gens.flag(draw, 1, 4),
                bare=gens.flag(draw))
    return case


def strategy(tier):
    return cases(tier)


def check(case):
    import continual as co

    dt = F32 if case["f32"] else F64
    cell, L, B = case["cell"], case["layers"], case["B"]
    kw = dict(num_layers=L, bias=case["bias"], dropout=case["dropout"] if L > 1 else 0.0)
    if cell == "RNN":
        kw["nonlinearity"] = case["nl"]
    if case["proj"]:
        kw["proj_size"] = case["proj"]
    ref = nets.fill(getattr(nn, cell)(case["cin"], case["H"], batch_first=True, **kw), case["ws"], dt).eval()
    how = case["how"]
    if how == "direct":
        m = getattr(co, cell)(case["cin"], case["H"], **kw).to(dt).eval()
        m.load_state_dict(ref.state_dict())
    else:
        src = ref
        if how == "seq_first":
            src = getattr(nn, cell)(case["cin"], case["H"], batch_first=False, **kw).to(dt).eval()
            src.load_state_dict(ref.state_dict())
        m = (co.continual(src) if how == "continual" else getattr(co, cell).build_from(src)).eval()
        for (n, a), (n0, b) in zip(sorted(m.named_parameters()), sorted(src.named_parameters())):
            require(n == n0 and torch.equal(a, b) and a is not b, f"parameter {n} was not copied from {n0}")
    nets.set_mode(m, nets.TRAIN)
    out = case["proj"] or case["H"]

    def state(key):
        h = data((case["seed"], key, "h"), (L, B, out), "normal", dt)
        c = data((case["seed"], key, "c"), (L, B, case["H"]), "normal", dt)
        return (h, c) if cell == "LSTM" else h

    def frames(key, n):
        return layout(data((case["seed"], key), (B, case["cin"], n), case["vals"], dt), case["layout"])

    def want(x, h):
        o, h = ref(x.transpose(1, 2), h)
        return o.transpose(1, 2), h

    def as_tuple(h):
        return tuple(h) if cell == "LSTM" else (h,)

    h, carried, fed = None, 0, 0
    with torch.no_grad():
        for i, (kind, n, chunks) in enumerate(case["segs"]):
            x = frames(i, n)
            if kind == "clean":
                m.clean_state()
                h = None
                require(m.get_state() is None, "a cleaned recurrent layer still has a state")
            elif kind == "set":
                h = state(i)
                given = h if cell == "LSTM" or case["bare"] else (h,)
                m.set_state(snap(given))
            elif kind == "forward":  # offline evaluation, with or without initial state; the stream goes on
                h0 = None if n % 2 else state(i)
                o, hn = m.forward(x, h0) if h0 is not None else m(x)
                w, hw = want(x, h0)
                same(o, w, f"segment {i}: forward over {n} frames")
                same(as_tuple(hn), as_tuple(hw), f"segment {i}: final state of forward")
                continue
            elif kind == "peek":
                o = m.forward_steps(x, update_state=False)
                same(o, want(x, h)[0], f"segment {i}: look-ahead")
                o = m.forward_step(x[:, :, 0], update_state=False)
                same(o, want(x[:, :, :1], h)[0][:, :, 0], f"segment {i}: look-ahead by a step")
                continue
            if h is not None:
                carried += n
            w, h = want(x, h)
            got = drive(m, x, chunks_of(chunks, n))
            require(sum(b - a for a, b, _, _ in got) == n, f"segment {i}: outputs {[p[:2] for p in got]} for {n} frames")
            for a, b, o, k in got:
                same(o, w[:, :, a:b], f"segment {i} ({kind}): {k}[{a}:{b}]")
            same(tuple(m.get_state()), as_tuple(h), f"segment {i}: state after the frames")
            fed += n
    return {"nontrivial": carried >= 3, "tags": [cell, how] + (["proj"] if case["proj"] else []) + [f"layers{L}"]}
