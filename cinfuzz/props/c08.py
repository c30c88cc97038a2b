"""Composed networks against an offline reference with explicit alignment."""
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, check_stream, chunks_of, data, drive, is_out, layout, require, same

RULE = "the network has at least two layers with memory or a parallel/residual/conditional part, and two outputs are due"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = ["reference: torch.nn.functional evaluated offline, outputs of branches paired by index"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    rank = draw(st.integers(1, 3))
    sp = gens.spatial_dims(draw, rank, 1, 4)
    c = draw(st.integers(1, 3))
    n = draw(st.integers(1, 4 if tier == "quick" else 6))
    s, c2, sp2 = gens.chain(draw, rank, c, sp, n, 1 + int(gens.flag(draw, 2, 3)), att=True)
    s = gens.set_batch(s, case["B"])
    T = gens.min_T(s, "forward", draw(st.integers(1, 3)))
    T = max(T, gens.min_T(s, "stream", draw(st.integers(1, 4))))
    if gens.flag(draw, 1, 3) and rank > 1:  # classification head over the whole clip
        L = gens.length(s, T, "forward")
        if L > 0:
            head = {"op": "adaptive", "kind": gens.pick(draw, "avg", "max"), "rank": rank,
                    "out": [1] * (rank - 1), "k": L, "st": 1, "fill": "default"}
            lin = gens.linear(draw, c2)
            s = {"op": "seq", "mods": s["mods"] + [head, lin], "named": s["named"]}
    extra, lead = gens.stretch(draw, draw(st.integers(0, 5)), tier, 25)
    case.update(spec=s, shape=[c, T, *sp], extra=extra, chunks=lead + gens.chunk_list(draw),
                f32=gens.flag(draw, 1, 6), call=gens.flag(draw, 1, 4))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def check(case):
    import continual as co

    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, T, *sp = case["shape"]
    X = layout(data(case["seed"], (case["B"], c, T + case["extra"], *sp), case["vals"], dt), case["layout"])
    m = nets.build(s, dt)
    rtol, atol = None, None
    if case["f32"]:  # the error of the reference tells how the network amplifies rounding errors
        noise = 0.0
        for mode, x in (("forward", X[:, :, :T]), ("stream", X)):
            a, b = nets.ref(s, x, mode)[0], nets.ref(s, x.double(), mode)[0]
            if a is not None and a.numel():
                noise = max(noise, float((a - b).abs().max()))
        rtol, atol = 5e-3, 5e-4 + 100 * noise
    # offline
    Yf, _ = nets.ref(s, X[:, :, :T], "forward")
    if Yf is not None:
        got = m(X[:, :, :T])
        require(is_out(got), f"forward returned {type(got)}")
        same(got, Yf, "forward of the network", rtol, atol)
    # online
    Y, times = nets.ref(s, X, "stream")
    ch = chunks_of(case["chunks"], T + case["extra"])
    if case["call"]:
        pieces = []
        for kind, p, q in ch:
            with co.call_mode("forward_step" if kind == "step" else "forward_steps"):
                o = m(X[:, :, p] if kind == "step" else X[:, :, p:q])
            if is_out(o):
                pieces.append((p, q, o.unsqueeze(2) if kind == "step" else o, kind))
    else:
        pieces = drive(m, X, ch)
    check_stream(pieces, Y, times, ch, "network stream", rtol, atol)
    ls = nets.leaves(s)
    mem = sum(1 for l in ls if nets.receptive_field(l) > 1 or nets.stride(l) > 1 or l["op"] in ("rnn", "delay", "skip"))
    return {"nontrivial": (mem >= 2 or nets.depth(s) > 1) and len(times) >= 2,
            "tags": sorted({o for o in _ops(s)})}


def _ops(s):
    yield s["op"]
    for m in s.get("mods", []) + (s.get("mods2") or []):
        yield from _ops(m)
    for k in ("mod", "t", "f"):
        if isinstance(s.get(k), dict):
            yield from _ops(s[k])
