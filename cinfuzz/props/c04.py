"""End padding."""
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, chunks_of, data, drive, expect_oracle, is_out, layout, require, same
from ..runner import Violation

RULE = "the padded computation has at least one output beyond those of the unpadded stream"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = ["reference: torch.nn.functional on the explicitly padded sequence"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    if gens.flag(draw, 1, 2):
        s, c, sp = gens.temporal_leaf(draw, big=True)
    elif gens.flag(draw, 1, 8):
        c = draw(st.integers(1, 4))
        s, sp = gens.rnn(draw, c), []
    else:
        rank = draw(st.integers(1, 3))
        sp = gens.spatial_dims(draw, rank, 1, 3)
        c = draw(st.integers(1, 3))
        s, _, _ = gens.chain(draw, rank, c, sp, draw(st.integers(1, 3)), 1 + int(gens.flag(draw, 1, 3)),
                             skips=False, shrinks=True)
        s = gens.set_batch(s, case["B"])
    T = max(gens.min_T(s, "forward"), gens.min_T(s, "end")) + draw(st.integers(0, 6))
    T, lead = gens.stretch(draw, T, tier)
    case.update(spec=s, shape=[c, T, *sp], f32=gens.flag(draw, 1, 5), before=lead + gens.chunk_list(draw, 3),
                peek=gens.flag(draw, 1, 3), after=draw(st.integers(0, 6)), training=(
                    s["op"] == "conv" and gens.flag(draw, 1, 4)))
    return gens.single_leaf(case)


def strategy(tier):
    return cases(tier)


def matched(s):
    """Do all layers pad a stream the way `forward` pads?"""
    return all(nets.default_fill(l) == nets.forward_fill(l) for l in nets.leaves(s) if l["op"] in ("conv", "pool"))


def check(case):
    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, T, *sp = case["shape"]
    n = case["after"]
    X = layout(data(case["seed"], (case["B"], c, T + n, *sp), case["vals"], dt), case["layout"])
    x = X[:, :, :T]
    leaf = s["op"] not in ("seq",) or bool(case.get("net_goes_on"))
    want, _ = nets.ref(s, x, "end") if s["op"] != "delay" or not s["shrink"] else nets.ref(s, x, "forward")
    if matched(s) and s["op"] not in ("adaptive",):
        fw, _ = nets.ref(s, x, "forward")
        expect_oracle((fw is None) == (want is None) and (fw is None or fw.shape == want.shape), f"oracle {s}")
    # a whole sequence in one call
    m = nets.build(s, dt, case["training"])
    got = m.forward_steps(x, pad_end=True, **({"update_state": False} if case["peek"] else {}))
    if want is None:
        require(not is_out(got), "forward_steps(pad_end=True) produced an output for a too short sequence")
    else:
        require(is_out(got), "forward_steps(pad_end=True) produced no output")
        same(got, want, "forward_steps(pad_end=True) vs padded offline computation")
        if matched(s) and s["op"] != "adaptive":
            out = m.forward(x)
            same(got, out[0] if s["op"] == "rnn" else out, "forward_steps(pad_end=True) vs forward")
    nontriv = False
    if leaf:
        # the stream goes on as if the end padding had not been requested
        a, b = nets.build(s, dt, case["training"]), nets.build(s, dt, case["training"])
        ch = chunks_of(case["before"], T)
        k = len(ch) - 1
        for mod in (a, b):
            drive(mod, x, ch[:k])
        _, p, q = ch[k]
        ob = b.forward_steps(x[:, :, p:q])
        oa = a.forward_steps(x[:, :, p:q], pad_end=True)
        if is_out(ob):
            require(is_out(oa) and oa.shape[2] >= ob.shape[2], "pad_end=True lost outputs")
            same(oa[:, :, :ob.shape[2]], ob, "pad_end=True changed the outputs before the padding")
        if case["peek"]:
            pa = a.forward_steps(x[:, :, p:q], pad_end=True, update_state=False)
            pb = b.forward_steps(x[:, :, p:q], pad_end=True, update_state=False)
            same(pa, pb, "second padded call")
        # all outputs together are those of the padded sequence
        if s["op"] != "rnn" and not (s["op"] == "delay" and s["shrink"]) and want is not None and is_out(oa):
            same(oa, want[:, :, want.shape[2] - oa.shape[2]:], "last chunk with pad_end=True")
        for t in range(T, T + n):
            same(a.forward_step(X[:, :, t]), b.forward_step(X[:, :, t]), f"step {t} after pad_end=True")
        nontriv = want is not None and (not is_out(ob) or (is_out(oa) and oa.shape[2] > ob.shape[2]))
    else:
        st_, _ = nets.ref(s, x, "stream")
        nontriv = want is not None and (st_ is None or st_.shape[2] < want.shape[2])
    return {"nontrivial": nontriv, "tags": ["net" if s["op"] == "seq" else s["op"]]}
