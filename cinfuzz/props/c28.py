"""Operation and parameter counts (ptflops) in the different modes."""
import copy

import torch
from hypothesis import strategies as st
from ptflops import get_model_complexity_info

from .. import gens, nets
from ..util import F32, chunks_of, data, drive, require, same

RULE = "a step was counted on a network with a layer with memory and at least 2 counted layers"
CASES = {"quick": 1500, "thorough": 15000}
ASSUMPTIONS = ["ptflops and its counting rules for torch.nn layers are trusted", "the network was warmed up, as for any single step",
               "recurrent layers and arithmetic closures are not counted by the library"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    if gens.flag(draw, 1, 5):
        a = gens.mha(draw)
        E, k = a["E"], draw(st.integers(1, 3))
        one = lambda cin, cout, k: dict(op="conv", rank=1, cin=cin, cout=cout, k=[k], s=[1], p=[0], d=[1], g=1, bias=gens.flag(draw),
                                        pm="zeros", fill="zeros", ws=draw(st.integers(0, 60)), as_int=False)
        c = draw(st.integers(1, 3))
        mods = [one(c, E, k), a] + ([one(E, draw(st.integers(1, 3)), 1)] if a["type"] == "single" and gens.flag(draw) else [])
        case.update(B=1, spec={"op": "seq", "mods": mods, "named": False}, shape=[c], extra=0, how=gens.pick(draw, "ctx", "attr"),
                    order=gens.flag(draw), twice=gens.flag(draw, 1, 4), copy=gens.flag(draw), sof=gens.flag(draw))
        return case
    if gens.flag(draw, 1, 4):
        s, c, sp = gens.temporal_leaf(draw)
        if s["op"] == "delay":
            s["shrink"] = False
        if gens.flag(draw, 1, 5):
            c, sp = draw(st.integers(1, 5)), [draw(st.integers(1, 4))]
            s = gens.linear(draw, sp[-1], cd=-1)
    else:
        rank = draw(st.integers(1, 3))
        sp = gens.spatial_dims(draw, rank, 1, 4)
        c = draw(st.integers(1, 3))
        s, _, _ = gens.chain(draw, rank, c, sp, draw(st.integers(1, 4)), 1 + int(gens.flag(draw, 1, 3)), skips=False,
                             stateful=False, shrinks=False)
        s = pointwise_conv(gens.set_batch(s, 1), rank)
    case.update(B=1, spec=s, shape=[c, *sp], extra=draw(st.integers(0, 4)), how=gens.pick(draw, "ctx", "attr"),
                order=gens.flag(draw), twice=gens.flag(draw, 1, 4))
    return case


def strategy(tier):
    return cases(tier)


def pointwise_conv(s, rank):
    """Linear layers along dimension 1 are miscounted (recorded finding)."""
    if s["op"] == "linear":
        return {"op": "conv", "rank": rank, "cin": s["cin"], "cout": s["cout"], "k": [1] * rank, "s": [1] * rank,
                "p": [0] * rank, "d": [1] * rank, "g": 1, "bias": s["bias"], "pm": "zeros", "fill": "zeros", "ws": s["ws"],
                "as_int": False}
    s = dict(s)
    for k in ("mods", "mods2"):
        if s.get(k):
            s[k] = [pointwise_conv(m, rank) for m in s[k]]
    for k in ("mod", "t", "f"):
        if isinstance(s.get(k), dict):
            s[k] = pointwise_conv(s[k], rank)
    return s


def count(m, shape):
    return get_model_complexity_info(m, tuple(shape), as_strings=False, print_per_layer_stat=False, verbose=False)


def shapes(s, x, mode, out):
    """(leaf, input, output) of every leaf that runs in the mode."""
    op = s["op"]
    if op == "merge":
        return nets.REDUCES[s["reduce"]](x)
    if op == "seq":
        for m in s["mods"]:
            x = shapes(m, x, mode, out)
        return x
    if op in ("br", "bpr"):
        ys = [shapes(m, x, mode, out) for m in s["mods"]]
        if s.get("dispatch"):
            ys = [[ys[j] for j in i] if isinstance(i, list) else ys[i] for i in s["dispatch"]]
            if s.get("mods2"):
                ys = [shapes(m, y, mode, out) for m, y in zip(s["mods2"], ys)]
        return nets.REDUCES[s["reduce"]](ys)
    if op == "res":
        y = shapes(s["mod"], x, mode, out)
        return nets.REDUCES[s["reduce"]]([x[:, :, :y.shape[2]], y])
    if op == "cond":
        pick = s["t"] if s["val"] else s["f"]
        return x if pick is None else shapes(pick, x, mode, out)
    if mode == "forward":
        y, _ = nets.ref(s, x, "forward")
    else:  # one frame in, one frame out
        if op == "user":
            y = x
        elif op in ("conv", "pool", "adaptive"):
            e, _, _ = nets.geom(s)
            t = dict(s)
            if op != "adaptive":
                t.update(p=[0, *s["p"][1:]], s=[1, *s["s"][1:]])
            else:
                t.update(st=1, p=0)
            y, _ = nets.ref(t, x.expand(-1, -1, e, *x.shape[3:]), "forward")
        elif op in ("delay", "skip"):
            y = x
        else:
            y, _ = nets.ref(s, x, "forward")
    out.append((s, x, y))
    return y


def expected(s, x, y):
    """By the rules that ptflops has for the counterpart in torch.nn."""
    op = s["op"]
    if op == "conv":
        per = s["cin"] * (s["cout"] // s["g"])
        for k in s["k"]:
            per *= k
        return (per + (s["cout"] if s["bias"] else 0)) * (y.numel() // (y.shape[0] * y.shape[1]))
    if op in ("pool", "adaptive"):
        return x.numel()
    if op == "linear":
        return x.numel() * s["cout"] + (s["cout"] if s["bias"] else 0)
    if op in ("bn", "act"):
        return count(nets.torch_layer(s, F32), x.shape[1:])[0]
    return 0


def check(case):
    with torch.no_grad():
        return _check(case)


def attention(case):
    """A network with attention: what the attention counts itself, in every way of selecting the mode."""
    import continual as co

    s = case["spec"]
    a = s["mods"][1]
    E, H, S = a["E"], a["H"], a["S"]
    T = S + s["mods"][0]["k"][0] - 1
    m = nets.build(s, F32)
    n_par = sum(p.numel() for p in m.parameters())
    att = m[1]
    att.forward_returns_attn_mask = False
    if a["type"] == "single":
        att.single_output_forward = case["sof"]

    def modes(mode, f):
        """The results of f(network) in a mode, selected in each of the ways."""
        out = []
        for net in [m] + ([copy.deepcopy(m)] if case["copy"] else []):
            with co.call_mode(mode):
                out.append(f(net))
            if case["twice"]:
                with co.call_mode("forward"), co.call_mode(mode):
                    out.append(f(net))
            net.call_mode = mode
            out.append(f(net))
            if case["copy"]:
                out.append(f(copy.deepcopy(net)))
            net.call_mode = "forward"
        require(all(o == out[0] for o in out), f"operations of attention in mode {mode} differ by how the mode is selected: {out}")
        return out[0]

    def one(mode, shape, steps, length):
        own = modes(mode, lambda net: net[1].flops())
        total, par = modes(mode, lambda net: count(net, shape))
        rest = sum(n * (c["cin"] * c["k"][0] * c["cout"] + c["cout"] * c["bias"])
                   for n, c in zip((steps, length), (s["mods"][0], s["mods"][2] if len(s["mods"]) > 2 else None)) if c)
        require(total == own + rest, f"count of the network in mode {mode} is {total} instead of {own} + {rest}")
        require(par == n_par, f"{par} parameters instead of {n_par}")
        adds, exps, both = [modes(mode, lambda net: net[1].flops(include_adds=x, include_exps=y))
                            for x, y in ((True, False), (False, True), (True, True))]
        nomul = modes(mode, lambda net: net[1].flops(include_muls=False))
        muls, add, exp, proj, outs = rules(mode)
        want = proj * E * (E + a["bias"]) + H * muls + outs * E * (E + 1)
        require(own == want, f"attention in mode {mode} counts {own} multiplications instead of {want}")
        require(exps - own == H * exp, f"attention in mode {mode} counts {exps - own} exponentials instead of {H * exp}")
        want = proj * E * (E - 1 + a["bias"]) + H * add
        require(adds - own == want, f"attention in mode {mode} counts {adds - own} additions instead of {want}")
        require(both - own == adds - own + exps - own, f"mode {mode}: counts {own}, {adds}, {exps}, {both} do not add up")
        require(own - nomul == H * muls, f"mode {mode}: {own - nomul} multiplications of scaled dot products instead of {H * muls}")
        return own

    def rules(mode):
        """Multiplications, additions, exponentials of one head; projected inputs; outputs (Continual Transformers, appendix)."""
        d = E // H
        if mode == "forward_step":
            if a["type"] == "single":
                return 2 * S * d + 2 * d, 2 * S * d - d - 1, S, 3, 1
            return 7 * S * d + 2 * S - 3 * d, 6 * S * d + 3 * S - 6 * d - 3, 3 * S - 2, 3, S
        if a["type"] == "single" and case["sof"]:
            return 2 * S * d + 2 * d, 2 * S * d - d - 1, S, 1 + 2 * S, 1
        return 2 * S * S * d + 2 * S * d, 2 * S * S * d - S * d - S, S * S, 3 * S, S

    def offline():
        sof = a["type"] == "single" and case["sof"]
        own = one("forward", (s["mods"][0]["cin"], T), S, 1 if sof else S)
        return own

    def step():
        m.warm_up((1, s["mods"][0]["cin"]))
        own = one("forward_step", (s["mods"][0]["cin"],), 1, 1)
        return own

    for f in (offline, step) if case["order"] else (step, offline):
        f()
    return {"nontrivial": S > 1, "tags": ["mha", a["type"], case["how"]] + ["copy"] * case["copy"]}


def _check(case):
    import continual as co

    if "sof" in case:
        return attention(case)
    s = case["spec"]
    c, *sp = case["shape"]
    m = co.continual(nets.build(s, F32))
    if not isinstance(m, torch.nn.Module):
        return {}
    n_par = sum(p.numel() for p in m.parameters())
    T = gens.min_T(s) + case["extra"]
    X = data(case["seed"], (1, c, T, *sp), case["vals"], F32)

    def counted(mode, shape):
        if case["how"] == "ctx":
            with co.call_mode(mode):
                return count(m, shape)
        m.call_mode = mode
        r = count(m, shape)
        m.call_mode = "forward"
        return r

    def offline():
        if gens.length(s, T, "forward") <= 0 or any(l["op"] == "adaptive" for l in nets.leaves(s)):
            return 0
        leaves = []
        shapes(s, X, "forward", leaves)
        want = sum(expected(*l) for l in leaves)
        got, par = counted("forward", (c, T, *sp))
        require(got == want, f"offline count of {T} frames is {got} instead of {want}")
        require(par == n_par, f"{par} parameters instead of {n_par}")
        return len(leaves)

    def step():
        leaves = []
        shapes(s, X[:, :, :1], "step", leaves)
        want = sum(expected(*l) for l in leaves)
        m.warm_up((1, c, *sp))
        for _ in range(1 + case["twice"] * (nets.stride(s) == 1)):
            got, par = counted("forward_step", (c, *sp))
            require(got == want, f"count of a step is {got} instead of {want}")
            require(par == n_par, f"{par} parameters instead of {n_par}")
        return sum(1 for l in leaves if expected(*l))

    n = 0
    for f in (offline, step) if case["order"] else (step, offline):
        r = f()
        n = r if f is step else n
    # counting leaves nothing behind
    m.clean_state()
    Y, times = nets.ref(s, X, "stream")
    ps = drive(m, X, chunks_of([], T))
    got = torch.cat([o for _, _, o, _ in ps], 2) if ps else None
    same(got, Y, "stream after counting")
    mem = any(nets.receptive_field(l) > 1 for l in nets.leaves(s))
    return {"nontrivial": n >= 2 and mem, "tags": sorted({l["op"] for l in nets.leaves(s)} | {case["how"]})}
