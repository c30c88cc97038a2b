"""Gradients through the stream: those of step outputs are those of the offline computation."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..util import F64, chunks_of, data, drive, require, same
from .c14 import params as tel_params

RULE = "at least two outputs were due, something requires a gradient, and the network has a layer with memory"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = ["double precision", "continuous random inputs (no ties in maxima)",
               "no batch normalisation (torch's backward pass in evaluation mode is wrong for some memory layouts); dropout and transformer layers in evaluation mode only", "every optimisation step starts a fresh stream"]


def ops(s):
    yield s["op"]
    for m in s.get("mods", []) + (s.get("mods2") or []):
        yield from ops(m)
    for k in ("mod", "t", "f"):
        if isinstance(s.get(k), dict):
            yield from ops(s[k])


def stochastic(s):
    return any(l["op"] == "act" and l["f"] == "dropout" for l in nets.leaves(s))


def no_bn(s):
    """torch's own backward of BatchNorm in evaluation mode is wrong for some memory layouts."""
    if s["op"] == "bn":
        return {"op": "act", "f": "tanh"}
    s = dict(s)
    for k in ("mods", "mods2"):
        if s.get(k):
            s[k] = [no_bn(m) for m in s[k]]
    for k in ("mod", "t", "f"):
        if isinstance(s.get(k), dict):
            s[k] = no_bn(s[k])
    return s


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    kind = gens.wi(draw, ("net", 6), ("leaf", 4), ("att", 3))
    if kind == "leaf":
        s, c, sp = gens.temporal_leaf(draw, avg_dil=True)
        if s["op"] == "delay":
            s["shrink"] = False
    elif kind == "net":
        rank = draw(st.integers(1, 3))
        sp = gens.spatial_dims(draw, rank, 1, 3)
        c = draw(st.integers(1, 3))
        s, _, _ = gens.chain(draw, rank, c, sp, draw(st.integers(1, 3)), 1 + int(gens.flag(draw, 1, 3)), shrinks=False)
        s = no_bn(gens.set_batch(s, case["B"]))
    else:
        s = gens.wi(draw, (gens.mha, 3), (gens.tel, 2), (gens.te, 2))(draw)
        c, sp = s["E"], []
        pre = []
        if gens.flag(draw):
            c = draw(st.integers(1, 3))
            pre.append(gens.conv(draw, 1, c, [], cout=s["E"], st_=gens.wi(draw, (1, 3), (2, 1)))[0])
        if gens.flag(draw, 1, 3):
            pre.append(gens.rpe(draw, s["E"]))
        case["att"] = s
        s = {"op": "seq", "mods": pre, "named": False}
    train = gens.flag(draw, 2, 3)
    if case.get("att"):
        if case["att"]["op"] == "te":
            train = False
        elif case["att"]["op"] == "tel":
            train = False
    elif stochastic(s):
        train = False
    att = case.get("att")
    T = nets.delay(s) + 1 + ((att["S"] - 1) * nets.stride(s) if att else 0)
    T = min(T, 60) + gens.rare(draw, 0, 6, 40, 8) * (nets.stride(s) if nets.stride(s) < 8 else 1)
    for l in nets.leaves(s):
        if l["op"] == "rpe":
            l.update(N=max(l["N"], T if gens.flag(draw) else 9), learned=l["learned"] or l["E"] < 2)
    case.update(spec=s, shape=[c, T, *sp], chunks=([draw(st.integers(0, 2)), T] if T > 12 and gens.flag(draw) and all(l.get("N", T) >= T for l in nets.leaves(s)) else []) + gens.chunk_list(draw, maxlen=9), steps=gens.wi(draw, (1, 2), (2, 1)), train=train,
                wrt=gens.wi(draw, ("all", 4), ("input", 2), ("params", 1), ("some", 2)),
                cold=gens.wi(draw, (0, 3), (draw(st.integers(1, 6)), 1)), ctx=gens.flag(draw, 1, 4))
    if case["vals"] in ("int", "sparse") or att:
        case["vals"] = "normal"
    return case


def strategy(tier):
    return cases(tier)


class Att:
    """An attention module together with the torch module that it corresponds to."""

    def __init__(self, s):
        self.s = s
        self.m = nets.build(s, F64)
        if s["op"] == "mha":
            t = nn.MultiheadAttention(s["E"], s["H"], bias=s["bias"], batch_first=True)
            pairs = [(dict(self.m.named_parameters())[n], p) for n, p in t.named_parameters()]
        else:
            tel = nn.TransformerEncoderLayer(s["E"], s["H"], s["F"], 0.1, s["act"], batch_first=True)
            if s["op"] == "tel":
                t, layers = tel, [(tel, self.m)]
            else:
                t = nn.TransformerEncoder(tel, s["L"], nn.LayerNorm(s["E"]) if s["norm"] else None, enable_nested_tensor=False)
                layers = [(l, self.m[0][i]) for i, l in enumerate(t.layers)]
            t = t.to(F64)
            # pair parameters through values that mark them
            pairs = []
            for a, b in layers:
                keep = [p.detach().clone() for p in b.parameters()]
                with torch.no_grad():
                    for i, p in enumerate(a.parameters()):
                        p.fill_(float(i))
                tel_params(a, b)
                own = {int(p.flatten()[0]): p for p in b.parameters()}
                with torch.no_grad():
                    for p, v in zip(b.parameters(), keep):
                        p.copy_(v)
                pairs += [(own[i], p) for i, p in enumerate(a.parameters())]
            if s["op"] == "te" and s["norm"]:
                pairs += list(zip(self.m.norm.fn.parameters(), t.norm.parameters()))
        t = t.to(F64).eval()
        with torch.no_grad():
            for a, b in pairs:
                b.copy_(a)
        self.t, self.pairs = t, pairs

    def ref(self, X, times):
        s, S = self.s, self.s["S"]
        if X is None or X.shape[2] < S:
            return None, []
        qi = s["qi"] % S if s.get("type") == "single" else S - 1
        ys = []
        for i in range(S - 1, X.shape[2]):
            w = X[:, :, i - S + 1:i + 1].transpose(1, 2)
            y = self.t(w, w, w, need_weights=False)[0] if s["op"] == "mha" else self.t(w)
            ys.append(y.transpose(1, 2) if s.get("type") == "retro" else y[:, qi])
        return torch.stack(ys, 2), times[S - 1:]


def rpe_ref(s, X, table):
    return X + torch.stack([table[t % s["N"]] for t in range(X.shape[2])], 1).unsqueeze(0)


def check(case):
    nets.CAPTURE = {"mods": {}, "refs": {}}
    try:
        return _check(case, nets.CAPTURE)
    finally:
        nets.CAPTURE = None


def _check(case, cap):
    import continual as co

    s = nets.number(case["spec"])
    c, T, *sp = case["shape"]
    m = nets.build(s, F64)
    att = Att(case["att"]) if case.get("att") else None
    if att:
        m = co.Sequential(*m, att.m)
    m.train(case["train"])
    # pairs of parameters: under test, in the reference
    pairs, tables = [], {}
    for uid, mod in cap["mods"].items():
        for n, p in cap["refs"].get(uid, {}).items():
            if p.requires_grad:
                pairs.append((dict(mod.named_parameters())[n], p))
    for l in nets.leaves(s):
        if l["op"] == "rpe":
            e = cap["mods"][l["uid"]].pe
            tables[l["uid"]] = (e.weight if l["learned"] else e.pattern).detach().clone()
            if l["learned"]:
                tables[l["uid"]].requires_grad_()
                pairs.append((e.weight, tables[l["uid"]]))
    if att:
        pairs += att.pairs
    own = list(m.parameters())
    paired = {id(a) for a, _ in pairs}
    names = {id(p): n for n, p in m.named_parameters()}
    if case["wrt"] in ("input", "some"):
        for i, (a, b) in enumerate(pairs):
            if case["wrt"] == "input" or (case["seed"] >> (i % 16)) & 1:
                a.requires_grad_(False), b.requires_grad_(False)
    ch = chunks_of(case["chunks"], T)
    cold = min(case["cold"], len(ch) - 1)
    n_out, graded = 0, False
    for rnd in range(case["steps"]):
        # several optimisation steps, each on its own stream
        m.clean_state()
        for a, b in pairs:
            a.grad = b.grad = None
        X = data((case["seed"], rnd), (case["B"], c, T, *sp), case["vals"], F64)
        if att and s["mods"]:
            X = X * 0.2  # moderate logits
        x, xr = X.clone(), X.clone()
        if case["wrt"] != "params":
            x.requires_grad_(), xr.requires_grad_()
        # the reference
        if att:
            Y, times = xr, list(range(T))
            for l in s["mods"]:
                if Y is not None and l["op"] == "rpe":
                    Y = rpe_ref(l, Y, tables[l["uid"]])
                else:
                    Y, times = nets.ref(l, Y, "stream", times)
            Y, times = att.ref(Y, times)
        else:
            Y, times = nets.ref(s, xr, "stream")
        # the stream; its first chunks possibly without recording gradients
        with torch.no_grad():
            pieces = drive(m, x, ch[:cold])
        if case["ctx"]:
            for kind, a, b in ch[cold:]:
                with co.call_mode("forward_step" if kind == "step" else "forward_steps"):
                    o = m(x[:, :, a] if kind == "step" else x[:, :, a:b])
                if o is not None:
                    pieces.append((a, b, o if kind == "steps" else o.unsqueeze(2), kind))
        else:
            pieces += drive(m, x, ch[cold:])
        n_out = sum(o.shape[2] for _, _, o, _ in pieces)
        require(n_out == len(times), f"{n_out} outputs, {len(times)} were due")
        if not n_out:
            continue
        out = torch.cat([o for _, _, o, _ in pieces], 2)
        t_cold = ch[cold][1]
        rt = (1e-5, 1e-6) if att else (1e-7, 1e-8)
        same(out, Y, "outputs", *rt)
        if cold:
            n_cold = sum(1 for t in times if t < t_cold)
            Y, out = Y[:, :, n_cold:], out[:, :, n_cold:]
            if not out.shape[2]:
                continue
        if not Y.requires_grad:
            continue
        require(out.requires_grad or cold, "the outputs do not record gradients")
        if not out.requires_grad:
            continue
        g = data((case["seed"], "g"), out.shape, "normal", F64)
        (Y * g).sum().backward()
        (out * g).sum().backward()
        zero = lambda p: torch.zeros_like(p) if p.grad is None else p.grad  # noqa: E731
        if case["wrt"] != "params":
            same(zero(x)[:, :, t_cold:], zero(xr)[:, :, t_cold:], "gradient with respect to the frames", 1e-5, 1e-6)
        graded = True
        if not cold:
            for a, b in pairs:
                if b.requires_grad:
                    same(zero(a), zero(b), f"gradient of {names[id(a)]}", 1e-5, 1e-6)
    left = [names[id(p)] for p in own if id(p) not in paired]
    mem = att is not None or any(nets.receptive_field(l) > 1 or l["op"] == "rnn" for l in nets.leaves(s))
    return {"nontrivial": n_out >= 2 and mem and graded,
            "tags": sorted(set(ops(s)) | ({att.s["op"], att.s.get("type", "")} if att else set())
                           | {"wrt_" + case["wrt"], "train" if case["train"] else "eval"}
                           | ({"cold"} if cold else set()) | ({"unpaired " + ",".join(left)} if left else set()))}
