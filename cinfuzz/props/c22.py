"""Conditional layers: each call is routed by the predicate, each branch sees exactly its own calls."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F64, data, is_out, layout, require, same
from .c05 import call

RULE = "both branches were taken and the branch that was returned to has memory (or there is none to keep), with an output due"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["metamorphic: the branches as separate modules, the one with the shorter delay preceded by a Delay",
               "without an alternative, the conditional layer has no delay"]


def delay(s):
    """The announced delay: a leaf Skip announces none."""
    return 0 if s is None or s["op"] == "skip" else nets.delay(s)


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    rank = draw(st.integers(1, 2))
    sp = gens.spatial_dims(draw, rank, 1, 3)
    c = draw(st.integers(1, 3))
    r = gens.wi(draw, (0, 3), (1, 1), (2, 1))
    odd = gens.wi(draw, ("", 5), ("memless", 1), ("rnn", 1), ("skip", 1))
    if odd:  # one branch keeps nothing between its steps, or announces no delay
        t = gens.pointwise(draw, rank, c) if gens.flag(draw, 3, 4) else gens.branch(draw, rank, c, sp, 0, 1, c, 0)
        f = gens.branch(draw, rank, c, sp, 0, 1, c, 1)
        if odd == "rnn":
            rank, sp = 1, []
            f = gens.rnn(draw, c, c)
            t = gens.pointwise(draw, 1, c)
        if odd == "skip":
            f = {"op": "skip", "n": draw(st.integers(1, 3))}
        if gens.flag(draw, 1, 4):
            t, f = f, t
    elif gens.flag(draw, 1, 3):
        t, f = gens.pointwise(draw, rank, c), None if gens.flag(draw, 2, 3) else gens.pointwise(draw, rank, c)
    else:
        t = gens.branch(draw, rank, c, sp, r, 1, c, 1)
        f = gens.branch(draw, rank, c, sp, r, 1, c, 1)
    D = max(delay(t), delay(f))
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        ops.append([gens.flag(draw), draw(st.sampled_from([0, 0, -2, 1, 2, 1 + min(D, 6), -1 - min(D, 6)])),
                    gens.wi(draw, ("feed", 6), ("peek", 1), ("forward", 1), ("clean", 1 if gens.flag(draw, 1, 3) else 0), ("pad", 1), ("explicit", 2))])
    gens.long_op(draw, ops, 1)
    case.update(t=t, f=f, ops=ops, shape=[c, *sp], pred=gens.pick(draw, "flag", "input", "module", "call"), seq=gens.flag(draw))
    if case["pred"] == "input":
        case["ops"] = [[a, max(0, b), k] for a, b, k in ops]
    return case


def strategy(tier):
    return cases(tier)


def check(case):
    import continual as co

    c, *sp = case["shape"]
    box = {"v": True}

    def pred(module, x):
        require(isinstance(module, co.Conditional), f"the predicate received {type(module).__name__}")
        require(torch.equal(x, box["x"]), "the predicate received another input")
        if case["pred"] == "input":
            return bool(x.flatten()[0] > 0)
        if case["pred"] == "module":
            return module.choice
        return box["v"]

    t, f = nets.build(case["t"]), None if case["f"] is None else nets.build(case["f"])
    cond = co.Conditional(pred, t, f)
    nets.set_mode(cond, nets.TRAIN)
    m = co.Sequential(cond) if case["seq"] else cond
    D = max(delay(case["t"]), delay(case["f"]))
    require(int(m.delay) == D, f"delay {m.delay} instead of {D}")

    def twin(s):
        if s is None:
            return co.Identity()
        z = co.continual(nets.build(s))
        return z if delay(s) == D else co.Sequential(co.Delay(D - delay(s)), z)

    tw = {True: twin(case["t"]), False: twin(case["f"])}
    fwd = {True: co.continual(nets.build(case["t"])), False: co.continual(nets.build(case["f"])) if case["f"] else co.Identity()}
    apart = {True: twin(case["t"]), False: twin(case["f"])}  # a stream whose states are passed explicitly
    states = None
    last, switched, due = None, False, False
    taken = set()
    with torch.no_grad():
        for j, (v, n, kind) in enumerate(case["ops"]):
            T = max(1, abs(n))
            x = layout(data((case["seed"], j), (case["B"], c, T, *sp), case["vals"], F64), case["layout"])
            if kind == "clean":
                m.clean_state()
                tw[True].clean_state(), tw[False].clean_state()
                taken = set()
                continue
            box["v"] = cond.choice = v
            if kind == "forward" and min(gens.length(s, T, "forward") for s in (case["t"], case["f"]) if s) < 1:
                continue
            if case["pred"] == "input":
                v = bool(x.flatten()[0] > 0)
            if kind == "forward":
                box["x"] = x
                o, w = m.forward(x) if j % 2 else m(x), fwd[v](x)
                if isinstance(w, tuple):  # outputs and final states of a recurrent layer
                    o, w = o[0] if isinstance(o, tuple) else o, w[0]
                same(o, w, f"op {j}: forward, predicate {v}")
                continue
            if kind == "explicit":
                for i in range(T):
                    box["x"] = x[:, :, i]
                    o, states = m._forward_step(x[:, :, i], states)
                    if case["pred"] == "input":
                        v = bool(box["x"].flatten()[0] > 0)
                    w = apart[v].forward_step(x[:, :, i])
                    if is_out(o) or is_out(w):
                        same(o, w, f"op {j}, frame {i} with explicit states: predicate {v}")
                continue
            kw = {"update_state": False} if kind == "peek" else {}
            if kind == "pad" and n > 0:
                kw = {"pad_end": True, "update_state": False}
            if n < 0:
                for i in range(T):
                    box["x"] = x[:, :, i]
                    o, w = m.forward_step(x[:, :, i], **kw), tw[v].forward_step(x[:, :, i], **kw)
                    same(o, w, f"op {j}, frame {i}: predicate {v}")
            else:
                box["x"] = x if n else x[:, :, 0]
                o, w = call(m, x, n, **kw), call(tw[v], x, n, **kw)
                same(o, w, f"op {j} {kind} {n}: predicate {v}")
            if last is not None and v != last and v in taken:
                switched = True
            if not kw:
                taken.add(v)
            last = v
            due = due or (switched and is_out(w))
    return {"nontrivial": due, "tags": [case["pred"], "no alternative" if case["f"] is None else f"delay{min(D, 6)}"]}
