"""Call modes: what __call__ does under nested contexts and attribute assignments."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F64, data, require, same, snap

RULE = "at least two different modes were in effect at calls, one of them set by a context"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = [
    "methods of single converted framework layers are called outside of contexts only",
    "the attribute is assigned on whole networks, not on parts of them",
]
MODES = ["forward", "forward_steps", "forward_step"]


class Boom(Exception):
    pass


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    subs = []
    for _ in range(draw(st.integers(1, 2))):
        if gens.flag(draw, 1, 6):  # a network of framework layers
            rank, c = draw(st.integers(2, 3)), draw(st.integers(1, 3))
            sp = gens.spatial_dims(draw, rank, 1, 3)
            mods = [gens.pointwise(draw, rank, c) for _ in range(gens.rare(draw, 1, 2, 14, 3))]
            mods.insert(0, {"op": "bn", "rank": rank, "cin": c, "ws": draw(st.integers(0, 60))})
            s = {"op": "seq", "mods": mods, "named": gens.flag(draw, 1, 4)}
            if gens.flag(draw):
                s = {"op": "seq", "mods": [s], "named": False}
        elif gens.flag(draw, 1, 4):
            rank, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
            sp = gens.spatial_dims(draw, rank, 1, 3)
            s = gens.pointwise(draw, rank, c)
            if s["op"] == "func":
                s = {"op": "act", "f": "softmax"}
        else:
            s, c, sp = gens.subject(draw, case["B"], leaf=3, net=6, rnn_=1, att=1, rpe_=0)
            if s["op"] == "mha" or (s["op"] == "tel" and s["qi"] != -1):
                s = gens.te(draw)
                c, sp = s["E"], []
            if s["op"] in ("tel", "te"):
                pass
        T = s["S"] if s["op"] in ("tel", "te") else gens.min_T(s) + draw(st.integers(0, 2))
        subs.append({"spec": s, "shape": [c, T, *sp]})

    def mode():
        m = draw(st.integers(0, 2))
        return [m, gens.pick(draw, "name", "name", "upper", "title", "int")]

    def block(d):
        out = []
        for _ in range(draw(st.integers(1, 3))):
            k = gens.wi(draw, ("with", 5 if d > 0 else 0), ("call", 4), ("set", 3), ("explicit", 1), ("bad", 1), ("part", 3))
            i = draw(st.integers(0, len(subs) - 1))
            if k == "with":
                out.append(["with", mode(), gens.flag(draw, 1, 4), block(d - 1) + [call()]])
                if gens.flag(draw):
                    out.append(call())
            elif k == "set":
                out.append(["set", i, mode()])
            elif k == "part":
                nested = [j for j, s in enumerate(subs) if s["spec"]["op"] == "seq"]
                if nested:
                    j = pick_path(nested)
                    if gens.flag(draw):
                        out.append(["set", j, mode()])
                    out.append(["part", j, draw(st.integers(0, 40))])
                else:
                    out.append(call())
            elif k == "explicit":
                out.append(["explicit", i, draw(st.integers(0, 2))])
            elif k == "bad":
                out.append(["bad", gens.flag(draw), i])
            else:
                out.append(call())
        return out

    def pick_path(nested):
        return draw(st.sampled_from(nested))

    def call():
        return ["call", draw(st.integers(0, len(subs) - 1)), gens.flag(draw, 1, 6)]

    case.update(subs=subs, prog=block(3) + [call()])
    return case


def strategy(tier):
    return cases(tier)


def spell(m):
    i, how = m
    name = MODES[i]
    return {"name": name, "upper": name.upper(), "title": name.title(), "int": i}[how]


def seq_parts(spec, m, tw, X):
    """All modules nested in sequences: (spec, module, twin module, offline input of that module)."""
    res = []
    for j, s in enumerate(spec["mods"]):
        res.append((s, m[j], tw[j], X))
        if s["op"] == "seq":
            res += seq_parts(s, m[j], tw[j], X)
        X, _ = nets.ref(s, X, "forward")
        if X is None:
            break
    return res


def run(m, mode, x, **kw):
    f = [m.forward, m.forward_steps, m.forward_step][mode]
    return f(x if mode < 2 else x[:, :, 0], **kw)


def check(case):
    import continual as co

    subs = [co.continual(nets.build(s["spec"], F64)) for s in case["subs"]]
    twins = [co.continual(nets.build(s["spec"], F64)) for s in case["subs"]]
    attr = [0] * len(subs)
    stack = []
    log = []  # (subject, mode, x, outcome)
    used = set()
    n = [0]

    def xin(i):
        n[0] += 1
        return data((case["seed"], n[0]), (case["B"], *case["subs"][i]["shape"]), "normal", F64)

    def block(stmts):
        for s in stmts:
            if s[0] == "call":
                i = s[1]
                mode = stack[-1] if stack else attr[i]
                used.add((mode, bool(stack)))
                x = xin(i)
                kw = {"update_state": False} if s[2] and mode > 0 else {}
                o = snap(subs[i](x if mode < 2 else x[:, :, 0], **kw))
                log.append((i, mode, x, o, kw))
            elif s[0] == "part":  # the mode of the network is that of its parts
                i = s[1]
                mode = stack[-1] if stack else attr[i]
                ps = seq_parts(case["subs"][i]["spec"], subs[i], twins[i], xin(i))
                if s[2] % 3 == 0:  # layers for which frames and sequences differ in kind
                    ps = [q for q in ps if q[0]["op"] in ("bn", "act")] or ps
                used.add((mode, bool(stack)))
                for _, part, twin, x in ps if s[2] % 2 else [ps[s[2] % len(ps)]]:
                    o = snap(part(x if mode < 2 else x[:, :, 0]))
                    log.append((twin, mode, x, o, {}))
            elif s[0] == "explicit":
                i = s[1]
                mode = s[2]  # whatever the context says
                if case["subs"][i]["spec"]["op"] in ("act", "bn", "nn"):
                    mode = stack[-1] if stack else attr[i]
                x = xin(i)
                log.append((i, mode, x, snap(run(subs[i], mode, x)), {}))
            elif s[0] == "set":
                subs[s[1]].call_mode = spell(s[2])
                attr[s[1]] = s[2][0]
            elif s[0] == "bad":
                try:
                    if s[1]:
                        with co.call_mode("backward"):
                            require(False, "an unknown call mode was accepted")
                    else:
                        with co.call_mode(7):
                            require(False, "an unknown call mode was accepted")
                except (KeyError, IndexError, ValueError):
                    pass
            else:
                _, m, boom, body = s
                try:
                    with co.call_mode(spell(m)):
                        stack.append(m[0])
                        block(body)
                        if boom:
                            raise Boom
                except Boom:
                    require(boom, "exception from another block")
                finally:
                    if stack:
                        stack.pop()

    block(case["prog"])
    probe = co.Lambda(None, lambda x: x + 1, lambda x: x + 2, lambda x: x + 3)
    for mode in (0, 1, 2):  # all contexts have been left
        probe.call_mode = MODES[mode]
        got = float(probe(torch.zeros(1, 1, 1)).sum())
        require(got == [1.0, 3.0, 2.0][mode], f"assigned mode {MODES[mode]} is not in effect after all contexts were left")
    for j, (i, mode, x, o, kw) in enumerate(log):
        m = twins[i] if isinstance(i, int) else i
        what = f"subject {i}" if isinstance(i, int) else "a part " + type(i).__name__
        same(o, snap(run(m, mode, x, **kw)), f"call {j} of {what} in mode {MODES[mode]}")
    modes = {m for m, _ in used}
    parts = ["part"] if any(not isinstance(e[0], int) for e in log) else []
    return {"nontrivial": len(modes) >= 2 and any(c for _, c in used), "tags": [f"modes{len(modes)}"] + parts + [
        s["spec"]["op"] for s in case["subs"]]}
