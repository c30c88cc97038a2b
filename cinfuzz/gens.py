"""Hypothesis strategies for layer and network specifications (see nets.py)."""
from hypothesis import assume
from hypothesis import strategies as st

from . import nets
from .util import KINDS, LAYOUTS

I = st.integers
SEED = I(0, 2**31 - 1)


def wi(draw, *pairs):
    """Weighted choice."""
    bag = [v for v, w in pairs for _ in range(w)]
    return draw(st.sampled_from(bag))


def pick(draw, *vals):
    return draw(st.sampled_from(list(vals)))


def flag(draw, num=1, den=2):
    return draw(I(0, den - 1)) < num


def rare(draw, lo, hi, top, den=7):
    """An integer of lo..hi, and of hi + 1..top in one of den cases."""
    return draw(I(hi + 1, top)) if flag(draw, 1, den) else draw(I(lo, hi))


def stretch(draw, T, tier, den=10):
    """Rarely a long stream: (frames, chunk sizes to put in front)."""
    if not flag(draw, 1, den):
        return T, []
    T += draw(I(20, 150 if tier == "quick" else 500))
    return T, [draw(I(0, 5)), draw(I(10, T))][:draw(I(0, 2))]


def long_op(draw, ops, at, cap=None, den=8):
    """Rarely makes one of the operations a long chunk; ops[i][at] is its number of frames."""
    if ops and flag(draw, 1, den):
        i, n = draw(I(0, len(ops) - 1)), draw(I(10, 80))
        ops[i][at] = min(n, cap) if cap else n
    return ops


def out_size(S, k, s, p, d, ceil=False):
    n = S + 2 * p - d * (k - 1) - 1
    if n < 0:
        return 0
    return n // s + 1


# ------------------------------------------------------------------ leaves
def spatial_dims(draw, rank, lo=1, hi=5):
    return [rare(draw, lo, hi, 2 * hi, 15) for _ in range(rank - 1)]


def conv(draw, rank, cin, sp, *, cout=None, kt=None, pt=None, st_=None, keep=False, fill=None, big=False):
    k = [kt if kt is not None else wi(draw, (1, 2), (2, 3), (3, 6), (4, 2), (5, 2), (6, 1), (9 if big else 7, 1)) if flag(draw, 9, 10) else draw(I(8, 17))]
    s = [st_ if st_ is not None else wi(draw, (1, 12), (2, 6), (3, 2), (4, 2), (draw(I(5, 9)), 1))]
    if pt is None:
        pt = pick(draw, 0, (k[0] - 1) // 2, draw(I(0, k[0] - 1)))
    p = [pt]
    d = [1]
    osp = []
    for S in sp:
        if keep:
            kk = wi(draw, (1, 2), (3, 1))
            ss, pp, dd = 1, (kk - 1) // 2, 1
        else:
            kk, ss, dd = (wi(draw, (1, 4), (2, 2), (3, 4), (draw(I(4, 6)), 1)), wi(draw, (1, 6), (2, 2), (3, 1)),
                          wi(draw, (1, 6), (2, 2), (3, 1)))
            pp = draw(I(0, 2))
            if out_size(S, kk, ss, pp, dd) < 1:
                kk, dd = 1, 1
        k.append(kk), s.append(ss), p.append(pp), d.append(dd)
        osp.append(out_size(S, kk, ss, pp, dd))
    if fill is None:
        fill = wi(draw, (("zeros", "zeros"), 6), (("replicate", "replicate"), 3), (("zeros", "replicate"), 1),
                  (("replicate", "zeros"), 1))
    gs = [g for g in range(1, cin + 1) if cin % g == 0 and (cout is None or cout % g == 0)]
    g = pick(draw, 1, pick(draw, *gs))
    if cout is None:
        cout = g * rare(draw, 1, 4 if g == 1 else 2, 9)
    return {
        "op": "conv", "rank": rank, "cin": cin, "cout": cout, "k": k, "s": s, "p": p, "d": d, "g": g,
        "bias": flag(draw, 2, 3), "pm": fill[0], "fill": fill[1], "ws": draw(I(0, 60)), "as_int": flag(draw, 1, 4),
    }, cout, osp


def pool(draw, rank, c, sp, *, kt=None, pt=None, st_=None, keep=False, dilation=True, fills=True, avg_dil=False,
         free=True):
    kind = pick(draw, "avg", "max")
    k = [kt if kt is not None else wi(draw, (1, 2), (2, 6), (3, 8), (4, 4), (5, 2), (7, 2), (draw(I(8, 16)), 2))]
    s = [st_ if st_ is not None else wi(draw, (1, 10), (2, 6), (3, 2), (4, 2), (draw(I(5, 9)), 1))]
    if pt is None:
        pt = draw(I(0, k[0] // 2))
    p = [pt]
    d = [1]
    if dilation and (kind == "max" or avg_dil):
        d = [wi(draw, (1, 8), (2, 4), (3, 2), (draw(I(4, 6)), 2))]
    ceil = bool(free and not keep and s[0] == 1 and len(sp) > 0 and flag(draw, 1, 4))
    osp = []
    for S in sp:
        if keep:
            kk = wi(draw, (1, 2), (3, 1))
            if rank == 3 and kind == "avg" and kk > S:
                kk = 1
            ss, pp, dd = 1, (kk - 1) // 2, 1
        else:
            kk, ss = wi(draw, (1, 4), (2, 4), (3, 4), (draw(I(4, 5)), 1)), wi(draw, (1, 6), (2, 2), (3, 1))
            if rank == 3 and kind == "avg" and kk > S:
                kk = 1  # torch.nn.functional.avg_pool3d rejects inputs smaller than the kernel
            dd = wi(draw, (1, 4), (2, 1)) if kind == "max" else 1
            pp = draw(I(0, kk // 2)) if S >= dd else 0
            if out_size(S, kk, ss, pp, dd) < 1:
                kk, dd, pp = 1, 1, 0
        k.append(kk), s.append(ss), p.append(pp), d.append(dd)
        o = out_size(S, kk, ss, pp, dd)
        if ceil:
            n = S + 2 * pp - dd * (kk - 1) - 1
            o = -(-n // ss) + 1
            if (o - 1) * ss >= S + pp:
                o -= 1
        osp.append(o)
    cip = not (kind == "avg" and p[0] == 0 and flag(draw, 1, 3))
    div = draw(I(1, 9)) if (kind == "avg" and rank > 1 and flag(draw, 1, 4)) else 0
    fill = "default"
    if fills and kind == "max":
        fill = wi(draw, ("default", 5), ("neg_inf", 1), ("zeros", 2), ("replicate", 2))
    elif fills:
        fill = wi(draw, ("default", 4), ("zeros", 1), ("replicate", 2))
    return {
        "op": "pool", "kind": kind, "rank": rank, "k": k, "s": s, "p": p, "d": d, "ceil": ceil, "cip": cip, "div": div,
        "fill": fill, "as_int": flag(draw, 1, 4),
    }, c, osp


def adaptive(draw, rank, c, sp):
    """rank >= 2"""
    out = [draw(I(1, min(3, S))) for S in sp]
    arg = [None if flag(draw, 1, 8) else o for o in out]  # None: the size of the input
    out = [S if a is None else o for a, o, S in zip(arg, out, sp)]
    k = rare(draw, 1, 7, 20)
    pd = {"p": pick(draw, 0, draw(I(0, k // 2))), "d": wi(draw, (1, 4), (2, 1), (3, 1))} if flag(draw, 1, 4) else {}
    return {
        "op": "adaptive", "kind": pick(draw, "avg", "max"), "rank": rank, "out": arg, "k": k, **pd,
        "st": wi(draw, (1, 6), (2, 2), (3, 2), (draw(I(4, 6)), 1)), "fill": wi(draw, ("default", 3), ("zeros", 1), ("replicate", 1)),
    }, c, out


def delay_(draw, hi=6, shrink=True):
    sh = wi(draw, (False, 3), ("centered", 1), (True, 1), ("lagging", 1)) if shrink else False
    return {"op": "delay", "n": rare(draw, 0, hi, 4 * hi, 12), "shrink": sh, "fill": pick(draw, "zeros", "replicate")}


def linear(draw, cin, cout=None, cd=1):
    return {"op": "linear", "cin": cin, "cout": cout or rare(draw, 1, 5, 12), "bias": flag(draw, 2, 3), "cd": cd,
            "ws": draw(I(0, 60))}


def rnn(draw, cin, cout=None, drop=False):
    cell = pick(draw, "rnn", "gru", "lstm")
    nl = {"nl": pick(draw, "relu", "tanh")} if cell == "rnn" and flag(draw) else {}
    s = {"op": "rnn", "cell": cell, **nl, "cin": cin, "cout": cout or rare(draw, 1, 4, 10),
         "layers": rare(draw, 1, 2, 4), "bias": flag(draw, 3, 4), "ws": draw(I(0, 60))}
    if cell == "lstm" and flag(draw, 1, 4):  # projections: cout are the projected channels
        s["hid"] = s["cout"] + rare(draw, 1, 3, 6)
    if drop and s["layers"] > 1 and flag(draw):
        s["drop"] = pick(draw, 0.5, 0.25)
    return s


def user(draw):
    """A layer written by the user."""
    k = rare(draw, 1, 5, 12)
    return {"op": "user", "k": k, "p": pick(draw, 0, (k - 1) // 2, draw(I(0, k - 1))), "fill": pick(draw, "zeros", "zeros", "replicate"),
            "ws": draw(I(0, 60))}


def temporal_leaf(draw, big=False, avg_dil=False):
    """One temporal layer with its input geometry: {"spec", "cin", "sp"}."""
    rank = draw(I(1, 3))
    sp = spatial_dims(draw, rank)
    kind = wi(draw, ("conv", 5), ("pool", 5), ("adaptive", 2 if rank > 1 else 0), ("delay", 1))
    cin = rare(draw, 1, 4, 12)
    if kind == "conv":
        s, _, _ = conv(draw, rank, cin, sp, big=big)
    elif kind == "pool":
        s, _, _ = pool(draw, rank, cin, sp, avg_dil=avg_dil)
    elif kind == "adaptive":
        s, _, _ = adaptive(draw, rank, cin, sp)
    else:
        s = delay_(draw)
    return s, cin, sp


# ------------------------------------------------------------------ networks
def pointwise(draw, rank, c):
    k = wi(draw, ("act", 4), ("func", 3), ("bn", 2))
    if k == "act":
        return {"op": "act", "f": pick(draw, *sorted(nets.ACTS))}
    if k == "bn":
        return {"op": "bn", "rank": rank, "cin": c, "ws": draw(I(0, 60))}
    return {"op": "func", "f": pick(draw, *sorted(set(nets.FUNCS) - {"one", "const"}))}


def t_leaf(draw, rank, c, sp, r, s, p=None, cout=None):
    """A temporal leaf with forward shrink r = extent - 1 - 2 p and stride s that keeps space."""
    if p is None:
        p = wi(draw, (0, 3), (1, 3), (2, 2), (3, 1))
    k = r + 1 + 2 * p
    if s == 1 and (cout is None or cout == c) and flag(draw, 1, 12):
        return dict(user(draw), k=k, p=p), c
    if cout is None or cout == c:
        if flag(draw, 1, 3):
            m, c, _ = pool(draw, rank, c, sp, kt=k, pt=p, st_=s, keep=True, dilation=False, fills=False, free=False)
            return m, c
    m, c, _ = conv(draw, rank, c, sp, cout=cout, kt=k, pt=p, st_=s, keep=True,
                   fill=wi(draw, (("zeros", "zeros"), 3), (("replicate", "replicate"), 1)))
    return m, c


def branch(draw, rank, c, sp, r, s, cout, d, p0=False):
    """Space-keeping sub-network with forward shrink r and stride s, mapping c to cout channels."""
    if r == 0 and s == 1 and c == cout and not p0 and flag(draw, 1, 12):
        return {"op": "func", "f": "identity"}
    mods = []
    if flag(draw, 1, 3):
        mods.append(pointwise(draw, rank, c))
    if s > 1:
        if flag(draw, 1, 3):
            m, c = t_leaf(draw, rank, c, sp, 0, 1, 0 if p0 else None)
            mods.append(m)
        m, c = t_leaf(draw, rank, c, sp, r, s, 0 if p0 else None, cout)
        mods.append(m)
    else:
        parts = [r]
        if flag(draw, 1, 2):
            a = draw(I(0, r))
            parts = [a, r - a]
        if r == 0 and flag(draw, 1, 4) and not p0:
            parts = []
        for i, a in enumerate(parts):
            if d > 0 and flag(draw, 1, 5) and not p0:
                m, c = group(draw, rank, c, sp, a, 1, None, d - 1)
            elif a == 0 and d > 0 and flag(draw, 1, 5) and not p0:
                m, c = residual(draw, rank, c, sp, d - 1, shrinks=False)
            else:
                m, c = t_leaf(draw, rank, c, sp, a, 1, 0 if p0 else None)
            mods.append(m)
            if flag(draw, 1, 4):
                mods.append(pointwise(draw, rank, c))
    if c != cout or not mods:
        if flag(draw, 1, 2):
            mods.append(linear(draw, c, cout))
        else:
            m, _ = conv(draw, rank, c, sp, cout=cout, kt=1, pt=0, st_=1, keep=True, fill=("zeros", "zeros"))[:2]
            mods.append(m)
        c = cout
    if len(mods) == 1 and flag(draw, 3, 4):
        return mods[0]
    return {"op": "seq", "mods": mods, "named": flag(draw, 1, 4)}


def fan(draw, rank, c):
    """Parallel branches without memory, some of which pass the frame on."""
    mods = [{"op": "func", "f": "identity"} if flag(draw) else pointwise(draw, rank, c) for _ in range(rare(draw, 2, 4, 8))]
    red = pick(draw, "sum", "concat", "mul", "max", "fn")
    s = {"op": "br", "mods": mods, "reduce": red, "named": False}
    if flag(draw, 1, 3):
        s = {"op": "bpr", "mods": mods, "reduce": red, "infer": flag(draw, 2, 3), "dispatch": None, "mods2": []}
    return s, c * len(mods) if red == "concat" else c


def group(draw, rank, c, sp, r, s, cout, d):
    """br / bpr / cond with profile (r, s); returns (spec, cout)."""
    kind = wi(draw, ("br", 4), ("bpr", 3), ("cond", 2))
    if kind == "cond":
        cout = cout or c
        t = branch(draw, rank, c, sp, r, s, cout, d)
        f = branch(draw, rank, c, sp, r, s, cout, d)
        if r == 0 and s == 1 and cout == c and flag(draw, 1, 6):  # one branch without memory
            t, f = pointwise(draw, rank, c), f
            if flag(draw, 1, 4):
                t, f = f, t
        if r == 0 and s == 1 and cout == c and flag(draw, 1, 3):
            t, f = pointwise(draw, rank, c), None
        return {"op": "cond", "val": flag(draw), "t": t, "f": f}, cout
    red = pick(draw, "sum", "concat", "mul", "max", "fn")
    if cout is not None and red == "concat":
        red = "sum"
    n = wi(draw, (2, 8), (3, 6), (4, 2), (draw(I(5, 8)), 2))
    if n > 3:
        d = 0
    if red == "concat":
        outs = [draw(I(1, 3)) for _ in range(n)]
    else:
        outs = [cout or pick(draw, c, draw(I(1, 4)))] * n
    mods = [branch(draw, rank, c, sp, r, s, o, d) for o in outs]
    if r == 0 and s == 1 and outs[0] == c and flag(draw, 1, 3):
        mods[0] = {"op": "func", "f": "identity"}
    if kind == "br":
        return {"op": "br", "mods": mods, "reduce": red, "named": wi(draw, (False, 6), (True, 1), ("digit", 1))}, (
            sum(outs) if red == "concat" else outs[0])
    res = {"op": "bpr", "mods": mods, "reduce": red, "infer": flag(draw, 2, 3), "dispatch": None, "mods2": []}
    if flag(draw, 2, 3):
        nd = rare(draw, 2, 4, 8)
        dm = [draw(I(0, n - 1)) for _ in range(nd)]
        if flag(draw, 1, 3):
            dm = list(reversed(range(n)))
        if flag(draw, 1, 3):  # groups of streams
            for i in range(len(dm)):
                if flag(draw):
                    dm[i] = [draw(I(0, n - 1)) for _ in range(draw(I(2, 3)))]
        res["dispatch"] = dm
        if any(isinstance(i, list) for i in dm):
            o2, m2 = [], []
            for i in dm:
                if isinstance(i, int):
                    o2.append(outs[i])
                    m2.append(branch(draw, rank, outs[i], sp, 0, 1, outs[i], 0))
                    continue
                cat = red == "concat" or cout is None and flag(draw, 1, 4)
                a = sum(outs[j] for j in i) if cat else outs[0]
                m = {"op": "merge", "reduce": "concat" if cat else pick(draw, "sum", "mul", "max", "fn")}
                o = outs[0] if red != "concat" else a
                if a != o or flag(draw, 1, 3):
                    b = branch(draw, rank, a, sp, 0, 1, o, 0)
                    m = {"op": "seq", "mods": [m, b], "named": flag(draw, 1, 4)}
                o2.append(o)
                m2.append(m)
            res["mods2"], outs = m2, o2
        else:
            outs = [outs[i] for i in dm]
            if flag(draw, 1, 2):
                res["mods2"] = [branch(draw, rank, a, sp, 0, 1, a, 0) for a in outs]
    return res, (sum(outs) if red == "concat" else outs[0])


def residual(draw, rank, c, sp, d, shrinks=True):
    red = pick(draw, "sum", "sum", "concat", "mul", "max", "fn")
    cout = c if red != "concat" else draw(I(1, 3))
    fill = pick(draw, None, "zeros", "replicate")
    if not shrinks or flag(draw, 2, 3):
        # keep at least one temporal layer
        m = branch(draw, rank, c, sp, 0, 1, cout, d)
        sh = wi(draw, (False, 4), (True, 1), ("lagging", 1), ("leading", 1), ("centered", 1))
        if nets.delay(m) % 2 and sh in (True, "centered"):
            sh = False
        return {"op": "res", "mod": m, "reduce": red, "shrink": sh, "fill": fill}, (
            c + cout if red == "concat" else c)
    r = rare(draw, 1, 3, 10, 12) * 2
    sh = pick(draw, "centered", True, "lagging", "leading")
    if sh in ("lagging", "leading"):
        r = rare(draw, 1, 6, 20, 12)
    m = branch(draw, rank, c, sp, r, 1, cout, 0, p0=True)
    return {"op": "res", "mod": m, "reduce": red, "shrink": sh, "fill": fill}, (c + cout if red == "concat" else c)


def res_shrinks(s):
    """Does the network contain a residual that shrinks?"""
    if s["op"] == "res":
        return (bool(s["shrink"]) and not nets.equal_padding(s["mod"])) or res_shrinks(s["mod"])
    if s["op"] == "cond":
        return res_shrinks(s["t"]) or (s["f"] is not None and res_shrinks(s["f"]))
    return any(res_shrinks(m) for m in s.get("mods", []) + s.get("mods2", []))


def chain(draw, rank, c, sp, n, d, *, skips=True, stateful=True, shrinks=True, conds=True, att=False):
    mods = []
    for i in range(n + (draw(I(4, 10)) if flag(draw, 1, 30) else 0)):
        if i >= n:
            mods.append(pointwise(draw, rank, c))
            continue
        k = wi(draw, ("conv", 5), ("pool", 3), ("pw", 3), ("linear", 1), ("delay", 1), ("user", 1), ("skip", 1 if skips else 0),
               ("rnn", 1 if rank == 1 and stateful else 0), ("group", 7 if d else 0), ("res", 4 if d else 0), ("fan", 2 if d else 0),
               ("seq", 1 if d else 0), ("att", 1 if rank == 1 and stateful and att else 0), ("reshape", 1 if rank > 1 else 0))
        if k == "conv":
            m, c, sp = conv(draw, rank, c, sp, fill=wi(draw, (("zeros", "zeros"), 3), (("replicate", "replicate"), 1)))
        elif k == "pool":
            m, c, sp = pool(draw, rank, c, sp, fills=False)
        elif k == "pw":
            m = pointwise(draw, rank, c)
        elif k == "linear":
            m = linear(draw, c)
            c = m["cout"]
        elif k == "delay":
            m = delay_(draw, 4, shrink=False)
        elif k == "user":
            m = user(draw)
        elif k == "skip":
            m = {"op": "skip", "n": draw(I(1, 3))}
        elif k == "rnn":
            m = rnn(draw, c)
            c = m["cout"]
        elif k == "att":
            m = att_in_net(draw, c)
        elif k == "group":
            m, c = group(draw, rank, c, sp, wi(draw, (0, 3), (1, 1), (2, 2)), wi(draw, (1, 3), (2, 1), (3, 1)), None, d - 1)
            if not conds and m["op"] == "cond":
                m = m["t"]
        elif k == "res":
            m, c = residual(draw, rank, c, sp, d - 1, shrinks=shrinks)
        elif k == "fan":
            m, c = fan(draw, rank, c)
        elif k == "seq":
            m, c, sp = chain(draw, rank, c, sp, draw(I(1, 2)), d - 1, skips=skips, stateful=stateful, shrinks=shrinks,
                             conds=conds, att=att)
        else:
            # fold (C, *spatial) into another grouping with the same rank; batch kept
            m = {"op": "_reshape", "c": c, "sp": list(sp)}
            sp = list(reversed(sp))
        mods.append(m)
    return {"op": "seq", "mods": mods, "named": wi(draw, (False, 8), (True, 1), ("digit", 1))}, c, sp


def att_in_net(draw, c):
    H = pick(draw, *[h for h in range(1, c + 1) if c % h == 0])
    S = rare(draw, 1, 4, 9)
    m = {"op": pick(draw, "mha", "tel"), "type": "single", "E": c, "H": H, "S": S, "ws": draw(I(0, 60)), "net": True,
         "qi": pick(draw, -1, -1, draw(I(-S, S - 1)))}
    if m["op"] == "mha":
        m["bias"] = flag(draw, 2, 3)
    else:
        m.update(F=draw(I(1, 6)), sof=False, act=pick(draw, "relu", "gelu"))
    return m


def set_batch(s, B):
    """Resolves reshapes, which name the batch size."""
    if s["op"] == "_reshape":
        return {"op": "reshape", "shape": [B, s["c"], *reversed(s["sp"])], "star": B % 2 == 0}
    s = dict(s)
    for k in ("mods", "mods2"):
        if s.get(k):
            s[k] = [set_batch(m, B) for m in s[k]]
    if s["op"] == "res":
        s["mod"] = set_batch(s["mod"], B)
    if s["op"] == "cond":
        s["t"] = set_batch(s["t"], B)
        s["f"] = s["f"] and set_batch(s["f"], B)
    return s


def length(s, n, mode):
    """Number of output frames for n input frames (0 if any layer inside has none)."""
    op = s["op"]
    if n <= 0:
        return 0
    if op in nets.TEMPORAL:
        return nets.leaf_out_len(s, n, mode)
    if op == "delay":
        if s["shrink"] in (True, "centered"):
            return n - 2 * s["n"]
        if s["shrink"] == "lagging" or mode == "stream":
            return n - s["n"]
        return n
    if op == "skip":
        return n - s["n"]
    if op in ("mha", "tel"):
        return n - s["S"] + 1 if mode == "stream" else n
    if op == "seq":
        for m in s["mods"]:
            n = length(m, n, mode)
            if n <= 0:
                return 0
        return n
    if op == "br":
        return min(length(m, n, mode) for m in s["mods"])
    if op == "bpr":
        n = min(length(m, n, mode) for m in s["mods"])
        return min([length(m, n, mode) for m in s["mods2"]], default=n) if s.get("mods2") else n
    if op == "res":
        return length(s["mod"], n, mode)
    if op == "cond":
        return min([length(s["t"], n, mode)] + ([length(s["f"], n, mode)] if s["f"] else []))
    return n


def min_T(s, mode="forward", want=1, cap=400):
    T = 1
    while length(s, T, mode) < want and T < cap:
        T += 1
    assume(mode != "forward" or T < cap)
    return T


def chunk_list(draw, maxn=8, maxlen=9, minn=1):
    return draw(st.lists(wi_strategy([(0, 3), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (maxlen, 1)]), min_size=minn, max_size=maxn))


def wi_strategy(pairs):
    return st.sampled_from([v for v, w in pairs for _ in range(w)])


def common(draw):
    return {"B": wi(draw, (1, 12), (2, 12), (3, 4), (draw(I(4, 9)), 4), (draw(I(10, 20)), 2)), "seed": draw(SEED), "vals": pick(draw, *KINDS),
            "layout": pick(draw, *LAYOUTS), "train_mode": flag(draw, 1, 4)}


# ------------------------------------------------------------------ attention, encodings
def rpe(draw, E=None):
    return {"op": "rpe", "E": E or draw(I(2, 6)), "N": rare(draw, 3, 12, 40), "learned": flag(draw, 2, 3), "fu": draw(I(0, 2)),
            "ws": draw(I(0, 60))}


def mha(draw, kind=None, E=None):
    H = rare(draw, 1, 3, 8)
    kind = kind or pick(draw, "single", "retro")
    S = rare(draw, 1, 6, 20)
    return {"op": "mha", "type": kind, "E": H * rare(draw, 1, 3, 8), "H": H, "S": S, "bias": flag(draw, 2, 3),
            "qi": pick(draw, -1, -1, draw(I(-S, S - 1))), "ws": draw(I(0, 60))}


def tel(draw, kind=None):
    H = rare(draw, 1, 2, 5)
    kind = kind or pick(draw, "single", "retro")
    S = rare(draw, 1, 5, 14)
    return {"op": "tel", "type": kind, "E": H * rare(draw, 1, 3, 6), "H": H, "F": rare(draw, 1, 6, 16), "S": S,
            "qi": pick(draw, -1, -1, draw(I(-S, S - 1))), "sof": flag(draw), "act": pick(draw, "relu", "gelu"),
            "ws": draw(I(0, 60))}


def te(draw):
    H = rare(draw, 1, 2, 4)
    return {"op": "te", "E": H * rare(draw, 1, 3, 5), "H": H, "F": rare(draw, 1, 6, 12), "S": rare(draw, 1, 5, 12), "L": draw(I(1, 4)),
            "norm": flag(draw, 1, 3), "act": pick(draw, "relu", "gelu"), "str": flag(draw, 1, 2), "ws": draw(I(0, 60))}


def subject(draw, B, *, leaf=5, net=5, rnn_=2, att=3, rpe_=1, big=False, **netkw):
    """Any streaming module whose step inputs are (B, C, *space): (spec, C, space)."""
    k = wi(draw, ("leaf", leaf), ("net", net), ("rnn", rnn_), ("att", att), ("rpe", rpe_))
    if k == "leaf" and flag(draw, 1, 12):
        return user(draw), rare(draw, 1, 4, 12), spatial_dims(draw, draw(I(1, 3)))
    if k == "leaf":
        return temporal_leaf(draw, big=big, avg_dil=True)
    if k == "net":
        rank = draw(I(1, 3))
        sp = spatial_dims(draw, rank, 1, 3)
        c = draw(I(1, 3))
        if flag(draw, 1, 15):
            return fan(draw, rank, c)[0], c, sp
        netkw.setdefault("att", True)
        s, _, _ = chain(draw, rank, c, sp, draw(I(1, 3)), 1 + int(flag(draw, 1, 3)), **netkw)
        return set_batch(s, B), c, sp
    if k == "rnn":
        c = rare(draw, 1, 4, 12)
        return rnn(draw, c), c, []
    if k == "rpe":
        s = rpe(draw)
        return s, s["E"], []
    s = wi(draw, (mha, 3), (tel, 2), (te, 2))(draw)
    return s, s["E"], []


def frames(draw, spec, extra=6, long=0):
    """A number of frames that lets the subject produce a few outputs."""
    d, s = nets.delay(spec), nets.stride(spec)
    T = d + 1 + draw(I(0, extra)) + (s - 1) * draw(I(0, 2))
    if gt_cap(T):
        T = d + 2
    if long and flag(draw, 1, 30):
        T += draw(I(10, long))
    return T


def gt_cap(T):
    return T > 60


def single_leaf(case):
    """Single precision only for single layers, where rounding errors are not amplified."""
    if nets.leaves(case["spec"]) != [case["spec"]]:
        case["f32"] = False
    return case


def tame(case):
    """Attention: double precision and moderate values (exponentials of logits)."""
    if any(l["op"] in ("mha", "tel", "te") for l in nets.leaves(case["spec"])):
        case["f32"] = False
        if case["vals"] in ("offset", "int"):
            case["vals"] = "normal"
    return case
