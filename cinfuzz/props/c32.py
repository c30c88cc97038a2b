"""Sequences that are edited, before or in the middle of a stream."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F64, chunks_of, data, drive, layout, require, same

RULE = "the sequence was edited, a part with memory was in it, and stream outputs were compared after the last edit"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["modules inserted by index or assigned are continual ones (torch.nn.Sequential stores them directly)"]

EDITS = ("append", "extend", "iadd", "add_module", "insert", "set", "del", "pop", "delslice", "prefix")


def part(draw, rank, c, sp):
    if gens.flag(draw, 1, 4):
        return gens.pointwise(draw, rank, c)
    return gens.branch(draw, rank, c, sp, gens.wi(draw, (0, 3), (1, 2), (2, 1)), gens.wi(draw, (1, 5), (2, 1)), c, 1)


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    rank = draw(st.integers(1, 3))
    sp = gens.spatial_dims(draw, rank, 1, 3)
    c = draw(st.integers(1, 3))
    mods = [part(draw, rank, c, sp) for _ in range(draw(st.integers(0, 4)))]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = gens.wi(draw, ("feed", 6), ("forward", 1), ("clean", 1), ("view", 2), ("edit", 12))
        i, j = draw(st.integers(0, 6)), draw(st.integers(0, 6))
        if k == "edit":
            k = draw(st.sampled_from(EDITS))
        new = [part(draw, rank, c, sp) for _ in range(draw(st.integers(1, 3)) if k in ("extend", "iadd") else 1)] if k in EDITS[:6] else []
        ops.append([k, i, j, new])
    case.update(mods=mods, ops=ops, shape=[c, *sp], chunks=gens.chunk_list(draw, 5), extra=gens.rare(draw, 1, 6, 30, 20))
    return case


def strategy(tier):
    return cases(tier)


def by_hand(twins, x):
    """The stream through a list of modules: [(frame, output)]."""
    out = []
    for t in range(x.shape[2]):
        y = x[:, :, t]
        for m in twins:
            y = m.forward_step(y)
            if not isinstance(y, torch.Tensor):
                break
        else:
            out.append((t, y.clone()))
    return out


def check(case):
    with torch.no_grad():
        return _check(case)


def _check(case):  # noqa: C901
    import continual as co

    c, *sp = case["shape"]
    specs = [m for m in case["mods"]]
    mk = lambda s: co.continual(nets.build(s))  # noqa: E731
    twins = [mk(s) for s in specs]
    net = co.Sequential(*[nets.build(s) for s in specs])
    nets.set_mode(net, nets.TRAIN)
    edited = n_out = 0
    tags = []

    def compare(net, twins, n, key, what):
        x = layout(data((case["seed"], key), (case["B"], c, n, *sp), case["vals"], F64), case["layout"])
        ch = chunks_of(case["chunks"], n)
        want = by_hand(twins, x)
        got = drive(net, x, ch)
        n_got = sum(o.shape[2] for _, _, o, _ in got)
        require(n_got == len(want), f"{what}: {n_got} outputs instead of {len(want)} at {[t for t, _ in want]}")
        g = torch.cat([o for _, _, o, _ in got], 2) if got else None
        if want:
            same(g, torch.stack([y for _, y in want], 2), f"{what}: outputs")
        return len(want)

    for key, (k, i, j, new) in enumerate([*case["ops"], ["feed", 0, 0, []]]):
        n = len(specs)
        what = f"after {case['ops'][:key]}: {k}"[-300:]
        built = [nets.build(s) for s in new]
        hand = [mk(s) for s in new]
        for m in hand:
            nets.set_mode(m, nets.TRAIN)
        if k == "append":
            require(net.append(built[0]) is net, f"{what}: append does not return the sequence, so appends cannot be chained")
            specs, twins = specs + new, twins + hand
        elif k == "extend":
            require(net.extend(built) is net, f"{what}: extend does not return the sequence")
            specs, twins = specs + new, twins + hand
        elif k == "iadd":
            net += co.Sequential(*built)
            specs, twins = specs + new, twins + hand
        elif k == "add_module":
            net.add_module(str(n), built[0])
            specs, twins = specs + new, twins + hand
        elif k == "insert":
            i %= n + 1
            net.insert(i, co.continual(built[0]))
            specs, twins = specs[:i] + new + specs[i:], twins[:i] + hand + twins[i:]
        elif k == "set" and n:
            i %= n
            net[i] = co.continual(built[0])
            specs, twins = specs[:i] + new + specs[i + 1:], twins[:i] + hand + twins[i + 1:]
        elif k in ("del", "pop") and n > 1:
            i %= n
            if k == "del":
                del net[i]
            else:
                net.pop(i)
            specs, twins = specs[:i] + specs[i + 1:], twins[:i] + twins[i + 1:]
        elif k == "delslice" and n > 1:
            i = i % (n - 1) + 1
            del net[i:]
            specs, twins = specs[:i], twins[:i]
        elif k == "prefix" and n > 1:
            i = i % n + 1
            net = net[:i]
            specs, twins = specs[:i], twins[:i]
        elif k == "view" and n:
            a, b = sorted((i % (n + 1), j % (n + 1)))
            if a < b:
                compare(net[a:b], twins[a:b], 1 + j, key, f"{what} of part {a}:{b}")
                require(len(net) == n, f"{what}: the sequence has {len(net)} parts instead of {n}")
            continue
        elif k == "clean":
            net.clean_state()
            for m in twins:
                m.clean_state()
            continue
        elif k == "forward" or k == "feed":
            if not n:
                continue
            s = {"op": "seq", "mods": specs}
            T = nets.delay(s) + case["extra"] if key == len(case["ops"]) else 1 + j
            if k == "forward":
                T = max(1, j)
                if gens.length(s, T, "forward") > 0:
                    x = data((case["seed"], key), (case["B"], c, T, *sp), case["vals"], F64)
                    y = x
                    for m in twins:
                        y = m.forward(y)
                    same(net.forward(x), y, f"{what}: forward")
                    same(net(x), y, f"{what}: call")
                continue
            n_out = compare(net, twins, T, key, what)
            continue
        else:
            continue
        edited += 1
        tags.append(k)
        require(type(net) is co.Sequential, f"{what}: the sequence became a {type(net).__name__}")
        require(len(net) == len(specs) and len(list(net)) == len(specs), f"{what}: {len(net)} parts instead of {len(specs)}")
        # as if built anew from the parts
        fresh = co.Sequential(*[nets.build(s) for s in specs])
        for a in ("delay", "receptive_field", "stride", "padding"):
            u, v = getattr(net, a), getattr(fresh, a)
            u, v = [int(q[0]) if isinstance(q, (tuple, list)) else int(q) for q in (u, v)]
            require(u == v, f"{what}: {a} {u} instead of {v}")
        u, v = list(net.state_dict().values()), list(fresh.state_dict().values())
        require(len(u) == len(v), f"{what}: {len(u)} instead of {len(v)} entries in the state dict")
        for p, q in zip(u, v):
            same(p, q, f"{what}: entry of the state dict")
    mem = any(nets.receptive_field(q) > 1 for q in specs)
    return {"nontrivial": bool(edited and mem and n_out), "tags": sorted(set(tags))}
