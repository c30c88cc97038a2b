"""State snapshots: rollback, transfer, and multiplexing of streams through one module."""
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, layout, same, snap

RULE = "streams were switched (or rolled back) after at least one had state, and at least one output is due afterwards"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["snapshots are copied (get_state may return live references)", "single layers (containers have no get_state)"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"], net=0, leaf=6, rnn_=2, att=0 if gens.flag(draw, 3, 4) else 5, rpe_=1)
    if s["op"] in ("tel", "te"):
        s = gens.mha(draw)
        c, sp = s["E"], []
    n = draw(st.integers(1, 3))
    d = nets.delay(s)
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from([0, 0, 1, 2, min(d + 1, 6), -2]))
        if s["op"] == "rpe":
            k = min(k, s["N"])
        ops.append([gens.wi(draw, ("feed", 6), ("roll", 2), ("move", 1)), draw(st.integers(0, n - 1)), k])
    gens.long_op(draw, ops, 2, s.get("N"))
    case.update(spec=s, shape=[c, *sp], n=n, ops=ops, f32=gens.flag(draw, 1, 5),
                training=s["op"] == "conv" and gens.flag(draw, 1, 4))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def check(case):
    from .c05 import call

    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    make = lambda: nets.build(s, dt, case["training"])  # noqa: E731
    m = make()
    twins = [make() for _ in range(case["n"])]
    snaps = [None] * case["n"]  # None: a stream that did not start
    used = [0] * case["n"]
    switched, out_after = False, False
    last = None

    def enter(i):
        if snaps[i] is None:
            m.clean_state()
        else:
            m.set_state(snap(snaps[i]))

    for j, (kind, i, k) in enumerate(case["ops"]):
        T = max(1, abs(k))
        x = layout(data((case["seed"], j), (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
        if kind == "move":  # the stream continues on another instance
            m = make()
        enter(i)
        if used[i] and (last is not None and last != i or kind != "feed"):
            switched = True
        last = i
        if kind == "roll":  # advance, then roll back
            y = data((case["seed"], j, "r"), (case["B"], c, T, *sp), case["vals"], dt)
            call(m, y, k)
            m.get_state()
            enter(i)
        got = call(m, x, k)
        st_ = m.get_state()
        snaps[i] = None if st_ is None else snap(st_)
        want = call(twins[i], x, k)
        same(got, want, f"op {j}: stream {i}")
        used[i] += T
        if switched and (want is not None and not (isinstance(want, list) and all(o is None for o in want))):
            out_after = True
    return {"nontrivial": switched and out_after, "tags": [s["op"], f"streams{case['n']}"]}
