"""Which entries are executed, with which bounds, for each property."""

PROPS = ["C%02d" % i for i in range(1, 20)]

PREMADE = ["basic", "deep", "wide", "cycle", "robust", "cycle_pre", "robust_pre"]
RM = ["callstack", "queue", "stack"]

ASSUMPTIONS = [
    "the LLVM IR that rustc emits (opt-level 2, overflow checks and debug assertions on, 64-bit) stands for the code",
    "allocation never fails; hash keys of std's RandomState are fixed",
    "claims hold within the stated bounds only",
]


def job(name, entry, *args, covers=(), deep=False, bounds="", steps=0):
    return dict(name=name, entry=entry, args=list(args), covers=list(covers), deep=deep, bounds=bounds, steps=steps)


def tree(v, k, d, covers=(1, 2, 3, 4, 5), **kw):
    return job("tree-%s-K%d-D%d" % (PREMADE[v], k, d), "tree", v, k, d, covers=covers,
               bounds="all pairs of unfoldings with at most %d positions and %d edges per node; any local results, "
                      "any edge counts on each side, any identical nodes" % (k, d), **kw)


def limited(rm, t, k, d, covers=(1, 2, 3, 4), **kw):
    return job("limited-%s-u%s-K%d-D%d" % (RM[rm], t or "size", k, d), "tree_limited", rm, t, k, d, covers=covers,
               bounds="as tree, with every limit of the type", **kw)


def how_name(h):
    if h < 100:
        return PREMADE[h]
    if h >= 30000:
        return "limited-" + RM[h - 30000]
    if h < 10000:
        return "%s-cfg%d%s" % (RM[h % 1000 // 100 - 1], h % 100, "-hash" if h >= 1000 else "")
    return "pre%d-cfg%d" % ((h - 10000) // 100, h % 100)


def pool(entry, how, n, e, d, bits, acyclic=0, covers=(1, 3), **kw):
    return job("%s-%s-N%d-E%d-D%d-b%d%s" % (entry, how_name(how), n, e, d, bits, "-dag" if acyclic else ""), entry,
               how, n, e, d, bits, acyclic, covers=covers,
               bounds="all graphs%s of at most %d nodes (both roots among them), %d edges in total, %d per node, "
                      "%d-bit labels, any random numbers" % (" without cycles" if acyclic else "", n, e, d, bits), **kw)


def prechk(combo, cfg, n, e, d, bits, acyclic=0, value=1, covers=(1, 3), **kw):
    return job("precheck-%d-cfg%d-N%d-E%d-D%d%s" % (combo, cfg, n, e, d, "-dag" if acyclic else ""), "pool_precheck",
               combo, cfg, n, e, d, bits, acyclic, value, covers=covers,
               bounds="as pool, prechecked against not prechecked", **kw)


SHAPES = ["list", "leaf-next", "next-leaf", "ladder", "cycle", "star", "doubly", "comb", "ladder-cycle"]
LIST, LEAF_NEXT, NEXT_LEAF, LADDER, CYCLE, STAR, DOUBLY, COMB, LADDER_CYCLE = range(9)
TREELIKE = [LIST, LEAF_NEXT, NEXT_LEAF, STAR, COMB]
LOOPS = [CYCLE, DOUBLY, LADDER_CYCLE]
CS = [3, 4, 5, 6]
ALL = list(range(7))
LIM = [10, 11, 12]


def h(rm, cfg, hash=False):
    """The generic interleave with a recursion mode and a configuration (see harness/src/variants.rs)."""
    return 100 * (rm + 1) + cfg + (1000 if hash else 0)


def hp(combo, cfg):
    return 10000 + 100 * combo + cfg


def big(how, shape, la, lb, kinds=5, covers=(1, 3, 4, 5), **kw):
    return job("big-%s-%s-%d-%d" % (how_name(how), SHAPES[shape], la, lb), "big", how, shape, la, lb, kinds,
               covers=covers, bounds="two graphs of that shape with %d and %d nodes and one irregularity (a differing "
               "label, missing or additional edges, an identical node) at any place" % (la, lb), **kw)


def far(how, shape, n, w=4, **kw):
    """Beyond 16 bits, tables and buffers that grew: as big, at one of the last places only."""
    loop = shape in LOOPS
    c = (1, 3, 5) if shape in (STAR, COMB) else (1, 3, 4, 5) if not loop or shape == CYCLE else (1, 3, 4)
    j = big(how, shape, n, n + loop, 10 * w + 5, covers=c, steps=800_000_000, **kw)
    j["bounds"] += " among the last %d" % w
    return j


def biglim(rm, t, shape, l, kinds=5, covers=(2, 3), **kw):
    return job("biglim-%s-u%s-%s-%d" % (RM[rm], t or "size", SHAPES[shape], l), "big_limited", rm, t, shape, l, kinds,
               covers=covers, bounds="as big, with every limit of the type", **kw)


def bigpre(combo, cfg, shape, la, lb, kinds=5, covers=(1, 3, 4, 5, 6), **kw):
    rm = [0, 1, 2, 1, 2][combo]
    return job("bigpre-%d-cfg%d-%s-%d-%d" % (combo, cfg, SHAPES[shape], la, lb), "big_precheck", hp(combo, cfg),
               h(rm, cfg), shape, la, lb, kinds, covers=covers,
               bounds="as big, prechecked against not prechecked", **kw)


def prem(v, shape, la, lb, covers=(1, 3, 4, 5, 6), **kw):
    return job("bigpre-%s-%s-%d-%d" % (PREMADE[v], SHAPES[shape], la, lb), "big_precheck", v, v - 2, shape, la, lb, 5,
               covers=covers, bounds="as big, prechecked against not prechecked", **kw)


def swap(how, k, d, covers=(1, 2, 3), **kw):
    n = PREMADE[how] if how < 100 else "limited-" + RM[how - 100]
    return job("swap-%s-K%d-D%d" % (n, k, d), "tree_swap", how, k, d, covers=covers,
               bounds="as tree, with ordered labels, both ways around", **kw)


def cmpty(how, k, d, b, covers=(1, 2, 3), **kw):
    n = PREMADE[how] if how < 100 else "limited-" + RM[how - 100]
    return job("cmp-%s-K%d-D%d-%s" % (n, k, d, "bool" if b else "Ordering"), "tree_cmp", how, k, d, b, covers=covers,
               bounds="as tree, with results of type %s" % ("bool" if b else "Ordering"), **kw)


def selfeq(how, n, e, d, **kw):
    if how >= 20000:
        nm = "limited-%s-u%s" % (RM[(how - 20000) // 1000], how % 1000 or "size")
    else:
        nm = how_name(how)
    return job("self-" + nm, "pool_self", how, n, e, d, covers=(1, 2) if how >= 20000 else (1,),
               bounds="any node compared with itself", **kw)


def poollim(rm, n, e, d, bits, most, acyclic=0, **kw):
    return job("poollim-%s-N%d-E%d-D%d-L%d" % (RM[rm], n, e, d, most), "pool_limited", rm, n, e, d, bits, acyclic, most,
               covers=(1, 3, 4, 6), bounds="as pool, limited to 0 to %d pairs" % most, **kw)


def star(how, ty, n, **kw):
    return job("star-%d-%s" % (how, ["u8", "i8", "odd"][ty]), "index_star", how, ty, n, covers=(1, 2, 3, 4),
               bounds=["any number of edges up to 256 on both sides, differing leaf anywhere or nowhere",
                       "as before up to 128", "index types with any end up to 13"][ty], **kw)


def merging(how, extra, swap=0, **kw):
    return job("merging-%s-X%d%s" % (how_name(how), extra, "-swap" if swap else ""), "merging", how, extra, swap,
               covers=(1,) if extra >= 16 else (1, 2), bounds="two graphs over one pool of 16 nodes: classes of 8, 4, 2 and 2 of these, each made "
               "in five ways, then %d pairs of their first or last nodes; %s"
               % (extra % 16, "no difference" if extra >= 16 else "any labels of the classes and one odd node"), **kw)


MODES = ["callstack", "queue", "stack", "vec-own", "deque-own", "failing-callstack", "failing-other"]


def modes(how, k, d, **kw):
    c = (1, 2, 3, 5) if how >= 5 else (1, 2, 3, 4, 5) if how >= 3 else (1, 2, 3, 4)
    return job("modes-%d-K%d-D%d" % (how, k, d), "modes", how, k, d, covers=c,
               bounds="unfoldings of at most %d positions; the descend mode and (from 3 up) the recursion mode answer "
                      "yes, no or an error at any step" % k, **kw)


def modespre(how, limit, k, d, covers=(), **kw):
    return job("modespre-%d-L%d-K%d-D%d" % (how, limit, k, d), "modes_precheck", how, limit, k, d, covers=covers,
               bounds="as modes, prechecked with that precheck limit", **kw)


def classes(t, calls, pre, mode, c12=False, **kw):
    return job("classes-%d-%d-%d-%d" % (t, calls, pre, mode), "classes", t, calls, pre, mode,
               covers=((5, 6) if mode == 1 else (5,)) if c12 else (1, 2, 3),
               bounds="every history of %d pairs%s" % (calls, " after %d pairs of fresh nodes" % pre if pre else ""), **kw)


def jobs(prop, tier):
    q = tier != "thorough"
    f = globals()[prop]
    js = f(q)
    if isinstance(js, tuple):
        js, extra = js
    else:
        extra = {}
    assert len({j["name"] for j in js}) == len(js), sorted(j["name"] for j in js)
    for j in js:
        j["features"] = features(j)
    r = dict(jobs=js, time=700 if q else 5400, deep_time=1800, max_steps=20_000_000, samples=2 if q else 6,
             bounds="per job, see jobs")
    r.update(extra)
    return r


def features(j):
    """What has to be compiled for a job."""
    e, a = j["entry"], j["args"]
    f = {e}

    def how(x):
        if 100 <= x < 10000:
            f.update(["hash" if x >= 1000 else "lin", "cfg%d" % (x % 100)])
        elif 10000 <= x < 20000:
            f.update(["pre", "cfg%d" % (x % 100)])

    if e in ("pool", "pool_swap", "pool_trans", "pool_phases", "big", "merging"):
        how(a[0])
        if a[0] >= 30000:
            f.add("ample")
    elif e == "pool_self":
        how(a[0])
        if a[0] >= 20000:
            f.add("self_lim")
    elif e == "pool_precheck":
        f.update(["pre", "lin", "cfg%d" % a[1]])
    elif e == "big_precheck":
        how(a[0])
        how(a[1])
    elif e == "tree_swap":
        f.add("tree_premade" if a[0] < 100 else "tree_lim")
    return f


def C01(q):
    """Verdicts of the premade cycle-safe functions on every graph of up to 4 nodes / 8 edges, and of the generic
    interleave with small phase limits and arbitrary random numbers; long regular cyclic and acyclic shapes with one
    irregularity anywhere."""
    o = [pool("pool", v, 4, 8, 2, 1, covers=(1, 2, 3, 4)) for v in CS]
    o += [pool("pool", v, 3, 6, 3, 1, covers=(1, 2, 3, 4)) for v in CS]
    for rm in range(3):
        o += [pool("pool", h(rm, c), 3, 6, 2, 1, covers=(1, 2, 3) + ((5,) if c in (1, 2, 25) else ()))
              for c in (1, 2, 4, 5, 6, 25)]
        o += [pool("pool", h(rm, c), 4, 5, 2, 1, covers=(1, 2, 3)) for c in (2, 3)]
        o += [pool("pool", h(rm, 2, True), 3, 5, 2, 1, covers=(1, 2, 3)),
              pool("pool", h(rm, 9), 4, 6, 2, 1, covers=(1, 2, 3))]
    o += [pool("pool", hp(c, 6), 3, 6, 2, 1, covers=(1, 2, 3)) for c in range(5)]
    for v in CS:
        o += [big(v, s, 90, 90, covers=(1, 3, 4)) for s in (LADDER, LADDER_CYCLE, DOUBLY, COMB)]
        o += [big(v, CYCLE, 89, 90), big(v, LIST, 60, 60), big(v, LIST, 420, 420) if v > 4 else big(v, STAR, 45, 45)]
    o += [big(v, s, 900, 901, covers=(1, 3, 4)) for v in (4, 6) for s in (CYCLE, LADDER_CYCLE)]
    o += [far(v, s, 33000 if s == CYCLE else 9000) for v in (4, 6) for s in LOOPS] + [far(3, CYCLE, 400)]
    o += [big(h(rm, c), s, 7, 8, covers=(1, 3, 4)) for rm in range(3) for c in (2, 5) for s in (CYCLE, DOUBLY)]
    o += [merging(v, 1) for v in CS + [h(rm, 9) for rm in range(3)]]
    o += [big(v, STAR, 70, 70, covers=(1, 3, 5)) for v in CS]
    if not q:
        o += [pool("pool", v, 5, 8, 2, 1, covers=(1, 2, 3, 4)) for v in CS]
        o += [pool("pool", v, 4, 8, 3, 1, covers=(1, 2, 3, 4)) for v in CS]
        o += [pool("pool", h(rm, c), 4, 6, 2, 1, covers=(1, 2, 3)) for rm in range(3) for c in (1, 2, 3, 4, 5, 6)]
        o += [pool("pool", v, 5, 10, 2, 1, deep=True) for v in CS]
        for v in CS:
            o += [big(v, s, 900, 901, covers=(1, 3, 4)) for s in LOOPS + [LADDER]]
    return o


def C02(q):
    """The seven premade functions and the limited ones with an ample limit against a specification computed on the
    unfolding (every pair of trees and, with identical nodes, of shared parts), with three types of results; DAGs of the
    pool; long chains, stars, combs and (cycle-safe) ladders."""
    o = [tree(v, 9 if q else 11, 2) for v in ALL] + [tree(v, 8 if q else 10, 3) for v in ALL]
    o += [limited(rm, 64, 8, 2) for rm in range(3)]
    o += [cmpty(v, 8, 2, b) for v in ALL for b in (0, 1)]
    o += [pool("pool", v, 4 if q else 5, 6, 2, 1, 1) for v in ALL]
    for v in ALL:
        m = 260 if q else 1000
        o += [big(v, s, m, m, covers=(1, 3, 4, 5) if s != STAR else (1, 3, 5)) for s in TREELIKE]
        if v >= 3:
            o += [big(v, LADDER, 120 if q else 900, 120 if q else 900)]
        else:
            o += [big(v, LADDER, 8, 8)]
    o += [star(how, 1, 128) for how in ALL + LIM]
    o += [far(v, s, 70000) for v in (1, 2, 6) for s in TREELIKE]
    return o


def C03(q):
    """Counting local comparisons against a bound linear in the branch nodes, on every small graph with any random
    numbers (all kinds of configurations, including a redefined precheck limit only), on long shapes for the premade
    functions; a path that does not end exhausts the budget of steps, which is reported as well."""
    o = [pool("pool", h(rm, c), 3, 6, 2, 1, covers=(1, 3)) for rm in range(3) for c in (1, 2, 4, 5, 20, 21, 25)]
    o += [pool("pool", h(rm, c), 3, 4, 2, 1, covers=(1, 3)) for rm in range(3) for c in (29, 30)]
    o += [pool("pool", h(rm, 7), 4, 6, 2, 1, covers=(1, 3)) for rm in range(3)]
    o += [pool("pool", v, 4, 8, 2, 1) for v in CS]
    o += [pool("pool", hp(c, f), 3, 5, 2, 1) for c in range(5) for f in (20, 2)]
    for v in CS:
        o += [big(v, s, 90, 90, covers=(1, 3, 4)) for s in (LADDER, LADDER_CYCLE, DOUBLY)]
        o += [big(v, CYCLE, 89, 90)]
    o += [big(v, s, 900, 901, covers=(1, 3, 4)) for v in (4, 6) for s in (CYCLE, LADDER_CYCLE, LADDER)]
    o += [far(v, s, 33000 if s == CYCLE else 9000) for v in (4, 6) for s in LOOPS + [LADDER]] + [far(3, CYCLE, 400)]
    o += [big(h(rm, c), s, 8, 8, covers=(1, 3, 4)) for rm in range(3) for c in (20, 2) for s in (LADDER, LADDER_CYCLE)]
    o += [merging(v, 18) for v in (3, 4)]
    if not q:
        o += [pool("pool", h(rm, c), 4, 6, 2, 1) for rm in range(3) for c in (1, 2, 5, 20, 21, 25)]
        for v in CS:
            o += [big(v, s, 920, 921, covers=(1, 3, 4)) for s in LOOPS + [LADDER]]
    return o


def C04(q):
    """Results and order of local comparisons against a reference traversal of the unfolding in the documented order;
    exact value for every graph with the breadth-first functions, for DAGs with the depth-first ones."""
    o = [tree(v, 9 if q else 11, 2) for v in ALL] + [tree(v, 8 if q else 10, 3) for v in ALL]
    o += [cmpty(v, 8, 2, 0) for v in ALL + [100, 101, 102]] + [cmpty(v, 7, 3, 1) for v in ALL]
    o += [pool("pool", v, 4, 6 if q else 8, 2, 1) for v in (4, 6)]
    o += [pool("pool", v, 4, 6, 2, 1, 1) for v in (0, 2, 3, 5)]
    o += [pool("pool", h(1, c), 3, 6, 2, 1) for c in (2, 4, 6, 25)]
    o += [pool("pool", h(rm, c), 4, 5, 2, 1, 1) for rm in (0, 2) for c in (2, 5)]
    for v in ALL:
        m = 260 if q else 1000
        o += [big(v, s, m, m, covers=(1, 3, 4, 5) if s != STAR else (1, 3, 5)) for s in TREELIKE]
    o += [merging(v, 1) for v in CS]
    o += [star(how, 1, 128) for how in ALL + LIM]
    o += [far(v, s, 70000) for v in (1, 2, 4) for s in TREELIKE]
    return o


def C05(q):
    """Each comparison is executed both ways around on the same symbolic graphs with the same random numbers."""
    o = [swap(v, 9 if q else 11, 2) for v in ALL] + [swap(v, 7 if q else 9, 3) for v in ALL]
    o += [swap(100 + rm, 8, 2, covers=(1, 2, 3, 4)) for rm in range(3)]
    o += [pool("pool_swap", v, 4, 6, 2, 2 if q else 3) for v in CS]
    o += [pool("pool_swap", h(rm, c), 3, 5, 2, 1) for rm in range(3) for c in (2, 5, 6)]
    o += [pool("pool_swap", h(rm, 2, True), 3, 4, 2, 1) for rm in range(3)]
    o += [pool("pool_swap", hp(c, 6), 3, 6, 2, 1) for c in range(5)]
    o += [merging(v, 18, 1) for v in (3, 4)] + [merging(v, 1, 1) for v in CS]
    if not q:
        o += [pool("pool_swap", v, 4, 8, 2, 1) for v in CS]
        o += [pool("pool_swap", h(rm, c), 4, 5, 2, 1) for rm in range(3) for c in (2, 5)]
    o += [star(how, 2, 12) for how in ALL + LIM] + [star(how, 1, 128) for how in (1, 2, 6)]
    return o


def C06(q):
    """Three roots in one pool of nodes: all pairs of comparisons of DAGs in every variant, and transitivity of
    equivalence on cyclic graphs with the cycle-safe ones."""
    o = [pool("pool_trans", v, 4, 5, 2, 1, 1, covers=(1, 2)) for v in ALL]
    o += [pool("pool_trans", v, 4, 4, 2, 2, 1, covers=(1, 2)) for v in ALL]
    o += [pool("pool_trans", v, 3, 6, 2, 1, 0, covers=(2, 3)) for v in CS]
    o += [pool("pool_trans", h(rm, 2), 3, 4, 2, 1, 1, covers=(1, 2)) for rm in range(3)]
    o += [pool("pool_trans", h(rm, 2), 3, 4, 2, 1, 0, covers=(2, 3)) for rm in range(3)]
    o += [pool("pool_trans", 30000 + rm, 4, 4, 2, 2, 1, covers=(1, 2)) for rm in range(3)]
    o += [pool("pool_trans", hp(c, 6), 3, 4, 2, 1, covers=(2, 3)) for c in range(5)]
    o += [job("startrans-%d-%d-%d" % a, "star_trans", *a, covers=(1, 2), bounds=("three nodes of almost the same numbers of edges "
              "up to %d, one irregular leaf near the end each" if a[1] == 2 else "three nodes of up to %d edges, one irregular "
              "leaf each") % a[2]) for a in [(how, t, 6) for how in ALL + LIM for t in (0, 1)] + [(how, 0, 9) for how in ALL]
          + [(how, 2, 72 if q else 250) for how in ALL + LIM]]
    if not q:
        o += [pool("pool_trans", v, 5, 6, 2, 1, 1, covers=(1, 2)) for v in ALL]
        o += [pool("pool_trans", v, 4, 8, 2, 1, 0, covers=(2, 3)) for v in CS]
    return o


def C07(q):
    """Prechecked against not prechecked, the same random numbers, for the five convertible pairs of recursion modes
    and several limits (the precheck finishes, finds a difference or is aborted); long shapes that cross the default
    limit of 400."""
    o = [prechk(c, f, 4, 6, 2, 1) for c in range(5) for f in (6,)]
    o += [prechk(c, f, 3, 5, 2, 1) for c in range(5) for f in (2, 4, 5, 20)]
    o += [prechk(c, 3, 3, 4, 3, 1) for c in range(5)]
    o += [bigpre(c, f, s, 9, 9, covers=(1, 3, 4) if s in LOOPS else (1, 3, 4, 5))
          for c in range(5) for f in (4, 6) for s in (LEAF_NEXT, CYCLE)]
    o += [prem(v, LIST, 420, 420) for v in (5, 6)]
    o += [prem(v, s, 45, 46, covers=(1, 3, 4)) for v in (5, 6) for s in LOOPS]
    o += [prem(v, STAR, 45, 45, covers=(1, 3, 5)) for v in (5, 6)]
    for s, n in ((LIST, 20000), (CYCLE, 9000)):
        j = job("bigpre-robust_pre-%s-%d-far" % (SHAPES[s], n), "big_precheck", 6, 4, s, n, n + (s == CYCLE), 45,
                covers=(1, 3, 4, 6), steps=800_000_000, bounds="as big, irregular at one of the last 4, prechecked against not")
        o.append(j)
    if not q:
        o += [prechk(c, f, 4, 6, 2, 1) for c in range(5) for f in (2, 3, 4, 5)]
        o += [prem(v, s, 230, 230, covers=(1, 3, 4, 5)) for v in (5, 6) for s in (LEAF_NEXT, NEXT_LEAF)]
        o += [prem(v, s, 120, 121, covers=(1, 3, 4)) for v in (5, 6) for s in LOOPS]
    return o


def C08(q):
    """Every limit of every supported type (symbolic), against the reference traversal."""
    o = [limited(rm, t, 8, 2) for rm in range(3) for t in (8, 16, 32, 64, 128, 0)]
    o += [limited(rm, 8, 7, 3) for rm in range(3)]
    o += [cmpty(100 + rm, 7, 2, b, covers=(1, 2, 3, 4)) for rm in range(3) for b in (0, 1)]
    o += [biglim(rm, 8, s, 120) for rm in range(3) for s in (LIST, LEAF_NEXT, COMB)]
    o += [biglim(rm, 16, s, 24) for rm in range(3) for s in (STAR, NEXT_LEAF)]
    o += [biglim(rm, 8, s, 12, 4) for rm in range(3) for s in LOOPS]
    o += [poollim(rm, 3, 6, 2, 1, 8) for rm in range(3)] + [poollim(rm, 4, 6, 2, 1, 7) for rm in range(3)]
    if not q:
        o += [limited(rm, t, 10, 2) for rm in range(3) for t in (8, 16, 32, 64, 128, 0)]
        o += [biglim(rm, 16, s, 300) for rm in range(2) for s in (LIST, COMB)]
        o += [biglim(rm, 8, s, 40, 4) for rm in range(3) for s in LOOPS]
    return o


def C09(q):
    """Monitors in the node type: order and number of calls, pairing of edges, arguments on their sides."""
    o = [tree(v, 9 if q else 11, 2) for v in ALL] + [tree(v, 8 if q else 10, 3) for v in ALL]
    o += [limited(rm, 8, 8, 2) for rm in range(3)]
    o += [modes(m, 7, 2) for m in range(7)]
    o += [star(how, 1, 128) for how in ALL + LIM] + [star(how, 2, 12) for how in (0, 1, 2)]
    o += [pool("pool", v, 4, 6, 2, 1, covers=(1, 2, 3, 4)) for v in CS] + [pool("pool", v, 3, 6, 3, 1, covers=(1, 2, 3, 4)) for v in CS]
    o += [pool("pool", h(rm, c), 3, 6, 2, 1) for rm in range(3) for c in (2, 25)]
    o += [pool("pool", hp(c, f), 3, 5, 2, 1) for c in range(5) for f in (6,)]
    o += [poollim(rm, 3, 6, 2, 1, 8) for rm in range(3)]
    return o


def C10(q):
    """Each provided index type from an arbitrary value; whole comparisons over the whole range of 8-bit types and of
    custom ones with any end; wider types to some depth."""
    o = [job("step-%d" % t, "index_step", t, covers=(1, 2), bounds="every value of the type") for t in range(12)]
    for how in ALL + LIM:
        o += [star(how, 0, 256), star(how, 1, 128), star(how, 2, 12)]
    hw = (1, 2, 4) if q else ALL
    o += [job("wide-%d-%d" % (how, t), "index_wide", how, t, 300, covers=(1, 2, 4), bounds="some numbers of edges up to "
              "300") for how in hw for t in range(2, 12)]
    if not q:
        o += [job("wide-%d-%d-64k" % (how, t), "index_wide", how, t, 65536 if t == 2 else 32768, covers=(1, 2, 4),
                  bounds="up to the whole range of 16-bit types") for how in (1, 2) for t in (2, 3)]
    return o, dict(max_steps=60_000_000)


def C11(q):
    """Every history of pairs up to a length (symbolic identities), with three kinds of tables and references; merging
    of prepared classes; long histories in five ways of joining."""
    o = [classes(0, 4, 0, 0), classes(1, 4, 0, 0), classes(2, 5, 0, 2), classes(0, 5, 0, 2), classes(1, 4, 8, 1),
         classes(0, 4, 4, 1)]
    o += [job("long-300", "classes_long", 300, 2, 2, covers=(1, 2), bounds="two classes of 300 and 150 pairs joined in "
              "five ways each, then two merges")]
    o += [pool("pool", h(rm, 9), 3, 6, 2, 1, covers=(1, 2, 3)) for rm in range(3)]
    if not q:
        o += [classes(0, 6, 0, 2), classes(2, 6, 0, 2), classes(1, 5, 0, 0), classes(1, 5, 8, 1), 
              job("long3", "classes_long", 120, 3, 3, covers=(1, 2), bounds="three classes, three merges")]
    o += [job("long-70000", "classes_long", 70000, 1, 0, covers=(), steps=800_000_000,
              bounds="a class of 70000 pairs joined in five ways")]
    return o


def C12(q):
    """As C11, inspecting the links after every call through a reference-counted type of our own."""
    o = [classes(1, 4, 0, 0, True), classes(1, 5, 0, 2, True), classes(1, 4, 8, 1, True), classes(1, 4, 4, 1, True)]
    o += [job("long-600", "classes_long", 600, 2, 1, covers=(1, 2, 5, 6), bounds="two classes of 600 and 300 pairs joined "
              "in five ways each, then a merge")]
    if not q:
        o += [classes(1, 6, 0, 2, True), classes(1, 5, 8, 1, True), classes(1, 5, 4, 1, True),
              job("long3", "classes_long", 120, 3, 3, covers=(1, 2, 5, 6), bounds="three classes, three merges")]
    o += [job("long-70000", "classes_long", 70000, 1, 0, covers=(5, 6), steps=800_000_000,
              bounds="a class of 70000 pairs joined in five ways")]
    return o


def phases(cfg, calls, mode, covers=(1, 2, 3, 4), **kw):
    how = ["any pairs known", "known at up to two symbolic places", "known only in the last calls, extreme draws"][mode]
    return job("phases-%d-%d-%d" % (cfg, calls, mode), "phases", cfg, calls, mode, covers=covers,
               bounds="%d calls, %s" % (calls, how), **kw)


def C13(q):
    """Whole comparisons of arbitrary graphs, pair by pair and draw by draw, against a model of the algorithm; every
    sequence of known and unknown pairs and random numbers against an automaton, for small limits, the defaults
    and the extremes of 16 bits."""
    o = [phases(1, 10, 0), phases(2, 10, 0), phases(3, 10, 0), phases(4, 10, 0), phases(5, 10, 0), phases(6, 11, 0),
         phases(7, 11, 0), phases(8, 12, 0), phases(20, 10, 0), phases(21, 9, 0), phases(22, 24, 1), phases(23, 24, 1),
         phases(24, 24, 1), phases(15, 50, 1), phases(0, 60, 1), phases(0, 900, 2), phases(9, 65542, 2),
         phases(10, 65542, 2), phases(12, 32780, 2), phases(13, 32780, 2), phases(14, 32780, 2), phases(25, 70000, 2),
         phases(11, 140000, 2)]
    o += [pool("pool_phases", h(rm, c), 3, 6, 2, 1, covers=(1, 2, 3, 4, 5)) for rm in range(3) for c in (1, 2, 4, 5, 25)]
    o += [pool("pool_phases", h(rm, c), 4, 5, 2, 1, covers=(1, 2, 3, 4)) for rm in range(3) for c in (2, 3)]
    o += [pool("pool_phases", h(rm, 2, True), 3, 5, 2, 1, covers=(1, 2, 3, 4)) for rm in range(3)]
    if not q:
        o += [phases(1, 14, 0), phases(2, 13, 0), phases(5, 13, 0), phases(6, 14, 0), phases(7, 14, 0), phases(8, 16, 0),
              phases(15, 70, 1)]
    return o, dict(max_steps=60_000_000)


def C14(q):
    """Every internal state and every non-zero 16-bit bound.  In the quick check 128-bit products of `oorandom` and 64-bit ones of the others are
    over-approximated where noted; loops that draw again are cut after a number of rounds."""
    o = [job("rng-%d-%d-%d" % a, "rng", *a, covers=(1, 2) if a[1] else (1, 2, 3),
             bounds="every internal state" + ("" if a[1] else " and bound") + (", products arbitrary" if a[2] else ""))
         for a in ((0, 0, 0), (1, 0, 1), (2, 0, 1), (3, 0, 0), (1, 1, 0))]
    o += [job("rng-moves-%d" % w, "rng", w, 3, 1, covers=(1,), bounds="the first 3 draws, any bounds") for w in (10, 11, 12, 13)]
    # no comparison depends on the numbers
    o += [pool("pool", h(rm, c), 3, 5, 2, 1, covers=(1, 3)) for rm in range(3) for c in (2, 25)]
    return o


REFS = ["thin", "slice", "dyn", "smart", "box", "rc", "arc", "sub-slices", "str"]


def C15(q):
    """All pairs and triples of a set of references chosen symbolically, with every operator; hashing is recorded."""
    return [job("refid-" + n, "refid", i, covers=(1, 2, 3) + ((4,) if i in (1, 2, 7, 8) else ()),
                bounds="three references chosen among several objects and addresses") for i, n in enumerate(REFS)]


def C16(q):
    """Handles alive at every local comparison against what the pending siblings justify; after every comparison (ended,
    limited, aborted, failed) all handles dropped and the heap as before."""
    o = [tree(v, 9 if q else 11, 2) for v in ALL] + [tree(v, 7 if q else 9, 3) for v in (1, 2, 4, 6)]
    o += [limited(rm, 8, 8, 2) for rm in range(3)]
    o += [modes(m, 7, 2) for m in range(7)] + [modespre(m, 3, 7, 2) for m in range(6)]
    o += [pool("pool", v, 3, 6, 2, 1) for v in CS]
    o += [pool("pool", h(rm, 2), 3, 5, 2, 1) for rm in range(3)] + [pool("pool", hp(c, 4), 3, 5, 2, 1) for c in range(5)]
    for v in ALL:
        m = 150 if q else 600
        o += [big(v, s, m, m, covers=(1, 3, 4, 5) if s != STAR else (1, 3, 5)) for s in TREELIKE]
    o += [biglim(rm, 8, s, 30) for rm in range(3) for s in (LIST, COMB)]
    o += [big(h(2, c), s, 60, 60, covers=(1, 3, 5)) for c in (7,) for s in (LIST, LEAF_NEXT, STAR, COMB)]
    o += [big(v, s, 45, 45, covers=(1, 3, 4)) for v in CS for s in LOOPS]
    o += [merging(v, 18) for v in (3, 6)]
    o += [poollim(rm, 3, 6, 2, 1, 8) for rm in range(3)]
    o += [far(v, s, 70000) for v in (1, 2, 4, 6) for s in TREELIKE]
    return o


def C17(q):
    """The lowest stack pointer seen in any callback, on long chains, combs, wide stars, cycles, through limited,
    prechecked, aborted and failing comparisons; a constant bound."""
    vs = [1, 2, 4, 6]
    o = []
    for v in vs:
        m = 300 if q else 1200
        o += [big(v, s, m, m, covers=(1, 3, 4, 5) if s != STAR else (1, 3, 5)) for s in TREELIKE]
    o += [big(v, s, 100, 101, covers=(1, 3, 4)) for v in (4, 6) for s in LOOPS + [LADDER]]
    o += [big(6, LIST, 420, 420)]
    o += [biglim(rm, t, s, l) for rm, t, l in ((1, 8, 110), (2, 8, 110), (1, 16, 80), (2, 0, 80))
          for s in (LIST, LEAF_NEXT, NEXT_LEAF)]
    o += [biglim(rm, 8, COMB, 60) for rm in (1, 2)]
    o += [big(h(rm, c), s, 60, 60, covers=(1, 3, 4)) for rm in (1, 2) for c in (7,) for s in (LIST, LEAF_NEXT, CYCLE)]
    o += [big(hp(c, 7), s, 60, 60, covers=(1, 3, 4)) for c in (1, 2, 3, 4) for s in (LIST, LEAF_NEXT, CYCLE)]
    o += [tree(v, 8, 2) for v in vs] + [limited(rm, 8, 7, 2) for rm in (1, 2)]
    o += [pool("pool", v, 4, 6, 2, 1) for v in (4, 6)]
    o += [poollim(rm, 3, 6, 2, 1, 8) for rm in (1, 2)]
    o += [job("long-600", "classes_long", 600, 2, 1, covers=(1, 2), bounds="two classes of 600 and 300 pairs joined in five "
              "ways each, then a merge; lookups and release")]
    o += [far(v, s, 70000) for v in (1, 2, 4, 6) for s in TREELIKE]
    o += [job("long-70000", "classes_long", 70000, 1, 0, covers=(), steps=800_000_000,
              bounds="a class of 70000 pairs joined in five ways")]
    return o


def C18(q):
    """Custom modes answering anything, or failing, at every step, against a reference traversal; our own recursion modes
    as well as the premade ones."""
    k = 8 if q else 9
    o = [modes(m, k, 2) for m in range(7)] + [modes(m, 7, 3) for m in range(7)]
    o += [modespre(m, l, 7, 2) for m in range(6) for l in range(5)]
    return o


def C19(q):
    """Identical nodes at any position of the unfolding, in every variant; a node compared with itself."""
    o = [tree(v, 9 if q else 11, 2) for v in ALL] + [tree(v, 8 if q else 10, 3) for v in ALL]
    o += [limited(rm, t, 8, 2) for rm in range(3) for t in (8, 128)]
    o += [modes(m, 7, 2) for m in range(7)]
    o += [selfeq(v, 3, 4, 2) for v in ALL + [h(rm, c) for rm in range(3) for c in (0, 2, 6)]
          + [h(rm, 2, True) for rm in range(3)] + [hp(c, f) for c in range(5) for f in (2, 6)]
          + [20000 + 1000 * rm + t for rm in range(3) for t in (0, 8, 16, 32, 64, 128)]]
    o += [pool("pool", v, 4, 6, 2, 1) for v in CS] + [pool("pool", h(rm, 2), 3, 6, 2, 1) for rm in range(3)]
    o += [big(v, LIST, 60, 60) for v in ALL]
    return o


WHAT = {
    301: "more local comparisons than the linear bound allows",
    1401: "a number that is not below the bound",
    1402: "the generator remains in its state",
}


def describe(v):
    if v["kind"] == "assert":
        return WHAT.get(v["code"], "assertion %s" % v["code"])
    return {"steps": "does not end", "stack": "call-stack overflow", "panic": "panic"}.get(v["kind"], v["kind"])
