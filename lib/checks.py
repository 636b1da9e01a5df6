"""The checks, by property: which modules of spec/ are explored within which bounds and which
machinery binds them to the code.  `r.pick(quick, thorough)` gives the bound of the tier."""
import gen

CHECKS, ASSUMPTIONS = {}, {}


def check(prop):
    def reg(f):
        CHECKS[prop] = f
        return f
    return reg


SEGSEG = ["Sound", "Complete", "Shape", "Symmetric", "Straddle"]
SEGCIRC = ["Sound", "Complete", "Count"]
CIRC = ["Sound", "Complete", "Count", "Concentric"]
ARC = ["Within", "Partition", "Disjoint"]
SWEEP = ["CountSymmetric", "EndsFound"]
LINES = ["Sound", "Complete", "Shape", "Symmetric", "TwoRays"]
LOC = ["NoInterior", "Reversed", "Parts", "Complement", "Bary"]
PROJ = ["Perp", "OnIt", "Nearest", "Clip", "Symmetric"]
VEC = ["Lagrange", "Rotation", "Total", "LineSet", "CoefSet"]
MONO = ["Cover", "NoOverlap", "OneHalf", "AtMost", "Turns"]
HULL = ["ChainAgrees", "Convex", "Encloses", "Between", "FromInput"]
POLY = ["WindingSound", "Pick", "Invariance", "ConvexSides"]


@check("C01")
def _(r):
    r.case("CaseSegSeg", dict(N=r.pick(2, 3), M=1), SEGSEG, "segseg")
    r.case("CaseSegSeg", dict(N=4, M=r.pick(40, 2)), SEGSEG, "segseg")
    for i, n in enumerate(r.pick([30], [9, 30, 30, 60])):
        r.case("CaseSegSeg", dict(N=1, M=1), ["Sound", "Shape", "Symmetric", "Straddle"], "segseg",
               cases=gen.segseg(r.rng(i), r.pick(6000, 40000), n))
    # nearly parallel and nearly touching
    r.case("CaseSegSeg", dict(N=1, M=1), ["Shape"], "segseg", cases=gen.segseg(r.rng(20), r.pick(4000, 40000), 300))


@check("C02")
def _(r):
    r.case("CaseSegCirc", dict(N=2, K=9, M=1), SEGCIRC, "segcirc")
    r.case("CaseSegCirc", dict(N=3, K=r.pick(10, 19), M=r.pick(3, 1)), SEGCIRC, "segcirc")
    for i, n in enumerate(r.pick([9], [5, 9, 14])):
        r.case("CaseSegCirc", dict(N=1, K=1, M=1), ["Sound", "Count"], "segcirc",
               cases=gen.segcirc(r.rng(i), r.pick(5000, 40000), n))


@check("C03")
def _(r):
    r.case("CaseCircCirc", dict(N=r.pick(4, 6), K=r.pick(17, 26), M=1), CIRC, "circcirc")
    for i in range(r.pick(1, 3)):
        r.case("CaseCircCirc", dict(N=1, K=1, M=1), ["Sound", "Count", "Concentric"], "circcirc",
               cases=gen.circcirc(r.rng(i), r.pick(5000, 40000)))


RS = "{1, 2, 4, 5}"


def arcs(r, mode=""):
    r.case("CaseArc", dict(KIND=1, N=2, RS="{1, 2, 4, 5}", NDIRS=8, M=r.pick(12, 1)), ARC, "arc", mode=mode)
    r.case("CaseArc", dict(KIND=2, N=3, RS="{1, 2, 4, 5}", NDIRS=r.pick(8, 16), M=r.pick(2, 1)), ARC, "arc", mode=mode)
    r.case("CaseArc", dict(KIND=3, N=2, RS="{1, 2, 4}", NDIRS=8, M=r.pick(60, 4)), ARC, "arc", mode=mode)
    for i, kind in enumerate(r.pick([1, 2, 3], [1, 2, 3] * 3)):
        r.case("CaseArc", dict(KIND=kind, N=1, RS="{1}", NDIRS=2, M=1), ARC, "arc",
               cases=gen.arc(r.rng(i), r.pick(4000, 30000), kind), mode=mode)


@check("C04")
def _(r):
    arcs(r)


@check("C05")
def _(r):
    m = "consistent"
    r.case("CaseSegSeg", dict(N=r.pick(2, 3), M=1), SEGSEG, "segseg", mode=m)
    r.case("CaseSegSeg", dict(N=1, M=1), [], "segseg", cases=gen.segseg(r.rng(1), r.pick(4000, 40000)), mode=m)
    r.case("CaseSegCirc", dict(N=2, K=9, M=1), SEGCIRC, "segcirc", mode=m)
    r.case("CaseSegCirc", dict(N=1, K=1, M=1), [], "segcirc", cases=gen.segcirc(r.rng(2), r.pick(4000, 40000)), mode=m)
    r.case("CaseCircCirc", dict(N=3, K=10, M=1), CIRC, "circcirc", mode=m)
    r.case("CaseCircCirc", dict(N=1, K=1, M=1), [], "circcirc", cases=gen.circcirc(r.rng(3), r.pick(4000, 40000)), mode=m)
    arcs(r, m)


@check("C06")
def _(r):
    r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), SWEEP, "sweep")
    r.case("CaseSweep", dict(CAT=1, SIZE=3, M=r.pick(3, 1)), SWEEP, "sweep")
    r.case("CaseSweep", dict(CAT=3, SIZE=4, M=r.pick(6, 1)), SWEEP, "sweep")
    r.case("CaseSweep", dict(CAT=4, SIZE=3, M=r.pick(2, 1)), SWEEP, "sweep")
    r.case("CaseSweep", dict(CAT=4, SIZE=4, M=r.pick(20, 2)), SWEEP, "sweep")
    for i, (lo, hi, n) in enumerate(r.pick([(3, 6, 4000), (7, 10, 1500), (24, 50, 40)], [(3, 5, 20000), (6, 9, 20000), (9, 14, 8000), (14, 24, 3000), (24, 60, 500)])):
        r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), [], "sweep", cases=gen.seg_set(r.rng(i), n, lo, hi))
    r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), [], "sweep", cases=gen.stars(r.rng(7), r.pick(600, 10000)))
    r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), [], "sweep", cases=gen.narrow(r.rng(10), r.pick(1500, 20000)))
    # single precision: the points close to the origin, where its tolerance covers the rounding,
    # and an answer elsewhere
    r.case("CaseSweep", dict(CAT=1, SIZE=3, M=r.pick(9, 1)), SWEEP, "sweep", mode="single")
    r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), [], "sweep", cases=gen.seg_set(r.rng(9), r.pick(1500, 20000), 3, 7, (5, 10, 20, 40)), mode="ends")


@check("C07")
def _(r):
    r.case("CaseSweep", dict(CAT=2, SIZE=2, M=1), SWEEP, "sweep")
    r.case("CaseSweep", dict(CAT=2, SIZE=3, M=r.pick(10, 1)), SWEEP, "sweep")
    r.case("CaseSweep", dict(CAT=5, SIZE=3, M=r.pick(6, 1)), SWEEP, "sweep")
    for i, (lo, hi, n) in enumerate(r.pick([(2, 5, 4000), (5, 8, 1500), (14, 24, 30)], [(2, 4, 20000), (4, 7, 20000), (7, 10, 6000), (12, 30, 400)])):
        r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), [], "sweep", cases=gen.mixed(r.rng(i), n, lo, hi))
    r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), [], "sweep", cases=gen.rosettes(r.rng(8), r.pick(500, 8000)))


@check("C08")
def _(r):
    for k in (1, 2, 3):
        r.case("CaseLines", dict(KIND=k, N=2, M=1), LINES, "lines")
        r.case("CaseLines", dict(KIND=k, N=3, M=r.pick(12, 1)), LINES, "lines")
        r.case("CaseLines", dict(KIND=k, N=1, M=1), ["Sound", "Shape", "Symmetric", "TwoRays"], "lines",
               cases=gen.lines(r.rng(k), r.pick(3000, 40000), k))
        r.case("CaseLines", dict(KIND=k, N=1, M=1), ["Shape"], "lines", cases=gen.lines(r.rng(20 + k), r.pick(2000, 30000), k, 300 if k == 1 else 150))


def locate(r, kinds):
    for k in kinds:
        n, m = {1: (4, 4), 2: (4, 4), 3: (4, 4), 4: (6, 1), 5: (4, 10), 6: (3, 10)}[k]
        r.case("CaseLocate", dict(KIND=k, N=r.pick(n, n + (k < 4)), K=40, M=r.pick(m, 1)), LOC, "locate")
        r.case("CaseLocate", dict(KIND=k, N=1, K=1, M=1), LOC, "locate", cases=gen.locate(r.rng(k), r.pick(4000, 40000), k))
        r.case("CaseLocate", dict(KIND=k, N=1, K=1, M=1), LOC, "locate", cases=gen.locate(r.rng(20 + k), r.pick(2000, 30000), k, 300))


@check("C09")
def _(r):
    locate(r, (1, 2, 3))


@check("C10")
def _(r):
    locate(r, (4, 5))


@check("C11")
def _(r):
    locate(r, (6,))


def poly(r, family, loc):
    c = lambda w, h, n, m: dict(W=w, H=h, LEN=n, LOC="TRUE" if loc else "FALSE", M=m)
    init = "InitSimple" if loc else "InitExh"
    for w, h, n, m in r.pick([(2, 2, 3, 1), (2, 2, 4, 1), (2, 2, 5, 4), (3, 2, 5, 40), (2, 2, 6, 40)],
                             [(2, 2, 3, 1), (3, 3, 3, 1), (2, 2, 4, 1), (3, 3, 4, 2), (2, 2, 5, 1), (3, 2, 5, 6), (2, 2, 6, 4), (3, 2, 6, 150), (2, 2, 7, 60)]):
        r.case("CasePoly", c(w, h, n, m), POLY, family, init=init)
    for i in range(r.pick(1, 4)):
        r.case("CasePoly", c(1, 1, 3, 1), POLY[1:], family, init="InitFileSimple" if loc else "InitFile",
               cases=gen.polygons(r.rng(i), r.pick(700, 4000), broken=not loc and i % 2 == 0))
    if not loc:
        r.case("CasePoly", c(1, 1, 3, 1), POLY[1:], family, init="InitFile", cases=gen.polygons(r.rng(77), r.pick(1500, 9000), broken=True))
    # many vertices
    big = gen.polygons(r.rng(78), r.pick(60, 600), w=12, lo=17, hi=60, broken=not loc)
    big += gen.polygons(r.rng(79), r.pick(12, 150), w=16, lo=68, hi=150, broken=not loc)
    r.case("CasePoly", c(1, 1, 3, 1), [], family, init="InitFileSimple" if loc else "InitFile", cases=big)


@check("C12")
def _(r):
    poly(r, "inpoly", True)


@check("C13")
def _(r):
    r.case("CaseHull", dict(N=2, LEN=1, M=1), HULL, "hull", init="InitSets")
    r.case("CaseHull", dict(N=3, LEN=1, M=r.pick(40, 3)), HULL, "hull", init="InitSets")
    r.case("CaseHull", dict(N=2, LEN=r.pick(4, 5), M=r.pick(1, 2)), HULL, "hull")
    for i in range(r.pick(1, 4)):
        r.case("CaseHull", dict(N=1, LEN=1, M=1), HULL, "hull", cases=gen.hull(r.rng(i), r.pick(2500, 12000)))
    r.case("CaseHull", dict(N=1, LEN=1, M=1), HULL[:1], "hull", cases=gen.hull(r.rng(20), r.pick(150, 2000), 30, 20, 160))


@check("C14")
def _(r):
    poly(r, "simple", False)
    for n, m in r.pick([(3, 1), (4, 2), (5, 20)], [(3, 1), (4, 1), (5, 2), (6, 20)]):
        r.case("CasePoly", dict(W=2, H=2, LEN=n, LOC="FALSE", M=m), POLY, "simple", init="InitExh", mode="single")


@check("C15")
def _(r):
    r.case("CasePoly", dict(W=r.pick(2, 4), H=2, LEN=2, LOC="FALSE", M=1), [], "measure", init="InitFew")
    poly(r, "measure", False)


@check("C16")
def _(r):
    c = lambda w, h, n, m: dict(W=w, H=h, LEN=n, LOC="FALSE", M=m)
    full = ["--full", r.pick(0, 1)]
    ear = ["Remains", "Area", "TwoEars", "ReflexSuffice", "AtEnd"]
    r.design("EarClip", dict(W=2, H=r.pick(1, 2), LEN=5), ear)
    r.design("EarClip", dict(W=1, H=1, LEN=3), ear, cases=[p for p in gen.polygons(r.rng(50), r.pick(120, 1200)) if len(p) <= r.pick(7, 8)])
    for w, h, n, m in r.pick([(2, 2, 3, 1), (2, 2, 4, 1), (2, 2, 5, 2), (2, 2, 6, 16), (3, 2, 5, 20)],
                             [(2, 2, 3, 1), (3, 3, 3, 1), (2, 2, 4, 1), (3, 3, 4, 1), (2, 2, 5, 1), (3, 2, 5, 2), (2, 2, 6, 2), (3, 2, 6, 60), (2, 2, 7, 30)]):
        r.record_cases(("CasePoly", c(w, h, n, m), POLY[1:], "InitSimple", None), "earcut", "CheckEarcut", {}, args=full)
    # the others are refused
    for n, m in r.pick([(3, 1), (4, 12)], [(3, 1), (4, 2), (5, 40)]):
        r.record_cases(("CasePoly", c(2, 2, n, m), POLY[1:], "InitBroken", None), "earcut", "CheckEarcut", {}, args=full)
    r.record_cases(("CasePoly", c(1, 1, 3, 1), POLY[1:], "InitFileBroken", gen.polygons(r.rng(60), r.pick(900, 6000), broken=True)),
                   "earcut", "CheckEarcut", {}, args=full)
    for i in range(r.pick(1, 4)):
        r.record_cases(("CasePoly", c(1, 1, 3, 1), POLY[1:], "InitFileSimple", gen.polygons(r.rng(i), r.pick(900, 4000))),
                       "earcut", "CheckEarcut", {}, args=full)
    r.record_cases(("CasePoly", c(1, 1, 3, 1), [], "InitFileSimple", gen.polygons(r.rng(61), r.pick(40, 400), w=12, lo=17, hi=60)),
                   "earcut", "CheckEarcut", {}, args=["--full", 0])
    r.record_cases(("CasePoly", c(1, 1, 3, 1), [], "InitFileSimple", gen.polygons(r.rng(62), r.pick(24, 300), w=16, lo=68, hi=150)),
                   "earcut", "CheckEarcut", {}, args=["--full", 0])


@check("C17")
def _(r):
    for k in (1, 2):
        r.case("CaseProj", dict(KIND=k, N=4, M=r.pick(2, 1)), PROJ, "proj")
        for i in range(r.pick(1, 3)):
            r.case("CaseProj", dict(KIND=k, N=1, M=1), PROJ, "proj", cases=gen.proj(r.rng(k + 10 * i), r.pick(4000, 40000), k))
            r.case("CaseProj", dict(KIND=k, N=1, M=1), [], "proj", cases=gen.proj(r.rng(k + 10 * i + 50), r.pick(2000, 30000), k, 200))


@check("C18")
def _(r):
    r.case("CaseMono", dict(BACK=60, HI=84, M=1), MONO, "mono")


@check("C19")
def _(r):
    r.case("CaseVec", dict(KIND=2, N=2, M=1), VEC, "vec")
    r.case("CaseVec", dict(KIND=2, N=3, M=r.pick(30, 1)), VEC, "vec")
    r.case("CaseVec", dict(KIND=3, N=r.pick(2, 3), M=1), VEC, "vec")


@check("C20")
def _(r):
    r.case("CaseVec", dict(KIND=1, N=r.pick(6, 12), M=1), VEC, "vec")
    r.case("CaseVec", dict(KIND=4, N=2, M=r.pick(16, 1)), VEC, "vec")
    r.case("CaseVec", dict(KIND=5, N=r.pick(2, 3), M=1), VEC, "vec")


@check("C21")
def _(r):
    r.graph("Triangle", dict(N=2, TURNS=4, SEED=1, M=1), ["Shoelace", "Involution", "SignOk"], "triangle", ["--budget", 50000])
    r.graph("Triangle", dict(N=r.pick(4, 5), TURNS=3, SEED=gen_seed(r), M=r.pick(6, 1)), ["Shoelace", "Involution", "SignOk"], "triangle")


def gen_seed(r):
    return r.rng(5).randrange(1000)


TREE = ["Sorted", "Distinct", "OneEach"]


@check("C22")
def _(r):
    w = lambda tour, b, n, l: ["--tour", tour, "--budget", b, "--walks", n, "--len", l]
    k = r.pick(8, 10)
    tree = lambda m, k, c: dict(MODE=m, KEYS=k, CAP=c)
    r.design("AVLTree", tree(1, k, k), ["Balanced", "Low"], ["Refines"], spec="Spec")
    r.design("AVLTree", tree(2, 3, r.pick(4, 6)), ["Balanced", "Low"], ["Refines"], spec="Spec")
    r.graph("OrderedTree", tree(1, k, k), TREE, "tree", w(1, r.pick(2e5, 5e6), r.pick(2000, 40000), 80),
            tour=("AVLTree", tree(1, k, k), ["Balanced", "Low"]))
    r.graph("OrderedTree", tree(2, 3, r.pick(4, 5)), TREE, "bag", w(1, r.pick(2e5, 5e6), r.pick(2000, 40000), 80),
            tour=("AVLTree", tree(2, 3, r.pick(4, 5)), ["Balanced", "Low"]))
    r.graph("OrderedTree", tree(1, r.pick(11, 13), 13), TREE, "tree", w(0, 1000, r.pick(4000, 60000), 150))
    r.record("TraceBulk", {}, "bulk", ["--bits", r.pick(18, 19)], inv=["Counted"])
    r.record("TraceTree", {}, "tree", ["--count", r.pick(24, 96), "--len", r.pick(600, 1600)], inv=["Sorted"])


@check("C23")
def _(r):
    r.design("LinkedRing", dict(CAP=r.pick(5, 7)), ["Inverse", "Closed", "Whole", "Empty"], ["Refines"], spec="Spec")
    r.graph("Ring", dict(CAP=r.pick(5, 6)), ["Distinct"], "ring",
            ["--tour", r.pick(2, 3), "--budget", r.pick(3e5, 8e6), "--walks", r.pick(3000, 50000), "--len", 80])
    r.record("TraceRing", {}, "ring", ["--count", r.pick(18, 72), "--len", r.pick(400, 1200)], inv=["Distinct"])


@check("C24")
def _(r):
    r.graph("Queue", dict(PRIOS=3, CAP=r.pick(5, 6)), ["Sorted"], "queue",
            ["--tour", r.pick(1, 2), "--budget", r.pick(2e5, 5e6), "--walks", r.pick(3000, 50000), "--len", 60])
    r.graph("Queue", dict(PRIOS=r.pick(5, 6), CAP=r.pick(6, 7)), ["Sorted"], "queue",
            ["--tour", 0, "--budget", 1000, "--walks", r.pick(3000, 50000), "--len", 120])
    r.record("TraceQueue", {}, "queue", ["--count", r.pick(21, 84), "--len", r.pick(500, 1500)], inv=["Sorted"])


@check("C25")
def _(r):
    for part, nv, ne, m in (("list", 4, 4, "halflist"), ("adj", 4, 3, "halfadj"), ("ends", 3, 3, "halfends"), ("links", 4, 2, "halflinks")):
        r.graph("HalfEdge", dict(NV=nv, NE=ne, DEPTH=r.pick(5, 6) if part == "list" else r.pick(2, 3), PART=f'"{part}"'), ["Equivalence"], m,
                ["--tour", r.pick(1, 1), "--budget", r.pick(1e5, 3e6), "--walks", r.pick(2000, 30000), "--len", 50])
    r.record("TraceHalf", dict(NV=6, NE=20), "half", ["--count", r.pick(18, 72), "--len", r.pick(300, 900)], inv=["Listed"])


@check("C26")
def _(r):
    r.need_wasm()
    m = "wasm"
    r.case("CaseSegSeg", dict(N=2, M=r.pick(4, 1)), SEGSEG, "segseg", mode=m)
    r.case("CaseSegCirc", dict(N=2, K=9, M=r.pick(3, 1)), SEGCIRC, "segcirc", mode=m)
    r.case("CaseCircCirc", dict(N=3, K=10, M=r.pick(3, 1)), CIRC, "circcirc", mode=m)
    r.case("CaseArc", dict(KIND=1, N=2, RS=RS, NDIRS=8, M=r.pick(60, 3)), ARC, "arc", mode=m)
    r.case("CaseArc", dict(KIND=2, N=3, RS=RS, NDIRS=8, M=r.pick(12, 1)), ARC, "arc", mode=m)
    r.case("CaseArc", dict(KIND=3, N=2, RS="{1, 2, 4}", NDIRS=8, M=r.pick(300, 12)), ARC, "arc", mode=m)
    for k in (3, 4, 5, 6):
        n, d = {3: (3, 4), 4: (4, 20), 5: (3, 12), 6: (2, 8)}[k]
        r.case("CaseLocate", dict(KIND=k, N=n, K=20, M=r.pick(d, 1)), LOC, "locate", mode=m)
    r.case("CaseProj", dict(KIND=2, N=3, M=r.pick(3, 1)), PROJ, "proj", mode=m)
    r.case("CaseVec", dict(KIND=1, N=4, M=r.pick(3, 1)), VEC, "vec", mode=m)
    r.case("CaseVec", dict(KIND=2, N=2, M=1), VEC, "vec", mode=m)
    r.case("CaseHull", dict(N=2, LEN=1, M=1), HULL, "hull", init="InitSets", mode=m)
    r.case("CaseHull", dict(N=1, LEN=1, M=1), HULL, "hull", cases=gen.hull(r.rng(3), r.pick(400, 4000)), mode=m)
    c = lambda n, m: dict(W=2, H=2, LEN=n, LOC="TRUE", M=m)
    for n, d in ((3, 2), (4, 12), (5, 120)):
        r.case("CasePoly", c(n, r.pick(d, 1 if n < 5 else 10)), POLY, "poly", mode=m)
    r.case("CasePoly", c(3, 1), POLY[1:], "poly", init="InitFileSimple", cases=gen.polygons(r.rng(4), r.pick(300, 3000)), mode=m)
    r.case("CaseSweep", dict(CAT=1, SIZE=3, M=r.pick(12, 1)), SWEEP, "sweep", mode=m)
    r.case("CaseSweep", dict(CAT=1, SIZE=2, M=1), [], "sweep", cases=gen.mixed(r.rng(5), r.pick(1000, 10000), 2, 6), mode=m)
    r.design("Binding", dict(CAP=3), ["OwnSlot"], ["Isolation"], spec="Spec")
    r.graph("Binding", dict(CAP=3), ["OwnSlot"], "wsegment", ["--budget", r.pick(2e4, 3e5), "--tour", r.pick(0, 1), "--walks", r.pick(300, 5000), "--len", 60])
    r.graph("Triangle", dict(N=2, TURNS=4, SEED=1, M=1), ["Shoelace", "Involution", "SignOk"], "wtriangle", ["--budget", r.pick(3000, 50000), "--tour", 0, "--walks", 500])


EQUAL = ["Reflexive", "Symmetric", "Directed", "SamePart", "Twice"]


@check("C27")
def _(r):
    e = lambda k, n, m: dict(KIND=k, N=n, M=m)
    r.case("CaseEqual", e(1, 2, r.pick(2, 1)), EQUAL, "equal")
    r.case("CaseEqual", e(2, 1, r.pick(4, 1)), EQUAL, "equal", init="InitNear")
    r.case("CaseEqual", e(2, 1, r.pick(2, 1)), EQUAL, "equal", init="InitEnds")
    r.case("CaseEqual", e(3, r.pick(1, 2), r.pick(2, 3)), EQUAL, "equal", init="InitNear")
    r.case("CaseEqual", e(4, 1, 1), EQUAL, "equal")
    if r.tier == "thorough":
        r.case("CaseEqual", e(1, 3, 8), EQUAL, "equal")
        r.case("CaseEqual", e(2, 1, 300), EQUAL, "equal")


ASSUMPTIONS["*"] = [
    "TLC and the modules of spec/, whose definitions are cross-checked by their invariants",
    "the harness, which turns specified values (integers, quotients, quadratic surds) into floating point and compares within 1e-8 relative",
    "inputs outside the explored bounds behave like those within them",
]
