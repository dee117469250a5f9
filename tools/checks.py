"""What each check does. One function per property."""
import os
import sys

import cpp
from vf import Check, HARNESS, REPO, cfg, main

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def ints(n):
    return "{%s}" % ",".join(str(i) for i in range(1, n + 1))


# ------------------------------------------------------------------ utilities
@check("P01")
def shared_ptr(c: Check):
    exe = c.compile("shared_ptr.cc", extra=["-fsanitize=address"])
    inv = ["TypeOK", "CountExact", "NonNegative"]
    tcfg = cfg("TSpec", {"Slots": ints(4), "Res": ints(3)}, inv, postcondition="Accepted")
    no = {"Sizes": "{1}", "MaxCrowd": 0}
    edges = c.model("SharedPtrMC", cfg("MCSpec", {"Slots": ints(c.pick(3, 4)), "Res": ints(2), "Depth": 0, **no},
                                       inv, view="View", action_constraint="EmitEdge"), "every transition")
    c.conform(exe, edges, "SharedPtrTrace", tcfg, "transitions replayed")
    few = {"Slots": ints(2), "Res": ints(1), "Depth": 0, "Sizes": "{1,2,254,65533}", "MaxCrowd": 66000}
    edges = c.model("SharedPtrMC", cfg("CrowdSpec", few, inv, view="View", action_constraint="EmitEdge", constraint="Short"), "crowds")
    c.conform(exe, edges[::max(1, len(edges) // c.pick(400, 4000))], "SharedPtrTrace", tcfg, "crowds replayed")
    runs = c.simulate("SharedPtrMC", cfg("SimSpec", {"Slots": ints(4), "Res": ints(3), "Depth": 60,
                                                     "Sizes": "{1,3,40,300}", "MaxCrowd": 1000}, inv, constraint="EmitRun"),
                      "random histories", c.pick(150, 2000), 60, procs=c.pick(2, 8))
    c.conform(exe, runs, "SharedPtrTrace", tcfg, "random histories replayed")


@check("P34")
def std_ptr(c: Check):
    exe = c.compile("std_ptr.cc", extra=["-fsanitize=address"])
    inv, acts = ["TypeOK"], ["Ends", "OneAtATime"]
    edges = c.model("StdPtrMC", cfg("MCSpec", {"Slots": ints(c.pick(2, 3)), "Limit": 3, "Depth": 0}, inv, acts, view="View",
                                    action_constraint="EmitEdge"), "every transition")
    edges = edges[::max(1, len(edges) // c.pick(3000, 40000))]
    runs = c.simulate("StdPtrMC", cfg("MCSpec", {"Slots": ints(4), "Limit": 20, "Depth": 60}, inv, acts, constraint="EmitRun"),
                      "random histories", c.pick(150, 2000), 60, procs=c.pick(2, 8))
    tcfg = cfg("TSpec", {"Slots": ints(4), "Limit": 20}, inv, postcondition="Accepted")
    c.conform(exe, edges, "StdPtrTrace", tcfg, "transitions replayed")
    c.conform(exe, runs, "StdPtrTrace", tcfg, "random histories replayed")


@check("P35")
def refusals(c: Check):
    exe = c.compile("refusals.cc")
    base = {"Handles": ints(8), "Frames": ints(2), "Fields": ints(2)}
    inv = ["RTypeOK", "ClosesUp"]
    groups = c.model("RefusalsMC", cfg("GroupSpec", {**base, "V": 5, "Depth": 0, "Group": 64}, ["RTypeOK"],
                                       action_constraint="EmitGroup"), "every list of facets")
    groups = groups[::max(1, len(groups) // c.pick(150, 2000))]
    runs = c.simulate("RefusalsMC", cfg("RandomSpec", {**base, "V": 6, "Depth": 60, "Group": 1}, inv, constraint="EmitRun"),
                      "random attempts", c.pick(150, 3000), 60, procs=c.pick(4, 8))
    tcfg = cfg("TSpec", {**base, "V": 6}, inv, postcondition="Accepted")
    c.conform(exe, groups, "RefusalsTrace", tcfg, "lists of facets attempted")
    c.conform(exe, runs, "RefusalsTrace", tcfg, "random attempts made")


def keep(*fields):
    """project the observations of a container trace on those that bear on one property"""
    def project(ev):
        ev = {k: v for k, v in ev.items() if k in ("op", "a", "c", "slot", "signal", "status") or k in fields}
        if "c" in ev:
            ev["c"] = [{k: v for k, v in o.items() if k == "gone" or k in fields} for o in ev["c"]]
        return ev
    return project


def seg_vector(c: Check, fields):
    exe = c.compile("seg_vector.cc", extra=["-fsanitize=address"])
    inv = ["TypeOK", "ValidAlive", "NoDuplicates", "Disjoint", "FreeIsErased", "NoWaste", "NoLeak"]
    props = ["Once", "Stable"]
    edges = c.model("SegVectorMC", cfg("MCSpec2", {"Conts": ints(2), "Segs": "{2}", "Depth": 0,
                                                  "MaxObj": c.pick(4, 6)},
                                       inv, props, view="View", action_constraint="EmitEdge"),
                    "every transition, segments of 2")
    runs = []
    for seg in ("{1}", "{3}", "{2, 5}"):
        runs += c.simulate("SegVectorMC", cfg("SimSpec", {"Conts": ints(2), "Segs": seg, "Depth": 80,
                                                          "MaxObj": 60}, inv, constraint="EmitRun"),
                           "random histories, segments of " + seg, c.pick(40, 600), 80,
                           procs=c.pick(1, 8))
    tcfg = cfg("TSpec", {"Conts": ints(2), "Segs": "{}"}, ["Inv"], postcondition="Accepted")
    c.conform(exe, edges, "SegVectorTrace", tcfg, "transitions replayed", project=keep(*fields))
    c.conform(exe, runs, "SegVectorTrace", tcfg, "random histories replayed", project=keep(*fields))
    # the length of a run of erased elements is no obstacle
    n = c.pick(4000, 8000)
    bulk = [["new 1 64", "burst 1 %d" % n, "range 1 2 %d" % (n - 1), "emplace 1",
             "range 1 1 1", "emplace 1", "destroy 1"],
            ["new 2 7", "burst 2 %d" % n, "range 2 1 %d" % (n // 2), "emplace 2", "move 2 1",
             "range 1 %d %d" % (n // 2 + 1, n), "destroy 1", "destroy 2"]]
    c.conform(exe, bulk, "SegVectorTrace", tcfg, "long runs of erased elements", project=keep(*fields))


@check("P02")
def seg_contents(c: Check):
    seg_vector(c, ("size", "iter", "post", "arrow", "ret"))


@check("P03")
def seg_stability(c: Check):
    seg_vector(c, ("capacity", "slot", "at", "kept"))


@check("P04")
def seg_lifetimes(c: Check):
    seg_vector(c, ("died", "kept"))


@check("P05")
def repository(c: Check):
    exe = c.compile("repository.cc", extra=["-fsanitize=address"])
    inv = ["TypeOK", "AliveExact", "NoDangling", "OneSlotEach", "NoWaste"]
    props = ["DiesRight", "NeverBack", "Stable"]
    edges = c.model("RepositoryMC", cfg("MCSpec", {"Handles": ints(c.pick(2, 3)), "Depth": 0, "MaxSeg": 2,
                                                   "MaxObj": c.pick(4, 4)},
                                        inv, props, view="View", action_constraint="EmitEdge"),
                    "every transition")
    runs = c.simulate("RepositoryMC", cfg("SimSpec", {"Handles": ints(6), "Depth": 70, "MaxObj": 50,
                                                      "MaxSeg": 5}, inv, constraint="EmitRun"),
                      "random histories", c.pick(150, 2000), 70, procs=c.pick(2, 8))
    tcfg = cfg("TSpec", {"Handles": ints(6)}, inv, postcondition="Accepted")
    c.conform(exe, edges, "RepositoryTrace", tcfg, "transitions replayed")
    c.conform(exe, runs, "RepositoryTrace", tcfg, "random histories replayed")


# ------------------------------------------------------------------ topology
def keep_topology(*fields):
    def project(ev):
        ev = {k: v for k, v in ev.items() if k in ("op", "a", "h", "signal", "status") or k in fields}
        if "h" in ev:
            ev["h"] = [{k: v for k, v in o.items()
                        if k in ("null",) or k in fields or (k == "o" and "vs" in fields)} for o in ev["h"]]
        return ev
    return project


TOPO_INV = ["TypeOK", "NoDangling", "Closed"]
TOPO_PROPS = ["UsedStays", "FacetsStay", "BaseStays"]


def topology(c: Check, fields):
    exe = c.compile("topology.cc")

    def model(handles, v, dim, depth):
        return c.model("TopologyMC", cfg("MCSpec", {"Handles": ints(handles), "V": v, "Depth": depth,
                                                    "MaxDim": dim}, TOPO_INV, TOPO_PROPS, view="View",
                                         constraint="Short", action_constraint="EmitEdge"),
                       "every transition: %d handles, %d vertices, dimension %d, depth %d"
                       % (handles, v, dim, depth), timeout=700, heap="10g")
    edges = model(1, 3, 2, c.pick(7, 9))
    if not c.quick:
        edges += model(2, 3, 2, 7)
        edges += model(1, 4, 3, 7)
    fresh = []
    for n in (3, 4):
        fresh += c.model("TopologyMC", cfg("FreshSpec", {"Handles": ints(n + 2), "V": n, "Depth": 2 * n + 3,
                                                         "MaxDim": 3}, TOPO_INV, constraint="EmitRun"),
                         "every order of %d facets and vertices in a fresh complex" % n)
    if c.quick:
        fresh = fresh[::3]
    runs = c.simulate("TopologyMC", cfg("SimSpec", {"Handles": ints(6), "V": 6, "Depth": 60,
                                                    "MaxDim": 3}, TOPO_INV, constraint="EmitRun"),
                      "random histories", c.pick(150, 2500), 60, procs=8)
    tcfg = cfg("TSpec", {"Handles": ints(6), "V": 6}, TOPO_INV, postcondition="Accepted")
    p = keep_topology(*fields)
    c.conform(exe, edges, "TopologyTrace", tcfg, "transitions replayed", project=p)
    c.conform(exe, fresh, "TopologyTrace", tcfg, "orders replayed", project=p)
    c.conform(exe, runs, "TopologyTrace", tcfg, "random histories replayed", project=p)


@check("P06")
def identity(c: Check):
    topology(c, ("id", "fid"))


@check("P07")
def orientation(c: Check):
    topology(c, ("vs", "ori"))


@check("P08")
def existence(c: Check):
    topology(c, ("ef", "ex", "exf", "was", "pairs", "nsimp"))


@check("P09")
def boundaries(c: Check):
    topology(c, ("comp", "ok", "edges", "ret"))


@check("P10")
def erasure(c: Check):
    topology(c, ("refs", "nsimp"))

@check("P11")
def diagonals(c: Check):
    exe = c.compile("topology.cc")
    paths = c.model("TopologyMC", cfg("DiagSpec", {"Handles": ints(4), "V": 4, "Depth": 12, "MaxDim": 2},
                                      TOPO_INV, TOPO_PROPS, constraint="EmitRun"),
                    "every two triangles on an edge, flipped and flipped back")
    runs = c.simulate("TopologyMC", cfg("SimDiagSpec", {"Handles": ints(6), "V": 6, "Depth": 60,
                                                        "MaxDim": 2}, TOPO_INV, constraint="EmitRun"),
                      "random histories", c.pick(200, 2500), 60, procs=8)
    c.log("%d diagonals flipped" % sum(o[0] == "diag" for r in runs for o in r))
    tcfg = cfg("TSpec", {"Handles": ints(6), "V": 6}, TOPO_INV, postcondition="Accepted")
    c.conform(exe, paths, "TopologyTrace", tcfg, "flips replayed")
    c.conform(exe, runs, "TopologyTrace", tcfg, "random histories replayed")


# ------------------------------------------------------------------ meshes
MESH_INV = ["TypeOK", "Apart", "BoundaryCloses", "EvenOrders"]


def mesh(c: Check, fields, dims=((1, 1), (2, 2), (2, 3), (3, 3)), weight=1.0):
    def project(ev):
        ev = {k: v for k, v in ev.items() if k in ("op", "a", "m", "signal", "status")}
        if "m" in ev:
            ev["m"] = [{k: v for k, v in o.items() if k in ("live", "cells") or k in fields} for o in ev["m"]]
        return ev
    exes = c.compile_all([("mesh.cc", ["-DCELL_N=%d" % n, "-DCELL_D=%d" % d]) for n, d in dims])
    for (n, d), exe in zip(dims, exes):
        label = "cells of dimension %d in %dD" % (n, d)
        consts = {"N": n, "Meshes": ints(3)}
        cases = []
        if (n, d) != (2, 3):
            cases += c.model("MeshMC", cfg("MCSpec", {"N": n, "Meshes": ints(1), "MaxNodes": n + 1 + (n < 3),
                                                      "MaxCells": {1: 3, 2: 2, 3: 2}[n], "Depth": 0},
                                           MESH_INV, view="View", action_constraint="EmitEdge"),
                             "every transition, " + label)
        runs = c.simulate("MeshMC", cfg("SimSpec", {"N": n, "Meshes": ints(2), "MaxNodes": 7, "MaxCells": 99,
                                                    "Depth": 50}, ["TypeOK", "Apart", "BoundaryCloses"],
                                        constraint="EmitRun"),
                          "random histories, " + label, c.pick(40, 800), 50, procs=c.pick(4, 8))
        tcfg = cfg("TSpec", consts, ["TypeOK"], postcondition="Accepted")
        cases = cases[::c.pick(max(1, len(cases) // 1500), 1)]
        c.conform(exe, cases + runs, "MeshTrace", tcfg, label, project=project)


@check("P16")
def mesh_contents(c: Check):
    mesh(c, ("n", "simp", "nodes"))


@check("P17")
def mesh_boundary(c: Check):
    mesh(c, ("bsize", "boundary", "onb", "bb"))


@check("P18")
def mesh_filter(c: Check):
    mesh(c, ("faces", "edges"), dims=((2, 2), (2, 3), (3, 3)))


@check("P20")
def refinement(c: Check):
    dims = ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3))
    k = {1: 4, 2: 3, 3: 2}
    exes = c.compile_all([("refine.cc", ["-DCELL_N=%d" % n, "-DCELL_D=%d" % d, "-DUNIT=%d" % 2 ** k[n]])
                          for n, d in dims])
    for (n, d), exe in zip(dims, exes):
        label = "cells of dimension %d in %dD" % (n, d)
        consts = {"N": n, "D": d}
        cases = c.model("RefineMC", cfg("MCSpec", dict(consts, K=k[n], MaxCells=1, MaxAfter=64, Depth=0),
                                        ["TypeOK", "Halves", "NotLess"], ["Exemplary"], view="View",
                                        action_constraint="EmitEdge"), "every refinement of one cell, " + label)
        runs = c.simulate("RefineMC", cfg("SimSpec", dict(consts, K=k[n], MaxCells=5, MaxAfter=c.pick(80 if n < 3 else 64, 400), Depth=12),
                                          ["TypeOK"], constraint="EmitRun"),
                          "random meshes, " + label, c.pick(10, 150), 12, procs=c.pick(4, 8))
        tcfg = cfg("TSpec", consts, ["TypeOK"], postcondition="Accepted")
        c.conform(exe, cases[::c.pick(max(1, len(cases) // (100 if n < 3 else 30)), 1)] + runs, "RefineTrace", tcfg, label)


# ------------------------------------------------------------------ algebra
@check("P12")
def signs(c: Check):
    exe = c.compile("combinatorics.cc")
    inv = ["TypeOK", "SignIsParity"]
    cases = []
    for n in range(1, 6):
        some = c.model("CombinatoricsMC", cfg("MCSpec", {"N": n, "MaxN": 8, "Depth": 0}, inv, view="View",
                                                action_constraint="EmitEdge"),
                         "every order of %d, and every swap" % n)
        cases += some[::15 if n == 5 and c.quick else 1]
    runs = c.simulate("CombinatoricsMC", cfg("SimSpec", {"N": 8, "MaxN": 8, "Depth": 80}, inv,
                                             constraint="EmitRun"),
                      "random swaps", c.pick(100, 1500), 80, procs=c.pick(2, 8))
    tcfg = cfg("TSpec", {"MaxN": 8}, inv, postcondition="Accepted")
    c.conform(exe, cases, "CombinatoricsTrace", tcfg, "orders replayed")
    c.conform(exe, runs, "CombinatoricsTrace", tcfg, "random swaps replayed")

@check("P13")
def forms(c: Check):
    dims = (2, 3, 4)
    exes = c.compile_all([("forms.cc", ["-DDIM=%d" % d]) for d in dims])
    inv = ["TypeOK", "WedgeAlternates", "WedgeAnticommutes", "WedgeAssociates", "Even"]
    for d, exe in zip(dims, exes):
        cases = []
        for spec in ("MCSpec", "MCSpec12") if d < 4 or not c.quick else ("MCSpec12",):
            cases += c.model("FormsMC", cfg(spec, {"D": d, "Depth": 0}, inv[:2 if d > 2 else 5], action_constraint="EmitEdge"),
                             "products of the basis, dimension %d" % d)
        cases = cases[::max(1, len(cases) // c.pick(800, 10000))]
        runs = c.simulate("FormsMC", cfg("SimSpec", {"D": d, "Depth": 30}, inv if d < c.pick(3, 4) else inv[:1], constraint="EmitRun"),
                          "random constructions, dimension %d" % d, c.pick(40, 1500), 30, procs=8)
        tcfg = cfg("TSpec", {"D": d}, ["TypeOK"], postcondition="Accepted")
        c.conform(exe, cases + runs, "FormsTrace", tcfg, "forms of dimension %d" % d)

@check("P25")
def functions(c: Check):
    tour = c.model("CalculusMC", cfg("TourSpec", {"Depth": 4, "Budget": 99}, ["TypeOK"], constraint="EmitRun"),
                   "the library, thrice differentiated")
    runs = c.simulate("CalculusMC", cfg("SimSpec", {"Depth": 14, "Budget": 60}, ["TypeOK", "Clairaut"],
                                         constraint="EmitRun"),
                      "random functions", c.pick(240, 3000), 14, procs=8, per_prefix=1)
    runs += c.simulate("CalculusMC", cfg("FocusSpec", {"Depth": 66, "Budget": 30}, ["TypeOK", "Clairaut"],
                                          constraint="EmitFocus"),
                       "everything done with a function", c.pick(100, 1500), 66, procs=8, per_prefix=1)
    cases = tour + runs
    exe = c.generated("functions_main.cc", "functions.h", cases, cpp.functions_case)
    tcfg = cfg("TSpec", {}, ["TypeOK"], postcondition="Accepted")
    c.conform(exe, [["use %d" % k] for k in range(len(cases))], "CalculusTrace", tcfg, "functions")


# ------------------------------------------------------------------ geometry
def space(c: Check, metric):
    dims = (1, 2, 3)
    exes = c.compile_all([("space.cc", ["-DDIM=%d" % d]) for d in dims])
    inv = ["TypeOK", "BasisIsMetric", "RightHanded", "Equidistant"]
    what = "metric" if metric else "positions"
    for d, exe in zip(dims, exes):
        consts = {"D": d, "Metric": "TRUE" if metric else "FALSE"}
        grid = c.pick("{2,6,10}", "{0,2,6,10,12}" if d < 3 else "{2,6,10}")
        cases = c.model("SpaceMC", cfg("MCSpec", dict(consts, Grid=grid, Depth=0), inv, action_constraint="EmitEdge"),
                        "%s of points on a grid, in %dD" % (what, d))
        cases = cases[::max(1, len(cases) // c.pick(1500, 40000))]
        runs = c.simulate("SpaceMC", cfg("SimSpec", dict(consts, Grid="{}", Depth=60), inv, constraint="EmitRun"),
                          "random points, in %dD" % d, c.pick(100, 2000), 60, procs=c.pick(4, 8))
        tcfg = cfg("TSpec", {"D": d}, ["TypeOK"], postcondition="Accepted")
        drop = ("at", "n", "canonical") if metric else ()
        c.conform(exe, cases + runs, "SpaceTrace", tcfg, "%s in %dD" % (what, d),
                  project=lambda ev: {k: v for k, v in ev.items() if k not in drop})


@check("P21")
def positions(c: Check):
    space(c, False)


@check("P22")
def metrics(c: Check):
    space(c, True)


# ------------------------------------------------------------------ manifolds
def measure(c: Check, what):
    """what: volume (and the flux of constants), or integral"""
    shapes = ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))
    exes = c.compile_all([("measure.cc", ["-DORDER=%d" % n, "-DDIM=%d" % d]) for n, d in shapes])
    inv = ["TypeOK", "Turns", "DivergenceOnce"]
    for (n, d), exe in zip(shapes, exes):
        label = "cells of dimension %d in %dD" % (n, d)
        consts = {"N": n, "D": d, "MaxDegree": {1: 2, 2: 4, 3: 2}[n], "MaxFlux": {1: 0, 2: 2, 3: 4}[n],
                  "Kinds": "{0}" if d == 1 else "{0, 1}", "Volumes": "TRUE" if what == "volume" else "FALSE"}
        cases = c.model("MeasureMC", cfg("MCSpec", dict(consts, Depth=0), inv, action_constraint="EmitEdge"),
                        "monomials on one cell, " + label)
        cases = cases[::max(1, len(cases) // c.pick(400, 5000))]
        runs = c.simulate("MeasureMC", cfg("SimSpec", dict(consts, Depth=40), c.pick(inv[:2], ["TypeOK", "Divergence"]), constraint="EmitRun"),
                          "random meshes, " + label, c.pick(40, 800), 40, procs=8)
        tcfg = cfg("TSpec", {"N": n, "D": d}, ["TypeOK"], postcondition="Accepted")
        c.conform(exe, cases + runs, "MeasureTrace", tcfg, label)


@check("P31")
def volumes(c: Check):
    measure(c, "volume")


@check("P28")
def integrals(c: Check):
    measure(c, "integral")


# ------------------------------------------------------------------ finite elements
def elements(c: Check, asked):
    """asked: space, system or field"""
    shapes = ((1, 1), (2, 1), (2, 2))
    exes = c.compile_all([("fem.cc", ["-DDIM=%d" % d, "-DDEGREE=%d" % k]) for d, k in shapes])
    inv = ["TypeOK", "ElementaryOnce", "PartitionOnce"]
    for (d, k), exe in zip(shapes, exes):
        label = "elements of degree %d in %dD" % (k, d)
        consts = {"N": d, "D": d, "K": k, "Asked": '"%s"' % asked}
        cases = c.model("FemMC", cfg("MCSpec", dict(consts, Depth=0, MaxCells=c.pick(2, 3)), inv, action_constraint="EmitEdge"),
                        "all small meshes, " + label)
        cases = cases[::max(1, len(cases) // c.pick(400, 8000))]
        runs = c.simulate("FemMC", cfg("SimSpec", dict(consts, Depth=40, MaxCells=0), inv[:1], constraint="EmitRun"),
                          "random meshes, " + label, c.pick(48, 800), 40, procs=8)
        tcfg = cfg("TSpec", {"N": d, "D": d, "K": k}, ["TypeOK"], postcondition="Accepted")
        c.conform(exe, cases + runs, "FemTrace", tcfg, label)


@check("P26")
def function_spaces(c: Check):
    elements(c, "space")


@check("P27")
def systems(c: Check):
    elements(c, "system")


@check("P29")
def fem_fields(c: Check):
    elements(c, "field")


# ------------------------------------------------------------------ geometric simplices
@check("P19")
def geometric_simplices(c: Check):
    dims = (1, 2, 3)
    exes = c.compile_all([("gsimplex.cc", ["-DCELL_D=%d" % d]) for d in dims])
    inv = ["GTypeOK", "OneForEach"]
    for d, exe in zip(dims, exes):
        consts = {"D": d, "V": d + 2, "Depth": 0}
        cases = c.model("GSimplexMC", cfg("MCSpec", {**consts, "Handles": ints(2), "MaxNodes": d + 1}, inv,
                                          ["NodesStay"], view="View", action_constraint="EmitEdge"),
                        "every simplex of %d nodes and every operation on it, %dD" % (d + 1, d))
        runs = c.simulate("GSimplexMC", cfg("SimSpec", {**consts, "V": 6, "Handles": ints(5), "MaxNodes": 9,
                                                        "Depth": 60}, inv, constraint="EmitRun"),
                          "random histories, %dD" % d, c.pick(60, 1500), 60, procs=c.pick(4, 8))
        tcfg = cfg("TSpec", {"D": d, "V": 6, "Handles": ints(5)}, inv, postcondition="Accepted")
        cases = cases[::c.pick(max(1, len(cases) // 1200), 1)]
        c.conform(exe, cases, "GSimplexTrace", tcfg, "transitions replayed, %dD" % d)
        c.conform(exe, runs, "GSimplexTrace", tcfg, "random histories replayed, %dD" % d)


# ------------------------------------------------------------------ fields
@check("P30")
def fields(c: Check):
    inv = ["TypeOK", "MixedPartials", "ProductRules", "DivergenceOfTransposedGradient"]
    consts = {"Depth": 18, "Budget": c.pick(250, 500)}
    tour = c.model("FieldsMC", cfg("TourSpec", consts, inv, action_constraint="EmitTour"),
                   "gradients and divergences of monomials")
    tour = tour[::c.pick(max(1, len(tour) // 70), 1)]
    runs = c.simulate("FieldsMC", cfg("SimSpec", consts, inv, constraint="EmitRun"),
                      "random fields", c.pick(160, 2500), 18, procs=8, per_prefix=1)
    cases = tour + runs
    exe = c.generated("fields_main.cc", "fields.h", cases, cpp.fields_case)
    tcfg = cfg("TSpec", {}, ["TypeOK"], postcondition="Accepted")
    c.conform(exe, [["use %d" % k] for k in range(len(cases))], "FieldsTrace", tcfg, "fields")


# ------------------------------------------------------------------ what meshes are put to
def uses(c: Check, use, dims, small, runs, depth):
    fine = int(use == "files")
    exes = c.compile_all([("mesh_use.cc", ["-DCELL_N=%d" % n, "-DCELL_D=%d" % d, "-DFINE=%d" % fine], ["-lmetis"]) for n, d in dims])
    inv = ["TypeOK"]
    for (n, d), exe in zip(dims, exes):
        label = "%d-cells in %dD" % (n, d)
        consts = {"N": n, "D": d, "Fine": fine, "Meshes": ints(2), "Fields": ints(3), "MaxParts": 4, "Use": '"%s"' % use}
        tcfg = cfg("TSpec", {"N": n, "D": d, "Fine": fine, "Meshes": ints(2), "Fields": ints(3)}, inv, postcondition="Accepted")
        if (n, d) in small:
            cases = c.model("MeshUseMC", cfg("SmallSpec", dict(consts, Depth=0, MaxNodes=n + 2, MaxCells=2), inv,
                                             ["Apart"], action_constraint="EmitEdge"),
                            "every mesh of at most two cells on %d nodes, %s" % (n + 2, label))
            cases = cases[::max(1, len(cases) // c.pick(400, 20000))]
            c.conform(exe, cases, "MeshUseTrace", tcfg, "small meshes, " + label)
        cases = c.simulate("MeshUseMC", cfg("SimSpec", dict(consts, Depth=depth, MaxNodes=n + 8, MaxCells=14),
                                            inv + ["SitesDiffer"], ["Apart"], constraint="EmitRun"),
                           "random histories, " + label, c.pick(*runs), depth, procs=c.pick(4, 8))
        c.conform(exe, cases, "MeshUseTrace", tcfg, "random histories, " + label)


@check("P24")
def discrete_fields(c: Check):
    uses(c, "fields", [(1, 1), (2, 2), (2, 3), (3, 3)], [(1, 1), (2, 2)], (60, 1200), 80)


@check("P23")
def partitions(c: Check):
    uses(c, "parts", [(1, 1), (2, 2), (2, 3), (3, 3)], [(1, 1), (2, 2)], (60, 1200), 60)


@check("P32")
def summit_files(c: Check):
    uses(c, "files", [(1, 1), (1, 3), (2, 2), (2, 3), (3, 3)], [(1, 1), (2, 2)], (60, 1200), 60)


@check("P33")
def vtk_grids(c: Check):
    # dimension of cells and of space, coordinates that are curved, order of the elements
    kinds = [(1, 1, 0, 1), (1, 2, 1, 0), (2, 2, 0, 1), (2, 2, 0, 2), (2, 2, 1, 0), (2, 3, 1, 0), (3, 3, 0, 0), (3, 3, 1, 0)]
    exes = c.compile_all([("mesh_use.cc", ["-DGRIDS", "-I%s/vtk" % HARNESS, "-DCELL_N=%d" % n, "-DCELL_D=%d" % d]
                           + ["-DCURVED"] * curved + ["-DELEMENT=%d" % k] * (k > 0), ["-lmetis"]) for n, d, curved, k in kinds])
    inv = ["TypeOK", "GridTypeOK"]
    for (n, d, curved, k), exe in zip(kinds, exes):
        label = "%d-cells in %dD%s%s" % (n, d, ", curved coordinates" * curved, ", elements of order %d" % k if k else "")
        common = {"N": n, "D": d, "Fine": 0, "Meshes": ints(2), "Fields": ints(3), "Writers": ints(2)}
        consts = dict(common, MaxParts=4, Use='"fields"', Spaces=int(k > 0))
        tcfg = cfg("GTSpec", common, inv, postcondition="Accepted")
        if k == 1 or c.tier == "thorough" and (n, d) in ((1, 1), (2, 2)):
            cases = c.model("GridsMC", cfg("GSmallSpec", dict(consts, Depth=0, MaxNodes=n + 2, MaxCells=2), inv,
                                           ["Apart", "WritersApart"], action_constraint="EmitWrite"),
                            "every grid of at most two cells on %d nodes, %s" % (n + 2, label))
            cases = cases[::max(1, len(cases) // c.pick(300, 20000))]
            c.conform(exe, cases, "GridsTrace", tcfg, "small grids, " + label)
        cases = c.simulate("GridsMC", cfg("GSimSpec", dict(consts, Depth=80, MaxNodes=n + 8, MaxCells=12),
                                          inv + ["SitesDiffer"], ["Apart", "WritersApart"], constraint="EmitRun"),
                           "random histories, " + label, c.pick(24, 1000), 80, procs=c.pick(4, 8))
        c.conform(exe, cases, "GridsTrace", tcfg, "random histories, " + label)


# ------------------------------------------------------------------ linear systems
PETSC = ["-L/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/lib", "-lpetsc_real",
         "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]


@check("P15")
def linear_systems(c: Check):
    src = os.path.join(REPO, "lib", "mito", "matrix_solvers", "backend", "petsc")
    exe = c.compile_all([("linear.cc", [os.path.join(src, "PETScLinearSystem.cc"),
                                        os.path.join(src, "PETScKrylovSolver.cc")], PETSC)])[0]
    sets = {"Systems": ints(3), "Solvers": ints(4), "Labels": ints(2)}
    consts = {**sets, "Depth": 0, "MaxSize": 5, "MaxLength": c.pick(7, 8)}
    inv = ["TypeOK", "Solves"]
    tcfg = cfg("TSpec", sets, ["TypeOK"], postcondition="Accepted")
    cases = c.model("LinearMC", cfg("OptSpec", consts, inv, action_constraint="EmitEdge"),
                    "every two options told, twice, to solvers of the same or of two labels")
    cases = cases[::c.pick(max(1, len(cases) // 1500), 1)]
    c.conform(exe, cases, "LinearTrace", tcfg, "options")
    cases = c.model("LinearMC", cfg("SmallSpec", consts, inv, action_constraint="EmitEdge"),
                    "every way to fill two equations")
    cases = cases[::c.pick(max(1, len(cases) // 1500), max(1, len(cases) // 40000))]
    c.conform(exe, cases, "LinearTrace", tcfg, "systems filled")
    runs = c.simulate("LinearMC", cfg("SimSpec", dict(consts, Depth=120), inv[:1], ["Private"], constraint="EmitRun"),
                      "random histories", c.pick(160, 3000), 120, procs=8)
    c.conform(exe, runs, "LinearTrace", tcfg, "random histories")
    runs = c.simulate("LinearMC", cfg("BigSpec", dict(consts, Depth=60), inv[:1], ["Private"], constraint="EmitRun"),
                      "random histories of large systems", c.pick(80, 1200), 60, procs=8)
    c.conform(exe, runs, "LinearTrace", tcfg, "large systems")


# ------------------------------------------------------------------ materials
@check("P14")
def materials(c: Check):
    exe = c.compile_all([("materials.cc", ["-fsanitize=address"])])[0]
    consts = {"Q": 2, "Depth": 0, "MaxEntry": 6, "MaxSteps": c.pick(2, 3)}
    inv = ["TypeOK", "ElasticConsistent", "Major", "GentStress", "GentTangent", "TangentsSymmetric", "NoStressAtRest", "TurnsBack"]
    tcfg = cfg("TSpec", {"Q": 2}, ["TypeOK"], postcondition="Accepted")
    cases = c.model("MaterialsMC", cfg("SmallSpec", consts, inv, view="View", action_constraint="EmitEdge"),
                    "every deformation of a few components by halves")
    cases = cases[::c.pick(max(1, len(cases) // 300), max(1, len(cases) // 6000))]
    c.conform(exe, cases, "MaterialsTrace", tcfg, "few components")
    runs = c.simulate("MaterialsMC", cfg("SimSpec", dict(consts, Depth=c.pick(24, 40)), inv, constraint="EmitRun"),
                      "random deformations and materials", c.pick(96, 2000), c.pick(24, 40), procs=8)
    c.conform(exe, runs, "MaterialsTrace", tcfg, "random histories")


if __name__ == "__main__":
    sys.exit(main(CHECKS))
