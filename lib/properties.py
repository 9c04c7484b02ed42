"""What each property's check runs."""

LEVEL = ("Exhaustive over the specification's bounded models where the property has one; for the "
         "implementation, every event recorded from the driven runs is decided by the "
         "specification (seeded generation plus enumerated small configurations). Trusts the "
         "compiler, TLC with the binary64 override of java/F64.java, and the drivers' recording.")


class Prop:
    def __init__(self, run, note, replay, level_note):
        self.run, self.note, self.replay, self.level_note = run, note, replay, level_note


REGISTRY = {}


def prop(pid, note, replay=False, level_note=LEVEL):
    def deco(fn):
        REGISTRY[pid] = Prop(fn, note, replay, level_note)
        return fn
    return deco


def design(x, module, invariants, consts, faulty=None, base=None):
    """An exhaustive model of the specification, and a faulty variant of it that must be refuted."""
    base = STATE if base is None else base
    def cfg(c):
        return (f"SPECIFICATION Spec\nINVARIANTS {invariants}\nCONSTANTS\n"
                + "".join(f" {k} {'' if str(v).startswith('<-') else '= '}{v}\n" for k, v in c.items()))
    x.model(module, cfg({**base, **consts}))
    if faulty:
        x.refuted(module, cfg({**base, **consts, **faulty}))


STATE = {"THERMAL": "FALSE", "MULTI": "FALSE", "LSET": 0}
NODES = {**STATE, "N": 2}
SCHEMES = {**NODES, "NOCORNERS": "TRUE", "PRIM": "FALSE"}
LEVELS = {**NODES, "LSET": 1}


def physics(x, invariant, faulty=None):
    for thermal in ("FALSE", "TRUE"):
        design(x, "MC_Physics", invariant, {"THERMAL": thermal, "Deep": x.q("FALSE", "TRUE"), "Factor": "FALSE"},
               faulty if thermal == "FALSE" else None)


def timing(x, invariants, faulty=None):
    design(x, "MC_Loop", invariants,
           {"ROTATE": "FALSE", "H": "<- SmallH", "SmallH": x.q(4, 5), "Speeds": x.q("{2, 5, 12}", "{1, 2, 5, 12}"),
            "MaxSteps": 12, "NoRoom": "FALSE"}, faulty, NODES)


def filling(x):
    design(x, "MC_Fill", "OwnKept Originals LayersAreLayers FromTheInterface MarkedAreOurs",
           {"MaxCells": x.q(7, 9), "Immediate": "FALSE", "OneSweep": "FALSE"}, {"Immediate": "TRUE"}, LEVELS)


@prop("C12", "closure relations of single-phase materials")
def c12(x):
    physics(x, "Closure", {"Factor": "TRUE"})
    t = x.drive("closure")
    x.validate("T_Closure", t, expect=["pressure", "tempmg"])


@prop("C13", "terms of the governing equations and their Jacobians")
def c13(x):
    physics(x, "Equations")
    kinds = ["flux", "source", "bdot", "block", "jacobians"]
    x.validate("T_Equations", x.drive("equations"), expect=kinds)
    x.validate("T_Equations", x.drive("equations", "full"), "full", expect=kinds)


@prop("C01", "ghost layers: provenance model over all small grids; recorded extensions", True)
def c01(x):
    x.model("MC_Grid", "SPECIFICATION Spec\nINVARIANTS SourceInside Distances\nCONSTANTS\n MaxN = 3\n"
            f" MaxG = {x.q(2, 3)}\n MaxMask = 0\n")
    use = ("THERMAL", "MULTI", "LSET", "N")
    x.validate("T_Grid", x.drive("grid", part="bounds"), expect=["boundaries"],
               consts={"DESTRESS": "FALSE"}, use=use)
    x.validate("T_Grid", x.drive("grid", "destress", "bounds"), "destress", expect=["boundaries"],
               consts={"DESTRESS": "TRUE"}, use=use)
    x.validate("T_Grid", x.drive("grid", "n3", "bounds"), "n3", expect=["boundaries"],
               consts={"DESTRESS": "FALSE"}, use=use)


@prop("C02", "working masks: all masks of small grids in the model and on the implementation; masked steps", True)
def c02(x):
    x.model("MC_Grid", "SPECIFICATION Spec\nINVARIANTS FacesMarked\nCONSTANTS\n MaxN = 0\n"
            f" MaxG = 0\n MaxMask = {x.q(3, 4)}\n")
    x.validate("T_Grid", x.drive("grid", part="mask"), expect=["mask", "maskedstep"],
               consts={"DESTRESS": "FALSE"}, use=("THERMAL", "MULTI", "LSET", "N"))


@prop("C14", "wave speeds, acoustic tensors and eigenvectors of random states of every material")
def c14(x):
    physics(x, "Signals")
    use = ("THERMAL", "MULTI", "LSET", "N")
    for v in ("default", "full"):
        x.validate("T_Waves", x.drive("waves", v, "waves"), v, expect=["eigs", "tensor", "eigen"], use=use)


@prop("C18", "Rusanov, Roe and Osher fluxes and jump terms of random pairs of states")
def c18(x):
    for n, thermal in ((2, "FALSE"),) + x.q((), ((3, "TRUE"),)):
        design(x, "MC_Flux", "Holds", {"N": n, "THERMAL": thermal, "OneSided": "FALSE"}, {"OneSided": "TRUE"}, LEVELS)
    use = ("THERMAL", "MULTI", "LSET", "N")
    for v in ("default", "n3") + x.q((), ("full",)):
        x.validate("T_Waves", x.drive("waves", v, "fluxes"), v, expect=["fluxpair", "jump"], use=use)


SCHEME = {"default": ("TRUE", "FALSE"), "n3": ("TRUE", "FALSE"), "n4": ("TRUE", "FALSE"),
          "corners": ("FALSE", "FALSE"), "prim": ("TRUE", "TRUE"), "full": ("TRUE", "FALSE"),
          "thermal": ("TRUE", "FALSE")}
USE = ("THERMAL", "MULTI", "LSET", "N")


def scheme(x, part, variants, expect):
    for v in variants:
        nc, pr = SCHEME[v]
        x.validate("T_Scheme", x.drive("scheme", v, part), v, expect=expect, use=USE,
                   consts={"NOCORNERS": nc, "PRIM": pr})


@prop("C16", "reconstructions of random, rough, discontinuous and polynomial data on small grids")
def c16(x):
    for n, values in ((2, "{0, 1, 3, 10}"), (3, x.q("{0, 1, 3}", "{0, 1, 3, 10}"))) + x.q((), ((4, "{0, 1}"),)):
        design(x, "MC_Weno", "Holds", {"N": n, "Values": values, "MaxRow": 14, "Lopsided": "FALSE"},
               {"Lopsided": "TRUE"} if n == 2 else None, SCHEMES)
    scheme(x, "weno", ("default", "n3") + x.q((), ("n4", "corners", "prim")), ["basis", "weno"])


@prop("C04", "finite-volume updates of random polynomials on small grids, with masks; uniform states")
def c04(x):
    design(x, "MC_Update", "Holds", {"MaxN": x.q(3, 4), "BothUp": "FALSE"}, {"BothUp": "TRUE"}, SCHEMES)
    scheme(x, "fv", ("default",) + x.q((), ("n3", "full")), ["fv", "uniform"])


@prop("C17", "ADER steps against the specification's own predictor; half steps of the split scheme")
def c17(x):
    design(x, "MC_Predict", "Holds", {"LSET": 1, "SameWidth": "FALSE", "THERMAL": x.q("FALSE", "TRUE")},
           {"SameWidth": "TRUE"}, SCHEMES)
    scheme(x, "mid", ("default",) + x.q((), ("n3", "full")), ["mid"])
    scheme(x, "ader", ("default",) + x.q((), ("n3", "thermal")), ["ader"])


@prop("C11", "signed distances of every sign pattern on small grids and of planes, circles, noise, tiny values "
      "and fields without an interface")
def c11(x):
    for wide in x.q((1,), (1, 3)):
        design(x, "MC_March", "Distances TiesDoNotMatter",
               {"MaxCells": x.q(8, 9), "Below": "{2}", "Above": "{1}", "Wide": wide, "AnyTrial": "FALSE"},
               {"AnyTrial": "TRUE", "MaxCells": 7}, LEVELS)
    x.validate("T_Multi", x.drive("multi", part="level"), expect=["renorm", "distance"], use=USE)


@prop("C10", "ghost filling of every sign pattern of small grids and of random arrangements of two and three "
      "materials")
def c10(x):
    filling(x)
    x.validate("T_Multi", x.drive("multi", part="ghost"), expect=["pattern", "ghost"], use=USE)


@prop("C08", "merges of random grids, masks and materials")
def c08(x):
    for lset, levels in ((1, "{0, 1, 2}"), (2, "{1}")) + x.q((), ((2, "{0, 1}"),)):
        design(x, "MC_Owner", "Holds", {"LSET": lset, "Levels": levels, "OldOwner": "FALSE"}, {"OldOwner": "TRUE"}, NODES)
    x.validate("T_Multi", x.drive("multi", part="merge"), expect=["merge"], use=USE)


def loop(x, part, variants, expect):
    for v in variants:
        x.validate("T_Loop", x.drive("loop", v, part, env={"ROTATE": str(int(v == "rotate"))}), v, expect=expect, use=USE,
                   consts={"ROTATE": "TRUE" if v == "rotate" else "FALSE"})


@prop("C06", "time steps of random grids, masks and materials")
def c06(x):
    timing(x, "InTime Forward")
    loop(x, "time", ("default",), ["timestep"])


@prop("C22", "rescaling, rotation and contortion of random states; resets seen in runs of the main loop")
def c22(x):
    design(x, "MC_Keep", "Holds", {"ROTATE": "FALSE", "Forget": "FALSE"}, {"Forget": "TRUE"}, LEVELS)
    loop(x, "maintain", ("default",) + x.q((), ("full",)), ["rescale", "rotate", "contorted"])
    loop(x, "loop", ("default",), ["step"])


@prop("C07", "every step of short runs rebuilt from its parts; histories of short and long runs")
def c07(x):
    timing(x, "InTime Forward Room EndedHistory FailedHistory Contiguous", {"NoRoom": "TRUE"})
    loop(x, "loop", ("default", "rotate") + x.q((), ("lset0", "full")), ["step", "sched"])


@prop("C03", "the parallel step as a model of threads over all interleavings; steps and ghost filling with 1 to 9 "
      "threads")
def c03(x):
    slabs = "SPECIFICATION Spec\nINVARIANTS Partition Deterministic InBounds\nCONSTANTS\n"
    x.model("MC_Slabs", slabs + f" MaxRows = {x.q(4, 6)}\n MaxThreads = {x.q(4, 4)}\n G = 1\n SharedUb = FALSE\n")
    x.refuted("MC_Slabs", slabs + " MaxRows = 2\n MaxThreads = 2\n G = 1\n SharedUb = TRUE\n")
    for v in ("default",) + x.q((), ("n3",)):
        x.validate("T_Threads", x.drive("threads", v), v, expect=["threads"], use=())


@prop("C15", "relaxation steps of random states of every material against the specification's own integration")
def c15(x):
    design(x, "MC_Relax", "Holds", {"THERMAL": "TRUE", "Deep": x.q("FALSE", "TRUE"), "Coarse": "FALSE"},
           {"Coarse": "TRUE"})
    for v in ("default", "thermal") + x.q((), ("full",)):
        x.validate("T_Relax", x.drive("relax", v), v, expect=["relax"])


@prop("C19", "star steps and whole interface solutions of random pairs of materials, and next to vacuum; rotated "
      "axes; equal states; failures")
def c19(x):
    for stick, thermal in (("TRUE", "FALSE"),) + x.q((), (("FALSE", "FALSE"), ("TRUE", "TRUE"))):
        design(x, "MC_Star", "Holds", {"THERMAL": thermal, "STICK": stick, "Deep": "FALSE" if thermal == "TRUE" else x.q("FALSE", "TRUE"), "Arriving": "FALSE"},
               {"Arriving": "TRUE"})
    for v in ("default", "norelax", "stick", "thermal") + x.q((), ("full",)):
        stick = v == "stick"
        x.validate("T_Star", x.drive("star", v, env={"RELAX": str(int(v != "norelax")), "STICK": str(int(stick))}), v,
                   expect=["starstep", "starsolve", "starpair", "turned", "alone", "kept"], use=("THERMAL", "MULTI", "LSET"),
                   consts={"STICK": str(stick).upper()})


@prop("C20", "linear systems with every kind of preconditioner, start and recycled direction, followed cycle by cycle; roots "
      "of systems of equations; one-variable integrators; polynomials")
def c20(x):
    for size, entries in ((2, "{0, 1, 2}"),) + x.q((), ((3, "{0, 1}"),)):
        design(x, "MC_Krylov", "Holds", {"Size": size, "Entries": entries, "Deep": "FALSE", "Skewed": "FALSE"},
               {"Skewed": "TRUE"}, {})
    for v in ("default",) + x.q((), ("n3", "n4")):
        x.validate("T_Solve", x.drive("solve", v), v, expect=["linear", "root", "rk", "stiff", "poly"], use=("N",))


@prop("C25", "equilibria of mixtures and their Jacobians; rates of reaction; reaction steps of mixtures and single phases "
      "under every rate law")
def c25(x):
    design(x, "MC_Mix", "Holds", {"MULTI": "TRUE", "Deep": x.q("FALSE", "TRUE"), "Blend": "FALSE"}, {"Blend": "TRUE"})
    for v in ("multi",) + x.q((), ("full",)):
        kinds = ["mixture", "rate", "react", "launch"] + (["jacobian"] if v == "multi" else [])
        x.validate("T_React", x.drive("react", v), v, expect=kinds)


@prop("C23", "pairs of steps related by every signed permutation of the axes, shifts of periodic grids and the embedding of "
      "one-dimensional grids")
def c23(x):
    design(x, "MC_Sym", "Holds", {"THERMAL": "TRUE", "LSET": 1, "Plain": "FALSE"}, {"Plain": "TRUE"})
    for v in ("default", "corners") + x.q((), ("n3", "full")):
        x.validate("T_Sym", x.drive("sym", v, env={"CORNERS": str(int(v == "corners"))}), v, expect=["sym"], use=USE)


@prop("C24", "parameters of descriptions of materials; conserved variables of described states, as the solver sees them; variables "
      "of states; hyperelastic descriptions")
def c24(x):
    physics(x, "Closure", {"Factor": "TRUE"})
    for v in ("default", "full") + x.q((), ("thermal", "multi", "lset0")):
        x.validate("T_Front", x.drive("front", v), v, expect=["params", "hyperparams", "cvec", "state", "speeds", "hyper", "index"])
