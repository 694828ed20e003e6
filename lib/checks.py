"""The checks, one function per property."""
import collections, json, os
import vf

REGISTRY = {}


def prop(*names, level="model_checking"):
    def deco(fn):
        for n in names:
            REGISTRY[n] = (level, fn)
        return fn
    return deco


CORE = ["src/ext/Version.cpp", "src/ext/Mpi.cpp", "src/counter/Counter.cpp",
        "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp"]
OPTS = ["src/ext/ProgramOptions.cpp"]
SPLIT = ["src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp",
         "src/split_method/StrangSplittingLumped.cpp"]


def parts(name, n):
    return [(name, ["-DPART=%d" % i]) for i in range(n)]


def run_harness(chk, exe, args=(), timeout=None, name="traces.ndjson", env=None, launcher=()):
    """Run a harness that writes its traces to a file (its first argument).
    Exit status 70 means that the code under test crashed; the trace ends in a
    crash event, which the trace specification rejects."""
    out = chk.path(name)
    e = {"VERIF_SEED": str(chk.seed), "VERIF_TIER": chk.tier}
    e.update(env or {})
    r = vf.run(list(launcher) + [exe, out] + list(args), env=e, cwd=chk.dir,
               timeout=timeout or (3600 if chk.thorough else 400))
    if r.rc not in (0, 70):
        raise vf.CheckError("harness ended with %s\n%s\n%s" % (r.rc, r.out[-2000:], r.err[-3000:]))
    return out, r


def mpi_harness(chk, exe, np, args=(), name="mpi.ndjson", timeout=200):
    """Run a harness on several processes; each writes FILE.RANK.  Returns one
    file with the traces of all of them."""
    out = chk.path(name)
    e = {"VERIF_SEED": str(chk.seed), "VERIF_TIER": chk.tier, "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
         "OMPI_MCA_rmaps_base_oversubscribe": "1", "TMPDIR": chk.dir}
    r = vf.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np), exe, out] + list(args),
               env=e, cwd=chk.dir, timeout=timeout if not chk.thorough else 4 * timeout)
    lines = []
    for k in range(np):
        try:
            with open("%s.%d" % (out, k)) as f: lines += [x for x in f if x.endswith("]}\n")]
        except OSError: pass
    crashed = r.rc != 0
    if crashed and not any('"crash"' in x for x in lines):
        if not lines: raise vf.CheckError("harness ended with %s\n%s\n%s" % (r.rc, r.out[-2000:], r.err[-3000:]))
        lines.append(lines[-1][:-3] + ',{"a":"crash"}]}\n')  # killed before it could write
    with open(out, "w") as f: f.writelines(lines)
    return out, r


def summarize(chk, tracefile, nsamples=2):
    """Measured facts about the traces for the evidence file."""
    kinds = collections.Counter()
    lens = 0
    n = 0
    samples = []
    with open(tracefile) as f:
        for line in f:
            n += 1
            if n in (1, 101, 5001)[:nsamples + 1] and len(line) < 6000:
                samples.append(json.loads(line))
            for part in line.split('"a":"')[1:]:
                kinds[part[:part.index('"')]] += 1
                lens += 1
    chk.cov["events"] = chk.cov.get("events", 0) + lens
    chk.cov["event_kinds"] = dict(kinds)
    chk.cov["samples"] += samples[:nsamples]


def traced(chk, exe, module, args=(), model=None, cfg=None, env=None, launcher=(), name="traces.ndjson"):
    """Design model, harness run, trace validation."""
    for m in model or ():
        chk.model(*m)
    out, r = run_harness(chk, exe, args, env=env, launcher=launcher, name=name)
    summarize(chk, out)
    chk.cov.setdefault("harness", []).append(r.out.strip()[-400:])
    return vf.validate(chk, module, cfg or module + ".cfg", out, None,
                       env={"PROP": chk.prop}, timeout=7000 if chk.thorough else 700)


# ---------------------------------------------------------------- the driver
@prop("C01", "C02", "C03")
def driver(chk):
    exe = vf.build("driver", ["driver.cpp"], ["src/RunSimulation.cpp"] + CORE + OPTS)
    chk.assumptions += [
        "the solver handed to the driver copies deeply and its stable time step depends on the contents of the grid only",
        "time is observed on an integer grid of user-chosen units (1e-5 to 3 seconds), estimates are larger than the smallest step"]
    traced(chk, exe, "DriverTrace",
           model=[("MCDriver", "MCDriver_thorough.cfg" if chk.thorough else "MCDriver.cfg")])


# ------------------------------------------------------ the hierarchy's step
@prop("C04", "C05", "C06", "C07", "C08", "C10")
def amr(chk):
    exe = vf.build("amr", parts("amr.cpp", 4), CORE + SPLIT)
    chk.assumptions += [
        "the integrator context performs each operation as named (the AMReX and SAMRAI contexts are not built here); its regridding conserves mass and reports the first changed level",
        "fluxes, masses and times are small integers, so that every loss or double counting shows"]
    traced(chk, exe, "AmrTrace",
           model=[("MCAmr", "MCAmr_thorough.cfg" if chk.thorough else "MCAmr.cfg")])
    if chk.prop == "C08":  # stable steps that differ between processes
        out, r = mpi_harness(chk, exe, 3)
        vf.validate(chk, "AmrTrace", "AmrTrace.cfg", out, None, env={"PROP": chk.prop})


@prop("C09")
def splitting(chk):
    exe = vf.build("splitting", ["splitting.cpp"], SPLIT)
    chk.assumptions += ["steps are dyadic multiples of the smallest step, as the methods only halve"]
    traced(chk, exe, "SplittingTrace", model=[("MCSplitting", "MCSplitting.cfg")])


# ------------------------------------------------------- index boxes and views
@prop("C12")
def index_space(chk):
    exe = vf.build("index", ["index.cpp"])
    traced(chk, exe, "IndexSpaceTrace",
           model=[("MCIndexSpace", "MCIndexSpace_thorough.cfg" if chk.thorough else "MCIndexSpace.cfg")])


# ---------------------------------------------------- conservative patch update
@prop("C11")
def patch_update(chk):
    exe = vf.build("patch", ["patch.cpp"], ["src/HyperbolicPatchIntegrator.cpp"])
    chk.assumptions += ["next and previous states are views of the same box, as everywhere in the code; values are integers and dt/dx is exact in binary"]
    traced(chk, exe, "PatchUpdateTrace",
           model=[("MCPatchUpdate", "MCPatchUpdate_thorough.cfg" if chk.thorough else "MCPatchUpdate.cfg")])


# --------------------------------------------------- states in memory and back
@prop("C13")
def state_transfer(chk):
    exe = vf.build("state", parts("state.cpp", 6))
    chk.assumptions += ["all variables of a view that is traversed by rows or pointers share their strides, as the library assumes"]
    traced(chk, exe, "StateTransferTrace",
           model=[("MCStateTransfer", "MCStateTransfer_thorough.cfg" if chk.thorough else "MCStateTransfer.cfg")])


# ------------------------------------------- sweeps of methods over patches
@prop("C14")
def flux_sweep(chk):
    exe = vf.build("flux", parts("flux.cpp", 3))
    chk.assumptions += ["the method under the sweep is a stand-in with integer values; patches hold at least one stencil"]
    traced(chk, exe, "FluxSweepTrace",
           model=[("MCFluxSweep", "MCFluxSweep_thorough.cfg" if chk.thorough else "MCFluxSweep.cfg")])


# ------------------------------------------------- boundaries and rotations
GAS = ["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/IdealGasMix.cpp",
       "src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp",
       "src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp"]


@prop("C15")
def boundary(chk):
    exe = vf.build("boundary", [("boundary.cpp", ["-I" + vf.HARNESS + "/stubs"]), "radau_stub.cpp"],
                   ["src/boundary_condition/ReflectiveBoundary.cpp"] + GAS)
    chk.assumptions += ["transmissive boundaries are observed through stand-ins for the AMReX patch types"]
    traced(chk, exe, "BoundaryTrace",
           model=[("MCBoundary", "MCBoundary_thorough.cfg" if chk.thorough else "MCBoundary.cfg")])


# ----------------------------------------------------------------- tagging
@prop("C16")
def tagging(chk):
    exe = vf.build("tagging", ["tagging.cpp"],
                   ["src/tagging_method/TagBuffer.cpp", "src/tagging_method/TagCutCells.cpp", "src/equations/PerfectGas.cpp"])
    chk.assumptions += ["values are small integers; cells whose gradient equals the tolerance exactly are not judged"]
    traced(chk, exe, "TaggingTrace",
           model=[("MCTagging", "MCTagging_thorough.cfg" if chk.thorough else "MCTagging.cfg")])


# ------------------------------------------------- equations as formulas
EQS = ["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/ShallowWater.cpp",
       "src/equations/Advection.cpp", "src/equations/Burgers.cpp"]
REALS = "real numbers are evaluated with 40 digits (powers with 15) by spec/java/Num.java, results of the code are compared with tolerances of a few hundred ulps of the terms that they are computed from"


@prop("C18")
def laws(chk):
    exe = vf.build("laws", parts("laws.cpp", 6), EQS)
    chk.assumptions += [REALS, "reference Mach numbers other than one are judged for fluxes and changes of variables only"]
    traced(chk, exe, "LawsTrace", model=[("MCLaws", "MCLaws_thorough.cfg" if chk.thorough else "MCLaws.cfg")])


# ------------------------------------------- approximate Riemann solvers
def glob_src(*patterns):
    import glob
    out = []
    for p in patterns: out += sorted(os.path.relpath(x, vf.REPO) for x in glob.glob(os.path.join(vf.REPO, p)))
    return out


@prop("C19")
def riemann_flux(chk):
    exe = vf.build("riemann", parts("riemann.cpp", 5),
                   ["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/ShallowWater.cpp"]
                   + glob_src("src/equations/perfect_gas/EinfeldtSignalVelocities_*.cpp", "src/equations/perfect_gas/HllemMethod_*.cpp",
                              "src/equations/perfect_gas_mix/EinfeldtSignalVelocities_*.cpp", "src/equations/perfect_gas_mix/HllemMethod_*.cpp"))
    chk.assumptions += [REALS, "Einfeldt's speeds may use all or the normal part of the velocity in the linearized sound speed",
                        "intermediate states of HLLEM are observed for states near enough to have a physical one"]
    traced(chk, exe, "RiemannFluxTrace",
           model=[("MCRiemannFlux", "MCRiemannFlux_thorough.cfg" if chk.thorough else "MCRiemannFlux.cfg")])


# --------------------------------------------------- exact Riemann solvers
@prop("C20")
def exact_riemann(chk):
    exe = vf.build("exact", parts("exact.cpp", 4),
                   ["src/equations/PerfectGas.cpp", "src/equations/ShallowWater.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp"]
                   + glob_src("src/equations/perfect_gas/ExactRiemannSolver_*.cpp", "src/equations/perfect_gas/GodunovMethod_*.cpp"))
    chk.assumptions += [REALS, "the middle state is judged by the residual of its equation (Newton's method stops at 1e-7), the rest with the middle state of the code",
                        "pairs of states between which a vacuum would appear are left out"]
    traced(chk, exe, "ExactRiemannTrace",
           model=[("MCExactRiemann", "MCExactRiemann_thorough.cfg" if chk.thorough else "MCExactRiemann.cfg")])

# ---------------------------------------- reconstruction, MUSCL, Runge-Kutta
@prop("C21")
def reconstruction(chk):
    exe = vf.build("recon", parts("recon.cpp", 6),
                   ["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/ShallowWater.cpp"]
                   + glob_src("src/equations/perfect_gas/*.cpp", "src/equations/perfect_gas_mix/HllemMethod_*.cpp",
                              "src/equations/perfect_gas_mix/EinfeldtSignalVelocities_*.cpp"))
    chk.assumptions += [REALS, "stencils are mild enough for all reconstructed states to be physical",
                        "the states given to the Riemann solver are read off a recording solver; the fluxes of complete methods are those of C19 for these states"]
    traced(chk, exe, "ReconstructionTrace",
           model=[("MCReconstruction", "MCReconstruction_thorough.cfg" if chk.thorough else "MCReconstruction.cfg")])


# ------------------------------------------------ wrappers with value semantics
@prop("C17")
def type_erasure(chk):
    exe = vf.build("erase", ["erase.cpp"])
    chk.assumptions += ["wrappers without an empty state of their own are not called after they have been moved from; nothing is said about a move onto itself"]
    traced(chk, exe, "TypeErasureTrace",
           model=[("MCTypeErasure", "MCTypeErasure_thorough.cfg" if chk.thorough else "MCTypeErasure.cfg")])


# ------------------------------------------------------- counters and timers
@prop("C23")
def counters(chk):
    exe = vf.build("counters", ["counters.cpp"], CORE)
    chk.assumptions += [REALS, "all processes have counters of the same names when the statistics are gathered",
                        "times are judged by clock readings of the harness around the operations"]
    traced(chk, exe, "CountersTrace",
           model=[("MCCounters", "MCCounters_thorough.cfg" if chk.thorough else "MCCounters.cfg")])
    out, r = mpi_harness(chk, exe, 3)
    vf.validate(chk, "CountersTrace", "CountersTrace.cfg", out, None, env={"PROP": chk.prop})


# ------------------------------------------------------- implicit geometries
@prop("C22")
def geometry(chk):
    exe = vf.build("geometry", ["geometry.cpp"], ["src/geometry/%s.cpp" % x for x in ("Cone", "ExpandTube", "Halfspace", "Polygon", "Union")])
    chk.assumptions += [REALS, "polygons are given with their closing edge; tubes start upwards and end downwards, as their end planes are made for"]
    traced(chk, exe, "GeometryTrace",
           model=[("MCGeometry", "MCGeometry_thorough.cfg" if chk.thorough else "MCGeometry.cfg")])


# --------------------------------------------- mixtures of ideal gases: states
REACTOR = ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp"]
RADAU = ["src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp"]
KERNEL = ["src/ode_solver/radau.f", "src/ode_solver/dc_decsol.f", "src/ode_solver/decsol.f"]


@prop("C24")
def mixtures(chk):
    exe = vf.build("reactor", ["reactor.cpp"], REACTOR + RADAU + KERNEL)
    chk.assumptions += [REALS, "the data of the mechanism are those published in its source; coefficients of enthalpies have nine digits",
                        "temperatures found by iteration are taken from the code and judged by what they reach"]
    traced(chk, exe, "MixtureTrace",
           model=[("MCMixture", "MCMixture_thorough.cfg" if chk.thorough else "MCMixture.cfg")])


# ---------------------------------------------------------- chemical kinetics
@prop("C25")
def kinetics(chk):
    exe = vf.build("kinetics", ["kinetics.cpp"], REACTOR + RADAU + KERNEL)
    chk.assumptions += [REALS, "the data of the mechanism are those published in its source",
                        "near the equilibrium the solver may give up for want of steps; then nothing is said about the state"]
    traced(chk, exe, "KineticsTrace",
           model=[("MCKinetics", "MCKinetics_thorough.cfg" if chk.thorough else "MCKinetics.cfg")])


# ---------------------------------------------- ordinary differential equations
@prop("C26")
def ode(chk):
    exe = vf.build("odescript", ["odescript.cpp"], RADAU)
    real = vf.build("ode", ["ode.cpp"], RADAU + KERNEL)
    chk.assumptions += [REALS, "the global error of the kernel is judged with 1e-7 plus a thousand times its tolerance"]
    traced(chk, exe, "OdeTrace", model=[("MCOde", "MCOde.cfg")])
    out, r = run_harness(chk, real, name="real.ndjson")
    vf.validate(chk, "OdeTrace", "OdeTrace.cfg", out, None, env={"PROP": chk.prop})


# ------------------------------------------------------- mixtures in motion
IDEAL = ["src/equations/IdealGasMix.cpp"] + [
    "src/equations/ideal_gas_mix/%s_%dd.cpp" % (m, d) for d in (1, 2, 3)
    for m in ("EinfeldtSignalVelocities", "HlleMethod", "MusclHancockCharacteristicMethod", "MusclHancockPrimMethod")]


@prop("C27")
def ideal_gas(chk):
    exe = vf.build("idealgas", ["idealgas.cpp"], REACTOR + RADAU + KERNEL + IDEAL)
    chk.assumptions += [REALS, "the data of the mechanism are those published in its source; coefficients of enthalpies have nine digits",
                        "masked methods are called with at least one open face; species are limited as the code does, one by one in scalar, by the first in array code"]
    traced(chk, exe, "IdealGasTrace",
           model=[("MCIdealGas", "MCIdealGas_thorough.cfg" if chk.thorough else "MCIdealGas.cfg")])


# ---------------------------------------------------------------- cut cells
STUB_AMREX = ["-I" + vf.HARNESS + "/stubs_amrex"]


def amrex_flags(dim):
    return STUB_AMREX + ["-DAMREX_SPACEDIM=%d" % dim]


def two_harnesses(chk, exes, module, model):
    """Traces of several executables, judged together."""
    for m in model:
        chk.model(*m)
    lines = []
    for k, exe in enumerate(exes):
        out, r = run_harness(chk, exe, name="part%d.ndjson" % k)
        chk.cov.setdefault("harness", []).append(r.out.strip()[-400:])
        lines.append(open(out).read())
    out = os.path.join(chk.dir, "traces.ndjson")
    with open(out, "w") as f:
        f.write("".join(lines))
    summarize(chk, out)
    vf.validate(chk, module, module + ".cfg", out, None, env={"PROP": chk.prop}, timeout=7000 if chk.thorough else 700)


@prop("C28")
def cut_cells(chk):
    am = ["src/AMReX/cutcell/TimeIntegrator.cpp", "src/AMReX/cutcell/FillCutCellData.cpp",
          "src/AMReX/TimeIntegrator.cpp", "src/AMReX/ViewFArrayBox.cpp"]
    exes = [vf.build("cutcell%d" % d, [("cutcell.cpp", amrex_flags(d))],
                     ["src/CutCellData.cpp", "src/HyperbolicPatchIntegrator.cpp", "src/equations/PerfectGas.cpp"] + CORE + OPTS
                     + glob_src("src/cutcell_method/*Stabilisation.cpp", "src/equations/perfect_gas/ExactRiemannSolver_*.cpp",
                                "src/equations/perfect_gas/EinfeldtSignalVelocities_*.cpp")
                     + [(a, amrex_flags(d)) for a in am]) for d in (2, 3)]
    chk.assumptions += [REALS, "AMReX is replaced by a stand-in with boxes, arrays and patches in plain memory (harness/stubs_amrex); the code under test is compiled unchanged against it",
                        "geometries give every cell and face any fractions, with faces of solid cells closed; covered cells hold finite numbers",
                        "parts of faces in the shadow of both sides are left out by the stabilised fluxes, as in the code: the balance of a cell is claimed without them",
                        "pressures at walls within 4e-6, as the exact Riemann solver iterates up to 1e-7"]
    two_harnesses(chk, exes, "CutCellTrace", [("MCCutCell", "MCCutCell_thorough.cfg" if chk.thorough else "MCCutCell.cfg")])
