#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python because JSON lines are unpleasant to edit)."""
import json
import os

P = []
SRC = "code/cpp/src/"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith("code/") else SRC + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Ghost layers realise the requested boundary conditions",
  "Extending a 1D or 2D grid with ghost layers leaves every interior cell bit for bit unchanged "
  "and fills every ghost cell, corners included, from the cell that the boundary type of its side "
  "names: the edge cell (transmissive), the opposite side's cell (periodic) or the mirror cell "
  "(slip, stick, moving, symmetric). Reflecting types negate exactly the velocity components (and, "
  "for symmetric, the distortion entries) that the type prescribes, a moving lid adds its unit "
  "tangential speed with the matching kinetic energy, and everything else, level sets included, is copied.",
  ["inputs", "configurations"],
  "all grid sizes (1D, 2D, any aspect), all pairs of boundary types per side, all cell contents, "
  "both orders N of the scheme and the DESTRESS option",
  "The problem tests stop before the solver starts; no test calls the boundary code.",
  ["etc/grid.cpp"], [("boundaries1/boundaries2", SRC + "etc/grid.cpp")],
  observe=["GPRpy.boundaries"])

p("C02", "Masking never changes the cells that are marked for update",
  "The working mask marks every cell marked by the user together with all its face neighbours. "
  "A time step restricted to a mask gives every marked cell exactly the value the unrestricted "
  "step gives it, whatever the values of cells beyond the reach of the scheme from it.",
  ["inputs", "configurations"], "all masks on all 1D/2D grids, all schemes (ADER, split), all states",
  "No test runs a masked step.",
  ["etc/grid.cpp", "solvers/fv/fv.cpp", "solvers/dg/dg1.cpp", "solvers/dg/dg2.cpp"],
  [("extend_mask", SRC + "etc/grid.cpp"), ("mask tests in fv, dg, midstepper", SRC + "solvers/fv/fv.cpp")],
  observe=["GPRpy.extend_mask", "GPRpy.solvers.ader_stepper", "GPRpy.solvers.split_stepper"])

p("C03", "Results do not depend on the number of threads or their schedule",
  "Advancing a grid (ADER or split scheme, 1D or 2D) and filling ghost cells give bit for bit the "
  "same result for every number of OpenMP threads, also when there are more threads than rows, and "
  "for every interleaving of the threads.",
  ["schedules", "configurations"], "all thread counts and interleavings, all grid shapes and schemes",
  "The tests run on one thread and never start the solver.",
  ["solvers/steppers.cpp", "solvers/weno/weno.cpp", "multi/fill.cpp"],
  [("slab decomposition", SRC + "solvers/steppers.cpp"), ("parallel for of boundary cells", SRC + "multi/fill.cpp")],
  observe=["GPRpy.solvers.ader_stepper_para", "GPRpy.solvers.split_stepper_para", "GPRpy.multi.fill_ghost_cells"])

p("C04", "The finite-volume update is conservative, one flux per face",
  "The update of a cell is exactly the time step times the cell averages of the sources and "
  "non-conservative products plus the contributions of its faces, where each face subtracts from "
  "the cell on one side the flux that it adds to the cell on the other. Mass, momentum and energy are "
  "therefore conserved up to the boundary fluxes, and uniform states are preserved.",
  ["inputs", "configurations"], "all reconstructions, grid shapes, spacings, masks, fluxes and orders",
  "The tests compare single fluxes; none runs the update.",
  ["solvers/fv/fv.cpp"], [("centers/interfs", SRC + "solvers/fv/fv.cpp")],
  observe=["GPRpy.solvers.fv.fv_launcher", "GPRpy.solvers.fv.centers1", "GPRpy.solvers.fv.interfs1",
           "GPRpy.solvers.fv.centers2", "GPRpy.solvers.fv.interfs2"])

p("C06", "The time step obeys the CFL condition and never passes the final time",
  "The time step is the CFL number divided by the largest sum over the directions of wave speed per "
  "cell width, taken over all cells of all non-vacuum materials that are marked; it is a fifth of that "
  "in the first six steps, and is cut so that the time never passes the final time.",
  ["inputs", "histories", "configurations"], "all grids, masks, materials, step counts, CFL numbers and times",
  "No test computes a time step.",
  ["solvers/iterator.cpp"], [("timestep", SRC + "solvers/iterator.cpp")],
  observe=["GPRpy.solvers.timestep"])

p("C07", "The main loop follows its schedule and returns a faithful history",
  "A run repeats, until the final time is reached: fill ghost cells, choose the step, advance every "
  "material, merge, limit, and maintain the distortion. The returned history holds the state after the "
  "first step that reaches each successive hundredth of the final time (at most one per step), with the "
  "last entry the state at the final time. When a step produces not-a-number values the run stops and "
  "returns, after the snapshots taken so far (and in the last two of the hundred places at the latest), "
  "the last good state and the bad one.",
  ["histories", "inputs", "fault_sequences"],
  "all runs: every number of steps, snapshot pattern, material set, scheme and failure time",
  "The tests replace the main loop by a stub.",
  ["solvers/iterator.cpp", "solvers/utils.cpp"], [("iterator", SRC + "solvers/iterator.cpp")],
  state=[("ret", "snapshots of the run", SRC + "solvers/iterator.cpp"),
         ("t, count, pushCount", "time, steps taken, snapshots taken", SRC + "solvers/iterator.cpp")],
  observe=["GPRpy.solvers.iterator"])

p("C08", "Each cell has one owning material and is merged from that material's grid",
  "The owner of a cell is the material whose number is the count of non-negative level sets. After a "
  "step, each level set of a cell is the mean over the materials for which the cell is marked (or its "
  "old value if none), and all other variables are exactly those of the new owner's grid, or zero where "
  "the owner is vacuum.",
  ["inputs", "configurations"], "all grids, masks, level sets (zeros and ties included) and material lists",
  "No test merges material grids.",
  ["solvers/iterator.cpp", "system/functions/vectors.cpp", "multi/functions.cpp"],
  [("make_u", SRC + "solvers/iterator.cpp"), ("get_material_index", SRC + "system/functions/vectors.cpp"),
   ("material_indicator", SRC + "multi/functions.cpp")],
  observe=["GPRpy.solvers.make_u", "GPRpy.multi.material_indicator"])

p("C10", "Ghost cells of a material are filled from its own side of the interface",
  "For every material that is not vacuum, ghost filling leaves the material's own cells unchanged, "
  "marks exactly its cells and the first layer beyond the interface (isolated cells excepted), gives "
  "that layer interface states computed from the original states either side, and extends them outward "
  "layer by layer from already filled cells, for ten times the order's number of layers. Level sets of the grid "
  "are those of the merged state and no cell outside the domain is read.",
  ["inputs", "configurations"], "all level-set fields (interfaces touching edges and corners, thin and isolated regions), 1D and 2D, 2 and 3 materials, with and without vacuum",
  "No test fills ghost cells.",
  ["multi/fill.cpp", "multi/functions.cpp"],
  [("find_interface_cells, fill_boundary_cells, fill_neighbor_cells, fill_ghost_cells", SRC + "multi/fill.cpp")],
  state=[("intMask", "role of each cell: inside, interface, layer number", SRC + "multi/fill.cpp")],
  observe=["GPRpy.multi.fill_ghost_cells", "GPRpy.multi.find_interface_cells",
           "GPRpy.multi.fill_boundary_cells", "GPRpy.multi.fill_neighbor_cells"])

p("C11", "Level sets are renormalised to signed distances",
  "Renormalising a level set keeps the sign of every cell, gives cells next to the interface the "
  "distance to the interpolated zero crossings, and gives every other cell the first-order solution of "
  "the eikonal equation from its nearer neighbours. A field without an interface keeps its values.",
  ["inputs", "configurations"], "all level-set fields, grid shapes and spacings in 1D and 2D",
  "No test computes a distance.",
  ["multi/pfmm.cpp", "multi/functions.cpp", "code/cpp/include/skfmm/distance_marcher.cpp"],
  [("distance", SRC + "multi/pfmm.cpp"), ("fast marching", "code/cpp/include/skfmm")],
  observe=["GPRpy.system.multi.distance", "GPRpy.multi.renormalize_levelsets"])

p("C12", "Equations of state, stress and temperature agree with their definitions",
  "For every material law (stiffened gas, shock Mie-Gruneisen, JWL, Cochran-Chan, Godunov-Romenski) and "
  "every admissible state, pressure, temperature, and the derivatives of the energy are those of the "
  "material's Mie-Gruneisen relation, with the shear, kinetic and thermal energies subtracted.",
  ["inputs", "configurations"], "all admissible states of every material law, in compression and expansion",
  "The binding tests sample one material; the problem tests never evaluate the C++ closure.",
  ["system/energy/mg.cpp", "system/energy/eos.cpp", "system/energy/derivatives.cpp", "system/variables/state.cpp"],
  [("pressure_mg, e_ref, p_ref, temperature_mg", SRC + "system/energy/mg.cpp")],
  observe=["GPRpy.system.variables.pressure", "GPRpy.system.variables.temperature", "GPRpy.system.variables.dEdρ"])

p("C13", "Fluxes, sources and Jacobians are those of the governing equations",
  "For every admissible state and direction, the flux, source and non-conservative terms equal those "
  "of the Godunov-Peshkov-Romenski equations, the flux is added to what the caller supplies, and every "
  "Jacobian the solver uses is the derivative of those same terms.",
  ["inputs", "configurations"], "all admissible states, all materials and rheologies, all directions, with and without heat conduction and reaction variables",
  "The binding tests compare a handful of random states of one material in the default configuration.",
  ["system/equations.cpp", "system/jacobians.cpp", "system/variables/sources.cpp", "system/energy/derivatives.cpp",
   "system/variables/state.cpp"],
  [("flux, source, Bdot, block, system_matrix", SRC + "system/equations.cpp"), ("dFdP, dPdQ", SRC + "system/jacobians.cpp")],
  observe=["GPRpy.system.flux", "GPRpy.system.source", "GPRpy.system.Bdot", "GPRpy.system.block",
           "GPRpy.system.system_matrix", "GPRpy.system.dFdP", "GPRpy.system.dPdQ"])

p("C14", "Wave speeds bound and eigenvectors diagonalise the system",
  "For states at which the system is hyperbolic, the wave speed the solver uses is the spectral radius of the system "
  "matrix: no information travels faster, and it is not larger than needed. The eigenvector matrix "
  "used at material interfaces consists of right eigenvectors of the primitive system (columns it does not use are zero).",
  ["inputs", "configurations"], "all admissible states, materials and directions, with and without heat conduction",
  "One random state of one material is compared with a Python twin of the same formula.",
  ["system/eig.cpp", "system/waves/speeds.cpp", "system/waves/shear.cpp", "system/multi/eigenvecs.cpp"],
  [("thermo_acoustic_tensor, max_abs_eigs", SRC + "system/eig.cpp"), ("eigen", SRC + "system/multi/eigenvecs.cpp")],
  observe=["GPRpy.system.max_abs_eigs", "GPRpy.system.thermo_acoustic_tensor", "GPRpy.system.multi.eigen"])

p("C15", "Relaxation steps follow the source terms and respect their invariants",
  "An operator-split relaxation step changes only what its source term changes: density, total energy "
  "and level sets stay as they are, momentum gains exactly the body force times the step, the "
  "distortion keeps its determinant and principal axes and relaxes monotonically towards isotropy at "
  "the material's rate (an elastic solid not at all), and the thermal impulse decays along itself. "
  "For moderate distortions (principal stretches within a factor of about 1.5 of each other) the distortion "
  "is that of the exact solution, and two half steps agree with one step, to the accuracy of the "
  "near-equilibrium approximation.",
  ["inputs", "histories", "configurations"], "all states, materials, rheologies and step sizes, including very stiff ones",
  "One random state of one material is compared with a Python twin.",
  ["system/relaxation/analytic.cpp", "system/relaxation/numerical.cpp", "solvers/split/ode.cpp"],
  [("analyticSolver_*", SRC + "system/relaxation/analytic.cpp")],
  observe=["GPRpy.solvers.split.ode_launcher", "GPRpy.solvers.split.analyticSolver_distortion",
           "GPRpy.solvers.split.analyticSolver_thermal"])

p("C16", "Reconstruction conserves cell averages and is the WENO polynomial of the data",
  "The reconstruction of a cell is the weighted combination of the polynomials whose averages over each "
  "stencil match the data, with the weights of the WENO scheme; so it has the cell's average, is exact "
  "for polynomials of degree below the order, and does not oscillate across jumps. In rows next to "
  "the boundary the stencils that reach outward are left out when corners are excluded.",
  ["inputs", "configurations"], "all data, grid shapes, orders (2, 3, 4) and the corner and primitive-variable options",
  "One test compares one random grid with a Python twin.",
  ["solvers/weno/weno.cpp", "solvers/weno/weno_matrices.cpp", "solvers/poly/basis.cpp", "scipy/legendre.cpp"],
  [("weno_launcher", SRC + "solvers/weno/weno.cpp"), ("coefficient matrices", SRC + "solvers/weno/weno_matrices.cpp"),
   ("quadrature nodes", SRC + "scipy/legendre.cpp")],
  observe=["GPRpy.solvers.weno.weno_launcher", "GPRpy.solvers.common.scaled_nodes"])

p("C17", "The local predictor solves the space-time weak form in every marked cell",
  "After the predictor of the ADER scheme, every marked cell's space-time polynomial satisfies the "
  "discrete weak form of the governing equations with the reconstruction as initial data, to the "
  "solver's tolerance, whichever solver is used. The half-step of the split scheme is "
  "the explicit Euler half step of the homogeneous equations.",
  ["inputs", "configurations"], "all reconstructions, time steps (also too large for fixed-point convergence), grids, orders and materials",
  "No test runs the predictor.",
  ["solvers/dg/dg1.cpp", "solvers/dg/dg2.cpp", "solvers/dg/initial_guess.cpp", "solvers/split/homogeneous.cpp",
   "solvers/steppers.cpp"],
  [("predictor1, predictor2", SRC + "solvers/dg"), ("midstepper", SRC + "solvers/split/homogeneous.cpp")],
  observe=["GPRpy.solvers.ader_stepper", "GPRpy.solvers.split.midstepper"])

p("C18", "Interface fluxes are the Rusanov, Roe and Osher fluxes of the system",
  "For every pair of states, each numerical flux is the sum of the two physical fluxes plus the "
  "dissipation of its scheme (largest wave speed, absolute value of the path-averaged matrix, or "
  "path-averaged absolute value) applied to the jump, and the jump term is the path integral of the "
  "non-conservative matrix. Equal states give twice the physical flux and no jump term, and exchanging the "
  "states changes only the sign of the dissipation and of the jump.",
  ["inputs", "configurations"], "all pairs of admissible states, materials, directions, orders",
  "The binding tests compare one random pair with a Python twin to 1e-12.",
  ["solvers/fv/fluxes.cpp"], [("D_RUS, D_ROE, D_OSH, Bint", SRC + "solvers/fv/fluxes.cpp")],
  observe=["GPRpy.solvers.fv.D_RUS", "GPRpy.solvers.fv.D_ROE", "GPRpy.solvers.fv.D_OSH", "GPRpy.solvers.fv.Bint"])

p("C19", "Interface star states satisfy the interface conditions",
  "Once the iteration has converged, the state given to a material at an interface has the normal velocity and "
  "normal traction (and, with heat conduction, the temperature and heat flux) of the state on the other "
  "side, or no traction next to vacuum; where the materials slip there is no tangential traction on either side, and "
  "where they stick tangential tractions and velocities agree. Each step changes either side only by the acoustic waves that leave "
  "the interface into it. The result does not depend on the orientation of the axes, states that already "
  "meet the conditions are left alone, and when the iteration fails the original state is kept.",
  ["inputs", "configurations"], "all pairs of states and materials, vacuum included, all interface normals, slip and stick, with and without heat conduction",
  "No test solves an interface problem.",
  ["system/multi/riemann.cpp", "system/multi/conditions.cpp", "system/multi/rotations.cpp"],
  [("left_star_state, star_stepper", SRC + "system/multi/riemann.cpp"), ("slip_bcs, stick_bcs", SRC + "system/multi/conditions.cpp")],
  observe=["GPRpy.system.multi.left_star_state", "GPRpy.system.multi.star_stepper", "GPRpy.system.multi.riemann_constraints"])

p("C20", "The algebraic solvers return solutions of the problems they are given",
  "For well-conditioned systems the residual of the Krylov solver's result is within the requested "
  "tolerance, with every preconditioner, and the nonlinear solver's result is a root to the requested tolerance for every function "
  "with a nearby root; starting at a root returns it. The one-variable integrators agree with the exact "
  "solution to their order.",
  ["inputs"], "all matrices, right-hand sides, starting points, preconditioners and nonlinear functions",
  "One test compares one linear system with SciPy.",
  ["scipy/lgmres.cpp", "scipy/newton_krylov.cpp", "solvers/split/rk.cpp", "solvers/split/numeric.cpp"],
  [("lgmres", SRC + "scipy/lgmres.cpp"), ("nonlin_solve", SRC + "scipy/newton_krylov.cpp")],
  observe=["GPRpy.scipy.lgmres_wrapper", "GPRpy.scipy.newton_krylov", "GPRpy.solvers.split.runge_kutta_launcher",
           "GPRpy.solvers.split.stiff_ode_solve"])

p("C22", "Maintenance of the distortion keeps the physics of the state",
  "Between steps the distortion of every cell is rescaled so that its determinant is the density "
  "ratio; an optional rotation keeps its metric and orientation; and when a cell is too distorted the distortions are "
  "reset to the isotropic one while exactly the shear energy leaves the total energy, so that pressure and "
  "velocity are unchanged. Each is done with the parameters of the cell's own material, and vacuum is "
  "left alone.",
  ["inputs", "histories"], "all grids, material lists, level sets and distortions, tolerances at and around the threshold",
  "No test calls these.",
  ["solvers/utils.cpp"], [("renorm_distortion, rotate_distortion, reset_distortion, contorted", SRC + "solvers/utils.cpp")],
  observe=["GPRpy.solvers.renorm_distortion", "GPRpy.solvers.rotate_distortion", "GPRpy.solvers.contorted",
           "GPRpy.solvers.iterator"])

p("C23", "The scheme has the symmetries of the equations",
  "Mirroring a problem, or shifting a periodic one, mirrors or shifts the result of a time step; "
  "turning the axes turns the result, which for the exchange of the two axes of a 2D grid holds for one step from "
  "sums of functions of each coordinate (the reconstruction sweeps x, then y) away from the excluded corners; "
  "a 1D problem embedded in 2D along either axis gives the 1D result, up to the predictor's tolerance. Cells outside "
  "the mask are not compared.",
  ["inputs", "configurations"], "all states, grids, materials, schemes and fluxes, one and several steps",
  "Symmetry relates runs that no test makes.",
  ["solvers/fv/fv.cpp", "solvers/weno/weno.cpp", "solvers/dg/dg2.cpp", "solvers/split/homogeneous.cpp"],
  [("direction-by-direction loops", SRC + "solvers")],
  observe=["GPRpy.solvers.ader_stepper", "GPRpy.solvers.split_stepper", "GPRpy.boundaries"])

p("C24", "The Python front end sets up the states and parameters asked for",
  "The conserved vector that the Python front end builds for a material, density, pressure, velocity, "
  "distortion, impulse and concentration is the one whose pressure, velocity and other variables, as the "
  "solver computes them, are those; the parameters given for a material reach the solver unchanged, with "
  "wave speeds squared, conductivities derived from Prandtl numbers, and the kind of rheology, as defined; and the "
  "variables that it computes of a state (stress, temperature, derivatives, relaxation and reaction rates, wave speeds, "
  "hyperelastic energies) are those of the model.",
  ["inputs", "configurations"], "all materials, rheologies, EOS, reactions and states",
  "The problem tests only check that set-ups run.",
  ["code/python/gpr/misc/objects.py", "code/python/gpr/misc/structures.py", "code/python/gpr/vars/mg.py",
   "code/python/gpr/vars/eos.py"],
  [("material_params, Cvec, total_energy", "code/python/gpr")],
  observe=["gpr.misc.objects.material_params", "gpr.misc.structures.Cvec"])

p("C25", "Reactions and mixtures keep their invariants",
  "The concentration of a reactant never increases by reaction, stays between zero and its start "
  "value, and follows the material's rate law (a threshold temperature; Arrhenius; ignition upon compression beyond a "
  "threshold, and growth); the mass, momentum and energy of the cell do not "
  "change. The pressure and phase densities found for a two-phase mixture satisfy the mixture's pressure, "
  "temperature, volume and energy balances, its temperature is that of its phases, and the Jacobians of a mixture that "
  "does not conduct heat are the derivatives of its fluxes and primitive variables.",
  ["inputs", "configurations"], "all states, rate laws (threshold, Arrhenius, ignition and growth), concentrations and step sizes",
  "No test evaluates a reaction in C++.",
  ["system/relaxation/numerical.cpp", "system/variables/sources.cpp", "system/energy/multi.cpp", "solvers/split/rk.cpp"],
  [("reaction_rate", SRC + "system/variables/sources.cpp"), ("solve_multi", SRC + "system/energy/multi.cpp")],
  observe=["GPRpy.system.reaction_rate", "GPRpy.solvers.split.ode_stepper_numerical",
           "GPRpy.system.variables.solve_multi"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "properties.jsonl"), "w") as fh:
    for x in P:
        fh.write(json.dumps(x, ensure_ascii=False) + "\n")
