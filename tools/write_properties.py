#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (run by hand when a property changes)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NOMFEM = ("The tests that exercise this need MFEM and are not among the stable ones; the ones "
          "written for it look at a handful of hand-picked cases. ")

prop("C01", "Materials: only physical media are accepted and derived quantities agree",
     "A material is accepted exactly when its relative permittivity and permeability are at least 1 and its conductivity is not negative, and it then reports exactly the values it was given. "
     "For lossless media impedance times admittance is 1, impedance equals permeability times wave speed and wave speed squared times permittivity times permeability is 1. "
     "For conductive media the lossless-only quantities are refused rather than returned.",
     ["inputs"], "all triples of finite permittivity, permeability and conductivity, including the acceptance limits and values one rounding unit either side of them",
     "The existing unit tests check about ten fixed triples; the acceptance limits and the relations are statements over all reals.",
     ["src/components/Material.cpp", "src/components/Material.h"],
     [("Material constructor validation", "src/components/Material.cpp"), ("derived quantities", "src/components/Material.h")],
     ["Material accessors"])

prop("C02", "Energy is conserved by the centered-flux discretisation",
     "With centered fluxes, lossless materials and perfectly conducting boundaries (electric or magnetic, exterior or interior), the instantaneous rate of change of the discrete electromagnetic energy is zero for every field state. "
     "This holds on every conforming straight-sided mesh and on curved triangles and tetrahedra, for every polynomial order and any piecewise-constant distribution of permittivity and permeability.",
     ["inputs", "configurations"], "all field states, meshes (1D segments, 2D triangles and quadrilaterals, 3D tetrahedra and hexahedra, jittered, renumbered, mixed), orders, material maps and PEC/PMC assignments",
     NOMFEM + "A sign or index error that only shows on one component, one element shape, one boundary kind or one orientation of a shared face is not visited.",
     ["src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp", "src/mfemExtension/BilinearIntegrators.cpp", "src/mfemExtension/IntegratorFunctions.cpp"],
     [("skew-symmetric pairing of derivative and face terms", "src/components/DGOperatorFactory.h"), ("boundary coefficients", "src/components/DGOperatorFactory.h")],
     ["time derivative returned by the evolution operator"])

prop("C03", "Discrete energy never grows: upwinding, losses and absorbing boundaries",
     "For any non-negative upwind parameter, any non-negative conductivity and any mixture of perfectly conducting and absorbing boundaries, exterior or interior, the discrete electromagnetic energy never increases in the absence of sources. "
     "It strictly decreases for states with energy in conductive media, and for states whose tangential field jumps across an upwinded face or leaves through an absorbing boundary.",
     ["inputs", "configurations"], "all field states, meshes, orders, materials including conductivity, upwind parameters in [0,1] and boundary assignments",
     NOMFEM + "An energy-increasing term with a small coefficient looks stable over the few hundred steps of a test case.",
     ["src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp"],
     [("penalty terms", "src/components/DGOperatorFactory.h"), ("conductive term", "src/components/DGOperatorFactory.h"), ("absorbing boundary coefficients", "src/components/DGOperatorFactory.h")],
     ["time derivative returned by the evolution operator"])

prop("C04", "The evolution operator is the DG discretisation of Maxwell's equations",
     "For every mesh, order, material map, upwind parameter and assignment of exterior and interior boundary conditions, the time derivative produced for a field state equals the nodal discontinuous Galerkin discretisation of Maxwell's curl equations for that problem. "
     "In particular it reproduces the exact curls divided by permittivity and permeability, minus the ohmic loss, for continuous polynomial fields of at most the discretisation order away from boundaries.",
     ["inputs", "configurations"], "all problem configurations accepted by the solver, and all field states",
     NOMFEM + "The tests compare a few matrices on one or two elements with recorded numbers.",
     ["src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp", "src/mfemExtension/BilinearIntegrators.cpp", "src/mfemExtension/IntegratorFunctions.cpp", "src/mfemExtension/BilinearForm_IBFI.cpp", "src/components/Model.cpp"],
     [("operator assembly and block merge", "src/components/DGOperatorFactory.h"), ("face integrators", "src/mfemExtension/BilinearIntegrators.cpp")],
     ["time derivative returned by the evolution operator"])

prop("C05", "Electric-magnetic duality of the discretised problem",
     "Exchanging the roles of the two fields (E to H, H to minus E), of permittivity and permeability, and of electric and magnetic conductors maps every lossless problem onto its dual. "
     "The time derivative of a dual state in the dual problem is the dual of the original time derivative.",
     ["inputs", "configurations"], "all lossless problems and field states",
     NOMFEM + "No test compares a problem with its dual.",
     ["src/components/DGOperatorFactory.h", "src/evolution/MaxwellEvolution.cpp", "src/evolution/GlobalEvolution.cpp", "src/components/Model.cpp"],
     [("E/H index and sign conventions", "src/components/DGOperatorFactory.h")],
     ["time derivative returned by the evolution operator"])

prop("C06", "All evolution operators describe the same time evolution",
     "The assembled-global, per-term and element-wise (Hesthaven) evolution operators give the same time derivative for every problem that each of them supports. "
     "The choice of operator changes cost, not results.",
     ["inputs", "configurations"], "for the per-term operator all lossless problems in 1D, 2D and 3D; for the element-wise operator all straight-sided vacuum problems on triangles and tetrahedra; both with exterior and interior PEC, PMC and absorbing faces",
     NOMFEM + "Existing comparisons use one mesh and one boundary condition per case.",
     ["src/evolution/MaxwellEvolution.cpp", "src/evolution/HesthavenEvolution.cpp", "src/evolution/HesthavenEvolutionMethods.cpp", "src/evolution/GlobalEvolution.cpp"],
     [("three implementations of the same operator", "src/evolution")],
     ["time derivative returned by each evolution operator"])

prop("C07", "Total-field/scattered-field injection is exact at the discrete level",
     "A wave sampled at the nodes inside a closed total-field region and zero outside evolves, under injection of the same wave through the region's surface, as the same samples restricted to the region would evolve in free space. "
     "No spurious field is produced on either side of the surface, whatever its shape, the flux used, or the direction and polarisation of the wave.",
     ["inputs", "configurations"], "all meshes with a total-field surface (closed or crossing the domain) that follows the side convention of the operator (element order in 1D and 2D, distance to the surface centre in 3D), wave directions, polarisations, pulse shapes, times and upwind parameters",
     NOMFEM + "They look at recorded field values of a few beams.",
     ["src/solver/SourcesManager.cpp", "src/components/SubMesher.cpp", "src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp"],
     [("TF/SF side detection", "src/components/SubMesher.cpp"), ("source operator", "src/components/DGOperatorFactory.h"), ("source evaluation and sign mask", "src/solver/SourcesManager.cpp")],
     ["time derivative returned by the evolution operator"])

prop("C08", "Analytic sources are solutions of Maxwell's equations",
     "Plane waves of any direction, transverse polarisation and pulse shape, and the dipole field away from its centre, satisfy the vacuum Maxwell equations in normalised units at every point and time. "
     "Plane-wave electric and magnetic fields are mutually orthogonal, transverse, of equal magnitude, and their cross product points along the propagation direction. "
     "Mode functions solve the wave equation with their own frequency and vanish on the walls they belong to.",
     ["inputs"], "all directions, polarisations, pulse parameters, observation points and times",
     "Unit tests evaluate a few points against stored numbers; the field equations are statements over all points and times.",
     ["src/math/Function.h", "src/components/Sources.cpp", "src/components/Sources.h"],
     [("plane wave and dipole formulas", "src/math/Function.h")],
     ["field values returned by a source"])

prop("C09", "Initial fields are the requested function with the requested polarisation",
     "At time zero every field component at every node equals the requested scalar function of the position relative to the requested centre, times the normalised polarisation component; all other components are zero. "
     "Several initial fields add up.",
     ["inputs", "configurations"], "all meshes, orders, centres, polarisations, spreads, mode numbers and combinations of initial fields",
     NOMFEM + "Tests use axis-aligned polarisations and centred pulses.",
     ["src/solver/SourcesManager.cpp", "src/components/Sources.cpp", "src/math/Function.h"],
     [("initial field projection", "src/solver/SourcesManager.cpp")],
     ["solver fields before the first step"])

prop("C10", "Sources superpose and scale linearly, and a source-free solver stays at rest",
     "The field produced by several simultaneous sources is the sum of the fields each produces alone. "
     "A run without sources keeps all fields exactly zero.",
     ["inputs", "configurations", "histories"], "all sets of initial and total-field sources, all problems, all numbers of steps",
     NOMFEM + "Multi-source runs are not tested.",
     ["src/solver/SourcesManager.cpp", "src/components/Sources.cpp", "src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/solver/Solver.cpp"],
     [("source accumulation", "src/solver/SourcesManager.cpp")],
     ["solver fields after a run"])

prop("C11", "A run ends exactly at the final time, whatever the step size",
     "Running to a final time takes full steps and at most one shortened last step, ends at that time to rounding and never beyond it, and produces the same fields as applying the selected time integrator by hand. "
     "Attaching probes never changes the fields.",
     ["inputs", "configurations", "histories"], "all step sizes and final times (dividing each other or not), all time integrators, sequences of single steps and runs, probe sets",
     NOMFEM + "Tests use step sizes chosen to fit.",
     ["src/solver/Solver.cpp", "src/solver/Solver.h", "src/solver/ProbesManager.cpp"],
     [("main loop and truncated last step", "src/solver/Solver.cpp")],
     ["solver time, fields, point probe history"])

prop("C12", "Automatic time steps scale with the mesh and keep the scheme stable",
     "The automatic time step is proportional to the CFL factor and to the size of the mesh, does not depend on element numbering or position, and does not increase when elements shrink or the order rises. "
     "In one dimension, where it is documented, explicit time stepping with it does not amplify any field state; in two and three dimensions the same holds for CFL factors up to one half.",
     ["inputs", "configurations"], "all meshes, orders, lossless materials, operator choices and CFL factors in (0,1] (stability in 2D and 3D: up to 0.5, element-wise tetrahedra from order 2)",
     NOMFEM + "One test compares a value on a fixed mesh.",
     ["src/solver/Solver.cpp"],
     [("time step estimate", "src/solver/Solver.cpp")],
     ["time step chosen by the solver"])

prop("C13", "Probe records are complete, ordered and equal to the fields at the probe point",
     "A point or field probe records the initial state, every save interval and the final state, in increasing time and without duplicates, and each record is the field of the finite element solution at that point and time. "
     "A requested number of saves is honoured whatever the time step turns out to be.",
     ["inputs", "configurations", "histories"], "all probe positions, save intervals or counts, step sizes, final times and meshes",
     NOMFEM + "Tests look at a few frames of a few probes.",
     ["src/solver/ProbesManager.cpp", "src/components/Probes.h"],
     [("save cadence", "src/solver/ProbesManager.cpp"), ("point search and interpolation", "src/solver/ProbesManager.cpp")],
     ["probe movies in memory and probe files"])

prop("C14", "Thin layers act on waves as the same layers meshed in full",
     "A surface layer inside the mesh reflects, transmits and absorbs as the same stack of materials resolved by elements would, beyond discretisation error: an empty layer is transparent, a good conductor a perfect mirror, and a layer closed by a boundary condition is that condition on each side. "
     "The result does not depend on the dimension of the mesh, nor on the side the stack is described from, nor on how the faces of the surface are listed.",
     ["inputs", "configurations"], "all layer stacks, conductivities, incidence sides, end conditions, surfaces inside the mesh that touch no element twice, and mesh dimensions; stacks run from the lower- to the higher-numbered side",
     NOMFEM + "The SGBC cases check a few recorded peaks.",
     ["src/evolution/GlobalEvolution.cpp", "src/solver/SolverExtension.cpp", "src/components/DGOperatorFactory.h", "src/components/SubMesher.cpp"],
     [("layer sub-solver coupling", "src/evolution/GlobalEvolution.cpp"), ("layer mesh and model", "src/solver/SolverExtension.cpp")],
     ["solver fields on both sides of a layer"])

prop("C15", "Layer descriptions are translated into faithful layer meshes",
     "The mesh generated for a stack of layers has the stack's materials in the given order with the given thicknesses, padded on both sides, and its resolution honours manual settings or else resolves both the wavelength and the skin depth at the highest source frequency within stated limits. "
     "Single-material descriptions behave as one-layer stacks.",
     ["inputs", "configurations"], "all layer stacks, manual overrides and source sets",
     NOMFEM + "Two parser tests look at default values.",
     ["src/driver/driver.cpp", "src/solver/SolverExtension.cpp", "src/components/Model.h"],
     [("layer parsing and automatic resolution", "src/driver/driver.cpp"), ("layer mesh", "src/solver/SolverExtension.cpp")],
     ["layer properties in the model; generated layer mesh"])

prop("C16", "The model assigns each region and boundary exactly what was asked for",
     "Every boundary face carries exactly the condition assigned to its tag, exterior and interior conditions are kept apart, and every element carries the material assigned to its tag, vacuum when none was. "
     "Invalid tags are rejected.",
     ["inputs", "configurations"], "all meshes and maps from tags to materials and boundary conditions, with gaps, unused tags and reordered insertion",
     NOMFEM + "Tests cover two-tag maps.",
     ["src/components/Model.cpp", "src/components/Model.h", "src/components/Types.h"],
     [("marker and piecewise vector construction", "src/components/Model.cpp")],
     ["markers and material vectors reported by the model"])

prop("C17", "Total-field surfaces are split into the right sides and the mesh is left intact",
     "Splitting the neighbourhood of a total-field surface assigns every element touching it to exactly one side by a fixed rule: left and right of the listed points in 1D, the order of the two elements in 2D, and the distance to the centre of the surface in 3D. "
     "The parent mesh keeps its element attributes, and every sub-mesh node maps to the parent node with the same position.",
     ["inputs", "configurations"], "all meshes with interior surfaces in 1D, 2D and 3D, all orientations, corners and numberings",
     NOMFEM + "Tests use a dozen fixed meshes.",
     ["src/components/SubMesher.cpp", "src/components/SubMesher.h"],
     [("side assignment", "src/components/SubMesher.cpp"), ("attribute backup and restore", "src/components/SubMesher.cpp")],
     ["sub-meshes, parent element maps, parent attributes"])

prop("C18", "Mesh clean-up preserves geometry and tags, and is idempotent",
     "Preparing a Gmsh file keeps every node and every element of the two highest relevant dimensions with its geometric tag and connectivity, drops only what the solver cannot use, and leaves counts and numbering consistent. "
     "Applying it again changes nothing, and files that are not ASCII Gmsh meshes of version 2 are left alone.",
     ["inputs", "histories"], "all Gmsh 2.2 ASCII files with points, lines, triangles, quadrilaterals, tetrahedra, hexahedra (first and second order), arbitrary tags and numberings",
     "No stable test touches mesh files; the existing driver tests load fixed meshes.",
     ["src/driver/driver.cpp"],
     [("mesh rewriting", "src/driver/driver.cpp")],
     ["the mesh file after preparation"])

prop("C19", "Solver options, materials and boundaries mean what the input file says",
     "Every documented key of an input file takes effect with its documented meaning, absent keys take their documented defaults, and unknown or ill-formed values are refused with an error. "
     "The order of keys and list entries does not matter.",
     ["inputs"], "all input files built from the documented keys and values",
     NOMFEM + "Parser tests read three fixed files.",
     ["src/driver/driver.cpp", "src/driver/driver.h", "src/solver/SolverOptions.h", "README.md"],
     [("option, material and boundary parsing", "src/driver/driver.cpp")],
     ["parsed options and model"])

prop("C20", "Source descriptions are translated into the sources they describe",
     "Each source entry produces one source whose field at any point and time is the documented function of the entry's parameters, with frequencies and times converted to the solver's normalised units. "
     "A plane wave without explicit delay starts early enough to be negligible when the run begins.",
     ["inputs"], "all documented source entries with 1-, 2- and 3-component vectors, and meshes of every dimension",
     NOMFEM + "Parser tests check that some source exists.",
     ["src/driver/driver.cpp", "src/math/Function.h", "src/components/Sources.cpp", "README.md"],
     [("source parsing", "src/driver/driver.cpp"), ("automatic delay", "src/driver/driver.cpp")],
     ["field values of parsed sources"])

prop("C21", "Probe descriptions are translated into the probes they describe",
     "Each probe entry produces exactly one probe of its kind with the requested position, field, polarisation, tags and save interval, and entries without their required tags or with unknown fields or components are refused. "
     "A save count is turned into the interval that spreads that many saves over the run.",
     ["inputs"], "all documented probe entries, with and without explicit time step and final time",
     NOMFEM + "Parser tests look at two files.",
     ["src/driver/driver.cpp", "src/components/Probes.h", "README.md"],
     [("probe parsing", "src/driver/driver.cpp")],
     ["parsed probes"])

prop("C22", "Partitioning never separates elements that share a face of a special surface",
     "After partitioning for any number of processes, the two elements sharing any face of a total-field, layer, recorded or interior boundary surface, and everything connected to them through such faces, are on the same process. "
     "Every other element keeps its process and every element has a valid one.",
     ["inputs", "configurations"], "all meshes, surfaces, process counts and starting partitions",
     NOMFEM + "Tests run on one process.",
     ["src/driver/driver.cpp"],
     [("pairwise constraint grouping", "src/driver/driver.cpp")],
     ["partition array"])

prop("C23", "Surface recordings survive the trip through their files, even cut short",
     "What was recorded on a near-field surface by any number of processes is what is read back: header, geometry, times and field values, and the far-field result does not depend on how faces were distributed over processes. "
     "A recording cut off at any byte yields the complete snapshots before the cut, never invented data.",
     ["inputs", "crash_points", "configurations"], "all recordings, process counts and cut positions",
     NOMFEM + "No test reads a recording back or truncates one.",
     ["src/components/RCSSurfaceExporter.cpp", "src/components/RCSSurfacePostProcessor.cpp"],
     [("binary format writer", "src/components/RCSSurfaceExporter.cpp"), ("reader and rank merge", "src/components/RCSSurfacePostProcessor.cpp")],
     ["recording files and post-processed results"])

prop("C24", "Near-to-far-field transformation and spectra follow their definitions",
     "Time series are transformed by the discrete Fourier sum at the requested frequencies, linear in the data, and the far field of equivalent surface currents obeys the radiation integrals for every direction. "
     "Directions along, across or opposite to a surface point, and a surface point at the origin, give finite and continuous results.",
     ["inputs"], "all sampled fields, surface points, frequencies and directions",
     NOMFEM + "Tests look at a few angles.",
     ["src/components/FarField.cpp", "src/components/FarField.h", "src/components/RCSManager.cpp", "src/components/RCSSurfacePostProcessor.cpp", "src/mfemExtension/LinearIntegrators.cpp"],
     [("phase kernel and DFT", "src/components/FarField.cpp")],
     ["far-field values"])

prop("C25", "Surface-impedance fits are stable and as accurate as reported",
     "A fit reported as stable has no pole in the right half plane, an unstable one is never returned as the result, and the reported maximum error is the error of the returned rational function against the layer's surface impedance over the requested band. "
     "The number of poles stays within the limit, the search stops at the first fit within tolerance, and allowing more poles never gives a worse fit.",
     ["inputs"], "all layer thicknesses, conductivities, permittivities, permeabilities, frequency bands, pole limits and tolerances",
     "Tests fit three materials.",
     ["src/components/SIBCPoleResidueFitting.cpp", "src/components/SIBCPoleResidueFitting.h"],
     [("vector fitting", "src/components/SIBCPoleResidueFitting.cpp")],
     ["poles, residues, reported error"])

prop("C26", "Coordinate conversions are exact inverses and preserve vector length",
     "Converting a point to spherical coordinates and back returns the point, angles lie in their conventional ranges, and converting vector components between the spherical and Cartesian frames is a rotation. "
     "Axes, the origin and two-component points are handled.",
     ["inputs"], "all points and vectors including the axes, poles and origin",
     "Tests convert a few points.",
     ["src/components/Spherical.cpp", "src/components/Spherical.h", "src/math/Calculus.h"],
     [("conversions", "src/components/Spherical.cpp")],
     ["converted coordinates"])

prop("C27", "Implicit stages solve the equation they stand for",
     "An implicit stage returns the derivative k with k equal to the evolution operator applied to the state advanced by dt times k, for every step size, including when step sizes change from call to call. "
     "Implicit time integrators therefore do not increase energy for any step size in source-free passive problems.",
     ["inputs", "histories"], "all problems, states and sequences of step sizes, on both sides of the direct/iterative size limit",
     NOMFEM + "No test varies the step size between implicit stages.",
     ["src/evolution/GlobalEvolution.cpp"],
     [("implicit solve with cached factorisation", "src/evolution/GlobalEvolution.cpp")],
     ["implicit stage result"])

prop("C28", "Exported operators and states reproduce the simulation",
     "The exported operator file, read back, is the operator the solver applies, and the exported state files are the field vectors at the recorded times, in order and to the printed precision. "
     "Advancing the first exported state with the exported operator gives the later ones.",
     ["inputs", "configurations", "histories"], "all problems, save counts and step sizes",
     NOMFEM + "The MOR case only checks that files appear.",
     ["src/components/DGOperatorFactory.h", "src/solver/ProbesManager.cpp"],
     [("operator export", "src/components/DGOperatorFactory.h"), ("state export", "src/solver/ProbesManager.cpp")],
     ["exported files"])

prop("C29", "Results do not depend on numbering, position or orientation of the mesh",
     "Renumbering vertices, elements or boundary faces, cyclically relabelling the vertices of an element, translating the mesh, or rotating mesh and fields together leaves the time derivative unchanged up to the same transformation. "
     "The same holds for the choice of which of two elements comes first at a shared face.",
     ["inputs", "configurations"], "all problems, states, renumberings and rigid motions",
     NOMFEM + "Every test uses the numbering its mesh came with.",
     ["src/components/DGOperatorFactory.h", "src/mfemExtension/BilinearIntegrators.cpp", "src/mfemExtension/IntegratorFunctions.cpp", "src/evolution/GlobalEvolution.cpp", "src/components/SubMesher.cpp"],
     [("normals and face-pair handling", "src/mfemExtension")],
     ["time derivative returned by the evolution operator"])

prop("C30", "Physical constants and unit conversions are mutually consistent",
     "Speed of light, vacuum permittivity, vacuum permeability and vacuum impedance are consistent in SI units to their published precision and equal one in normalised units. "
     "Everything expressed to the user in SI units converts back to the internal value.",
     ["inputs", "configurations"], "all times, frequencies and conductivities converted between unit systems",
     "The stable tests check the constants but not the conversions built on them.",
     ["src/math/PhysicalConstants.h", "src/driver/driver.cpp", "src/solver/ProbesManager.cpp"],
     [("constants", "src/math/PhysicalConstants.h")],
     ["constants, converted inputs and outputs"])

prop("C31", "Results do not depend on the number of processes",
     "For any number of processes and any distribution of the elements that keeps special surfaces whole, a run gives the same time derivative, step size, fields and point records as one process does, to rounding or the tolerance of the solver. "
     "No run on several processes hangs or fails where one process succeeds.",
     ["inputs", "configurations"], "all meshes, materials, boundary conditions, sources, integrators, process counts and element distributions",
     NOMFEM + "Tests run on one process.",
     ["src/solver/Solver.cpp", "src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/components/DGOperatorFactory.h", "src/components/Model.cpp", "src/driver/driver.cpp", "src/solver/ProbesManager.cpp"],
     [("neighbour exchange and shared faces", "src/evolution/GlobalEvolution.cpp, src/evolution/MaxwellEvolution.cpp"), ("time step over all processes", "src/solver/Solver.cpp"), ("partitioned model", "src/components/Model.cpp, src/driver/driver.cpp")],
     ["fields, time step and point records after a run"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
