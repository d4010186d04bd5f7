PROPS = []
NOTES = ("All contracts are discharged against LLVM IR that clang generates from /repo's current sources on every run (the flags of the repository's own Makefile configuration; "
         "no source text is copied). Machine floating point is treated as exact real arithmetic except where a contract says otherwise; see DESIGN.md section Trust.")
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, note, over=("inputs",)):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note, over=list(over)))


BASE = "Proof over exact real arithmetic of the compiled function bodies (LLVM IR of the current tree); trusts clang's front end, the IR-to-logic translator in /verif/gvc and z3/cvc5. "

P("C01", "Smoothing kernels are the functions their definitions say they are",
  "For the M4 and quintic kernels in one, two and three dimensions the kernel value is the standard piecewise spline with unit volume integral, its derivative kernel is the exact derivative, the smoothing-length-derivative kernel is minus (dimension times W plus s times dW/ds), and the 3D softened force, potential and zeta kernels are the exact integrals of W that join the Newtonian values at the kernel edge; the Gaussian kernel obeys the same definitions for value, derivative and smoothing-length derivative. "
  "All kernels vanish outside their support, and squared-argument and drag forms agree with the plain forms. "
  "A tabulated kernel returns, for every argument inside the support, the underlying kernel's value at the grid point at or below the argument (outside: zero, or the Newtonian values for gravity), and a copied table evaluates identically and shares no storage.",
  "every argument s >= 0, every normalisation, every table resolution and kernel range, dimension 1, 2, 3",
  "tests compare a handful of kernel values against a coded table; they never check the derivative/integral relations or the joins between pieces, and every force in the code is wrong if one coefficient is",
  ["src/Hydrodynamics/M4Kernel.cpp", "src/Hydrodynamics/QuinticKernel.cpp", "src/Hydrodynamics/GaussianKernel.cpp", "src/Hydrodynamics/TabulatedKernel.cpp", "src/Headers/SmoothingKernel.h"],
  [("w0/w1/womega/wzeta/wgrav/wpot of each kernel", "src/Headers/SmoothingKernel.h"), ("table construction and lookup", "src/Headers/SmoothingKernel.h, src/Hydrodynamics/TabulatedKernel.cpp")],
  BASE + "The line-of-sight column kernel's numerical quadrature is assumed (contract on the table fill loop only). Two known findings: the Gaussian kernel's gravity kernels are identically zero.")

P("C05", "Periodic and mirror boundaries image particles exactly",
  "In a domain with any mix of open, periodic and mirror boundaries: the minimum-image separation differs from the plain one by exactly zero or one box length per periodic axis, is within half a box there and is untouched on the other axes, and box-overlap tests use it; particles and stars that leave a periodic box are wrapped back by exactly one box length, and those crossing a mirror are reflected in position with the normal velocity and acceleration reversed, every other component and field unchanged; "
  "a reflection reverses exactly the components normal to the mirror; neighbour lists contain the nearest periodic image of each particle and exactly the mirror images that are needed, each at the position its flags describe with mass, smoothing length and thermal state copied, never one image twice.",
  "every position and separation up to one and a half boxes, every box, every boundary combination, dimension 1, 2, 3, every particle count",
  "tests run shock tubes in one fixed box with one boundary combination; they cannot see an image that is missing, doubled or displaced for another box, axis or mix of boundaries",
  ["src/Headers/GhostNeighbours.hpp", "src/Headers/DomainBox.h", "src/Common/Integration.cpp", "src/Nbody/Nbody.cpp", "src/Hydrodynamics/Hydrodynamics.cpp"],
  [("GhostNeighbourFinder, reflect()", "src/Headers/GhostNeighbours.hpp"), ("NearestPeriodicVector, BoxesOverlap", "src/Headers/DomainBox.h"), ("TimeIntegration::CheckBoundaries", "src/Common/Integration.cpp"), ("Nbody::CheckBoundaries", "src/Nbody/Nbody.cpp")],
  BASE + "Three-dimensional neighbour-image lists are proved per pattern of mirrored axes (two mirrored axes in quick, all three in thorough); positions are assumed to be within half a box of the domain before wrapping.")

P("C09", "Stars feel the exact pairwise force and are moved by their scheme's polynomial",
  "Every active star receives from every other star, exactly once and through the nearest periodic image, the Newtonian (or kernel-softened) potential, acceleration and jerk of that pair, and in the Hermite schemes the second and third time derivatives; inactive stars and unrelated fields are untouched. "
  "AdvanceParticles moves every star by the Taylor polynomial of its scheme from the state at the start of its own step and flags exactly the stars whose force is due; CorrectionTerms gives the stars at the end of their step, and only those, the corrector of their scheme, which is exact for accelerations cubic (Hermite4), quintic (Hermite6) or linear (leapfrog) in time; "
  "EndTimestep starts a new step from the current state for exactly the flagged stars; perturber impulses are added as the mean force over the step.",
  "every number of stars, every position, velocity, mass, softening length, activity pattern, integer time and step, boundary combination, dimension 1, 2, 3",
  "tests integrate one binary with equal steps; a dropped pair, a wrong coefficient in a high derivative or an error that only shows with individual steps or inactive stars stays within their tolerances",
  ["src/Nbody/Nbody.cpp", "src/Nbody/NbodyHermite4.cpp", "src/Nbody/NbodyHermite4TS.cpp", "src/Nbody/NbodyHermite6TS.cpp", "src/Nbody/NbodyLeapfrogKDK.cpp", "src/Nbody/NbodyLeapfrogDKD.cpp"],
  [("CalculateDirectGravForces, CalculateDirectSmoothedGravForces", "src/Nbody"), ("AdvanceParticles, CorrectionTerms, EndTimestep, PerturberCorrectionTerms", "src/Nbody/NbodyHermite4.cpp and the other integrators"), ("CalculateAllStartupQuantities", "src/Nbody/NbodyHermite4.cpp, NbodyHermite6TS.cpp")],
  BASE + "Softening kernels enter through their C01 contracts. The Ewald correction is outside (open contract: PeriodicGravity off). M4 instantiation of the integrator templates.")

P("C02", "Gas laws give one consistent thermodynamic state",
  "For the adiabatic, isothermal, polytropic and the two barotropic laws: temperature, specific internal energy, pressure, sound speed and entropic function at any state are those of the law (adiabatic P=(gamma-1) rho u and c^2=gamma(gamma-1)u; isothermal T=T0; polytropic P=K rho^eta; barotropic T=T0(1+(rho/rho_bary)^(gamma-1)), second form T=T0 below rho_bary and T0 (rho/rho_bary)^(gamma-1) above), they are consistent with each other, "
  "internal energy from pressure inverts the pressure law, and the constructors store the parameters they are named after in code units. The locally isothermal law uses the distance to the closest star with a temperature floor, the disc law the distance to the central star; neutral gas in the two radiation laws follows the wrapped law, ionised gas never falls below it (ionising) or is the mixture weighted by the ionisation fraction (Monte Carlo).",
  "every density, energy and pressure, every parameter value, every number and position of stars, dimension 1, 2, 3",
  "tests run a few ideal-gas problems with one gamma; the other laws, their joins and units and the star-dependent laws are never compared with anything",
  ["src/Thermal/AdiabaticEOS.cpp", "src/Thermal/IsothermalEOS.cpp", "src/Thermal/PolytropicEOS.cpp", "src/Thermal/BarotropicEOS.cpp", "src/Thermal/Barotropic2EOS.cpp", "src/Thermal/LocallyIsothermal.cpp", "src/Thermal/DiscLocallyIsothermal.cpp", "src/Thermal/IonisingRadiationEOS.cpp", "src/Thermal/MCRadiationEOS.cpp", "src/Headers/EOS.h"],
  [("EOS subclasses' Temperature, SpecificInternalEnergy, SoundSpeed, Pressure, EntropicFunction and constructors", "src/Headers/EOS.h, src/Thermal")],
  BASE + "pow with a real exponent is an uninterpreted function (only its exponent laws are assumed, in the consistency lemmas).")

P("C06", "Gas particles are advanced by their scheme from the start of their own step",
  "AdvanceParticles of the kick-drift-kick, drift-kick-drift and finite-volume integrators moves every live particle by its scheme's polynomial (finite volume: the conserved quantities by the fluxes, gravity and cooling, from which mass, density, velocity, internal energy, pressure and sound speed are derived) from the state stored at the start of the particle's own step and flags exactly the particles whose forces are due; "
  "CorrectionTerms (kick-drift-kick) corrects only particles at the end of their step, to second order and with a first-order fallback where the internal energy would not stay positive; EndTimestep makes the current state the start of the next step for exactly the particles whose step ends, adds accumulated fluxes once and empties them, and switches the flags; SetActiveParticles marks exactly the particles due; "
  "the gas timestep is the minimum of the Courant, acceleration and energy conditions and positive; CheckTimesteps ends early exactly the synchronised steps of particles whose neighbours are too many levels finer. Dead particles and every other field stay untouched.",
  "every number of particles, every state, integer time and step, energy equation on or off, particle type, dimension 1, 2, 3",
  "tests compare end profiles of short runs with loose tolerances, mostly with global steps; a wrong order, a lost flux or a mistake that only acts on particles in mid-step or at the energy floor stays hidden",
  ["src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/Hydrodynamics/SphLeapfrogDKD.cpp", "src/Hydrodynamics/SphIntegration.cpp", "src/MeshlessFV/MfvIntegration.cpp", "src/MeshlessFV/MeshlessFV.cpp"],
  [("AdvanceParticles, CorrectionTerms, EndTimestep, SetActiveParticles, CheckTimesteps", "src/Hydrodynamics/SphLeapfrogKDK.cpp, src/Hydrodynamics/SphLeapfrogDKD.cpp, src/MeshlessFV/MfvIntegration.cpp"), ("SphIntegration::Timestep", "src/Hydrodynamics/SphIntegration.cpp"), ("UpdateArrayVariables, UpdatePrimitiveVector, ComputeThermalProperties", "src/MeshlessFV/MeshlessFV.cpp")],
  BASE + "Finite-volume contracts are for the adiabatic law and take the code's own assert() conditions (finite mass, positive sound speed) as assumptions. Finite-volume CheckTimesteps and Timestep are outside.")

P("C10", "Grad-h SPH forces sum each neighbour's pair law once; pairs conserve exactly",
  "In grad-h SPH with self-gravity on or off, the acceleration, heating rate and velocity divergence of a particle are exactly its old values plus one contribution of every neighbour-list entry: the grad-h pressure force of both sides, artificial viscosity (constant or time-dependent coefficient) and conductivity only for approaching pairs; the heating rate closes with -P/rho^2 div v and the time-dependent viscosity grows with compression. "
  "Softened self-gravity averages both smoothing lengths and zeta terms and is the same in the combined and gravity-only routines; distant neighbours attract as points; stars attract through the mean smoothing length. Each pair's forces are opposite, its kinetic plus internal energy rate is zero and its potential is the same from both sides. "
  "The particle's neighbour level becomes the maximum of the neighbours' timestep levels and, in the hydrodynamical routines, the neighbours' that of the particle; nothing else in the list changes. Internal energy, sound speed and pressure come from the gas law except for dust.",
  "every neighbour list (length, order, repeated entries), every particle state, every viscosity and conductivity option, dimension 1, 2, 3",
  "tests compare profiles of shock tubes against loose tolerances; a term missing for one option, an asymmetry between the two sides of a pair or a mistake in a dimension or routine the tests do not run is invisible",
  ["src/GradhSph/GradhSph.cpp", "src/Headers/NeighbourManager.h"],
  [("ComputeSphHydroForces, ComputeSphHydroGravForces, ComputeSphGravForces, ComputeDirectGravForces, ComputeStarGravForces, ComputeThermalProperties", "src/GradhSph/GradhSph.cpp")],
  BASE + "Kernel functions enter through their C01 contracts (M4 instantiation); adiabatic law for the pressure in the heating rate; the smoothing-length iteration (ComputeH) and the Cullen-Dehnen and SM2012 variants are outside.")
