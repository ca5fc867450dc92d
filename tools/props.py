#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = "clustertools/cluster/cluster.py"; OP = "clustertools/cluster/operations.py"
FN = "clustertools/analysis/functions.py"; PR = "clustertools/analysis/profiles.py"
OR = "clustertools/analysis/orbits.py"; TT = "clustertools/tidaltail/tails.py"
RE = "clustertools/util/recipes.py"; CO = "clustertools/util/coordinates.py"
UN = "clustertools/util/units.py"; OU = "clustertools/util/output.py"; IO = "clustertools/io/"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, claim=claim, reason=reason))

prop("C01", "Unit conversions are exact, path-independent and reversible",
 "Converting a cluster between any of the supported unit systems (pckms, kpckms, pcmyr, kpcgyr, nbody, galpy, WDunits, amuse), directly or through any chain of conversions, expresses the same physical time, masses, star positions and velocities, cluster centre (xc..vzc) and orbital position (xgc..vzgc) with the documented conversion factors. "
 "Whatever the chain, the result depends only on the final unit system, converting back recovers the original values, converting to the current unit system changes nothing, and the units attribute always names the system the numbers are in. An orbital position added with its own units is converted to those of the cluster.",
 ["histories", "inputs", "configurations"],
 "All finite sequences of to_<units>/to_units calls over all clusters, all N-body scalings, all ro/vo, and all origins.",
 "The tests convert a handful of clusters along single hops with round numbers (often with zero centre/orbit); nothing drives arbitrary chains, non-trivial xc/xgc/tphys/N-body scale together, or compares against one independent SI state.",
 [OP, CL], [("per-unit conversion functions scaling stars, xc, xgc and tphys", OP + " to_pckms..to_units"), ("method wrappers", CL + " to_pckms..")],
 ["StarCluster public attributes after every conversion"],
 "runtime monitor: operation-history driver with an independent SI reference state checked after every conversion",
 "Every visited history agrees with an SI shadow state; unvisited chains and extreme magnitudes are not covered.")

prop("C02", "Changing origin is a rigid shift that loses nothing",
 "Moving a cluster between the centre, cluster and galaxy origins, in any order, shifts all stars' positions by exactly the cluster's centre (xc..) and orbital position (xgc..) and velocities by the corresponding velocities, so every star's galactocentric position and velocity, mass and identity are unchanged and relative positions and velocities never change. "
 "The origin attribute names the frame actually in use, moving to the current origin is a no-op, returning to an earlier origin restores the earlier coordinates, and interleaving unit conversions does not change any of this.",
 ["histories", "inputs"],
 "All sequences of to_centre/to_center/to_cluster/to_galaxy/to_origin interleaved with unit conversions, over all clusters with arbitrary xc and xgc.",
 "Tests perform single transitions from one starting frame; interleavings with unit conversions and multi-step routes (centre to galaxy directly, etc.) are not explored.",
 [OP, CL], [("to_centre/to_cluster/to_galaxy/to_origin", OP)],
 ["StarCluster x..vz, xc.., xgc.., origin"],
 "runtime monitor: history driver with galactocentric reference phase space as invariant", "Covers the visited histories only.")

prop("C03", "Derived structure always describes the current stars",
 "After adding stars, changing units or origin, virializing, adding rotation, taking a subset or re-analysing, every derived quantity of a cluster (r, rpro, v, vpro, mtot, mmean, rmean, rmax, rm, r10, rmpro, r10pro, rh/rhpro when luminosities exist, ntot and the sorted orders rorder and rproorder) is the one defined by the star arrays as they are now, in the current units and origin. "
 "In particular the sorted orders really sort the current 3D and projected radii, rm and rmpro enclose half of the current mass and no value is left over from an earlier frame, unit system or membership.",
 ["histories", "inputs"],
 "All finite operation histories over all clusters.",
 "Stale-cache defects need a history (sort in one frame, move, re-analyse); each test performs one operation on a fresh cluster.",
 [CL, OP], [("analyze/sortstars caching of rorder by origin", CL + " analyze, sortstars"), ("return_cluster", OP)],
 ["attributes after each operation"],
 "runtime monitor: recompute-from-scratch oracle on every derived attribute after every operation of random histories", "Covers the visited histories only.")

prop("C04", "Analysis calls leave the cluster as they found it",
 "Every analysis, profile, orbit, tail and output function that is documented as returning results (energies, closest_star, rlagrange, virial_radius, relaxation times, rcore, rtidal, rlimiting, mass functions, all profiles, orbital_path, tail_path, snapout, sub_cluster, ...) returns with the cluster's units, origin, star positions, velocities, masses, ids, row order, centre and orbital position unchanged to rounding. "
 "Arguments supplied by the caller (arrays, selection masks, bin edges) are not modified either, and repeating a call gives the same result.",
 ["inputs", "histories", "configurations"],
 "All analysis functions and their options, called in any order on clusters in any units and origin.",
 "Tests check a returned number on a fresh cluster and never compare the complete cluster state, nor the caller's arrays, before and after each call.",
 [FN, PR, OR, TT, CL, OP, OU], [("save_cluster/return_cluster around conversions", OP)],
 ["snapshot of cluster state before/after every call"],
 "runtime monitor: before/after state diff hooked around every analysis call", "Covers the functions, option combinations and starting states driven.")

prop("C05", "Adding stars and binaries conserves what was added",
 "Stars added in any number of calls appear exactly once, in order, with the given positions, velocities, masses, ids, initial masses and population, singles after and binaries before existing rows; ids generated automatically are unique, and all per-star arrays and ntot, ns, nb stay mutually consistent. "
 "Each binary appears as one row at the mass-weighted centre of its two components, so total mass, momentum and first moment are conserved, and its components are kept; stellar-evolution and energy data added later align with the same rows and totals (luminosity, energies, virial ratio) match.",
 ["inputs", "histories"],
 "All sequences of add_stars (scalar/array arguments, with and without binaries), add_binary_stars, add_sse, add_bse, add_energies, add_action(s).",
 "Tests add one batch (rarely two) with simple numbers; repeated and mixed batches, scalar broadcasts and binaries added more than once are not exercised.",
 [CL], [("add_stars, add_binary_stars, add_sse, add_bse, add_energies", CL)], ["per-star arrays, nb, ns, ntot"],
 "runtime monitor: shadow ledger of every added star/binary compared after each call (exactly-once, conservation)", "Covers the batches generated.")

prop("C06", "Selections return exactly the matching stars with their data",
 "subset, sub_cluster and every analysis function's selection arguments (radius, projected radius, mass, velocity, energy, stellar type, population ranges and masks) select exactly the stars that satisfy all given inclusive bounds, in their current order. "
 "A sub_cluster carries each selected star's own row of every per-star property (mass, position, velocity, id, initial mass, population, stellar type, luminosity, radius, energies, density), the parent's units, origin, time, N-body scaling, centre and orbital position, and creating it does not disturb the parent; overlap_cluster marks exactly the stars within the given distance of the other cluster.",
 ["inputs", "configurations"],
 "All clusters, all combinations of bounds including extremes, projected or not, in all units and origins.",
 "Tests use one bound at a time on one cluster and compare only a few columns.",
 [CL], [("subset/_get_subset, sub_cluster, overlap_cluster", CL)], ["boolean mask, sub-cluster arrays"],
 "runtime monitor: unique-id tagged stars; row-by-row oracle of selection and carried data", "Covers generated selections.")

prop("C07", "Energies equal the pairwise definition",
 "energies returns for every star the kinetic energy and the sum of pairwise (optionally softened) gravitational potential energies of its current companions, per unit mass or not, in the gravitational constant of the current units, whichever of the ids, full, projected and specific options is used; virial-ratio, total and per-star energies stored on the cluster are consistent with these. Kinetic energies are measured in the cluster's own frame (its centre when that is the origin). For stars at distinct positions, results do not depend on star order or the cluster's place in the Galaxy, or on which star subset is requested: the energies of a requested star are the same as in a complete calculation.",
 ["inputs", "configurations"],
 "All clusters and all option combinations for which each option set is documented.",
 "Tests check two-body cases and one data file with default options.",
 [FN, CL], [("energies, _potential_energy, _potential_energy_subset", FN)], ["returned kin/pot and cluster.kin/pot/etot/ektot/ptot/qvir"],
 "runtime monitor: independent O(N^2) float64 oracle on each call, plus metamorphic permutations and shifts", "Covers generated clusters up to a few hundred stars.")

prop("C08", "Parallel energy calculation equals the serial one",
 "Computing energies with parallel=True gives the same per-star values as parallel=False, for every number of threads and on every repetition. "
 "No star's potential depends on thread timing.",
 ["schedules", "inputs", "configurations"],
 "All thread counts, thread schedules, cluster sizes and option combinations (full, ids, softening, projected, specific).",
 "The suite runs with one numba thread, so no interleaving ever occurs.",
 [FN], [("numba parallel kernels", FN + " _potential_energy_parallel, _potential_energy_subset_parallel")], ["returned arrays under 1..8 threads"],
 "runtime monitor: race detection by differential stress under multi-threaded numba with varied thread counts and repetition", "A race that never manifests in the repetitions run is not seen.")

prop("C09", "Characteristic radii obey their definitions",
 "Lagrange radii rlagrange(nlagrange) are non-decreasing radii enclosing at least, and no more than one star beyond, the i/nlagrange fraction of the cluster mass (or of projected or massed-defined mass when requested), with rm the half-mass one; virial_radius by inverse distance equals the (projected) harmonic-mean separation definition, by critical density the outermost radius where the mean enclosed density crosses overdens times the critical density; in Cartesian coordinates closest_star returns each star's true nearest-neighbour distance, and rcore by isothermal-density definition is as documented. "
 "Each value is returned in the cluster's current units and stored on the cluster in those same units.",
 ["inputs", "configurations"],
 "All clusters, radial orders, units, origins, projected or not.",
 "Tests use one or two equal-mass or Plummer files in one unit system.",
 [FN, CL], [("rlagrange, virial_radius, closest_star, rcore", FN)], ["returned radii"],
 "runtime monitor: definitional oracle (cumulative mass, pairwise separations, k-d free nearest neighbour) on every call", "Covers generated clusters.")

prop("C10", "Cluster centres are found where the stars are",
 "find_centre and its variants return the position and velocity of the requested centre: the centre of mass is the mass-weighted mean of positions and velocities, the density centre of a cluster with enough stars lies within the star distribution at its densest concentration, and both follow a rigid translation of the stars (and of the point an iterative search starts from) by exactly the translation and are independent of star order. "
 "The result is stored in xc..vzc (or as the orbital position when the cluster's origin is galactocentric) so that changing to the centre or cluster frame afterwards puts the found centre at zero, whatever the units.",
 ["inputs", "configurations"], "All clusters, methods, units and origins.",
 "Tests locate the centre of one synthetic cloud per method.",
 [FN, CL], [("find_centre, find_centre_of_density, find_centre_of_mass", FN), ("find_centre method", CL)], ["returned centre, xc.., xgc.."],
 "runtime monitor: definitional oracle for centre of mass; translation/permutation metamorphic monitors and known-peak workloads", "Density centre checked by containment and equivariance, not by an exact definition.")

prop("C11", "Relaxation times follow their published formulae in any units",
 "relaxation_time, half_mass_relaxation_time and core_relaxation_time equal the formulae they cite evaluated on the current stars (3D or projected), with the documented coulomb parameter, and are returned in the time units of the cluster's current unit system. "
 "The value describes the same physical time whatever units or origin the cluster is in.",
 ["inputs", "configurations"], "All clusters, units, origins and options.",
 "Tests evaluate one formula on one cluster in pckms.",
 [FN, CL], [("relaxation_time, half_mass_relaxation_time, core_relaxation_time", FN), ("_convert_time", UN)], ["returned times"],
 "runtime monitor: independent re-evaluation of each formula on every call; cross-unit metamorphic comparison", "Covers generated clusters.")

prop("C12", "Radial profiles are the stated statistic of each bin's stars",
 "Every radial profile (rho, m, sigv, beta, v, v2, vcirc) covers the selected stars with ordered, non-overlapping bins in which every selected star is counted at most once, reports the number of stars per bin, and its value in each bin is the stated statistic (density, mass or cumulative mass, dispersion, anisotropy, mean velocity, mean square velocity, circular velocity) of exactly those stars, in 3D or projection. "
 "Summed over bins, star counts and masses equal those selected; normalised radii are the physical ones divided by the (projected) half-mass radius, and values are in the cluster's current units. Velocity statistics of bins with three stars or fewer are reported as zero, and the circular velocity is that of the selected mass inside the star nearest each bin radius.",
 ["inputs", "configurations"], "All clusters, bin numbers, selections, projected/3D, normalised or not, fixed or star-number bins, units.",
 "Tests compare a profile against the same algorithm on one data file.",
 [PR, RE], [("rho_prof, m_prof, sigv_prof, beta_prof, v_prof, v2_prof, vcirc_prof", PR)], ["returned arrays"],
 "runtime monitor: per-bin recomputation oracle and conservation accounting on each returned profile", "Covers generated configurations.")

prop("C13", "Mass-function, energy-equipartition and slope fits match the data",
 "mass_function, tapered_mass_function, eta_function, meq_function and the corresponding alpha, eta and meq profiles bin exactly the selected stars (every one once, counts summing to the selection), report per-bin means, counts, dN/dm or velocity dispersion that those stars define, and return the least-squares slope, intercept and errors of exactly those points. "
 "Slopes are unchanged when masses, lengths or velocities are expressed in other units and when stars are re-ordered, and data drawn from a known power law gives back its slope within errors. This holds for selections with at least as many distinct masses as bins (twice as many for velocity dispersions), and alpha_prof and eta_prof report slopes against ln(r/rm).",
 ["inputs", "configurations"], "All clusters, mass bins, selections, units.",
 "Tests fit one synthetic sample.",
 [FN, PR, RE], [("mass_function, eta_function, meq_function", FN), ("alpha_prof, eta_prof, meq_prof", PR), ("dx_function", RE)], ["returned tuple"],
 "runtime monitor: independent binning accounting and polyfit oracle on every returned fit", "Covers generated configurations.")

prop("C14", "Binning recipes partition their input",
 "nbinmaker, binmaker and their roaming variants return ordered bin edges that cover all of the data, with lower <= mean <= upper and per-bin counts equal to the number of data points inside each bin; non-roaming bins are contiguous, so counts sum to the sample size, and star-number bins of data with at least two distinct values differ in occupancy by as little as the data allow. Equal-width bins (roaming ones in the requested steps) are given by their centres and star-number bins by the mean of their data. "
 "The derived recipes (power-law sampling within its bounds and slope, dx_function, x_hist, mean_prof, smooth, interpolate, minimum_distance, distance, bin_index) return the statistic of exactly the points in each bin.",
 ["inputs"], "All finite float arrays, bin counts, step types, orderings.",
 "Tests use a few smooth arrays.",
 [RE], [("recipes", RE)], ["returned arrays"],
 "runtime monitor: direct recount oracle over generated arrays incl. adversarial sizes and orders", "Covers generated arrays.")

prop("C15", "Coordinate transforms are mutually inverse isometries",
 "Cartesian to spherical and cylindrical transforms and their inverses recover the input position and velocity, preserve distance and speed, and give the documented angles; cart_to_sky and the orthographic/VandeVen projections agree with the independent sky geometry. "
 "The cluster-level sphere_coords, cyl_coords and sky_coords return the coordinates of the cluster's current stars in the requested frame.",
 ["inputs", "configurations"], "All finite phase-space points away from coordinate singularities, scalar or array.",
 "Tests try a few points.",
 [CO], [("coordinate functions", CO)], ["returned arrays"],
 "runtime monitor: round-trip and independent-formula oracles over random points in all octants", "Covers generated points.")

prop("C16", "Sky coordinates describe the same stars",
 "Converting a cluster to sky coordinates (radec) gives every star, the cluster centre and the orbital position the right ascension, declination, distance, proper motions and line-of-sight velocity of its galactocentric phase-space point for the cluster's ro, vo, zo and solar motion, and converting back to any Cartesian unit system and origin recovers the original values. "
 "This holds whatever conversions, orbit initialisations or changes to the stars preceded it: no stale sky or orbit data is used.",
 ["histories", "inputs", "configurations"], "All clusters and histories of to_radec/to_sky/to_units/to_origin/initialize_orbit(s)/add_orbit with solar parameters.",
 "Tests do one round trip from one starting frame.",
 [OP, CL, OR], [("to_radec, from_radec, to_sky", OP), ("orbit/orbits caching", OR)], ["ra.., ra_gc.., x.. in radec"],
 "runtime monitor: independent astropy galactocentric transform as oracle plus history round-trip monitor", "Trusts astropy's frame transformation.")

prop("C17", "Orbits start where the cluster is and integrate consistently",
 "initialize_orbit and initialize_orbits produce galpy orbits whose position and velocity at the initial time are exactly the cluster's galactocentric phase-space position (or each star's, in the cluster's current origin) for the cluster's ro, vo, zo and solar motion, whatever the cluster's units. integrate_orbit(s) and interpolate_orbit(s) follow the cluster and stars along the trajectory of the given potential by the requested time (in the documented units), conserving orbital energy and angular momentum about the symmetry axis, and integrating back returns to the start, for orbits that stay away from the singular centre of the potential.",
 ["inputs", "configurations", "histories"], "All clusters, units, origins, potentials, times.",
 "Tests run one cluster in one or two unit systems.",
 [OR, CL], [("initialize_orbit(s), integrate_orbit(s), interpolate_orbit(s)", OR)], ["Orbit objects, x.. xgc.. after interpolation"],
 "runtime monitor: independent ODE integration and phase-space equality checks on each orbit produced", "Trusts scipy's integrator for the reference trajectory.")

prop("C18", "Orbital and tail paths pass through the cluster and project stars correctly",
 "orbital_path and tail_path return time-ordered points through the cluster's current galactocentric position at time zero, in the requested units and frame, consistent with the orbit of the cluster; orbital_path_match and tail_path_match assign every star the nearest point of the path, the distance to it and the signed distance along the path from the time-zero point, in the same units (on the sky, separations are coordinate differences in degrees). "
 "to_tail rotates positions and velocities by one rigid rotation about the cluster's centre that aligns its motion with the x axis.",
 ["inputs", "configurations"], "All clusters, potentials, time ranges, units, origins.",
 "Tests check a single circular-like orbit in one unit system.",
 [OR, TT], [("orbital_path, orbital_path_match", OR), ("to_tail, tail_path, tail_path_match", TT)], ["returned arrays"],
 "runtime monitor: nearest-point and path oracles recomputed independently; rotation orthogonality monitor", "Covers generated orbits.")

prop("C19", "What is written can be read back",
 "Writing a cluster with snapout (any units, origin, with or without energies, stellar types, sky coordinates; for units whose values are plain numbers), fortout (in N-body units, rescaled when asked), sseout or gyrout and loading the file again gives the same stars, in the same order, with the same masses, positions, velocities, ids and types in the stated units, to the precision of the file format. "
 "Writing never changes the cluster.",
 ["inputs", "configurations"], "All clusters, unit systems, origins and writer options.",
 "Tests write one cluster in one unit system.",
 [OU, IO + "snapshot.py", IO + "gyrfalcon.py", IO + "load.py"], [("snapout, fortout, gyrout, sseout", OU), ("snapshot loader", IO + "snapshot.py")], ["file contents, reloaded cluster"],
 "runtime monitor: write/read round-trip with independent numpy parse of the file", "Covers generated clusters.")

prop("C20", "Loaders attach every column and unit to the right star property",
 "load_cluster, for generic text snapshots (any col_names/col_nums permutation, delimiter, header rows, units and origin), astropy tables, AMUSE particle sets, galpy orbits and distribution-function samples, nemo/gyrfalcon files and limepy models, produces a cluster in which every star appears exactly once with each input column under its own name, in the declared units and origin. "
 "A supplied orbit or orbit file sets the cluster's galactocentric position and velocity in the cluster's units, and stars are placed in the requested origin.",
 ["inputs", "configurations"], "All column layouts, units, origins, orbit specifications.",
 "Tests load one or two files in their default layout.",
 [IO + "load.py", IO + "snapshot.py", IO + "astropy_table.py", IO + "gyrfalcon.py", IO + "galpydf.py", IO + "amuse.py", IO + "limepydf.py"],
 [("load_cluster dispatch and column mapping", IO + "load.py")], ["loaded StarCluster"],
 "runtime monitor: generated input files with unique values per cell, so every loaded value identifies its source cell", "Covers generated layouts.")

prop("C21", "Advancing through snapshots visits each exactly once, in order",
 "advance_cluster steps a cluster through a simulation's snapshots in increasing order, each exactly once and without skipping, returning the next snapshot's stars, time and orbital position (from the orbit file row of that snapshot), carrying over the user's settings (units, origin, file layout, snapshot directory, solar position and centre method), continuing in the simulation's cont directory when there is one, and reports the end of the sequence by an empty cluster. "
 "The advanced cluster equals one loaded directly at that snapshot.",
 ["histories", "configurations"], "All snapshot sequences, step sizes, file formats and orbit files.",
 "One test advances a single step of one format.",
 [IO + "load.py", IO + "snapshot.py", IO + "gyrfalcon.py", IO + "nbody6.py", IO + "nbody6pp.py"], [("advance_cluster", IO + "load.py")], ["sequence of returned clusters"],
 "runtime monitor: exactly-once/ordering checker over generated snapshot sequences, differential with direct loading", "Covers generated sequences.")

prop("C22", "N-body simulation output is decoded faithfully",
 "Loading NBODY6 and NBODY6++ output (OUT3/OUT33 and conf.3 records, hdf5 groups, binary and stellar-evolution files) yields exactly the singles and binaries written by the simulation, with binary centres of mass, masses, ids, stellar types and the simulation's scale factors assigned, so that converting to physical units multiplies by exactly the header's scalings. "
 "Totals (number, mass, luminosity) match the files for every mixture of singles and binaries, including none.",
 ["inputs", "histories"], "All generated NBODY6/NBODY6++ outputs with any number of stars and binaries and successive snapshots.",
 "One test only checks that one NBODY6++ file runs.",
 [IO + "nbody6.py", IO + "nbody6pp.py", IO + "load.py"], [("record readers", IO + "nbody6.py")], ["loaded StarCluster"],
 "runtime monitor: synthetic OUT records with unique values per field; every decoded value traced to its record", "Record layout taken from the reader's documentation and NBODY6 manual.")

prop("C23", "Scaling operations achieve what they promise and nothing else",
 "virialize makes the cluster's virial ratio (as energies defines it) equal to the requested value by multiplying all velocities by one factor in the cluster-centred frame in use; reset_nbody_scale sets the mass, length, velocity and time scales from the current total mass and virial (or half-mass) radius so that the cluster has unit mass and G=1 in nbody units, without changing its physical state; add_rotation reverses the azimuthal motion of a fraction qrot of the retrograde stars only, leaving positions, speeds, radial and vertical velocities unchanged. "
 "Each holds from any units and origin and when repeated.",
 ["histories", "inputs", "configurations"], "All clusters, units, origins, repetition and option values.",
 "Tests call each once on a fresh cluster at the centre.",
 [OP, CL], [("virialize, reset_nbody_scale, add_rotation", OP)], ["velocities before/after, energies recomputed"],
 "runtime monitor: postcondition oracle recomputing the virial ratio and scale factors independently after each call", "Covers generated histories.")

prop("C24", "Scalar unit-conversion helpers agree with cluster conversions",
 "The unit-conversion helpers for lengths, masses, times, velocities, square velocities, densities (3D or projected) and amuse quantities give, for every pair of unit systems, the same physical value that converting the cluster itself gives, and converting there and back is the identity; lengths in radec are the angles they subtend at the cluster's distance. The helpers do not modify the values passed to them.",
 ["inputs", "configurations"], "All unit pairs, scalar and array values, all scalings.",
 "One test converts lengths for a few pairs.",
 [UN], [("_convert_length, _convert_time, _convert_velocity, _convert_mass, _convert_density, ...", UN)], ["returned values"],
 "runtime monitor: differential oracle between helper and whole-cluster conversion over all ordered unit pairs", "Helpers are exercised through clustertools.util.units.")

prop("C25", "Analysis results are independent of units, frame and row order",
 "Evaluating any structural analysis (energies, radii, relaxation times, profiles, mass and velocity slopes, tidal and limiting radii) on the same cluster expressed in different units, in an equivalent origin (from its centre, or as seen in the Galaxy), or with its stars in a different row order gives the same physical result expressed in the current units. "
 "Rotating the whole cluster about its centre leaves all 3D scalar results that do not refer to the axes unchanged.",
 ["inputs", "configurations", "histories"], "All clusters and analysis functions under unit changes, frame changes, permutations and rotations.",
 "No test compares the same analysis across two representations.",
 [FN, PR, OP, UN], [("save/convert/return pattern", OP), ("_get_grav", "clustertools/util/constants.py")], ["results across representations"],
 "runtime monitor: metamorphic relations over transformed copies of each cluster", "Relations, not absolute values; C07, C09, C11-C13 give the absolute oracles.")

prop("C26", "Binary orbital units convert consistently",
 "Converting binary properties between solar-radii/days, AU/days and N-body units through any sequence of to_sudays, to_audays and to_nbody calls (for N-body scale factors set by add_nbody6 or reset_nbody_scale) expresses the same physical semi-major axes, periods and component masses, returns the original values when reversed, and bunits names the system in use. "
 "Kepler's third law relates converted semi-major axis, period and total mass for every binary throughout.",
 ["histories", "inputs"], "All sequences of binary unit conversions over all N-body scalings.",
 "One round trip is tested.",
 [OP, CL], [("to_sudays, to_audays, to_nbody", OP), ("add_nbody6 scale factors", CL)], ["semi, pb, m1, m2, bunits"],
 "runtime monitor: SI shadow state for binaries along random conversion histories", "Covers the visited histories only.")

prop("C27", "Tidal and limiting radii balance the stated densities and fields",
 "rtidal returns the radius at which the cluster's enclosed mass balances the tidal field of the given potential at the cluster's galactocentric position (iterated to convergence when requested), and rlimiting the radius at which the cluster's density profile falls to the local background density of the potential, each in the cluster's units and independent of units, origin or star order. "
 "Neither depends on stars outside the requested selection, nor changes the selection given.",
 ["inputs", "configurations"], "All clusters, potentials, orbital positions, units, iteration settings.",
 "Tests compare one value against galpy in one unit system.",
 [FN], [("rtidal, rlimiting", FN)], ["returned radii"],
 "runtime monitor: independent tidal-tensor and density-crossing oracle", "Trusts galpy potentials' forces and densities.")

prop("C28", "Generated model clusters have the requested parameters",
 "setup_cluster and load_cluster(ctype='limepy') produce exactly the requested number of stars of equal mass adding up to the requested total, distributed as the requested lowered-isothermal model (central potential, truncation order, and whichever of rt, rh, rv, r0 was given, or a limepy model object), centred, isotropic and in virial equilibrium for the gravitational constant of the requested units, in the requested units and origin and on the requested orbit. "
 "Galactic clusters are found in the de Boer et al. (2019) and then the Harris (1996) catalogue under any of their names, with the catalogue's mass and size and their observed orbit; c_to_w0 and w0_to_c are monotonic and inverse of each other over the tabulated range and agree with the concentration of King models.",
 ["inputs", "configurations"], "All model parameters in the documented ranges, unit systems and seeds.",
 "Three tests sample one model.",
 [IO + "limepydf.py", IO + "load.py"], [("_get_limepy, c_to_w0, w0_to_c", IO + "limepydf.py")], ["generated cluster"],
 "runtime monitor: postcondition checks with sampling tolerances sized from N over random parameters", "Statistical postconditions with wide tolerance.")

prop("C29", "Figures show the data",
 "starplot and skyplot draw every star exactly once per panel at its coordinates in the cluster's current units and frame (AMUSE clusters in pc) or on the sky, the centre of the cluster where it is in those coordinates, with the axes named after what they show and the limits given; "
 "the plot option of analysis, profile, orbit and tail functions and of the cluster's methods draws the values the call returns, with fits, radii and paths marked where the returned numbers put them and stars and path in the same coordinates, and neither changes the values returned nor the cluster. "
 "Without overplot a call draws one new figure and leaves earlier ones alone, with overplot it draws on the existing axes, and a filename given is written.",
 ["inputs", "configurations"], "All clusters, units, origins, plotting functions, panels, overplot/limits/file options.",
 "No test draws a figure and reads it back.",
 ["clustertools/util/plots.py", FN, PR, "clustertools/analysis/orbits.py", "clustertools/tidaltail/tails.py", "clustertools/util/recipes.py"], [("starplot, skyplot, _plot, _lplot, _scatter", "clustertools/util/plots.py"), ("plot= branches", FN)], ["matplotlib figures, axes, lines and markers", "returned values", "files written"],
 "runtime monitor: drawn artists read back and compared with independent star records and returned values", "Colours, legends and styles are not judged.")

CLAIMED = set(os.environ.get("CLAIM", "").split(",")) - {""}
def have(i):
    return os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py"))

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="sh tools/setup.sh",
           hooks=dict(guard="CLUSTERTOOLS_VERIF", enable="No hook is needed: the monitors observe public attributes and wrap public functions from the harness; the guard is reserved and currently guards nothing.", source_commits=[]),
           checks=[], not_applicable=[])
for p in P:
    if p["claim"] and have(p["id"]):
        man["checks"].append(dict(property=p["id"], quick_cmd="sh tools/run.sh %s quick" % p["id"],
            thorough_cmd="sh tools/run.sh %s thorough" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason=p["reason"] or "The monitor for this property is not built yet."))
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed;", [x["property"] for x in man["not_applicable"]], "not claimed")
