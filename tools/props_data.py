H = dict(level="model_checking", driver="histories", module="HistoryTrace", rule=HIST)

prop("C01", "Unit conversions rescale every quantity by its documented factor",
     "After any sequence of unit conversions of a star cluster (pc-km/s, kpc-km/s, pc-Myr, kpc-Gyr, galpy, N-body, white-dwarf and AMUSE units, with any scale parameters), every stored position, velocity, mass, time, the cluster centre and the Galactic orbit equal the original physical quantities expressed in the current units, as if converted directly. "
     "Conversions never change the origin, or the number, ids or order of the stars, and converting back restores the original numbers.",
     ["histories", "inputs", "configurations"], "every sequence of unit conversions, every starting unit system and origin, all star data and scale parameters",
     "the tests convert one fixed cluster along a few single steps; wrong factors that only appear on some source/target pair, on the centre or orbit, with non-default scales, or after several steps are never exercised",
     [OP, UN], [("unit conversion operations", OP + ":to_pckms..to_units"), ("per-object wrappers", CL + ":to_pckms..to_units")], **H)
prop("C02", "Origin changes shift by the centre and orbit, and are reversible",
     "Moving a star cluster between the cluster, centre and galaxy origins, in any order and any Cartesian units and interleaved with unit conversions, adds or subtracts exactly the cluster centre and the Galactic orbit position and velocity, so that the coordinates in an origin do not depend on how it was reached. "
     "Masses, ids, order, centre, orbit and units are not affected by an origin change.",
     ["histories", "inputs"], "every sequence of origin and unit changes, all star data, centres and orbits",
     "tests check a few fixed round trips on one cluster with a trivial centre; path dependence needs longer histories and a centre offset from the orbit",
     [OP], [("origin operations", OP + ":to_centre,to_cluster,to_galaxy,to_origin")], **H)
prop("C03", "Sky coordinates are those of the Galactic frame, from and back to any frame",
     "Converting a cluster from any units and origin to sky coordinates gives the right ascension, declination, distance, proper motions and line-of-sight velocity of every star, of the centre and of the orbit, as seen from the Sun with the cluster's own Galactic scales and solar motion; in the cluster and centre origins, sky coordinates are offsets from the orbit and from the centre. "
     "Leaving the sky restores the Cartesian coordinates, centre and orbit, whatever conversions happened before and in between.",
     ["histories", "inputs", "configurations"], "every sequence of unit and origin changes that visits the sky, all star data, centres, orbits and solar parameters",
     "tests compare a handful of conversions at default solar parameters with the same library calls; stale caches and non-default solar parameters need longer histories",
     [OP, CL], [("sky conversions", OP + ":to_radec,from_radec,to_sky")], **H)
prop("C04", "Derived quantities always describe the current coordinates",
     "After any sequence of unit and origin changes and analyses that are asked to refresh the cluster, its radii, speeds, total and mean mass, mean and maximum radius, radial order of stars and half-mass and tenth-mass radii (3D and projected) are those of the coordinates the cluster shows at that moment.",
     ["histories", "inputs"], "every sequence of conversions and re-analyses with either sorting choice, all star data",
     "a stale cached order or radius only shows after particular sequences of conversions; tests look at one conversion at a time",
     [CL, OP], [("analysis", CL + ":analyze,calc_*"), ("re-analysis after a conversion", OP + ":to_*")], **H)
prop("C05", "Saving and returning, and every read-only analysis, leave the cluster as it was",
     "Recording the units and origin of a cluster and later returning to them brings back exactly that pair and the same coordinates, whatever conversions and analyses happened in between. "
     "Analyses that only measure the cluster (radii, relaxation times, energies, profiles, mass functions, neighbours, selections, orbit and tail measurements, output to file) leave its units, origin, coordinates, masses, ids, centre, orbit, time and the user's recorded pair unchanged.",
     ["histories", "inputs"], "every sequence of save, return, conversions and analyses, from any units and origin, all star data",
     "tests call analyses on clusters already in the units the analysis uses, and never look at the recorded pair afterwards",
     [CL, OP, FN, PR, OR, TT, OU], [("save and return", OP + ":save_cluster,return_cluster"), ("internal conversions of analyses", FN), ("", PR)], **H)

prop("C06", "Selecting stars returns exactly the stars that meet every criterion",
     "A selection of stars by any combination of radius, mass, speed, energy, stellar type, id and user mask (3D or projected) returns exactly the stars that satisfy all the given bounds, both bounds included; criteria not given exclude nothing. "
     "It never modifies the mask the caller passed or the cluster.",
     ["inputs", "configurations"], "all star data and every combination of criteria",
     "tests use single criteria on one cluster; boundary inclusion, combinations and side effects on the caller's mask are not covered",
     [FN, CL], [("selection", CL + ":subset,_get_subset")], driver="selection", module="SelectTrace")
prop("C07", "A sub-cluster holds exactly the selected stars with all their data",
     "Extracting a sub-cluster by any combination of criteria gives a cluster whose stars are exactly the selected ones, in order, with the same coordinates, masses, ids, energies and stellar-evolution data, and with the units, origin, time, centre, orbit and scale parameters of the parent. "
     "If asked, the sub-cluster is recentred or rescaled to its own stars; the parent is left unchanged.",
     ["inputs", "configurations"], "all star data, units, origins and every combination of criteria",
     "tests check a few attributes of one selection", [CL], [("sub-cluster extraction", CL + ":sub_cluster")], driver="selection", module="SelectTrace")
prop("C08", "Adding stars keeps every per-star array complete, aligned and correctly counted",
     "Building a cluster by any sequence of additions of stars, binaries, stellar-evolution data, energies and actions keeps all per-star arrays of the same length and aligned with the ids, keeps counts of stars and binaries right, keeps ids unique when they are generated, and keeps earlier stars' data unchanged. "
     "A binary contributes one star whose position and velocity are the mass-weighted centre of its members.",
     ["histories", "inputs"], "every sequence of additions, with scalar, list or array arguments and optional masses and ids",
     "tests add stars once or twice to an empty cluster", [CL], [("adding stars", CL + ":add_stars,add_binary_stars,add_sse,add_bse,add_energies")], driver="members", module="MemberTrace")
prop("C09", "Binary elements and N-body scales convert by their documented factors",
     "Converting binary periods, separations and masses between astronomical, solar and N-body units multiplies each by its documented factor, once, whatever the order of conversions, and leaves the stars alone. ",
     ["histories", "inputs"], "every sequence of binary unit conversions, all binary elements and scales",
     "tests do one conversion in each direction", [CL, OP], [("binary units", OP + ":to_audays,to_sudays,to_nbody")],
     driver="binaries", module="BinaryTrace")
prop("C10", "Kinetic and potential energies are those of the gravitating stars",
     "The kinetic, potential and total energies and virial ratio computed for a cluster equal half m v^2, the pairwise gravitational sum over all (other) stars with softening, their sum and ratio, in the gravitational constant of the cluster's units, in 3D or projection, per unit mass or not, whether computed pair by pair or as radially ordered estimates, for all stars or requested ones.",
     ["inputs", "configurations"], "all star data, units, softening, options and parallel or serial evaluation",
     "tests compare sums on two stars or one cluster", [FN, CL], [("energies", FN + ":energies,potential energies")],
     driver="energy", module="EnergyTrace")
prop("C11", "Rescaling a cluster reaches the requested state and changes nothing else",
     "Virialising a cluster rescales velocities so that its virial ratio is the requested one; computing N-body scales gives total mass one, radius one and gravitational constant one; adding rotation reverses the tangential velocities of the requested fraction of stars. "
     "Positions, masses, ids and the frame are unchanged, and repeating a rescaling has no further effect.",
     ["inputs", "configurations", "histories"], "all star data, units and origins, and repeated calls",
     "tests call each operation once on one cluster", [OP, CL], [("rescaling", OP + ":virialize,reset_nbody_scale,add_rotation")],
     driver="rescale", module="RescaleTrace")
prop("C12", "Finding the centre locates the stars' centre and records it in the right frame",
     "The centre found by centre of mass is the mass-weighted mean position and velocity of the selected stars; by density it lies within the stars and follows them when all stars are shifted. "
     "The centre is recorded as the offset from the Galactic orbit, or as the orbit when none is known, and the cluster's units and origin are unchanged.",
     ["inputs", "configurations"], "all star data, origins, units, selections and methods",
     "tests use clusters centred near zero", [FN, CL], [("centre finding", FN + ":find_centre"), ("recording", CL + ":find_centre")],
     driver="centres", module="CentreTrace")
prop("C13", "Characteristic radii meet their definitions for any cluster",
     "Lagrangian radii are the radii of the stars at which the enclosed mass first reaches the requested fraction, in increasing order; the virial radius is the mass-weighted harmonic separation or the critical-overdensity radius; the core radius is the density-weighted mean radius. "
     "Each holds in 3D and in projection, in the cluster's current units, for any order of the stars.",
     ["inputs", "configurations"], "all star data, units, origins and options", "tests use one limepy cluster and a tolerance",
     [FN], [("radii", FN + ":rlagrange,virial_radius,rcore")],
     driver="radii", module="RadiiTrace")
prop("C14", "Relaxation times follow their formulas in every unit system",
     "The relaxation, half-mass relaxation and core relaxation times equal their published formulas evaluated on the cluster's own masses, radii and velocities, do not depend on the units the cluster is in other than by the time unit of the result, and use the requested radius, coulomb constant and projection.",
     ["inputs", "configurations"], "all star data, units, origins and options", "tests use one cluster in two unit systems",
     [FN], [("relaxation times", FN + ":relaxation_time,half_mass_relaxation_time,core_relaxation_time")],
     driver="radii", module="RadiiTrace")
prop("C15", "Binning covers the data and counts every point once",
     "Fixed and equal-number binning of any list of values produce increasing contiguous edges that cover the data, each value falls in exactly one bin, the bin counts add up to the number of values, and the equal-number bins differ by at most one. "
     "Histograms, interpolation and smoothing helpers equal their definitions.",
     ["inputs"], "all lists of values, numbers of bins and options", "tests use one or two uniform samples",
     [RE], [("recipes", RE)], driver="bins", module="BinTrace")
prop("C16", "Density and mass profiles conserve the selected mass",
     "Density and cumulative mass profiles of any selection of stars assign each star to one radial bin, so that density times shell volume (area in projection) sums to the selected mass inside the binned range, counts equal the stars in each bin, and cumulative mass is nondecreasing up to the selected total.",
     ["inputs", "configurations"], "all star data, units, origins, binnings and selections", "tests use one cluster and default options",
     [PR], [("profiles", PR + ":rho_prof,m_prof")], driver="profiles", module="ProfileTrace")
prop("C17", "Kinematic profiles are the statistics of the stars in each radial bin",
     "Mean velocity, mean square velocity, dispersion, anisotropy and circular-velocity profiles equal the corresponding statistics of the velocities of the selected stars in each radial bin, for the requested component, in 3D or projection, in the cluster's own units.",
     ["inputs", "configurations"], "all star data, units, origins, binnings and selections", "tests compare one isotropic cluster with broad tolerances",
     [PR], [("profiles", PR + ":v_prof,v2_prof,sigv_prof,beta_prof,vcirc_prof")], driver="profiles", module="ProfileTrace")
prop("C18", "Mass functions and mass-dependent kinematics count every selected star",
     "Mass functions bin each selected star once and give dN/dM as count over bin width with the power-law slope of the best fit; eta, equipartition mass and their profiles are the fits of velocity dispersion against mean mass in the same bins.",
     ["inputs", "configurations"], "all star data, units, mass bins and selections", "tests use power-law samples with broad tolerance",
     [FN, PR], [("mass functions", FN + ":mass_function,eta_function,meq_function,ckin")], driver="profiles", module="ProfileTrace")
prop("C19", "Neighbour searches return true nearest distances and members",
     "The closest-star distances are the minimum separations to any other star, in 3D or projection; overlap of two clusters selects exactly the stars within the tolerance of some star of the other.",
     ["inputs"], "all star data, units and tolerances", "tests use a few stars", [FN, CL], [("nearest neighbours", FN + ":closest_star"), ("overlap", CL + ":overlap_cluster")], driver="neighbours", module="NeighbourTrace")
prop("C20", "Writing a snapshot and reading it back gives the same cluster",
     "A cluster written to a snapshot file in any units and origin and loaded again with matching settings has the same stars, masses, ids and coordinates to the written precision, and writing leaves the cluster unchanged.",
     ["inputs", "configurations"], "all star data, units, origins and file options", "tests write one cluster and look at few columns",
     [OU, "clustertools/io/snapshot.py"], [("output", OU + ":snapout,sseout,gyrout,fortout")], driver="files", module="FileTrace")
prop("C21", "Advancing through snapshots visits every file in order with its own data",
     "Loading the first snapshot and advancing repeatedly yields the snapshots of the series in order, each with its own stars, time and orbit-table entry, keeping the requested units, origin and settings; after the last one the result is empty, every time. ",
     ["histories", "configurations"], "all series of snapshots, numbering options, continued runs and settings", "tests advance once or twice over fixed files",
     [LO, "clustertools/io/snapshot.py"], [("load and advance", LO + ":load_cluster,advance_cluster")], level="model_checking", driver="series", module="SeriesTrace")
prop("C22", "The Galactic orbit of a cluster is recorded and initialised consistently",
     "Recording an orbit given in any units stores the same physical position and velocity in the cluster's units; the orbit objects made from the cluster or its stars start at the Galactic position and velocity of the cluster, its centre or its stars, with the cluster's Galactic scales.",
     ["inputs", "configurations", "histories"], "all orbits, units, origins and scale settings", "tests use matching units and default scales",
     [CL, OR], [("orbit recording", CL + ":add_orbit"), ("initialisation", OR + ":initialize_orbit,initialize_orbits")], level="model_checking", driver="galorbits", module="OrbitTrace")
prop("C23", "Orbit propagation moves cluster and stars along the same physical orbit",
     "Integrating or interpolating the cluster's orbit, or its stars' orbits, to a time moves them to where the given potential takes them in that time, in the cluster's own units, and orbital paths are sampled at the requested times, consistent with each other.",
     ["inputs", "configurations"], "all clusters, units, times and potentials", "tests compare one orbit with galpy's own output",
     [OR], [("propagation", OR + ":orbital_path,orbit_interpolate,orbits_interpolate")], level="model_checking", driver="galorbits", module="OrbitTrace")
prop("C24", "Stars are matched to the nearest point of an orbital or tail path",
     "Rotating to the tail frame is a rotation that puts the cluster's velocity along the first axis; each star is matched to the path point nearest to it, with the signed distance along the path and the distance from it; tail paths are the mean positions of stars in bins along the path.",
     ["inputs", "configurations"], "all clusters, paths and options", "tests check array lengths and a few signs",
     [TT, OR], [("tails", TT), ("matching", OR + ":orbital_path_match")], driver="tails", module="TailTrace")
prop("C25", "Coordinate transforms are exact and invertible",
     "Conversions between Cartesian, cylindrical and spherical positions and velocities satisfy the defining relations for every point and velocity, and sky projections follow theirs.",
     ["inputs"], "all positions and velocities, including axes and quadrants", "tests check a few points",
     [CO], [("coordinates", CO)], driver="coords", module="CoordTrace")
prop("C26", "Tidal and limiting radii satisfy their defining equations",
     "The tidal radius satisfies the tidal balance in the given potential for the cluster's mass (iterated mass inside it if asked), and the limiting radius is where the cluster's density meets the background, both in the cluster's units and unaffected by the units or origin the cluster is in.",
     ["inputs", "configurations"], "all clusters, positions, units and potentials", "tests use one cluster in one potential",
     [FN], [("radii", FN + ":rtidal,rlimiting")], driver="tidal", module="TidalTrace")
prop("C27", "Setting up a cluster from models and tables keeps their data",
     "Clusters built from tables, galpy orbits or model parameters contain exactly the given stars with their data in the declared units and origin, and have the requested mass and radius at the requested position.",
     ["inputs", "configurations"], "all tables, orbits, model parameters", "tests build one of each",
     [LO, "clustertools/io/astropy_table.py", "clustertools/io/galpydf.py", "clustertools/io/limepydf.py"], [("importers", LO + ":setup_cluster,load_cluster")], driver="importers", module="ImportTrace")
prop("C28", "Results are handed back as the same physical quantity in the cluster's units",
     "Every length, time, velocity, squared velocity, mass, density or surface density that an analysis found in one unit system and hands back in the units of the cluster is the same physical quantity: scaled by the factors of the two unit systems with the cluster's own Galactic and N-body scales, for every pair of unit systems and for single values and arrays.",
     ["inputs", "configurations"], "every pair of unit systems and kind of quantity, all values and scale parameters",
     "the tests convert lengths only, for one set of scales", [UN], [("quantity conversions", UN)], driver="scales", module="ScaleTrace")
prop("C29", "Every star and binary of an N-body output is read with its own data",
     "A cluster read from the output of Nbody6 (OUT3, fort.82, fort.83) or Nbody6++ (conf.3, bev.82, sev.83, or hdf5) lists the binaries first and then the single stars, each with its own number, mass, position, velocity, stellar type, luminosity, radius, density and potential (those of a binary made from its two stars), and every binary has its stars' numbers, types, masses and luminosities and its eccentricity, period and semi-major axis in N-body units, for every output of a run in turn; the scales, core, tidal and scale radii and centre are those of its header.",
     ["inputs", "configurations"], "all numbers of singles and binaries, orders of stars in the files, stars without evolution, runs of outputs",
     "the tests read no binary and no stellar evolution file", ["clustertools/io/nbody6.py", "clustertools/io/nbody6pp.py"],
     [("outputs", "clustertools/io/nbody6.py"), ("outputs ++", "clustertools/io/nbody6pp.py")], driver="outputs", module="OutputTrace", level="model_checking")
prop("C30", "Clusters, arrays handed in and arrays handed back never change one another",
     "Whatever is done to one cluster (converting, rescaling, adding stars or data, finding its centre, extracting from it) changes no other cluster, no array or catalogue that was handed to any cluster or function, and no array that was handed back earlier; editing an array that was handed in or back changes no cluster (except records of the cluster itself that are handed back as they are: energies, closest distances, Lagrange radii, the last selection); constants shared by all clusters stay.",
     ["histories", "inputs"], "every sequence of giving, asking, extracting, changing and editing, over any number of clusters and arrays",
     "tests use every result at once, before anything else happens to its cluster", [CL, OP, FN], [("copies", CL + ":add_stars,add_bse,sub_cluster"), ("answers", OP + ":add_rotation")],
     driver="apart", module="ApartTrace", level="model_checking")
prop("C31", "A cluster gives the same answers in every unit system it is converted to",
     "Two copies of a cluster that go through the same calls, one in pc and km/s and the other in any other unit system (AMUSE, kpc-km/s, pc-Myr, kpc-Gyr, galpy, N-body or white-dwarf units), hold the same physical stars, centre, orbit, time and radii after each call and give the same physical answers: radii, relaxation times, selections, mass functions, profiles, orbits, paths, tails and rotations; limits and lengths may be given with AMUSE units. "
     "All answers of an AMUSE cluster that are lengths, velocities, masses, times, energies or densities carry that AMUSE unit, and the copy stays in its unit system and in the same origin. (The functions that use the gravitational constant of the unit system are compared in the systems that share its value.)",
     ["histories", "inputs", "configurations"], "every sequence of questions, changes, moves and conversions, every unit system, all star data",
     "the AMUSE tests ask each function once, for a cluster read from a file, and compare with the function itself", [CL, OP, FN, PR, OR, TT],
     [("conversions", OP + ":to_amuse,from_amuse"), ("answers with units", UN + ":_convert_*")],
     driver="twins", module="TwinTrace", level="model_checking")
prop("C32", "A picture shows the answer and changes nothing",
     "Asking a question with plot=True (profiles, mass, equipartition and velocity functions, core, limiting, tidal and virial radii, orbital and tail paths and their matches, star and sky plots) gives the same answer and leaves the cluster (stars, centre, orbit, units, origin, derived quantities) the same as asking without. "
     "The picture has the numbers of the answer on its curve, in the unit its axis names, and a line (or circle) at a radius that was asked for. It goes on a new figure, or with overplot=True on the current one; other figures stay as they are; a filename writes it.",
     ["histories", "inputs", "configurations"], "every sequence of questions and figures, every unit system, origin and option",
     "no test asks for a plot", [CL, FN, PR, OR, TT, "clustertools/util/plots.py"],
     [("drawing", "clustertools/util/plots.py:starplot,skyplot,_plot,_lplot,_scatter"), ("pictures of answers", FN + ":rlimiting,rtidal,rcore"), ("pictures of profiles", PR + ":*_prof")],
     driver="figures", module="FigureTrace", level="model_checking")
