#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code only for readability)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Random number streams: skipping ahead equals drawing, draws stay in range",
"Jumping a random stream ahead by n leaves it in exactly the state reached by n single draws, for every starting seed and every n, and setting the seed fully determines all later draws. A uniform draw is always at least 0 and strictly below 1, draws over an interval stay inside that interval, and an integer draw over a bound is always below the bound. Sampling from a cumulative distribution returns the index of the first entry not below the drawn number, never an index past the end.",
["inputs","histories"],"all 64-bit seeds, all jump distances, all bounds and all non-decreasing cumulative distributions ending at 1",
"the unit test compares a handful of jumps from one seed and a few thousand draws; rounding at the top of the range needs one specific seed out of 2^63",
["src/util/rng_lcg.hpp"],[("modular exponentiation by squaring in jump_ahead","src/util/rng_lcg.hpp"),("scaling of the 63-bit state to a double","src/util/rng_lcg.hpp"),("lower_bound search in sample_cdf","src/util/rng_lcg.hpp")],["RNG_LCG public interface"])

prop("C02","Coarse cell indices and positions are inverse, plane by plane",
"In a structured mesh of any dimensions, converting a cell index to an (x,y,z) position and back gives the same index, and the positions of all cells are distinct and inside the mesh. The cells of one plane form a contiguous index range, the ranges of all planes partition all cells, and the thickness and volume reported for a cell are those of its own column, row and plane. Looking a point up gives the cell whose bounds contain that point.",
["inputs","configurations"],"all mesh dimensions, all non-uniform spacings, all cells and all interior points",
"tests use two or three fixed meshes and a few cells; transposed or off-by-one strides only show for non-square, multi-plane meshes",
["src/core/mesh.hpp","src/core/mesh.cpp"],[("coarse_cell / coarse_position","src/core/mesh.hpp"),("plane_cell_begin / plane_cell_end","src/core/mesh.hpp"),("cell_thickness, coarse_volume, coarse_cell_point","src/core/mesh.hpp, src/core/mesh.cpp")],["Mesh public interface"])

prop("C03","Surface numbering: neighbouring cells agree on the surface they share",
"Every cell of a structured mesh has six distinct surfaces; two cells that touch report the same surface number for the face they share, and no other pair of faces shares a number. Asking for the two cells on either side of a surface returns exactly the cells that own it (with a marker on the side outside of the domain), in the order of the positive axis direction. The normal direction reported for a surface and the face area reported for a cell face match that cell's geometry, and the surface numbers of a plane lie in that plane's range.",
["inputs","configurations"],"all mesh dimensions and spacings, every cell, every face, every surface",
"existing tests check a few surface numbers on fixed small meshes; the mapping is arithmetic over three dimensions and two inverse directions",
["src/core/mesh.hpp","src/core/mesh.cpp"],[("prepare_surfaces and coarse_surf","src/core/mesh.cpp"),("coarse_neigh_cells, coarse_neighbor, coarse_interface","src/core/mesh.hpp, src/core/mesh.cpp"),("surface_normal, coarse_area","src/core/mesh.hpp")],["Mesh public interface"])

prop("C04","Boundary angular flux: separate storage per face, faithful exchange",
"The boundary flux stored for one group, angle and face direction never overlaps that of another, and together they cover the storage exactly. After updating the incoming condition from outgoing flux, a reflective boundary receives exactly the outgoing flux of the mirror-image angle on the same face, a vacuum boundary receives zero, a prescribed boundary keeps its incoming flux, and any other kind of boundary is rejected with an error instead of being left stale. Updating one angle or group leaves the conditions of the other groups, and faces not fed by that angle, unchanged. Initializing with a scalar gives that value to every incoming face except vacuum ones (zero) and prescribed ones, and initializing with a spectrum gives every value of a group that group's entry.",
["inputs","configurations"],"all numbers of groups, all quadratures, all face sizes, all assignments of conditions to the six faces, all flux values",
"tests use uniform values on one small fixed configuration, which cannot tell faces, angles or groups apart",
["src/core/boundary_condition.hpp","src/core/boundary_condition.cpp"],[("offset table and face accessors","src/core/boundary_condition.hpp"),("update","src/core/boundary_condition.cpp"),("initialization","src/core/boundary_condition.cpp")],["BoundaryCondition public interface"])

prop("C05","Angular quadrature: reflection and reversal stay within the set and point right",
"For every angle of a quadrature, reflecting it across a surface normal to an axis yields the index of the angle whose direction has that one component negated and the others equal, and reflecting twice returns the start. Reversing an angle yields the index of the exactly opposite direction (in the plane for two-dimensional use), and reversing twice returns the start. All octants carry the same weights, and the weights of the whole set sum to the number of octants whatever the type and order of the quadrature.",
["inputs","configurations"],"all quadrature types and orders, all angles, all normals, 2-D and 3-D use",
"the quadrature unit tests do not even pass on this tree; others use one small set in the first octants",
["src/core/angular_quadrature.hpp","src/core/angular_quadrature.cpp","src/core/level_symmetric.hpp","src/core/product_quadrature.hpp","src/core/geometry/angle.hpp"],[("reflect / reverse index arithmetic","src/core/angular_quadrature.hpp, src/core/angular_quadrature.cpp"),("octant expansion of the first-octant set","src/core/angular_quadrature.cpp, src/core/geometry/angle.cpp"),("tabulated level-symmetric and product sets","src/core/level_symmetric.hpp, src/core/product_quadrature.hpp")],["AngularQuadrature public interface"])

prop("C06","Pin geometry: regions tile the pin, lookups and distances agree with it",
"The areas of the regions of a rectangular or cylindrical pin are positive and sum to the area of the pin. A point inside the pin is assigned to exactly one region, the one whose rings, divisions or sectors contain it, and points outside are rejected. A point on a boundary between regions goes to the region the direction of travel points into. The distance reported from a point along a direction is that at which the ray first meets one of the pin's internal region boundaries (the largest number if it meets none), and the region on the way there does not change. Tracing a line across the pin gives crossing points at which, and only at which, the region changes, with region numbers agreeing with lookups.",
["inputs","configurations"],"all pin pitches, radii, ring/sector/division counts, all points and directions",
"tests look up a few points in one pin of each kind",
["src/core/pin_mesh_rect.cpp","src/core/pin_mesh_cyl.cpp","src/core/pin_mesh_base.hpp","src/core/geometry/line.hpp","src/core/geometry/circle.hpp"],[("find_reg","src/core/pin_mesh_rect.cpp, src/core/pin_mesh_cyl.cpp"),("area construction","src/core/pin_mesh_rect.cpp, src/core/pin_mesh_cyl.cpp"),("distance_to_surface","src/core/pin_mesh_rect.cpp, src/core/pin_mesh_cyl.cpp, src/core/geometry")],["PinMesh_Rect, PinMesh_Cyl public interface"])

prop("C07","Flat-region numbering partitions the core and location lookups agree with it",
"Within a lattice, a plane and the whole core, every pin owns a contiguous block of region numbers, and the blocks follow one another without gaps or overlap up to the total number of regions. Looking up a point yields the pin that contains the point (on an edge between pins, the one the direction of travel points into), the first region of that pin's block and the origin and bounds of that same pin, and a region lookup yields the region of that pin the point is in. The pin position reported for a pin number is the inverse of the numbering. Input rows given from top to bottom end up with the first row at the greatest y.",
["inputs","configurations"],"all lattice and core layouts (including lattices of different sizes), all pins, all points",
"tests look up points on one or two small cores with mostly equal lattices, where transposed dimensions or swapped offsets agree by accident",
["src/core/lattice.cpp","src/core/lattice.hpp","src/core/plane.cpp","src/core/plane.hpp","src/core/core_mesh.cpp"],[("prefix sums of region counts","src/core/lattice.cpp, src/core/plane.cpp, src/core/core_mesh.cpp"),("get_pinmesh","src/core/lattice.cpp, src/core/plane.cpp, src/core/core_mesh.cpp"),("pin_position","src/core/plane.cpp, src/core/core_mesh.hpp")],["Lattice, Plane, CoreMesh public interface"])

prop("C08","Scattering matrices keep every transfer and add up to the out-scatter",
"A scattering matrix built from a dense group-to-group table returns every entry of that table unchanged, stores no transfer the table does not have, and always holds the within-group entry. The out-scatter of a group equals the sum of that group's transfers to all groups. Copying or assigning a matrix yields an independent, equal matrix, and flattening to a dense list gives the original table back.",
["inputs"],"all numbers of groups and all table contents, including zero rows, zero within-group entries and up-scatter",
"tests use one seven-group table with a full diagonal",
["src/core/scattering_matrix.hpp","src/core/scattering_matrix.cpp"],[("row bounds and packed storage","src/core/scattering_matrix.cpp"),("out-scatter accumulation","src/core/scattering_matrix.cpp"),("copy construction and assignment","src/core/scattering_matrix.hpp")],["ScatteringMatrix public interface"])

prop("C09","Cross sections stay consistent from material to region",
"A material's fission spectrum sums to one when it has fission and its transport cross section equals absorption plus out-scatter in every group. In each cross-section region the removal cross section equals transport minus within-group scattering, and the cumulative distributions used for sampling are non-decreasing, proportional to scattering, fission and capture (and to the fission spectrum), and end at one. Expanding a cross section onto flat regions gives every region the value of the material that fills it, plus the splitting of that region when one is applied, and never a value left from another group.",
["inputs","histories"],"all cross-section data, all maps from materials to flat regions, all groups in any order of expansion and updates",
"tests check totals for one library; stale cached values need a particular order of groups and updates",
["src/core/material.cpp","src/core/xs_mesh_region.hpp","src/core/xs_mesh_region.cpp","src/core/xs_mesh.hpp"],[("normalization in the material constructor","src/core/material.cpp"),("reaction and spectrum cumulative distributions, removal","src/core/xs_mesh_region.hpp, src/core/xs_mesh_region.cpp"),("cached expansion","src/core/xs_mesh.hpp")],["Material, XSMeshRegion, ExpandedXS public interface"])

prop("C10","Homogenized cross sections preserve reaction rates",
"Flux- and volume-weighted homogenization of a pin gives cross sections which, multiplied by the pin's total flux, reproduce the transport, fission, nu-fission and group-to-group scattering rates summed over the pin's regions. Without a flux the weights are the region areas alone. The homogenized fission spectrum is the fission-source-weighted average of the materials' spectra and sums to one whenever the pin has a fission source.",
["inputs","configurations"],"all pins, all region counts, all materials, all positive fluxes and volumes, all group counts",
"the test compares one geometry against stored numbers with equal weights",
["src/core/xs_mesh_homogenized.cpp"],[("homogenize_region","src/core/xs_mesh_homogenized.cpp"),("homogenize_region_flux","src/core/xs_mesh_homogenized.cpp")],["XSMeshHomogenized regions"])

prop("C11","Group sources add up exactly the fission, in-scatter and self-scatter terms",
"For every region and group the source used by a sweep is the external source, plus the group's fission spectrum times the given fission source, plus the flux-weighted transfers from every other group, each counted once. Adding within-group scattering and normalizing uses the current group's flux and the region's own cross sections and touches every region exactly once. Starting a new group leaves nothing of the previous group behind.",
["inputs","histories"],"all groups, region-to-material maps, cross sections and flux values, all orders of groups",
"no unit test covers the source classes directly",
["src/core/source.cpp","src/core/source.hpp","src/core/source_isotropic.cpp"],[("initialize_group, fission, in_scatter, auxiliary","src/core/source.cpp"),("self_scatter","src/core/source_isotropic.cpp")],["Source public interface"])

prop("C12","Coarse-mesh acceleration reproduces transport currents and conserves neutrons",
"With the coupling coefficients set from the transport solution, the coarse-mesh equations evaluated at the transport flux give back the net transport currents on every interior and boundary surface of the coarse mesh, and the currents written back after a solve are those implied by the same coefficients and the new flux, on every such surface including the bottom and top of the core. Each cell's balance uses the same current on both sides of a shared surface with opposite sign, so that neutrons are neither created nor lost at interior surfaces and the converged solution balances every cell. Reflective boundaries carry no diffusive leakage.",
["inputs","configurations"],"all meshes, all boundary conditions, all positive fluxes, currents and cross sections",
"the unit test contains no numerical check; a wrong sign or face on one side only changes converged answers slightly",
["src/core/cmfd.cpp"],[("setup_solve: coefficients and matrix","src/core/cmfd.cpp"),("store_currents","src/core/cmfd.cpp")],["CMFD / CoarseData public state"])

prop("C13","Discrete-ordinates cells conserve neutrons and satisfy their closure",
"For every cell, direction, source and incoming flux, the cell-average and outgoing fluxes computed by the discrete-ordinates kernels satisfy the cell balance: net outflow through the faces plus total removal equals the source. The outgoing and incoming fluxes on each axis are related to the cell average by the scheme's own closure relation. This holds alike for the two- and three-dimensional kernels of every scheme.",
["inputs"],"all positive cell sizes, cross sections, direction cosines, closure coefficients, incoming fluxes and sources",
"no unit test exercises the cell kernels",
["src/sweepers/sn/sn_sweeper_dd.hpp","src/sweepers/sn/cell_worker.hpp","src/sweepers/cmdo/sn_sweeper_cdd.hpp"],[("evaluate / evaluate_2d of each cell worker","src/sweepers/sn/sn_sweeper_dd.hpp, src/sweepers/cmdo/sn_sweeper_cdd.hpp")],["cell workers"])

prop("C14","Tabulated exponential: no read outside the table, bounded error",
"For every argument in its range, ends included, the tabulated exponential is the linear interpolation between the two exact exponentials bracketing the argument, so it is exact at the nodes, never below the true value, and in error by at most one eighth of the squared spacing. Arguments outside of the range are evaluated exactly, and no argument causes a read outside of the table.",
["inputs"],"all arguments and all table sizes used",
"the test samples random arguments; the two ends of the range are single points",
["src/core/exponential.hpp"],[("index computation and interpolation","src/core/exponential.hpp")],["Exponential_Linear public interface"])

prop("C15","Pin-averaged flux: projection preserves averages and round-trips",
"The pin flux reported by a sweeper is the volume-weighted average of the fluxes of exactly that pin's regions, for every pin and group. Setting a pin flux rescales the regions of each pin by one common factor so that reading it back returns the values set, and setting the values just read changes nothing; other groups and pins are untouched. Where values are given on planes finer than a macroplane, the macroplane gets their height-weighted average. The residual returned is the root of the squared change over all pins (the characteristics sweeper divides it by the number of pins), and a non-positive flux is refused by the characteristics sweeper.",
["inputs","configurations"],"all meshes, region volumes, positive fluxes, groups and mesh treatments",
"no test calls the setters; defects cancel for uniform flux or equal volumes",
["src/sweepers/moc/moc_sweeper.cpp","src/sweepers/sn/sn_sweeper.cpp","src/core/transport_sweeper.cpp"],[("get_pin_flux_1g / set_pin_flux_1g","src/sweepers/moc/moc_sweeper.cpp, src/sweepers/sn/sn_sweeper.cpp"),("get_pin_flux / set_pin_flux","src/core/transport_sweeper.cpp")],["TransportSweeper public interface"])

prop("C16","Monte Carlo tallies: mean and uncertainty of the scored realizations",
"After any sequence of scores and committed realizations a spatial tally reports for every bin the mean over realizations of the score divided by the weight, per unit volume, and a scalar tally reports the sum of the scores over the sum of the weights; a spatial tally adds the standard deviation of the realizations and a scalar tally that of the mean, both relative to the mean and independent of the volume. Scores in one bin never affect another. Results do not depend on how the weight was split into contributions within one realization, and resetting leaves nothing of earlier realizations.",
["histories","inputs"],"all sequences of scores, weights, commits and resets, any number of bins",
"no unit test covers the tallies",
["src/sweepers/mc/tally_scalar.hpp","src/sweepers/mc/tally_spatial.hpp"],[("score, commit_realization, get, reset","src/sweepers/mc/tally_scalar.hpp, src/sweepers/mc/tally_spatial.hpp")],["TallyScalar, TallySpatial public interface"])

prop("C17","Fission bank: requested size, no site lost or invented, correct totals",
"Resizing a fission bank to n sites leaves exactly n sites, each a copy of a site that was in the bank; when the bank grows, every old site is kept and only copies of old sites are added, and when it shrinks no site is used twice. Swapping banks exchanges contents and fission totals completely, and the reported total fission is the sum of what was added, unchanged by resizing. The Shannon entropy is that of the distribution of the sites over the pins they lie in (zero when all share one pin), and a site outside of the core is reported as an error. Initial sites are drawn inside the requested box, determined by the seed.",
["inputs","histories"],"all bank contents, all requested sizes, all random seeds",
"no unit test covers the bank",
["src/sweepers/mc/fission_bank.cpp","src/sweepers/mc/fission_bank.hpp"],[("resize, swap, push_back, shannon_entropy","src/sweepers/mc/fission_bank.cpp, src/sweepers/mc/fission_bank.hpp")],["FissionBank public interface"])

prop("C18","Ray segments: optical path adds up and corrected volumes are preserved",
"The segments of a characteristic ray have positive length, lie in order, sum to the length of the ray, and each carries the number of the region that contains it. After volume correction, for each angle (or for the angle integral) the segment lengths times ray spacing reproduce the true area of every region the rays cross. The boundary points a ray starts and ends on are numbered within the faces of its direction, and the ray continuing from a boundary by reflection or periodicity starts where this one ends. In either direction of travel, the coarse cells and faces a ray is recorded to cross are the pins it passes through, in order, with the segments inside each.",
["inputs","configurations"],"all cores, pin types, quadratures and ray spacings",
"tests trace a few rays on fixed geometries and compare volumes for one setting",
["src/sweepers/moc/ray.cpp","src/sweepers/moc/ray_data.cpp"],[("ray construction","src/sweepers/moc/ray.cpp"),("modularization, boundary numbering, volume correction","src/sweepers/moc/ray_data.cpp")],["Ray, RayData public interface"])

prop("C19","Input text utilities read and print exactly what is written",
"A blank-separated list of numbers is read as exactly those numbers in order; a list with braces is read as one list per braced group plus a one-element list for every number outside of braces, in the order written. Text with anything else in it, unmatched, nested or empty braces is rejected with an error instead of being dropped or misread. Trimming removes exactly the leading and trailing blanks, normalizing additionally changes upper to lower case only, and the range form printed for a set of flags names exactly the flags that are set, as ascending maximal ranges.",
["inputs"],"all input strings and all lists of numbers",
"tests cover a few literal strings",
["src/util/string_utils.hpp","src/util/string_utils.cpp"],[("explode_string, explode_braces, print_range, trim, sanitize","src/util/string_utils.hpp, src/util/string_utils.cpp")],["string utilities"])

prop("C20","Power and fission normalization",
"Pin powers reported by a sweeper are proportional to the volume-integrated fission rate in each pin, summed over all groups. The discrete-ordinates sweeper's average to one over the pins that produce power; the characteristics sweeper's sum to the number of fuelled pins of the fullest plane. The total fission is the volume-weighted sum over regions and groups of fission production, and the fission source divided among regions scales as one over the eigenvalue. Each region contributes exactly once, to the pin it belongs to.",
["inputs","configurations"],"all meshes, cross sections, fluxes and eigenvalues",
"no test checks powers or fission totals",
["src/core/transport_sweeper.cpp"],[("total_fission, calc_fission_source, pin_powers","src/core/transport_sweeper.cpp")],["TransportSweeper public interface"])

prop("C21","Characteristics sweep: flux along every ray, both ways, adds up to the flux",
"In a characteristics sweep of one group the angular flux of every ray starts, in each of its two directions, from the incoming boundary value at the end where it enters, relaxes across each segment towards the source of the segment's region by the attenuation over its optical length, and leaves as the outgoing boundary value at the other end. The new scalar flux of a region is 4 pi times its source plus the drops of angular flux over all segments lying in it, in both directions, weighted by angle weight, ray spacing and plane height and divided by cross section and volume. Incoming values are renewed from the outgoing ones after each angle, or only after all angles of a plane when so configured. Other groups and planes are left alone.",
["inputs","configurations"],"all rays and numbers of segments, all cross sections, sources, boundary values and conditions, planes and subplanes",
"the regression cases compare an eigenvalue or a few pin powers of fixed problems; errors in one direction, plane offset or boundary slot cancel there or drown in the tolerance",
["src/sweepers/moc/moc_sweeper_kernel.inc.hpp","src/sweepers/moc/moc_sweeper.cpp","src/sweepers/moc/moc_sweeper.hpp"],[("sweep1g","src/sweepers/moc/moc_sweeper_kernel.inc.hpp"),("inner iterations in sweep","src/sweepers/moc/moc_sweeper.cpp")],["MoCSweeper::sweep, flux and boundary values"])

prop("C22","Currents and surface fluxes recorded by a sweep fit the swept flux",
"The currents recorded on the coarse mesh during the last sweep of a group balance every coarse cell: outflow through its faces plus total removal equals its source, in every plane and for every combination of plane heights. The planes of a macroplane carry the same radial currents. Each face receives the weighted angular flux of every direction crossing it, times the direction cosine for the current, exactly once, including the flux entering through the outer boundary. In a uniform flux with reflecting boundaries all net currents vanish and the surface flux equals the flux. Nothing recorded before the sweep is left in.",
["inputs","configurations"],"all cores, plane heights, subplanes, quadratures, sources and boundary conditions, both kinds of sweeper",
"no test looks at currents with planes of different height; the coarse-mesh solution converges to the same answer with slightly wrong currents, only slower",
["src/sweepers/moc/moc_current_worker.hpp","src/sweepers/sn/sn_current_worker.hpp","src/core/coarse_data.cpp"],[("moc::Current","src/sweepers/moc/moc_current_worker.hpp"),("sn::Current","src/sweepers/sn/sn_current_worker.hpp"),("zero_data, zero_data_radial","src/core/coarse_data.cpp")],["CoarseData currents and surface fluxes after a sweep"])

prop("C23","Particle histories: straight flights, collisions and what they score",
"A Monte Carlo history flies in straight lines through the core: at every surface it enters the region that lies ahead, at a reflecting face of the core it is mirrored, and it ends only at a vacuum face or by absorption. Every stretch of track adds weight times length to the flux of the region, the pin and the group it lies in, and times the respective cross section to the track-length eigenvalue and to the pin power. Distances to collisions follow the exponential law of the total cross section of the region. A collision draws scattering, fission or capture in proportion to their cross sections and scores weight times fission production over total cross section, and weight over total cross section. Only scattering lets the history go on, from the same place and with the same weight, in a group drawn from the scattering out of the old one and an isotropic direction. Fission leaves sites of unit weight at the place of the collision, with isotropic directions and groups from the fission spectrum; their number is one of the two integers next to weight times neutrons per fission, and right on average. Seed and particle number determine a history, so simulating a bank gives the same as simulating its particles one by one in any order, while a later cycle draws new numbers.",
["inputs","histories","configurations"],"all particles (place, direction, group, weight, number), pins, boundary conditions and cross sections",
"the tests only run one fixed problem to a tolerance of statistics; a wrong region near a surface or a biased draw stays below it",
["src/sweepers/mc/particle_pusher.cpp","src/sweepers/mc/particle.hpp","src/core/geometry/direction.hpp"],[("ParticlePusher::collide, simulate, distance_to_pin","src/sweepers/mc/particle_pusher.cpp"),("Particle::move","src/sweepers/mc/particle.hpp"),("Direction::reflect, Isotropic","src/core/geometry/direction.hpp")],["ParticlePusher tallies and fission bank"])

prop("C24","Solver iterations: order of work, eigenvalue update and stopping",
"One step of the fixed-source solver keeps the flux it starts from as the old flux and sweeps every energy group exactly once, in order, each with a complete source: the external source, the share of the fission source if one is set, and in-scatter from the latest fluxes of the other groups. One step of the eigenvalue solver divides the fission source of the present flux by the present eigenvalue, performs one such step, multiplies the eigenvalue by the ratio of new to old total fission, and keeps eigenvalue and fission source from before the step for comparison; with acceleration enabled the coarse-mesh flux and eigenvalue are taken over first. The eigenvalue solve starts from an eigenvalue of one and stops after the first step, beyond the least number of steps asked for, in which the change of the eigenvalue and the root mean square change of the normalized fission source over the fissile regions are both below their tolerances, or after the greatest number of steps; eigenvalue and both changes of every step are recorded. The fixed-source solve stops as soon as the flux residual is below its tolerance, or after the greatest number of steps.",
["inputs","histories","configurations"],"all numbers of groups and regions, tolerances, step limits, fluxes and eigenvalues, with and without acceleration",
"the regression cases only look at the converged eigenvalue; a step too many or too few, a wrong change or a stale source still converges to it",
["src/solvers/fixed_source_solver.cpp","src/solvers/eigen_solver.cpp","src/util/utils.hpp"],[("FixedSourceSolver::step, solve","src/solvers/fixed_source_solver.cpp"),("EigenSolver::step, solve, do_cmfd","src/solvers/eigen_solver.cpp"),("Normalize","src/util/utils.hpp")],["solver output and sweeper flux after solve"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
