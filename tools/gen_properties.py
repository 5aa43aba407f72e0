#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "The wells container reflects exactly the history of operations on it",
 "After any sequence of creating a collection, adding wells, appending controls, selecting or clearing controls and cloning, the collection contains exactly what those operations put there: every well with its kind, depth, composition, perforated cells, well indices and name, and every control with its kind, target and phase distribution, in order, with the selected control as last set. Growing any internal storage never loses, reorders or alters what was stored before. A clone equals its source when made, and later changes to either never show in the other.",
 ["histories", "inputs"], "all operation histories over any numbers of phases, wells, perforations and controls, across every storage growth, with optional arguments given or defaulted",
 "tests build one two-well collection and check a few fields; no growth beyond the initial capacity, no interleaving, no mutation after clone",
 ["opm/core/wells/wells.c", "opm/core/wells.h"],
 [("growth of the per-well and per-perforation arrays", "wells.c: wells_reserve/initialise_new_wells/initialise_new_perfs"),
  ("control set growth", "wells.c: append_well_controls/well_controls_reserve"), ("deep copy", "wells.c: clone_wells")],
 ["public struct Wells / WellControls after each call"])

prop("C02", "Violated well limits switch the well to the violated control, one at a time",
 "When measured well pressures and rates are checked against the controls, a check reports success exactly when no open well exceeds one of its non-active limits and no group exceeds one of its limits; otherwise it makes exactly one corrective change: the first violated limit becomes the active control of that well (or the offending group's limit is imposed on its wells), and nothing else changes. A producer violates a pressure limit from below and an injector from above; a limit that is already active is not checked.",
 ["inputs", "histories", "configurations"], "all group trees, well kinds, control lists, active controls, rates and pressures, and repeated checks until they pass",
 "no test exercises limit checking at all",
 ["opm/core/wells/WellsGroup.cpp", "opm/core/wells/WellCollection.cpp"],
 [("per-well check", "WellsGroup.cpp: WellNode::conditionsMet"), ("group check", "WellsGroup.cpp: WellsGroup::conditionsMet"), ("tree walk", "WellCollection.cpp: conditionsMet")],
 ["return value and the wells' active controls after each check"])

prop("C03", "Group rate targets are shared among wells in proportion to guide rates",
 "Applying a production or injection rate target to a group gives every well under group control in that group, directly or through subgroups, a control of the matching kind whose target is the group's target times the well's guide rate over the sum of guide rates of the wells sharing it, so that the well targets add up to the group target. Targets are imposed with the sign convention of the well kind, become the active control of exactly those wells, and wells under individual control keep theirs.",
 ["configurations", "inputs"], "all group trees up to a bounded depth, mixes of injectors and producers, guide rates, control modes and targets, applied once or repeatedly",
 "no test builds a well group",
 ["opm/core/wells/WellsGroup.cpp", "opm/core/wells/WellCollection.cpp"],
 [("recursive allocation", "WellsGroup.cpp: applyProdGroupControl(s)/applyInjGroupControl(s)"), ("guide-rate sums", "WellsGroup.cpp: productionGuideRate/injectionGuideRate")],
 ["controls of every well after application"])

prop("C04", "Reinjection and voidage replacement inject exactly the produced share",
 "When a group replaces produced fluid, the injection imposed on its injectors adds up to the replacement fraction times what the group's wells currently produce: the surface rate of the reinjected phase for reinjection, the total reservoir rate for voidage replacement. The shares follow injection guide rates, and only injectors in that group are affected.",
 ["inputs", "configurations"], "all group trees with replacement controls, all production rates and replacement fractions",
 "no test exercises replacement controls",
 ["opm/core/wells/WellsGroup.cpp", "opm/core/wells/WellCollection.cpp"],
 [("explicit reinjection", "WellsGroup.cpp: applyVREPGroupControls/applyExplicitReinjectionControls"), ("production totals", "WellsGroup.cpp: getTotalVoidageRate/getTotalReinjection...")],
 ["controls of every injector after application"])

prop("C05", "Wells built from a deck match its completion and control records",
 "Building wells from a deck yields one well per specified name, in order, perforated in exactly the active grid cells its completion records name, injector or producer as its control record says, with one control per limit given in that record, converted to SI, in the documented order, with the requested mode active, or closed if the record shuts it. A later open/shut record for the well flips only that state, and the well tree, the groups' limits and targets follow the deck. A deck naming a cell outside the grid or an unknown well, or asking for a mode whose limit is not given, is refused.",
 ["inputs", "programs"], "all decks over the supported well keywords, in any epoch of the schedule",
 "no test builds wells from a deck",
 ["opm/core/wells/WellsManager.cpp", "opm/core/wells/WellCollection.cpp"],
 [("deck constructor", "WellsManager.cpp: WellsManager::WellsManager(deck, ...)")],
 ["the wells structure and tree"])

prop("C06", "A deck's schedule becomes a sequence of independent, cumulative epochs",
 "Reading a deck splits its schedule at the time-advancing keywords: each epoch shows exactly the state given by all keywords up to its time steps, later keywords never alter earlier epochs, and an epoch inherits everything not restated. The time steps are the ones given as lengths or as differences between consecutive dates, in order and complete, and asking for an epoch that does not exist is an error.",
 ["programs", "histories"], "all interleavings of schedule keywords, step lists and dates, and all orders of visiting the epochs",
 "no test parses a schedule section",
 ["opm/core/io/eclipse/EclipseGridParser.cpp", "opm/core/io/eclipse/SpecialEclipseFields.hpp"],
 [("epoch snapshotting", "EclipseGridParser.cpp: readImpl"), ("date arithmetic", "EclipseGridParser.cpp: DATES handling")],
 ["parser queries per epoch"])

prop("C07", "Deck data are read exactly as written, and converted to SI units",
 "Numbers in a deck are read in order with repeat counts expanded, defaulted positions left at their documented default, comments and text after the terminator ignored and included files read in place; unknown keywords the reader skips never disturb the data of their neighbours. Every quantity is then scaled from the deck's unit system to SI by the factor for its own dimension.",
 ["inputs", "programs"], "all token layouts (repeats, defaults, comments, line breaks, includes), both unit systems, all supported data keywords",
 "no test reads a deck",
 ["opm/core/io/eclipse/EclipseGridParser.cpp", "opm/core/io/eclipse/EclipseGridParserHelpers.hpp", "opm/core/io/eclipse/SpecialEclipseFields.hpp"],
 [("vector reading", "EclipseGridParserHelpers.hpp: readVectorData/readDefaultedVectorData"), ("unit tables", "EclipseGridParser.cpp: computeUnits/convertToSI")],
 ["parser queries"])

prop("C08", "The simulation clock adds up its steps and ends exactly at the last one",
 "At every moment the current time equals the sum of the lengths of the steps completed, the current step's length is the one configured for it, and the clock reports done exactly when every step has been taken. The current date is the start date plus the elapsed whole days. Jumping to a step number is accepted exactly for the numbers from zero to the step count, and then behaves as if the earlier steps had been taken one by one.",
 ["histories", "configurations"], "all step lists (uniform or taken from a deck), all sequences of advancing, jumping, resetting and querying",
 "no test covers the clock",
 ["opm/core/simulator/SimulatorTimer.cpp"], [("clock", "SimulatorTimer.cpp")], ["clock queries after each call"])

prop("C09", "Parameter lookup obeys nesting, overriding and usage tracking",
 "A parameter is found under the path it was given, otherwise in the nearest enclosing group, otherwise the default is returned (or the lookup fails if there is none); inserting again replaces the value, merging gives precedence to the merged-in values, and assignments on the command line override files. A parameter is reported as used exactly when it has been looked up, and writing parameters to a file and reading them back yields the same set.",
 ["histories", "inputs"], "all sequences of insertions, merges, lookups, group extractions and file or command-line reads over nested paths",
 "tests read one two-level file and look up a handful of fixed names",
 ["opm/core/utility/parameters/ParameterGroup.cpp", "opm/core/utility/parameters/ParameterGroup_impl.hpp"],
 [("lookup", "ParameterGroup_impl.hpp: get/getDefault"), ("insertion", "ParameterGroup.cpp: insertParameter/insert"), ("files", "ParameterGroup.cpp: readParam/writeParam")],
 ["values returned, usage report, file content"])

prop("C10", "Cartesian grids are complete, consistently oriented and exactly measured",
 "A Cartesian grid of any dimensions has every cell and every face of the lattice exactly once, each cell lists its bounding faces with the right side labels and each face its two neighbours in the positive axis direction with the outside marked as such. Face normals point from first to second neighbour with length equal to the face area, and areas, volumes and centroids equal those of the boxes described by the coordinate lines.",
 ["inputs"], "all 2D and 3D extents, including one-cell-thick ones, with unit, uniform, tensor-product or variable-depth coordinates",
 "one test uses a few fixed grids only as input to column extraction",
 ["opm/core/grid/cart_grid.c", "opm/core/grid/grid.c", "opm/core/grid/GridManager.cpp"],
 [("topology and geometry fill", "cart_grid.c: fill_cart_topology_*/fill_cart_geometry_*/fill_layered_geometry_3d")], ["the grid structure"])

prop("C11", "Corner-point processing yields a watertight grid with correct connections",
 "From any valid pillar-grid description, processing yields exactly the active cells of nonzero thickness, in order, each mapped to its Cartesian index; every cell is enclosed by faces without gaps or overlaps; and two cells share a face exactly when their sides overlap in a region of positive area. Each face lists its two neighbours in the positive axis direction, cell and face listings agree, and inactive or collapsed cells leave the outside or a direct connection across them.",
 ["inputs"], "all pillar geometries (vertical and sloping), layer displacements across faults, pinched and inactive cells, left- and right-handed input",
 "no test processes a corner-point grid",
 ["opm/core/grid/cpgpreprocess/preprocess.c", "opm/core/grid/cpgpreprocess/facetopology.c", "opm/core/grid/cpgpreprocess/uniquepoints.c", "opm/core/grid/cornerpoint_grid.c"],
 [("face generation", "facetopology.c: findconnections"), ("point uniqueness", "uniquepoints.c"), ("assembly", "preprocess.c: process_grdecl")], ["the processed grid structure"])

prop("C12", "Columns are the maximal vertically connected stacks, top to bottom",
 "Column extraction puts every cell in exactly one column; a column holds cells of one horizontal position, ordered from top to bottom, in which consecutive cells share a face, and it cannot be extended by a connected cell of the same position.",
 ["inputs"], "all structured grids with any pattern of inactive cells and any face connectivity between vertical neighbours",
 "tests use three fixed grids",
 ["opm/core/grid/ColumnExtract.hpp"], [("column building", "ColumnExtract.hpp: extractColumn")], ["the returned columns"])

prop("C13", "Flow-ordered sequences visit upstream cells first and group exactly the loops",
 "For any grid and flux field, the computed sequence contains every cell exactly once, divided into consecutive components; two cells are in the same component exactly when fluid can circulate between them, and every cell receiving inflow from a different component comes after it. The order in which a solver is asked to treat the cells is exactly this sequence, single cells one at a time and loops as a whole.",
 ["inputs"], "all directed flow graphs (all flux sign patterns), including zero fluxes, loops, disconnected parts and boundary flow",
 "no test covers the ordering",
 ["opm/core/transport/reorder/reordersequence.cpp", "opm/core/transport/reorder/tarjan.c", "opm/core/transport/reorder/ReorderSolverInterface.cpp"],
 [("strongly connected components", "tarjan.c"), ("upwind graph", "reordersequence.cpp")], ["sequence and component arrays, solver callbacks"])

prop("C14", "Partition operations preserve the blocks they are given",
 "A uniform partition assigns each cell to the block its logical position falls in; renumbering removes exactly the empty block numbers and keeps the order; inversion lists exactly each block's cells in increasing order and local numbering counts within the block; splitting disconnected blocks separates exactly the connected parts of each block and leaves connected blocks intact.",
 ["inputs", "histories"], "all grid extents and coarse extents, all partition vectors including unused block numbers, all neighbour graphs, and sequences of these operations",
 "no test covers partitions",
 ["opm/core/pressure/msmfem/partition.c", "opm/core/pressure/msmfem/dfs.c"], [("partition functions", "partition.c"), ("connected components", "dfs.c")], ["returned vectors"])

prop("C15", "The coarse grid has one face per pair of touching blocks",
 "For any partition of any grid, the coarse grid has exactly one face for each pair of blocks sharing at least one fine face and one for each block's contact with the outside, each carrying exactly the fine faces that make it up, and each block lists exactly its own faces.",
 ["inputs"], "all neighbour lists (including several faces between one pair and faces with an outside neighbour) and all partitions, far past every storage growth",
 "no test covers the coarse grid",
 ["opm/core/pressure/msmfem/coarse_conn.c", "opm/core/pressure/msmfem/hash_set.c"], [("coarse topology", "coarse_conn.c: coarse_topology_create"), ("set of neighbours", "hash_set.c")], ["returned coarse topology"])

prop("C16", "The integer hash set holds exactly the inserted keys, each once",
 "After any sequence of insertions the set holds exactly the distinct keys inserted, whatever their collisions and however often it has grown, and its count is their number; inserting a key again changes nothing.",
 ["histories"], "all insertion histories, colliding and repeated keys, any initial capacity",
 "no test covers the set",
 ["opm/core/pressure/msmfem/hash_set.c"], [("open addressing", "hash_set.c: insert_key/expand_set")], ["set content after each call"])

prop("C17", "Sparse matrices are built with exactly the counted entries in their place",
 "Counting entries per row, fixing the row offsets and filling rows in any order yields a compressed matrix whose rows contain exactly the entries pushed to them; sorting orders each row, looking up an entry finds the stored position exactly when it exists, clearing zeroes all values and nothing else, and writing it lists every entry once.",
 ["histories", "inputs"], "all row-size profiles including empty rows, all fill orders",
 "no test covers the matrix structure",
 ["opm/core/linalg/sparse_sys.c"], [("two-pass construction", "sparse_sys.c")], ["matrix arrays after each call"])

prop("C18", "Boundary-condition and source tables keep every entry given, in order",
 "Appending boundary conditions or sources any number of times yields a table listing exactly these entries in order with their kinds, faces or cells, values and compositions, whatever growth it took, and clearing empties it and nothing else. Conditions set for one side of a grid cover exactly that side's outer faces, a total flux given for a side is shared by the faces in proportion to their areas, and conversion to the low-level table keeps each face's kind and value.",
 ["histories", "inputs"], "all append/clear histories and all grid sides and windows",
 "no test covers these tables",
 ["opm/core/pressure/flow_bc.c", "opm/core/pressure/tpfa/compr_bc.c", "opm/core/pressure/tpfa/compr_source.c", "opm/core/transport/implicit/transport_source.c", "opm/core/pressure/FlowBCManager.cpp"],
 [("growable tables", "flow_bc.c, compr_bc.c, compr_source.c, transport_source.c"), ("side selection", "FlowBCManager.cpp")], ["table contents after each call"])

prop("C19", "Sparse containers behave like a list of rows and a map of values",
 "A sparse table behaves like a list of rows under any sequence of construction, assignment, row appending, clearing and swapping, rejecting data whose length differs from the sum of the row sizes; a sparse vector behaves like a map from increasing indices to values with zero elsewhere, rejecting out-of-range or out-of-order insertions.",
 ["histories", "inputs"], "all operation histories, including empty rows and empty containers",
 "tests check one instance of each after construction",
 ["opm/core/utility/SparseTable.hpp", "opm/core/utility/SparseVector.hpp"], [("row offsets", "SparseTable.hpp"), ("sorted indices", "SparseVector.hpp")], ["container queries"])

prop("C20", "The pressure system and its fluxes conserve mass in every cell",
 "The incompressible two-point system assembled for any grid, transmissibilities, boundary conditions, sources and wells is the mass balance: interior fluxes enter with opposite signs in the two neighbours, boundary and well terms enter the cells and wells they belong to and no others. The fluxes computed from a pressure equal transmissibility times potential difference, so that for a solved system every cell's outflow equals its source.",
 ["inputs", "configurations"], "all connection graphs, transmissibilities, boundary and well configurations",
 "no test assembles a pressure system",
 ["opm/core/pressure/tpfa/ifs_tpfa.c", "opm/core/pressure/tpfa/trans_tpfa.c", "opm/core/pressure/IncompTpfa.cpp"], [("assembly", "ifs_tpfa.c: ifs_tpfa_assemble"), ("fluxes", "ifs_tpfa.c: ifs_tpfa_press_flux")], ["matrix, right-hand side, fluxes"])

prop("C21", "Upwind transport moves exactly the mass that crosses the faces",
 "A transport step changes each cell's content by exactly its inflow minus outflow plus sources, each flux carrying the saturation of the cell upstream of it, so that what leaves one cell enters its neighbour and the total changes only by sources and boundary flow. Cells are updated using only already-updated upstream cells in the flow-ordered solver, and only old values in the explicit one.",
 ["inputs"], "all flux fields, saturations, porosities, sources and step lengths",
 "no test runs a transport solver",
 ["opm/core/transport/minimal/spu_explicit.c", "opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "opm/core/transport/minimal/spu_implicit.c"], [("explicit update", "spu_explicit.c"), ("single-cell solve", "TransportSolverTwophaseReorder.cpp")], ["saturations before and after"])

prop("C22", "Time of flight accumulates along upstream paths",
 "For any loop-free flux field the time of flight of a cell equals its pore volume plus its upstream neighbours' times weighted by their inflow, divided by its total throughflow, and tracer concentrations are the inflow-weighted mix of their upstream values, adding up to one in every cell reached (a cell with a source holds its own tracer only). With multidimensional upwinding the upstream value of a face is the documented weighted combination of the values at the faces around its corners.",
 ["inputs"], "all loop-free flux fields with sources, sinks and boundary flow, pore volumes and tracer sets",
 "no test computes time of flight",
 ["opm/core/tof/TofReorder.cpp"], [("per-cell solve", "TofReorder.cpp: solveSingleCell")], ["time-of-flight and tracer arrays"])

prop("C23", "Table interpolation reproduces its nodes and never leaves their range",
 "Evaluating a piecewise-linear table at a node returns the node's value and between nodes the value on the segment joining them; outside its range the documented end behaviour applies (evenly spaced tables keep the end value, others extrapolate the end segment); derivatives are the segment slopes and inverse lookup undoes lookup for strictly monotone tables. The cubic interpolator always returns the values of its nodes, is the documented cubic between them and stays monotone there when its data are; after any history of reading files, adding points, scaling, chopping flat ends and thinning flat parts its nodes, derivatives, extremes and monotonicity answers are those of the resulting data.",
 ["inputs", "histories"], "all node sets, histories of changes to them, and evaluation points",
 "tests evaluate one table at a few points",
 ["opm/core/utility/UniformTableLinear.hpp", "opm/core/utility/NonuniformTableLinear.hpp", "opm/core/utility/linearInterpolation.hpp", "opm/core/utility/MonotCubicInterpolator.cpp"], [("interval lookup", "linearInterpolation.hpp: tableIndex; UniformTableLinear.hpp")], ["returned values"])

prop("C24", "The root finder keeps a sign-changing bracket until it converges",
 "Given a bracketing interval the root finder only evaluates inside the interval, keeps at all times a sub-interval over which the function changes sign, and returns a point of that sub-interval; without a sign change, or when the iteration limit is reached, it reports failure as its error policy says (throws, or answers with the better end or a point of the sub-interval). The reported iteration count is the number of steps taken. Bracket search widens to both sides and returns an interval over which the sign changes.",
 ["inputs", "histories"], "all functions (as observed through their evaluations), start intervals, initial guesses, tolerances and iteration limits",
 "no test calls the root finder",
 ["opm/core/utility/RootFinders.hpp"], [("regula falsi", "RootFinders.hpp: RegulaFalsi::solve"), ("bracketing", "RootFinders.hpp: bracketZero")], ["the sequence of function evaluations and the result"])

prop("C25", "Initial states place phases and pressures as the contact depth says",
 "Initialisation gives every cell below the fluid contact the maximum water saturation and every other cell the minimum (or the other way round where asked), saturations that sum to one, and pressures in hydrostatic balance from the datum with the density of the phase found at each depth, wherever contact and datum lie; with no contact given, the stated saturation or the least water is used everywhere. Fields listed in a deck go to the cells they belong to and decks lacking a needed field are refused. A face between two cells gets the mean of their pressures weighted towards the nearer cell, a boundary face that of its cell; surface volumes follow from pressure and saturation as z = A s.",
 ["inputs"], "all grids, contact depths, densities, datum points and initialisation modes",
 "no test initialises a state",
 ["opm/core/simulator/initState_impl.hpp", "opm/core/simulator/TwophaseState.hpp"], [("initialisation", "initState_impl.hpp")], ["the state"])

prop("C26", "Rock properties from a deck reach the right cell and the right tensor entry",
 "Porosity and permeability given per Cartesian cell are assigned to the grid cell with that index; each of the nine permeability keywords gives the tensor entry it names, a missing diagonal entry is a copy of the first one given (X, Y, Z), cross entries are mirrored so that the tensor is always symmetric, absent ones are zero and negative diagonal ones count as zero. Cross entries without both their diagonal entries and arrays shorter than the box are refused. Without porosity it is one, and a uniform rock is the same isotropic one in every cell.",
 ["inputs", "configurations"], "all subsets of the permeability keywords, all active-cell mappings",
 "no test reads rock data",
 ["opm/core/props/rock/RockFromDeck.cpp"], [("tensor classification", "RockFromDeck.cpp")], ["porosity and permeability arrays"])

prop("C27", "Written grid files describe exactly the grid and data in memory",
 "Writing a grid with cell data for visualisation produces a well-formed file whose points, cells, faces and data arrays are exactly those of the grid (to twelve digits, denormal numbers as zero), in cell order, with offsets that delimit each cell's entries and counts that agree with them, for grids of any size, also none. A regular box shows its numbers of points, its cell sizes and the first component of every field. Grids that are not three-dimensional are refused.",
 ["inputs"], "all structured and unstructured grids, all data sets",
 "no test writes a file",
 ["opm/core/io/vtk/writeVtkData.cpp"], [("VTK writer", "writeVtkData.cpp")], ["file content"])

prop("C28", "A grid read from its text file is the grid that was described",
 "Reading a grid file yields exactly the numbers of entities, coordinates, adjacency, labels and index map listed in it. A missing or cut-off file, a word where a number should stand, or index arrays whose length disagrees with the counts in the header yield a failure and no grid, never a partial one; a newly allocated grid has room for exactly what was asked for, and an empty one holds nothing.",
 ["inputs", "fault_sequences"], "all grid files, and all truncations and corruptions of them",
 "no test reads a grid file",
 ["opm/core/grid/grid.c"], [("reader", "grid.c: read_grid")], ["grid structure or failure"])

prop("C29", "Numerical solutions are accurate to the tolerances asked for",
 "Pressure and transport solutions satisfy their discrete equations within the configured tolerances for physically admissible input.",
 ["inputs"], "all admissible property models, grids and steps",
 "tests do not run the solvers",
 ["opm/core/linalg", "opm/core/pressure", "opm/core/transport"], [("Newton and linear solvers", "CompressibleTpfa.cpp, IncompTpfa.cpp, call_umfpack.c")], ["residuals"])

prop("C30", "Fluid properties are those the deck's tables define",
 "At every pressure, surface composition and table region, the volume factors, viscosities, dissolution ratios, their pressure derivatives, phase matrices and phase densities obtained from a deck's PVT keywords are those its tables define: the tabulated values at the nodes, the interpolated ones between them, a dissolved ratio never above saturation nor above the ratio of the surface volumes present, derivatives that are those of the values returned, and the density of a phase that of the surface mass it holds. Incompressible fluids and those described by parameters behave likewise. Evaluating many states at once gives for each the answer it gets alone. Decks with missing keywords, or with more regions than the fluid supports, are refused.",
 ["inputs", "configurations"], "all PVT tables (constant, dead, live, with and without spline), pressures, compositions, phase sets and regions",
 "tests evaluate a few states of three decks and compare the table classes with themselves",
 ["opm/core/props/pvt/BlackoilPvtProperties.cpp", "opm/core/props/BlackoilPropertiesFromDeck.cpp", "opm/core/props/IncompPropertiesFromDeck.cpp"], [("live gas", "SinglePvtLiveGas.cpp: evaluate"), ("live oil", "SinglePvtLiveOil.cpp: evaluate"), ("matrices", "BlackoilPropertiesFromDeck.cpp: matrix")], ["property arrays"])

prop("C31", "Relative permeabilities and capillary pressures are those of the cell's tables",
 "Within the reported range of saturations, each phase's relative permeability and capillary pressure are those of the tables of the cell's region: the tabulated values at the nodes, interpolated ones between (for resampled tables between those of the nodes around), combined for three phases as the chosen model says, and never negative; derivatives are those of the values returned. The range reported is that of the tables. With end-point scaling each curve passes through the end points given for its cell by arrays or depth tables, at two or three points, and is linearly stretched between. Evaluating many states at once gives each the answer it gets alone. Curves given by name behave likewise. Missing, too few or inconsistent tables, unknown models and scaling not supported are refused.",
 ["inputs", "configurations"], "all saturation tables, regions, models, end points, states and ways of making the fluid",
 "no test evaluates a saturation function",
 ["opm/core/props/satfunc/SatFuncSimple.cpp", "opm/core/props/satfunc/SatFuncStone2.cpp", "opm/core/props/satfunc/SatFuncGwseg.cpp", "opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp"], [("three-phase models", "SatFunc*.cpp: evalKr, evalKrDeriv"), ("end points", "SaturationPropsFromDeck_impl.hpp: relpermEPS, initEPS")], ["property arrays"])

prop("C32", "Reported volumes, rates and sources add up",
 "Pore volume is porosity times cell volume times the rock's multiplier at the cell's pressure, which follows the given compressibility or table. Phase volumes and averages weigh every cell by its pore volume. Mobility is relative permeability over viscosity of the cell asked for, fractional flows are its shares of the total, so they add up to one; this holds for any set and order of cells, incompressible or black-oil. What is produced is split by the producing cell's fractional flow (converted to surface volume for black-oil) and adds up to the outflow; what is injected is the inflow. Transport sources hold, per cell, boundary inflow, sources and perforation rates, water only where flow enters; crossflow of producers is ignored; wells sharing a cell add up. Well rates are the sums over the well's own perforations, pressure differences follow its own depths and densities, its report row its own rates, composition and pressure; earlier rows stay. Outputs do not depend on what they held before. Sizes that do not fit and wells that cannot be sources are refused.",
 ["inputs", "histories"], "all states, fluids, cell sets, grids, sources, wells and report sequences",
 "no test calls these functions",
 ["opm/core/utility/miscUtilities.cpp", "opm/core/utility/miscUtilitiesBlackoil.cpp", "opm/core/props/rock/RockCompressibility.cpp", "opm/core/simulator/WellState.hpp", "opm/core/simulator/SimulatorReport.cpp"], [("produced shares", "computeInjectedProduced"), ("sources", "computeTransportSource, wellsToSrc"), ("reports", "WellReport::push")], ["output vectors", "report rows"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
