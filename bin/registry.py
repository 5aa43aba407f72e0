"""One entry per property: how its check is built and run."""
REG = {}
def reg(pid, **kw): REG[pid] = kw

reg("C01", drivers=["c01_wells.cpp"], sources=["opm/core/wells/wells.c"],
    mc=[dict(dir="wells", module="MCWells", cfg="MCWells.cfg", workers=4,
             actions=["DoCreate", "DoAdd", "DoAppend", "DoCurrent", "DoClear", "DoClone", "DoDestroy"])],
    gen=[dict(dir="wells", module="MCWells", cfg="GenWells.cfg", depth=24, sim=60, sim_thorough=600, cap=500, cap_thorough=4000)],
    trace=dict(dir="wells", module="TraceWells", cfg="TraceWells.cfg"),
    expect=["create", "add", "append", "current", "clear", "clone", "destroy"],
    rule="runs: behaviours simulated by TLC from MCWells plus seeded random histories over up to four collections")

reg("C14", drivers=["c14_partition.cpp"], sources=["opm/core/pressure/msmfem/partition.c", "opm/core/pressure/msmfem/dfs.c"],
    mc=[dict(dir="partition", module="MCPartition", cfg="MCPartition.cfg", workers=4, actions=["DoCompress", "DoSplit"])],
    trace=dict(dir="partition", module="TracePartition", cfg="TracePartition.cfg"),
    expect=["unif", "compress", "invert", "local", "split"],
    rule="all partitions of up to 4 cells (thorough: 5) over small graphs, all 1D extents, seeded random 2D/3D extents, partitions, graphs and operation histories")

reg("C15", drivers=["c15_coarse.cpp"], sources=["opm/core/pressure/msmfem/coarse_conn.c", "opm/core/pressure/msmfem/hash_set.c"],
    mc=[dict(dir="coarse", module="MCCoarse", cfg="MCCoarse.cfg", workers=4, actions=["TakeFace"])],
    trace=dict(dir="coarse", module="TraceCoarse", cfg="TraceCoarse.cfg"),
    expect=["coarse"],
    rule="all face lists over 3 cells up to length 2 (thorough: 3) and all partitions of them; seeded structured grids and random graphs, with and without fine-face lists")

reg("C16", drivers=["c16_hashset.cpp"], sources=["opm/core/pressure/msmfem/hash_set.c"],
    mc=[dict(dir="hashset", module="MCHashSet", cfg="MCHashSet.cfg", workers=4, actions=["InPlace", "Rebuild"])],
    trace=dict(dir="hashset", module="TraceHashSet", cfg="TraceHashSet.cfg"),
    expect=["insert", "count"],
    rule="all insertion sequences of length 4 (thorough: 6) over 4 keys and 4 capacities; seeded histories with colliding strides and large keys")

GRIDSRC = ["opm/core/grid/GridManager.cpp", "opm/core/grid/grid.c", "opm/core/grid/cart_grid.c", "opm/core/grid/cornerpoint_grid.c",
           "opm/core/grid/cpgpreprocess/facetopology.c", "opm/core/grid/cpgpreprocess/geometry.c",
           "opm/core/grid/cpgpreprocess/preprocess.c", "opm/core/grid/cpgpreprocess/uniquepoints.c"]
DECKSRC = ["opm/core/io/eclipse/EclipseGridParser.cpp"]
PARAMSRC = ["opm/core/utility/parameters/" + f for f in ("Parameter.cpp", "ParameterGroup.cpp", "ParameterTools.cpp", "ParameterXML.cpp",
            "tinyxml/tinystr.cpp", "tinyxml/tinyxml.cpp", "tinyxml/tinyxmlerror.cpp", "tinyxml/tinyxmlparser.cpp")]

reg("C12", drivers=["c12_columns.cpp"], sources=GRIDSRC + DECKSRC,
    mc=[dict(dir="columns", module="MCColumns", cfg="MCColumns.cfg", workers=3, actions=["Bucket", "Sorted", "Split"]),
        dict(dir="columns", module="MCColumns", cfg="MCColumnsDeep.cfg", workers=3, actions=["Bucket", "Sorted", "Split"])],
    trace=dict(dir="columns", module="TraceColumns", cfg="TraceColumns.cfg"), expect=["columns"],
    rule="all activity patterns of single stacks up to 6 cells (thorough: 8) and of 2x2x2, seeded lattices with inactive cells, missing faces, connections across gaps, shuffled cell order, and library-made grids")

reg("C13", drivers=["c13_reorder.cpp"], sources=["opm/core/transport/reorder/" + f for f in ("reordersequence.cpp", "tarjan.c", "ReorderSolverInterface.cpp")] + ["opm/core/utility/StopWatch.cpp"],
    mc=[dict(dir="reorder", module="MCReorder", cfg="MCReorder.cfg", workers=6, actions=["NextSeed", "Enter", "Leave", "Visit"])],
    trace=dict(dir="reorder", module="TraceReorder", cfg="TraceReorder.cfg"), expect=["order", "graph", "solve"],
    rule="all digraphs on up to 3 cells (thorough: 4), seeded structured grids with potential, circulating and random fluxes of extreme magnitudes, random digraphs, chained rings, long paths and loops")

reg("C17", drivers=["c17_csr.cpp"], sources=["opm/core/linalg/sparse_sys.c"],
    mc=[dict(dir="csr", module="MCCSR", cfg="MCCSR.cfg", workers=4, actions=["Announce", "DoFix", "DoPush"])],
    trace=dict(dir="csr", module="TraceCSR", cfg="TraceCSR.cfg"),
    expect=["new", "known", "fix", "filled", "sort", "index", "zero", "write", "vwrite", "vzero"],
    rule="all row-size profiles of up to 4 rows with up to 2 entries each (thorough: 3), seeded matrices with empty rows, repeated and large columns, three fill orders, files written and read back")

reg("C18", drivers=["c18_tables.cpp"], sources=["opm/core/pressure/flow_bc.c", "opm/core/pressure/tpfa/compr_bc.c", "opm/core/pressure/tpfa/compr_source.c",
             "opm/core/transport/implicit/transport_source.c", "opm/core/pressure/FlowBCManager.cpp"] + [g for g in GRIDSRC if g.endswith(".c")],
    mc=[dict(dir="tables18", module="MCTables", cfg="MCTables.cfg", workers=4, actions=["DoCreate", "DoAppend", "DoRefuse", "DoClear", "DoDestroy"])],
    trace=dict(dir="tables18", module="TraceTables", cfg="TraceTables.cfg"),
    expect=["create", "append", "clear", "destroy", "pside", "fside", "refused"],
    rule="every kind of table from every capacity 0..3 across several growths, seeded histories over four tables at once, long tables; all sides of seeded Cartesian, tensor and corner-point grids (inactive cells, shifted columns)")

reg("C19", drivers=["c19_sparse.cpp"], sources=[],
    mc=[dict(dir="sparsec", module="MCSparseC", cfg="MCSparseC.cfg", workers=4, actions=["AppendR", "AssignR", "ClearR", "AddV", "ClearV"])],
    trace=dict(dir="sparsec", module="TraceSparseC", cfg="TraceSparseC.cfg"),
    expect=["tassign", "tallocate", "tappend", "tclear", "tswap", "tcopy", "twrite", "tequal", "vnew", "vmake", "vadd", "vclear", "vequal", "vread"],
    rule="all row-size lists up to 3 rows of up to 2 entries with fitting and unfitting data, all additions of 3 indices to vectors of size 0..3, seeded histories over three tables and three vectors")

reg("C08", drivers=["c08_timer.cpp"], sources=["opm/core/simulator/SimulatorTimer.cpp"] + DECKSRC + PARAMSRC,
    mc=[dict(dir="timer", module="MCTimer", cfg="MCTimer.cfg", workers=4, actions=["DoAdvance", "DoSet", "DoInit", "DoTotal"])],
    trace=dict(dir="timer", module="TraceTimer", cfg="TraceTimer.cfg"),
    expect=["init", "set", "advance", "total"],
    rule="histories of 4 (thorough: all of 5) operations over lists of up to 3 steps; seeded step lists from parameters and decks with jumps in and out of range, re-initialisation with longer lists, dates beyond 68 years")
reg("C06", drivers=["c06_schedule.cpp"], sources=DECKSRC,
    mc=[dict(dir="schedule", module="MCSchedule", cfg="MCSchedule.cfg", workers=4, actions=["DoSpecial", "DoStart", "DoSteps", "DoDates", "DoOther", "DoVisit"])],
    gen=[dict(dir="schedule", module="MCSchedule", cfg="GenSchedule.cfg", depth=21, sim=300, sim_thorough=3000, cap=300, cap_thorough=3000)],
    trace=dict(dir="schedule", module="TraceSchedule", cfg="TraceSchedule.cfg"),
    expect=["begin", "kw", "tstep", "dates", "other", "parsed", "visit", "absent"],
    rule="behaviours simulated by TLC from MCSchedule, every order of up to 4 (thorough: 5) of six kinds of keyword, seeded decks of up to 25 keywords with comments, repeat counts and included files, read by new and by reused readers, epochs visited in random order including missing ones")

reg("C07", drivers=["c07_deck.cpp"], sources=DECKSRC,
    mc=[dict(dir="deck", module="MCDeck", cfg="MCDeck.cfg", workers=4, actions=["TakeV", "TakeR", "TakeD", "Stop"])],
    trace=dict(dir="deck", module="TraceDeck", cfg="TraceDeck.cfg"),
    expect=["deck", "block", "skip", "read", "obs", "bad"],
    rule="every data keyword alone in METRIC and FIELD units, seeded decks of up to 14 keywords in random order and layout (repeat counts, defaults, spilling repeats, comments, line breaks, text after terminators, includes, unknown keywords), malformed decks; each read raw and in SI")

reg("C09", drivers=["c09_params.cpp"], sources=PARAMSRC,
    mc=[dict(dir="params", module="MCParams", cfg="MCParams.cfg", workers=4, actions=["DoPut", "DoJoin", "DoXml", "DoGet", "DoOpen"])],
    gen=[dict(dir="params", module="MCParams", cfg="GenParams.cfg", depth=25, sim=200, sim_thorough=2000, cap=200, cap_thorough=2000)],
    trace=dict(dir="params", module="TraceParams", cfg="TraceParams.cfg"),
    expect=["begin", "insert", "read", "join", "get", "default", "open", "has", "usage", "write", "bad"],
    rule="behaviours simulated by TLC from MCParams; seeded histories of insertions, merges, param and XML files (nested, merged and grouped from other files), command lines, lookups with defaults and requirements through root and extracted groups, usage reports, files written and read back; malformed files")
reg("C10", drivers=["c10_cart.cpp"], sources=GRIDSRC + DECKSRC,
    mc=[dict(dir="lattice", module="MCLattice", cfg="MCLattice.cfg", workers=6, actions=["FirstAxis", "Make2", "Make3", "MakeDepth"])],
    trace=dict(dir="lattice", module="TraceLattice", cfg="TraceLattice.cfg"), expect=["grid", "refused"],
    rule="all extents up to 3x3x3 (thorough: 5x5x5) in 2D and 3D, uniform and with seeded coordinate lines, depths level, sloping and uneven, by every constructor and from decks (DIMENS or SPECGRID, DXV/DYV/DZV, DEPTHZ or TOPS in any order); long thin grids; decks whose sizes do not fit or that lack a keyword")

reg("C11", drivers=["c11_cornerpoint.cpp"], sources=GRIDSRC + DECKSRC,
    mc=[dict(dir="pillars", module="MCPillars", cfg="MCPillars.cfg", workers=4, actions=["ChooseA", "ChooseB", "Sweep", "Finish"]),
        dict(dir="pillars", module="MCPillars", cfg="MCPillars2.cfg", workers=6, actions=["ChooseA", "ChooseB", "Sweep", "Finish"], tiers=("thorough",))],
    trace=dict(dir="pillars", module="TracePillars", cfg="TracePillars.cfg"), expect=["cpgrid"],
    rule="pairs of neighbouring columns with all corner depths 0..3 for one layer (quick: a seeded fourteenth) and seeded ones for two layers; seeded grids of up to 4x4x6 cells with faults, tilted layers, gaps, pinched and inactive cells, vertical, sheared, irregular and differently sloping pillars, all handednesses, depths or elevations; from the C interface and from decks")

WELLGSRC = ["opm/core/wells/WellsGroup.cpp", "opm/core/wells/WellCollection.cpp", "opm/core/wells/ProductionSpecification.cpp",
            "opm/core/wells/InjectionSpecification.cpp", "opm/core/wells/wells.c"] + DECKSRC
for _p, _f, _c, _e, _r in (
    ("C02", 2, "TraceCheck", ["new", "apply", "check", "shut"], "checks of measured rates and pressures, repeated until they pass or a few times over"),
    ("C03", 3, "TraceShare", ["new", "apply", "told", "shut"], "deck targets applied none, once or twice, then targets imposed directly on groups, forced or not"),
    ("C04", 4, "TraceReplace", ["new", "apply", "replace", "shut"], "replacement applied repeatedly with new measured rates")):
    reg(_p, drivers=["c02_groups.cpp"], sources=WELLGSRC, defs=["-DFOCUS=%d" % _f],
    mc=[dict(dir="groups", module="MCGroups", cfg="MCGroups.cfg", workers=4, actions=["DoApply", "DoSwitch", "DoLimitI", "DoLimitP", "DoWorst", "DoReplace", "DoPass"]),
        dict(dir="groups", module="MCGroups", cfg="MCGroupsDeep.cfg", workers=6, tiers=["thorough"], actions=["DoApply", "DoSwitch", "DoLimitI", "DoLimitP", "DoWorst", "DoReplace", "DoPass"])],
    gen=[dict(dir="groups", module="MCGroups", cfg="GenGroups.cfg", depth=20, sim=120, sim_thorough=1500, cap=120, cap_thorough=1500)],
    trace=dict(dir="groups", module="TraceGroups", cfg=_c + ".cfg"), expect=_e,
    rule="behaviours simulated by TLC from MCGroups (three systems) and seeded trees of up to 5 groups in any phase combination with up to 6 wells; " + _r)
reg("C05", drivers=["c05_wellsmanager.cpp"], sources=WELLGSRC + ["opm/core/wells/WellsManager.cpp"],
    mc=[dict(dir="wellsdeck", module="MCWellsDeck", cfg="MCWellsDeck.cfg", workers=4, actions=["DoSpec", "DoComp", "DoCon", "DoFlag", "DoTree", "DoBuild"])],
    gen=[dict(dir="wellsdeck", module="MCWellsDeck", cfg="GenWellsDeck.cfg", depth=20, sim=150, sim_thorough=1500, cap=150, cap_thorough=1500)],
    trace=dict(dir="wellsdeck", module="TraceWellsDeck", cfg="TraceWellsDeck.cfg"), expect=["deck", "wells", "refused", "check", "replace"],
    rule="behaviours simulated by TLC from MCWellsDeck and seeded decks (METRIC or FIELD units, any phase combination, inactive and shuffled cells) of up to 5 wells in trees of up to 4 groups, over up to 3 epochs visited in any order, one in five with a record that cannot be built; checks and replacement through the manager")

reg("C20", drivers=["c20_tpfa.cpp"], sources=GRIDSRC + PARAMSRC + DECKSRC + ["opm/core/pressure/IncompTpfa.cpp", "opm/core/pressure/flow_bc.c", "opm/core/pressure/mimetic/mimetic.c",
        "opm/core/pressure/tpfa/ifs_tpfa.c", "opm/core/pressure/tpfa/trans_tpfa.c", "opm/core/linalg/sparse_sys.c", "opm/core/linalg/LinearSolverInterface.cpp",
        "opm/core/utility/miscUtilities.cpp", "opm/core/props/rock/RockCompressibility.cpp", "opm/core/wells/wells.c"],
    mc=[dict(dir="tpfa", module="MCTpfa", cfg="MCTpfa.cfg", workers=6, actions=["DoFace", "DoSource", "DoBc", "DoWell", "DoRock", "DoPin"])],
    gen=[dict(dir="tpfa", module="MCTpfa", cfg="GenTpfa.cfg", depth=12, sim=150, sim_thorough=1500, cap=150, cap_thorough=1500)],
    trace=dict(dir="tpfa", module="TraceTpfa", cfg="TraceTpfa.cfg"), expect=["net", "assemble", "flux", "end"],
    rule="networks simulated by TLC from MCTpfa; seeded networks of up to 6 cells and 10 faces with wells, conditions, sources and heads, assembled repeatedly with changing forces, steady and with compressible rock; IncompTpfa on 2D and 3D grids with gravity, wells and rock compressibility, the linear solver replaced by one that records the system and answers at will")
TPSRC = ["opm/core/transport/" + f for f in ("minimal/spu_explicit.c", "minimal/spu_implicit.c", "implicit/transport_source.c", "implicit/TransportSolverTwophaseImplicit.cpp",
         "TransportSolverTwophaseInterface.cpp", "reorder/TransportSolverTwophaseReorder.cpp", "reorder/TransportSolverCompressibleTwophaseReorder.cpp", "reorder/ReorderSolverInterface.cpp", "reorder/reordersequence.cpp", "reorder/tarjan.c")]
reg("C21", drivers=["c21_transport.cpp"], sources=TPSRC + GRIDSRC + PARAMSRC + DECKSRC + ["opm/core/linalg/sparse_sys.c", "opm/core/linalg/call_umfpack.c", "opm/core/utility/StopWatch.cpp",
         "opm/core/utility/miscUtilities.cpp", "opm/core/utility/miscUtilitiesBlackoil.cpp", "opm/core/pressure/tpfa/trans_tpfa.c", "opm/core/wells/wells.c"],
    mc=[dict(dir="upwind", module="MCUpwind", cfg="MCUpwind.cfg", workers=6, actions=["DoFace", "DoExplicit", "DoFlow", "DoSolve", "DoColumn", "DoSettle"])],
    trace=dict(dir="upwind", module="TraceUpwind", cfg="TraceUpwind.cfg"), expect=["explicit", "assemble", "iterate", "step", "sink", "settle"],
    rule="one face in every situation of nine mobility pairs per side, total flux -6..6 and gravity flux -3..3; seeded networks of up to 6 cells for explicit steps, assembled imbalances and their derivatives (both implicit models, with sources, gravity and capillary pressure), whole iterations with a linear solver that answers at will, whole steps of the flow-ordered solvers (with and without loops, with changing pore volumes, compressible fluids) and of the Newton solver (with and without gravity), segregation in columns")

reg("C22", drivers=["c22_tof.cpp"], sources=["opm/core/tof/TofReorder.cpp", "opm/core/transport/reorder/ReorderSolverInterface.cpp", "opm/core/transport/reorder/reordersequence.cpp", "opm/core/transport/reorder/tarjan.c"] + GRIDSRC + DECKSRC,
    mc=[dict(dir="tof", module="MCTof", cfg="MCTof.cfg", workers=4, actions=["Choose", "Solve"])],
    trace=dict(dir="tof", module="TraceTof", cfg="TraceTof.cfg"), expect=["tof", "tracer", "multi"],
    rule="seeded loop-free flow fields, in balance, on networks of up to 9 cells with any faces (several between two cells, to the outside) and on 2-d and 3-d box grids with faces turned either way; sources, sinks and through flow; solvers reused, with output arrays of any previous size")
reg("C23", drivers=["c23_tables.cpp"], sources=["opm/core/utility/MonotCubicInterpolator.cpp"],
    mc=[dict(dir="interp", module="MCInterp", cfg="MCInterp.cfg", workers=6, actions=["Add", "Scale", "Chop", "Shrink"])],
    trace=dict(dir="interp", module="TraceInterp", cfg="TraceInterp.cfg"), expect=["build", "read", "add", "addbad", "scale", "chop", "shrink", "look", "uniform", "linear", "resample"],
    rule="seeded histories of monotone cubic tables (built from vectors, files or single points; scaled, chopped, thinned, extended, copied) shown at every node and quarter; even and uneven straight tables at every quarter inside and beyond both ends, rescaled up to twice; resampled tables")
reg("C24", drivers=["c24_roots.cpp"], sources=[],
    mc=[dict(dir="roots", module="MCRoots", cfg="MCRoots.cfg", workers=4, actions=["Start", "Step", "Answer", "GiveUp", "Refuse"])],
    trace=dict(dir="roots", module="TraceRoots", cfg="TraceRoots.cfg"), expect=["ask", "eval", "answer", "search", "found"],
    rule="seeded functions of twelve families (smooth, stiff, flat, with jumps, with several zeros or none) on intervals of many sizes; with and without initial guess (also at the ends), both directions, three error policies, tolerances 1e-1 to 1e-14, iteration limits 0 to 100; widening searches; every evaluation is checked")

reg("C25", drivers=["c25_initstate.cpp"], sources=GRIDSRC + DECKSRC + PARAMSRC + ["opm/core/utility/MonotCubicInterpolator.cpp"],
    mc=[dict(dir="equil", module="MCEquil", cfg="MCEquil.cfg", workers=4, actions=["Down", "Up", "Fill"])],
    trace=dict(dir="equil", module="TraceEquil", cfg="TraceEquil.cfg"), expect=["init", "fields", "surf", "refuse"],
    rule="seeded boxes in two and three dimensions (uneven cells, single layers, cells of a larger box) with per-cell saturation ranges; every initialisation mode, contacts and datum points above, inside, between and below the cells, water lighter or heavier than oil, incompressible fluids (exact) and fluids whose density grows with pressure (bounded by the densities at both ends); fields of decks with two or three phases; states initialised again")

reg("C26", drivers=["c26_rock.cpp"], sources=DECKSRC + PARAMSRC + ["opm/core/props/rock/RockFromDeck.cpp", "opm/core/props/rock/RockBasic.cpp"],
    mc=[dict(dir="rock", module="MCRock", cfg="MCRock.cfg", workers=4, actions=["Give", "Grid", "Read"])],
    gen=[dict(dir="rock", module="MCRock", cfg="GenRock.cfg", depth=13, sim=400, sim_thorough=4000, cap=400, cap_thorough=4000)],
    trace=dict(dir="rock", module="TraceRock", cfg="TraceRock.cfg"), expect=["deck", "read", "uniform"],
    rule="all 1024 sets of the ten keywords with seeded arrays (repeat counts, any keyword order, arrays too short), several active-cell mappings per deck (identity, subset, permuted, repeated cells), the object read into again; keyword sets and mappings simulated by TLC from MCRock; homogeneous rock in one to three dimensions")

reg("C27", drivers=["c27_vtk.cpp"], sources=GRIDSRC + ["opm/core/io/vtk/writeVtkData.cpp"],
    mc=[dict(dir="vtk", module="MCVtk", cfg="MCVtk.cfg", workers=6, actions=["AddFace", "EndCell"])],
    trace=dict(dir="vtk", module="TraceVtk", cfg="TraceVtk.cfg"), expect=["unstructured", "structured"],
    rule="seeded polyhedral grids (0 to 12 cells, faces of 3 to 9 nodes, shared and outer faces), Cartesian and hexahedral boxes, two-dimensional grids (refused), up to six fields of one to nine components with denormal, negative, fractional and 10-digit values; regular boxes with their sizes; every file is parsed back token by token")

reg("C28", drivers=["c28_gridfile.cpp"], sources=GRIDSRC + DECKSRC + PARAMSRC,
    mc=[dict(dir="gridfile", module="MCGridFile", cfg="MCGridFile.cfg", workers=6, actions=["Make", "CutOff", "Spoil", "Extra", "Open", "Take"])],
    gen=[dict(dir="gridfile", module="MCGridFile", cfg="GenGridFile.cfg", depth=5, sim=400, sim_thorough=4000, cap=400, cap_thorough=4000)],
    trace=dict(dir="gridfile", module="TraceGridFile", cfg="TraceGridFile.cfg"), expect=["read", "missing", "empty", "sizes"],
    rule="files simulated by TLC from MCGridFile (whole, cut off, spoiled, with extra numbers); seeded files of one to three dimensions, with and without tags and index map, cut at any number and at block edges, words instead of numbers, header and index-array counts that disagree, too many dimensions; read by read_grid and by GridManager")

PROPSRC = ["opm/core/props/" + f for f in ("BlackoilPropertiesFromDeck.cpp", "BlackoilPropertiesBasic.cpp", "IncompPropertiesFromDeck.cpp", "IncompPropertiesBasic.cpp",
           "pvt/BlackoilPvtProperties.cpp", "pvt/PvtPropertiesBasic.cpp", "pvt/PvtPropertiesIncompFromDeck.cpp", "pvt/SinglePvtDead.cpp", "pvt/SinglePvtDeadSpline.cpp", "pvt/SinglePvtInterface.cpp",
           "pvt/SinglePvtLiveGas.cpp", "pvt/SinglePvtLiveOil.cpp", "rock/RockFromDeck.cpp", "rock/RockBasic.cpp", "satfunc/SatFuncGwseg.cpp", "satfunc/SatFuncSimple.cpp", "satfunc/SatFuncStone2.cpp",
           "satfunc/SaturationPropsBasic.cpp")] + ["opm/core/utility/MonotCubicInterpolator.cpp"]
reg("C30", drivers=["c30_pvt.cpp"], sources=PROPSRC + GRIDSRC + DECKSRC + PARAMSRC,
    mc=[dict(dir="pvt", module="MCPvt", cfg="MCPvt.cfg", workers=6, actions=["PUp", "PDown", "MUp", "MDown"])],
    trace=dict(dir="pvt", module="TracePvt", cfg="TracePvt.cfg"), expect=["deck", "points", "incomp", "basic", "basicprops"],
    rule="seeded decks with every pair and triple of phases, constant-compressibility, dead, live-oil and live-gas tables (records with and without undersaturated rows, also sampled through the spline); one to five points per call on, between and beyond the nodes, saturated, undersaturated and on the boundary, without oil, gas or both; decks that must be refused; incompressible fluids from decks and fluids from parameters")

reg("C31", drivers=["c31_satf.cpp"], sources=PROPSRC + GRIDSRC + DECKSRC + PARAMSRC,
    mc=[dict(dir="satf", module="MCSatf", cfg="MCSatf.cfg", workers=6, actions=["WaterIn", "GasIn", "GasByWater"])],
    trace=dict(dir="satf", module="TraceSatf", cfg="TraceSatf.cfg"), expect=["deck", "points", "range", "basic"],
    rule="seeded decks with water-oil, gas-oil and three-phase tables, all three-phase models, direct and resampled tables, one to three regions by SATNUM with and without inactive and reordered cells; one to eight states per call on and between the nodes and at the ends of the ranges; end-point scaling by arrays and by depth tables, two- and three-point; decks that must be refused; the same fluid made directly, from parameters, by default and as an incompressible one; curves given by name")


reg("C32", drivers=["c32_volumes.cpp"], sources=["opm/core/utility/miscUtilities.cpp", "opm/core/utility/miscUtilitiesBlackoil.cpp", "opm/core/props/rock/RockCompressibility.cpp",
                                                 "opm/core/simulator/SimulatorReport.cpp", "opm/core/wells/wells.c", "opm/core/utility/MonotCubicInterpolator.cpp"] + GRIDSRC + DECKSRC + PARAMSRC,
    mc=[dict(dir="volumes", module="MCVolumes", cfg="MCVolumes.cfg", workers=4, actions=["Report", "Displace", "Drain", "Turn"])],
    trace=dict(dir="volumes", module="TraceVolumes", cfg="TraceVolumes.cfg"),
    expect=["rock", "sat", "split", "mob", "surf", "prod", "tsrc", "btsrc", "vel", "w2src", "wrates", "wdp", "wstate", "report"],
    rule="seeded small cases with one to three phases: pore volumes with no, given, ROCK and ROCKTAB compressibility; phase volumes and averages; mobilities and fractional flows of any subset and order of cells, incompressible and black-oil; sources of both signs, boundary fluxes in both orientations, several wells in one cell, crossflow, shut wells; outputs that are not empty beforehand; refused sizes; reports of one to four steps read back from their text")

NA = {"C29": "how closely iterative solvers and floating-point arithmetic approach a real-number solution is no property of a discrete state machine; what is exact about the systems they solve is C20 and C21"}
