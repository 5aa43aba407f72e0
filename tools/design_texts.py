HEAD = """# Model-based verification of opm-core with TLA+

Language: TLA+, checked with TLC. The components are sequential data-structure, rule and accounting
engines whose state is records, sequences and sets of integers. TLC checks such specifications
exhaustively at small bounds, simulates behaviours from them, and validates recorded behaviours at
tens of thousands of events per second, reading them as JSON through the community modules. Quint adds
types, but its simulator and Apalache are slower on sequence-heavy state, and trace validation against
recordings of this size is not what they are built for.

## How every property is decided

1. `spec/<component>/<Name>.tla` states the component's state, its transitions, and what may be
   observed. `MC<Name>.tla/.cfg` checks the property as invariants and action properties over the
   whole state space at small constants. The checker also demands that every action was taken.
2. `harness/cNN_*.cpp` drives the real code, compiled from /repo's working tree with AddressSanitizer,
   assertions on, through exhaustive small inputs, seeded random histories and, where marked, behaviours
   that TLC simulated from the specification. Every call is recorded with its arguments and the
   complete observable result (projected state), one JSON object per line.
3. `Trace<Name>.tla` binds each event to an action of the specification. TLC accepts a recording only
   if every event is a step the specification allows. A crash, a failed assertion, a sanitizer report,
   an unexpected exception or a hang becomes an event that no specification explains.
4. `bin/check.py ID quick|thorough` does all this, shards recordings over the cores, confirms a
   rejection by recording and validating it a second time before it reports `VIOLATION`, writes a replay file with
   the rejected event and the run that led to it, and writes the evidence file (states, transitions,
   events per kind, actions never taken). A driver that no longer compiles against /repo is an error
   (exit 2), not a violation.

Numbers: the code computes with doubles, TLC with integers. Drivers choose inputs so that the exact
result is a small integer multiple of a known unit and log the scaled integer; a value that is
not within rounding of an integer is logged as BAD, which no specification accepts. Where only a bound is
promised (iterative solvers, compressible columns) the specification states the bound and the driver
logs rounded values; the tolerance is stated below.

Specifications say only what the property promises. Which of several permitted orders, storage layouts or
roundings the code chooses is left open, so that refactorings stay quiet. Conversely each check only judges
its own property, so one defect does not make unrelated checks fail where it can be avoided.

No hooks were needed in /repo; everything is observed through public interfaces.

## Properties
"""
TEXT = {
"C01": ("a store of collections of wells with controls (`Wells.tla`), operations as actions on it.", "Invariants: shape of every well, clones independent, contents only change by the named operation.",
        "after every call the whole collection is projected and compared with the model's; capacities are not looked at. Up to four collections at once.", "storage growth at every size and mutation after cloning are driven systematically."),
"C02": ("groups, wells, limits, measured rates and pressures (`Groups.tla`): which limits are violated, and the one correction a check may make.", "Three systems; invariants tie success to absence of violations, each check to at most one correction. The deep configuration runs in the thorough tier.",
        "exact integer rates. Left open: which of several violated wells or groups is corrected first, except that a group is corrected only when nothing below it is violated; nested own rate modes on one path are not generated; guide rates sum to more than 0; group limits only for active phases; shut wells have zero rates.", "repeated checks over random trees, with shut wells and all group procedures."),
"C03": ("the allocation rule over group trees (`Groups.tla`).", "Invariants: targets of the wells under group control add up to the group's target and are in proportion to guide rates.",
        "targets and guide rates are chosen so that shares are exact. Whether shut wells' guide rates count in the shares is left open; so are pending wells under GRUP control.", "targets applied repeatedly and in combination with individually controlled wells."),
"C04": ("reinjection and voidage replacement over group trees (`Groups.tla`).", "Invariants: what is injected equals fraction times produced; only injectors of the group change.",
        "exact integers; NONE procedures change nothing.", "repeated replacement with new rates."),
"C05": ("records of a deck (WELSPECS, COMPDAT, WCON*, WELOPEN, group keywords) and the wells they describe (`WellsDeck.tla`), per epoch.", "Records arrive in any order over epochs; invariants: every well perforated only where completed, controls as given, shut wells closed.",
        "well indices are compared as a ratio to Peaceman's formula computed by the driver; records of the same keyword accumulate; WELOPEN overrides WCON* of the same and earlier epochs; well names differ from group names; name templates in COMPDAT only; COMPDAT's SHUT flag, STOP/AUTO flags and the availability flag of WGRUPCON are not covered; measured rates avoid rounding ties.", "whole decks in two unit systems, inactive and permuted cells, epochs in any order."),
"C06": ("keywords arriving, time-advancing keywords closing an epoch (`Schedule.tla`).", "Invariants: epochs are cumulative, closed epochs never change, steps complete.",
        "dates are compared in days; a TSTEP directly after a TSTEP continues the epoch.", "readers reused for several decks, visiting epochs in any order including missing ones."),
"C07": ("a deck as tokens in any permitted layout and the vectors and records they stand for (`Deck.tla`), with the factor of every item in both unit systems.", "Layouts of a small record in every combination expand to the same data; blocks skipped leave neighbours alone.",
        "values are small integers whose SI images are exact after dividing by the factor. Not generated (unsupported by the reader): quoted names with blanks, defaulted strings in COMPDAT/WCON*, `n*` defaults in plain arrays, `1*/` without blank, records starting with a sign, keywords over eight characters, comments inside string groups or in GRUPTREE, defaults at the ends of SWOF tables. GCONINJE fractions and WGRUPCON guide rates by default are left open.", "every keyword in both unit systems and any layout."),
"C08": ("the clock (`Timer.tla`): steps, position, elapsed time.", "Invariants: time equals the sum of steps done; done exactly at the end; jumps equal stepping.",
        "exact integers (seconds); dates from the library's own calendar, up to far beyond 68 years.", "histories of advancing and jumping, re-initialisation with longer lists."),
"C09": ("nested groups of parameters with precedence, usage and merging (`Params.tla`).", "Invariants: nearest enclosing group wins, usage only by lookup, a written set reads back the same.",
        "written values are limited to what the file format can hold; names have no blanks or slashes.", "histories through extracted subgroups, files, command lines and merges."),
"C10": ("cells, faces and labels of a lattice and their exact measures (`Lattice.tla`).", "Euler-type counting, every face listed by exactly its cells, orientation, for all small extents.",
        "coordinates are integers, so areas, normals and volumes are exact; with uneven depths the geometry formulas of the documented box are judged where exact. The numbering of faces and nodes is not prescribed.", "all extents and constructors, thin grids, decks."),
"C11": ("pillars, corner depths and the intersection of the sides of neighbouring columns (`Pillars.tla`), from which connections, areas and boundaries are derived independently of the algorithm.", "Two columns with all corner depths; the side pieces tile each side exactly.",
        "depths are integers, sloping lines keep intersections dyadic; first points of sloping pillars share a depth; thin active cells lie on a neighbour in their column; tolerance 0; line slopes up to 3 per side (steep case 30).", "exhaustive two-column faults and seeded whole grids."),
"C12": ("cells with a position, layer and connections (`Columns.tla`); columns as maximal stacks.", "The algorithm in steps (bucket, sort, split) refines the definition.",
        "the order of the columns is left open.", "inactive cells, missing faces, long columns."),
"C13": ("reachability and components of the flow graph, and the search that orders it (`Reorder.tla`).", "Depth-first search in steps over all digraphs; the result is an upstream-first list of the components.",
        "which of several valid orders is taken is left open.", "all graphs on up to 4 cells, and large chained and random ones."),
"C14": ("partition vectors, their inversion, renumbering and splitting (`Partition.tla`).", "Renumbering and splitting step by step agree with the definitions.",
        "block numbers after splitting: every part of a block is separate and pieces of different blocks never share one; which part keeps the number is left open.", "all partitions of small sets, sequences of operations."),
"C15": ("coarse faces as sets of fine faces per pair of blocks (`Coarse.tla`).", "Taking faces one by one yields the definition.",
        "order of coarse faces and orientation of their two blocks are left open.", "all small face lists and large grids past every growth."),
"C16": ("a set built by insertions, rebuilt when it grows (`HashSet.tla`).", "Open addressing with collisions refines the abstract set.",
        "slots are not looked at, only content and count.", "long colliding histories."),
"C17": ("counting, offsets, filling of a compressed matrix (`CSR.tla`).", "Two-pass construction keeps every pushed entry in its row whatever the order.",
        "values are integers; written files are read back token by token.", "all row profiles and orders."),
"C18": ("tables under append and clear, sides of a grid and the shares of a flux (`Tables.tla`).", "Growth never loses entries.",
        "face areas are chosen so that shares are exact.", "every growth and every side of irregular grids."),
"C19": ("a list of rows and a map of indices (`SparseC.tla`).", "All operations from all small states.",
        "exact; refusals must leave the container as it was or empty, as documented.", "histories over several containers with swapping and copying."),
"C20": ("a network of cells, faces, conditions, sources, wells; its mass balance and fluxes (`Tpfa.tla`).", "Networks assembled for all small pressures: every interior term appears twice with opposite sign; balance of a solved system.",
        "transmissibilities and pressures are integers so that rows and fluxes are exact. A row may be any multiple-free form of residual A x - b; the row that pins a floating system may be any one. Gravity heads on outer faces are not applied; well heads use saturation-weighted and face heads mobility-weighted densities; rock compressibility through a quadratic curve.", "repeated assembly with changing forces, the solver's answers arbitrary."),
"C21": ("cells, fluxes, mobilities, contents and one transport step (`Upwind.tla`).", "Explicit and ordered implicit steps conserve mass and stay within bounds over all small networks.",
        "rational arithmetic on logged integers; tolerance is the rounding of the digits logged. The Newton solver is judged only when it reports convergence; cells have some mobility; contents of sources are full water; compressible data leave room for incoming water; table slopes outside tables are left open.", "all nine mobility situations per side, all solvers."),
"C22": ("flow networks without loops; ages and mixes as exact fractions (`Tof.tla`).", "Cells solved in any upstream-first order: fluid only gets older, all volumes are swept, mixes are whole.",
        "rounded to the logged digits; balanced fields; stagnant cells are left open; multidimensional upwinding against the documented weights on box grids.", "reused solvers and outputs of any previous size."),
"C23": ("tables as node sets under histories of changes, with documented value and slope at quarters (`Interp.tla`).", "Histories of adding, scaling, chopping, thinning keep order, ranges and monotonicity.",
        "node distances 1, 2, 4 keep values dyadic; slopes after thinning at other distances left open (range and monotonicity are checked); at a node either side's derivative.", "histories of changes."),
"C24": ("a bracket narrowed by evaluations (`Roots.tla`).", "All answer patterns of a function on a small grid: the bracket always holds a sign change, answers lie in it.",
        "positions are ranked, so the specification sees order and signs; |f| up to tolerance + 1e-12 of scale accepted; functions do not return NaN; a guess lies in the interval.", "every single evaluation is checked."),
"C25": ("columns of cells, contact, datum, densities (`Equil.tla`).", "Pressures from the datum outward agree with the closed form in every column.",
        "incompressible fluids exact; compressible ones bounded by the densities at both ends. Water-gas decks, several EQUIL records and contact offsets finer than 0.5 are not covered.", "all modes and positions of contact and datum."),
"C26": ("keyword sets and the tensor they stand for (`Rock.tla`).", "All sets of the nine keywords: which are refused, symmetry, copied diagonals.",
        "exact; which of two mirrored entries wins if both are given is open; longer arrays are accepted.", "all 1024 keyword sets."),
"C27": ("a grid and the tokens of its file (`Vtk.tla`).", "Offsets delimit cells, counts agree, for all small grids.",
        "files are parsed back by the driver; point order within a cell is open; escaping of names is open; the box writer is judged to six digits.", "grids of any size, also none."),
"C28": ("a grid file as a list of numbers and the reader's progress (`GridFile.tla`).", "Every truncation and corruption yields a failure and no grid.",
        "count consistency is required, ranges of indices are left open.", "all cuts and corruptions."),
"C30": ("PVT records of water, oil and gas, their interpolation at whole pressures and the ratios the composition allows (`Pvt.tla`).", "For all small tables and compositions: dissolved ratios never exceed saturation or what is there, values stay between those of the nodes around, the matrix loses no mass.",
        "METRIC decks, whole-bar pressures, interval arithmetic on logged digits. Left open: dead tables outside their range, oil properties without oil, negative extrapolated ratios, gas viscosity where neither oil nor gas is present. Single-row PVTO records are bounded by the slopes of the nearest complete ones; single-row PVTG records follow the saturated line; spline tables are only bounded, and only for monotone columns.", "all phase sets, table kinds and regions, states in any order in one call."),
"C31": ("saturation tables, the three-phase models over them and the piecewise-linear maps of end-point scaling (`Satf.tla`).", "For all states of small tables: bounds, agreement of three-phase models with two-phase tables, resampling surrounds the exact value, scaled curves pass through all end points given, identical end points change nothing.",
        "interval arithmetic in 1/4096; resampled tables are bounded by neighbouring nodes and exact on straight data and where samples meet nodes. Slopes are judged along directions that keep the saturations' sum, against differences of the returned values; at corners of tables only for curves of one table. Stone II looks the oil-water value up at 1 - so, as its comment says. Left open: saturations outside the range, ranges and capillary pressures under end-point scaling, end points out of order, heights when the middle point reaches the end.", "all tables, models, end-point combinations and ways of making a fluid."),
"C32": ("pore volumes and rock multipliers, phase volumes, mobilities, shares, sources, well sums and growing reports over a fluid whose curves the harness supplies (`Volumes.tla`).", "Two cells displaced in steps under changing sources: shares are within bounds and use up the outflow, reported totals never shrink and stay within rounding of what left, volumes fill the pores, sources sum to what crosses the boundary (inner faces drop out), wells add up however they share cells.",
        "all inputs are small integers or dyadic fractions, so sums are compared exactly and shares to 1e-4 or 1e-6. Not covered: water rates of producers that take in fluid, wells without perforations, sources of shut wells, and a second `WellState::init` with other wells.", "all functions for one to three phases, any cell subset, output vectors with old content, and reports of many steps."),
}
TAIL1 = """
## Assumptions common to all

Single-threaded use; allocation does not fail; decks and files are ASCII; drivers keep every file in a scratch
directory. /repo is built as in `/opt/vp/build.sh` (assertions on).
"""
ALARMS = """## False alarms met and corrected

* C14: the first formulation demanded a particular numbering of split parts; left open now.
* C13: equal-valid orders were rejected; the order is judged, not compared.
* C21: convergence was demanded of the Newton solver; it is judged now when it reports convergence.
* C20: the pinned row of a floating system was expected on the first cell; any one cell now.
* C23: slopes of thinned tables at uneven distances are judged by range and monotonicity only.
* C07/C05: layouts the reader does not support were generated at first and are listed above instead.
* Check runs confirm a rejection by repeating it, so a machine hiccup (timeout) cannot raise an alarm by itself.
"""
TAIL2 = """## Running

`bin/setup.sh` verifies the tools; `python3 bin/check.py C01 quick`. `VERIF_SEED` selects the random inputs. Costs on
8 cores: quick checks take 15 to 40 s each, thorough ones up to a few minutes.
"""
