MEM_REAL = ["karta (all of it, compiled modules included)", "numpy", "blosc", "the PyPy interpreter", "GDAL/OGR/PROJ where an operation uses them"]
THR_STUB = ["the thread scheduler: real threads, but exactly one runs at a time and control passes only at the steps the scenario names (bytecodes of karta code)",
            "locks created by karta (simulated: blocking hands control to the scheduler, a deadlock is reported)",
            "garbage collection: automatic collection is off"]
STEP = "one bytecode of karta's Python code, or one line of library Python code below it"

P("C07", "A grid holds exactly what its history of updates says",
  "After any sequence of assignments (to cells, rows, blocks, all or some bands, through boolean masks), in-place transformations, masking by polygons, nodata changes, block writes to a band and copies, reading any part of a grid returns for every cell the value last assigned to it, whatever storage the bands use. An update that is rejected or fails part of the way (bad shape, unsupported index, failing callback, failing compression or allocation) raises and leaves every cell at its old or its new value, and cells it was not about unchanged. Grids, arrays passed in and arrays returned by indexing are independent: changing one never changes another.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "for all grids, storage classes, chunk sizes and types, and all histories of updates, failed updates, reads, copies and derived grids",
  "the tests make single assignments on fresh grids, most of them smaller than one storage chunk, and never fail in between",
  ["karta/raster/band.py", "karta/raster/grid.py"],
  [("chunked compressed storage", "karta/raster/band.py:CompressedBand"), ("index translation to blocks", "karta/raster/band.py:BandIndexer"),
   ("grid updates", "karta/raster/grid.py:apply, set_nodata_value, mask_by_poly, copy")],
  observe=["RegularGrid.__getitem__/__setitem__/values", "RegularGrid.apply", "RegularGrid.set_nodata_value", "Band.getblock/setblock"],
  quick=(5000, 300), thorough=(150000, 3000),
  rule="a run is a history of 3-14 updates, failing updates, reads and copies over up to 3 grids against plain numpy arrays; distinct = (operation, index form, storage class, type, multi-band, chunk count class, outcome, fault)",
  step="one operation of the history", real=MEM_REAL,
  stub=["the compression codec and the numpy allocations behind it: pass through, except that the scenario's n-th call fails"],
  assumptions=["numpy is the reference for index semantics", "which of several values a cell written twice by one statement gets is not claimed"])

P("C08", "An interrupted in-place update leaves every cell old or new",
  "If an in-place update of a grid (assignment, masked assignment, apply, nodata change, masking by polygons) is interrupted at any instant by an asynchronous exception such as Ctrl-C or a failing allocation, the exception reaches the caller and the grid stays usable: every cell reads as its value before the update or its value after it, cells outside the update are unchanged, its nodata value is the old or the new one, and its size and position are unchanged. Repeating an update that sets cells to given values (an assignment, a masking, a nodata change) completes it.",
  ["crash_points", "fault_sequences", "inputs"],
  "for every step of every update on every grid and storage class",
  "no test interrupts an operation",
  ["karta/raster/band.py", "karta/raster/grid.py"],
  [("block-wise read-modify-write", "karta/raster/band.py:CompressedBand.setblock"), ("grid updates", "karta/raster/grid.py")],
  observe=["RegularGrid updates"],
  quick=(4000, 300), thorough=(100000, 3000), level="fault_enumeration",
  rule="a run interrupts 1-4 updates on one grid, each at a seeded step; distinct = (update, exception, source line interrupted, storage class)",
  step=STEP, real=MEM_REAL, stub=["the instant of the asynchronous exception (raised by the simulator between two bytecodes)"],
  assumptions=["interruption between bytecodes, as CPython and PyPy deliver signals"])

P("C09", "Threads reading a grid while one updates it see only real values",
  "While one thread updates a grid, threads reading it (cells, blocks, masks, statistics, nearest-cell sampling, copies) get for every cell a value the cell held before or was given by the updates, and never raise, hang or change anything. Updates by several threads to different bands, or to different grids, all take effect. Threads that only read the same grid, opened with deferred reading or in memory, get the answers a single thread gets.",
  ["schedules", "histories", "inputs"],
  "for all interleavings, at bytecode granularity, of 2-3 threads with short programs of reads and updates on grids of every storage class",
  "the tests are single-threaded",
  ["karta/raster/band.py", "karta/raster/grid.py", "karta/raster/_gdal.py"],
  [("chunk replaced by a single assignment", "karta/raster/band.py:CompressedBand._setchunk"), ("deferred band", "karta/raster/_gdal.py")],
  observe=["RegularGrid reads and updates from threads"],
  quick=(1600, 300), thorough=(100000, 3000),
  rule="a run executes 2-3 thread programs under a seeded switch schedule; distinct = switch points taken (from, to, function, line) together with the pair of operations under way",
  step=STEP, real=MEM_REAL, stub=THR_STUB,
  assumptions=["switches happen between bytecodes of karta code; C code (numpy, blosc, GDAL) runs uninterrupted, as it does under the interpreter lock"])

P("C10", "Threads sharing geometries get the answers a single thread gets",
  "Any number of threads may query, transform, derive from and serialise the same geometries and coordinate systems at once: each call returns, or raises, what it returns or raises when called alone. No thread hangs, and afterwards the geometries answer as before.",
  ["schedules", "inputs"],
  "for all interleavings, at bytecode granularity, of 2-3 threads with short programs over shared geometries of all types",
  "the tests are single-threaded",
  ["karta/vector/geometry.py", "karta/vector/decorators.py", "karta/crs.py", "karta/geodesy.py", "karta/vector/_geojson.py"],
  [("cached results", "karta/vector/decorators.py:cache_decorator"), ("geometry methods", "karta/vector/geometry.py"), ("coordinate systems", "karta/crs.py")],
  observe=["all geometry queries"],
  quick=(1600, 300), thorough=(100000, 3000),
  rule="a run executes 2-3 thread programs of 1-4 calls under a seeded switch schedule; distinct = switch points taken (function, line) together with the pair of calls under way",
  step=STEP, real=MEM_REAL, stub=THR_STUB,
  assumptions=["switches happen between bytecodes of karta code; compiled modules run uninterrupted, as they do under the interpreter lock"])

P("C11", "Looking at an object never changes it",
  "Querying, comparing, iterating, transforming into a new object, deriving, merging, serialising and writing leave every operand as it was: vertices, attributes, data rows, coordinate system, holes, grid cells, nodata and position; any later query gives the answer it would have given. This also holds when such a call fails or is interrupted at any instant, and changing a returned array, or the vertices, rows or cells of a derived object, does not reach back into the original (views that say so, such as row iteration and chunks without copying, excepted).",
  ["histories", "fault_sequences", "inputs"],
  "for all sequences of observing calls on all geometry types and grids, with failures and asynchronous interruptions at any step, and modifications of the results",
  "the tests look at return values of single calls, not at operands afterwards, and never interrupt",
  ["karta/vector/geometry.py", "karta/vector/_geojson.py", "karta/vector/_shp.py", "karta/vector/table.py", "karta/vector/decorators.py", "karta/raster/grid.py", "karta/raster/misc.py"],
  [("caches", "karta/vector/decorators.py"), ("derivation", "karta/vector/geometry.py:_subset, shift, apply_transform"), ("serialisation", "karta/vector/_geojson.py")],
  observe=["all queries on geometries and grids"],
  quick=(3200, 300), thorough=(100000, 3000),
  rule="a run makes 2-8 calls on up to 3 objects, some interrupted, some with their results modified; distinct = (type, call, interrupted at line or not, outcome)",
  step=STEP, real=MEM_REAL, stub=["the instant of asynchronous exceptions"],
  assumptions=["properties dictionaries handed from a geometry to one derived from it may be shared; only their content as left by karta is checked"])

P("C12", "After any history of changes a geometry answers like a fresh one",
  "After any sequence of item assignments (Multipoint), extensions (Line), changes of attribute columns and properties, mixed with queries, every query on the geometry (coordinates, extents, spatial searches, attribute lookup, derived geometries, serialisation) gives the answer of a geometry newly built with the present content. Other geometries, including those derived from it before or after, are not affected; a change that is rejected (index out of range, wrong length, unusable coordinates, wrong type) raises and has no effect. Attribute tables behave likewise under changes of columns, extension and updating.",
  ["histories", "inputs"],
  "for all histories of changes and queries on geometries of all types that can change, with queries (which may cache) at any point",
  "the tests change a fresh object once and look at the changed field only; caches and spatial indexes built before the change are not involved",
  ["karta/vector/geometry.py", "karta/vector/table.py", "karta/vector/decorators.py"],
  [("item assignment", "karta/vector/geometry.py:Multipoint.__setitem__"), ("extension", "karta/vector/geometry.py:Line.extend"),
   ("attribute table", "karta/vector/table.py"), ("caches and spatial indexes", "karta/vector/decorators.py, karta/vector/geometry.py")],
  observe=["Multipoint item assignment", "Line.extend", "data.setfield/extend", "all queries"],
  quick=(2400, 300), thorough=(100000, 3000),
  rule="a run is a history of 3-12 changes, rejected changes, derivations and queries on up to 6 related geometries and tables against plain lists; distinct = (type, change, query after it, outcome)",
  step="one operation of the history", real=MEM_REAL, stub=["nothing"],
  assumptions=["properties dictionaries may be shared between a geometry and those derived from it", "lines are not extended by lines that share vertices with them: the crossing test does not end on some of those (C17)"])

P("C13", "Attribute rows stay with their geometry, in any iteration order",
  "Each part of a multipart geometry keeps its own attribute row, every value under its own name, through construction from parts, selection, spatial searches, merging, transformation, item assignment, and writing and reading back. This does not depend on the order in which columns were created, or on the order in which the language happens to iterate over sets.",
  ["configurations", "histories", "inputs"],
  "for all attribute tables and column orders, all iteration orders of unordered collections, and all chains of derivations",
  "the tests use one or two columns and the one iteration order their interpreter happens to have",
  ["karta/vector/table.py", "karta/vector/geometry.py", "karta/vector/_geojson.py", "karta/vector/_shp.py", "karta/vector/_gpx.py"],
  [("attribute table", "karta/vector/table.py"), ("merging of attributes", "karta/vector/table.py:merge, karta/vector/geometry.py:merge")],
  observe=["Multipart.data, .d, indexing, merge, searches, as_geojson"],
  quick=(4000, 300), thorough=(100000, 3000),
  rule="a run is a chain of 2-7 derivations from up to 3 geometries whose every part carries its identity in every column, under a seeded set iteration order; distinct = (type, derivation, number of columns, set orders drawn)",
  step="one operation of the chain", real=MEM_REAL,
  stub=["iteration order of sets in karta code: set displays, comprehensions and set()/frozenset() calls build sets that iterate in a seeded order"],
  assumptions=["dictionaries keep insertion order, as the language guarantees"])

P("C14", "Results do not depend on what memory held before",
  "Every result (grid values, coordinates, resampled, merged, masked or derived grids, samples, geometry queries, files written) is the same whatever the memory handed out by the allocator contained before. In particular no result contains cells that nothing assigned.",
  ["fault_sequences", "inputs", "configurations"],
  "for all operations of the library that return numbers, and all previous contents of the memory they are given",
  "the tests run in one process with whatever memory content comes up, usually zero",
  ["karta/raster/grid.py", "karta/raster/band.py", "karta/raster/misc.py", "karta/raster/coordgen.py", "karta/raster/_gdal.py", "karta/vector/geometry.py"],
  [("uninitialised arrays filled before use", "karta/raster/*.py: np.empty, np.empty_like")],
  observe=["all grid operations", "all geometry queries"],
  quick=(2400, 300), thorough=(100000, 3000),
  rule="a run makes 2-7 calls (queries, updates, writes, reads, mosaics, gridded points) three times under different memory fills (numpy's uninitialised arrays filled with patterns, libc malloc perturbed); distinct = (operation, type, outcome, whether uninitialised memory was requested)",
  step="one call", real=MEM_REAL,
  stub=["numpy.empty/empty_like as karta and numpy's Python layer call them: filled with the scenario's pattern", "malloc: new memory filled with the scenario's byte (glibc M_PERTURB)"],
  assumptions=["memory allocated inside compiled code is varied through malloc only"])

PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or history for a simulator to control; input generation alone would be another technique"
P("C15", "Spatial searches return exactly what a full scan returns",
  "Searches by radius, box, polygon or contact on multipart geometries return exactly the members that satisfy the predicate when each is tested alone.",
  ["inputs"], "for all geometries, with and without spatial index, and all search regions", "the tests sample a few configurations",
  ["karta/vector/quadtree.pyx", "karta/vector/rtree.pyx", "karta/vector/geometry.py"], [("spatial indexes", "karta/vector/quadtree.h, rtree.h")], na=PURE)
P("C16", "Distances, azimuths and projections are geodetically right",
  "Distances, azimuths, walks, areas and conversions between coordinate systems agree with the geodesic reference to the stated precision, and forward and inverse problems undo each other.",
  ["inputs"], "for all positions and coordinate systems", "the tests sample reference values",
  ["karta/geodesy.py", "karta/crs.py"], [("geodesic solvers", "karta/geodesy.py")], na=PURE)
P("C17", "Intersection, containment and hull agree with exact geometry",
  "Whether lines cross, where they cross, whether a polygon contains a point and which vertices form the hull agree with exact geometry on the given coordinates.",
  ["inputs"], "for all planar and spherical configurations", "the tests sample a few",
  ["karta/vector/intersection.pyx", "karta/vector/contains.pyx", "karta/vector/convexhull.pyx"], [("predicates", "karta/vector/*.pyx")], na=PURE)
P("C18", "Sampling and resampling return the interpolant of the cells",
  "Nearest and bilinear sampling, profiles, resampling, clipping and resizing of a grid return the values that their definition gives from the cell values and positions.",
  ["inputs"], "for all grids and positions", "the tests sample a few", ["karta/raster/grid.py", "karta/raster/crfuncs.pyx"],
  [("samplers", "karta/raster/grid.py:sample*")], na=PURE)
P("C19", "Tile numbers, quadkeys and bounds convert into each other",
  "Converting between positions, web map tile numbers, quadkeys and tile bounds is consistent for every zoom level.",
  ["inputs"], "for all positions and zoom levels", "the tests sample a few", ["karta/tile.py"], [("tile arithmetic", "karta/tile.py")], na=PURE)
P("C20", "Merged grids are the weighted mean of their sources",
  "Each cell of a merged grid is the weighted mean of the source cells with data at that place, and nodata where there are none.",
  ["inputs"], "for all aligned grids and weights", "the tests sample a few", ["karta/raster/grid.py"], [("merge", "karta/raster/grid.py:merge")], na=PURE)
