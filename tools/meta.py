#!/usr/bin/env python3
"""Writes properties.jsonl, sim/tiers.json and MANIFEST.json from one place.
Run by hand after editing; the results are committed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), na=None, **cfg):
    PROPS.append(dict(
        prop={"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}},
        na=na, cfg=cfg))


DISK_REAL = ["karta (all of it)", "GDAL/OGR/OSR/PROJ through their Python bindings", "numpy", "blosc", "pyproj", "picogeojson", "the PyPy interpreter"]
DISK_STUB = ["the kernel's file calls: open/read/write/close/ftruncate/unlink below libc are intercepted by simdisk.so, which counts them, injects the faults and otherwise passes them on to a private directory in RAM",
             "garbage collection: automatic collection is off; the scenario says when collections happen"]
DISK_STEP = "one intercepted file-system call"
DISK_ASSUME = ["what libc handed to the kernel survives the death of the process (process crash, not power loss)",
               "GDAL, PROJ and the interpreter are correct"]

P("C01", "A GeoTIFF is complete and faithful once its write returns",
  "When writing a grid to a GeoTIFF returns, the file as the process would leave it if it died at that very moment reads back as that grid: every cell of every band bit for bit, data type, position and shape, nodata value and coordinate system. Reading it later, with any reading mode and choice of bands, gives the same, and nothing that happens in the process afterwards (collections, further reads, writes of other files, dropping the grid) changes it. A later write over it, or over what an interrupted write left under that name, takes full effect.",
  ["histories", "crash_points", "inputs", "configurations"],
  "for all grids (types, shapes down to one cell, bands, skew, nodata, coordinate systems, band storage), creation options and compressions, reading modes, all histories of writes, overwrites, reads, garbage collections, and process deaths during earlier writes and right at the return of this one",
  "the tests write and read one or two grids in a healthy process that goes on living, with reference counting assumed; whether bytes are on disk at return, after a crash, or over a torn file is never observed",
  ["karta/raster/_gdal.py", "karta/raster/read.py", "karta/raster/grid.py", "karta/raster/band.py"],
  [("write of the bands, flush and close before returning", "karta/raster/_gdal.py:write"),
   ("georeference and band reader", "karta/raster/_gdal.py:read"),
   ("grid from file", "karta/raster/read.py:read_gtiff, from_geotiffs")],
  observe=["RegularGrid.to_geotiff/to_gtiff", "karta.raster.read_geotiff", "karta.raster.from_geotiffs"],
  quick=(1400, 300), thorough=(60000, 3000),
  rule="a run is a history of 2-6 writes/crashed writes/reads/collections/drops over up to 3 files and 3 generated grids; distinct = (class of document: type, storage, size class, bands, nodata, kind, compression, layout, skew, CRS) and (crash step, torn bytes) pairs met",
  step=DISK_STEP, real=DISK_REAL, stub=DISK_STUB, assumptions=DISK_ASSUME)

P("C02", "A shapefile is complete and faithful once its write returns",
  "When writing geometries to a shapefile returns, the files as the process would leave them if it died at that moment read back as those geometries, in order: type, every vertex exactly, polygon rings, coordinate system, and every attribute all features share, under its (format-limited) name with its value. Nothing that happens in the process afterwards changes them, and a later write under the same name, also over what an interrupted write left, takes full effect.",
  ["histories", "crash_points", "inputs"],
  "for all lists of equal-typed geometries, attribute sets with any key order, single- and many-geometry writers, all histories of writes, overwrites, reads, collections and process deaths during or right after a write",
  "the tests write and read a couple of fixed geometries within one process; completeness at return and after crashes is never observed",
  ["karta/vector/_shp.py", "karta/vector/read.py", "karta/vector/geometry.py"],
  [("writers that close the data source before returning", "karta/vector/_shp.py:write_shapefile"),
   ("feature and field conversion", "karta/vector/_shp.py"),
   ("reader", "karta/vector/read.py:read_shapefile")],
  observe=["write_shapefile", "Geometry.to_shapefile", "read_shapefile"],
  quick=(1400, 300), thorough=(40000, 3000),
  rule="a run is a history of 2-6 writes/crashed writes/reads/collections/drops over up to 3 stems and 3 generated feature lists; distinct = (class of document: type, CRS, feature count, vertex counts, attribute count) and (crash step, torn bytes) pairs met",
  step=DISK_STEP, real=DISK_REAL, stub=DISK_STUB, assumptions=DISK_ASSUME)

P("C03", "GeoJSON, GPX and ASCII grid files are faithful once written",
  "When writing to GeoJSON, GPX or an ASCII grid returns, the file as the process would leave it if it died at that moment reads back as what was written, to the precision of the format: geometry type, vertices (in longitude/latitude where conversion is asked for), holes, properties, per-point data rows; waypoints, tracks and routes with their properties; cell values, nodata cells and position. Later events in the process do not change it, and a later write under the same name, also over what an interrupted write left, takes full effect.",
  ["histories", "crash_points", "inputs", "configurations"],
  "for all geometries of all six types, GPX documents and single-band unskewed grids, all writer options (indentation, CRS conversion, path or open file, corner or center reference), and all histories of writes, overwrites, reads, collections and process deaths",
  "the tests compare fixed strings for a few geometries; they do not read back through the public readers, nor overwrite, nor crash",
  ["karta/vector/_geojson.py", "karta/vector/_gpx.py", "karta/vector/read.py", "karta/raster/_aai.py", "karta/raster/grid.py", "karta/vector/geometry.py"],
  [("GeoJSON conversion", "karta/vector/_geojson.py, karta/vector/read.py"),
   ("GPX document", "karta/vector/_gpx.py"), ("ASCII grid writer and reader", "karta/raster/grid.py:to_aai, karta/raster/_aai.py")],
  observe=["Geometry.to_geojson", "read_geojson", "GPX.writefile", "read_gpx_waypts/read_gpx_tracks", "RegularGrid.to_aai", "read_aai"],
  quick=(1600, 300), thorough=(60000, 3000),
  rule="a run is a history of 2-6 writes/crashed writes/reads/collections/drops of one of the three formats; distinct = (format, class of document) and (crash step, torn bytes) pairs met",
  step=DISK_STEP, real=DISK_REAL, stub=DISK_STUB, assumptions=DISK_ASSUME)

P("C04", "A storage failure during a write is reported and contained",
  "If storage fails while a file is being written (the disk is or becomes full, files cannot be created, writes keep failing; for the text formats also a single failing write or close), the writer either raises an error that is the failure and not an accident of handling it, or returns with the complete document on disk. No other file and no object in memory changes, now or at a later collection, and once storage is healthy the same document can be written over the remains and reads back complete.",
  ["fault_sequences", "histories", "inputs"],
  "for all documents of the five formats, every point of the write at which storage starts to fail, every kind of failure listed, and all histories of failed and successful writes of several files",
  "the tests never make a write fail",
  ["karta/raster/_gdal.py", "karta/vector/_shp.py", "karta/vector/geometry.py", "karta/vector/_gpx.py", "karta/raster/grid.py"],
  [("closing and checking before returning", "karta/raster/_gdal.py:write; karta/vector/_shp.py"),
   ("file handling of the text writers", "karta/vector/_geojson.py:to_geojson; karta/vector/_gpx.py:writefile; karta/raster/_aai.py")],
  observe=["all writers"],
  quick=(1600, 300), thorough=(60000, 3000), level="fault_enumeration",
  rule="a run is a history of 1-3 faulted writes with rewrites, reads and collections; distinct = (format, fault kind, the file and the ordinal of the call struck, outcome)",
  step=DISK_STEP, real=DISK_REAL, stub=DISK_STUB,
  assumptions=DISK_ASSUME + ["for GeoTIFF and shapefiles the failure is disk-wide and persistent: GDAL itself drops a single failed call on one of several files (recorded as known findings where met)"])

P("C05", "Readers never take damaged input or failing reads for good data",
  "Reading a valid file that was cut short at any point, or reading it while the disk returns errors or unexpected ends of file, either raises an error or returns the full original content, never a part of it or something else. A disk that merely delivers data in small pieces changes nothing. Once the input is whole and the disk healthy again, the same process reads the full content.",
  ["fault_sequences", "inputs", "histories"],
  "for all documents of the five formats, all truncation points of the main data file (for shapefiles .shp and .shx), all points at which reading starts to fail, and sequences of such events within one process",
  "the tests read only intact files from a healthy disk",
  ["karta/raster/_gdal.py", "karta/raster/_aai.py", "karta/vector/read.py", "karta/vector/_gpx.py", "karta/vector/_shp.py", "karta/vector/_geojson.py"],
  [("GDAL band reads turned into exceptions", "karta/raster/_gdal.py"), ("ASCII grid parser", "karta/raster/_aai.py"),
   ("GPX, GeoJSON and shapefile readers", "karta/vector/read.py")],
  observe=["read_geotiff, from_geotiffs", "read_aai", "read_shapefile", "read_geojson", "GPX, read_gpx_*"],
  quick=(1100, 300), thorough=(40000, 3000), level="fault_enumeration",
  rule="a run damages or disturbs 1-5 times the reading of one generated document; distinct = (format, cut position or fault kind with offset struck, outcome)",
  step=DISK_STEP, real=DISK_REAL, stub=DISK_STUB,
  assumptions=DISK_ASSUME + ["a cut inside the last number of an ASCII grid, or of trailing white space, leaves another valid file and is not counted; single transient read errors on GeoTIFF are retried or ignored inside GDAL and are not claimed",
                             "the .dbf and .prj of a shapefile are not cut: OGR reads what is left of them without complaint"])

P("C06", "A grid opened without loading it answers like the same grid in memory",
  "A grid opened from a GeoTIFF with deferred reading gives for every read-only use the same answer as the grid loaded into memory: indexing, masks, iteration, statistics, sampling, resampling, clipping, chunking, merging, copying, derived grids and errors. This holds in any order of uses, with several handles on one file, after the grid, other handles or the original object were dropped and collected, and for bands kept alone. A read that fails raises, and later reads give correct values again.",
  ["histories", "fault_sequences", "inputs"],
  "for all GeoTIFFs written by karta (types, layouts, compressions, bands), all sequences of open, query, keep a band, drop, collect, and failing reads at any call",
  "the tests open one file and compare a few values; lifetimes, several handles, collections and failing reads are not exercised",
  ["karta/raster/_gdal.py", "karta/raster/band.py", "karta/raster/grid.py"],
  [("deferred band", "karta/raster/_gdal.py:GdalFileBand"), ("uniform band interface", "karta/raster/band.py:BandIndexer")],
  observe=["read_geotiff(in_memory=False)", "from_geotiffs(in_memory=False)"],
  quick=(2400, 300), thorough=(60000, 3000),
  rule="a run is a history of 4-10 opens/queries/faulted queries/drops/collections on one file; distinct = (query, type, bands, compression, layout, raised or not) and (query, fault, position, outcome)",
  step=DISK_STEP, real=DISK_REAL, stub=DISK_STUB, assumptions=DISK_ASSUME)

exec(open(os.path.join(ROOT, "tools", "meta2.py")).read())

props = open(os.path.join(ROOT, "properties.jsonl"), "w")
tiers, checks, na = {}, [], []
for p in PROPS:
    props.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
    id, c = p["prop"]["id"], p["cfg"]
    if p["na"]:
        na.append({"property": id, "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(ROOT, "sim", "props", id.lower() + ".py")):
        na.append({"property": id, "reason": "its simulation is not built yet"})
        continue
    level = c.get("level", "exploration")
    tiers[id] = {"quick": {"runs": c["quick"][0], "seconds": c["quick"][1]},
                 "thorough": {"runs": c["thorough"][0], "seconds": c["thorough"][1]}, "level": level,
                 "evidence": {k: c[k] for k in ("rule", "step", "real", "stub", "assumptions")}}
    checks.append({"property": id, "quick_cmd": "python3 check.py %s --tier quick" % id,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % id,
                   "technique": c.get("technique", "deterministic simulation with fault injection: seeded search over histories and faults against a reference model"),
                   "level": level,
                   "level_note": "%d seeded simulated runs (quick) of the real code, each repeatable from its seed; evidence, not proof. Assumes: %s"
                                 % (c["quick"][0], "; ".join(c["assumptions"]))})
props.close()
json.dump(tiers, open(os.path.join(ROOT, "sim", "tiers.json"), "w"), indent=1, sort_keys=True)
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is outside (LD_PRELOAD disk, sys.settrace scheduler, replaced locks, allocator fill, set order). Commits in /repo are repairs only (fix: ...), listed in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print("%d properties, %d checks, %d not applicable" % (len(PROPS), len(checks), len(na)))
