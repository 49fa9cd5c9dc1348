#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["bathygrid/" + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every added sounding is kept exactly once, in its tile, under its source",
  "After any sequence of adding sources, removing sources, gridding, saving and reloading, the grid holds exactly the soundings of the sources that are currently added: each one once, with unchanged values, attributed to the source it came from, in the tile whose half-open area (lower edges included, upper edges excluded) contains it. The point count, source list, tile count and emptiness the grid reports agree with that. Growing the grid in any direction keeps the soundings already in it.",
  ["histories", "inputs", "configurations"],
  "all histories of add/remove/grid/save/reload over distinct source names with finite coordinates, all grid types, backends, tile sizes and data fields",
  "tests add one fixed regular point set and remove it again; they never mix growth in several directions, partial removal, re-adding and reloading, nor points on tile edges",
  ["bgrid.py", "grids.py", "tile.py", "backends.py", "utilities.py"],
  [("binning points into tiles", "bathygrid/bgrid.py:_add_points_to_tiles, bathygrid/utilities.py:bin2d_with_indices"),
   ("re-placing existing tiles when the grid grows", "bathygrid/grids.py:_build_grid, bathygrid/bgrid.py:_update_tiles"),
   ("per source index ranges inside a tile", "bathygrid/tile.py:add_points/remove_points")],
  [("tile points", "structured array of soundings", "tile.data"), ("source ranges", "source name to slice of the tile points", "tile.container")],
  ["tile contents after every operation"])
p("C02", "Mean gridding returns the average of exactly the soundings in each cell",
  "After gridding with the mean method, the depth of every cell is the arithmetic mean (rounded to the millimetre) of the depths of the soundings inside that half-open cell, its density is their number, and its vertical and horizontal uncertainty (when the soundings carry them) are the means of theirs. Cells without soundings have no value and zero density. This holds for the layers the grid returns whatever the order, batches or removals that produced the soundings.",
  ["inputs", "histories", "configurations"],
  "any sounding set (edge points, duplicates, one or thousands per cell, negative/large coordinates), any power of two resolution up to the tile size, any field set, any prior add/remove history",
  "tests grid one symmetric ramp of points with one or few points per cell and compare a few values",
  ["algorithms.py", "tile.py", "bgrid.py", "utilities.py"],
  [("sort/reduceat mean per cell", "bathygrid/algorithms.py:np_grid_mean"), ("cell index bookkeeping", "bathygrid/tile.py:grid")],
  (), ["returned layers and tile layers against a per cell reference model"])
p("C03", "Shoalest gridding returns the shoalest sounding of each cell and its uncertainty",
  "After gridding with the shoalest method, the depth of every cell is the smallest depth value (rounded to the millimetre) among the soundings inside that half-open cell, its density is their number, and its uncertainties are those of one sounding of that cell that has this smallest depth. Cells without soundings have no value and zero density.",
  ["inputs", "histories", "configurations"],
  "any sounding set including ties, equal depths in different cells and negative depths; any prior add/remove history, any power of two resolution up to the tile size",
  "tests use points whose storage order equals depth order, so index mix-ups between soundings and cells are invisible",
  ["algorithms.py", "tile.py", "bgrid.py"],
  [("minimum per cell and index of the shoalest point", "bathygrid/algorithms.py:np_grid_shoalest")],
  (), ["returned layers and tile layers against a per cell reference model"])
p("C04", "Regridding after any history equals gridding the current soundings from scratch",
  "Whatever sequence of additions, removals, earlier griddings, method switches (clearing first) and reloads came before, a full or an update regrid leaves, at the resolution it used, exactly the surface and the list of resolutions that a new grid built from the currently held soundings would have. No value computed from a removed source, an outdated sounding set or another method survives in those layers.",
  ["histories", "configurations"],
  "all interleavings of add/remove/grid(full|update, fixed or automatic resolution per tile)/reload; update regrids use the same settings as the grid they update",
  "tests run at most one add or remove followed by one regrid and look at a handful of values",
  ["bgrid.py", "tile.py", "backends.py"],
  [("changed-tile flag", "bathygrid/tile.py:point_count_changed"), ("cell index reuse with -1 for new points", "bathygrid/tile.py:grid"), ("update option", "bathygrid/bgrid.py:_grid_regular")],
  [("changed flag", "tile has soundings that are not in its surface", "tile.point_count_changed")], ["surface and resolution list after each grid call"])
p("C05", "The order of additions and add/remove detours do not change the result",
  "Two grids that end up holding the same sources have the same soundings per tile and source, the same surface after gridding, and the same coordinate system, vertical reference, mean depth and source names, no matter in which order the sources were added or which other sources were added and removed in between. Removing a source undoes adding it.",
  ["histories", "inputs"],
  "all permutations of the sources and all interleavings with sources that are later removed",
  "tests use a single order",
  ["bgrid.py", "grids.py", "tile.py"],
  [("range bookkeeping on removal", "bathygrid/tile.py:remove_points"), ("tile re-placement", "bathygrid/grids.py:_build_grid")],
  (), ["differential between two histories"])
p("C06", "A saved grid loads back as the same grid",
  "Saving a grid to a folder and loading that folder, also after the folder was moved or copied elsewhere, gives a grid with the same soundings, sources, layers at every resolution, pending-change state and metadata, and saving does not change the grid that was saved. The loaded grid then behaves like the original: the same further additions, removals and griddings lead to the same result, also when it is saved again to another folder.",
  ["histories", "configurations", "inputs"],
  "all grid types and backends, grids with and without surface, partly regridded, emptied, multi resolution, after any history",
  "tests save one fixed grid per type and compare a few attributes; no operation is run on the loaded grid compared to the original",
  ["backends.py", "convenience.py", "bgrid.py", "grid_variables.py"],
  [("metadata json and array folders", "bathygrid/backends.py:_save_bathygrid_metadata/_save_tile_data"), ("lazy load", "bathygrid/backends.py:_load_tile_data")],
  (), ["load_grid of the saved folder against the original"])
p("C07", "A grid with an output folder is complete on disk after every operation",
  "For a grid created with an output folder, after each completed addition, removal, gridding or save the folder alone is enough: loading it gives the same soundings, sources, layers and metadata as the object in memory, without an explicit save. A process that stops between two operations and continues from the folder ends with the same grid as one that never stopped, and nothing that was removed reappears.",
  ["crash_points", "histories"],
  "every boundary between operations of any history as the point where the process stops, all grid types and backends with an output folder",
  "tests reload once at the end of a fixed script",
  ["backends.py", "bgrid.py"],
  [("per tile save and reload", "bathygrid/backends.py:_save_tile/_load_tile"), ("metadata save", "bathygrid/backends.py:_save_grid")],
  (), ["load_grid(folder) after each operation against the live object and a never reloaded twin"])
p("C08", "The storage backend does not change any result",
  "The same sequence of operations gives the same soundings, layers, resolutions, statistics and metadata whether the grid lives in memory or on disk, and whether it uses the numpy or the zarr backend.",
  ["configurations", "histories"],
  "any history, run side by side on memory/numpy-disk/zarr-disk",
  "tests run each backend on its own fixed script",
  ["backends.py", "maingrid.py"],
  [("backend classes", "bathygrid/backends.py:NumpyGrid/ZarrGrid"), ("grid classes", "bathygrid/maingrid.py")],
  (), ["differential between backends"])
p("C09", "Tile size, grid type and position do not change the surface",
  "At a fixed resolution the gridded surface depends on the soundings only: single resolution and variable resolution grids and all tile and subtile sizes that are multiples of the resolution give the same value for each cell. Moving all soundings by a whole number of tiles moves the surface with them and changes nothing else.",
  ["configurations", "inputs"],
  "all pairs of tilings and both grid types for the same soundings and resolution; translations exactly representable in the coordinates",
  "each test uses one tiling",
  ["bgrid.py", "grids.py", "tile.py", "maingrid.py"],
  [("cell edges per tile", "bathygrid/tile.py:new_grid"), ("layer assembly", "bathygrid/bgrid.py:get_layers_by_name")],
  (), ["differential between tilings"])
p("C10", "Parallel gridding equals sequential gridding",
  "Gridding with the parallel option gives the same layers, resolutions, change flags and files on disk content as gridding without it, for full and update regrids, fixed and automatic resolution, any number of tiles relative to the number of workers.",
  ["schedules", "histories", "configurations"],
  "any grid and history; real cluster with several worker processes, tile counts below, equal and above the worker count",
  "tests compare two or three values on one grid",
  ["bgrid.py", "backends.py"],
  [("batching of tiles to workers", "bathygrid/bgrid.py:_grid_parallel/_grid_parallel_worker"), ("worker function", "bathygrid/bgrid.py:_gridding_parallel")],
  (), ["differential sequential/parallel"])
p("C11", "Depth based automatic resolution follows the depth table",
  "With automatic resolution by depth, a single resolution grid uses the resolution of the first depth band whose lower limit (10, 20, 40, 60, 80, 160, 320, 640 ... m for 0.25, 0.5, 1, 2, 4, 8, 16, 32 ... m) is deeper than the mean depth of all its soundings, and a variable resolution grid does so for each subtile on its own, never coarser than the (sub)tile. The reported resolutions are exactly those in use, sorted, and each tile has its surface at its own resolution only.",
  ["inputs", "histories", "configurations"],
  "any depths up to the last band, including negative, zero and exactly at a band limit; any number of sources; any history; when all grids are built with cleared or updated surfaces",
  "tests use one depth range and one source",
  ["bgrid.py", "tile.py", "grid_variables.py"],
  [("lookup", "bathygrid/bgrid.py:_calculate_resolution_lookup, bathygrid/tile.py:_calculate_resolution_lookup"), ("mean depth", "bathygrid/bgrid.py:_update_mean_depth")],
  (), ["resolutions returned and surfaces present"])
p("C12", "Density based automatic resolution follows the published estimate",
  "With automatic resolution by density, each tile's resolution is the point-weighted mean over its occupied 16 m cells (tile sized cells for smaller tiles) of sqrt(2 * 5 * 1.75 / density), rounded up to the next available power of two (0.25 to 1024 m) and never coarser than the tile; when at most 75 % of those cells are occupied the depth table value for the tile's mean depth is used instead. A single resolution grid uses the coarsest of its tiles' resolutions, a variable resolution grid each subtile's own. The estimate that is asked for with another starting cell size or noise allowance follows the same definition with these.",
  ["inputs", "configurations"],
  "any sounding distribution, all grid types, tiles below and above 16 m; estimates within rounding distance of an option and mean depths exactly at a band limit are not judged",
  "tests check three fixed sets",
  ["tile.py", "bgrid.py", "grid_variables.py"],
  [("estimate", "bathygrid/tile.py:resolution_by_density"), ("coarsest of the tiles", "bathygrid/bgrid.py:resolution_by_density")],
  (), ["resolutions returned and surfaces present"])
p("C13", "Returned layers are georeferenced correctly and hold every cell of the surface",
  "A layer returned for a resolution is a 2D array covering the whole extent with row 0 at the lowest northing and column 0 at the lowest easting, holding each cell of the surface at its place and the no-data value everywhere else; several layers requested together come back in the requested order, each identical to requesting it alone. The trimmed form is the smallest box with values, its indices and node or boundary coordinates place each value at its true position, and tile by tile retrieval with its geotransforms describes the same cells.",
  ["inputs", "configurations", "histories"],
  "any gridded surface with holes and missing tiles, also while additions or removals since the gridding are pending, single and multi resolution, all layers and layer lists, NaN and numeric no-data values",
  "tests read the layers of a full rectangular surface, where row/column and offset errors at borders and holes are invisible",
  ["bgrid.py", "tile.py"],
  [("layer assembly", "bathygrid/bgrid.py:get_layers_by_name/get_layers_trimmed/return_surf_xyz"), ("tile retrieval", "bathygrid/bgrid.py:get_tile_data/get_tiles_by_resolution")],
  (), ["arrays and coordinates against tile contents"])
p("C14", "Looking up a location returns the value of the cell that contains it",
  "Querying a layer at locations returns for each location the value of the half-open cell that contains it at the requested resolution, or, without a resolution, at the finest resolution that has a value there, and the no-data value where no cell with a value contains it. Each answer depends only on its own location, for arrays and for single numbers alike.",
  ["inputs", "configurations"],
  "any locations inside, on cell edges of, outside and at the borders of the surface; multi resolution grids; NaN and numeric no-data values",
  "tests query a few interior points of a full rectangular grid",
  ["bgrid.py"],
  [("digitize on boundaries", "bathygrid/bgrid.py:layer_values_at_xy")],
  (), ["query results against a per cell reference model"])
p("C15", "Chunks partition the surface and respect the maximum size",
  "Retrieving the surface in chunks yields, for any maximum dimension, pieces whose geotransforms place every cell of the surface exactly once at its true position with its value and no-data elsewhere, in both array orientations. No piece is wider or higher than the maximum (or one tile if that is larger) and the reported dimension is the true one.",
  ["inputs", "configurations"],
  "any tile layout with holes, any maximum dimension from below one tile to above the grid, several layers at once, single and multi resolution",
  "tests use a full square layout with one maximum",
  ["bgrid.py"],
  [("chunk split", "bathygrid/bgrid.py:_tile_chunk_indices/_split_to_approx_shape"), ("chunk assembly", "bathygrid/bgrid.py:get_chunks_of_tiles/_finalize_chunk")],
  (), ["chunks against tile contents"])
p("C16", "Exported GeoTIFFs contain exactly the surface",
  "The GeoTIFF files of an export, read back with GDAL, together contain each cell of the surface exactly once per resolution at its georeferenced position, with depth (or elevation of opposite sign), vertical uncertainty or intensity bands named accordingly, no-data elsewhere, and the grid's coordinate system. Limiting the resolution or the chunk size changes only which files the cells are in.",
  ["inputs", "configurations"],
  "any gridded surface with a coordinate system, chunk limits, sign options, backscatter and uncertainty layers",
  "tests only check that files exist",
  ["bgrid.py", "utilities.py"],
  [("export", "bathygrid/bgrid.py:_export_geotiff"), ("raster writing", "bathygrid/utilities.py:gdal_raster_create")],
  (), ["files read back with GDAL"])
p("C17", "Exported BAGs contain exactly the surface",
  "The BAG files of an export, read back, together contain each cell of the surface exactly once per resolution at its georeferenced position with positive-up elevation and the cell's uncertainty, no-data elsewhere; stored minima and maxima match the data, and the temporal extent, coordinate system and given metadata are in the file. Backscatter grids are refused.",
  ["inputs", "configurations"],
  "any gridded depth surface with vertical uncertainty and coordinate system, with or without times, chunk limits",
  "tests only check that files exist and one attribute",
  ["bgrid.py", "utilities.py"],
  [("export", "bathygrid/bgrid.py:_export_bag"), ("min/max and time metadata", "bathygrid/bgrid.py:_correct_for_layer_metadata/_set_temporal_extents")],
  (), ["files read back with GDAL and h5py"])
p("C18", "Exported CSVs contain exactly the surface",
  "The CSV of an export holds, per resolution, for each cell of the surface one row with its centre coordinates and the values of all layers (elevation positive up by default, depth positive down otherwise), and no other row carries a value.",
  ["inputs", "configurations"],
  "any gridded surface, all field sets, both sign options, single and multi resolution, backscatter",
  "tests compare the text of one small file",
  ["bgrid.py"],
  [("export", "bathygrid/bgrid.py:_export_csv")],
  (), ["file read back"])
p("C19", "Statistics agree with the surface",
  "Cell counts per resolution, coverage area, soundings per cell, soundings per square metre, their pairing with depth, and the flat lists of layer values are exactly those of the populated cells of the surface. The soundings per cell of a single-resolution surface add up to the point count.",
  ["inputs", "histories", "configurations"],
  "any gridded surface after any history, all grid types and backends",
  "tests check one full surface",
  ["tile.py", "bgrid.py"],
  [("properties", "bathygrid/tile.py:cell_count/density_*/coverage_area_*"), ("sums over tiles", "bathygrid/bgrid.py")],
  (), ["properties against a per cell reference model"])
p("C20", "A source's layer is the surface of that source's soundings alone",
  "Requesting the layer of one source from a gridded grid returns, at the resolution requested, the surface that the same gridding method gives for the soundings of that source only, and nothing for other sources' cells. It works the same for every source after any history, in memory and reloaded.",
  ["histories", "inputs"],
  "any set of overlapping sources with removals and re-additions before gridding; all grid types, backends, mean and shoalest",
  "tests query one source in one or two tiles",
  ["tile.py", "bgrid.py"],
  [("source slices of points and cell indices", "bathygrid/tile.py:_grid_algorithm_initialize"), ("query", "bathygrid/tile.py:get_layers_by_name")],
  (), ["layers against a per source reference model"])
p("C21", "Refused requests leave the grid as it was",
  "A request that the system refuses - adding a source name twice, data without fields or without coordinates, no soundings, a different coordinate system or vertical reference, gridding with another method without clearing, a resolution that is not a power of two, gridding an empty grid - raises an error and leaves soundings, sources, layers, metadata and files unchanged. The grid then continues to work as if the request had never been made.",
  ["histories", "inputs"],
  "each kind of refused request at any point of any history, all grid types and backends",
  "tests check that an error is raised, not the state afterwards",
  ["bgrid.py", "tile.py"],
  [("validation before change", "bathygrid/bgrid.py:add_points/_validate_input_data/_update_metadata/grid")],
  (), ["snapshot before and after, and a twin without the request"])
p("C22", "Metadata describes the grid",
  "The grid reports the coordinate system and vertical reference it was given, the earliest and latest time over everything added, the files of each present source, the mean depth of all its soundings (to the millimetre scale), the tile count, and extents that are aligned to whole tiles from its origin, contain every sounding and match width, height and the tile layout. The summary of attributes reports the same values for each source.",
  ["histories", "inputs"],
  "any history of adds with optional times, file lists and references and of removals; any origin with exact tile corners",
  "tests check one add",
  ["bgrid.py", "grids.py", "utilities.py"],
  [("metadata update", "bathygrid/bgrid.py:_update_metadata/_update_mean_depth"), ("extents", "bathygrid/grids.py:_adjust_extents/_build_grid"), ("attribution", "bathygrid/bgrid.py:return_attribution")],
  (), ["attributes against a reference model"])
p("C23", "Slope layers are the least squares plane of each cell's soundings",
  "For each cell with at least three soundings that are not in a line, the x and y slope layers are the gradients of the least squares plane through the soundings of that cell; cells without soundings have no slope. Slopes always reflect the current soundings after additions, removals and regridding, also after they were requested before.",
  ["inputs", "histories"],
  "cells with well-spread soundings, moderate coordinates, any history",
  "tests use one regular grid",
  ["algorithms.py", "tile.py"],
  [("plane fit", "bathygrid/algorithms.py:calculate_slopes"), ("cache invalidation", "bathygrid/tile.py:_clear_temp_data")],
  (), ["layers against an independent plane fit"])
p("C24", "The input container does not matter",
  "Adding the same soundings as a numpy structured array, a dask array with any chunking or an xarray dataset with its variables in any order gives the same grid: soundings, layers and metadata. The caller's data is not modified, and modifying it afterwards does not change the grid.",
  ["inputs", "configurations"],
  "any sounding set and field set, any chunking and variable order",
  "tests compare a few values per format",
  ["bgrid.py"],
  [("conversion", "bathygrid/bgrid.py:_convert_dataset/_validate_input_data")],
  (), ["differential between input formats"])
p("C25", "Backscatter grids carry intensity through every path",
  "A grid created for backscatter has an intensity layer in place of depth in every tile, holding what a depth grid of the same soundings would hold, in single and variable resolution, in memory, on disk and reloaded. Its sign is never flipped in retrieval or export, and BAG export is refused.",
  ["configurations", "inputs", "histories"],
  "all grid types and backends, any history, negative and positive intensities",
  "tests cover single resolution in memory only",
  ["tile.py", "bgrid.py", "maingrid.py", "backends.py"],
  [("z layer name", "bathygrid/tile.py:depth_key"), ("subgrid creation", "bathygrid/maingrid.py:_build_tile")],
  (), ["differential between backscatter and depth grid"])
p("C26", "Creating and loading grids never damages or invents a grid",
  "Creating a grid in a folder that already holds something uses a new folder next to it and leaves the existing content untouched, while an empty or missing folder is used as given. Invalid options are refused, loading a folder without exactly one grid is refused, and recognising a grid folder agrees with whether it holds a grid.",
  ["configurations", "inputs"],
  "any existing folder content, option combination and nesting",
  "tests never create into an occupied folder",
  ["convenience.py", "utilities.py"],
  [("folder creation", "bathygrid/utilities.py:create_folder"), ("validation", "bathygrid/convenience.py")],
  (), ["file system before and after"])
p("C27", "Neighbour points are the soundings near the shared tile edges",
  "For any tile, the reported neighbours are the tiles sharing an edge with it, and the neighbour points for a buffer are exactly the soundings of those neighbours that lie within the buffer of the shared edge, each once. For variable resolution grids the same holds between the large tiles.",
  ["inputs", "configurations"],
  "any tile layout with holes, any buffer, single and variable resolution, in memory and reloaded",
  "tests use a full layout and one buffer",
  ["bgrid.py"],
  [("neighbours", "bathygrid/bgrid.py:get_tile_neighbors/get_tile_neighbor_points")],
  (), ["results against a reference computation"])
p("C28", "The sign convention is applied once and to depth only",
  "Asking for positive-up values negates the depth layer of a positive-down grid and of nothing else; for grids whose vertical reference is heights (positive up) the same request returns the stored heights, and the default request returns depths. Full layers, tiles, chunks and exports agree on this for single and variable resolution grids.",
  ["configurations", "inputs"],
  "both vertical reference kinds, both sign options, all retrieval paths, depths of either sign",
  "tests use positive-down data with positive depths",
  ["bgrid.py", "tile.py"],
  [("sign handling", "bathygrid/bgrid.py:get_tile_data, bathygrid/tile.py:get_layers_by_name, bathygrid/bgrid.py:_export_csv")],
  (), ["metamorphic relation between retrieval paths"])
p("C29", "Binning and numeric helpers are exact",
  "Two dimensional binning puts each point in the half-open bin whose edges enclose it and numbers bins row by row (y first), for any edges and equally for numpy and chunked dask input. The power of two test accepts the powers of two (whole or fractional) and refuses every other whole number and everything that is not one within rounding, and time conversion to text and back is the identity for whole seconds.",
  ["inputs"],
  "any sorted edges and points within them, any chunking of either; numbers from 2^-10 to 2^40; times from 1970 to 2100",
  "tests sample a few values",
  ["utilities.py"],
  [("binning", "bathygrid/utilities.py:bin2d_with_indices"), ("helpers", "bathygrid/utilities.py:is_power_of_two/utc_seconds_to_formatted_string/formatted_string_to_utc_seconds")],
  (), ["return values against naive computation"])
p("C30", "Queries are read only",
  "No query - layers, trimmed layers, source layers, slopes, chunks, tiles, location lookups, statistics, neighbour points, summaries, exports - changes what the grid holds: soundings, layers, layer names, resolutions, change flags, metadata and the files in its folder are the same before and after, and repeating a query gives the same answer. Editing a returned array does not change the grid. (Slope layers, once asked for, stay available in memory as the code documents.)",
  ["histories", "inputs"],
  "any sequence of queries on any gridded grid, with or without additions and removals since, all grid types and backends",
  "tests never compare the state before and after a query",
  ["bgrid.py", "tile.py"],
  [("copies on retrieval", "bathygrid/tile.py:get_layers_by_name"), ("temporary source layers", "bathygrid/tile.py:_grid_algorithm_initialize")],
  (), ["snapshot before and after each query"])
p("C31", "An update regrid touches only the tiles whose soundings changed",
  "After an update regrid, tiles that gained or lost soundings since their last gridding have exactly one surface, at the new setting, and every other tile keeps the surface it had, unchanged in memory and on disk; no tile is flagged as changed any more. The grid flags pending changes exactly when some tile gained or lost soundings since it was last gridded.",
  ["histories", "configurations"],
  "any history; update with the same or another resolution than before; all grid types and backends, sequential gridding",
  "tests check the flag after one add",
  ["bgrid.py", "tile.py"],
  [("update loop", "bathygrid/bgrid.py:_grid_regular"), ("changed flag", "bathygrid/tile.py:point_count_changed")],
  (), ["tile surfaces and files before and after"])
p("C32", "Plots draw the statistics of the surface",
  "The histogram of a layer shows every value of the surface and of nothing else, in bins of equal width over the whole range, whether one resolution or all are drawn; the density curves show, per resolution, the mean density and depth of the cells of each depth interval. The tile outline is the closed outline of the tiles that hold soundings or surfaces, at their true positions.",
  ["inputs", "configurations"],
  "any gridded surface of any grid type, any number of bins, any layer and resolution",
  "tests do not look at the plots",
  ["bgrid.py"],
  [("histograms", "bathygrid/bgrid.py:plot_density_histogram/plot_z_histogram/plot_total_uncertainty_histogram"), ("curves", "bathygrid/bgrid.py:plot_density_vs_depth/plot_density_per_square_meter_vs_depth"), ("outline", "bathygrid/bgrid.py:get_tile_boundaries")],
  (), ["what is drawn on a figure that is not shown"])
p("C33", "CUBE gridding gives CUBE the right soundings and keeps what it answers",
  "For every tile, CUBE is given each sounding of the tile and of the strips of the tiles next to it once, with its own uncertainties, position, the cells of the tile and the requested parameters or the documented defaults. The surface is its answer, cell for cell, with the density of the tile's own soundings, in sequence or in parallel, full or update, and through saving and loading. The layer of a single source is the answer for the soundings of that source alone.",
  ["histories", "inputs", "configurations"],
  "any history of additions, removals, griddings and reloads, any grid type, any choice of parameters",
  "the two CUBE tests need a package and compare a handful of values",
  ["tile.py", "bgrid.py", "algorithms.py", "grids.py"],
  [("cube gridding", "bathygrid/tile.py:_run_cube_grid, bathygrid/algorithms.py:nb_cube"), ("border points", "bathygrid/bgrid.py:_grid_regular/_grid_parallel/get_tile_neighbor_points")],
  (), ["stand-in for the CUBE library and an independent selection of its input"])
p("C34", "CUBE surfaces are returned and exported like every other surface",
  "On grids gridded with CUBE, every retrieval method (whole layers, trimmed, surfaces, tile by tile, chunks, with no-data values, with either sign), lookup and statistic returns for each of the five layers exactly the values of the cells of the surface, at their place. Exported CSVs hold all layers, GeoTIFFs and BAGs the depths (or elevations) and the total uncertainty as their uncertainty, each cell once, at its place. This holds for any history, grid type, resolutions, chunk size, and after reloading.",
  ["histories", "inputs", "configurations"],
  "any CUBE surface, layer, location, no-data value, chunk size and format",
  "no test retrieves or exports a CUBE surface",
  ["bgrid.py", "tile.py", "utilities.py", "grids.py"],
  [("retrieval", "bathygrid/bgrid.py:get_layers_by_name/get_layers_trimmed/return_surf_xyz/get_tiles_by_resolution/get_chunks_of_tiles/layer_values_at_xy"), ("export", "bathygrid/bgrid.py:_export_csv/_export_geotiff/_export_bag"), ("statistics", "bathygrid/tile.py:cell_count/density_count/return_layer_values")],
  (), ["stand-in for the CUBE library, cells of the tiles placed by their origin, independent readers of the files"])
p("C35", "The raster writer and the coordinate system helper do what they are asked",
  "A raster written with gdal_raster_create, as GeoTIFF, as BAG or in memory, reads back with every value of every array in its row and column (transposed unless told otherwise), the band names, no-data value, geotransform and coordinate system it was given, and the arrays given stay as they are. crs_to_osgeo makes the same system from a pyproj system, an EPSG number or its text, a WKT or a Proj4 string, and refuses anything else.",
  ["inputs", "configurations"],
  "any shape, number of bands, type and order of arrays, no-data value, driver, creation options and coordinate system",
  "no test calls either helper on its own",
  ["utilities.py"],
  [("raster writer", "bathygrid/utilities.py:gdal_raster_create"), ("coordinate systems", "bathygrid/utilities.py:crs_to_osgeo/pyproj_crs_to_osgeo")],
  (), ["GDAL's own readers, EPSG database and pyproj's transformations"])
p("C36", "A grid with an origin of its own is the same grid, elsewhere",
  "Tiles of a grid that is made with an origin (min_x, min_y) start at that origin plus whole tiles, through growth in any direction, removals and reloading, however large the numbers are. Everything such a grid holds, returns and exports - soundings, surfaces, extents, outlines, coordinates, geotransforms of tiles and chunks, lookups, neighbours, CSV, GeoTIFF and BAG files - is that of a grid at the usual origin with the same soundings shifted, shifted back.",
  ["histories", "inputs", "configurations"],
  "any history on any grid type and backend with any tile size from 1/2 m; origins whose tile corners are exact numbers (those of other origins are a known finding)",
  "tests use the usual origin only",
  ["grids.py", "bgrid.py", "maingrid.py", "backends.py"],
  [("extents and tile corners", "bathygrid/grids.py:BaseGrid._adjust_extents/_build_grid"), ("geotransforms", "bathygrid/grids.py:TileGrid.get_geotransform, bathygrid/bgrid.py:get_geotransform/get_tile_boundaries"), ("origin kept on disk", "bathygrid/grid_variables.py:bathygrid_desired_keys")],
  (), ["the same history on a grid without an origin"])
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = [s for s in x["statement"].replace("...", "").split(". ") if s]
    assert len(n) <= 3, (x["id"], len(n))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
