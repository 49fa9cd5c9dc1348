"""How each property is decided: method, its limits, what it reaches that the tests do not."""
ORACLE = {
    'C01': ('stateful generation of histories against a reference model',
            'soundings kept, by tile and source, are compared with a model of the additions and removals after every operation',
            'histories of up to a dozen operations with growth to all sides are shrunk to the shortest that loses or moves a sounding'),
    'C02': ('generated soundings against a reference computation',
            'exactly rounded per cell sums; tolerance of one millimetre rounding',
            'edge, duplicate, large and negative coordinates are generated on purpose'),
    'C03': ('generated soundings against a reference computation',
            'ties between equally shoal soundings leave the uncertainty open between them',
            'ties and equal depths in neighbouring cells are generated on purpose'),
    'C04': ('stateful differential testing: incremental against from scratch',
            'both grids are also compared with the reference surface',
            'stale layers only show after particular interleavings of changes and griddings'),
    'C05': ('metamorphic testing: permuted histories with detours',
            'order of additions and add/remove pairs must not matter',
            'the detours leave traces only in particular orders'),
    'C06': ('stateful round trip testing: save and load',
            'snapshots before and after; files compared by content',
            'state that is not written (or written to the wrong place) shows only after continuing from the loaded grid'),
    'C07': ('stateful generation: process restarts at every point of a history',
            'restart means loading the folder; a crash inside an operation is not claimed',
            'every boundary between two operations is a stopping point'),
    'C08': ('stateful differential testing between four storage choices',
            'numpy and zarr, memory and disk play the same history',
            'differences need particular sequences, emptied tiles and odd sizes of the stored arrays'),
    'C09': ('metamorphic testing: tilings and translation',
            'translation by whole tiles is exact for the coordinates generated',
            'no test compares two tilings'),
    'C10': ('differential testing: parallel against sequential gridding',
            'a real dask cluster of processes with one to four workers; schedules are those that occur, not enumerated',
            'the tests grid one layout with one cluster'),
    'C11': ('generated depth regimes against the published rule',
            'means at a band limit within rounding are left out',
            'all bands, both sides of every limit, and changes of the mean by history'),
    'C12': ('generated soundings against a reference search',
            'the documented density rule is recomputed per tile',
            'fill ratios on both sides of 75 % and densities around each step'),
    'C13': ('generated scenes: every retrieval path against the tiles',
            'tile contents are the reference; their correctness is C02/C03',
            'holes, missing tiles and unequal resolutions decide the placing of cells'),
    'C14': ('generated locations against a cell search',
            'locations on and one float below edges included',
            'locations one float from an edge'),
    'C15': ('generated scenes: partition of the surface',
            'every cell in exactly one piece, sizes bounded',
            'all relations between maximum dimension, tile size and layout'),
    'C16': ('round trip through GeoTIFF files',
            'read back with GDAL',
            'layouts, signs and chunk sizes'),
    'C17': ('round trip through BAG files',
            'read back with GDAL and h5py',
            'layouts, chunk sizes and metadata'),
    'C18': ('round trip through CSV files',
            'parsed row by row',
            'holes, several resolutions and signs'),
    'C19': ('generated scenes: statistics against counting',
            'recomputed from soundings and cells',
            'the counts are recomputed for every surface'),
    'C20': ('generated sources: layer of a source against a grid of that source',
            'reference computation over the soundings of one source',
            'overlap and re-adding decide which soundings count'),
    'C21': ('stateful fault injection: invalid requests',
            'twin history without the invalid requests, snapshot before and after',
            'half done work only shows later in the history'),
    'C22': ('stateful generation against a model of the metadata',
            'attributes recomputed from the sources',
            'the values depend on all additions and removals so far'),
    'C23': ('generated planes and noise against a least squares reference',
            'float64 reference; bound from conditioning',
            'slopes asked for before a change must not survive it'),
    'C24': ('differential testing: ways of adding the same soundings',
            'record arrays, data sets, chunked arrays, dtypes and field order',
            'strides, chunk borders and variable order'),
    'C25': ('differential testing: backscatter against depth grid',
            'every retrieval path of both',
            'every retrieval path twice'),
    'C26': ('stateful generation of folder operations',
            'file system compared before and after each operation',
            'relative, nested, occupied and separator terminated paths in sequence'),
    'C27': ('generated layouts against a coordinate search',
            'all tiles and several buffers per layout',
            'holes and buffers of any size'),
    'C28': ('metamorphic testing: sign conventions over all retrieval paths',
            'stored surface times the sign of the convention',
            'both conventions on every path'),
    'C29': ('generated inputs against naive computation',
            'whole numbers to 2^15 enumerated',
            'bins are compared point by point, whole numbers up to 32768 completely'),
    'C30': ('stateful generation of queries: invariance of the grid',
            'snapshot and files before and after, answers repeated',
            'all pairs of queries, with pending changes'),
    'C31': ('stateful generation: update gridding against a model of the changed tiles',
            'tile surfaces, flags and files before and after',
            'which tiles changed depends on the whole history'),
    'C32': ('generated surfaces: what is drawn against recomputed statistics',
            'figures are drawn off screen and read back',
            'counts, edges and curves for any surface and number of bins'),
    'C33': ('stateful generation against a stand-in for the CUBE library',
            'the stand-in answers from every sounding and every argument it is given',
            'every sounding, argument and cell shows in the answer'),
    'C34': ('generated CUBE surfaces: differential against the cells of the tiles, files read back with independent readers',
            'truth are the cells of the tiles, placed by their origin',
            'layers that only CUBE makes through every path, at any place, chunk size and format'),
    'C36': ('stateful differential testing: grids with and without an origin',
            'the same history on both, everything held, returned and exported moved by the origin',
            'every path that turns cells into coordinates, at origins that single precision cannot hold, through growth and reloading'),
    'C35': ('round trip over generated arrays and options, differential for coordinate systems',
            'files are read back with GDAL, systems compared with its EPSG entries and with the transformations of pyproj',
            'every combination of driver, order, options and shape, values compared one by one'),
}
