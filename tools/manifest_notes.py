"""technique and level_note of every property."""
_B = ' Holds for everything inside the stated bounds; beyond them nothing is claimed.'
NOTES = {
    'C01': ('stateless exploration of runner schedules (order, bundles, retries, combine trees) of the real pipeline graph, deviation-bounded, against single-process evaluation',
            'The graph built by define_pipeline is interpreted by our own runner; all chunkings of small grids, all schedules with one (thorough two) deviations. Trusts the runner model of Beam and the direct evaluation (decided by C05/C06/C12).' + _B),
    'C05': ('exhaustive enumeration of label sets, orders, groupings and accumulator partitions against an exact reference sum',
            'Up to three (thorough four) summands over a nine-element label-subset alphabet.' + _B),
    'C06': ('exhaustive enumeration of unit states (valid/missing/masked) and aggregator configurations against explicit loops',
            'Four evaluation units with five states each, all reduce/weight/bin/mask/skip combinations of an alphabet.' + _B),
    'C10': ('exhaustive enumeration of monotonic latitude vectors over an alphabet against the analytic cell areas',
            'All subsets of an 11-value alphabet in both directions and all regular grids up to 60 (thorough 181) points.' + _B),
    'C02': ('exhaustive enumeration of small aggregation states and of all save/load operation sequences up to length 3',
            'All names, dimension lists, dtypes of an alphabet; every sequence of up to three of seven save/load operations.' + _B),
    'C03': ('stateless exploration of runner schedules of the real unaggregated pipeline graph (Zarr store read back), all chunkings',
            'All chunkings and store chunks of small grids, all schedules with one (thorough two) deviations. Trusts the runner model of Beam and the Zarr library.' + _B),
    'C04': ('exhaustive enumeration of TimeChunks requests against a reference model',
            'All sizes up to 6 (thorough 9) and some up to 50, all chunk sizes, all indices.' + _B),
    'C09': ('exhaustive crash-point, torn-write, I/O-fault and writer-interleaving exploration of the real writer on an in-memory file system',
            'Every file system operation of the real code is a step; all single/double faults, all crash points, all interleavings of two writers (preemption-bounded for three). Assumes an atomic move.' + _B),
    'C08': ('exhaustive enumeration of coordinate alphabets (edges, date line, conventions) and of chunkings against the documented membership rule',
            'Every unit x every bin of finite alphabets of latitudes, longitudes, times, region definitions and edges; chunk membership checked for all sub-chunks.' + _B),
    'C12': ('exhaustive enumeration of small value assignments and of batch splits against exact definitions',
            'All assignments of a value alphabet (with missing values) to up to three units, all compositions into batches, all container types and dimension orders.' + _B),
    'C13': ('exhaustive enumeration of contingency tables and of batch splits against published formulas',
            'All tables with cell counts up to a bound and all per-unit assignments over {0,1,NaN}.' + _B),
    'C14': ('exhaustive enumeration of ensembles over a value alphabet, of member orders and of missing-member patterns against definitions',
            'All ensembles of up to 4 members over a small value alphabet with missing members, all permutations of members.' + _B),
    'C15': ('exhaustive enumeration of input values, thresholds and transform lists against hand-applied transforms',
            'All value alphabets around every threshold and all transform lists up to length three of an alphabet.' + _B),
    'C16': ('exhaustive enumeration of binary fields, masks, neighbourhood sizes and wrap settings against explicit neighbourhood sums',
            'All binary fields and masks of small grids, all neighbourhood sizes up to the grid, both boundary treatments.' + _B),
    'C23': ('exhaustive enumeration of grids, orders, query points (nodes, midpoints, outside, across the date line) and options against a reference interpolator',
            'Small grids in all monotonic orders, all query positions of an alphabet relative to the grid.' + _B),
    'C07': ('exhaustive enumeration of missing/masked positions (every unit, every sub-grid) for every library metric',
            'All metrics of a catalogue, all 16+ units and all sub-grids of a small domain, missing in prediction or target, masked or not, per member.' + _B),
    'C11': ('exhaustive enumeration of ordered metric pairs (and whole sets, chunk splits) of a catalogue of all library metrics',
            'All ordered pairs of a catalogue covering every metric and every value-affecting option, against the metric alone.' + _B),
    'C17': ('exhaustive enumeration of forecast/observed values around all thresholds, of times and dry fractions against the published matrix',
            'All category pairs incl. edges, all days of a leap/non-leap year, all hours, dry-fraction alphabet, masks.' + _B),
}
NOTES['C18'] = (
    'exhaustive enumeration of climatology and forecast layouts over all days of a leap year, of chunk splits, value assignments and small ensembles against reference definitions',
    'All layouts, dimension and label orders of an alphabet over all days around 2020, all splits of small time sets, all ensembles and intervals of an alphabet.' + _B)
NOTES['C19'] = (
    'exhaustive enumeration of requests, loader options, sources, chunkings and request histories against the stored values',
    'All loaders and options over one small store per kind; ordered time subsets up to two (plus some), all request histories of length two (thorough three).' + _B)
NOTES['C20'] = (
    'exhaustive enumeration of run sets, latencies, requested times, wrapped-loader pairs, options and request histories against a reference choice of runs',
    'All run sets and latencies of an alphabet, all requests around every availability, ordered request pairs, loader pairs and request histories.' + _B)
NOTES['C21'] = (
    'exhaustive enumeration of requests, file partitionings, observation placements around every boundary, duplicate sets and missing patterns against a row-by-row reference selection',
    'A store of observations around hour/day/month/year ends, all request forms and options, all duplicate sets up to three rows.' + _B)
NOTES['C25'] = (
    'exhaustive enumeration of all outcomes of the random draws (full factorial design injected at numpy.random) for small numbers of units',
    'All draws for two to four units, all clusterings, block lengths 1, 2, 4 (exact distribution compared), all levels and nulls around the resampled values; every library metric with all draws of two units. Automatic block lengths rely on the arch library.' + _B)
NOTES['C26'] = (
    'exhaustive enumeration of series over value alphabets, weights, methods, levels, null values and unit spacings against double precision formulas',
    'All series of up to 8 (thorough 10) units over an alphabet; compared in single precision where well conditioned.' + _B)
NOTES['C27'] = (
    'exhaustive enumeration of library metrics, layouts, weights and small series against closed forms and double precision difference quotients',
    'All metrics of a catalogue in four layouts; single precision tolerance; kinks left out.' + _B)
NOTES['C28'] = (
    'exhaustive enumeration of metric pairs, variable sets, confusing names, comparisons and inference methods against comparisons written by hand; decoding of resampled units for pairing',
    'All library metrics, all ordered variable sets of up to three, all inference methods.' + _B)
NOTES['C22'] = (
    'exhaustive enumeration of stage subsets, containers, lazy/in-memory data, data types and value/missing patterns on recording stages against a stage-by-stage reference',
    'All subsets of five stages, all patterns of three values (thorough four) for two variables, all pairs of seven data types, all pairs of dimension layouts, library interpolations with references.' + _B)
NOTES['C24'] = (
    'exhaustive exploration of operation histories on shared objects (every operation alone in a fresh process, then all ordered pairs adjacent in one history), with fingerprints of all inputs after every step',
    'Worlds for loaders, sparse stores, interpolation, transforms, binning and weighting, aggregation states, inference, chunking and all library metrics in up to six layouts; all pairs in the main layout of each world (thorough: of every layout), two sweeps in the others.' + _B)

NOTES['C29'] = (
    'exhaustive enumeration of container trees up to a depth and width, of pairs of trees, function kinds and dimension subsets against an explicit recursion',
    'Trees of depth two (thorough three) and width two over Dataset/dict/list/tuple and five kinds of leaves; slices of arrays with up to three dimensions.' + _B)
NOTES['C30'] = (
    'exhaustive enumeration of probability/outcome vectors, thresholds, ratios and selections against the cost-loss model by enumeration of decisions',
    'All ensembles of up to 3 (thorough 4) members on up to 3 (thorough 4) events, all ordered threshold lists of up to three from an alphabet, all forms of selections.' + _B)
NOTES['C31'] = (
    'exhaustive enumeration of sets and orders of result files against a per-label lookup in the input files',
    'All ordered sets of up to three files of an alphabet of contents and models, all metrics, variables and regions of the script once.' + _B)
NOTES['C32'] = (
    'exhaustive enumeration of flag combinations of the evaluation scripts on small real stores, result files read back and compared with scores computed by loops from the raw data',
    'One small world per prediction kind; all targets, time and lead requests, chunk sizes, latitude orders of an alphabet; all entries of the public configuration.' + _B)
NOTES['C33'] = (
    'exhaustive enumeration of menu selections and of histories of selections and toggled curves on the application callbacks behind recording stand-ins for the user interface libraries',
    'All menu combinations of two small data sets, all histories of up to four (thorough five) events; dash and plotly are not installed and are replaced by stand-ins.' + _B)
