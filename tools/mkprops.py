import json
S="src/earthkit/regrid/"
def P(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f if not f.startswith("tools") else f for f in files],
        state=[dict(name=n,meaning=m,where=S+w) for n,m,w in state],
        mechanism=[dict(name=n,where=S+w if not w.startswith("tools") else w) for n,w in mech],
        observe_at=list(obs),hook_needed=hook))
ps=[
P("C01","Precomputed regridding applies exactly the weights of the matching entry",
 "For every inventory, request and input array, regridding arrays with precomputed weights returns the product of the stored weight matrix of the entry matching (input grid, output grid, method) with the input values taken in row-major order, in the shape the inventory gives for the output grid, together with the requested output grid. The inputs are never modified, method aliases select the same weights, the deprecated interpolate() agrees with regrid(), and inventory entries this version cannot understand do not affect the others. A request without matching entry, or values of the wrong number of points, raise an error and never give a result.",
 ["inputs","programs"],"every bounded synthetic inventory (entry orders, unsupported entries, output shapes) and example inventory; every request over its grids and methods and aliases; every basis vector of the input space, and every array layout (C/F order, strided, 1-D, 2-D, read-only) and dtype",
 "Tests compare a handful of stored fields with assert_allclose for fixed grids; they cannot show the operator is the stored one for every entry, basis vector and layout, nor that the others are unaffected by an unknown entry.",
 ["backends/precomputed.py","backends/db.py","array/regrid.py","data/numpy.py","data_interpolate.py","interpolate.py"],
 [("apply weights and reshape","backends/precomputed.py MatrixBackend.regrid/interpolate"),("entry lookup, method alias","backends/db.py MatrixDb.find_entry, MatrixIndex.find"),("index loading tolerates unknown entries","backends/db.py MatrixIndex.load")],
 [("index","loaded entries of the inventory","backends/db.py MatrixDb._index")],["return value or exception of array.regrid()/interpolate()"]),
P("C02","The result of a regrid call does not depend on what was called before",
 "For every history of regrid calls over several inventories, grids and methods, interleaved with changes of the memory-cache configuration, clearing of the cache and failing calls, each call gives the same result as the same call made first in a fresh process. In particular weights of one inventory are never used for a request to another one, and modifying a returned array never changes a later result.",
 ["histories"],"all sequences up to a depth of regrid/interpolate/config/clear/failing calls over inventories that hold different weights under the same grids and method",
 "Tests make one call per inventory; the state that leaks between calls (backend objects, indexes, memory cache) is only visible on particular sequences.",
 ["backends/__init__.py","backends/db.py","utils/memcache.py","backends/precomputed.py"],
 [("memory cache key holds request and inventory","utils/memcache.py MemoryCache.get"),("backend object per name and arguments","backends/__init__.py BackendMaker")],
 [("items","weights held in memory","utils/memcache.py MemoryCache.items")],["return value or exception of every call of the history"]),
P("C03","The weights memory cache obeys its policy, size limit and counters",
 "After every sequence of requests, configuration changes and clears, the memory cache reports exactly the hits, misses, number and total size of the weights it holds under the configured policy: what it holds never exceeds the size limit, the evicted weights are the largest (or the least recently used) ones and no more of them than needed, weights that cannot fit do not displace the others, and nothing is held with the policy off. In strict mode weights that cannot fit raise an error; otherwise the request is still answered correctly.",
 ["histories","configurations"],"all sequences up to a depth over requests for matrices of different sizes, policies {largest, lru, unlimited, off}, limits, strict mode, clear; compared at each step to a reference model",
 "Tests follow a few scripted sequences with one matrix size order; eviction choices depend on the whole history and configuration.",
 ["utils/memcache.py","utils/matrix.py","utils/config.py"],
 [("eviction","utils/memcache.py LRUPolicy.reduce, LargestPolicy.reduce"),("pre-check and strict mode","utils/memcache.py MemoryCache._create_with_pre_check"),("configuration updates","utils/memcache.py MemoryCache.update")],
 [("curr_mem, hits, misses","accounting reported to the user","utils/memcache.py MemoryCache")],["memory_cache_info()","result of requests"]),
P("C04","Concurrent regrid calls in one process give the results of sequential ones",
 "Under every interleaving of threads that regrid arrays or labelled arrays, compute the chunks of lazily regridded arrays, change the memory-cache configuration, clear or inspect the cache, each call gives the result of the same call made alone, no call fails or blocks for ever, and the counters of the memory cache stay consistent with the calls made. The cache never reports more than its limit nor a size different from the sum of what it holds.",
 ["schedules"],"all interleavings of 2-3 threads up to a preemption bound at source-line granularity of the library, over a set of small programs that share inventory, index and cache",
 "The tests contain no multi-threaded regrid; a race needs a specific preemption in a window of a few lines.",
 ["backends/db.py","utils/memcache.py","utils/config.py","backends/__init__.py"],
 [("cache lock","utils/memcache.py MemoryCache.lock"),("index published when complete","backends/db.py MatrixDb._load_index"),("config lock","utils/config.py CONFIG_LOCK/forward")],
 [("items, index, backend objects","shared between threads","utils/memcache.py, backends/db.py, backends/__init__.py")],["results and exceptions of each thread, memory_cache_info() at the end, termination"]),
P("C05","The disk cache does what its policy says for every history of operations",
 "For every history of cached-file requests (creating, reusing, forced refresh, failing creation), purges, size checks, configuration changes and external deletions, a cached-file request returns an existing file with the content created for exactly its owner, arguments and extension, creating it only when it is not there or a refresh is asked for. The reported entries, their number and total size are exactly the files held; when the total exceeds the configured maximum the least recently used entries are removed, no more than needed and never the newest one; a purge removes exactly the entries asked for. Nothing outside the current cache directory is ever removed.",
 ["histories","configurations"],"all operation sequences up to a depth over 3 keys of different sizes and kinds (file, directory), policies {user, temporary, off}, size limits, and cache-directory switches, compared at each step with a reference model",
 "Tests check single operations and a few policy switches; eviction order, refresh and purge depend on the history.",
 ["utils/caching.py","utils/temporary.py","utils/config.py"],
 [("request, refresh, creation","utils/caching.py cache_file"),("eviction","utils/caching.py CacheManager._decache/_check_cache_size"),("policy objects","utils/caching.py CachePolicy and subclasses, Cache._config_changed")],
 [("cache table","entries known to the cache","utils/caching.py CacheManager.connection")],["returned path and its content, cache.entries()/size()/summary_dump_database(), directory listings"]),
P("C06","A process killed at any point leaves a disk cache that works",
 "If the process is killed at any point of any operation on the disk cache, a new process using the same cache directory gets, for every request, a file with the complete content for that request (an earlier complete version or a newly created one), never a partial one. All the cache operations keep working, and files completed before the crash remain usable.",
 ["crash_points"],"every source line of the library and of the file-lock library executed by create, refresh, evict, purge and configuration operations as a crash point, with partially written files, followed by every recovery operation in a new process",
 "Tests never kill a process; a crash window is a few lines wide.",
 ["utils/caching.py"],
 [("create aside then rename","utils/caching.py cache_file"),("database transactions","utils/caching.py CacheManager"),("lock file","utils/caching.py cache_file FileLock")],
 [("cache directory and database","state that survives the crash","utils/caching.py")],["recovery process: returned paths and contents, entries(), size(), purge()"]),
P("C07","Concurrent users of a disk cache never see missing or partial files",
 "Under every interleaving of threads and of processes that share a cache directory and request, refresh, evict or purge cached files, a request for a cached file that nobody removes returns the path of a file with its complete content; a file requested by several users at once is created once; nobody fails or blocks for ever. Afterwards the reported entries match the files in the directory.",
 ["schedules"],"all interleavings up to a preemption bound of 2-3 threads (with the cache manager thread scheduled too) and of 2 simulated processes sharing directory, database and lock file",
 "Tests are single-threaded apart from the manager thread; the races need a preemption between two specific steps.",
 ["utils/caching.py","utils/temporary.py"],
 [("file lock and check again","utils/caching.py cache_file"),("single manager thread, queue and futures","utils/caching.py CacheManager.run/enqueue, Future"),("policy lock","utils/caching.py Cache.policy/_config_changed")],
 [("queue","operations waiting for the manager thread","utils/caching.py CacheManager._queue")],["paths returned, contents, number of creations, entries() at the end, termination"]),
P("C08","Configuration values follow the documented precedence and scoping",
 "For every sequence of configuration operations, the value read for an option is the one of the innermost source that defines it: environment variable, then innermost active temporary configuration, then saved configuration, then default, converted to the documented type. Leaving a temporary configuration, normally or by an error, restores what was there before; an invalid name or value is rejected with an error and changes nothing; and each accepted change is observed by the parts of the library that depend on it before the call returns.",
 ["histories","configurations","inputs"],"all sequences up to a depth of set/get/reset/enter/leave temporary with valid and invalid names and values, one or several at a time, under each combination of environment variables and config policy, compared at each step to a reference model",
 "Tests exercise single operations; precedence and rollback depend on the nesting and on the environment.",
 ["utils/config.py","utils/humanize.py"],
 [("lookup chain","utils/config.py Config.get"),("parsing and checking of values","utils/config.py _interval/parsers, validators"),("rollback","utils/config.py rollback_on_error"),("notification","utils/config.py Config._changed, on_change")],
 [("config layers","saved, temporary and environment values","utils/config.py Config")],["config.get(), config.dump(), effects on caches, the saved file"]),
P("C09","Saved configuration survives restarts and crashes",
 "Whatever sequence of accepted configuration changes a process makes, a new process reads exactly the values saved last; temporary values and environment values are never saved, nor is anything when saving is switched off. If the process is killed at any point of a change, the library still imports and every option has either its value before or its value after the change. Processes that start or change it at the same time neither fail nor read or leave a partly written configuration.",
 ["histories","crash_points"],"every option and every accepted value kind (numbers, booleans, None, strings with special characters, sizes, paths) written and read back by a new process; every source line executed by a change as a crash point with partially flushed files",
 "Tests read values back in the same process and never crash it.",
 ["utils/config.py"],
 [("save to a new file then replace","utils/config.py save_config"),("load, unknown and malformed content","utils/config.py load_config")],
 [("config file","state that survives the process","utils/config.py")],["import of the library and config.get() in a new process"]),
P("C10","Grid lookup accepts exactly the spellings of the same grid",
 "For every pair of grids and method available in an inventory, every documented spelling of the request (letter case, list or tuple, integer or float, explicit defaults, equivalent global areas within tolerance, ordering alias, with or without shape) selects the entry of exactly these grids and this method. A request that denotes any other grid, scanning mode, ordering, area or shape never selects it but is answered by its own entry or by none, whatever the order of the entries.",
 ["inputs"],"all combinations of the spelling dimensions for each type of grid in an inventory holding near-identical neighbours (other resolution, ordering, area, scanning flags), under several entry orders, against an independently written canonical form",
 "Tests list about fifty spellings for a few grids; soundness is about all pairs of spellings.",
 ["gridspec.py","backends/db.py"],
 [("type inference and defaults","gridspec.py GridSpec.from_dict"),("equality per type","gridspec.py GridSpec.__eq__ and subclasses"),("search","backends/db.py MatrixIndex.find/match")],
 [],["identity of the weights applied by array.regrid() and of the entry found"]),
P("C11","A remote inventory is used fresh when needed and offline when possible",
 "For every history of requests, server updates, outages and restarts, a request available in the cached index is answered without contacting the server for the index, and one that is missing leads to one successful check per process, after which newly published entries are found; an index whose checksum has not changed is not downloaded again. Weights are downloaded once and then read from the cache; when the server cannot be reached, everything cached keeps working and what is not cached raises an error, now and without harming later requests.",
 ["histories","fault_sequences"],"all sequences up to a depth of {request of old/new/unknown combination, publish new version, server down/up, process restart} with an in-process model of the server, with requests logged",
 "The tests for remote inventories need the network and are not run here; they cover one happy sequence.",
 ["backends/db.py","utils/download.py","utils/caching.py"],
 [("index check and refresh","backends/db.py UrlAccessor._get_index/reload, MatrixDb.find_entry"),("cached download","utils/download.py download_and_cache")],
 [("checked once per process","whether the remote index was checked","backends/db.py UrlAccessor")],["results or exceptions of the requests, log of HTTP requests received by the server"]),
P("C12","Failed or interrupted downloads never give wrong weights and can be repeated",
 "Whatever answers the server gives while an index or weights are downloaded (errors, dropped connection, truncated or repeated content, missing headers, refused ranges, empty files, other pages), and at whatever point the process is killed, a request gives either the correct result or an error. Once the server answers normally again the same request gives the correct result, in the same or in a new process, without manual cleaning.",
 ["fault_sequences","crash_points"],"all fault assignments to at most two of the HTTP exchanges of a request, and every source line of the download path as a crash point, followed by recovery in the same and in a new process",
 "Tests have no server at all; a fault in a given exchange must be injected.",
 ["utils/download.py","backends/db.py","utils/caching.py"],
 [("download aside, resume or restart","utils/download.py download_and_cache"),("cleaning after failure","utils/caching.py cache_file"),("index checksum","backends/db.py UrlAccessor")],
 [("partial files","left by an interrupted download","utils/download.py")],["results or exceptions of the requests after faults"]),
P("C13","Weight files are decoded and inventories built without loss, or not at all",
 "Decoding a native weight file gives exactly the matrix encoded in it, for either byte order, 4- or 8-byte values and any shape, and an inventory built from it, subset, copied or merged with another one answers with that matrix and a faithful description of its grids. A file cut short at any byte, or with a wrong type tag, item size or block length, raises an error and never gives a matrix. A build that fails or is killed leaves the entries built before usable and can be repeated.",
 ["inputs","crash_points"],"all small matrices of a shape and pattern bound in every encoding variant, round-tripped by an independent encoder; every truncation length and every single-byte corruption of the structural bytes of such files; every grid type for the builder",
 "The tests of this part are skipped or use one file.",
 ["utils/mir.py","utils/stream.py","utils/builder.py","backends/db.py"],
 [("stream decoding","utils/stream.py Stream"),("matrix decoding","utils/mir.py mir_cached_matrix_to_array"),("inventory entry","utils/builder.py make_matrix"),("subset and copy","backends/db.py MatrixDb.subset_index/copy_matrix_file")],
 [],["decoded matrix, generated inventory used by array.regrid()"]),
P("C14","Regridding labelled arrays equals regridding each of their fields",
 "For every labelled array or dataset, with any number and order of extra dimensions and any memory layout, eager or chunked, any floating-point type and either backend (integers are converted, or rejected with an error), the result holds for each combination of the extra coordinates exactly the array-level result of that field. Extra dimensions, their coordinates, names and attributes are kept, the geographic dimensions, coordinates and grid description are those of the target grid, and the input is not modified.",
 ["inputs"],"all bounded combinations of dimension layouts (0-2 extra dimensions, 1-D and 2-D fields, custom dimension names), container (array, dataset of 1-2 variables), chunking, dtype, grids, backend and options",
 "The tests of this part need files that are not available and are not run here; they compare a few cases.",
 ["data/xarray.py","data/handler.py"],
 [("apply per field","data/xarray.py XarrayDataHandler.regrid"),("target geography","data/xarray.py XarrrayGeographyBuilder")],
 [],["returned xarray object"]),
P("C15","Regridding field objects and GRIB data equals regridding their values",
 "For every list of fields, single field or GRIB message, the result has one field per input field, in order, whose values are the array-level result for that field's values and grid (exactly, or within the GRIB packing precision), whose metadata describe the target grid and otherwise those of the input field, and the input is not modified. Fields whose values or metadata were changed in memory are regridded as changed. Unsupported inputs (including bytes that are not exactly one complete GRIB message), backends and target grids raise an error and never give a result.",
 ["inputs"],"all bounded combinations of field lists (0-3 fields, mixed content, sources on file and in memory), containers (list, field, bytes, buffer), target grids, methods and backends",
 "The tests of this part are not run here; they use one file and compare shapes.",
 ["data/fieldlist.py","data/grib.py","data/__init__.py","regrid.py","data_interpolate.py","data/handler.py"],
 [("field lists","data/fieldlist.py FieldListDataHandler"),("GRIB messages","data/grib.py GribMessageDataHandler"),("dispatch on the type","data/__init__.py get_data_handler")],
 [],["returned fields, messages, exceptions"]),
P("C16","Every interpolation option reaches the computing library, and only for that call",
 "For every combination of the documented options (method, nearest method, distances, number of points, area in the target grid) regridding by direct computation gives the result of the underlying library for exactly these options, for arrays and GRIB messages alike. Options and results of one call never influence another, the arguments are not modified, and unknown methods, option values or target grids raise an error.",
 ["configurations","histories"],"all combinations of the documented option values within bounds for arrays and GRIB messages, and all sequences of two calls, compared to independent direct calls of the library",
 "Tests use the default options with two methods.",
 ["backends/mir.py","array/regrid.py","data/grib.py"],
 [("options","backends/mir.py MirBackend.interpolation_options/adjust_options"),("job","backends/mir.py MirBackend.regrid/regrid_grib")],
 [],["values and grid returned, GRIB message returned"]),
P("C17","A computed weight matrix is the one of exactly the grids and options asked for",
 "For every sequence of weight matrix computations, in one process or in several that share the caches, one after the other, at the same time or after a kill, and whatever output files exist already, a computation that succeeds leaves in its output file of either format (or returns) exactly the matrix which the underlying library computes for the given input and output grids, or lists of points, and options. Otherwise it raises an error and no file at the output holds anything but a complete earlier matrix.",
 ["histories","crash","inputs"],"all sequences of two computations (three of a core) over about 40 confusable requests, kinds of output and division into processes; all kill points; all schedules of two processes up to a preemption bound",
 "The tests of this part are disabled; they look at the shape of single matrices.",
 ["utils/mir.py","utils/stream.py"],
 [("computation","utils/mir.py mir_make_matrix"),("files of points","utils/mir.py _griddef_from_latlon/mir_write_latlon_to_griddef"),("conversion","utils/mir.py mir_cached_matrix_to_file")],
 [],["matrix file written, matrix returned, exception"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps:
        assert len(p["title"])<=80,p["id"]
        n=p["statement"].count(". ")+1
        if n>3: print("sentences",p["id"],n)
        f.write(json.dumps(p)+"\n")
print(len(ps))
