R = "src/earthkit/regrid/"
DF = "interprocedural abstract interpretation of the source, path by path, with rules over the event traces"
NOTE = ("Decides the stated clauses on every abstract path of the current source reachable from the named entry points; "
        "trusts the analyser's models of library calls and its loop abstraction. Not a proof of the library's native parts.")
PROPS = []
def P(id, title, statement, over, text, why, mech, technique=DF, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      mech=[(n, w if w.startswith("docs") else R + w) for n, w in mech], technique=technique, note=note,
                      **({"na": na} if na else {})))

P("M01", "The in-memory weights cache is safe to use from any number of threads",
  "However many threads regrid, change options or clear the in-memory weights cache at once, no update of the cache is lost and no reader sees a half-updated cache. Threads asking for the same weights at the same time load them once. The cache never blocks itself for ever: whatever happens during a lookup, it is usable afterwards.",
  ["schedules", "inputs"], "every interleaving of lookups, option changes, clears and statistics calls, and every failure inside a lookup",
  "The tests use one thread; no test runs two lookups at once or makes a load fail while the lock is held.",
  [("one lock around every access", "utils/memcache.py:MemoryCache.get"), ("options applied under the lock", "utils/memcache.py:MemoryCache.update")])
P("M02", "Reported memory use of the weights cache is exact and bounded",
  "After any sequence of lookups, evictions, option changes and clears, the memory use the cache reports equals the summed size of the weights it holds, and with a limited policy it stays below the configured limit. Hits and misses count exactly the lookups answered from memory and the weights loaded, and clearing resets everything.",
  ["histories", "inputs", "configurations"], "every history of lookups with arbitrary weights sizes, under each policy and limit",
  "Tests follow a handful of fixed sequences with three matrix sizes; a drift that needs a particular eviction or a failing load is not sampled.",
  [("accounting", "utils/memcache.py:MemoryCache.get"), ("recount", "utils/memcache.py:MemoryCache._reduce"), ("eviction", "utils/memcache.py:LRUPolicy.reduce")])
P("M03", "Remembered weights are only reused for the identical request",
  "Weights taken from memory are the ones a fresh load for the same source grid, target grid, interpolation method and inventory would give. Two requests that differ in any of these never share an entry, and a request for which there are no weights is never remembered.",
  ["histories", "inputs"], "every pair of requests made in one process, in any order, against any inventories",
  "Tests only use one inventory per process for the grids they request, and compare results for a few grids.",
  [("cache key", "utils/memcache.py:MemoryCache.get"), ("caller of the cache", "backends/db.py:MatrixDb.find")])
P("M04", "Each in-memory cache policy evicts and refuses exactly as documented",
  "With caching off nothing is kept; unlimited keeps everything; the least-recently-used policy evicts in order of last use and the largest policy evicts the largest weights first, and only as many as needed to make room. In strict mode weights that cannot fit are refused with an error before they are loaded, and otherwise they are still returned.",
  ["histories", "configurations", "inputs"], "every history of lookups under each policy, limit and strict setting",
  "Tests exercise each policy with three matrices in one order.",
  [("policies", "utils/memcache.py:LRUPolicy"), ("policies", "utils/memcache.py:LargestPolicy"), ("room made first", "utils/memcache.py:MemoryCache._create_with_pre_check")])
P("M05", "Changes to the memory cache options take effect at once or are refused",
  "A change of the memory cache policy, limit or strict mode applies to the weights already held as soon as it is made, without a restart. Settings that make no sense together, such as a limited policy without a positive limit, raise ValueError.",
  ["histories", "configurations"], "every sequence of option changes in every cache state",
  "Tests change options in a fixed set of combinations.",
  [("configuration callback", "utils/memcache.py:MemoryCache.update"), ("validation", "utils/memcache.py:LargestPolicy.check")])
P("C01", "Option values come from the environment first, then the configuration",
  "The value of an option is that of its environment variable whenever that is set, otherwise the value of the innermost temporary configuration, otherwise the stored or default one. Whatever the source, the value is converted to the option's type by the same rules. Asking for an unknown option raises KeyError.",
  ["configurations", "histories"], "every option, every environment, and every nesting of temporary configurations",
  "Tests read a few options under a few environments; whether every option's conversion and precedence agree is not sampled.",
  [("lookup", "utils/config.py:Config.get"), ("conversion", "utils/config.py:Config._set")])
P("C02", "A configuration change is validated, stored, saved and announced as a whole",
  "A change of options is stored only if every value in it is valid; a rejected change leaves everything as it was, is not saved and nobody is told of it. An accepted change is stored, saved when automatic saving is on, and then announced to every listener; resetting brings the defaults back in the same way.",
  ["inputs", "configurations", "histories"], "every sequence of changes and resets with arbitrary names and values",
  "Tests change a few options with a few good and bad values, one at a time.",
  [("set", "utils/config.py:Config.set"), ("reset", "utils/config.py:Config.reset")])
P("C03", "A temporary configuration never outlives its block",
  "Options changed inside a temporary configuration apply only within its block and never reach the permanent configuration or its file. However the block ends, by returning or by any error, and even if entering it was refused, the previous configuration is in force again and listeners have been told.",
  ["histories", "crash_points", "configurations"], "every way of entering, nesting and leaving temporary configurations",
  "Tests leave the block normally or by one exception; refusals while entering and changes after an error are not tried.",
  [("temporary configuration", "utils/config.py:Config.temporary"), ("restore", "utils/config.py:new_config")])
P("C04", "Every documented option exists with a usable default and type",
  "Each option has a description, a default its own rules accept and a conversion that exists. Every option the package itself asks for is one of them.",
  ["configurations"], "every option of the table and every place that reads an option",
  "Tests read the options they need; an option that only a rare path asks for is not covered.",
  [("option table", "utils/config.py:ConfigOption")])
P("C05", "The configuration file is never left damaged",
  "Saving the configuration replaces its file in one step by a complete one; when anything goes wrong while writing, the old file is still there, whole. Every option that differs from its default is saved under its own name and is in force again at the next start, and an unreadable file leaves the defaults in force.",
  ["crash_points", "schedules", "configurations"], "every point at which writing can fail or be interrupted, and every stored configuration",
  "Tests never interrupt or fail a save.",
  [("saving", "utils/config.py:save_config"), ("loading", "utils/config.py:_init_config")])
P("C06", "Start-up uses the right configuration file and never loses one",
  "The configuration file is the one the environment names, or the usual one if it names none. A file that is there is never overwritten by looking for it or by failing to read it. If there is none, one is made from the former settings file if that can be read, which is left alone, and from the defaults otherwise. Nothing that goes wrong meanwhile stops the program or changes the process's settings.",
  ["configurations", "crash_points", "histories"], "every combination of files present, environment and failure while the package starts",
  "The package starts once per test run, in one environment; a failure while it starts is never tried.",
  [("configuration file", "utils/config.py:_init_config_file"), ("former settings", "utils/config.py:_migrate_old_config"), ("reading", "utils/config.py:_init_config")])
P("C07", "What the configuration shows is what is in force",
  "Listing or printing the configuration shows every option with the value of the innermost configuration and the environment variable that overrides it, if any. Saving it under another name saves that same configuration there. None of this changes, saves over or announces anything.",
  ["configurations", "histories"], "every configuration, temporary or not, and every set of environment variables",
  "Tests print one configuration without looking at it.",
  [("listing", "utils/config.py:Config.dump"), ("environment", "utils/config.py:Config.env"), ("saving as", "utils/config.py:Config.save_as")])
P("D01", "A file in the disk cache is always complete, and made only once",
  "A cached file appears under its name only once it is complete, whatever fails or is interrupted while it is made. Concurrent requests for the same file make it once, the others wait for it and get the same file. A failed attempt leaves nothing behind that a later request could take for the file, and the error reaches the caller.",
  ["schedules", "crash_points", "inputs"], "every interleaving of requests for the same file and every failure while making it",
  "Tests download and cache a few files one after the other; none interrupts the making of a file or asks twice at the same moment.",
  [("making a file", "utils/caching.py:cache_file"), ("registering", "utils/caching.py:CacheManager._register_cache_file")])
P("D02", "The disk cache never removes anything outside its directory",
  "Purging, making room, housekeeping and replacing files only ever remove files below the cache directory. Files next to it with similar names, the directory itself and whatever links point to are never touched, and files the cache does not know are only adopted if they lie inside it.",
  ["inputs", "histories", "configurations"], "every path recorded in the database or found on disk, for every cache directory",
  "Tests use one temporary directory and files the cache made itself.",
  [("check", "utils/caching.py:CacheManager._ensure_in_cache"), ("removal", "utils/caching.py:CacheManager._delete_file")])
P("D03", "Every disk cache operation is carried out in order and its outcome returned",
  "Operations on the disk cache are carried out one at a time in the order requested, each with the arguments it was given, and the caller gets that operation's result or its error, never waiting for ever and never someone else's answer. With the cache off they do nothing.",
  ["schedules", "inputs"], "every interleaving of callers with the thread that owns the database",
  "Tests issue operations from one thread and do not make the manager fail.",
  [("queue", "utils/caching.py:CacheManager.enqueue"), ("request", "utils/caching.py:Future.execute")])
P("D04", "Different things never share a file of the disk cache",
  "The name of a cached file is derived from everything that identifies its contents, so requests that differ in owner, arguments, extra key or extension never get each other's file, and equal requests get the same one. Downloads are told apart by address and inventories by theirs.",
  ["inputs"], "every pair of requests for cached files",
  "Tests compare a couple of requests; a part left out of the name only shows for two that differ in just that.",
  [("naming", "utils/caching.py:cache_file"), ("downloads", "utils/download.py:download_and_cache")])
P("D05", "The disk cache keeps to its size limit and its records match the files",
  "After every new file the cache is brought below its limit by removing what was used longest ago, one entry at a time and no more than needed, never a file still being made. Sizes and last uses recorded are those of the files, removing a file removes its record, and purging removes exactly the entries asked for.",
  ["histories", "configurations", "inputs"], "every history of cached files, uses, purges and limits",
  "Tests purge and fill a small cache once or twice with fixed sizes.",
  [("limit", "utils/caching.py:CacheManager._check_cache_size"), ("records", "utils/caching.py:CacheManager._update_entry"), ("purge", "utils/caching.py:CacheManager._purge_cache")])
P("D06", "Cache policy, directory and limits follow the configuration at once",
  "Each value of the disk cache policy selects its behaviour: off keeps no record and uses a temporary place, temporary and user use the directories configured for them. A change of policy, directory or limit, permanent or temporary, is followed by the next operation without a restart.",
  ["configurations", "histories"], "every value of the cache options and every sequence of changes",
  "Tests try each policy once in a fixed order.",
  [("policies", "utils/caching.py:CachePolicy"), ("cache", "utils/caching.py:Cache")])
P("D07", "The disk cache never deadlocks",
  "No use of the disk cache, its options and its policies from any number of threads leaves threads waiting for each other. Every operation lets go of whatever it holds, whatever happens.",
  ["schedules", "crash_points"], "every interleaving of operations and every failure inside one",
  "A deadlock needs two threads to take two locks at the same time; no test runs two.",
  [("locks", "utils/caching.py:Cache"), ("queue", "utils/caching.py:CacheManager")])
P("P01", "Precomputed weights are found exactly when the inventory has them",
  "Precomputed weights are used only if their method, source grid and target grid are all the ones asked for, and none are reported only if the inventory has none that match. The spellings of a method that are documented as equal select the same weights. The weights applied are read from the file of the entry that matched.",
  ["inputs", "configurations"], "every request against every inventory, in any order of its entries",
  "Tests look up a few grids in two inventories.",
  [("search", "backends/db.py:MatrixIndex.find"), ("comparison", "backends/db.py:MatrixIndex.match"), ("aliases", "backends/db.py:MatrixDb._method_alias")])
P("P02", "Precomputed regridding is the product of the weights and all the values",
  "The result of a precomputed regridding is the product of the weights found for the caller's grids and method with all the values in order, unchanged otherwise, in the shape of the target grid and together with the target grid. Without weights ValueError naming the request is raised, never a result.",
  ["inputs"], "every array, grid pair and method",
  "Tests compare results for a few fields in one memory layout with stored references.",
  [("product", "backends/precomputed.py:MatrixBackend.regrid"), ("former interface", "backends/precomputed.py:MatrixBackend.interpolate")])
P("P03", "An inventory is loaded completely and faithfully, or not at all",
  "Loading an inventory keeps every entry whose grids this release understands, with its own name, grids and details, wherever it stands, and leaves out only the others. A list of another version is refused with ValueError. When loading fails the database is as it was before and the error reaches the caller.",
  ["inputs", "crash_points", "histories"], "every inventory list, including future ones, and every failure while reading it",
  "Tests load two valid inventories.",
  [("loading", "backends/db.py:MatrixIndex.load"), ("database", "backends/db.py:MatrixDb._load_index")])
P("P04", "Remote inventories are asked only when needed, and local ones never use the net",
  "A local inventory never causes network or disk cache access. A remote inventory is asked again only when the known list lacks the weights requested, then at most once; if its list changed, the new one replaces the old and is searched. Only the inventory the caller named is asked.",
  ["histories", "configurations"], "every sequence of requests, found or not, with the disk cache on or off and whatever it holds",
  "Tests never change the remote list between two requests nor count the downloads without a cache.",
  [("refresh", "backends/db.py:MatrixDb.find_entry"), ("remote list", "backends/db.py:UrlAccessor._get_index")])
P("P05", "An inventory's files lie where its entries say, also after copying",
  "Readers, writers and copies agree on the place of an entry's weights, which depends on its engine, version, method and name. Copying never replaces an existing file unless told to, and a dry run writes nothing. A subset has exactly the entries asked for, and a missing one is an error unless allowed.",
  ["inputs"], "every entry of every inventory, and every list of filters",
  "Tests copy or subset a couple of entries whose methods and engines are all alike.",
  [("place", "backends/db.py:MatrixIndex.matrix_path"), ("copy", "backends/db.py:MatrixDb.copy_matrix_file"), ("subset", "backends/db.py:MatrixIndex.subset")])
P("B01", "The backend and inventory used are the ones the caller named",
  "A request is answered by the backend and the inventory it names and never by one made for another request; an unknown backend raises ValueError. No inventory or ecmwf means the system one, a web address a remote one, anything else a local directory. One backend that cannot be loaded leaves the others usable.",
  ["inputs", "histories", "configurations"], "every sequence of requests with any backends and inventories",
  "Tests use one inventory per backend and never a broken installation.",
  [("registry", "backends/__init__.py:BackendMaker"), ("inventory", "backends/precomputed.py:MatrixBackend.get_db")])
P("B02", "Options and grids given by the caller reach MIR unchanged, and are only those",
  "Every interpolation option, given or by its documented default, reaches the MIR job under its own name before the job runs, for arrays and messages alike, and nothing else does; the automatic nearest method is left to MIR. The target grid is set without its area; an area is passed on in the order given, and one of another form raises ValueError before anything runs. The result is what this request's own job wrote.",
  ["inputs", "histories"], "every combination of options, areas and grids, and every sequence of requests with one backend",
  "Tests pass one or two options and compare fields where the other options make no difference; several are not passed by any test.",
  [("arrays", "backends/mir.py:MirBackend.regrid"), ("messages", "backends/mir.py:MirBackend.regrid_grib"), ("areas", "backends/mir.py:MirBackend.normalise_area")])
P("A01", "Nothing the caller passes in is changed",
  "Regridding changes nothing the caller passed: not the values, fields, messages, buffers (nor their position), xarray objects or their attributes, and not the grids, areas, lists of dimensions or options, whether the request succeeds or fails.",
  ["inputs", "histories"], "every kind of input, every form of grid and area, every backend, on success and on failure",
  "Tests use every object once and do not look at it afterwards.",
  [("arrays", "backends/precomputed.py:MatrixBackend.regrid"), ("areas", "backends/mir.py:MirBackend.adjust_options"), ("xarray", "data/xarray.py:XarrayDataHandler.regrid"), ("messages", "data/grib.py:GribMessageDataHandler.regrid")])
P("A02", "Requests that cannot be answered are refused before anything is computed",
  "Data of a kind that is not supported, a missing target grid for data that need one, and a missing backend or one that cannot handle the data raise ValueError before anything is computed. Every supported kind of data is recognised as what it is and handled. The former interface accepts no backend.",
  ["inputs"], "every kind of data, with or without a grid and a backend",
  "Tests request valid combinations and one or two invalid ones.",
  [("kinds of data", "data/__init__.py:get_data_handler"), ("interface", "regrid.py:regrid"), ("backend", "data/handler.py:DataHandler.backend_from_kwargs"), ("messages", "data/grib.py:GribMessageDataHandler.regrid")])
P("A03", "A field list is regridded field by field, each from its own data and in order",
  "Regridding a field list gives one field per input field, in the same order. Each is made from that field's own message, or its own values, source grid and metadata, with the target grid and options asked for, and its metadata name the new grid. If any field cannot be regridded, or the target is not supported, the request fails; fields are never left out. A single field gives a single field.",
  ["inputs"], "every list of fields of any kinds and grids, including mixed and empty ones",
  "Tests use lists whose fields have one grid and are compared with each other only in shape.",
  [("messages", "data/fieldlist.py:FieldListDataHandler._regrid_grib"), ("arrays", "data/fieldlist.py:FieldListDataHandler._regrid_array"), ("single fields", "data/fieldlist.py:FieldDataHandler.regrid")])
P("A04", "xarray data keep their variables and get the target's dimensions and coordinates",
  "Only the geographical dimensions, or those named by the caller, are replaced, by those of the target with its sizes. Each block is regridded from the data's own grid with the options given, and every variable is kept under its own name. The result carries the latitudes and longitudes of the grid the backend returned, along the right dimensions. Unknown or unsupported geography raises ValueError.",
  ["inputs"], "every data array and data set with any dimensions, and every target",
  "Tests regrid a few data sets with one layout to a couple of targets.",
  [("regridding", "data/xarray.py:XarrayDataHandler.regrid"), ("dimensions", "data/xarray.py:xr_geo_dims"), ("coordinates", "data/xarray.py:XarrrayGeographyBuilder.coords"), ("source grid", "data/xarray.py:XarrayDataHandler.get_in_grid")])
P("A05", "Values, grids and options each reach the backend in their own place",
  "For arrays and GRIB messages, the values, source grid, target grid, interpolation and every other option reach the backend named by the caller, each in its own place and unchanged, together with no option the caller did not give. The backend is asked once and what it returns is returned. The defaults are the linear method and MIR.",
  ["inputs"], "every request, whatever its values and options",
  "Tests give the options they compare references for; most combinations are never passed.",
  [("arrays", "data/numpy.py:NumpyDataHandler.regrid"), ("messages", "data/grib.py:GribMessageDataHandler.regrid"), ("backend", "data/handler.py:DataHandler.backend_from_kwargs")])
P("A06", "The former interpolate interface answers from precomputed weights only",
  "interpolate() always uses precomputed weights, of the inventory named by matrix_source or of the system one without it. Values, source, target and method reach the backend in their own places and its result is returned. Field lists give one field per field in order, from its own values, from the source grid given or else its own, with metadata naming the target; anything unsupported is an error.",
  ["inputs"], "every array and field list, with or without source grid and matrix source",
  "Tests compare a few fields and never mix fields of different grids.",
  [("arrays", "data_interpolate.py:NumpyDataHandler.interpolate"), ("field lists", "data_interpolate.py:FieldListDataHandler.interpolate"), ("backend", "data_interpolate.py:DataHandler.backend_from_kwargs")])
P("U01", "Values in MIR streams are read and written as MIR does",
  "Every value written to a stream is its one-byte tag followed by its bytes, most significant first (strings and blobs by their length and then all their bytes), whatever the value. Reading a kind of value back checks the tag and reads exactly the bytes that belong to it. A value of another kind, or of a kind that cannot be read, raises RuntimeError and is never taken for something else.",
  ["inputs"], "every value of every kind that can be written or read",
  "Tests write a few small values; the upper halves of the words and wrong tags are never seen.",
  [("writing", "utils/stream.py:Stream.write_unsigned_long_long"), ("reading", "utils/stream.py:Stream.read_large_blob"), ("tags", "utils/stream.py:Stream.read_tag")])
P("U02", "Matrices and lists of points are exchanged with MIR as they are",
  "A matrix cached by MIR becomes a sparse matrix with its rows, columns, indices and weights each in their own place, whatever their sizes and byte order; sizes that are not known are refused. Lists of points are written whole, in order, latitude first, under a name that depends on all of them, and appear only when complete. Making a matrix uses the grids or points and options given, puts it where asked, and refuses ambiguous requests before computing.",
  ["inputs", "crash points"], "every matrix file, list of points and way of asking for a matrix",
  "Tests cannot run MIR on every matrix layout; the ones here have one index size and byte order.",
  [("matrices", "utils/mir.py:mir_cached_matrix_to_array"), ("points", "utils/mir.py:mir_write_latlon_to_griddef"), ("names", "utils/mir.py:_griddef_from_latlon"), ("requests", "utils/mir.py:mir_make_matrix")])
P("U03", "Weights added to an inventory are found again for exactly their grids",
  "The builder stores weights in the folder and under the name in which a reader of the inventory looks for them. The name depends on both grids and the interpolation in full, so different weights never overwrite each other. The entry it adds describes the two grids each in its own place and with all their numbers; the other entries of the list stay as they were, and a list of another version is refused with ValueError.",
  ["inputs", "histories"], "every description of weights, with grids of every kind and any flags, added to any list",
  "No test runs the builder.",
  [("adding", "utils/builder.py:make_matrix"), ("grids", "utils/builder.py:regular_ll"), ("names", "utils/builder.py:make_sha"), ("place", "backends/db.py:MatrixIndex.matrix_path")])
P("U04", "Sizes, durations and percentages mean what their units say",
  "A number with a unit is that many of that unit: K, M, G, T, P of 1024 each for sizes in either case, s, m, h, d, w for durations, % for percentages. A number without a unit is taken as it is. Anything else, and a unit of another quantity, raises ValueError and never becomes a number; None is only accepted where it is allowed. Sizes are shown with their sign and in the largest unit that fits.",
  ["inputs", "configurations"], "every text, number and None given for a size, duration or percentage",
  "Tests convert a few sizes and durations; the units, spacings and wrong texts that are not listed are never converted.",
  [("numbers with units", "utils/humanize.py:as_number"), ("sizes", "utils/humanize.py:as_bytes"), ("durations", "utils/humanize.py:as_seconds"), ("shown", "utils/humanize.py:bytes")])
P("U05", "A downloaded file is fetched again exactly when it should be",
  "A file in the cache is used as it is unless checking is on, the server says the file changed, and the configuration or the caller asks for updates; then it is fetched again. With checking off the server is not asked. A caller's own decision is followed. A fetch writes to the file the cache asks for and keeps what the server said about it, and files of this machine are used in place. Options and the configured timeout reach the download.",
  ["configurations", "histories", "inputs"], "every combination of the settings, the caller's options and the server's answers",
  "The tests have no network: no test downloads, checks or refreshes a file.",
  [("download", "utils/download.py:download_and_cache")])
P("U06", "Two grids are the same exactly when they have the same points",
  "Grids of different kinds, increments, names, shapes or scanning are never taken for the same. Regular and reduced Gaussian grids are the same when their areas agree, or when both cover the whole globe and start at the same longitude, so a band is never taken for the globe. A grid is the same as itself however it is spelled, and `!=` says the opposite of `==`.",
  ["inputs"], "every pair of grids of every kind, with any areas, increments, names, numbers and flags",
  "Tests compare listed pairs of grids; the areas, flags and spellings that are not listed are never compared.",
  [("equality", "gridspec.py:GridSpec.__eq__"), ("regular grids", "gridspec.py:LLGridSpec.__eq__"), ("reduced grids", "gridspec.py:ReducedGGGridSpec.is_global_ns"), ("HEALPix", "gridspec.py:HealpixGridSpec.__eq__")])
P("U07", "A grid is read as what was described, or refused",
  "The description of a grid is read as the kind its increments or name stand for, and a description of no known kind raises ValueError. Everything that was said about the grid is kept, and only what was not said is filled in: the flags, and the whole globe as the area. The description itself stays as it is. The number in a grid's name is the number of the grid, and impossible ones are refused.",
  ["inputs"], "every description of a grid, with any increments, names, areas and flags",
  "Tests read the grids of the inventory; other names, areas and increments are never read.",
  [("reading", "gridspec.py:GridSpec.from_dict"), ("kinds", "gridspec.py:GridSpec._infer_spec_type"), ("whole globes", "gridspec.py:LLGridSpec.GLOBAL_AREAS"), ("names", "gridspec.py:ReducedGGGridSpec._inspect_grid")])
P("X01", "Interpolated values are those the interpolation method defines",
  "For every field, pair of grids and method the regridded values are those the method defines: a constant field stays constant, linear interpolation is exact for what is linear, and averages over grid boxes conserve the mean, up to rounding.",
  ["inputs"], "every field and pair of grids",
  "Tests compare a few fields with stored references.",
  [("weights applied", "backends/precomputed.py:MatrixBackend.regrid"), ("weights computed", "backends/mir.py:MirBackend.regrid")],
  na="The numbers come from weights files and from the compiled MIR library, neither of which is source in this repository, and from floating-point sums; no static argument over the Python source bounds them. What the Python side decides (which weights, applied to which values, in which order and shape) is P01-P05 and A01-A06.")
P("X02", "Weights and lists that were downloaded are the ones that were published",
  "A file fetched from an inventory is byte for byte the one its owner published, or the request fails.",
  ["faults"], "every fault of the network and server",
  "Tests download a few files over a working network.",
  [("download", "utils/download.py:download_and_cache")],
  na="The transfer, its resumption and its length checks happen inside the multiurl package, and the inventories publish no checksum the code could compare, so there is no construct in this source that a static rule could require. How a finished or failed download enters the cache is D01-D06.")
P("X03", "Regridding with remembered weights takes no longer than loading them anew",
  "A lookup answered from memory is never slower than reading the weights again, and the caches' own upkeep stays negligible however many entries they hold.",
  ["histories"], "every history of requests",
  "Tests do not measure time.",
  [("lookup", "utils/memcache.py:MemoryCache.get"), ("upkeep", "utils/caching.py:CacheManager._housekeeping")],
  na="A statement about run time: it depends on the interpreter, the file system and SQLite, which a static analysis of this source cannot bound.")
