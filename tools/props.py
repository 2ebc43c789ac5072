# Source of properties.jsonl (run tools/gen.py to regenerate properties.jsonl and MANIFEST.json).
S = "SmartCache/sim/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

SC = S + "cache/simpleCache.go"
Q = S + "cache/queue/"

p("C01", "A bounded cache never holds more than its configured capacity",
  "After every request served by a simulated cache of bounded size, the occupied space it reports is at least zero and at most the configured size, whatever policy is in use (lru, lfu, sizeBig, sizeSmall, random, random_lru, weighted, dataset verifier, learned). A file bigger than the whole cache is never stored, and a file that does fit is admitted by the policies that accept every miss.",
  ["histories", "inputs", "configurations"],
  "every sequence of requests (file names, positive sizes that stay constant while the file is resident, users, sites, days), every policy and every answer of its random source or agent, with and without watermarks",
  "Existing tests run one fixed list of 3-6 equal or hand-picked sizes through two caches; eviction arithmetic depends on all sizes and orders.",
  [SC, S + "cache/weightFun.go", S + "cache/randomCache.go", S + "cache/lruDatasetVerifier.go", S + "cache/aiRL.go"],
  [("admission test after making room", SC + ":UpdatePolicy"), ("eviction", SC + ":Free")],
  ["Size", "GetMaxSize", "Capacity", "GetFile return value"])

p("C02", "Occupied space equals the total size of the resident files",
  "At every moment the occupied space reported by a cache equals the sum of the sizes of the files for which a lookup answers hit, the reported number of files equals their count, and the occupied space equals the data written minus the data deleted since the cache was created. Explicitly freeing space keeps these equalities and returns exactly the amount of space given back.",
  ["histories", "inputs", "configurations"],
  "every history of requests and explicit frees (by amount and by percentage) over files whose size is constant while resident, for every policy",
  "Tests look at the final size after one scripted history; drift only shows for particular interleavings of hits, evictions and re-insertions.",
  [SC, Q + "lru.go", Q + "lfu.go", Q + "genericF.go", Q + "none.go", S + "cache/aiRL.go"],
  [("size bookkeeping on insert", SC + ":UpdatePolicy"), ("size bookkeeping on evict", SC + ":Free")],
  ["Size", "NumFiles", "Check", "DataWritten", "DataDeleted"])

p("C03", "A request hits exactly when the file is resident",
  "A lookup answers hit if and only if the file was stored by an earlier request and has not been evicted or cleared since. The stored/not-stored result returned for a request is true exactly when that request made the file resident, and a hit never stores, duplicates or removes anything.",
  ["histories", "inputs", "configurations"],
  "every history of requests, frees and clears for every policy",
  "Only a handful of lookups after a fixed history are asserted by the tests.",
  [SC, S + "cache/base.go", Q + "lru.go", Q + "lfu.go", Q + "genericF.go", Q + "none.go"],
  [("request protocol", S + "cache/base.go:GetFile"), ("membership", Q + "*.go:Check/insert/remove")],
  ["GetFile return value", "Check"])

p("C04", "LRU order: files are ranked by their last insertion or update",
  "The LRU queue always lists its files from the one whose last insertion or update is oldest (the next to be evicted) to the most recent, each file exactly once. Removing any set of files, from the worst end or from the middle, leaves the relative order of the others unchanged and does not disturb later operations; the best-first listing is the exact reverse of the worst-first one.",
  ["histories", "inputs"],
  "every sequence of insert, update, remove, remove-worst and listing operations on arbitrary file names, and every request history through an LRU cache",
  "The index hints kept per file become stale after removals; which hints are stale depends on the whole history and the tests use three or four fixed scripts.",
  [Q + "lru.go"],
  [("stale index repair", Q + "lru.go:findIndex"), ("update", Q + "lru.go:update"), ("remove", Q + "lru.go:remove, removeWorst")],
  ["queue.GetFromWorst", "queue.Get", "queue.GetWorstFilesUp2Size", "queue.Check", "queue.Len"])

p("C05", "LFU order: fewest requests first, ties by arrival in the rank",
  "The LFU queue always lists its files by non-decreasing request count as of the last insertion or update, files with equal count in the order in which they reached that count, each file exactly once. Removing any set of files leaves the order of the others unchanged; the best-first listing is the exact reverse of the worst-first one.",
  ["histories", "inputs"],
  "every sequence of insert, update (with a changed request count), remove, remove-worst and listing operations",
  "Rank lists, index hints and the sorted rank vector interact; the tests use a few fixed scripts.",
  [Q + "lfu.go"],
  [("rank vector", Q + "lfu.go:insertOrderedValue, removeOrderedValue"), ("remove", Q + "lfu.go:remove, removeWorst")],
  ["queue.GetFromWorst", "queue.Get", "queue.GetWorstFilesUp2Size", "queue.Check", "queue.Len"])

p("C06", "Size- and weight-ordered queues list files in their key order",
  "The big-first, small-first and weight queues always list their files by respectively non-increasing size, non-decreasing size and non-decreasing weight as of the last insertion or update, equal keys in order of arrival, each file exactly once. Removing any set of files leaves the order of the others unchanged; the best-first listing is the exact reverse of the worst-first one.",
  ["histories", "inputs"],
  "every sequence of insert, update (with a changed key), remove, remove-worst and listing operations with arbitrary keys",
  "Tests use a few fixed sizes; key comparisons for equal, adjacent and re-appearing keys are not sampled.",
  [Q + "genericF.go"],
  [("binary search per order", Q + "genericF.go:SizeSmall.init, SizeBig.init, Weighted.init"), ("remove", Q + "genericF.go:remove, removeWorst")],
  ["queue.GetFromWorst", "queue.Get", "queue.GetWorstFilesUp2Size", "queue.Check", "queue.Len"])

p("C07", "Freeing space evicts the shortest worst-first prefix that suffices",
  "Asking a cache to free an amount of space evicts files strictly in the policy's worst-first order and stops at the first point where the evicted total reaches the amount (or when the cache is empty); a percentage means that percentage of the configured size, and a zero or negative amount evicts nothing. Every evicted file, and only those, is gone afterwards and counted once as deleted.",
  ["histories", "inputs", "configurations"],
  "every cache content, every amount (absolute or percentage), every ordered policy",
  "Tests never call free with arbitrary amounts; boundary amounts (equal to a prefix sum) need solver-chosen sizes.",
  [SC, Q + "lru.go", Q + "lfu.go", Q + "genericF.go", Q + "none.go"],
  [("victim selection", Q + "*.go:getWorstFilesUp2Size"), ("eviction", SC + ":Free")],
  ["Free return value", "Check", "NumDeleted", "DataDeleted"])

p("C08", "Request and traffic counters are conserved",
  "Since the last reset of the statistics: requests served = hits + misses, data read = data read on hits + data read on misses = the total size of the served requests, data written is the total size of the stored requests and additions is their count, deletions and data deleted are the count and total size of the evicted files. The hit rate is 100*hits/(hits+misses), 0 when nothing was served, and redirected requests enter none of these counters.",
  ["histories", "inputs", "configurations"],
  "every request history with interleaved statistic resets, every policy",
  "Tests compare one or two counters at the end of a single script.",
  [SC, S + "cache/weightFun.go", S + "cache/infiniteCache.go", S + "cache/aiRL.go"],
  [("counting", SC + ":BeforeRequest, AfterRequest, Free"), ("reset", SC + ":ClearStats")],
  ["NumRequests", "NumHits", "NumAdded", "NumDeleted", "HitRate", "DataRead", "DataReadOnHit", "DataReadOnMiss", "DataWritten", "DataDeleted"])

p("C09", "Misses are redirected exactly when the bandwidth is used up",
  "With redirection enabled, a request is redirected if and only if it misses and the data read on misses since the last statistics reset has reached 95% of the configured daily bandwidth. A redirected request leaves contents, order and traffic counters untouched and is counted once, with its size, as redirected; hits and caches without redirection never redirect.",
  ["histories", "inputs", "configurations"],
  "every request history, bandwidth and size, with interleaved statistic resets",
  "No test enables redirection.",
  [SC, S + "cache/base.go"],
  [("redirect decision", SC + ":CheckRedirect"), ("protocol", S + "cache/base.go:GetFile")],
  ["GetFile return value", "NumRedirected", "RedirectedSize", "BandwidthUsage"])

p("C10", "Watermarks bound the occupancy left after a request",
  "With watermarks enabled, a request that leaves the occupancy below the high watermark evicts nothing for watermark reasons, and one that leaves it at or above the high watermark evicts worst-first just enough files to bring the occupancy to the low watermark or below. A configuration with the high watermark below the low one is refused.",
  ["histories", "inputs", "configurations"],
  "every request history and every pair of watermarks",
  "The tests use one pair of watermarks and one script.",
  [SC],
  [("watermark check", SC + ":CheckWatermark"), ("eviction", SC + ":Free")],
  ["CheckWatermark", "Capacity", "Check"])

p("C11", "Per-file request statistics reflect the request history",
  "For every file the statistics hold: request count = hits + misses recorded, the size of its last request, the sequence number of its last request, the gap in requests to the one before it (the maximum value if there is none), the time of its first and last request, and the times of its 32 most recent requests. Statistics of one file never change because of requests for other files, and the mean request age is the mean of the ages of the recorded times (0 without age).",
  ["histories", "inputs"],
  "every request history over any files and days, including more than 32 requests for one file",
  "The test creates one statistics record; the ring of request times wraps only after 32 requests.",
  [S + "cache/files/stats.go", SC],
  [("creation and update", S + "cache/files/stats.go:GetOrCreate, UpdateStats"), ("mean age", S + "cache/files/stats.go:getMeanReqTimes")],
  ["files.Stats fields", "Manager.Get"])

p("C12", "Statistics are purged only for absent, long unused files",
  "Statistics of a resident file are never discarded. Statistics of a non-resident file are discarded only when the purge period has elapsed since the previous purge and the file has not been requested for the configured number of days, and at that moment all such statistics are discarded.",
  ["histories", "inputs", "configurations"],
  "every request history over any days, every purge period and retention limit",
  "No test lets simulated days pass.",
  [S + "cache/files/stats.go", SC],
  [("period check", S + "cache/files/stats.go:Dirty"), ("purge", S + "cache/files/stats.go:Purge"), ("trigger", SC + ":AfterRequest")],
  ["statistics map"])

p("C13", "Weighted admission compares a file with the mean tracked weight",
  "The weight of a file is the configured function of its request count, size and mean request age; the mean weight is the sum of the current weights of all tracked files divided by their number, also after purges. The weighted cache stores a missing file if and only if its weight does not exceed that mean and it fits.",
  ["histories", "inputs", "configurations"],
  "every request history, file size and set of function parameters",
  "The test checks one script with integer parameters; the running sum must track every update and purge.",
  [S + "cache/weightFun.go", S + "cache/files/stats.go", S + "cache/functions/functions.go"],
  [("running sum", S + "cache/files/stats.go:UpdateWeight, Purge"), ("admission", S + "cache/weightFun.go:UpdatePolicy"), ("functions", S + "cache/functions/functions.go")],
  ["ExtraStats", "GetFile return value", "files.Stats.Weight"])

p("C14", "Clearing a cache restores the behaviour of a fresh one",
  "After a full clear a cache answers every following history of requests with the same results and counters as a newly created cache with the same configuration (a learned cache keeps what its agents learned). Clearing only the statistics resets all counters but changes neither contents, order nor per-file statistics; clearing only the files empties the cache but keeps counters and per-file statistics (recencies and request numbers start again).",
  ["histories", "inputs", "configurations"],
  "every history before the clear and every history after it, every policy",
  "The tests clear a cache once, when it is about to be discarded.",
  [SC, S + "cache/files/stats.go", S + "cache/aiRL.go"],
  [("clear", SC + ":Clear, ClearFiles, ClearStats"), ("statistics reset", S + "cache/files/stats.go:Init, Clear")],
  ["all reported counters", "GetFile return value"])

p("C15", "A dumped cache can be loaded and continues with the same contents",
  "Dumping a cache with files and statistics and loading the dump into a fresh cache of the same configuration yields the same resident files with the same sizes in the same eviction order, the same occupied space and the same per-file statistics. The loaded cache serves any following requests, hits, evictions and re-insertions like the original would, without failing; a learned cache also gets back its action values. (The misses-after-delete counter, the time of the last purge, the state of the random source and the choices that wait for a reward are not part of a dump.)",
  ["histories", "inputs", "configurations"],
  "every request history before the dump and every history after the load, every policy that can be dumped, in memory and through the compressed dump file",
  "The tests never use a loaded cache after loading it.",
  [SC, S + "cache/weightFun.go", S + "cache/aiRL.go"],
  [("dump", SC + ":Dumps, Dump"), ("load", SC + ":Load, Loads")],
  ["Size", "Check", "queue order", "GetFile return value"])

p("C16", "Misses on recently evicted files are counted exactly once",
  "The counter of misses after delete equals the number of lookups that missed a file that had been evicted in the most recent eviction round preceding that lookup, counted since the counter was last read. Reading the counter resets it, and starting a new eviction round loses none of the misses counted so far.",
  ["histories", "inputs"],
  "every history of requests, evictions and counter reads",
  "No test reads this counter.",
  [S + "cache/files/stats.go", SC],
  [("counting", S + "cache/files/stats.go:AddDeletedFileMiss, IncDeletedFileMiss, ClearDeletedFileMiss, GetTotDeletedFileMiss")],
  ["GetTotDeletedFileMiss"])

p("C17", "Feature discretisation maps every value to its bucket",
  "A feature loaded from a feature map file has exactly the declared values or bucket bounds, plus an unbounded last bucket when it is declared open on the right. Discretising a number gives the first bucket whose upper bound is at least the number (so it is monotone and total for open features, and -1 only above the last bound of a closed one), discretising a string or boolean gives the position of that value, and index, value and size agree with each other.",
  ["inputs", "configurations"],
  "every number and every declared bucket list in increasing order",
  "Tests probe four values of one feature; boundary values and every bucket need solver-chosen inputs.",
  [S + "cache/ai/featuremap/featuremap.go"],
  [("index", S + "cache/ai/featuremap/featuremap.go:Index"), ("parsing", S + "cache/ai/featuremap/featuremap.go:Populate")],
  ["Obj.Index", "Obj.Size", "Obj.Value", "Obj.Values"])

p("C18", "Q-table states and state indexes correspond one to one",
  "The table built for a set of features has exactly one state per combination of feature values, with one zero action value for each action of the agent's role. Converting the feature positions of any state to a state index returns the index of that same state, so different combinations never share a cell and every index is inside the table.",
  ["inputs", "configurations"],
  "every number of features and every feature size, every combination of feature positions",
  "The test converts one combination in one table.",
  [S + "cache/ai/qlearn/qlearn.go", S + "cache/ai/featuremap/featuremap.go"],
  [("enumeration", S + "cache/ai/qlearn/qlearn.go:QTable.Init"), ("index weights", S + "cache/ai/featuremap/featuremap.go:makeFeatureIdxWeights"), ("conversion", S + "cache/ai/qlearn/qlearn.go:FeatureIdxs2StateIdx, Features2Idxs")],
  ["QTable.States", "FeatureIdxs2StateIdx"])

p("C19", "Learning updates follow the Q-learning rule and touch one cell",
  "Updating the table for a state, action, next state and reward sets exactly that cell to q + rate*(reward + discount*best(next) - q), where best is the largest value of the next state, adds the reward to the value function and changes nothing else. The action reported as best always has the largest value of its state; the exploration rate never increases on an update and stays within its configured limits (one that starts below the minimum stays as it is); remembered choices are returned in order, once, and the bounded memory keeps the 32 most recent ones.",
  ["histories", "inputs"],
  "every table content, state, action, reward, and sequence of epsilon updates and memory operations",
  "Tests only construct a table and encode a one-hot vector.",
  [S + "cache/ai/qlearn/qlearn.go"],
  [("update", S + "cache/ai/qlearn/qlearn.go:UpdateTable"), ("argmax", S + "cache/ai/qlearn/qlearn.go:getArgMax"), ("epsilon", S + "cache/ai/qlearn/qlearn.go:UpdateEpsilon, UnleashEpsilon"), ("memory", S + "cache/ai/qlearn/qlearn.go:SaveMemory, Remember")],
  ["GetActionValue", "GetBestAction", "Epsilon", "QValue"])

p("C20", "File categories partition the cached files and match their sizes",
  "At every moment each file known to the category manager is in exactly one category, the one given by its current features at its last add or update; categories without files do not exist, and the recorded size of a category is the sum of the sizes of its files. The generated decisions contain one state per existing category, listing exactly its files.",
  ["histories", "inputs", "schedules"],
  "every sequence of add, update and delete operations over any files and categories, any map iteration order and producer/consumer schedule",
  "No test touches the category manager.",
  [S + "cache/aiRLCatStateManager.go"],
  [("moves", S + "cache/aiRLCatStateManager.go:AddOrUpdateCategoryFile, insertFileInCategory, deleteFileFromCategory"), ("generation", S + "cache/aiRLCatStateManager.go:GetStateFromCategories")],
  ["GetNumCategories", "GetStateFromCategories"])

p("C21", "The learned cache stays consistent whatever its agents decide",
  "Whatever actions the addition and eviction agents choose, the learned cache stores a missing file exactly when the chosen action is to store (or there is no addition agent) and it fits, and its space accounting, lookups and counters obey the same rules as the other caches. An eviction decision removes all, half or a quarter (both rounded down, at least one) or one of a category's files, or none, as decided, and each decision is counted.",
  ["histories", "inputs", "configurations", "schedules"],
  "every request history, every random draw and table content of the agents, every eviction mode, any map iteration order",
  "No test runs the learned cache.",
  [S + "cache/aiRL.go", S + "cache/aiRLCatStateManager.go"],
  [("decision", S + "cache/aiRL.go:UpdatePolicy"), ("eviction", S + "cache/aiRL.go:callEvictionAgent")],
  ["GetFile return value", "Size", "Check", "NumDeleted", "ExtraOutput"])

p("C22", "A simulation accounts for every record exactly once",
  "Each record read by a simulation is counted in the total unless the simulation has stopped, and is then exactly one of jumped (before the first window), filtered, invalid (its CPU efficiency is not within 0..100), redirected or served by the cache; only the last two reach the cache. One output row is written per completed day from the start window on, with the counters of that day only, and no record after the stop window is served.",
  ["inputs", "histories", "configurations"],
  "every sequence of records (days, job outcomes, data types, CPU and I/O times, sizes), every filter and window configuration",
  "No test runs a simulation.",
  [S + "cache/simulation.go"],
  [("main loop", S + "cache/simulation.go:Simulate")],
  ["run statistics file", "result CSV rows"])

p("C23", "Record filters accept exactly their documented class of records",
  "The job filter accepts a record if and only if the job succeeded with exit code 0; the data type filters accept exactly data and Monte Carlo of their region; the file type and site filters accept exactly the two MINIAOD file types outside the sites they exclude. The answer depends on no other field of the record.",
  ["inputs"],
  "every record",
  "No test calls a filter.",
  [S + "cache/simulation.go"],
  [("filters", S + "cache/simulation.go:UsDataMcTypes.Check .. UsMINIAODandNOFNALLPCFilter.Check")],
  ["Filter.Check"])

p("C24", "Input columns are found by name and records are read without loss",
  "For any order of the columns in an input file every record field is read from the column of that name (an input having all documented columns); records are delivered completely and in file order, from plain and compressed files alike, and the size in megabytes is the size in bytes divided by 2^20. A folder delivers the records of its compressed files in file name order.",
  ["inputs", "configurations"],
  "every permutation of the columns, every record value, any number of records",
  "No test opens a simulation file.",
  [S + "cache/simulation.go"],
  [("header lookup", S + "cache/simulation.go:getHeaderIndexes"), ("reading", S + "cache/simulation.go:OpenSimFile, recordGenerator, OpenSimFolder")],
  ["delivered records"])

p("C25", "Sizes and CPU efficiencies are converted and averaged as documented",
  "A cache size given in mega-, giga-, tera- or petabytes (either case) is converted to megabytes with factors of 1024 and any other unit is refused. The reported CPU efficiencies are the averages over hits, misses and both of the per-request efficiencies, where a local request counts as it is, a remote hit is raised by the regional difference between the local and remote mean, and a miss is lowered by the same difference if it was local; the upper and lower bounds are the plain averages over local and remote requests.",
  ["inputs", "histories", "configurations"],
  "every size and unit, every history of local and remote requests with any efficiency, every region",
  "No test checks efficiencies; the regional difference depends on the history.",
  [S + "cache/simulation.go", SC],
  [("units", S + "cache/simulation.go:GetCacheSize"), ("efficiency", SC + ":AfterRequest, CPUEffBoundDiff, CPUEff, CPUHitEff, CPUMissEff")],
  ["GetCacheSize", "CPUEff", "CPUHitEff", "CPUMissEff", "CPUEffUpperBound", "CPUEffLowerBound"])

p("C26", "The event log is complete and in order",
  "With logging enabled the log file contains, in the order in which they happened, one line per lookup (hit or miss), per stored file, per freeing round, per evicted file and per redirection, each with the request number, file and the occupied space after the event. When the cache terminates every event has reached the file and the file is complete.",
  ["histories", "inputs", "schedules"],
  "every request history and every schedule of the writer",
  "The tests run without the event log.",
  [SC, S + "cache/simulation.go"],
  [("buffer and writer", SC + ":Init, toLogBuffer, flushAndCloseLog"), ("file", S + "cache/simulation.go:OutputCSV")],
  ["simulationLogFile.csv.gz"])

p("C28", "The infinite cache stores everything and never evicts",
  "An unbounded cache stores every file at its first request, answers hit for every later request of it, deletes nothing, and its size grows by exactly the size of each stored file.",
  ["histories", "inputs"],
  "every request history",
  "No test uses the unbounded cache.",
  [S + "cache/infiniteCache.go", Q + "none.go"],
  [("policy", S + "cache/infiniteCache.go:UpdatePolicy")],
  ["GetFile return value", "Size", "NumDeleted"])

p("C29", "The dataset verifier stores only files of the given dataset",
  "The dataset-restricted cache stores a missing file if and only if it is listed in the dataset file and fits, evicting least recently used files as needed; requests for other files neither store nor evict anything.",
  ["histories", "inputs", "configurations"],
  "every dataset and every request history",
  "No test uses the dataset verifier.",
  [S + "cache/lruDatasetVerifier.go"],
  [("policy", S + "cache/lruDatasetVerifier.go:UpdatePolicy"), ("dataset", S + "cache/lruDatasetVerifier.go:Init")],
  ["GetFile return value", "Check"])

p("C30", "Daily free space statistics match the recorded history",
  "The average and standard deviation of the free space are those (mean and sample deviation) of the free space left after each request served since the last statistics reset.",
  ["histories", "inputs"],
  "every request history with interleaved statistic resets",
  "No test reads these values.",
  [SC],
  [("recording", SC + ":AfterRequest"), ("statistics", SC + ":AvgFreeSpace, StdDevFreeSpace")],
  ["AvgFreeSpace", "StdDevFreeSpace"])

p("P31", "The Python simulator's LRU cache keeps its size and order invariants",
  "In the Python simulator the occupied space equals the sum of the sizes of the resident files and never exceeds the configured size, a request hits if and only if the file is resident, files are evicted least recently used first, and hits, misses, read, written and deleted data, and the hits, misses and size of each file, add up to the requests made (each file having one size). A file larger than the cache is refused without failing.",
  ["histories", "inputs"],
  "every request history",
  "There is no test of the Python simulator.",
  ["SmartCache/pySim/cache.py"],
  [("policy", "SmartCache/pySim/cache.py")],
  ["cache size", "hit counters"])

p("P32", "The model evaluator's caches evict by their policy and keep true histories",
  "In the evaluation of a trained model, the FIFO and LRU caches never hold more files than their maximum, evict the file stored first (FIFO) or used least recently (LRU) and only to store a missing file that has to be inserted; a request hits exactly when the file is resident; the histories of size and hit rate have one true value per request; a cache restored from a saved state goes on as the saved one would; comparing two caches asks the model once per request, accumulates the CPU time of the hits and separates the history at the first request and at each that comes more than a day after the last separator.",
  ["histories", "inputs"],
  "every history of requests and predictions",
  "There is no test of the evaluator.",
  ["SmartCache/ai/models/evaluator.py"],
  [("update", "SmartCache/ai/models/evaluator.py")],
  ["resident files", "histories"])

p("P33", "Indexes, slices and iteration of a data file agree with its order",
  "Whatever was read before, an index of a data file (JSON, plain, gz, bz2 or in memory, or avro) gives the record of that position, from the end for negative indexes of JSON files, a slice with a stop gives the records of its positions, a backward one (step 1) from its start down to after its stop, starting from a position gives all records from there, iterating or listing gives every record once and in order, and the length is the number of records. The indexes of a slice are increasing from its start by its step and before its stop; slices without stop or with negative bounds are refused.",
  ["inputs", "histories"],
  "every start, stop and step; every history of accesses",
  "The tests read a few fixed slices of one file.",
  ["DataManager/collector/datafile/json.py", "DataManager/collector/datafile/avro.py", "DataManager/collector/datafile/utils.py", "DataManager/collector/api.py"],
  [("gen_increasing_slice", "DataManager/collector/datafile/utils.py"), ("JSONDataFileReader", "DataManager/collector/datafile/json.py"), ("AvroDataFileReader", "DataManager/collector/datafile/avro.py")],
  ["records read"])

p("P34", "What is appended to a JSON data file is read back in order",
  "Every record that is appended to a JSON data file, whether as a dictionary, as JSON text, or in a list or generator of them, at creation or later, is one line of the file and is read back once and in order; opening an existing file to append keeps what it held; anything that is no JSON object or text is refused and leaves the file as it was.",
  ["inputs", "histories"],
  "every sequence of appends",
  "The tests of the data files write one fixed sequence and compare two records; they do not run with the installed Python.",
  ["DataManager/collector/datafile/json.py", "DataManager/collector/api.py"],
  [("write", "DataManager/collector/datafile/json.py"), ("read", "DataManager/collector/datafile/json.py")],
  ["records read back"])

p("P47", "What is appended to an Avro data file is read back with its values",
  "Records of the same fields and types that are appended to an Avro data file, one at a time or in lists, at creation or later, in memory or in a named file, are read back once each, in order and with exactly the values they had: numbers with their precision, texts, truth values, nulls, bytes, and lists and maps of these, and records and maps nested in it, whatever fields of the same shape a record has next to each other; the raw content of the writer is the same file.",
  ["inputs", "histories"],
  "every shape of record and every sequence of appends",
  "The one test of the Avro translator parses the scheme of one record; no test writes an Avro file, and it does not run with the installed Python.",
  ["DataManager/collector/datafile/avro.py", "DataManager/collector/datafile/utils.py"],
  [("append", "DataManager/collector/datafile/avro.py"), ("deduce_scheme", "DataManager/collector/datafile/utils.py")],
  ["records read back"])

p("P35", "A window of days gives each of its days by the step, and ends",
  "The days of a window are the start day, or the day after the window for the next one, and then one day per step as long as they lie within the window of the asked length; the sequence ends for every step, whether or not it divides the window.",
  ["inputs"],
  "every start day, window length, step and direction",
  "There is no test of the windows.",
  ["DataManager/collector/dataset/utils.py"],
  [("gen_window_dates", "DataManager/collector/dataset/utils.py")],
  ["days of the window"])

p("P36", "Batches, stages and uploads handle every record exactly once",
  "Splitting records into batches puts every record into exactly one batch, in order, with all batches but the last of the asked size and none empty; a stage processes every batch exactly once and keeps all its output, with processes or with Spark, whenever its tasks end, and with no more tasks at once than asked for; the upload of the agent sends every element from the initial index on exactly once and in order, in bulks no larger than asked for.",
  ["inputs", "schedules"],
  "every number of records, batch size, number of workers and order in which the tasks end",
  "There is no test of batches, stages or uploads.",
  ["DataManager/collector/dataset/stage.py", "DataManager/collector/dataset/generator.py", "DataManager/collector/dataset/resource.py", "DataManager/collector/api.py", "DataManager/agent/cli.py"],
  [("task", "DataManager/collector/dataset/stage.py"), ("gen_batches", "DataManager/collector/dataset/generator.py")],
  ["batches", "records processed"])

p("P37", "The popularity pipeline counts every valid request exactly once",
  "From any requests, the pipeline of the stages raw, featured and record makes one record for each combination of the four features (store type, campaign, process, file type) of the names of files of datasets (store type data or mc) requested by analysis jobs; its number of requests and its CPU time are the count and the sum over exactly these requests, however they are split into days and batches and with processes or with Spark; a record is good if its mean CPU time is at least the mean of these means and bad otherwise; equal features have equal ids and different ones different ids; adding up, storing and loading records keeps their sums; a stage keeps its own Spark settings and takes those of the pipeline for what it does not set.",
  ["inputs", "histories"],
  "every list of requests with at least one valid one, every batch size and split into days",
  "There is no test of the data features or of the pipeline.",
  ["DataManager/collector/datafeatures/extractor.py", "DataManager/collector/dataset/stage.py", "DataManager/collector/dataset/generator.py"],
  [("process", "DataManager/collector/dataset/stage.py"), ("features", "DataManager/collector/datafeatures/extractor.py"), ("run", "DataManager/collector/dataset/generator.py")],
  ["records of a dataset", "totals", "classes"])

p("P38", "Resources read every file of their window and save what can be read again",
  "A resource reads every file of every day of its window exactly once and in the order of the days, from a local folder, HTTPFS (any number of files a day, none included) or HDFS; records that are saved for a stage or a dataset, locally or over HTTPFS, are in one file under the name of the stage and window, and reading that file gives exactly these records; a pipeline that saves its stages has the same result as one that does not.",
  ["inputs", "configurations"],
  "every window over the ends of months and years, any number of files a day, any records",
  "There is no test of resources.",
  ["DataManager/collector/dataset/resource.py", "DataManager/collector/api.py", "DataManager/collector/dataset/generator.py"],
  [("get", "DataManager/collector/dataset/resource.py"), ("set", "DataManager/collector/dataset/resource.py")],
  ["files read", "saved records"])

p("P39", "Support tables number their values, and train sets are made of them",
  "After any history of insertions, the indexes of each feature of a support table are the numbers from 0 on in the order of the values (case ignored), each once; a value is converted with the current indexes to that of an entry that begins it, or of the unknown value if there is none; normalised values are in [0, 1) and one hot vectors have a single one in the part of each feature; a restored table converts as before. The train sets of a dataset have each record once, in order, with its label, either for training or for validation of the fold, and each fold validates the records of its place.",
  ["histories", "inputs"],
  "every history of insertions, indexings and conversions; every list of records and number of folds up to their number",
  "There is no test of support tables or dataset readers.",
  ["DataManager/collector/dataset/utils.py", "DataManager/collector/dataset/reader.py"],
  [("gen_indexes", "DataManager/collector/dataset/utils.py"), ("close_conversion", "DataManager/collector/dataset/utils.py"), ("train_set", "DataManager/collector/dataset/reader.py")],
  ["indexes", "vectors", "train sets"])

p("P40", "Converter maps give every value of a column its own category",
  "The converter map of a column numbers the values of the column (or the given buckets, open to the right if asked for, for each column) in order, from 1 if there are unknown values and from 0 otherwise, and is stored as it is; the data made of the columns has, for each value, a one hot vector with its one at the number of the value in the map: equal for listed values, the first bucket not below the value or else the open one, and 0 for unknown values; labels likewise.",
  ["inputs", "configurations"],
  "every column of whole, fractional, logical or text values, every list of buckets",
  "There is no test of the dataset reader.",
  ["DataManager/collector/dataset/reader.py"],
  [("make_converter_map", "DataManager/collector/dataset/reader.py"), ("make_data_and_labels", "DataManager/collector/dataset/reader.py")],
  ["converter map", "data and labels"])

p("P41", "The analysis of a simulation log tells what every round of deletions did",
  "For every choice log, each event row opens a round: its choices are the KEEP and DELETE rows that follow at once, and what came after are all rows up to the next event. A round reports the time, kind, cache size and occupancy of its event, the number and total size of the files it deleted and how many later requests missed one of them; for plotting only its largest time since the last request is redrawn, as twice the next largest. The frequencies of misses have, for each file that misses after the last round of deletions (once) and for each file that was not stored, its number of requests. Every simulation has its report under its own part of the path, at once or round by round, and a histogram has for each class the percentage of its values.",
  ["inputs", "histories"],
  "every log, any sizes, requests and times, logs without events or rows",
  "There is no test of Probe's results.",
  ["Probe/probe/results/utils.py", "Probe/probe/results/data.py", "Probe/probe/results/plotters.py"],
  [("parse_sim_log", "Probe/probe/results/utils.py"), ("prepare", "Probe/probe/results/utils.py"), ("parse_simulation_report", "Probe/probe/results/data.py")],
  ["reports of rounds", "plots"])

p("P42", "The converter of Probe numbers text values once and for all",
  "After any history of updates and restarts, the values of each category are numbered from 0 on in the order they came, and can be asked for. Converting files replaces every text value by its number and leaves everything else as it was, and files that are converted later, or after the converter was stopped between any two saves and started again, use the same numbers. A table that is brought into the order of its source has the same rows in the order of the source.",
  ["histories", "crash points", "inputs"],
  "every history of updates, queries and restarts; every point between two saves; every order",
  "There is no test of Probe's converter.",
  ["Probe/probe/converter/utils.py", "Probe/probe/converter/extractor.py", "Probe/probe/converter/__main__.py"],
  [("update", "Probe/probe/converter/utils.py"), ("convert_categories", "Probe/probe/converter/utils.py"), ("sort_from_avro", "Probe/probe/converter/utils.py"), ("main", "Probe/probe/converter/__main__.py")],
  ["numeric files", "container"])

p("P43", "Tables of results have the measures of every simulation, best first",
  "A table has a row for each simulation (or the asked number of best ones) with the means over the days of its measures, from throughput and cost (per cache size or in TB) to read on hit and free space in percent; rows are in order of throughput (higher first), cost (lower first), read on hit and misses after deletion, or of read on hit first if asked for. A measure whose column is missing is 0. The metrics of all simulations are those of each in order. Results pass exactly the filters that their paths have.",
  ["inputs", "configurations"],
  "every value of the simulation results, any number of simulations and filters",
  "There is no test of Probe's results.",
  ["Probe/probe/results/data.py"],
  [("make_table", "Probe/probe/results/data.py"), ("get_measures", "Probe/probe/results/data.py"), ("get_df", "Probe/probe/results/data.py")],
  ["tables", "selection of results"])

p("P44", "Loading a folder of requests gives the rows of its files that were asked for",
  "Loading a csv file or a folder gives the rows of every file of the asked month, in the order of the file names and of the rows, that match the asked region and file type: as a single table, a list of tables, or tables generated one by one.",
  ["inputs", "configurations"],
  "every folder, month, region and type",
  "There is no test of Probe's loaders.",
  ["Probe/probe/loaders.py"],
  [("csv_data", "Probe/probe/loaders.py"), ("gen_csv_data", "Probe/probe/loaders.py")],
  ["tables"])

p("P45", "The statistics of the requests that Probe plots are exact",
  "For each day with successful requests of data or mc, the upper limits are the hit rate if every request but the first of a file is a hit, the share of data read on these hits and the size of the files, and their means; every whole week has its numbers of requests, files, users, tasks, jobs and sites and the mean requests of (repeated) files; the daily statistics have, for every file and period of the asked number of days, its requests, users, sites, times since the last request and sizes in whole megabytes after each request, files of a single request apart; and the classes of a feature have the percentages of all its values.",
  ["inputs", "configurations"],
  "every list of requests of any sizes, days and reset periods",
  "There is no test of Probe's plotter or analyzer.",
  ["Probe/probe/plotter/stats.py", "Probe/probe/analyzer/features.py"],
  [("plot_global_upper_limits", "Probe/probe/plotter/stats.py"), ("plot_week_stats", "Probe/probe/plotter/stats.py"), ("plot_daily_stats", "Probe/probe/plotter/stats.py"), ("check_bins_of", "Probe/probe/analyzer/features.py")],
  ["plots"])

p("P46", "The agent sends every record once and reads what the server has",
  "Putting a file into an archive sends every record from the first index on exactly once and in order, one by one or in batches of the asked size of which only the last is smaller, with the user and password given, stops with an error at the first refused answer, and gives a record the same id alone and in a batch and different records different ids; get shows the records of the index or slice; the operations on a Hadoop server change and read exactly what they name, files are read whole whatever the chunks, and what the server refuses is an error; rows of the converters have the values of all the fields in the order of their names.",
  ["inputs", "faults"],
  "every number of records, batch size, first index and answer of the server; every history of operations",
  "The tests convert one row with three numbers; nothing tests the clients or the commands.",
  ["DataManager/agent/api.py", "DataManager/agent/cli.py", "DataManager/agent/converter/csv.py", "DataManager/agent/converter/libSVM.py"],
  [("cli_main", "DataManager/agent/cli.py"), ("ElasticSearchHttp.put", "DataManager/agent/api.py"), ("HTTPFS", "DataManager/agent/api.py"), ("CSVConverter", "DataManager/agent/converter/csv.py"), ("LibSVMConverter", "DataManager/agent/converter/libSVM.py")],
  ["agent"])

p("P48", "The analysis caches hit what they hold, fit their size and evict in order",
  "In the weight-function analysis (scripts/DataAnalysis/weight_function.py) the LRU and the weighted cache never hold more than their maximum size, and a request hits exactly when the file is resident. On a miss the LRU cache evicts the least recently used files, and only as many as needed, and stores the file, unless it is larger than the cache. The weighted cache stores a missing file that fits; otherwise it first refreshes the weights of the resident files of that file's group (their cost for their size, their own requests and the requests of the group) and evicts the heaviest files, one by one, only while they are heavier than the file and it does not fit, then stores it if it fits. The histories of size, hit rate, written and read data have one true value per request; a cache restored from its state goes on as the saved one. The replay of windows gives an LRU cache every request of the region that has a size, once and in order, clears it after a window only when that is asked for, and reports the histories of each window (which begin with the last value of the one before) or sends the plot server, at each request a day or more after the last point, the values after that request.",
  ["histories", "inputs"],
  "every history of requests, sizes and costs",
  "There is no test of the analysis scripts.",
  ["scripts/DataAnalysis/weight_function.py"],
  [("update_policy", "scripts/DataAnalysis/weight_function.py")],
  ["resident files", "histories"])

p("P49", "The plot server keeps every value it is sent and draws the values it keeps",
  "Sent in the order of windows and positions, every value (a single one or an update of several tables) is kept in its table at its cache, window and position, replaces an earlier one there, changes no other, and the saved table loads as it was at its last update; the information of a window replaces only that of the same cache and window; deleting empties every table, and values can be sent again. A plot has one line for each cache whose name contains all the filters, with all its values in order (or the read over the written data, zero where nothing was written; their difference; or the relative difference from the LRU cache of the same size, zero where that is zero), each in its own colour, and a line where each window ends. The hits and misses by file size are parts of their totals (zero for no hits or misses), counted in the bin of the size, the last one included.",
  ["histories", "inputs"],
  "every history of updates, all values",
  "There is no test of the analysis scripts.",
  ["scripts/DataAnalysis/plot_server.py"],
  [("insert_line_in_table", "scripts/DataAnalysis/plot_server.py"), ("plot_line", "scripts/DataAnalysis/plot_server.py")],
  ["tables", "lines of the plots"])

p("P50", "The statistics of a day and of a window count each request, file and job once",
  "In the extraction of statistics (scripts/DataAnalysis/statistics.py) every record added for a day becomes one row, in order and whenever the data is looked at: its day, file, user, site, task, job, protocol, the CPU time per core, the remaining wall-clock time as I/O, success only for exit code 0, the whole hours and minutes of its length, and the size of its file where a size database (directly or through the shared cache that other processes fill as well) knows it. A period gives its consecutive days. The statistics of a window count its requests, files, users, sites, tasks and jobs, the files by number of requests and by size (whole MB below 1 GB, thousands of MB from there), each file's size once, the CPU and I/O times by protocol, and the means per file, job, task and user of distinct files, jobs and tasks.",
  ["inputs", "histories"],
  "every list of records, all values; any state of the shared cache",
  "There is no test of the analysis scripts.",
  ["scripts/DataAnalysis/statistics.py"],
  [("make_dataframe_stats", "scripts/DataAnalysis/statistics.py"), ("add", "scripts/DataAnalysis/statistics.py")],
  ["rows", "statistics"])

p("Q34", "The first simulator's cache keeps its limit and the files of highest value",
  "In the first Q-learning simulator, over any history of requests of files that fit the cache, the occupied space is the sum of the sizes of the stored files and within the limit, a stored file is in the cache, files are removed only for lack of space and in order of their value (size times requests), and the numbers of requests, values, points and the minimum are exact.",
  ["histories", "inputs"],
  "every request history of files that fit the cache",
  "This simulator has no tests.",
  ["qLearning_smartCache/cache/cache.go"],
  [("Insert", "qLearning_smartCache/cache/cache.go"), ("GetMinValue", "qLearning_smartCache/cache/cache.go")],
  ["rewards", "size"])

p("Q35", "The first simulator's Q-table updates the value its decisions read",
  "In the first Q-learning simulator, a table has a place for every combination of feature values and the state of any values is the one of the first bounds they do not exceed; an update of a state and action changes exactly the value that choosing the best action reads for that action, following the rule, in whatever order the actions were given.",
  ["histories", "inputs"],
  "every state, value, action, reward and order of the actions",
  "This simulator has no tests.",
  ["qLearning_smartCache/qtable/qtable.go"],
  [("Update", "qLearning_smartCache/qtable/qtable.go"), ("GenCurState", "qLearning_smartCache/qtable/qtable.go"), ("GetBestAction", "qLearning_smartCache/qtable/qtable.go")],
  ["chosen actions"])

p("N90", "The cache plugin service answers with the state of its cache",
  "The plugin service returns, for each reported request, hints and statistics computed from all requests reported so far.",
  ["histories", "inputs", "schedules"],
  "every sequence of service calls",
  "The plugin has no tests.",
  ["SmartCache/plugin"],
  [("service", "SmartCache/plugin")])

p("N91", "The neural network policy stores exactly what its model accepts",
  "The neural network cache stores a missing file if and only if the loaded model predicts to store it for the file's discretised features and it fits.",
  ["histories", "inputs", "configurations"],
  "every model and request history",
  "No test runs the neural network cache.",
  [S + "cache/aiNN.go", S + "cache/ai/neuralnet/neuralnet.go"],
  [("prediction", S + "cache/ai/neuralnet/neuralnet.go:Predict")])

p("N92", "String hashing is stable and collision free in practice",
  "Hashing a string always gives the same value, and different inputs practically never share one.",
  ["inputs"],
  "every string",
  "The test hashes one string.",
  [S + "cache/utils.go"],
  [("hash", S + "cache/utils.go:HashInt")])

p("Q36", "A simulation runs with exactly what its configuration file says",
  "The sim command creates, initialises and runs one simulation in which every parameter (type, size, bandwidth, watermarks, region and filters, windows, dumps, cold start, weight function, agents, epsilons, seed, paths) is the value the configuration file gives to its key, or the documented default where it gives none; the epsilon of an agent is the common one unless it has its own; relative paths of data, feature maps, models and output are relative to the folder of the configuration file; the results go to the folder named after the simulation; results that are already there are kept unless the configuration says to overwrite them; without its configuration file nothing is simulated.",
  ["inputs"],
  "every set of keys and every value of them",
  "No test runs the command: the forty-eight keys, their defaults and where each goes are only ever used by hand-written configurations.",
  ["SmartCache/sim/main.go"],
  [("simCommand", "SmartCache/sim/main.go"), ("configureViper", "SmartCache/sim/main.go")],
  ["parameters of the simulation"])
