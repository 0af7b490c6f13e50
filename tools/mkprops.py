#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
B="rust-src/src/gridstore/builder.rs"; S="rust-src/src/gridstore/store.rs"; C="rust-src/src/gridstore/coalesce.rs"
K="rust-src/src/gridstore/stackable.rs"; M="rust-src/src/gridstore/common.rs"; X="rust-src/src/gridstore/spatial.rs"; F="rust-src/src/gridstore/gridstore_format.rs"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

prop("C01","A finished store returns exactly the data that was put in, also after power loss",
 "Once a build has reported success, looking up any key in the opened store returns exactly the grid entries given for that key during the build (relevance as one of the four stored steps, score, tile coordinates, feature id and source-phrase hash all unchanged, duplicates of an entry collapsed), and a key that was never given returns nothing. The entries come back best first: relevance descending, then score descending, then tile order descending, then feature id descending. This stays true if the machine loses power or the process dies at any moment after the build reported success, for every way the store reopens, for however many readers, and for the keys of a build that is made in a directory where an older build with other data lies.",
 ["inputs","histories","crash_points","configurations"],
 "every build history (single values, appends and compact appends, any values in the documented domain, small records up to records whose internal offsets need 2, 3 or 4 bytes), in an empty directory or over an older store, every crash instant after success, every storage setup (cache sizes, flush timing), any number of readers",
 "unit tests write a handful of tiny records and read them back in the same process; none builds records large enough for wide coordinates or offsets, varies all fields at once, or reopens after a crash",
 [B,S,F,M],
 [("records are encoded with relevance and score groups, morton ordered coordinates and deduplicated ids",B+" get_encoded_value, extend_entries, compact_append"),
  ("variable width offsets chosen from the buffer size",F+" Writer::write_uniform_vec, UniformVec, Coord, RelevScore"),
  ("keys are written with big endian phrase and a shortened language set",M+" GridKey::write_to"),
  ("finish writes every record through the storage engine and compacts before reporting success",B+" finish"),
  ("records are decoded lazily out of the mapped value",S+" get, decode_value")],
 [("data","phrase/language key -> packed entries waiting to be written",B+" GridStoreBuilder.data")],
 ["GridStoreBuilder::finish result","GridStore::new_with_options result","GridStore::get"])

prop("C02","A build that dies midway leaves no wrong data and can simply be run again",
 "If a build crashes, loses power, fails on a storage error or is killed at any point, the directory it leaves behind either cannot be opened or opens as a store in which every key that is present holds its complete and correct entries: no key is ever half written, mixed, duplicated or invented. Running the same build again into that directory ends with exactly the store an undisturbed build would have produced. Where the directory held an older store with other data, each key has its older or its newer entries, never a mixture. Prefix bin boundaries are there only if all of the data is, so that no range misses a key that is present. Readers that open or query the directory while a build or a competing build is running see only complete keys (and all of them, where a finished store is being built again), and a competing build is refused or serialised rather than mixed in.",
 ["crash_points","fault_sequences","schedules"],
 "every crash, power loss, write error, full disk or stall at every storage operation of a build, any number of retries, and readers or rival builders interleaved at any point",
 "no test interrupts a build: they all run it to success in one process on a healthy disk",
 [B,S],
 [("each key's record is encoded completely and handed to the storage engine as one put",B+" finish"),
  ("the builder keeps everything in memory until finish, so a failed build has changed nothing else",B+" GridStoreBuilder"),
  ("the storage engine's directory lock and write ahead log",B+" GridStoreBuilder::new, finish")],
 [],["GridStoreBuilder::new/finish results","GridStore::new_with_options, get, keys and iter on what is left"])

prop("C03","A failing disk shows up as an error, never as silently missing or wrong data",
 "When the storage below a store fails to read, write, sync or open, the call in progress reports an error (or its answer is complete and correct all the same); it never reports success with data missing, altered or invented, and it never panics. A build that reports success has all its data durably stored even if some storage operations failed on the way. A failed call leaves earlier answers and other callers untouched.",
 ["fault_sequences","inputs","schedules"],
 "every single or repeated I/O error, short read, full disk or corrupted block at any storage operation of building, opening, looking up, listing, matching, coalescing and stacking",
 "no test injects any storage error; every test runs on a healthy temporary directory",
 [B,S,C],
 [("errors of the storage engine are passed on with ?",B+" new, finish; "+S+" new_with_options, get"),
  ("errors inside coalesce and stacking workers are collected and returned",C+" coalesce, tree_coalesce")],
 [],["Result values of every public call"])

prop("C04","Phrase matching returns exactly the matching entries, best first",
 "Looking up matches for a phrase (exact or range) and a language set returns every stored entry of every key the request matches and that the bounding box admits, each exactly once and with its correct distance, score-distance, language flag and (0.96 penalised where neither language nor proximity radius match) relevance, and nothing else, as long as the number of matching keys stays within the requested maximum. Entries come in order: relevance descending, then score-distance descending. The answer does not depend on other callers using the store at the same time or on whether the caller stops reading early.",
 ["inputs","schedules","histories"],
 "every stored data set, every phrase request, language set, zoom, bounding box and proximity point, every number of concurrent callers and interleaving of their storage accesses",
 "tests check a few fixed data sets without concurrency; none compares bbox and proximity filtering against all entries for arbitrary data, boundaries of the tile grid, or extreme phrase ids and language sets",
 [S,X,M,F],
 [("key range scan with prefix comparison and language mask",M+" MatchKey::write_start_to, matches_key, matches_language"),
  ("per record decoding with bbox and proximity iterators over morton ordered tiles",S+" decode_matching_value; "+X+" bbox_filter, proximity, bbox_proximity_filter, bbox_range, coord_binary_search"),
  ("priority queue merging of the per key iterators",S+" streaming_get_matching, QueueElement")],
 [],["GridStore::streaming_get_matching"])

prop("C05","A single phrase match coalesces into the right features in the right order",
 "Coalescing a single phrase match returns one context per feature, carrying that feature's best grid among the matching grids that pass the request's bounding box, with the right relevance (scaled by the match's weight), mask, language flag, distance and score-distance. Contexts are ordered best first by relevance, then score-distance, then tile and id, limited to 40 contexts within a relevance of 0.25 of the best; none returned is worse than a feature left out. An empty request gives an empty answer, and every stored feature id, including 0 and the largest, is treated alike.",
 ["inputs","schedules","configurations"],
 "every stored data set, weight, mask, zoom, bounding box, proximity point, coalesce radius and language set, and any number of concurrent callers",
 "fixture tests use a dozen hand written grids; they cannot reach ties, limits on grids and contexts, id extremes, or the combination of proximity, bbox and language penalties for arbitrary data",
 [C,S,M,X],
 [("best first streaming with early stop",C+" coalesce_single"),
  ("bounded number of grids per phrase and of contexts",M+" MAX_GRIDS_PER_PHRASE, MAX_CONTEXTS"),
  ("context ordering",M+" CoalesceContext::sort_key")],
 [],["coalesce() with one subquery"])

prop("C06","Several phrase matches coalesce exactly where their features overlap",
 "Coalescing several phrase matches returns the contexts formed by a grid and the grids of other matches on tiles that contain it (at the same or a coarser zoom) whose masks do not collide, the more relevant one where two are interchangeable, plus unstacked grids at a slight penalty; each context's entries, summed relevance, mask, distance and score-distance follow from its members and the request. No leading feature is listed twice, no grids that do not overlap are combined, and only the limits (40 contexts, within a relevance of 0.25 of the best) leave anything out. The answer is ordered best first and does not depend on scheduling or on other callers.",
 ["inputs","schedules","configurations"],
 "every set of stores at equal or different zooms, every combination of matches, masks, weights, bounding boxes and proximity points, any interleaving of storage accesses",
 "fixture tests cover two or three stores with a few tiles; they do not compare against an independent definition of overlap for arbitrary zoom combinations and many features per tile",
 [C,M,S],
 [("zoom ordered merging of tiles with parent lookup",C+" coalesce_multi, grid_to_coalesce_entry"),
  ("context ordering and limit",M+" CoalesceContext, ConstrainedPriorityQueue, MAX_CONTEXTS")],
 [],["coalesce() with several subqueries"])

prop("C07","Stacking and coalescing gives the exact best answers under every thread schedule",
 "Stacking a set of phrase matches and coalescing the stacks returns exactly the contexts that the admissible stacks (no shared token, no shared store slot, mutually compatible stores) support, with the right entries, relevance and penalties, ordered best first and cut only by the documented limits (800 contexts in all, 40 per stack and phrase, fetch quotas and stack budget), so that nothing returned is worse than something admissible that was left out. The answer is the same for every number of worker threads, every interleaving of their storage reads and every speed of the disk. A request restricted to nearby results never loses results near the point, whichever edge of the world it lies at.",
 ["schedules","inputs","configurations"],
 "every set of stores and phrase matches (exact and range), request options, pool size from one to many threads, and every interleaving and delay of the workers' reads",
 "the tests run one schedule of the real thread pool per input and compare with fixed expectations; which worker finishes first is never varied, and results are only compared for a few inputs",
 [C,K,M],
 [("tree of compatible stacks built by binned depth first search with a leaf budget",K+" stackable, binned_stackable, ArenaManager"),
  ("best first expansion of the tree in chunks fetched in parallel",C+" tree_coalesce, COALESCE_CHUNK_SIZE, KeyFetchStep"),
  ("bounded result queue used as a stopping rule",C+" tree_coalesce; "+M+" ConstrainedPriorityQueue"),
  ("nearby-only rectangle",M+" MatchOpts::with_nearby_only")],
 [],["stack_and_coalesce()","stackable() then tree_coalesce()"])

prop("C08","A builder's result depends only on what was put in, not on how or in which order",
 "However the same final data is given to a builder (order of keys, order and grouping of entries, single insert or many appends, compact appends, a last insert replacing earlier data of its key, renumbering phrase ids at the end), the finished store answers every lookup identically and the same sequence of calls always writes the same bytes. Renumbering moves every key to its new phrase id with its language set and data intact, merging none and losing none. A rejected or failed builder call changes nothing.",
 ["histories","inputs","configurations"],
 "every order and grouping of builder calls giving the same data, every renumbering (permutations, shifts, incomplete maps), every hash seed of the process and every number of repetitions",
 "tests check three fixed insert and append sequences; none permutes histories, renumbers with incomplete maps, or compares stored bytes between runs",
 [B],
 [("per key nested maps with ids and sets merged on append",B+" insert, append, extend_entries, compact_append, copy_entries"),
  ("renumbering checks the map before rebuilding the keys",B+" renumber"),
  ("sorted, deduplicated encoding",B+" get_encoded_value, finish")],
 [("data","keys and entries collected so far",B+" GridStoreBuilder.data")],
 ["results of insert, append, compact_append, renumber, finish","all lookups on the finished store","bytes handed to the storage engine"])

prop("C09","Listing a store gives every key and record exactly once, in order",
 "Listing the keys of a store yields every stored key exactly once, in ascending order of phrase id and stored language set, and nothing else; listing its records yields the same keys in the same order, each with exactly the entries that looking it up returns. Internal bookkeeping such as prefix bins never shows up in a listing. Listings can be interleaved with each other and with lookups from any number of callers, or dropped halfway, without changing any answer.",
 ["inputs","schedules","histories"],
 "every stored data set (any phrase id, every language set from empty to full, with and without prefix bins), any number of listings and lookups interleaved by any schedule, abandoned at any position",
 "tests list two small stores once each from a single thread; language sets of all lengths, extreme phrase ids, prefix bins and interleaved listings are not exercised",
 [S,M,B],
 [("keys start with a type marker, and listing stops at the first key of another type",S+" keys, iter; "+M+" TypeMarker"),
  ("language sets are stored without leading zero bytes and restored when listing",M+" GridKey::write_to; "+S+" keys, iter")],
 [],["GridStore::keys","GridStore::iter"])

prop("C10","Prefix bins change how a range is found, never what is found",
 "A store built with prefix bin boundaries answers every phrase-range request with the same entries as the same data stored without boundaries, both when the range falls exactly on boundaries and when it does not; only entries that several phrases of a bin have in common may be merged into one. Boundaries survive storing, crashing after success and reopening, and any boundary values (unsorted, repeated, beyond all data, at the extremes of the phrase range) give a correct store and a build that ends. A build that did not finish leaves no boundaries unless it leaves all of the data, so that a range never misses a key that is present. Exact lookups, listings and plain lookups are unaffected by boundaries.",
 ["inputs","configurations","crash_points"],
 "every data set and boundary list, every range of boundaries, language set and option, and power loss after the finished build",
 "one fixed boundary list is tested; nothing compares arbitrary boundary lists and data with the same store without them, or checks extreme boundaries",
 [B,S,M],
 [("phrases between two boundaries are merged into one bin record at finish",B+" load_bin_boundaries, finish"),
  ("ranges whose ends are both boundaries are answered from bin records",S+" streaming_get_matching"),
  ("boundaries are stored with the data and read back on open",B+" finish; "+S+" new_with_options")],
 [("bin_boundaries","phrase ids at which bins start",S+" GridStore.bin_boundaries")],
 ["GridStore::streaming_get_matching with ranges, coalesce and stack_and_coalesce with ranges"])

prop("C11","Every query ends after a bounded amount of work, keeping the best candidates",
 "Every build and query ends, whatever its input and however slow the disk: a query reads no more storage records than its documented limits allow (limits on range fetches of short and of high-zoom phrases, each phrase key fetched once per query and not once per stack, reading stopped once no better result is possible). The number of stacks built stays near the documented budget however many phrase matches are given, and the stacks kept are the best ones. Limits drop only the lowest ranked work: the first answers always remain correct.",
 ["inputs","schedules","fault_sequences"],
 "every set of phrase matches from none to many thousands of admissible combinations, stores of any zoom, range and exact requests, slow or stalled storage and any number of workers",
 "the tests never count storage work or stacks and use inputs far below every limit",
 [C,K,S],
 [("quotas for range and high zoom fetches",C+" ONE_LETTER_RANGE_QUOTA, ONE_WORD_RANGE_QUOTA, ONE_WORD_HIGH_ZOOM_RANGE_QUOTA, ALL_HIGH_ZOOM_RANGE_QUOTA, ALL_HIGH_ZOOM_QUOTA, tree_coalesce"),
  ("soft leaf limit with culling of the worst leaves",K+" LEAF_SOFT_MAX, ArenaManager"),
  ("best possible relevance compared with the worst kept result",C+" tree_coalesce, coalesce_single"),
  ("one shared fetch per phrase key",C+" tree_coalesce KeyFetchStep")],
 [],["number of storage reads per call","size and content of stackable()'s tree","termination of every call"])

prop("C12","A store stays correct after transient failures and abandoned or repeated reads",
 "After any failed, interrupted or abandoned call (storage error, iterator dropped halfway, caller giving up or panicking elsewhere) every later call on the same open store gives the same correct answer it would have given on a fresh one. Stores opened several times, shared between threads, or reopened after others were closed behave the same, and a store opened after its directory was replaced by another build answers from the new data alone. No call hangs, panics or returns data that has been freed.",
 ["fault_sequences","histories","schedules"],
 "every sequence of calls with transient storage errors, early dropped iterators and concurrent callers on one shared store, followed by fault free calls",
 "tests never reuse a store after an error (no errors are injected) and never drop iterators early or hold several open at once",
 [S,C],
 [("readers keep no mutable state between calls",S+" GridStore"),
  ("lazily decoded iterators own the record they read",S+" decode_value, decode_matching_value")],
 [],["every public read call after a fault"])

prop("C13","The same request gives the same answer, whatever runs beside it",
 "The same sequence of builds and queries gives bit-identical answers in identical order in every process and run: independent of the process's hash seeds, of the number of worker threads, of how their work interleaves, of how slow the disk is, and of whether other callers use the same stores at the same time. Two concurrent identical requests get identical answers, ties included.",
 ["schedules","configurations","inputs"],
 "every workload of builds, lookups, coalesces and stackings run under several schedules, pool sizes, hash seeds, latencies and with or without concurrent callers",
 "each test runs once under whatever schedule and hash seed the process happens to have; nothing compares two runs",
 [C,K,S,B],
 [("parallel fetches are collected in request order before use",C+" tree_coalesce"),
  ("total tie breaks in result ordering",M+" CoalesceContext::sort_key"),
  ("deterministic maps where order can leak into results",C+" coalesce_multi; "+K+" stackable")],
 [],["answers of all public read calls across repeated runs"])

prop("C14","Geometry and scoring arithmetic is consistent over its whole domain",
 "Converting a proximity point or bounding box between zoom levels keeps it inside the world and inside its parent or children tiles, score-distance never increases with distance nor decreases with score, and the stored relevance steps convert both ways without loss.",
 ["inputs"],
 "every zoom, tile, box, distance, score and radius",
 "unit tests check a few dozen fixed values of each function",
 [X,M],
 [("zoom conversion of options and boxes",M+" MatchOpts::adjust_to_zoom; "+X+" adjust_bbox_zoom"),
  ("score-distance and relevance steps",X+" scoredist, tile_dist, proximity_radius; "+M+" relev_float_to_int, relev_int_to_float")],
 [],["MatchOpts::adjust_to_zoom","match and coalesce answers"])

prop("C15","The JavaScript binding does what the library does and never ends the process",
 "Every builder, store, key iterator, coalesce and stacking call made from JavaScript has the same effect and the same answer as the library call it stands for, for every value JavaScript can pass: language lists, options, boxes, language-less keys and 32-bit identifiers included. An asynchronous coalesce calls its callback exactly once, later, with either an error or the answer, however many calls are in flight and in whichever order they end. Failures of the storage and unusable arguments are thrown, or passed to the callback; none of them crashes or hangs the process, and a refused builder call changes nothing. A finished builder refuses every further call and the store it wrote stays as it was. A store stays usable by calls in flight and by iterators after JavaScript has let go of it.",
 ["histories","schedules","fault_sequences","inputs"],
 "every program of the event loop, every order in which calls end, every storage fault and every garbage collection",
 "the JavaScript tests make a few calls one at a time on an idle machine, need the compiled addon, and cannot decide when the event loop, the thread pool or the collector runs",
 ["native/src/gridstore.rs","native/src/lib.rs"],
 [("builders are taken out when finished","native/src/gridstore.rs JsGridStoreBuilder"),
  ("shared ownership of stores by calls and iterators","native/src/gridstore.rs deserialize_phrasesubq, JsGridKeyStoreKeyIterator"),
  ("tasks off the main thread and their callbacks","native/src/gridstore.rs CoalesceTask, StackAndCoalesceTask"),
  ("conversion of values and language lists","native/src/gridstore.rs langarray_to_langset, langset_to_langarray, prep_for_insert")],
 [],["GridStoreBuilder, GridStore, GridStoreKeyIterator, coalesce, stackAndCoalesce, stackable in JavaScript"])

prop("C16","The fuzzy phrase binding answers like the phrase index it wraps",
 "A phrase set built and asked through the JavaScript binding gives the same identifiers, identifier map, matches, windows, phrases and prefix bins as the phrase index called directly; its identifier map and prefix bins, handed to a grid store builder, renumber and divide that store accordingly. Errors of the index and unusable arguments are thrown and never crash the process, a failed build is reported, and a finished phrase set builder refuses further calls.",
 ["inputs","histories","fault_sequences"],
 "every phrase set, query, edit distance, ending type and storage fault",
 "the JavaScript tests use a handful of phrases and need the compiled addon",
 ["native/src/fuzzy_phrase.rs","native/src/gridstore.rs"],
 [("thin wrappers around the fuzzy-phrase crate","native/src/fuzzy_phrase.rs JsFuzzyPhraseSetBuilder, JsFuzzyPhraseSet"),
  ("identifier map and bins as buffers","native/src/fuzzy_phrase.rs finish, getPrefixBins; native/src/gridstore.rs renumber, loadBinBoundaries")],
 [],["FuzzyPhraseSetBuilder and FuzzyPhraseSet in JavaScript"])

prop("C17","Stores on disk mean the same to every release of the library",
 "A directory that one release of the library has written is answered correctly by another one. Stores written by the release these properties were written for (the pinned commit) are opened by the present code and give exactly the entries, listings, matches and boundaries that were put in, and stores written by the present code do so when that earlier release opens them. It stays so where both meet in one directory: a build of one release that died midway is completed by the other, the store of one is built again in place by the other, builders of both compete for it, power is lost, and readers of either look on meanwhile.",
 ["inputs","histories","crash_points","schedules"],
 "every store content, every assignment of releases to the builders and readers of a directory, every crash point",
 "unit tests write and read with the same code, so a change made on both sides at once passes them; they never mix releases",
 ["rust-src/src/gridstore/gridstore_format.rs","rust-src/src/gridstore/builder.rs","rust-src/src/gridstore/store.rs","rust-src/src/gridstore/common.rs"],
 [("record layout: variable length prefixes, pointers back from the end","rust-src/src/gridstore/gridstore_format.rs Writer, Reader"),
  ("keys: type marker, phrase id, language set without leading zeros","rust-src/src/gridstore/common.rs GridKey::write_to"),
  ("packed relevance and score, morton tiles, id and phrase hash","rust-src/src/gridstore/builder.rs extend_entries, compact_append; store.rs decode_value"),
  ("boundary record","rust-src/src/gridstore/builder.rs finish; store.rs new_with_options")],
 [],["directories written by GridStoreBuilder and opened by GridStore in deployments of different age"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        if not p["anchors"]["state"]: del p["anchors"]["state"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
