"""Writes /verif/properties.jsonl (kept as a script so that statements and anchors stay readable)."""
import json, os

FMT = "rust-src/src/gridstore/gridstore_format.rs"
BLD = "rust-src/src/gridstore/builder.rs"
STO = "rust-src/src/gridstore/store.rs"
SPA = "rust-src/src/gridstore/spatial.rs"
COM = "rust-src/src/gridstore/common.rs"
COA = "rust-src/src/gridstore/coalesce.rs"
STK = "rust-src/src/gridstore/stackable.rs"
TST = "test_utils/src/lib.rs"
NAT = "native/src/gridstore.rs"

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["observe_at"] = observe or []
    anchors["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "A phrase record decodes to exactly what was encoded",
     "For every phrase record - any number of relevance/score groups, each with any list of coordinates, each with any list of ids, lists possibly empty, shared between coordinates, or placed anywhere in the buffer - decoding the finished bytes yields the same groups, coordinates and ids in the same order. "
     "This holds whatever the size of the record and wherever the lists lie in it, so a record whose lists lie beyond 255, 65,535 or 16,777,215 bytes decodes exactly like a small one. It holds also when several records are written or read in turns, or read from the same place in memory one after another.",
     ["inputs"], "All nested records, all list lengths, all placements of the lists in the buffer.",
     "The one unit test that builds here encodes a single record of a few dozen bytes, in which every internal pointer fits in one byte.",
     [FMT], [("nested writer and readers", FMT + ": Writer, Reader, PhraseRecord, RelevScore, Coord")],
     state=[("data", "the append-only byte buffer offsets point into", FMT + ": Writer")],
     observe=["Writer::finish", "Reader::*", "read_*_raw"])
prop("C02", "Id lists read back exactly, by position and by iteration",
     "A list of 32-bit numbers written at any point of a buffer reads back with the same length and the same numbers, whether it is read by position, by borrowing iteration or by consuming iteration, and through either kind of reader. "
     "Any number of lists written to one buffer stay independently readable through the handles returned when they were written, whatever was written before or after them.",
     ["inputs", "histories"], "All lists of numbers, all sequences of writes to one buffer, all orders of reading.",
     "The unit test reads two short lists once, in one order; it never reads by position and never reaches a length that takes more than one byte to store.",
     [FMT], [("fixed-size element lists", FMT + ": write_fixed_vec, FixedVec")], observe=["Reader::read_fixed_vec", "read_fixed_vec_raw"])
prop("C03", "Coordinate lists keep every coordinate and every id-list pointer",
     "A list of coordinates, each with a pointer to its id list, reads back with the same length, coordinates and pointers by position and by iteration, whichever distances into the buffer the pointers have and whichever element of the list has the farthest one. "
     "Following each pointer that was read gives the id list that was attached to that coordinate.",
     ["inputs"], "All coordinate lists, all 32-bit coordinates, all pointer distances up to the 32-bit limit and mixtures of near and far pointers in one list.",
     "The unit test's pointers all fit in one byte, so none of the wider encodings and no list mixing near and far pointers is ever exercised.",
     [FMT], [("uniform element size chosen per list", FMT + ": write_uniform_vec, Coord::get_min_size, UniformVec")], observe=["Reader::read_uniform_vec", "read_uniform_vec_raw"])
prop("C04", "Relevance/score lists keep every group and its coordinate-list pointer",
     "A list of relevance/score groups reads back with the same length, the same relevance/score byte for every value from 0 to 255, and the same pointer to a coordinate list, for every distance into the buffer the pointer may have, even though each group takes a number of bytes that depends on its pointer. "
     "Following each pointer that was read gives the coordinate list that was attached to that group.",
     ["inputs"], "All group lists, all byte values, all pointer distances up to the 32-bit limit and mixtures of them in one list.",
     "The unit test reads lists of one or two groups with one-byte pointers; a mistake in how far to advance past a longer pointer is invisible there.",
     [FMT], [("variable-size elements", FMT + ": write_var_vec, RelevScore, VarVec")], observe=["Reader::read_var_vec", "read_var_vec_raw"])
prop("C05", "Single values read back exactly, with their size, and the last one is the root",
     "A single number, group, coordinate or record header written at any point of a buffer reads back unchanged through the handle returned for it, together with the number of bytes it occupies where that varies. "
     "A record header written last is the one found when a finished buffer is opened without any handle.",
     ["inputs", "histories"], "All values, all positions in a buffer, all sequences of writes.",
     "The tests only ever read one record header, at the end of one small buffer, and never read a lone group or coordinate.",
     [FMT], [("scalars and root lookup", FMT + ": write_*_scalar, read_*_scalar, read_root, read_phrase_record_from")], observe=["Reader::read_fixed_scalar", "Reader::read_var_scalar", "Reader::read_uniform_scalar", "read_phrase_record_from"])
prop("C06", "What was inserted under a key is exactly what reading the key returns",
     "After a store is built and opened, reading a key returns every distinct entry put under it and nothing else, with relevance rounded to one of 0.4, 0.6, 0.8 and 1, score kept to 4 bits, id to 24 bits and position and phrase hash intact; a key never written reads as absent. "
     "Entries come out ordered by relevance, then score, then position along the Z-order curve, then id, then phrase hash, all descending, whatever order they were inserted in.",
     ["inputs"], "All sets of keys and entries, including coordinates up to 65535, scores and ids beyond their stored width, duplicate entries, and records from empty to many megabytes.",
     "The tests read back a handful of tiny records at coordinates below 50; they need the database library, and cannot cover record sizes, boundary values or insertion orders.",
     [BLD, STO, FMT], [("grouping and encoding", BLD + ": extend_entries, get_encoded_value"), ("decoding", STO + ": decode_value, GridStore::get")],
     state=[("data", "entries collected per key before writing", BLD + ": GridStoreBuilder")], observe=["GridStore::get"])
prop("C07", "Any history of builder operations gives the same store as its simple meaning",
     "For every sequence of insert, append and compact-append operations, the finished store holds for each key what the last insert and the later appends to that key say: insert replaces everything under its key, append adds to it, and compact-append of one feature over several coordinates adds the same as appending one entry per coordinate. "
     "Operations on one key never affect another, those on one builder never the store of another in use at the same time, and repeating or reordering appends changes nothing.",
     ["histories"], "All sequences of builder operations over all keys and entries.",
     "Each test performs one or two operations on one key; interactions of operations are not sampled.",
     [BLD], [("builder operations", BLD + ": insert, append, compact_append, copy_entries")], observe=["GridStore::get", "GridStore::iter"])
prop("C08", "Listing a store gives every key once, in order, with its languages and entries",
     "Listing a store's keys yields every key that was written, with entries or without, exactly once and no other, in ascending phrase order, with exactly the phrase id and language set it was written with, for every language set including none, all, and any of the 128 languages. "
     "Listing keys with entries yields the same keys in the same order, each with the entries reading that key alone returns, whether or not the store also has prefix bins.",
     ["inputs"], "All sets of keys with arbitrary 32-bit phrase ids and 128-bit language sets, with and without prefix bins.",
     "The tests list stores with small consecutive phrase ids and a few small language sets.",
     [COM, STO], [("key encoding", COM + ": GridKey::write_to"), ("key decoding", STO + ": keys, iter")], observe=["GridStore::keys", "GridStore::iter"])
prop("C09", "Renumbering phrases equals having used the final numbers from the start",
     "Renumbering a builder's phrases with a mapping and finishing gives the same store as inserting the same data directly under the final phrase numbers, language sets and entries untouched. "
     "A mapping that lacks one of the phrases in use, or that would give two different phrases with the same language set one number, is rejected with an error.",
     ["inputs", "histories"], "All data sets and all mappings, including permutations, shifts, merges and too-short mappings.",
     "One test renumbers one small store with one reversed mapping and never checks the rejections.",
     [BLD], [("renumber", BLD + ": GridStoreBuilder::renumber")], observe=["GridStoreBuilder::renumber", "GridStore::iter"])
prop("C10", "A phrase query finds exactly the entries of the phrases it covers",
     "A query for one phrase or for a half-open range of phrases returns every entry of every key whose phrase is covered, and nothing else, once per key, for every phrase id up to the 32-bit maximum. "
     "Each result says whether its key's languages intersect the query's languages (a key for all languages always does, a key for none never does), and its relevance is the stored one, reduced to 0.96 of it exactly when the languages do not match and it is not within the proximity radius.",
     ["inputs"], "All stores, all phrase ranges (empty and reversed ranges included), all 128-bit language sets.",
     "The tests sample a few ranges over three or four phrases and two languages.",
     [STO, COM], [("range scan", STO + ": streaming_get_matching"), ("key matching", COM + ": MatchKey::write_start_to, matches_key, matches_language")], observe=["GridStore::streaming_get_matching"])
prop("C11", "Prefix bins never change which results a range query finds",
     "For every store and every ascending list of bin boundaries, a range query whose two ends are boundaries finds the same set of distinct results (entry, language match, distance and score) as in a store built from the same data without bins. "
     "Adding bins changes nothing about reads of single keys, listings, or queries whose ends are not both boundaries.",
     ["inputs", "configurations"], "All data sets, all ascending lists of boundaries (starting above zero, with empty bins, or beyond the last phrase included), all ranges.",
     "Two tests compare one small data set whose boundaries start at zero.",
     [BLD, STO], [("bin grouping at build time", BLD + ": finish, copy_entries"), ("choice of bins at query time", STO + ": streaming_get_matching")],
     state=[("bin_boundaries", "boundaries stored with the data", STO + ": GridStore")], observe=["GridStore::streaming_get_matching"])
prop("C12", "A bounding box keeps exactly the results inside it",
     "With a bounding box, a query returns exactly those results of the same query without the box whose tile lies in the box, edges included, each with the same attributes; without a proximity point the results of one key also keep their relative order. "
     "This holds for every box within the tile range, including single-tile boxes, boxes crossing Z-order jumps and boxes containing no data.",
     ["inputs"], "All stores and all valid boxes over the 16-bit tile range.",
     "The tests use a few hand-picked boxes over at most two dozen consecutive tiles.",
     [SPA, STO], [("Z-order range narrowing", SPA + ": bbox_range, bbox_filter, bbox_proximity_filter, coord_binary_search")], observe=["GridStore::streaming_get_matching"])
prop("C13", "Proximity reorders results but never loses, adds or alters them",
     "With a proximity point, with or without a bounding box, a query returns the same set of entries as without it, each carrying its straight-line tile distance to the point and the score derived from that distance, and is exempt from the language penalty exactly when that distance is within the radius (miles x 0.8 x 1.5^(zoom-14) tiles, at every zoom). "
     "Within one key, relevance and score, results come in order of increasing Z-order distance from the point, and where the scores of one key compete, the result with the better distance score among those next in line comes first.",
     ["inputs"], "All stores, points anywhere in the 16-bit tile range (outside the data included), all zooms and radii.",
     "The tests sort at most ten consecutive tiles around three points.",
     [SPA, STO], [("outward merge from the point", SPA + ": proximity, bbox_proximity_filter"), ("distance and radius", SPA + ": tile_dist, proximity_radius; " + STO + ": decode_matching_value")], observe=["GridStore::streaming_get_matching"])
prop("C14", "Query results stream best first, and a cap never drops a better result",
     "Without a proximity point, results of a query over any number of keys arrive in descending order of relevance, then score, then language match. "
     "With a cap of k, none included, the first k of them rank exactly as the first k of the uncapped query. With a proximity point and all languages matching, relevance still never increases along the stream.",
     ["inputs"], "All stores, all ranges over any number of keys, all caps.",
     "The tests query at most a handful of keys and never with a cap smaller than the number of keys.",
     [STO], [("priority queue of per-key streams", STO + ": streaming_get_matching, QueueElement")], observe=["GridStore::streaming_get_matching"])
prop("C15", "The distance score follows its formula and is monotone",
     "With a proximity point, a result's score is ((6 e^min(s,7) / e^7) + 1) divided by the ratio of its distance (at least 0.8 tiles, when below one tile) to the radius in tiles, the ratio capped at one and the radius being miles x 0.8 x 1.5^(zoom-14) with zoom taken as at least 6; without one it is the stored score. "
     "Hence it never rises with distance, never falls with stored score, and does not depend on distance beyond the radius.",
     ["inputs"], "All zooms from 0 to 16, all scores, distances and radii.",
     "Unit tests check a few literal values.",
     [SPA, STO], [("formula", SPA + ": scoredist, proximity_radius, tiles_per_mile_by_zoom")], observe=["MatchEntry.scoredist via GridStore::streaming_get_matching"])
prop("C16", "Changing a request's zoom maps its point and box consistently",
     "Re-expressing match options at another zoom sets that zoom, leaves absent parts absent, and is the identity at the same zoom; going to a lower zoom maps the point and the box corners to their ancestor tiles, so every tile of the box has its ancestor in the new box. "
     "Going to a higher zoom maps the box to exactly the descendants of its tiles and the point to the upper-left of the middle descendants of its tile; going up and back down gives the original, for every pair of zooms from 0 to 16.",
     ["inputs"], "All pairs of zooms from 0 to 16, all tiles valid at the source zoom, all boxes.",
     "Tests check about a dozen literal boxes and points.",
     [COM, SPA], [("adjustment", COM + ": MatchOpts::adjust_to_zoom; " + SPA + ": adjust_bbox_zoom")], observe=["MatchOpts::adjust_to_zoom"])
prop("C17", "The nearby-only restriction is the 25-mile box around the point",
     "Restricting options to nearby results yields the box reaching 25 miles (rounded up to whole tiles at that zoom) from the proximity point in each direction, cut off at the edges of the tile range and intersected with any box already present, and changes nothing else; without a point it changes nothing. "
     "It never panics or wraps around, wherever the point lies and at every zoom from 0 to 16, and when the intersection is empty a query with the restricted options finds nothing.",
     ["inputs"], "All points, zooms 0 to 16, all boxes.",
     "The unit test checks four literal cases far from the upper edge of the tile range.",
     [COM], [("restriction", COM + ": MatchOpts::with_nearby_only")], observe=["MatchOpts::with_nearby_only", "GridStore::streaming_get_matching"])
prop("C18", "Single-index coalescing returns the best grid of each of the best features",
     "Coalescing one subquery returns at most 40 contexts of one grid each, one per feature, ordered by descending relevance (stored relevance times the subquery's weight), then score, then larger x, y and id, all within 0.25 of the best relevance, each a real result of the query with the subquery's index, mask and weight applied. "
     "When the query has at most 80 results and either no proximity point or only matching languages, each feature is represented by its most relevant and then highest-scoring grid and no feature that ranks above a returned one is missing; without a proximity point the latter also holds for any number of results if no feature has two.",
     ["inputs"], "All stores, weights, masks, options and feature ids (zero included).",
     "Tests coalesce fewer than ten grids in fixed arrangements.",
     [COA], [("single coalesce", COA + ": coalesce, coalesce_single")], observe=["coalesce"])
prop("C19", "Multi-index coalescing stacks only compatible real grids, and misses none",
     "Coalescing several subqueries returns at most 40 contexts in descending rank (relevance, then score of the leading grid, and among equals lower index, larger x, y, id), within 0.25 of the best, distinct in their leading grid, each made of real results of different subqueries with disjoint masks whose tiles contain one another across zooms, with mask the union and relevance the sum of its parts; a context led by the finest index has 0.01 taken off when it has a single part or its leading mask is the larger of the first two. "
     "For two subqueries of up to 100,000 results each, every grid of the finer index is stacked on the most relevant grid of the coarser index whose tile contains it, and no context that ranks above a returned one is missing. With more, subqueries are taken from the coarsest zoom up (at one zoom by index), and each grid takes, zoom by zoom, from the stacks already formed at the tile containing it, in the order they were formed, every part of another index whose mask is free, a more relevant part with the mask of the one just taken replacing it; grids of subqueries between the first and the last are kept only when stacked on something; the best contexts so formed, one for each leading grid, are returned.",
     ["inputs"], "All pairs and longer stacks of stores and zooms, all masks, weights and options.",
     "Tests stack two or three stores with a handful of grids in fixed arrangements.",
     [COA], [("multi coalesce", COA + ": coalesce, coalesce_multi")], observe=["coalesce"])
prop("C20", "The stack tree holds exactly the valid stacks, and keeps the best when limited",
     "The tree built from phrase matches has one path for every sequence of matches of strictly increasing index type with disjoint masks in which no match declares itself incompatible with another, and none in which a match directly follows one that it declares itself incompatible with; every node's mask, index, zoom and best attainable relevance describe its path and its subtree. "
     "When there are more complete stacks than the limit of 2000, every complete stack that fewer than 2000 others beat in relevance is still there, and at most 2000 of those kept beat the worst one kept.",
     ["inputs"], "All lists of phrase matches with arbitrary types, masks, weights and incompatibilities.",
     "Four tests build trees of at most a dozen nodes; the limit is never reached.",
     [STK], [("tree construction", STK + ": stackable, binned_stackable"), ("limiting", STK + ": ArenaManager")],
     state=[("min_relev / relev_map", "relevance buckets of kept nodes and the worst kept", STK + ": ArenaManager")], observe=["stackable"])
prop("C21", "Tree coalescing returns exactly the stacks of real, nested grids",
     "Coalescing a stack tree returns, best first (relevance, then score of the leading grid, and among equals lower index, larger x, y, id), exactly the contexts obtained by taking for every path of the tree one real result of each match such that each tile contains the next finer one, with mask the union and relevance the sum of the parts, less 0.01 when it has a single part or its leading mask exceeds the next, a match that can stand only alone being coalesced on its own without that penalty, one context per feature. "
     "This holds as long as the documented limits (100,000 results per match, 40 contexts per match and step, 800 overall, 80 results and a span of 0.25 in relevance for a match that stands alone, quotas on slow ranges) are not reached; when the limit of 800 is reached, what is returned is the best by relevance of what was found.",
     ["inputs"], "All trees over stores of any zooms, all options, including several keys per match and nearby-only keys.",
     "Tests run it on the same handful of stacks as the simple coalescing and compare a few fields.",
     [COA, STK], [("tree coalesce", COA + ": tree_coalesce, tree_coalesce_single, TreeCoalesceState, CoalesceStep")], observe=["tree_coalesce", "stack_and_coalesce"])
prop("C22", "Grouping phrase matches and their order do not change the results",
     "Coalescing phrase matches that share index, weight and mask as one group gives the same contexts as coalescing them ungrouped, and grouping keeps every match key exactly once. "
     "Permuting the phrase matches, or repeating a request, does not change the contexts returned, as long as none of the limits on contexts, per step or overall, is reached.",
     ["inputs", "configurations"], "All lists of phrase matches and all their permutations.",
     "One test groups two matches; none compares results.",
     [COA], [("grouping", COA + ": collapse_phrasematches, stack_and_coalesce")], observe=["collapse_phrasematches", "stack_and_coalesce"])
prop("C23", "Quotas bound slow range scans per request, and only those",
     "In one request, at most 8 single-letter range matches, 8 single-word range matches on high-zoom indexes (14 and up) not restricted to nearby, 40 single-word range matches, 40 high-zoom ranges and 600 high-zoom matches not restricted to nearby are looked up. "
     "A match that falls under none of these limits is always looked up, and any other is passed over only when a limit it falls under has been reached by the matches looked up, or, for a single-word range on a high-zoom index that nothing can be stacked on, when at most three quarters of the relevance of the best found can be reached with it. " 
     "When a limit is reached among range matches that can only stand alone, those looked up are the best under it: by relevance, then those from stores with a bounding box that contains the proximity point, then by the greatest score their stores were opened with.",
     ["inputs"], "All mixes of exact and range matches, phrase lengths, zooms, masks and nearby restrictions.",
     "No test issues more than a few matches in one request.",
     [COA], [("quota counters", COA + ": tree_coalesce")], observe=["stack_and_coalesce", "tree_coalesce"])
prop("C24", "Results do not depend on threads",
     "Coalescing gives the same contexts whatever the size of the thread pool and however many requests run at once, and stores shared by many threads answer every query as they do when used by one. "
     "Opening the same store several times, with different options, gives independent readers of the same data.",
     ["schedules", "configurations"], "All requests, thread-pool sizes and interleavings of concurrent requests (sampled schedules).",
     "All tests run one request at a time.",
     [COA, STO], [("parallel phases", COA + ": tree_coalesce"), ("shared reader", STO + ": GridStore")], observe=["tree_coalesce", "GridStore::streaming_get_matching", "GridStore::get"])
prop("C25", "Results streamed lazily are those of the store, however they are consumed",
     "Any number of result streams from one or several stores can be open at once and advanced in any interleaving, abandoned half-way, or finished after others were dropped, and each yields exactly what it yields when consumed alone. "
     "No stream ever reads memory that has been released.",
     ["histories"], "All interleavings of opening, advancing and dropping streams.",
     "Tests collect each stream immediately into a list.",
     [STO], [("record buffers moved along with the stream", STO + ": decode_value, decode_matching_value")], observe=["GridStore::get", "GridStore::streaming_get_matching", "GridStore::iter"])
prop("C26", "The bounded queue keeps the best, and grouping keeps everything in order",
     "After any sequence of pushes and pops, the bounded priority queue holds at most its limit, reports whether each element was kept, and holds exactly the best elements pushed and not popped, listing them in descending order. "
     "Grouping a sequence by key yields maximal runs of equal keys which, concatenated, are the sequence, and looks no further ahead than one element past the group returned.",
     ["inputs", "histories"], "All sequences of operations, all limits, all sequences to group.",
     "One unit test groups two literal lists; the queue has none.",
     [COM], [("bounded queue", COM + ": ConstrainedPriorityQueue"), ("grouping", COM + ": somewhat_eager_groupby")], observe=["ConstrainedPriorityQueue", "somewhat_eager_groupby"])
prop("C27", "Public values survive serialization unchanged",
     "Grid entries, keys, match keys, options, contexts and their parts, written to JSON and read back, are equal to the originals, for every language set, phrase range, option and relevance. "
     "A match key written without the optional fields reads back with the documented defaults (not nearby-only, phrase length zero), and an incompatibility set is written as the list of its members.",
     ["inputs"], "All values of the public types.",
     "No test serializes anything, although the bindings and the dump tools depend on it.",
     [COM, STO], [("derives", COM + ": Serialize/Deserialize, serialize_fixedbitset")], observe=["serde"])
FUZ = "native/src/fuzzy_phrase.rs"
prop("C28", "Stores built and read through the JavaScript API hold what was given",
     "Keys, entries, language lists, coordinates, id mappings, bin boundaries and options given in JavaScript reach the engine unchanged, and entries and keys come back to JavaScript as they were stored; leaving the languages out means all languages, and numbers of 128 and above are no language. "
     "Invalid arguments and any use of a builder after finish() throw a JavaScript error and change nothing. "
     "Every iterator over keys starts at the first key, gives each key once in order independently of other iterators, and stays valid after its store has been dropped.",
     ["inputs", "histories"], "All argument values, valid or not, and all call sequences from JavaScript.",
     "The JavaScript tests need a compiled addon, call each method once or twice with valid arguments, and never step two iterators alternately.",
     [NAT, "index.js", "native/src/lib.rs"],
     [("argument and language conversion", NAT + ": prep_for_insert, langarray_to_langset, langset_to_langarray"),
      ("classes", NAT + ": JsGridStoreBuilder, JsGridStore, JsGridKeyStoreKeyIterator"), ("keys()", "index.js")],
     observe=["GridStoreBuilder, GridStore, GridStore.keys() in JavaScript"])
prop("C29", "Coalescing from JavaScript gives the engine's result, once, asynchronously",
     "coalesce and stackAndCoalesce called from JavaScript call back exactly once, after they have returned, with what the engine itself gives for the same stores, phrase matches and options: the same contexts in the same order with every field, or an error if the engine fails. "
     "Requests scheduled together do not affect one another and keep the stores they use alive. "
     "A request with an invalid phrase match or option, like a missing or wrongly typed field, throws a JavaScript error and never calls back.",
     ["inputs", "schedules"], "All requests and options, valid or not, and any number of requests at once.",
     "The JavaScript tests make a handful of valid calls and compare a few fields; nothing compares the two sides over inputs or gives wrong values field by field.",
     [NAT], [("requests from JavaScript", NAT + ": deserialize_phrasesubq, js_coalesce, js_stack_and_coalesce, js_stackable"),
             ("tasks", NAT + ": CoalesceTask, StackAndCoalesceTask")],
     observe=["coalesce, stackAndCoalesce, stackable in JavaScript"])
prop("C30", "The fuzzy phrase index is passed through JavaScript faithfully",
     "Phrases, word replacements, ending types, distances and ids given in JavaScript reach the fuzzy phrase index unchanged, and what it answers - ids, the mapping of ids, matches, windows, phrases and prefix bins - comes back to JavaScript complete and in order; prefix bins are the first id of each bin followed by the last id plus one, and a mapping of ids is an array of 32-bit numbers as renumber() takes it. "
     "An error of the index, invalid arguments, and any use of its builder after finish() throw a JavaScript error.",
     ["inputs", "histories"], "All arguments and answers, and all call sequences from JavaScript.",
     "The JavaScript tests build one small index and look up a few phrases.",
     [FUZ], [("builder and set", FUZ + ": JsFuzzyPhraseSetBuilder, JsFuzzyPhraseSet")],
     observe=["FuzzyPhraseSetBuilder and FuzzyPhraseSet in JavaScript"])

prop("C31", "A store opens with the options it is given, or the defaults",
     "A store opened without options has zoom 6, type 0, radius 0, the whole world as its box at that zoom and a maximum score of 0; opened with options it keeps exactly those, for every reader opened on it independently, and counts as slow for ranges exactly when its zoom is 14 or more. "
     "Path and prefix bin boundaries are found again on reopening. A path holds what was built there last, after what was there is removed. What is no store does not open, and trying creates nothing. "
     "The box of the whole world at a zoom covers exactly the tiles of that zoom, and turns into that of another zoom when adjusted.",
     ["inputs", "configurations"], "All options, all contents of stores, all zooms, and paths that are no store.",
     "Tests open every store with the options their query needs and never look at them again, nor open anything that is not there.",
     [STO, SPA], [("opening", STO + ": GridStore::new, new_with_options"), ("world box", SPA + ": global_bbox_for_zoom")],
     observe=["GridStore::new", "GridStore::new_with_options", "global_bbox_for_zoom"])

prop("C32", "Records keep the format that stored ones have",
     "Records written by an earlier version stay readable, and what is written now can be read by one, because both follow one format: the last four bytes of a record point to the list of groups; every list begins with its length as a variable-length number of seven bits per byte; a group is its relevance/score byte and a variable-length pointer to its coordinates; a list of coordinates says in one byte how many bytes each takes, four for the coordinate and the rest for a pointer to its ids; an id takes four bytes; all lowest byte first. "
     "A record laid out so, in whatever order its lists lie and with whatever between them, decodes to what it holds, also when its pointers take more bytes than needed. A record that is encoded has this form, with as few bytes per coordinate as the farthest pointer of the list allows.",
     ["inputs"], "All records, all layouts the format allows, of any size below 4 GiB.",
     "The test reads back only what the same code has just written, so a change made to both sides passes.",
     [FMT], [("reading and writing", FMT + ": Writer, Reader, FixedVec, VarVec, UniformVec and the encodable types")], observe=["Writer::finish", "read_phrase_record_from"])
prop("C33", "Stores keep the layout that those on disk have",
     "Stores built by an earlier version stay readable, and what is built now can be read by one, because both follow one layout: a key-value database in which the entries of a key lie under a byte 0, the phrase in four bytes and the language set without its leading zero bytes (empty for all languages, one zero byte for none), highest byte first; those of all phrases of a prefix bin with the same languages under a byte 1, the first phrase of the bin and the languages; and the first phrases of the bins under ~BOUNDS, four bytes each, lowest first. "
     "Each record (C32) lists groups, coordinates and ids in descending order, each once: the relevance step above the score in one byte, x in the even and y in the odd bits of the coordinate, the id above the phrase hash.",
     ["inputs"], "All keys, language sets, entries and prefix bins.",
     "The tests open only stores the same code has just built.",
     [BLD, STO, COM], [("database keys", COM + ": GridKey::write_to, MatchKey"), ("records and bins", BLD + ": get_encoded_value, finish"), ("reading", STO + ": GridStore, decode_value")], observe=["GridStoreBuilder::finish", "GridStore::new", "GridStore::get", "GridStore::iter", "GridStore::streaming_get_matching"])

prop("C34", "Stores and requests written out as JSON come back the same",
     "dump_db_to_json (and the program dump_store) writes a line of JSON per key of a store, in the store's order, with the key and all its entries, and the sorted first phrases of the bins beside it in <name>.gridstore.splits; the store stays as it is. "
     "load_db_from_json (and load_store) makes from such files, the lines and the entries in them in any order and empty lines left out, a store with the same content, the same bins and the same results, which is written out again byte for byte the same. "
     "prepare_phrasematches takes up requests written as JSON: the same matches, options and incompatible indexes over stores with the recorded options and the same content, hence the same results, also when what it fetched is there already; prepare_stackable_phrasematches gives the same matches over a stand-in with the recorded options.",
     ["inputs", "histories"], "All stores and requests that can be written as JSON, with bins in ascending order.",
     "The tests use these tools only to read two fixed files.",
     [TST, STO, COM], [("writing and reading", TST + ": dump_db_to_json, load_db_from_json_reader"), ("requests", TST + ": prepare_phrasematches, prepare_stackable_phrasematches"), ("programs", "test_utils/src/dump.rs, test_utils/src/load.rs")], observe=["test_utils::dump_db_to_json", "test_utils::load_db_from_json", "test_utils::prepare_phrasematches", "dump_store", "load_store"])

out = "".join(json.dumps(p) + "\n" for p in P)
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(path, "w").write(out)
print(len(P), "properties")
