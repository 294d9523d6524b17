TECH = "symbolic execution of the real Go code (go/ssa) with z3 deciding every branch and assertion; counterexamples replayed on the compiled code"
NOT_APPLICABLE = []
SET, DEL, PURGE, GET, ITEM = 1, 2, 4, 8, 16
G, R, L, H = 1, 2, 4, 8
OUT = "more symbolic keys or operations than stated, and other filler patterns"
HASH = "the hash functions (runtime memhash, xxhash) are replaced by arbitrary functions: every key may have any pair of hashes"
ANY = "keys with arbitrary 64-bit hashes"
CRIT = lambda k, s, extra="": f"{k} {ANY}, {s} arbitrary operations{extra}"

def core(mode, audit, ops=SET | DEL | PURGE, get=0, **kw):
    """Runs that reach the different shapes of a map in one storage mode."""
    e = mode == 2
    rs = [
        run("any", "History", mode=mode, keys=2, steps=1, ops=ops | get, audit=audit, share=2,
            thorough=dict(steps=2), bounds=CRIT(2, "1 (thorough: 2)", ", default bucket size"), **kw),
        run("close", "History", mode=mode, keys=3, region=3, max=1, steps=0 if not e else 1, ops=ops, audit=audit, share=3,
            thorough=dict(steps=1, keys=3 if not e else 4), bounds="3 keys in one of the 16 regions, at most 1 item per bucket, 0-1 operations (thorough: 1)", **kw),
        run("split", "History", mode=mode, keys=1, region=3, max=2, fill=12, ftop=6, steps=2, ops=ops, audit=audit,
            thorough=dict(keys=2, steps=1), bounds="1 arbitrary key among 12 filler keys in a region, at most 2 items per bucket, 2 operations (thorough: 2 keys, 1 operation)", **kw),
        run("full", "History", mode=mode, keys=1, region=3, max=4 if not e else 32, fill=66, ftop=6, steps=1, ops=ops, audit=audit,
            bounds="1 arbitrary key among 66 filler keys in a region, 1 operation", **kw),
        run("spread", "History", mode=mode, keys=1, region=0, max=2, fill=40, steps=1, ops=ops, audit=audit,
            bounds="1 arbitrary key among 40 filler keys in all regions, at most 2 items per bucket, 1 operation", **kw),
        run("deep", "History", mode=mode, keys=1, region=3, deep=14, max=1, fill=30, fsort=58, ftop=6, steps=1, ops=ops, audit=audit,
            bounds="1 arbitrary key among 30 filler keys that share their first 56 bits in hash order, at most 1 item per bucket", **kw),
        run("dense", "History", mode=mode, keys=3, region=3, deep=15, max=1, steps=1, ops=ops, audit=audit,
            bounds="3 keys in a range of 16 hashes, at most 1 item per bucket, 1 operation", **kw),
        run("large", "History", mode=mode, keys=1, region=3, fill=330, ftop=6, max=256 if e else 16, steps=0, audit=audit, only=T,
            bounds="thorough: 1 arbitrary key among 330 filler keys in a region", **kw),
    ]
    return rs

SAMPLED = "The tests store fixed keys (hoge1, fuge0..fuge99999) whose hashes are random per process; a fault that needs particular hashes, bucket borders or an order of operations is met by chance or never."

RANGE, HSH, STORE = 32, 64, 128
SC = "memory accesses reordered by the hardware or the compiler; preemption inside a statement (only x op= y is split); more goroutines, operations or preemptions than stated"
CONC = [HASH, "goroutines run one at a time and are switched only between statements; a goroutine that runs for 2000 statements is switched as well"]
def conc(name, modes=MODES, fn="Concurrent", thorough=None, bounds="", preempt=1, **kw):
    th = dict(thorough or {}); th.setdefault("preempt", 2)
    return [run(f"{name}-{m}", fn, mode=i, sched=True, preempt=preempt, region=kw.get("region", 3), thorough=th,
                bounds=bounds + (f", every schedule with {preempt} preemptions" if th["preempt"] == preempt else f", every schedule with {preempt} (thorough: {th['preempt']}) preemptions"), **{k: v for k, v in kw.items() if k != "region"}) for m, i in modes]

prop("C01", "A plain map finds exactly the stored keys with their last values",
     "In a map without an item pool, after any sequence of Set, Delete, Purge and updates through loaded items, Get and GetByHash succeed for exactly the keys set and not deleted since, and return the value set last. This holds whatever the hashes of the keys and however the items are spread over and split between buckets.",
     ["inputs", "histories", "configurations"], "all sequences of operations over keys with all possible 64-bit hashes, for every maximal bucket size", SAMPLED,
     ["map.go", "bucket.go"], [dict(name="item list", meaning="all items and bucket borders in reversed-hash order", where="map.go Map.head/tail"), dict(name="bucket tree", meaning="16 regions split on demand", where="bucket.go bucket")],
     [dict(name="search from the nearest bucket border", where="map.go _searchBybucket"), dict(name="insertion", where="map.go _set, find, add2"), dict(name="split", where="map.go makeBucket")],
     core(0, G | H, get=ITEM), outside=OUT, assumes=[HASH])

prop("C02", "A map with an item pool finds exactly the stored keys with their last values",
     "In a map that takes its items from a pool, after any sequence of Set, Delete, Purge and updates through loaded items, Get and GetByHash succeed for exactly the keys set and not deleted since, and return the value set last, also when the pool has had to grow, and when goroutines serve the pool (UseGoroutineInPool).",
     ["inputs", "histories", "configurations"], "all sequences of operations over keys with all possible 64-bit hashes, for every maximal bucket size", SAMPLED,
     ["map.go", "pool2.go", "bucket.go"], [dict(name="pool", meaning="slices of items per region group", where="pool2.go Pool, samepleItemPool")],
     [dict(name="slot allocation and growth", where="pool2.go Get, _expand"), dict(name="insertion", where="map.go Set, _set, add2")],
     core(1, G | H, get=ITEM) + [
        run("grow", "History", mode=1, keys=2, region=3, fill=63, ftop=14, max=128, steps=1, ops=SET | DEL | PURGE | ITEM, audit=G | H, thorough=dict(steps=2), bounds="2 keys in one region after 63 filler keys that use the same pool: the pool grows; 1 (thorough: 2) operations"),
        run("served", "History", mode=1, served=1, keys=2, region=3, steps=1, ops=SET | DEL | PURGE | ITEM, audit=15, thorough=dict(steps=2), bounds="2 keys in one region, goroutines serve the pool, 1 (thorough: 2) operations"),
        run("served-grow", "History", mode=1, served=1, keys=2, region=3, fill=63, ftop=14, max=128, steps=1, ops=SET | DEL, audit=15, bounds="2 keys in one region after 63 filler keys that use the same pool, goroutines serve the pool, 1 operation"),
     ], outside=OUT + "; the order in which goroutines of the pool and of the caller run (they wait for each other)", assumes=[HASH])

prop("C03", "A map with embedded pools finds exactly the stored keys with their last values",
     "In a map that keeps its items inside the buckets (embedded pool), after any sequence of Set, Delete, Purge and updates through loaded items, Get and GetByHash succeed for exactly the keys set and not deleted since, and return the value set last, also after pools were grown, shifted, reused or split.",
     ["inputs", "histories", "configurations"], "all sequences of operations over keys with all possible 64-bit hashes, for every maximal bucket size", SAMPLED,
     ["map_embedded.go", "map.go", "bucket.go"], [dict(name="embedded pool", meaning="items of one bucket sorted by reversed hash", where="map_embedded.go samepleItemPool.items")],
     [dict(name="binary search", where="map_embedded.go bsearchBybucket"), dict(name="insert, grow, reuse", where="map_embedded.go getWithFn, insertToPool, expand"), dict(name="split", where="map_embedded.go makeBucket2, _split")],
     core(2, G | H, get=ITEM) + [
        run("slots", "Slots", keys=3, region=3, max=1, thorough=dict(keys=4), bounds="3 (thorough: 4) slots taken with the bucket functions, arbitrary hashes in one region"),
        run("reuse", "History", mode=2, keys=3, region=3, max=4, steps=3, pre=3, ops=SET | DEL | PURGE, audit=G | H, thorough=dict(steps=4), share=2, bounds="3 keys in one region, 3 (thorough: 4) operations: slots are freed and reused"),
        run("reuse4", "History", mode=2, keys=4, region=3, max=32, steps=2, pre=3, ops=SET | DEL | PURGE, audit=15, thorough=dict(steps=3), share=2, bounds="4 keys in one region of which 3 are set, 2 (thorough: 3) operations: the slot of one key is taken by another"),
     ], outside=OUT, assumes=[HASH])

SCRIPTS = [(0x10123890123, 1, None), (0x1084230, 1, None), (0x1012389401, 1, T), (0x108192a340, 1, T), (0x1018293014, 1, T), (0x10123c44, 2, T)]

def three(name, fn, **kw):
    th = kw.pop("thorough", None)
    return [run(f"{name}-{m}", fn, mode=i, thorough=th, **kw) for m, i in MODES]

prop("C04", "Traversal visits exactly the live keys, once each, in reversed-hash order",
     "At any point of any history, in every storage mode, RangeItem and Range visit each live key exactly once with its current value, no deleted key, in increasing order of the bit-reversed hash, and stop as soon as the callback returns false. The chain of items from First by Next reaches Last, holds the same live items in the same order, and Prev is the inverse of Next; NextWithNil and PrevtWithNil do the same for map heads and are nil behind Last and before First.",
     ["inputs", "histories", "configurations"], "all histories over keys with all possible hashes, every storage mode, every stopping point", "The tests never check the order or completeness of a traversal.",
     ["map.go", "map_embedded.go", "maphead.go"], [dict(name="item list", meaning="all items and bucket borders", where="map.go Map.head/tail")],
     [dict(name="ordered insertion", where="map.go add2"), dict(name="slice copies repair the list", where="map_embedded.go insertToPool, expand, compact, _split")],
     three("walk", "Traverse", keys=2, steps=1, ops=7, bounds="2 keys with arbitrary hashes, 1 operation, every stopping point")
     + three("walkfill", "Traverse", keys=1, region=3, fill=12, ftop=6, max=2, steps=2, ops=7, bounds="1 arbitrary key among 12 filler keys, at most 2 items per bucket, 2 operations")
     + three("order", "History", keys=3, region=3, max=1, steps=0, audit=R, thorough=dict(steps=1, ops=7), bounds="3 keys in one region, at most 1 item per bucket (thorough: 1 operation)")
     + three("full", "History", keys=1, region=3, max=32, fill=66, ftop=6, steps=1, ops=7, audit=R, bounds="1 arbitrary key among 66 filler keys in one region, 1 operation")
     + three("coll", "History", keys=2, collide=1, region=2, steps=2, ops=7, audit=R, bounds="2 keys that may share a hash, 2 operations")
     + three("reuse", "History", keys=4, region=3, max=32, steps=2, pre=3, ops=7, audit=R, thorough=dict(steps=3), bounds="4 keys in one region of which 3 are set, 2 (thorough: 3) operations: the place of one key is taken by another"),
     outside=OUT, assumes=[HASH])

prop("C05", "Len is the number of live keys",
     "After any history in every storage mode, Len equals the number of distinct keys that are set and not deleted: an update, a failed Delete or Purge, or a bucket split does not change it, and a key deleted and set again counts once.",
     ["inputs", "histories", "configurations"], "all histories over keys with all possible hashes, every storage mode", "The tests never call Len.",
     ["map.go", "map_embedded.go"], [dict(name="len", meaning="counter of live keys", where="map.go Map.len")],
     [dict(name="count on insertion", where="map.go _set"), dict(name="count on removal", where="map.go Delete, purgeInEmbedded")],
     three("any", "History", keys=2, steps=1, ops=31, audit=L, thorough=dict(steps=2), bounds="2 keys with arbitrary hashes, 1 (thorough: 2) operations")
     + three("hist", "History", keys=2, region=3, steps=4, pre=1, ops=7, audit=L, bounds="2 keys in one region, 4 operations")
     + three("split", "History", keys=1, region=3, max=1, fill=10, ftop=6, steps=2, ops=7, audit=L, bounds="1 arbitrary key among 10 filler keys, at most 1 item per bucket, 2 operations")
     + three("full", "History", keys=1, region=3, fill=66, ftop=6, steps=1, ops=7, audit=L, bounds="1 arbitrary key among 66 filler keys, 1 operation")
     + three("coll", "History", keys=2, collide=1, region=2, steps=2, ops=7, audit=L, bounds="2 keys that may share a hash, 2 operations"),
     outside=OUT, assumes=[HASH])

prop("C06", "Updating a key happens in place, visible through items loaded before",
     "While a key is live, Set of that key updates its item: the number of keys and the order do not change, and the item got earlier from LoadItem shows the new value; a value set through the item is what Get returns. In the modes without embedded pools LoadItem keeps returning the same item, whatever happens to other keys.",
     ["inputs", "histories"], "all hashes, all operations on other keys in between", "The tests never hold an item across an update.",
     ["map.go", "sample_hmap_entry.go"], [dict(name="item value", meaning="atomic value of an item", where="sample_hmap_entry.go SampleItem.V")],
     [dict(name="update in place", where="map.go _update, Set")],
     [run(f"keep-{m}", "InPlace", mode=i, keys=2, steps=1, thorough=dict(steps=2), bounds="2 keys with arbitrary hashes, 1 (thorough: 2) operations on the other key") for m, i in MODES[:2]]
     + [run(f"split-{m}", "InPlace", mode=i, share=4, keys=3, region=3, max=1, steps=0, thorough=dict(steps=1), bounds="3 keys in one region, at most 1 item per bucket, 0 (thorough: 1) operations on the other keys") for m, i in MODES[:2]]
     + [run("grow-pool", "InPlace", mode=1, keys=3, region=3, fill=63, ftop=14, max=128, steps=0, thorough=dict(steps=1), bounds="3 keys in one region after 63 filler keys that use the same pool: the pool grows; 0 (thorough: 1) operations on the other keys")]
     + three("item", "History", keys=2, steps=2, region=2, ops=SET | DEL | ITEM, audit=15, bounds="2 keys in 3 regions, 2 operations including updates through loaded items")
     + three("itemfill", "History", keys=1, region=3, fill=12, ftop=6, max=2, steps=2, ops=SET | DEL | ITEM, audit=G | L, bounds="1 arbitrary key among 12 filler keys, 2 operations"),
     outside=OUT, assumes=[HASH])

prop("C07", "Delete and Purge remove one key, report it, and the key can be set again",
     "Delete and Purge return true exactly when the key was live; afterwards the key is found by no lookup or traversal, all other keys keep their values, and deleting it again returns false. Setting the key again makes it live with the new value only.",
     ["inputs", "histories", "configurations"], "all histories of Set, Delete and Purge over keys with all possible hashes, every storage mode", "The tests delete one key once.",
     ["map.go", "map_embedded.go", "item.go", "sample_hmap_entry.go"], [dict(name="deleted mark", meaning="item is skipped", where="maphead.go mapIsDeleted")],
     [dict(name="marking", where="map.go Delete, purgeInEmbedded"), dict(name="slot reuse", where="map_embedded.go compact, getWithFn")],
     three("any", "History", keys=2, steps=1, ops=DEL | PURGE, audit=15, thorough=dict(steps=2, ops=7), bounds="2 keys with arbitrary hashes, 1 (thorough: 2) operations")
     + three("again", "History", keys=2, region=3, steps=4, pre=2, ops=7, audit=15, thorough=dict(steps=5), bounds="2 keys in one region, 4 (thorough: 5) operations")
     + three("three", "History", keys=3, region=3, max=4, steps=2, pre=3, ops=7, audit=15, thorough=dict(steps=3), bounds="3 keys in one region, 2 (thorough: 3) operations")
     + three("fill", "History", keys=1, region=3, fill=12, ftop=6, max=2, steps=3, ops=7, audit=15, bounds="1 arbitrary key among 12 filler keys, 3 operations")
     + [run(f"around-{m}", "History", mode=i, keys=4, region=3, pin=1 if i == 2 else 2, thorough=dict(pin=1), max=1, pre=0, audit=15, script=0x1081230, bounds="4 keys in one region (1 or 2 hashes fixed), at most 1 item per bucket: set 0, delete 0, set 1 2 3 0") for m, i in MODES]
     + [run(f"script{n}-{m}", "History", mode=i, keys=4, region=3, pin=p, max=1, pre=0, audit=15, script=sc, only=o, bounds="4 keys in one region (the hashes of the last ones fixed), at most 1 item per bucket: a fixed sequence of insertions and deletions") for n, (sc, p, o) in enumerate(SCRIPTS) for m, i in MODES if i == 2 or o],
     outside=OUT, assumes=[HASH])

prop("C08", "Nothing is found that was not stored",
     "After any history and for every pair of hashes, GetByHash and LoadItemByHash find an item exactly if a live key has that pair of hashes, and then return that key's item and value. Get, Delete and Purge of a key never stored find nothing and change nothing, however close its hash is to stored ones.",
     ["inputs", "histories"], "every pair of 64-bit hashes asked for, after all histories over keys with all possible hashes", "The tests look up one missing key.",
     ["map.go", "map_embedded.go"], [dict(name="item list", meaning="items and bucket borders in order", where="map.go Map.head/tail")],
     [dict(name="search", where="map.go _searchBybucket, searchConflict"), dict(name="binary search", where="map_embedded.go bsearchBybucket")],
     three("query", "Lookup", keys=1, steps=1, ops=7, thorough=dict(keys=2, steps=1, region=2), bounds="1 stored key (thorough: 2, in 3 regions) and 1 asked for, arbitrary hashes, 1 operation")
     + three("close", "Lookup", share=7, keys=2, region=3, max=1, steps=0, bounds="2 stored keys in one region, at most 1 item per bucket, an arbitrary pair of hashes asked for")
     + three("fill", "Lookup", keys=0, fill=20, max=2, steps=0, thorough=dict(fill=60), bounds="20 (thorough: 60) filler keys, an arbitrary pair of hashes asked for")
     + three("deep", "Lookup", keys=0, fill=20, ftop=6, deep=14, fsort=58, max=1, steps=0, bounds="20 filler keys sharing 56 bits, an arbitrary pair of hashes asked for"),
     outside=OUT, assumes=[HASH])

prop("C09", "Keys with the same hash are told apart",
     "Two different keys whose first hashes are equal, but not their second ones, behave like any other keys: each has its own value, lookups return the value of the key asked for, deleting one leaves the other, and traversal shows both. This holds in every storage mode.",
     ["inputs", "histories", "configurations"], "all pairs of hashes of 2-3 keys that differ in either hash, all short histories", "No test has two keys of the same hash; with 64-bit hashes none ever meets one.",
     ["map.go", "map_embedded.go", "maphead.go"], [dict(name="conflict", meaning="second hash of an item", where="maphead.go MapHead.conflict")],
     [dict(name="choice among neighbours", where="map.go searchConflict"), dict(name="insertion keeps equal hashes together", where="map.go add2; map_embedded.go insertToPool")],
     three("pair", "History", keys=2, collide=1, region=2, steps=2, ops=7, audit=15, thorough=dict(steps=3), bounds="2 keys, equal or different hashes in 3 regions, 2 (thorough: 3) operations")
     + three("triple", "History", keys=3, collide=1, region=3, max=4, steps=1, ops=7, audit=15, thorough=dict(steps=2), bounds="3 keys in one region, equal or different hashes, 1 (thorough: 2) operations")
     + three("split", "History", keys=3, collide=1, region=3, deep=15, max=1, steps=1, ops=7, audit=15, bounds="3 keys among 16 hashes, at most 1 item per bucket, 1 operation")
     + three("ask", "Lookup", keys=2, collide=1, region=3, max=4, steps=0, bounds="2 keys in one region that may share a hash, an arbitrary pair of hashes asked for"),
     outside=OUT + "; keys that agree in both hashes (128 bits) are the same key for the map, by design", assumes=[HASH])

prop("C10", "Hashing a key is deterministic and agrees between key forms and lookups",
     "KeyToHash maps a number to its own 64-bit value (sign-extended for signed types) with second hash 0 and nil to 0; equal text as string, as byte slice or as the key of an item has the same two hashes. GetByHash and LoadItemByHash with the hashes of a key agree with Get and LoadItem of that key, and an item reports its hashes through its map head.",
     ["inputs"], "all 64-bit numbers; arbitrary hash values for text", "No test compares hashes of different key forms.",
     ["hashfn.go", "maphead.go", "sample_hmap_entry.go", "item.go"], [], [dict(name="key hashing", where="hashfn.go KeyToHash")],
     [run("forms", "KeyHash", bounds="all 64-bit values, all supported numeric types; texts of 21 lengths from 0 to 300 in 4 forms"),
      run("again", "HashAgain", steps=3, bounds="3 (thorough: 4) texts of 5, in an arbitrary order, as string, byte slice, reused byte slice or key of an item", thorough=dict(steps=4))]
     + three("lookup", "Lookup", keys=1, steps=0, bounds="1 stored key and an arbitrary pair of hashes asked for")
     + three("byhash", "History", keys=2, steps=1, region=2, ops=7, audit=G | H, bounds="2 keys in 3 regions, 1 operation: Get and GetByHash agree"),
     outside="texts of other lengths (the hash functions are arbitrary functions of the bytes); quality of the hash", assumes=[HASH])

prop("C11", "Search mode and bucket size never change what a map contains",
     "For every search mode and every maximal number of items per bucket, set when the map is made or changed between operations, all operations return what they return with the defaults, in every storage mode.",
     ["configurations", "inputs", "histories"], "all search modes and bucket sizes, all hashes, short histories", "The tests use two configurations and one change of mode.",
     ["map.go", "bucket.go"], [dict(name="modeForBucket, maxPerBucket", meaning="tuning", where="map.go Map")], [dict(name="search from the near bucket", where="map.go searchBucket4Key4, searchBucket4update, _searchBybucket"), dict(name="split", where="map.go makeBucket; map_embedded.go makeBucket2")],
     three("mode", "Switch", what=0, keys=2, region=2, steps=0, after=1, bounds="2 keys in 3 regions, every change of the search mode, 1 operation after it", thorough=dict(steps=1))
     + three("modefill", "Switch", share=2, what=0, keys=1, region=3, fill=20, ftop=6, max=2, steps=0, after=1, bounds="1 arbitrary key among 20 filler keys, every change of the search mode, 1 operation after it")
     + three("size", "Switch", what=1, keys=2, region=3, steps=0, after=1, bounds="2 keys in one region, bucket size changed to 1..4, 1 operation after it", thorough=dict(keys=3))
     + three("sizefill", "Switch", what=1, keys=1, region=3, fill=12, ftop=6, max=8, steps=0, after=2, bounds="1 arbitrary key among 12 filler keys, bucket size changed from 8 to 1..4, 2 operations after it")
     + [run(f"bmode{b}", "History", mode=0, bmode=b, keys=2, region=3, max=1, steps=1, ops=3, audit=15, bounds="every search mode from the start, 2 keys in one region, at most 1 item per bucket") for b in (1, 2, 3, 4, 5)]
     + [run(f"bmode{b}-{m}", "History", mode=i, bmode=b, keys=2, region=3, max=1, steps=1, ops=3, audit=15, thorough=dict(keys=3), bounds="every search mode from the start, 2 keys in one region, at most 1 item per bucket") for b in (1, 2, 3, 4, 5, 6) for m, i in MODES[1:]]
     + [run(f"max{x}-{m}", "History", mode=i, keys=3, region=3, max=x, steps=0 if x == 2 and i < 2 else 1, ops=7, audit=15, share=3 if x == 2 and i < 2 else 1, thorough=dict(steps=1) if x == 2 and i < 2 else dict(keys=4), bounds="at most 2 or 3 items per bucket from the start, 3 (thorough: 4) keys in one region, 0-1 operations") for x in (2, 3) for m, i in MODES],
     outside=OUT + "; maximal bucket sizes below 1", assumes=[HASH])

prop("C12", "The garbage collector never takes away what the map holds",
     "After a garbage collection at any point of any history, all live keys are still found with their values, traversal is complete, and further operations work: every item, pool and bucket the map uses stays reachable through pointers the collector follows.",
     ["histories", "inputs"], "a collection after every operation of all short histories, all hashes, every storage mode", "Items are linked by relative addresses the collector does not see; whether memory is lost depends on when it runs and what is reused, which the tests do not control.",
     ["map.go", "pool2.go", "map_embedded.go", "bucket.go"], [dict(name="retained items and pools", meaning="pointers that keep items alive", where="map.go Map.retained, oldPools; bucket.go bucket._itemPool; pool2.go Pool.itemPool")],
     [dict(name="retain", where="map.go retain, UsePool")],
     three("any", "Collect", keys=2, steps=1, region=2, ops=7, bounds="2 keys in 3 regions, 1 operation, collection, 1 operation, collection", thorough=dict(region=0))
     + three("split", "Collect", keys=2, region=3, max=1, steps=0, each=1, bounds="2 keys in one region, at most 1 item per bucket, collection after each operation", thorough=dict(keys=3))
     + three("fill", "Collect", keys=1, region=3, fill=70, ftop=6, max=8, steps=0, bounds="1 arbitrary key among 70 filler keys in one region (pools grow), collections")
     + three("spread", "Collect", keys=1, region=0, fill=24, max=2, steps=0, bounds="1 arbitrary key among 24 filler keys in all regions, collections")
     + [run("toggle", "TogglePool", keys=2, region=2, bounds="pool switched on and off between operations, collection after each")],
     outside=OUT + "; values the user stores as uintptr", assumes=[HASH, "a collection frees every object not reachable through typed pointers from globals or live registers"])

prop("C13", "Pools always grow, and by bounded amounts",
     "The capacity chosen for a pool of n items is larger than n for every n, never smaller for a larger n, at most double and a power of two for 2 <= n < 256, and a multiple of 64 at most 64 above n from 256 on.",
     ["inputs"], "all lengths up to 2^40", "The test samples 12 lengths.",
     ["util.go", "map.go"], [dict(name="thresholds", meaning="minimal capacity and threshold", where="map.go conf")], [dict(name="capacity", where="util.go PoolCap")],
     [run("grow", "Capacity", bounds="all lengths 0..2^40"), run("mono", "CapacityMono", bounds="all pairs of lengths up to 2^20")],
     outside="lengths above 2^40")

prop("C14", "Items made by the user can be stored, with string or numeric keys",
     "StoreItem makes the key of an item live: lookups find its value, and outside the embedded mode LoadItem returns that very item; storing an item whose key is live updates the existing item instead. Items with numeric keys of every supported type are found, deleted, counted and traversed like string keys.",
     ["inputs", "histories", "configurations"], "all 64-bit numeric keys, all hashes of string keys, short histories", "The tests never call StoreItem on a map.",
     ["map.go", "item.go", "sample_hmap_entry.go"], [dict(name="ItemFn", meaning="how list elements are read as items", where="map.go Map.ItemFn")], [dict(name="storing", where="map.go StoreItem, _set")],
     three("store", "Store", keys=2, steps=1, region=2, bounds="2 keys in 3 regions, 1 operation", thorough=dict(steps=2))
     + three("storefill", "Store", keys=2, region=3, max=1, steps=1, bounds="2 keys in one region, at most 1 item per bucket, 1 operation")
     + [run(f"num-{t}", "Ints", type=i, keys=2, steps=1, bounds="2 arbitrary numeric keys of every type, 1 operation", thorough=dict(steps=2)) for i, t in enumerate(["uint64", "int", "int64", "int32", "uint32", "byte"])]
     + [run("num-split", "Ints", type=0, keys=3, region=3, max=1, steps=0, bounds="3 numeric keys in one region, at most 1 item per bucket", thorough=dict(steps=1)),
        run("kinds", "Kinds", mode=0, keys=1, region=2, steps=1, bounds="a map of text keys next to a map with one arbitrary numeric key, 1 operation"),
        run("num-pool", "Ints", type=0, mode=1, keys=2, steps=1, bounds="pool mode with numeric keys")],
     outside=OUT + "; items of different Go types in one map; an item object stored again while it is still linked as deleted", assumes=[HASH])

prop("C15", "Values of any type can be stored, and only strings as keys of Set",
     "Set stores any value, also nil and also of another type than the value before, and Get returns exactly it; no operation panics for keys of a supported type.",
     ["inputs", "histories"], "all sequences of values of 6 kinds; all supported key types", "The tests store values of one type.",
     ["sample_hmap_entry.go", "map.go"], [dict(name="item value", meaning="atomic value", where="sample_hmap_entry.go SampleItem.V")], [dict(name="SetValue", where="sample_hmap_entry.go")],
     three("values", "Values", keys=1, region=3, bounds="1 key, 2 values of 6 kinds")
     + [run(f"values2-{m}", "Values", mode=i, keys=2, region=3, bounds="2 keys in one region, 3 values of 6 kinds") for m, i in MODES]
     + [run(f"stored-{n}", "Values", how=h, keys=2, region=3, bounds="2 keys in one region stored as items of both types, 3 values of 6 kinds") for n, h in (("sample", 1), ("entry", 2))]
     + [run("setkey", "SetKey", bounds="Set with a key of every supported type", reach=())],
     outside=OUT, assumes=[HASH])

prop("C16", "List elements, map heads and items convert into each other without loss",
     "From the list element of an item its map head and the item itself are recovered; Offset is the distance between them; a new item is live, a deleted one is marked deleted and stays so. Key and value are what the item was made with or set to last.",
     ["inputs"], "both item types; values arbitrary", "The test recovers the key of two items.",
     ["util.go", "maphead.go", "item.go", "sample_hmap_entry.go"], [dict(name="map head", meaning="hashes, marks and list element", where="maphead.go MapHead")], [dict(name="pointer arithmetic", where="util.go ElementOf")],
     [run("heads", "Heads", bounds="both item types"), run("errors", "Errors", bounds="all error types")],
     outside="items of user types")

prop("C17", "The read-mostly map behaves like a map",
     "RMap: after any sequence of Set, Get and Delete by one goroutine, Get finds exactly the live keys with their last values, Delete reports whether the key was live, Len is the number of live keys, and no operation panics or blocks; moving keys from the dirty part to the read part is not observable.",
     ["inputs", "histories"], "all short histories over keys with all possible hashes", "The test sets 1000 keys once and reads each once.",
     ["rmap/rmap.go"], [dict(name="read and dirty parts", meaning="immutable map and skip list map", where="rmap/rmap.go readMap, RMap.dirty")], [dict(name="promotion", where="rmap/rmap.go storeReadFromDirty, missLocked")],
     [run("two", "RMap", keys=2, steps=3, region=2, rounds=2, share=3, bounds="2 keys in 3 regions, 3 (thorough: 4) operations", thorough=dict(steps=4)),
      run("three", "RMap", keys=3, steps=4, region=3, share=3, bounds="3 keys in one region, 4 (thorough: 5) operations", thorough=dict(steps=5)),
      run("more", "RMap", keys=4, steps=1, pre=4, region=3, rounds=3, bounds="4 keys in one region set, 1 operation, 3 rounds of reads", thorough=dict(steps=2)),
      run("order", "RMap", keys=3, pre=2, steps=3, region=3, share=3, rounds=1, maporder=1, bounds="3 keys in one region, 2 set before, 3 operations, both orders of every iteration over a Go map", thorough=dict(rounds=2)),
      run("coll", "RMap", keys=2, collide=1, steps=3, region=3, bounds="2 keys that may share a hash, 3 operations", thorough=dict(steps=4))],
     outside=OUT, assumes=[HASH])

prop("C18", "An option returns the option that restores the previous setting",
     "Applying an option to a map and then the option it returned leaves a map that works as configured before, and applying what that returned applies the option again; Options returns one such option per option given. Switching pools on and off this way loses no stored key.",
     ["configurations", "inputs", "histories"], "every option, applied and restored, followed by short histories over all hashes", "The tests never use what an option returns.",
     ["map.go"], [], [dict(name="options", where="map.go MaxPefBucket, BucketMode, ItemFn, UsePool, UseEmbeddedPool, Options")],
     [run(f"opt{o}", "Restore", opt=o, mode=m, keys=2, region=2, steps=1, bounds="every option applied and restored on a new map, 2 keys in 3 regions, 1 operation") for o, m in ((0, 0), (1, 0), (2, 0), (3, 1), (4, 2), (5, 0), (0, 2), (1, 1))]
     + [run(f"twin{o}-{m}", "Twin", opt=o, mode=i, keys=2, region=3, max=1, steps=0, thorough=dict(steps=1), bounds="every option applied and restored on a new map next to a map never changed: same contents, number of buckets and search steps") for o in range(4) for m, i in MODES]
     + [run(f"twin4-{m}", "Twin", opt=4, mode=i, keys=2, region=3, max=1, steps=0, bounds="the item type applied and restored, then an item with an arbitrary numeric key") for m, i in MODES[:2]]
     + [run("undo", "Undo", keys=2, region=3, max=1, steps=1, bounds="pool and embedded pool switched on and back on a new map, 2 keys in one region"),
        run("undo2", "Undo", keys=2, region=2, steps=1, bounds="pool and embedded pool switched on and back on a new map, 2 keys in 3 regions"),
        run("toggle", "TogglePool", keys=2, region=2, max=1, bounds="pool switched on and off between operations"),
        run("restore", "Switch", what=1, restore=1, keys=1, region=3, fill=10, ftop=6, max=8, after=1, steps=0, bounds="bucket size changed and restored between operations")],
     outside=OUT + "; switching a map that already holds items to or from the embedded mode", assumes=[HASH])

prop("C21", "Atomic operations on ints act on exactly the whole int",
     "LoadInt, StoreInt and CompareAndSwapInt read, write and compare all bits of the int they are given and nothing next to it; the swap happens exactly if the old value matches, and the result says so.",
     ["inputs"], "all 64-bit values", "No test calls them directly.",
     ["atomic_util/atomic.go"], [], [dict(name="size dispatch", where="atomic_util")],
     [run("ints", "AtomicInt", bounds="all 64-bit values of current, expected and new")], outside="32-bit platforms; interleavings (the functions are single atomic instructions)")

prop("C23", "The map can be used from inside a traversal",
     "A callback of Range or RangeItem may set, update, delete and look up keys and start another traversal: the traversal ends, visits every key that is live throughout exactly once, and the map is correct afterwards.",
     ["histories", "inputs"], "every operation on every key at every point of a traversal, all hashes", "The tests never touch the map in a callback.",
     ["map.go", "map_embedded.go"], [dict(name="traversal mode", meaning="global options of the list package", where="map.go RangeItem")], [dict(name="traversal", where="map.go RangeItem")],
     three("cb", "Reentrant", keys=2, region=2, bounds="2 keys in 3 regions, one operation or traversal in the callback at every point")
     + three("cbsplit", "Reentrant", keys=2, pre=1, region=3, max=1, bounds="2 keys in one region of which 1 is live, at most 1 item per bucket")
     + three("cbfill", "Reentrant", keys=1, pre=0, fill=6, ftop=6, region=3, max=2, bounds="1 arbitrary key among 6 filler keys, at most 2 items per bucket"),
     outside=OUT, assumes=[HASH])

prop("C24", "Maps do not influence each other",
     "Operations on one map never change what another map contains or how it can be used, whatever their storage modes: a key set, deleted or updated in one is not seen in the other. Two goroutines that use a map of their own each see what they would see alone.",
     ["histories", "inputs", "configurations", "schedules"], "all interleavings of short histories on two maps with the same keys, all hashes", "The tests use maps one after another and compare nothing.",
     ["map.go", "pool2.go", "map_embedded.go"], [dict(name="package variables", meaning="shared search options, traversal mode", where="map.go")], [dict(name="state per map", where="map.go NewHMap")],
     [run(f"two-{a}-{b}", "Isolation", mode=i, mode2=j, keys=2, region=2, steps=2, bounds="2 keys in 3 regions, 2 operations on two maps of every pair of modes", thorough=dict(steps=3, region=3)) for a, i in MODES for b, j in MODES if i <= j]
     + [run(f"kinds-{m}", "Kinds", mode=i, keys=2, region=3, steps=1, thorough=dict(region=2, steps=2), bounds="a map of 2 text keys next to a map with one arbitrary numeric key, in both orders, 1 (thorough: 2) operations") for m, i in MODES]
     + [run("split", "Isolation", mode=0, mode2=2, keys=2, region=3, max=1, steps=2, bounds="2 keys in one region, at most 1 item per bucket")]
     + conc("apart", modes=MODES[:1], fn="Apart", keys=1, pre=0, ops0=SET, ops1=SET, preempt=2, bounds="a map and a key for each of 2 goroutines")
     + [r for i, j in ((0, 0), (0, 2), (1, 1), (2, 2)) for r in conc(f"apart{j}", modes=[MODES[i]], fn="Apart", mode2=j, keys=2, pre=1, max=1, ops0=SET, ops1=SET | DEL | HSH | RANGE | GET, preempt=1, bounds="a map for each of 2 goroutines, 2 keys in one region of which 1 is stored, at most 1 item per bucket")],
     outside=OUT, assumes=[HASH])

prop("C25", "Debugging output and statistics leave the map as it is",
     "DumpBucket, DumpBucketPerLevel and DumpEntry write to the writer they are given, in one piece, without panicking and without changing what the map contains or does next; so do statistics and logging, switched on or off.",
     ["histories", "inputs", "configurations"], "every dump after all short histories, every storage mode", "The tests never dump a map.",
     ["map.go", "debug.go"], [], [dict(name="dumps", where="map.go DumpBucket, DumpBucketPerLevel, DumpEntry")],
     three("dump", "Dumps", keys=2, region=2, steps=0, bounds="2 keys in 3 regions, every dump, 1 operation after it", thorough=dict(steps=1))
     + three("dumpfill", "Dumps", keys=1, region=3, fill=12, ftop=6, max=2, steps=1, bounds="1 arbitrary key among 12 filler keys, 1 operation, every dump")
     + [run("num", "Ints", type=0, keys=2, steps=0, dump=1, bounds="2 arbitrary numeric keys, every dump"), run("num-pool", "Ints", type=0, mode=1, keys=1, steps=0, dump=1, bounds="1 arbitrary numeric key, every dump")]
     + three("stats", "Stats", keys=2, region=2, steps=1, ops=7, bounds="2 keys in 3 regions with statistics and logging on, 1 operation"),
     outside=OUT + "; the text of the dumps", assumes=[HASH])

prop("C19", "Concurrent lookups, updates and deletions act as in some sequential order",
     "While several goroutines look up, update, delete and traverse stored keys, in every storage mode, every call returns without panic, and all results and the final contents and Len are those of some order of the calls that respects real time: of several concurrent Delete or Purge calls of a key only one returns true, no update is lost or torn, and a lookup never misses a key that stays live. A traversal shows every key that stays live exactly once.",
     ["schedules", "inputs", "histories"], "all schedules with a bounded number of preemptions of 2-3 goroutines, all hashes, every storage mode", "The tests run goroutines without control over their interleaving and look at the result of lookups only.",
     ["map.go", "map_embedded.go", "maphead.go", "sample_hmap_entry.go"], [dict(name="deleted mark", meaning="set by one goroutine only", where="maphead.go MapHead.state"), dict(name="bucket lock", meaning="embedded items", where="bucket.go bucket.muPool")],
     [dict(name="marking", where="maphead.go markDeleted; map.go Delete, purgeInEmbedded"), dict(name="lock and look again", where="map.go loadItem")],
     conc("any", keys=2, ops0=127, ops1=127, bounds="2 stored keys in one region, any operation in each of 2 goroutines")
     + conc("two", keys=2, n0=2, ops0=SET | DEL | GET, ops1=SET | DEL | GET | RANGE, both=1, share=2, bounds="2 stored keys in one region, 2 operations in one goroutine and 1 in the other")
     + conc("then", keys=1, n1=2, ops0=SET | DEL, ops1=SET | GET | DEL | HSH | ITEM | RANGE, both=1, share=2, bounds="1 stored key: updated or deleted while another goroutine does 2 operations")
     + conc("split", keys=2, max=1, ops0=SET | DEL, ops1=PURGE | GET | RANGE, both=1, share=3, bounds="2 stored keys in one region, at most 1 item per bucket")
     + conc("fill", keys=1, fill=12, ftop=6, max=2, ops0=7, ops1=SET | DEL | GET | RANGE, both=1, share=2, bounds="1 arbitrary stored key among 12 filler keys, at most 2 items per bucket")
     + conc("three", keys=2, threads=3, ops0=DEL, ops1=SET | PURGE, ops2=GET | RANGE, share=2, bounds="2 stored keys in one region, 3 goroutines")
     + conc("entry", modes=MODES[:1], keys=1, entry=1, mixed=1, preempt=2, ops0=SET | DEL, ops1=SET | DEL | GET | HSH | ITEM | RANGE | STORE, both=1, bounds="1 entry (NewEntryMap) that is updated with values of two types or deleted")
     + conc("types", modes=MODES[:1], keys=1, mixed=1, preempt=2, ops0=SET, ops1=SET | GET | HSH | RANGE, both=1, bounds="1 item that is updated with values of two types"),
     outside=OUT + "; " + SC, assumes=CONC, quick=300)

prop("C20", "Concurrent insertion loses and duplicates nothing",
     "While several goroutines insert new keys with Set or StoreItem, and others look up, update, delete, insert again and traverse, in every storage mode and also while buckets are split and pools grow, every call returns without panic, and all results and the final contents and Len are those of some order of the calls that respects real time: a key inserted by two goroutines is there once, no insertion is lost, and no lookup or traversal misses a key that is live throughout.",
     ["schedules", "inputs", "histories"], "all schedules with a bounded number of preemptions of 2-3 goroutines, all hashes, every storage mode", "The tests insert distinct keys concurrently and look for them once afterwards.",
     ["map.go", "map_embedded.go", "bucket.go", "pool2.go"], [dict(name="insertion lock", meaning="one insertion of a new key at a time", where="map.go Map.muInsert"), dict(name="item list", meaning="items and bucket borders in order", where="map.go Map.head/tail")],
     [dict(name="second look", where="map.go Set, StoreItem"), dict(name="splits while others read", where="map.go makeBucket; map_embedded.go makeBucket2"), dict(name="copies while others read", where="map_embedded.go compact, insertToPool, expand"), dict(name="pools grow in place", where="pool2.go _expand")],
     conc("new", keys=2, pre=1, ops0=SET | DEL, ops1=127, both=1, bounds="2 keys in one region of which 1 is stored, any operation in the second goroutine")
     + conc("empty", keys=2, pre=0, ops0=SET, ops1=127, both=1, bounds="2 keys in one region, none stored")
     + conc("again", keys=2, n0=2, ops0=7, ops1=SET | GET | RANGE, both=1, share=2, bounds="2 stored keys in one region: deleted and inserted again while another goroutine works")
     + conc("then", keys=1, pre=0, n1=2, ops0=SET, ops1=SET | GET | DEL | HSH | ITEM | RANGE, both=1, share=2, bounds="1 key, not stored: inserted while another goroutine does 2 operations")
     + conc("then2", keys=2, pre=1, n1=2, k0=1, ops0=SET, ops1=SET | DEL | GET, share=2, bounds="2 keys in one region, 1 stored: the other one is inserted while another goroutine does 2 operations")
     + conc("split", keys=2, pre=1, max=1, ops0=SET, ops1=SET | DEL | GET | RANGE, both=1, share=4, bounds="2 keys in one region of which 1 is stored, at most 1 item per bucket", thorough=dict(preempt=1, keys=3))
     + conc("fill", keys=1, pre=0, fill=12, ftop=6, max=2, ops0=SET, ops1=SET | GET | RANGE, both=1, share=3, bounds="1 arbitrary new key among 12 filler keys, at most 2 items per bucket")
     + conc("grow", modes=MODES[1:2], keys=2, pre=1, fill=63, ftop=14, max=128, ops0=SET, ops1=SET | DEL | GET | RANGE, share=3, both=1, bounds="2 arbitrary keys, 1 stored, and 63 filler keys of another region in the same pool, which is full", thorough=dict(fill=64))
     + conc("grow", modes=MODES[2:], keys=2, pre=1, fill=63, ftop=6, max=128, ops0=SET, ops1=SET | DEL | GET | RANGE, share=3, both=1, bounds="2 arbitrary keys, 1 stored, among 63 filler keys in one region", thorough=dict(preempt=1, fill=66))
     + conc("three", keys=2, pre=0, threads=3, ops0=SET, ops1=SET, ops2=SET | GET | RANGE, share=2, bounds="2 keys in one region, 3 goroutines")
     + conc("item", modes=MODES[:1], keys=2, pre=1, ops0=STORE, ops1=STORE | SET | DEL | GET | RANGE, both=1, bounds="StoreItem of 2 keys in one region of which 1 is stored")
     + conc("second", modes=MODES[:2], keys=2, pre=1, fill=6, ftop=6, max=1, k0=1, k1=0, ops0=SET, ops1=GET, share=2, bounds="1 new key, 1 stored key that is looked up, 6 filler keys, at most 1 item per bucket"),
     outside=OUT + "; " + SC, assumes=CONC, quick=500)

prop("C22", "The read-mostly map can be used by several goroutines",
     "While several goroutines call Set, Get, Delete and Len of an RMap, also while keys move from its dirty part to its read part, every call returns without panic, and all results and the final contents and Len are those of some order of the calls that respects real time.",
     ["schedules", "inputs", "histories"], "all schedules with a bounded number of preemptions of 2-3 goroutines, all hashes", "The test of RMap uses one goroutine.",
     ["rmap/rmap.go"], [dict(name="read and dirty parts", meaning="read is replaced as a whole, dirty is guarded by the lock", where="rmap/rmap.go readMap, RMap.dirty")], [dict(name="promotion", where="rmap/rmap.go storeReadFromDirty, missLocked"), dict(name="replacement of a value", where="rmap/rmap.go store2")],
     conc("rm-empty", modes=[("rmap", 0)], fn="RMapConcurrent", keys=2, pre=0, ops0=11, ops1=11, share=3, thorough=dict(preempt=1), bounds="2 keys in one region, none stored, 2 goroutines")
     + conc("rm-one", modes=[("rmap", 0)], fn="RMapConcurrent", keys=2, pre=1, ops0=11, ops1=11, share=3, thorough=dict(preempt=1), bounds="2 keys in one region, 1 stored, 2 goroutines")
     + conc("rm-both", modes=[("rmap", 0)], fn="RMapConcurrent", keys=2, pre=2, ops0=11, ops1=11, share=3, thorough=dict(preempt=1), bounds="2 keys in one region, both stored, 2 goroutines")
     + conc("rm-moved", modes=[("rmap", 0)], fn="RMapConcurrent", keys=2, pre=2, gets=3, ops0=11, ops1=11, bounds="2 keys in one region, moved to the read part, 2 goroutines")
     + conc("rm-moved2", modes=[("rmap", 0)], fn="RMapConcurrent", keys=2, pre=2, gets=3, n0=2, n1=2, ops0=11, ops1=11, share=2, bounds="2 keys in one region, moved to the read part, 2 operations in each of 2 goroutines")
     + conc("rm-len", modes=[("rmap", 0)], fn="RMapConcurrent", keys=3, pre=2, ops0=11, ops1=RANGE, both=1, share=2, bounds="3 keys in one region of which 2 are stored, Len while another goroutine works")
     + conc("rm-len2", modes=[("rmap", 0)], fn="RMapConcurrent", keys=2, pre=2, gets=1, n0=2, ops0=11, ops1=RANGE, share=2, bounds="2 keys in one region, both stored, Len while another goroutine does 2 operations")
     + conc("rm-new", modes=[("rmap", 0)], fn="RMapConcurrent", keys=3, pre=2, gets=3, n0=2, ops0=11, ops1=11, share=3, thorough=dict(preempt=1), bounds="3 keys in one region of which 2 were moved to the read part, 2 operations in one goroutine and 1 in the other")
     + conc("rm-three", modes=[("rmap", 0)], fn="RMapConcurrent", keys=2, pre=2, gets=3, threads=3, ops0=11, ops1=11, ops2=11, bounds="2 keys moved to the read part, 3 goroutines"),
     outside=OUT + "; " + SC, assumes=CONC, quick=300)
