#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
        "mechanism": [dict(name=a, where=b) for a,b in mech],
        "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Live keys always resolve to their latest value",
  "After any sequence of inserts, updates, deletes and abandoned operations over keys none of which is a prefix of another, looking up a key that is in the tree reports it found with the value most recently stored for it, reduced to its low 55 bits. Preparing an update or a delete of a key that is in the tree presents exactly that key's current value as the candidate, and without competing writers every finalize of a matching operation succeeds. No such operation panics or fails to return.",
  ["inputs","histories"], "all finite sequential histories over all prefix-free sets of non-empty byte-string keys (any bytes, shared runs and fan-outs) and all 64-bit values",
  "The tests insert fixed integer sets in one pass and a handful of words; they never mix deletes with re-inserts, long shared runs, fan-outs around the 127/128 switch, or values beyond small integers.",
  ["radix.go","update.go","delete.go","utils.go","unsafe.go","allocator.go"],
  [("copy-on-write growth, split and collapse of nodes","update.go Finalize, delete.go Finalize"),("lock-free descent","radix.go search"),("prefix storage","unsafe.go storePrefix/appendPrefix")],
  [("root","root leaf or node word","radix.go Tree.root"),("node words","count/prefix length/address or leaf value","utils.go")],
  ["Tree.Lookup","Allocator.Lookup","PrepareUpdate","PrepareDelete","Finalize"])

p("C02", "Absent keys never resurrect",
  "For any byte string that is not in the tree, a lookup, prepared update or prepared delete either reports nothing found or presents, as an unverified candidate, the current value of some other key that is in the tree; a removed or overwritten value is never presented again. Looking up any non-empty query (shorter, longer or differing at any position from the stored keys) never panics, including on a new or emptied tree. Deleting one key never removes or alters another key.",
  ["inputs","histories"], "all sequential histories over prefix-free key sets, followed by every non-empty query string",
  "Tests look up only keys that are present, plus two fixed misses; none checks what a miss returns after deletes, nor queries a new tree.",
  ["radix.go","update.go","delete.go"],
  [("found flag and candidate value","radix.go search; update.go prepareUpdate; delete.go prepare"),("collapse of nodes on delete","delete.go Finalize")],
  None, ["Tree.Lookup","PrepareUpdate","PrepareDelete"])

p("C03", "Iteration returns every key once, in order",
  "On a tree that is not being modified, an iterator without prefix returns the value of every key in the tree exactly once, in ascending byte order of the keys, and then ends. An iterator with a prefix returns in the same way exactly the keys that have the prefix when there are any, and otherwise at most one unverified candidate that is some key in the tree. Resetting or re-creating an iterator starts a fresh, equally complete iteration.",
  ["inputs","histories"], "all trees reachable by sequential histories over prefix-free key sets and all search prefixes",
  "The only iterator test with prefixes is skipped (its data file is missing); full iteration is only counted, not compared in order, on two integer sets.",
  ["iterator.go","radix.go"],
  [("batch prefetch and resume position","iterator.go Next/storeResumePosition"),("prefix descent","radix.go partialSearch")],
  [("resumeAt","partial key where the next batch continues","iterator.go Iterator")], ["Iterator.Next","Iterator.Value","Iterator.Reset","Tree.NewIterator"])

p("C04", "Min and max searches return the true extremes",
  "MinKey and MaxKey without a prefix return the value of the smallest and the largest key in byte order, and report not-ok exactly when the tree holds no key. With a prefix they return the smallest and largest among the keys having that prefix whenever there is one; otherwise they report not-ok or one unverified candidate that is some key in the tree. Keys deleted earlier never hide or replace an extreme.",
  ["inputs","histories"], "all trees reachable by sequential histories and all search prefixes",
  "Tests only compare min < max once on full integer trees; no prefix searches and none after deletions.",
  ["radix.go"],[("descent to first/last child","radix.go MinKey/MaxKey"),("prefix descent","radix.go partialSearch")],None,["Tree.MinKey","Tree.MaxKey"])

p("C05", "Counts agree with the stored keys",
  "Count without a prefix reports as many leaves as there are keys in the tree, and with a prefix exactly the number of keys having it, or at most one when there are none. As long as no branching point has ever reached 128 children, the reported nodes are exactly the branching points among the counted keys, and the Counter's figures (nodes with prefix, node-size histogram, total prefix length) describe those same branching points, each once. Counting again, or with a reused Counter, gives the same figures.",
  ["inputs","histories"], "all trees reachable by sequential histories over prefix-free key sets, all prefixes, with fresh and reused counters",
  "Tests only check the leaf count of complete integer trees; no prefix counting, no node figures, no reuse.",
  ["counter.go","radix.go"],[("stack-based traversal","counter.go Count"),("prefix descent","radix.go partialSearch")],None,["Tree.Count","Counter.Count","Counter fields"])

p("C06", "Len is exact",
  "Whenever no operation is in progress, Len returns exactly the number of keys in the tree, whichever allocators performed the inserts and deletes, whether or not their statistics were flushed, and also after loading from saved state. Calling Len does not change whether the tree is stopped or started. Aborted, refused and purely updating operations do not change Len.",
  ["inputs","histories","configurations"], "all sequential histories with any number of allocators, flushes, stop/start and save/load steps",
  "Tests compare Len only after complete inserts or complete deletes with default allocators and never around Stop, FlushStats or saved state.",
  ["radix.go","allocator.go","update.go","delete.go","state.go"],[("per-allocator counters plus shared total","radix.go Len, allocator.go FlushStats"),("stop flag","radix.go Stop/Start")],
  [("itemCounter","unflushed per-allocator balance","allocator.go"),("liveObjects","flushed total","radix.go")],["Tree.Len"])

p("C07", "Aborted operations leave no trace",
  "Aborting any prepared update or delete, and a prepared delete that finds nothing, leaves every key, value, count and ordering as it was. Afterwards nothing stays locked or reserved: any later operation on any key, by any allocator, completes, and the allocator taken by a tree-level operation is available again. Abort itself never panics.",
  ["inputs","histories"], "all trees reachable by sequential histories, and every update or delete prepared on them with present or absent keys and then aborted",
  "Only one test path aborts, for duplicate keys that its data does not contain; delete aborts are never exercised.",
  ["update.go","delete.go","locks.go"],[("lock release on abort","update.go Abort, delete.go Abort"),("generation locks","locks.go")],None,["UpdateOperation.Abort","DeleteOperation.Abort"])

p("C08", "A finalize that reports success took effect, exactly once",
  "Between preparing and finalizing an operation, other goroutines may prepare, finalize and abort any operations; a Finalize that returns true has then taken effect exactly once and permanently, relative to the candidate it was shown, and one that returns false has changed nothing. No other completed operation is lost or undone by it. Once all prepared operations are finalized or aborted, the tree holds exactly the outcome of the successful ones in some order.",
  ["schedules","histories"], "all interleavings, at the level of prepare/finalize/abort steps, of any operations by several goroutines on any tree",
  "All tests finalize immediately after preparing; nothing happens in between.",
  ["update.go","delete.go","locks.go"],[("locks held from prepare to finalize","update.go lock, delete.go lock/lock3"),("compare-and-swap on leaves","update.go/delete.go Finalize")],
  [("lock generations","even unlocked, odd locked","locks.go")],["Finalize result","final contents"])

p("C09", "Concurrent updates, deletes and lookups are linearizable",
  "With any number of goroutines, each using its own allocator or the tree's methods, every insert, update, delete and verified lookup of a key behaves as if executed atomically at one moment between its start and its return. In particular a key that is present throughout a lookup is found, with a value that was current during the lookup. Operations never panic and, once no other operation stands still in between, always complete.",
  ["schedules","histories","inputs"], "all fine-grained schedules of concurrent operations over prefix-free key sets",
  "The tests run goroutines on disjoint keys with only one kind of operation at a time, under whatever schedule the runtime happens to choose.",
  ["radix.go","update.go","delete.go","locks.go","epoch.go","slots.go"],[("generation locking with try-lock and restart","locks.go"),("atomic publication of copied nodes","update.go/delete.go Finalize"),("lock-free lookup","radix.go search")],
  None,["Lookup/PrepareUpdate/PrepareDelete/Finalize results"])

p("C10", "Scans stay correct while writers run",
  "An iteration, count, minimum or maximum search that runs concurrently with inserts, updates and deletes accounts for every key that is in the tree for its whole duration, and never reports a value that was not stored under a matching key at some moment during it. An iteration returns each such key, in ascending order and without repeats when nothing is deleted meanwhile; deletions may cause at most one repeated or out-of-order key per 256 returned. Minimum and maximum never skip past a key present throughout.",
  ["schedules","histories","inputs"], "all fine-grained schedules of scans against writers on any tree",
  "No test runs a scan concurrently with a writer.",
  ["iterator.go","counter.go","radix.go"],[("epoch reservation while scanning","allocator.go startOp/endOp"),("resume position","iterator.go"),("ordered children","update.go")],None,["Iterator","Count","MinKey","MaxKey"])

p("C11", "Recycled memory never shows through to a suspended operation",
  "A lookup, scan or prepared operation may be suspended at any point while other goroutines insert and delete any number of keys, so that memory of removed nodes is reused; when it continues it still gives a correct answer for every key that was not touched meanwhile, and never reports data that belongs to a key outside its range, panics, or fails to end. Operations of other goroutines are not corrupted by it either.",
  ["schedules","histories"], "every suspension point of every operation, against any amount of churn by other allocators",
  "Memory is only reused after more than a thousand removals while a reader is still inside; the tests never delete while reading.",
  ["epoch.go","allocator.go","radix.go","iterator.go","counter.go"],[("epoch reservations","epoch.go, allocator.go startOp/endOp"),("recycling lists","allocator.go recycle/newNode")],
  [("reservations","per-allocator epoch of the running operation","epoch.go")],["results of the suspended operation","final contents"])

p("C12", "Saved state restores an equivalent tree",
  "Writing the state of a stopped tree and loading it yields a tree that answers every lookup, iteration, count, minimum, maximum and Len as the original did, and that keeps behaving correctly under any further operations, including being saved and loaded again. WriteState reports exactly the number of bytes it wrote, and the original tree is unchanged and usable after Start. This holds immediately after the last operation, regardless of background activity.",
  ["inputs","histories","schedules"], "all trees reachable by histories (empty, single key, multi-block), any number of allocators and generations of save/load, continued by any further history",
  "State files are not covered by any test.",
  ["state.go","allocator.go","radix.go"],[("text headers plus snappy blocks","state.go writeState/loadState"),("allocator sections with recycling lists","allocator.go writeState/loadState")],None,["WriteState","NewTreeFromState"])

p("C13", "A failing writer makes WriteState return its error",
  "If the destination fails at any write while the state is being saved, WriteState returns an error and does not hang or panic, however large the tree is. The tree itself is unaffected: a later save to a working destination produces a complete state.",
  ["fault_sequences","inputs"], "every position of a write failure, for states of any number of memory blocks",
  "State writing is not tested at all, so no write ever fails.",
  ["state.go","allocator.go"],[("compressor and writer goroutines","state.go writeState"),("error propagation","allocator.go writeState")],None,["WriteState"])

p("C14", "Incomplete or incompatible state is refused",
  "Loading a state that was cut off at any byte, as after a crash during saving, returns an error instead of a tree; so does a state written by a build with a different block size. Loading never panics on such input and only a complete state yields a tree.",
  ["crash_points","inputs","configurations"], "every proper prefix of every saved state, and states of builds with every other block size",
  "State loading is not tested at all.",
  ["state.go","allocator.go"],[("header checks","state.go loadState"),("section parsing","allocator.go loadState")],None,["NewTreeFromState"])

p("C15", "An allocator has one holder at a time; Stop means stopped",
  "GetAllocator and tree-level operations never hand out an allocator that someone else still holds. Stop returns only when nobody holds an allocator, and from then until Start no lookup, prepared update or prepared delete proceeds; Start makes every allocator available again. Under any mix of concurrent Stop, Start, Len and admin calls no allocator is lost or handed out twice, and all callers eventually return.",
  ["schedules","histories"], "all schedules of goroutines acquiring, releasing, stopping, starting and querying",
  "TestSlots drains the pool once from a single goroutine; Stop and Start are only reached through sequential Len calls.",
  ["slots.go","radix.go","admin.go"],[("slot pool","slots.go get/put"),("stop flag","radix.go Stop/Start/Len")],None,["GetAllocator","ReleaseAllocator","Stop","Start","Len","Admin"])

p("C16", "Repeating the same work does not grow memory",
  "When one allocator repeats the same cycle of inserting and deleting a bounded set of keys, the memory reported by the tree stops growing after the first cycles: memory of every removed node becomes usable again. Recycled memory never makes two nodes overlap, so all keys stay correct throughout.",
  ["histories","inputs"], "all cyclic histories over bounded key sets through one allocator, for nodes small enough to be recycled (at most 257 words)",
  "TestRepeatedInsertDelete is skipped (missing data file) and never looks at memory.",
  ["allocator.go","update.go","delete.go"],[("recycling lists","allocator.go recycle/newNode")],None,["Tree.Stats bytes_allocated"])

p("C17", "Iteration survives modifications between steps",
  "If keys are inserted, updated or deleted between the steps of an iteration, every key with the prefix that stays in the tree from start to end is still returned; in ascending order and exactly once if nothing is deleted meanwhile, and otherwise with at most one repeated or out-of-order key per 256 returned. A value is only returned if it was stored under a matching key at some moment since the iteration began, and the iteration ends.",
  ["histories","inputs"], "all histories of modifications interleaved with iterator steps, over trees larger and smaller than the prefetch size, for all prefixes",
  "No test modifies the tree during an iteration.",
  ["iterator.go"],[("prefetch and resume by partial key","iterator.go Next/storeResumePosition")],None,["Iterator.Next","Iterator.Value"])

p("C18", "Results do not depend on shared runs or insertion order",
  "Prepending the same byte string, of any length, to all keys and queries of a history leaves every result for keys in the tree, every iteration, count, minimum and maximum unchanged. Inserting the same set of keys in any order gives the same iteration, counts and lookups. This holds for shared runs of any length up to the size of a memory block.",
  ["inputs","histories"], "all histories and all prepended runs, especially around 8-byte multiples and the 254/255/256 boundary; all permutations of insert-only histories",
  "One test uses a single 260-byte run with two keys.",
  ["unsafe.go","radix.go","update.go","delete.go","iterator.go","counter.go"],[("prefix slots and long-prefix length word","unsafe.go, radix.go allocateNode*")],None,["all query methods"])

p("C19", "The choice of allocators does not matter",
  "The results of a history are the same for any number of allocators and any assignment of its operations to tree-level methods or reserved allocators. Reserving, releasing and flushing allocators between operations changes no result.",
  ["configurations","histories"], "all histories executed under every number of allocators and every assignment of operations to them",
  "Tests use one allocator per goroutine with a fixed partition of the keys.",
  ["allocator.go","radix.go","slots.go"],[("per-allocator arenas and recycling","allocator.go"),("allocator pool","slots.go")],None,["all methods of Tree and Allocator"])

p("C20", "Block-size builds behave identically",
  "A history gives the same results, including after saving and loading state, in the default build and in the builds with larger memory blocks. Only memory figures may differ.",
  ["configurations","histories"], "all histories under the build options for 2, 8 and 16 MiB blocks",
  "Only the default configuration is built and tested.",
  ["blocksize.go","blocksize8.go","blocksize16.go","radix.go","locks.go","state.go"],[("constants derived from the block size","radix.go")],None,["all methods"])

p("C21", "Trees, operations and iterators do not leak into each other",
  "Histories on several trees, interleaved in any way and with operations and iterators of several trees pending at once, give on each tree the result that its own history gives alone. Reusing pooled operations and closed iterators carries no key, value, position or prefix from their earlier use.",
  ["histories","inputs"], "all interleavings of histories on several trees in one process, including pending operations and re-used iterators",
  "Each test uses one tree and few operations; iterators are never closed or reused.",
  ["update.go","delete.go","iterator.go"],[("object pools","update.go newUpdateOperation, delete.go newDeleteOperation, iterator.go NewIterator")],None,["all methods"])

p("C22", "Inspection is harmless and truthful",
  "Stats, every admin command with any arguments, and the text form of a prepared operation never panic and never change any key, count, or the started or stopped state. The figures they report agree with the tree: allocators, block size, total of allocated bytes, and, after counters are flushed, the number of objects.",
  ["inputs","histories"], "all trees reachable by histories and all admin command lines",
  "Only 'info' is called, its output ignored.",
  ["admin.go","stats.go","update.go","delete.go"],[("admin dispatch","admin.go Admin"),("stats","stats.go Stats")],None,["Tree.Admin","Tree.Stats","UpdateOperation.String","DeleteOperation.String"])

p("C23", "The bundled fuzz entry point accepts every input",
  "For every byte string the fuzz entry point returns without panicking: -1 when the newline-terminated keys contain an empty key, a zero byte or a duplicate, and 1 otherwise. It leaves no background goroutine behind for accepted inputs.",
  ["inputs"], "all byte strings",
  "The fuzzing package has no tests; it is only compiled.",
  ["fuzzing/fuzz.go"],[("build, look up, iterate, count and delete all keys","fuzzing/fuzz.go Fuzz")],None,["fuzzing.Fuzz"])

p("C24", "Close ends the background work of a tree",
  "After Close returns, the tree's background memory goroutine terminates, whatever the tree was doing before: new, loaded from state, stopped, started, empty or holding many blocks. Closing one tree does not disturb any other tree.",
  ["histories"], "all histories ending in Close, over new and loaded trees",
  "Tests call Close only as a last step and never check for leaked goroutines.",
  ["radix.go"],[("done channel","radix.go Close/blockAllocator")],None,["Tree.Close"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
