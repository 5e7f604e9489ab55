#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","The tree is a faithful map under any single-threaded history",
 "For any set of byte-string keys in which no present key is a prefix of another, and any sequence of completed inserts, updates and deletes following the documented prepare/finalize protocol, looking up a present key returns exactly the value most recently stored for it (all 55 bits, higher bits dropped), and a deleted key is never found again until it is re-inserted. This holds for every key shape: any bytes including 0x00 and 0xff, shared prefixes of any length, any fan-out from 1 to 256, and it keeps holding while removed memory is recycled. No such operation panics or fails to terminate, and none changes what is stored under another key.",
 ["inputs","histories"],"every prefix-free key set (alphabet, shared-prefix length, fan-out) and every finite insert/update/delete history over it",
 "The tests insert fixed integer sets once and delete them once; the insert/delete cycle test is skipped, prefixes of 255+ bytes get one case, and nodes crossing the 127/128-children boundary in both directions with prefixes are never mixed with recycling.",
 ["update.go","delete.go","radix.go","allocator.go","utils.go","unsafe.go"],
 [("kind-by-kind structural update (prefix miss, leaf split, grow, switch to 256)","update.go: UpdateOperation.prepareUpdate / Finalize"),
  ("kind-by-kind structural delete (shrink, replace with leaf, merge with child)","delete.go: DeleteOperation.prepare / Finalize"),
  ("optimistic descent","radix.go: Tree.search"),("slot recycling","allocator.go: newNode / recycle")],
 [("root","current root node or leaf","radix.go Tree.root"),("node","count, prefix, sorted children","utils.go, unsafe.go")],
 ["Lookup","PrepareUpdate/Finalize","PrepareDelete/Finalize"])

p("C02","Lookups of arbitrary keys only ever yield genuine candidates",
 "For any byte string whatsoever, including the empty one and ones that extend or are a prefix of stored keys, a lookup or a delete-prepare terminates without panicking and reports either that nothing was found or a value that is at that moment stored under some present key. A present key is always found as itself. These calls, and delete operations that are then aborted, never change what the tree contains.",
 ["inputs","histories"],"every tree content reachable by any history, the empty and freshly created tree included, and every probe key",
 "Tests probe two absent keys on one small tree; the first access to a brand-new empty tree, probes shorter than a node path and probes on trees after deletions are not exercised.",
 ["radix.go","delete.go","locks.go"],
 [("optimistic descent with length guard","radix.go: Tree.search"),("candidate search for delete","delete.go: DeleteOperation.prepare")],
 [("root","0 when the tree is empty","radix.go Tree.root")],["Lookup","PrepareDelete/Abort"])

p("C03","Concurrent lookups, inserts, updates and deletes are linearizable",
 "When any number of goroutines look up, insert, update and delete keys concurrently, every completed call's result is explained by executing all the calls one at a time in some order that respects their real-time order; a delete that reports success removed the key, a finalize that reports success stored the value, and one that reports failure changed nothing. In particular no successful write is ever lost or resurrected by a concurrent change to a neighbouring key.",
 ["schedules","histories"],"every interleaving of every set of concurrent operations, at the level of individual memory accesses, on every tree shape",
 "The tests run goroutines on disjoint key ranges, insert-only then delete-only, and compare only the final totals; no test mixes operation kinds concurrently and none controls the schedule.",
 ["update.go","delete.go","locks.go","radix.go"],
 [("generation locks taken on node and parent (and child) before a structural change","locks.go: lockNodes2 / lockNodes3"),
  ("re-validation of the node pointer and parent generation during descent","update.go, delete.go search loops"),
  ("copy-on-write publication by a single atomic store","update.go / delete.go Finalize"),
  ("root leaf lock","locks.go: lockLeafRoot")],
 [("locks","generation counters, odd while locked","radix.go nodeBlock.locks"),("rootLeafLock","lock for an empty or single-leaf tree","radix.go Tree.rootLeafLock")],
 ["Lookup","Finalize results","final content"])

p("C04","A prepared operation is an atomic read-modify-write",
 "Whenever finalizing a prepared update or delete reports success, the entry that the prepare step showed for that key (its value, or that it was absent) was still the current one at the instant the change took effect, so concurrent read-modify-write cycles on one key never lose an update and two deletes of one stored entry never both succeed. While an operation is prepared and unfinished, no other operation changes that key's entry and succeeds without the prepared one then failing or being applied first.",
 ["schedules","histories"],"every interleaving of prepare, finalize, abort and lookup steps by any number of goroutines on the same and on neighbouring keys",
 "No test has two operations open at the same time, nor two goroutines touching the same key.",
 ["update.go","delete.go","locks.go"],
 [("locks held from prepare to finalize","update.go, delete.go: lock / unlock"),("compare-and-swap of leaves","update.go Finalize")],
 [("op","prepared operation with node, parent and generations","update.go UpdateOperation, delete.go DeleteOperation")],
 ["op.Value, found","Finalize results"])

p("C05","Abort has no effect and every finished operation releases what it held",
 "Aborting a prepared update or delete leaves the tree's content, length and shape exactly as they were and does not panic, whatever kind of change had been prepared. Once every prepared operation has been finalized or aborted, every key can again be updated and deleted by any goroutine without blocking and every allocator can be obtained again; with nothing else unfinished, a prepare step always completes.",
 ["histories","schedules"],"every reachable tree shape, every kind of prepared operation, every mix of finalize and abort, every interleaving",
 "Abort is called by no passing test; a lock or allocator leaked on one of its branches only shows when a later operation reaches the same node.",
 ["update.go","delete.go","locks.go","slots.go"],
 [("Abort branches per operation kind","update.go: UpdateOperation.Abort, delete.go: DeleteOperation.Abort"),("lock release in all orders","locks.go: unlockNodes2 / unlockNodes3 / unlockRoot")],
 [("locks","generation counters","radix.go nodeBlock.locks"),("allocatorQueue","free allocators","radix.go Tree.allocatorQueue")],
 ["Abort","subsequent PrepareUpdate/PrepareDelete/GetAllocator","Len, Count"])

p("C06","Iterating a quiet tree yields each matching key once, in order",
 "Iterating a tree that is not being modified, with any prefix (or none), terminates and yields exactly the values of the present keys having that prefix, each once, in lexicographic key order; if no present key has the prefix it yields nothing or a single candidate that the caller must verify. The result does not depend on how many keys there are, how they are distributed over the tree, or on earlier uses of the same iterator.",
 ["inputs","histories"],"every tree content and shape, every prefix, every number of items (in particular around the internal read-ahead size), every reuse of iterators",
 "The iterator tests proper are skipped (missing data file); the remaining ones count the items of dense integer trees whose size happens to avoid the read-ahead boundary, and never compare the order.",
 ["iterator.go","radix.go"],
 [("batched depth-first scan with a saved resume path","iterator.go: Iterator.Next / storeResumePosition"),("prefix seek","radix.go: Tree.partialSearch")],
 [("resumeAt","path of the next unvisited child","iterator.go Iterator.resumeAt")],["Iterator.Next/Value/Reset/Close"])

p("C07","Iteration during concurrent changes skips and repeats no lasting key",
 "An iteration that runs while other operations insert, update and delete keys terminates and yields, in lexicographic order and exactly once, every matching key that was present from the start of the iteration to its end (its value may change meanwhile). Every value it yields was stored under some present key at some moment during the iteration, and no key is yielded out of order or twice because of the changes.",
 ["schedules","histories"],"every placement of every sequence of changes between and during the steps of an iteration, every prefix and tree shape",
 "No test modifies a tree while iterating it.",
 ["iterator.go","radix.go","update.go","delete.go"],
 [("resume by path after each batch","iterator.go: Iterator.Next"),("epoch reservation per batch","iterator.go, allocator.go startOp/endOp")],
 [("resumeAt","path of the next unvisited child","iterator.go Iterator.resumeAt")],["Iterator.Next/Value interleaved with updates"])

p("C08","MinKey and MaxKey return the true extremes",
 "On a quiet tree the min/max queries return the value of the lexicographically first/last present key having the given prefix whenever there is one, and report nothing found if the tree is empty (if no key has the prefix, at most a candidate to be verified). When run concurrently with changes they terminate without panicking, return a value that was stored at some moment during the call, and never pass over a matching key that was present throughout the call.",
 ["inputs","histories","schedules"],"every tree content and history (including mass deletions), every prefix, every interleaving with writers",
 "One min and one max query per test, on a freshly built quiet tree with no prefix, and only their relative order is compared.",
 ["radix.go"],[("leftmost/rightmost descent","radix.go: Tree.MinKey / MaxKey"),("prefix seek","radix.go: Tree.partialSearch")],
 [("root","current root","radix.go Tree.root")],["MinKey","MaxKey"])

p("C09","Len and Count are exact",
 "When no change is in progress the length query equals the number of present keys, after any history of successful, failed and aborted operations through any number of allocators, and counting with a prefix reports exactly the number of present keys having it (or one candidate when there is none). When changes run concurrently the length returned is the true number of keys at some moment during the call, and a count lies between the number of matching keys present throughout and the number present at any moment during it.",
 ["histories","schedules","configurations"],"every history over any number of allocators, every prefix, every interleaving of the queries with changes",
 "Len is compared once after bulk insert and once after bulk delete; Count only with no prefix.",
 ["radix.go","counter.go","allocator.go","update.go","delete.go"],
 [("per-allocator counters flushed to a total","allocator.go: FlushStats / itemCounter"),("withdrawing all allocators while summing","radix.go: Tree.Len"),("counting scan","counter.go: Counter.Count")],
 [("itemCounter","keys added minus removed through one allocator","allocator.go"),("liveObjects","flushed total","radix.go")],["Len","Count"])

p("C10","The tree's shape is compact and determined by its keys alone",
 "After any history, the number of internal nodes and the shared-prefix lengths reported by counting are exactly those of the minimal path-compressed radix tree of the keys currently present: one node per point where present keys diverge, no node with fewer than two children, and no part of any path stored twice or left over from deleted keys. The histogram of node sizes it reports has a node of exactly its number of children for every such point with up to 64 children and a full node of 256 slots for every one with at least 128 (one or the other in between), and the bytes reported for prefixes are those these prefixes need. Two trees holding the same keys therefore report the same number of nodes and leaves, however they got there.",
 ["histories","inputs","schedules"],"every history (including mass deletions and concurrent ones that have finished) and every key set and prefix",
 "Tests print the node count but never compare it with anything.",
 ["update.go","delete.go","counter.go"],
 [("path compression on delete (merge or collapse two-child nodes)","delete.go: replaceNodeWithLeaf / replaceNodeWithNode"),("path split on insert","update.go: nodePrefixMiss")],
 [("node","count, prefix, children","utils.go")],["Count","Counter fields"])

p("C11","Removed memory is never reused under a running reader",
 "However long a lookup, iteration step, min/max query, count or prepared operation is suspended at any point while other goroutines insert, update and delete any number of keys, it then completes without panicking and its result is one that is consistent with the keys stored during its own duration: it never sees memory that has been recycled for something else.",
 ["schedules","histories"],"every suspension point of every kind of reading operation and every amount of intervening churn (in particular across the reclamation epochs)",
 "Tests never read and delete at the same time, so recycling never meets a concurrent reader.",
 ["allocator.go","epoch.go","radix.go","iterator.go","counter.go"],
 [("epoch reservation around each operation","allocator.go: startOp / endOp"),("reuse only of items older than every reservation","allocator.go: newNode, epoch.go: minReservation"),("stamping at removal","allocator.go: recycle")],
 [("globalEpoch","reclamation epoch","epoch.go"),("reservations","epoch reserved per allocator","epoch.go"),("recycler","removed slots by size with their epoch","allocator.go")],
 ["results of suspended operations"])

p("C12","Memory use stays bounded under insert/delete churn",
 "If the tree's content keeps returning to the same bounded set of keys, the memory it has allocated stops growing after a warm-up, no matter how many inserts, updates and deletes are performed: memory given up by removed or replaced parts of the tree is eventually reused.",
 ["histories"],"every cyclic history over a bounded key set whose shared prefixes are under 256 bytes",
 "The only churn test is skipped and does not look at memory.",
 ["allocator.go","update.go","delete.go","epoch.go"],
 [("recycling lists by size with splitting","allocator.go: recycle / newNode"),("epoch advance","allocator.go: recycle")],
 [("recycler","removed slots by size","allocator.go"),("nextFreeBlock","number of blocks handed out","radix.go")],["Stats: blocks_allocated"])

p("C13","A saved and restored tree is the same tree and keeps working",
 "Writing the state of a stopped tree and loading it yields a tree with exactly the same keys, values, order, length and shape, at whatever moment the tree was stopped and however many allocators it uses. The restored tree, and the original one once restarted, keep satisfying every other guarantee: further inserts and deletes on them never damage restored entries, and they can be saved and restored again.",
 ["histories","schedules","configurations"],"every history before the save and after the restore, every number of allocators, every timing of the background block allocation relative to the save, every number of save/restore rounds",
 "No test saves or loads a state.",
 ["state.go","allocator.go","radix.go"],
 [("state format and block count","state.go: writeState / loadState"),("allocator sections with recycling lists","allocator.go: writeState / loadState"),("background block allocator","radix.go: blockAllocator")],
 [("nextFreeBlock","next block to hand out","radix.go"),("recycler","free slots carried over","allocator.go")],["WriteState","NewTreeFromState","then everything else"])

p("C14","Incomplete states are refused and failing saves are reported",
 "Loading any proper prefix of a saved state returns an error instead of panicking, hanging or handing out a tree with missing content. Writing the state to a destination that fails at any point returns that failure to the caller in bounded time, and leaves the tree itself intact and usable after a restart.",
 ["crash_points","fault_sequences"],"every cut point of every saved state and every position at which the destination starts to fail, for every tree size",
 "No test saves or loads a state.",
 ["state.go","allocator.go","radix.go"],
 [("header, allocator and block parsing","state.go: loadState"),("compressing workers and single writer goroutine","state.go: writeState")],
 [],["NewTreeFromState error","WriteState error"])

p("C15","Allocators are exclusive and Stop is a barrier",
 "An allocator is held by at most one goroutine (or prepared operation) at a time, under any concurrent use of the tree, its length query and its diagnostics. Once stopping the tree has returned, no operation is in progress and none makes progress until it is started again; a length query on a stopped tree still answers and leaves it stopped, and stopping, starting and length queries may be called concurrently with each other and with operations without breaking this or getting stuck. Closing a tree ends its background activity.",
 ["schedules","histories"],"every interleaving of acquiring, releasing, operations, Stop, Start, Len, Admin and Close by any number of goroutines",
 "One test takes and returns slots from a single goroutine; stopping, starting and length queries are never run concurrently with anything.",
 ["slots.go","radix.go","admin.go","allocator.go"],
 [("slot pool","slots.go: get / put"),("withdrawing all allocators","radix.go: Tree.Stop / Start / Len")],
 [("slots","0 free, 1 taken","slots.go"),("stopped","whether Stop withdrew the allocators","radix.go")],["GetAllocator/ReleaseAllocator","Stop/Start/Len/Close"])

p("C16","Diagnostics tell the truth and do no harm",
 "Statistics, admin commands and dumps of the tree, asked for at any moment with any arguments (including node ids that are not nodes), answer without panicking or blocking the tree, and change nothing. What is told of a tree at rest is true: the dump of the root and of every node reachable from it shows exactly the nodes, prefixes, children and values of the tree of the present keys, every node id shown can be given back to the node command, the number of allocators, of blocks and of bytes are those in use, and after all allocators have flushed their counters the approximate number of objects is the exact one.",
 ["inputs","histories","schedules"],"every tree content and history, every command line, every moment relative to concurrent changes",
 "No test calls Admin or Stats at all.",
 ["admin.go","stats.go","allocator.go"],
 [("admin commands and node dump","admin.go: Admin / debugPrintNode"),("statistics","stats.go: Tree.Stats"),("flushing of counters","allocator.go: FlushStats")],
 [("liveObjects","flushed number of keys","radix.go"),("blocks","memory blocks","radix.go")],["Admin output","Stats map"])

p("C17","Write conflicts are real and retrying succeeds",
 "Finalizing a prepared operation reports a write conflict only if another change was prepared or finalized while this one was under way; with nothing else going on it never does. Writers that start again after each conflict, as documented, all succeed eventually under every fair schedule, whichever keys they compete for: no set of competing inserts, updates and deletes can block or starve each other forever.",
 ["schedules","histories"],"every set of competing writers that retry until they succeed, every fair interleaving of them, also when their nodes share locks",
 "The retry loops of the tests run on disjoint key ranges, where conflicts hardly ever happen, and a livelock would only show as a timeout under a particular schedule.",
 ["locks.go","update.go","delete.go"],
 [("locks that are tried, undone and tried again","locks.go: lockNodes2 / lockNodes3 / unlock"),("restart of the prepare step","update.go: prepareUpdate, delete.go: prepare")],
 [("locks","generation counters","radix.go nodeBlock.locks"),("rootLeafLock","lock of an empty or single-leaf tree","radix.go")],["Finalize results","termination of retrying writers"])

p("C18","Byte slices given to the tree stay the caller's",
 "The keys, prefixes and fetched keys that a caller hands to lookups, prepared operations, iterators, min/max queries and counts are never written to, neither within their length nor in the capacity beyond it. Once the call has returned (for a prepared operation: once it has been finalized or aborted; for an iterator: once it has been created or reset) the caller may overwrite the slice, and nothing the tree does or answers from then on changes because of it.",
 ["inputs","histories"],"every key, prefix, operation and history, with every slice overwritten as soon as it is the caller's again",
 "The tests use each key slice for one thing and keep it unchanged for as long as the tree lives.",
 ["radix.go","update.go","delete.go","iterator.go","counter.go"],
 [("the iterator copies its prefix","iterator.go: Reset"),("prefixes are copied into nodes","radix.go / prefix.go: storePrefix"),("pooled operations keep references","update.go, delete.go: operation pools")],
 [("searchPrefix","prefix of an iterator","iterator.go")],["contents of lent slices","all answers afterwards"])

p("C19","Trees, iterators and operations are independent of each other",
 "Any number of trees, created with any options (none, or a zero or negative number of allocators, means one per CPU), loaded or closed at any time within one process, never influence one another: what is done through one tree, its allocators, iterators and prepared operations leaves the content, answers and statistics of the others unchanged, although iterators and operations are taken from shared pools. Iterators given up halfway or closed, and then handed out again for another tree or prefix, behave like new ones.",
 ["histories","configurations"],"every interleaving of histories on several trees, with iterators open on each of them, and every option",
 "Each test has a single tree at a time; no test gives up an iterator halfway and uses another one afterwards.",
 ["radix.go","iterator.go","update.go","delete.go"],
 [("pools of iterators and operations","iterator.go: iteratorPool, update.go: updateOperationPool, delete.go: deleteOperationPool"),("initialization of pooled objects","iterator.go: NewIterator / Reset, update.go: newUpdateOperation"),("options","radix.go: setDefaultOptions")],
 [("iteratorPool","iterators given back","iterator.go")],["answers of all trees"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
