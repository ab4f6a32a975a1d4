#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
PAR="parallel/parallel.go"; SPE="speculative/speculative.go"; SEQ="sequential/sequential.go"; INT="internal/internal.go"; MAP="sync/map.go"

p("A01","parallel calls run every function exactly once and wait for all",
 "Every function of pargo/parallel (Do, And, Or, Reduce*, Range, RangeAnd, RangeOr, RangeReduce*) that returns normally has invoked each supplied function, predicate or range batch exactly once, each of these invocations has finished, and all their memory effects are visible to the caller without further synchronization. This includes And and Or, which do not short-circuit, and holds for concurrent and nested calls.",
 ["schedules","inputs"],"all schedules of 0..9 functions / batches, concurrent and nested callers, functions that block on each other",
 "the tests run a few happy-path examples on whatever schedule the Go runtime picks; a missing wait or a duplicated/dropped function shows only on specific schedules and argument counts",
 [PAR],[("fork-join with WaitGroup in every function","parallel.Do / And / Or / Reduce* / Range*")],["return of each parallel.* call"])
p("A02","range functions split a range into contiguous, disjoint, covering batches",
 "For every low <= high (not at the limits of int, see A05) and n >= 0, each Range* function of parallel, speculative and sequential (called so that nothing ends early) passes its batch function subranges that are disjoint, each non-empty unless the whole range is empty, in the requested range, and whose union is exactly [low, high); an empty range yields exactly one empty batch. There are at most n batches when n > 0 and at most 2*GOMAXPROCS when n is 0. A range with high < low, or n < 0, makes the function panic without invoking the batch function.",
 ["inputs","configurations"],"all low/high/n in a dense small grid plus large and negative offsets, GOMAXPROCS 1..5, all 31 range functions",
 "the tests use three fixed ranges; the batch arithmetic has to be right for every size/n residue",
 [INT,PAR,SPE,SEQ],[("batch count","internal.ComputeNofBatches"),("recursive halving of the range","recur closures in Range*")],["arguments seen by the batch function"])
p("A03","parallel reductions equal the left-to-right fold",
 "Reduce*, RangeReduce*, and the Sum and Product variants of pargo/parallel return, for every associative (not necessarily commutative) join, the left-to-right fold of the values returned by the supplied functions (or batch reducers in range order), invoking join only after both operands were completely computed, on every schedule. Do, And, Or, sum and product of no functions return the neutral result (nothing, true, false, 0 or the empty string, 1); And/Or/RangeAnd/RangeOr return the conjunction/disjunction of all results.",
 ["schedules","inputs"],"all schedules; 1..9 functions; a partial join defined only on adjacent intervals so that any reordering, duplication or omission is visible; all boolean vectors",
 "tests check sums of commuting numbers on one schedule",
 [PAR],[("left/right result variables joined after Wait","parallel.Reduce*, parallel.RangeReduce*")],["result value"])
p("A04","panics in parallel calls propagate to the caller, left-most first",
 "If one or more functions or batches passed to a pargo/parallel call panic, then on every schedule the call panics in the caller's goroutine (the process does not crash, the call neither returns normally nor hangs), and the panic value is that of the left-most panicking function: either the original value or one derived from it that begins with its printed form, is an error if and only if the original is, and is a runtime.Error if and only if the original is. A panic in join propagates in the same way.",
 ["schedules","fault_sequences"],"every subset of up to 6 functions panicking x panic value kinds (6 in all combinations, 19 more: format verbs, wrapped, nil dereference, custom runtime errors, ...) x all schedules",
 "no existing test panics; a dropped recover or a wrong precedence shows only for particular panic subsets",
 [PAR,INT],[("deferred recover + WrapPanic + rethrow after Wait","parallel.*"),("wrapping with error-ness preserved","internal.WrapPanic")],["recovered panic value of the call"])
p("A05","ranges at the limits of int are divided like any other",
 "For every low <= high whose difference fits in an int, including ranges that end at or near the greatest int, start at the least one, or are larger than half of all ints, and every n >= 0, each Range* function of parallel, speculative and sequential divides the range into at most n (2*GOMAXPROCS if n is 0) disjoint, non-empty batches in the requested range that cover it, and combines exactly their results: no batch limit is affected by integer overflow.",
 ["inputs","configurations"],"range sizes 0..39 and 2^31-1..2^63-1 at both ends of int and around 0, n from 0 to above the size, all 31 range functions; all schedules of sizes up to 10",
 "the tests use small ranges; an overflow in the batch arithmetic shows only for ranges that end near the greatest int and only for particular sizes and batch counts",
 [INT,PAR,SPE,SEQ],[("recursive halving of the range","recur closures in Range*")],["arguments seen by the batch function"])
p("B01","speculative results: left-most decisive value, else the fold",
 "If no function panics, every function of pargo/speculative returns on every schedule the value of the left-most function that reports a decisive result (true for Do, Or, Range, RangeOr; false for And, RangeAnd; second result true for Reduce* and RangeReduce*, including decisive joins in evaluation order); if none is decisive, it returns the left-to-right fold of all results for any associative join (true for And, false for Do and Or).",
 ["schedules","inputs"],"every vector of decisive/neutral outcomes for 0..6 functions and batches x all schedules x all variants",
 "speculative has no tests at all",
 [SPE],[("left result checked before waiting for the right one","speculative.*")],["result values"])
p("B02","speculative calls end early, and only when the result is known",
 "A pargo/speculative call whose left-most decisive function has been reached returns once that function and the ones to its left have finished, even if functions further right never finish; without a decisive function, it returns only after all supplied functions have finished, with their memory effects visible to the caller. A call never invokes a supplied function or batch more than once.",
 ["schedules","inputs"],"every position of the decisive function with every set of never-finishing functions to its right, all schedules; deadlock detection decides",
 "no tests; waiting too long shows only as a hang with particular blocking patterns, returning too early only on particular schedules",
 [SPE],[("early return without wg.Wait when left is decisive","speculative.*")],["whether the call returns; order of call return and function completion"])
p("B03","panics in speculative calls: left-most event wins, nothing crashes",
 "On every schedule, when functions passed to a pargo/speculative call panic, the left-most event decides: if the left-most decisive-or-panicking function panics, the call panics in the caller's goroutine with that function's value (the original, or one starting with its printed form and preserving error and runtime.Error-ness); if it is decisive, the call returns its result. A panic in a function to the right of the decisive one is swallowed and never crashes the process, even after the call has returned.",
 ["schedules","fault_sequences"],"every vector over {neutral, decisive, panic} for up to 5 functions and batches x all schedules, including panics after the call returned",
 "no tests exercise panics in speculative",
 [SPE,INT],[("deferred recover + WrapPanic","speculative.*")],["recovered panic value or result"])
p("C01","sequential is a faithful stand-in for parallel",
 "For every input, each function of pargo/sequential produces the same result and the same batches as described for pargo/parallel, but invokes the functions or batches one after the other in left-to-right order in the calling goroutine and starts no goroutine (And and Or may leave out the functions to the right of one that determines the result). The first panic propagates unchanged to the caller and nothing further to its right is invoked.",
 ["inputs","fault_sequences"],"all functions with 0..6 arguments, ranges over the same grid as A02, every panic position",
 "sequential has no tests",
 [SEQ],[("plain loops","sequential.*")],["invocation log and result"])
p("D01","sync.Map single-key operations are linearizable",
 "For every concurrent program of Load, LoadOrStore, LoadOrCompute, DeleteOrStore, DeleteOrCompute, Modify and Delete, the results of all calls are those of some sequential execution of a plain map in which each call takes effect atomically between its invocation and its return, keys with equal hash values included. The final contents of the map equal those of that sequential execution.",
 ["schedules","histories"],"all pairs of 2-operation programs for 2 threads and all triples of single operations for 3 threads over 2 colliding keys and 2 initial states, every schedule; keys of different kinds and uncomparable values",
 "sync has no tests; lost updates and stale reads need a particular interleaving of two operations",
 [MAP],[("per-split RWMutex; re-check under the write lock","Map.LoadOrStore, LoadOrCompute, Modify, ...")],["results of the calls"],
 [("Split","one lock and one Go map per split","sync/map.go")])
p("D02","sync.Map callbacks are invoked as documented",
 "LoadOrCompute invokes its function at most once, only if the key was found absent, and holds no lock of the map while doing so; DeleteOrCompute invokes its function exactly once if the key is absent and never if it is present; Modify invokes its function exactly once with the current value and presence of the key, stores or deletes accordingly, and returns what it returned. No other operation on the same key takes effect while a Modify or DeleteOrCompute callback is running.",
 ["schedules","histories"],"all schedules of callback operations racing with every other operation on the same key, callbacks with scheduling points and callbacks that call back into the map (LoadOrCompute)",
 "sync has no tests; holding or not holding the lock during a callback is invisible to single-threaded tests",
 [MAP],[("callback under the split's lock, or outside of it for LoadOrCompute","Map.Modify, Map.DeleteOrCompute, Map.LoadOrCompute")],["callback invocations and call results"])
p("D03","sync.Map iteration visits each entry exactly once and stops when told",
 "Range, ParallelRange and SpeculativeRange invoke their function at most once per key, and exactly once for every key that is present throughout the call unless the function returned false; Range invokes nothing after a false. Values passed are those stored for the key, no operation on keys of a split takes effect while that split is being visited, and SpeculativeRange returns early only if some invocation returned false, and then without waiting for the visits of splits in batches to the right of the one where that happened.",
 ["schedules","histories","configurations"],"maps with 1..4 splits and up to 5 keys, every stop position, GOMAXPROCS 1..3, concurrent writers; all schedules; maps with up to 100 splits on one canonical schedule",
 "sync has no tests",
 [MAP],[("split-wise locked iteration","Map.Range, ParallelRange, SpeculativeRange, Split.srange")],["keys and values seen by the function"])
p("D04","sync.Map split-wise predicates and reductions visit every split once",
 "And, Or, Reduce* and their Parallel and Speculative variants invoke the supplied predicate or reducer at most once per split, on that split's map while holding its lock exclusively, and return the conjunction, disjunction, or the left-to-right fold in split order (sum, product, or any associative join); the sequential and parallel variants of the reductions visit every split, the speculative ones return the value of the left-most decisive split. Results are the same for every number of splits and every GOMAXPROCS, on every schedule.",
 ["schedules","configurations","inputs"],"1..6 splits, all boolean/decisive vectors, every variant, concurrent writer; all schedules; up to 100 splits on one canonical schedule",
 "sync has no tests; 30 hand-copied variants",
 [MAP],[("recursive halving over splits","Map.ParallelReduce*, Map.SpeculativeReduce*"),("delegation to parallel/speculative Range functions","Map.ParallelAnd, ...")],["results, maps passed to the callbacks"])
p("D05","sync.Map places every key in the split its hash selects",
 "NewMap(size) creates size independent splits (GOMAXPROCS splits if size <= 0), Split(key) returns the same split for equal hash values and spreads hash values over all splits for every uint64 hash value, and every map operation reads and writes a key only in the split returned by Split(key), so that an entry stored through the Map is visible through the Split and vice versa.",
 ["inputs","configurations"],"sizes -1..9 and selected ones up to 500, boundary and small uint64 hash values, GOMAXPROCS 1..4, every operation",
 "sync has no tests",
 [MAP],[("key.Hash() modulo number of splits","Map.Split")],["Split(key).Map contents"])
p("D06","a panicking callback leaves no sync.Map lock behind",
 "If a function passed to any sync.Map operation panics, the panic reaches the caller of that operation (possibly wrapped as documented for the parallel and speculative variants, and except where a decisive result further left makes a speculative variant swallow it), the entry being worked on keeps its old value, and all operations on all keys of the map remain usable afterwards.",
 ["fault_sequences","schedules"],"every callback-taking operation and variant x panicking at every callback position x subsequent use of every key; all schedules",
 "sync has no tests",
 [MAP],[("deferred unlock around callbacks","Split.srange, Split.predicate, Split.reduce*, Map.Modify, Map.DeleteOrCompute")],["subsequent operations complete (deadlock detection)"])
p("E01","Sort and StableSort return a sorted permutation",
 "For every collection and every schedule, after Sort or StableSort returns, the collection contains exactly the elements it contained before, in non-decreasing order according to its Less method, for the slice types of this package and for user-defined collections. Sizes around and far above the thresholds at which the algorithms go parallel are included.",
 ["inputs","schedules"],"sizes 0..40 and around every grain-size boundary up to 5x the mergesort grain, all block patterns over small alphabets, collections that decide their elements while they are compared (adversaries of quicksort); schedules with up to 2 deviations at the fork points",
 "the tests sort a few large random slices; merge-boundary and pivot bugs need specific sizes and value patterns",
 ["sort/quicksort.go","sort/mergesort.go","sort/sort.go"],[("parallel quicksort","sort.Sort"),("cilksort with parallel merge","sort.StableSort, pMerge, sMerge")],["final contents"])
p("E02","StableSort is stable",
 "For every collection whose SequentialSort is stable, StableSort keeps the original relative order of elements that compare equal, on every schedule.",
 ["inputs","schedules"],"sizes around the mergesort grain boundaries, all block patterns over 1..3 keys (many equal elements crossing every block boundary), tagged elements",
 "one test with one random input",
 ["sort/mergesort.go"],[("binary searches that respect run order; merge taking left run first","binarySearchEq/Neq, sMerge, pMerge")],["order of tags among equal keys"])
p("E03","IsSorted and *AreSorted are exact",
 "IsSorted, IntsAreSorted, Float64sAreSorted and StringsAreSorted return true if and only if no element is smaller than its predecessor, for every size, every position and number of such descents, and on every schedule.",
 ["inputs","schedules"],"every single descent position for sizes around the parallel threshold and its multiples, descents at all ends and binary fractions for several hundred sizes up to 45000, pairs of descents, all-equal and sorted inputs; all schedules at fork points",
 "tests only ask for sorted outcomes of previous sorts; a skipped index at a batch boundary is invisible",
 ["sort/sort.go"],[("parallel test over halves","sort.IsSorted")],["result"])
p("E04","sorting never accesses an element concurrently with a write to it",
 "While Sort, StableSort, IsSorted or *AreSorted run, no element of the collection (or of the temporary collection) is read or written by one goroutine while another goroutine writes it without synchronization in between, all indices passed to the collection are within bounds, and after the call returned no goroutine started by it accesses the collection.",
 ["schedules","inputs"],"happens-before race detection over every element access, for all explored sizes/patterns and schedules",
 "the tests are not run under a race detector and would only sample schedules",
 ["sort/sort.go","sort/quicksort.go","sort/mergesort.go"],[("disjoint index ranges per goroutine, joined before reuse","parallel.Do / speculative.And in sort")],["element accesses through Less, Swap, Assign, SequentialSort"])
p("E05","panics of a collection's methods reach the caller of the sorting functions",
 "If a method of the collection (Len, Less, Swap, SequentialSort, NewTemp, Assign, or a function returned by Assign) panics while Sort, StableSort or IsSorted runs, on every schedule the call panics in the caller's goroutine (it neither returns normally, nor hangs, nor crashes the process); the panic value is one that was raised during this call, or a value derived from it that begins with its printed form and is an error, respectively a runtime.Error, if and only if the original is. If no method panics, the call does not panic. Later calls on other collections are not affected.",
 ["schedules","fault_sequences","inputs"],"every method x first or particular elements at the ends and block boundaries, pairs of such sites, 25 kinds of panic values, sizes below, at and above the thresholds; one canonical schedule, 1 or 2 deviations for some",
 "no existing test panics in a collection; a goroutine without recover crashes the process only if the panic happens in it",
 ["sort/sort.go","sort/quicksort.go","sort/mergesort.go"],[("panics pass through parallel.Do / parallel.And; NewTemp runs in its own goroutine","sort.Sort, sort.StableSort, sort.IsSorted")],["panic value recovered by the caller"])
PN=["pipeline/pipeline.go","pipeline/seqnode.go","pipeline/parnode.go","pipeline/lparnode.go","pipeline/strictordnode.go"]
p("F01","every batch passes through every filter exactly once, then finalizers run once",
 "In a pipeline run that is neither cancelled nor failed, for every combination of Ord, Seq, Par, LimitedPar and StrictOrd nodes and every schedule, every batch fetched from the source is passed exactly once to each receiver of each node, receivers see the data returned by the receiver before them, and every finalizer is invoked exactly once after all receivers of its node have finished for all batches and before Run returns. All effects of receivers and finalizers are visible when Run returns.",
 ["schedules","programs"],"all node sequences up to length 3 (4 in thorough) over 5 node kinds x 1..3 batches x all schedules (bounded where stated); more nodes, filters and batches on one canonical schedule or with few delays",
 "one example pipeline; lost or duplicated batches need specific node combinations and schedules",
 PN,[("FeedForward by node index","Pipeline.FeedForward"),("channels and WaitGroups per node","seqnode/lparnode/parnode/strictordnode Feed, Begin, End")],["receiver and finalizer invocations"])
p("F02","ordered stages see batches in encounter order, sequential ones one at a time",
 "On every schedule, whatever precedes them, Ord and StrictOrd nodes pass batches to their receivers one at a time, each batch visibly after the previous one, in the order in which they were fetched from the source, with consecutive sequence numbers starting at 0; Seq nodes pass batches one at a time in any order. Under cancellation or error, ordered nodes have seen a gap-free prefix of that order and sequential ones a duplicate-free subset.",
 ["schedules","programs","fault_sequences"],"all node sequences up to length 3 (4 in thorough) x 2..4 batches x all schedules, with and without a cancelling thread; all orders of arrival of up to 4 (5) batches and eleven kinds of orders of up to 257 batches, held back and released by a preceding node, on one canonical schedule",
 "reordering needs a preceding parallel node and a particular schedule",
 PN,[("stash of out-of-order batches","seqnode Ordered goroutine"),("condition variable on next sequence number","strictordnode.Feed, lparnode.Feed")],["sequence numbers seen by receivers"])
p("F03","pipelines always terminate and leave no goroutine behind",
 "For every combination of nodes, every schedule and every source that ends, fails, or ends when the context is cancelled, with or without a concurrent Cancel, SetErr or source error at any point of the run, Run and RunWithContext return, the process does not crash, and all goroutines started by the pipeline terminate once its context is cancelled (which Run ensures).",
 ["schedules","programs","fault_sequences"],"all node sequences up to length 3 (4 in thorough) x 1..3 batches x cancellation by an independent thread at every point / SetErr or Cancel in every receiver x all schedules; channels that are never closed x batch sizes x cancellation by the producer, a receiver, another thread or a parent context (few deviations); deadlock and leak detection",
 "a lost wakeup or a deadlock needs one specific interleaving of cancellation and feeding",
 PN,[("select on ctx.Done() around every channel operation","all nodes"),("Broadcast on cancellation","strictordnode, lparnode")],["return of Run; goroutines alive afterwards"])
p("F04","LimitedPar never exceeds its limit",
 "A LimitedPar(k) node executes its receivers in at most k goroutines at the same time for every k >= 1, on every schedule; LimitedPar with k <= 0 uses at most GOMAXPROCS goroutines, and nodes with different limits never share a limit. With enough batches available, k receivers of such a node can be active at the same time.",
 ["schedules","configurations"],"k in -1..3, adjacent nodes with equal and different limits, 2..4 batches, rendezvous between receivers; all schedules",
 "no test uses LimitedPar",
 ["pipeline/lparnode.go"],[("limit worker goroutines on one channel","lparnode.Begin")],["number of concurrently active receivers"])
p("F05","the first error wins, cancels the pipeline, and is reported by Err",
 "For every schedule of SetErr calls, exactly the first one to take effect with a non-nil error returns true, all others return false, the pipeline's context is cancelled, and Err returns that error from then on, also after Run returned. An error of the source is reported by Err after Run if no other error was set first; no batch is fetched after the source returned an error or reported 0 elements, and a pipeline without any error reports nil.",
 ["schedules","fault_sequences"],"two concurrent SetErr callers x receivers/finalizers/filters/external threads x source errors at every fetch, all schedules; scanners whose reader fails at every byte, or whose split function or buffer fails, x batch sizes",
 "no test sets an error",
 ["pipeline/pipeline.go","pipeline/source.go"],[("error under mutex","Pipeline.SetErr, Pipeline.Err"),("source error check after each Fetch","Pipeline.RunWithContext")],["results of SetErr and Err"])
p("F06","sources deliver all data, in order, in batches of the configured size",
 "For every slice, array, string, channel, SingletonChan, Scanner, BytesScanner, Func and user-defined source, the concatenation of the batches equals the source's data in order, no delivered batch is changed by later fetching, and batch sizes follow the configuration: with known size at most NofBatches(n) batches (default 2*GOMAXPROCS) of equal size except the last; with unknown size batch number i has min((i+1)*batchInc, maxBatchSize) elements, except the last. A channel source ends when the channel is closed or the pipeline is cancelled.",
 ["inputs","configurations","schedules"],"sizes 0..12 x NofBatches 0..13 x GOMAXPROCS 1..3; batchInc 1..4 x maxBatchSize 1..6; every element kind; channel producers as threads, all schedules",
 "the only test uses a Scanner with default sizes",
 ["pipeline/source.go","pipeline/pipeline.go"],[("slicing","sliceSource.Fetch"),("reflect.Select with ctx.Done","chanSource.Fetch, SingletonChan.Fetch"),("batch size computation","Pipeline.NofBatches, nextBatchSize, RunWithContext")],["batches seen by the first node"])
p("F07","standard filters compute what they document",
 "In a run that is not cancelled otherwise, on every schedule and in every kind of node, Every, NotEvery, Some, NotAny set their result to the quantified predicate over all batches; Count sets its result to the total size of the batches it sees, Slice appends exactly these batches to the given slice (in encounter order in ordered nodes); Limit and Skip pass on exactly the first n, respectively all but the first n elements, in any composition, including empty batches; Skip with a negative count sets the pipeline's error and Slice with a pointer to something that is not a slice sets the error instead of crashing. With cancelWhenKnown (or cancelWhenReached), the result is still correct and the pipeline is cancelled when it is known.",
 ["inputs","programs","schedules"],"all filter pairs x node kinds x source kinds (known/unknown size) x sizes 0..7 x limits -1..8 against a reference interpreter; all schedules for parallel nodes",
 "no test uses these filters",
 ["pipeline/filters.go"],[("filters with per-kind receivers","Every, NotEvery, Some, NotAny, Slice, Count, Limit, Skip")],["results after Run"])
p("F08","merging and eliminating nodes does not change what a pipeline computes",
 "What the receivers and finalizers of a pipeline observe does not depend on how filters are grouped into nodes: empty nodes, Identity filters, nodes whose filters all return nil, and adjacent nodes of the same kind can be added anywhere without changing the batches seen by any other filter, the order guarantees of the nodes, the node kind strength (an ordered filter stays ordered), or the error and termination behaviour. Each filter is invoked exactly once, before any batch is fed, with the pipeline, a node kind at least as strict as requested, and the data size announced by the source as modified by the preceding filters.",
 ["programs","schedules"],"all pipelines up to 3 nodes with an empty/identity/mergeable node inserted at every position; compared with the pipeline without it; all schedules",
 "no test has more than two nodes or an eliminated node",
 PN+["pipeline/filters.go","pipeline/filter.go"],[("merging","TryMerge of all nodes, Pipeline.Add, RunWithContext"),("elimination","Begin returning false")],["receiver invocations"])
p("F09","user-defined nodes and filters are driven as the Node interface documents",
 "For every pipeline that mixes user-defined Node implementations with the built-in nodes, in a run that is neither cancelled nor failed: each node that was not merged into another one when it was added gets Begin exactly once, in pipeline order and before any batch is fetched, with the pipeline, its position and the announced data size as modified by the nodes before it; a node whose Begin returns false, or that was merged into another one, is not used further; every other node is fed each batch exactly once with the pipeline, the same index every time, the batch's sequence number and the data forwarded by the node before it; FeedForward with that index reaches the next node in use (and is ignored for the last one); End is called exactly once per node in pipeline order, after all Feed calls for that node have finished. ComposeFilters calls each filter once in order with the given pipeline, kind and size, and returns the non-nil receivers and finalizers in that order.",
 ["programs","schedules"],"all sequences of up to 3 nodes (4 over a smaller alphabet) over 7 kinds of user-defined nodes (synchronous, asynchronous, buffering until End, eliminated, resizing, merging early or late) and the 5 built-in kinds x 0..3 batches, with single and bulk Add; all schedules (bounded where stated); all vectors of up to 4 filters for ComposeFilters",
 "no test defines a node; index shifts after elimination and merging show only with particular node sequences",
 PN+["pipeline/filter.go"],[("node table: Begin, elimination, merging, Feed, End","Pipeline.RunWithContext, Pipeline.Add"),("forwarding by index","Pipeline.FeedForward"),("collection of receivers and finalizers","ComposeFilters")],["calls of the Node methods, results of ComposeFilters"])
p("F10","pipeline contexts: Context, Cancel and the cancel function are as documented",
 "During and after a run, Context returns the context passed to RunWithContext (or the one created by Run), also to filters, receivers, finalizers and the source's Prepare method, which is called exactly once; Cancel calls the cancel function, so that the context is cancelled once Cancel or a successful SetErr has returned; Run has cancelled its context when it returns; RunWithContext on its own, without Cancel, SetErr or a source error, never calls the cancel function, so that the caller's context stays usable. Cancellation of a parent context ends the pipeline like Cancel does, without setting an error.",
 ["schedules","programs","fault_sequences"],"all node sequences up to length 2 (3..4 on one canonical schedule) x 0..3 batches x Run, RunWithContext with own, parent and grandparent contexts x Cancel or SetErr in every filter, receiver and finalizer; all schedules (bounded where stated)",
 "no test passes a context or cancels a pipeline",
 ["pipeline/pipeline.go","pipeline/seqnode.go","pipeline/lparnode.go","pipeline/parnode.go","pipeline/strictordnode.go"],[("context and cancel function stored per run","Pipeline.RunWithContext, Pipeline.Context, Pipeline.Cancel, Pipeline.SetErr"),("defer cancel","Pipeline.Run")],["Context, calls of the cancel function, state of the context"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for d in P:
            assert len(d["title"])<=80,(d["id"],len(d["title"]))
            f.write(json.dumps(d)+"\n")
    print(len(P),"properties")
