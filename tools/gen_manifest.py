import json
P=[]
def p(id,title,st,over,txt,why,files,mech,state=None,obs=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":txt},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],**({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),"observe_at":obs or ["the argument of the public call after it returned"],"hook_needed":None}})
typed="the per-type files are near-identical copies; tests sort a few random arrays per type"
p("C01","Integer slices come out as the sorted permutation of the input",
 "For every slice of int, int32, int64, uint, uint32, uint64, uintptr or a type based on them, SortSlice returns with the slice in ascending order and holding exactly the same multiset of values. This holds for every length, every arrangement, extreme values included, and every MaxGor.",
 ["inputs","schedules"],"all lengths and arrangements; all interleavings of the goroutines used",
 "Tests sort large random arrays and a few crafted ones; rare splits, ties, tiny ranges at each limit, extreme values in the pivot mean and unlucky interleavings are left to chance.",
 ["sortyI4.go","sortyI8.go","sortyU4.go","sortyU8.go","sortySlice.go","sorty.go"],
 [("insertion*, short*, long*, pivot*, partOne*, partTwo*, partCon*","sortyI8.go and its copies"),("minMaxSample, minMaxFour","sorty.go"),("SortSlice dispatch","sortySlice.go")])
p("C02","Float slices are sorted with NaNs placed as NaNoption says",
 "For every slice of float32, float64 or a type based on them, SortSlice returns a permutation of the input, bit patterns of NaNs and signed zeros included, with the other values ascending, NaNs first when NaNoption is NaNsmall and last when it is NaNlarge. With NaNignore the same holds for every slice without NaNs. It holds for every length, arrangement, number and position of NaNs and every MaxGor.",
 ["inputs","schedules","configurations"],"all arrangements of values, infinities, zeros and NaNs; three options; all interleavings",
 "Tests use a few NaN patterns on random data; the NaN partitioning before the sort has its own boundary cases (no NaN, all NaN, one left) and pivots are never NaN only if it is right.",
 ["sortyF4.go","sortyF8.go","sortySlice.go"],[("NaN partition (nansmall/nanlarge*)","sortyF4.go, sortyF8.go"),("partOne*, partTwo*, partCon*, short*, long*","sortyF8.go and copy")])
p("C03","String and byte-slice collections are sorted lexicographically",
 "For every slice of strings, of []byte or of types based on them, SortSlice returns with the elements in ascending lexicographic byte order and holding exactly the same elements (same headers, hence same backing bytes). Empty, nil and prefix-related elements are included, as is every length, arrangement and MaxGor.",
 ["inputs","schedules"],"all lengths and arrangements; all interleavings","Tests sort random fixed-shape strings; prefixes, empties, ties with different backing memory and interleavings are hardly met.",
 ["sortyS.go","sortyB.go","sortySlice.go"],[("short*, long*, partCon*, insertion*","sortyS.go, sortyB.go")])
p("C04","SortLen orders collections by length",
 "For every slice of strings or of slices, SortLen returns with the elements in ascending order of length and holding exactly the same elements. It holds for every length, arrangement and MaxGor, and for element types of any size, zero included.",
 ["inputs","schedules"],"all lengths and arrangements; all interleavings","Tests sort random data by length for two element types only.",
 ["sortyLenB.go","sortyLenS.go","sortyLen.go"],[("SortLen dispatch","sortyLen.go"),("short*, long*, partCon*, insertion*","sortyLenB.go, sortyLenS.go")])
p("C05","Sort with a lesswap function sorts any collection",
 "For every n and every lesswap function that follows the documented contract over a strict weak order, Sort(n, lsw) returns with the collection in order under that function and holding exactly the same elements. It holds for ties, descending comparators, comparators that ignore part of an element, and every MaxGor.",
 ["inputs","schedules"],"all n and arrangements; several comparators; all interleavings","Tests use one comparator per type on random data. The pivot is itself moved by swaps, which fails only for particular positions.",
 ["sortyLsw.go","sorty.go"],[("insertion, short, long, pivot, partOne, partTwo, partCon","sortyLsw.go")])
p("C06","Concurrent typed sorts are right under every schedule, without data races",
 "Whatever the interleaving of the goroutines a SortSlice or SortLen call uses, the result is the sorted permutation of its input and no two of its goroutines access the same element without synchronisation, one of them writing. Every access made for the call happens before it returns.",
 ["schedules","inputs"],"all interleavings of channel, atomic and go operations; lengths from the concurrency limit to about three times it","Tests run whatever schedule the runtime picks; the race detector only judges that one.",
 ["sortyI4.go","sortyI8.go","sortyU4.go","sortyU8.go","sortyF4.go","sortyF8.go","sortyB.go","sortyS.go","sortyLenB.go","sortyLenS.go"],
 [("partCon*: two goroutines on disjoint parts, joined by the channel","each file"),("gLong*/long*: hand over the longer range, keep the shorter","each file"),("sort*: last goroutine signals done","each file")],
 [("nGor","sorting goroutines at work","sorty.go syncVar"),("done","partition result and end signal","sorty.go syncVar")])
p("C07","Concurrent Sort(lesswap) is right under every schedule, without data races",
 "Whatever the interleaving of the goroutines a Sort(n, lsw) call uses, the collection ends in order with the same elements, and no two concurrent lsw calls touch the same element unless both only compare it. No lsw call is in progress or made after Sort returned.",
 ["schedules","inputs"],"all interleavings; lengths from the concurrency limit to about three times it","Tests run whatever schedule the runtime picks; the shared pivot position is read by two goroutines at once.",
 ["sortyLsw.go"],[("partCon with gPartOne","sortyLsw.go"),("long, gLong, Sort","sortyLsw.go")],[("nGor, done","as for the typed sorts","sorty.go")])
p("C08","Every sort call ends, with nothing left running",
 "Under every schedule each Sort* call returns: no deadlock, no lost end signal, no panic. When it has returned, no goroutine it started is blocked or still has work on the collection to do.",
 ["schedules","inputs"],"all interleavings of the goroutine counter, the partition channel and the end signal","A lost or doubled end signal needs two goroutines to finish in a particular order; a leaked goroutine is invisible to a test that only checks order.",
 ["sortyLsw.go","sortyI8.go","sortyF8.go","sortyS.go","sortyB.go","sortyLenB.go","sortyLenS.go","sorty.go"],[("goroutine counter and done channel","sort*/gLong* of each file")],[("nGor","sorting goroutines at work, reaches 0 exactly once","sorty.go"),("done","partition result, then end signal","sorty.go")],["return of the call; goroutines alive afterwards"])
p("C09","At most MaxGor goroutines work for one sort call",
 "With MaxGor constant during a call, at most MaxGor goroutines, the caller included, work on one Sort* call at any time, in every schedule. With MaxGor at most 1, or with fewer than twice the minimum length for a new sorting goroutine (MaxLenRec+1, or MaxLenRecFC+1 for strings, byte slices and Sort), no goroutine and no channel is created at all, and otherwise at most one channel per call.",
 ["schedules","inputs","configurations"],"all interleavings, MaxGor 0 to 6, lengths 0 to three times the limit; longer ones within a bound on deviations","Tests never look at the number of goroutines.",
 ["sorty.go","sortyLsw.go","sortyI8.go"],[("gorFull and the increments before each go statement","sorty.go, all typed files")],[("MaxGor","quota, public","sorty.go")],["goroutines and channels created during a call"])
p("C10","MaxGor can be changed while sorts are running",
 "When other goroutines change MaxGor at any moment during a Sort* call, the call still returns the sorted permutation, without panic, deadlock or leftover goroutine. A lowered quota takes effect: from then on no goroutine is started without looking at the current value.",
 ["schedules","histories","configurations"],"all placements of up to three changes among the steps of a call","One test changes nothing while sorting; the documentation allows it.",
 ["sorty.go","sortyLsw.go","sortyI8.go"],[("gorFull reads MaxGor once per decision","sorty.go")],[("MaxGor","quota, public","sorty.go")])
p("C11","Independent calls do not affect each other",
 "Sort* calls running at the same time or one after another on different collections, of the same or different types, each produce what they produce alone. They share no mutable state and leave none behind: no data race, no deadlock, no mixed-up signals.",
 ["schedules","inputs","histories"],"all pairs of types, some triples, histories of up to three calls alone and beside another one, calls made by a lesswap function, calls after one that panicked; all interleavings","Tests start from a fresh process state and hardly overlap calls, so hidden shared or leftover state would never show.",
 ["sorty.go","sortySlice.go","sortyLen.go","sortyLsw.go","sortyI8.go"],[("all state is local to the call","all files")])
p("C12","IsSorted functions report order exactly and modify nothing",
 "IsSortedSlice, IsSortedLen and IsSorted return 0 exactly when the collection is in ascending order under the ordering the matching Sort* call uses (NaNoption included). Otherwise they return an index i with 0<i<length where element i belongs before element i-1 (for floats, or where one of the two is a NaN), and they never modify the collection, not even for a moment, nor ask the lesswap function to swap, so one collection can be checked by several goroutines at once.",
 ["inputs","configurations","schedules"],"all arrangements up to a length; single inversions at every position of longer ones; two readers at once","Tests call them mostly on data that is sorted.",
 ["sortyLsw.go","sortySlice.go","sortyLen.go","sortyF4.go","sortyF8.go"],[("isSorted*","each typed file"),("IsSorted","sortyLsw.go")],None,["return value"])
p("C13","Search returns the smallest true index with O(log n) calls",
 "For every n>=0 and every monotone predicate, Search(n, fn) returns the smallest i in [0,n) with fn(i) true, or n if there is none. It calls fn only with indices in [0,n) and about log2(n) times, for n up to the largest int.",
 ["inputs"],"all (n, answer) pairs up to a bound and around powers of two up to MaxInt","Tests search a few arrays; overflow of the midpoint and off-by-one show only at extremes.",
 ["sorty.go"],[("Search","sorty.go")],None,["return value and calls of fn"])
p("C14","Arguments are dispatched by type as documented, others are refused",
 "SortSlice, IsSortedSlice, SortLen and IsSortedLen accept exactly the documented element kinds, named types included, and treat each with its own ordering (signed, unsigned, float, lexicographic, address, length). Any other argument (nil, non-slices, arrays, pointers to slices, unsupported element kinds) makes them panic without modifying anything; nil and empty supported slices are fine.",
 ["inputs"],"all supported and unsupported kinds, named and nested types, crossed with the four functions","Tests cover the supported kinds but few refusals and few named types.",
 ["sorty.go","sortySlice.go","sortyLen.go"],[("extractSK","sorty.go"),("switch on kind","sortySlice.go, sortyLen.go")],None,["panic or result"])
p("C15","Sorting stays inside the given slice and works in place",
 "A Sort* or IsSorted* call reads and writes no element outside the given slice, not even in its spare capacity, and only permutes what is inside. It needs only a small constant amount of memory per call beyond goroutine stacks, however long the slice.",
 ["inputs","schedules"],"all arrangements and interleavings explored for the sorts, inside guard zones; allocation at lengths up to 120000","Tests never look around the slice, where unsafe headers built by hand could reach.",
 ["sortySlice.go","sortyLen.go","sortyF8.go","sortyI8.go"],[("sixb.Slice header built from the argument","sorty.go extractSK"),("three-index slicing","each typed file")],None,["memory around the slice; allocation statistics"])
p("C16","The lesswap function is only called as its contract allows",
 "Sort(n, lsw) and IsSorted(n, lsw) call lsw(i, k, r, s) only with all four indices in [0,n), only during the call, and IsSorted only with r equal to s. Collections therefore never see an out-of-range access or a swap that was not guarded by the comparison.",
 ["inputs","schedules"],"all arrangements and interleavings explored for Sort; the first calls for lengths up to the largest int","An out-of-range index panics in a test only if the array ends there; late calls need a schedule.",
 ["sortyLsw.go"],[("every lsw call","sortyLsw.go")],None,["arguments of lsw"])
p("C17","Pointer slices are sorted by address and stay visible to the collector",
 "SortSlice on slices of pointers or unsafe.Pointer orders them by address and returns the same pointers, under every schedule. Every pointer moved is stored as a pointer, so that a garbage collection at any moment of the call frees nothing reachable from the slice; elements of string, slice and pointer type are never held only as integers.",
 ["inputs","schedules"],"all arrangements and interleavings explored; every store to a pointer slot","A missing write barrier loses an object only if the collector marks at the wrong moment, which tests do not reach.",
 ["sortySlice.go","sortyP.go","sorty.go"],[("typed moves of pointers","sortyP.go"),("dispatch of pointer kinds","sortySlice.go")],None,["type of every store to a pointer slot; the result"])
p("C18","Recursion depth stays logarithmic in the length",
 "For every input, adversarial ones included, the calls nested on any goroutine's stack while sorting n elements stay proportional to log n. Memory for stacks is thus negligible even for patterns that make partitions as uneven as possible.",
 ["inputs","schedules"],"shape families and adversarial (median-killer) inputs for all types, with a free and a used-up quota of goroutines; depth counted at every call","Random inputs split evenly, so recursing on the longer part would pass every test.",
 ["sortyLsw.go","sortyI8.go","sortyS.go"],[("recurse on the shorter range, loop on the longer","short*, long* of each file")],None,["call nesting"])
p("C19","Every legal tuning sorts right, illegal ones are refused at start",
 "With any values of MaxGor and the MaxLen* limits that satisfy the documented order (0<MaxGor<4097, MaxLenRec>MaxLenRecFC>2*MaxLenIns, MaxLenIns>MaxLenInsFC>8) the program starts and every sort returns the sorted permutation. With other start values the program panics at initialisation.",
 ["configurations","inputs"],"a grid over the relations between the limits, crossed with inputs around each limit; process starts around each bound","Tests run the default limits and one tuned set.",
 ["sorty.go","maxv.go","maxc.go"],[("init check","sorty.go"),("uses of the limits","all files")],None,["process start; results"])
p("C20","The guarantees hold on 32-bit platforms",
 "On a platform with 32-bit int and pointers, sorting, order checks and Search give the same guarantees as on 64-bit ones for all supported types. In particular 64-bit elements, the 64-bit goroutine counter and int/uint/uintptr/pointer slices are handled at their own width.",
 ["inputs","configurations"],"the input enumerations run by a 386 build","Tests run on the host platform only.",
 ["sorty.go","sortySlice.go","sortyLen.go"],[("kind mapping by size","sorty.go extractSK, insertionI"),("alignment of the counter","sorty.go syncVar")])
p("C21","Long collections are sorted by several goroutines at once",
 "With MaxGor at least 2 during the call and a length of at least twice the minimum for a new sorting goroutine (2*(MaxLenRec+1), or 2*(MaxLenRecFC+1) for strings, byte slices and Sort), every Sort* call starts a goroutine that works at the same time as the caller. When a long collection keeps splitting evenly, MaxGor goroutines get to work at once, and places of goroutines that ended are used again.",
 ["schedules","inputs","configurations"],"default schedules of five kinds, one taking turns; MaxGor 2 to 2^40; lengths 1 to 128 times the minimum",
 "Tests only look at the result, which is the same when the work is done by one goroutine.",
 ["sorty.go","sortyLsw.go","sortyI8.go"],[("conditions before partCon*, gPartOne* and gLong*","all typed files, sortyLsw.go"),("gorFull and the counter","sorty.go")],[("nGor","goroutines at work, must go down when one ends","sorty.go")],["goroutines created during a call and the order of their work"])
p("C22","Common arrangements are sorted in O(n log n) steps",
 "On collections that are ascending, descending, rotated, shuffled, organ-pipe, alternating, made of a few runs, or in order but for some elements, a Sort* call makes at most 8*n*log2(n)+2*n*MaxLenIns accesses to elements (4 to 8 times fewer is usual), whatever MaxGor is. For SortSlice and SortLen this includes collections of few distinct or all equal values. An IsSorted* call makes at most 4*n.",
 ["inputs","configurations"],"about 70 arrangements at every fifth length to 260 and some to 12000 (small limits) and 40000 (default limits), MaxGor 1, 3 and 40","A sort that became quadratic on sorted input is still right; tests use random inputs and do not count steps.",
 ["sorty.go","sortyLsw.go","sortyI8.go","sortyS.go"],[("equidistant samples","sorty.go minMaxSample, minMaxFour"),("median pivots","pivot* and short* of each file"),("balanced partitioning of equal elements","partOne*, partTwo*, partCon*")],None,["element accesses counted by the instrumentation"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
LV={"C13":"exploration","C14":"exploration","C19":"exploration","C20":"exploration","C22":"exploration"}
T={"seq+conc":"bounded exhaustive enumeration of inputs on the real code + stateless model checking (dynamic partial-order reduction) of all schedules of the instrumented code",
"conc":"stateless model checking of the instrumented real code: all schedules up to partial-order equivalence (DPOR), long runs up to a bound on deviations from default schedules; happens-before race and quota monitors",
"seq":"bounded exhaustive enumeration of inputs on the real code against a reference predicate",
"depth":"exhaustive enumeration of input families and schedules on code instrumented with a call-depth monitor, adversarial inputs from a lazy-order adversary",
"cfg":"exhaustive enumeration of a grid of tunings and inputs, and of process starts",
"cost":"exhaustive enumeration of input families x lengths x default schedules on the instrumented real code, with an access counter as monitor"}
W={**{f"C0{i}":"seq+conc" for i in range(1,6)},**{k:"conc" for k in ("C06","C07","C08","C09","C10","C11")},"C12":"seq+conc","C21":"conc","C13":"seq","C14":"seq","C15":"seq+conc","C16":"seq+conc","C17":"seq+conc","C18":"depth","C19":"cfg","C20":"seq","C22":"cost"}
N={"seq+conc":"Every input and every schedule within the bounds of DESIGN.md is executed on the code itself (tuned-down limits for density, default limits as well). Trusted: Go toolchain, the instrumenter and scheduler (sequential consistency; element accesses checked for races rather than interleaved). Larger lengths rest on the small-scope argument.",
"conc":"Every schedule (up to equivalence) of every enumerated input is executed, complete for the runs not counted as deviation-bounded or incomplete in the evidence. Trusted: Go toolchain, instrumenter and scheduler (sequential consistency; races detected by happens-before).",
"seq":"Every enumerated input is executed on the code itself and judged by an independent reference. Nothing is sampled; inputs beyond the bounds are not covered.",
"depth":"Depth is measured on every enumerated input and explored schedule and compared with 2*log2(n)+16. Adversarial inputs are built against the pivot rule of the code; other rules get weaker adversaries.",
"cost":"Accesses to elements are counted on every enumerated input and compared with the limit, which the present code stays 2.5 times below. Arrangements outside the families, adversarial ones in particular, may take quadratic time and are not judged.",
"cfg":"Every tuning of the grid and every start value tuple is executed. Tunings outside the grid are not covered."}
M={"version":1,"setup_cmd":"python3 setup.py",
 "checks":[{"property":x["id"],"quick_cmd":"python3 check.py %s quick"%x["id"],"thorough_cmd":"python3 check.py %s thorough"%x["id"],
   "technique":T[W[x["id"]]],"level":LV.get(x["id"],"model_checking"),"level_note":N[W[x["id"]]]} for x in P],
 "not_applicable":[],
 "notes":"No hooks in /repo: each check copies the working tree to a scratch directory, instruments the copy (tools/instr) and builds explorers there. known_findings.txt lists recorded and repaired defects; a violation's replay file is run with: python3 check.py --replay FILE"}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
