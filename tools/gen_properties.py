import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
IDX=["pkg/idxtable/table.go","pkg/idxtable/entry.go"]
IT=IDX+["pkg/idxtable/iterator.go"]
RT=["pkg/table/table.go","pkg/table/table16/table16.go","pkg/table/table32/table32.go","pkg/table/table64/table64.go"]
TR=["pkg/tree/tree.go","pkg/tree/node.go","pkg/tree/tree_manual.go"]
GT=["pkg/tree/gtree/gtree.go","pkg/tree/tree16/tree16.go","pkg/tree/tree32/tree32.go","pkg/tree/tree64/tree64.go"]
ID=["pkg/tree/id16/id16.go","pkg/tree/id32/id32.go","pkg/tree/id64/id64.go","pkg/tree/id16/myuint16.go","pkg/tree/id32/myuint32.go","pkg/tree/id64/myuint64.go"]
RG=["pkg/tree/id16/range16.go","pkg/tree/id32/range32.go","pkg/tree/id64/range64.go"]
SET=["pkg/tree/id16/idset.go","pkg/tree/id32/idset.go","pkg/tree/id64/idset.go"]
tabstate=[("claimed entries","the id -> data map of current claims","table.table in pkg/idxtable/table.go"),("size","number of ids the table manages","table.size in pkg/idxtable/table.go")]
p("C01","Index table: a claim is exclusive, bounded and lasting",
 "On an index table of any size n>=1, Claim(id) succeeds exactly when id<n and id is not claimed at that moment, and Update(id) exactly when id<n is claimed; Release of any id<n succeeds and makes it free. Until it is released a claimed id is reported by Get, Has and Size with the data last given to it, IsFree answers the opposite of Has for every id<n, and unclaimed ids are not found. Every id>=n is refused by Get, Claim, Update and Release, and is never reported as present.",
 ["histories","inputs"],"Every sequence of operations on a table of every size, with every id including those at and beyond the upper bound.",
 "TestClaim/TestRelease run one straight-line history on one size-1000 table; re-claim of a claimed id, re-use after release, update and interleaved histories are never executed.",
 IDX,[("validate() bound check on every id","pkg/idxtable/table.go validate"),("add/update/delete existence checks","pkg/idxtable/table.go add, update, delete")],tabstate,["Claim","Get","Has","IsFree","Update","Release","Size"])
p("C02","Index table: block claims take exactly the requested consecutive ids",
 "ClaimRange(start,size) with size>=1 succeeds exactly when every id from start to start+size-1 lies in the table and is free, and it then claims all of those ids with the given data and no other id. FindFreeRange(start,size) returns, under the same condition, exactly those ids in ascending order and claims nothing. In every other case (an id in use anywhere in the block, an end beyond the table, size 0, start+size overflowing) both report an error and the table is unchanged.",
 ["inputs","histories"],"Every table size, every occupancy of the table and every (start,size) pair, including size 0, size 1, blocks touching the last id and values near 2^64.",
 "TestClaimRange has three cases and checks only the entries inside the block; in particular size 1, a claimed first or last id of the block and claimed ids inside it other than at the front are never tried.",
 IT,[("findFreeRange walks the free ids and checks they are consecutive","pkg/idxtable/table.go findFreeRange"),("ClaimRange adds under one lock","pkg/idxtable/table.go ClaimRange")],tabstate,["ClaimRange","FindFreeRange"])
p("C03","Index table: free search and dynamic claims pick the lowest free ids",
 "FindFree reports, and ClaimDynamic claims and returns with the given data, the lowest free id; both fail exactly when no id is free. FindFreeSize(k) reports, and ClaimSize(k) claims and returns, the k lowest free ids in ascending order for k>=1; both fail exactly when fewer than k ids are free, and then nothing is claimed. The Find operations never change the table, and ids that were released are found again.",
 ["histories","inputs"],"Every table size, every history of claims and releases leading to any occupancy, and every k including 0, the number of free ids, one more than it, and beyond the table size.",
 "TestClaimSize claims once from an empty table; dynamic claims are not tested at all, nor is any table with holes or a full table.",
 IT,[("iterateFree lists the ids missing from the map in ascending order","pkg/idxtable/table.go iterateFree"),("findFreeSize counts up to size","pkg/idxtable/table.go findFreeSize")],tabstate,["FindFree","ClaimDynamic","FindFreeSize","ClaimSize"])
p("C04","Index table: listings are complete, ordered, and stable once taken",
 "Iterate and GetAll give every claimed id exactly once in ascending order with its data, and IterateFree gives every free id of the table exactly once in ascending order; after its last element an iterator stays exhausted. While an iterator stands on an id, IsConsecutive is true exactly when the iterator visited id-1 immediately before. A listing or iterator keeps the contents it had when it was taken, whatever is claimed, updated or released afterwards.",
 ["histories","inputs"],"Every reachable table content, every iteration order of the underlying map, and every operation performed between taking a listing and reading it.",
 "TestIterate compares the keys of two fixed tables and never modifies a table while an iterator is live; values, IterateFree and IsConsecutive are untested.",
 IT,[("iterate/iterateFree collect and sort the keys","pkg/idxtable/table.go iterate, iterateFree"),("Iterator steps over the collected keys","pkg/idxtable/iterator.go")],tabstate,["Iterate","IterateFree","GetAll","Iterator.Next/ID/Value/IsConsecutive"])
p("C05","Index table: concurrent use is linearizable, race-free and deadlock-free",
 "When several goroutines use one index table at the same time, every operation appears to take effect atomically at one instant between its call and its return, as if all operations had run one after another. No schedule leads to a data race, a panic or a deadlock, also when iterators and listings are read while others write.",
 ["schedules"],"Every interleaving of up to three goroutines with one to three operations each, from empty, partly filled and full tables.",
 "No test starts a second goroutine.",
 IT,[("one RWMutex guards every operation","pkg/idxtable/table.go")],[("lock","RWMutex guarding map","table.m in pkg/idxtable/table.go")],["call/return history of every operation"],"none in /repo: the sync package is replaced by a controlled one at build time through an overlay")
p("C06","Range tables: exactly the ids of the range, each claimable once",
 "A 16-, 32- or 64-bit table over [start,end] accepts Claim for an id exactly when start<=id<=end and the id is free, Update exactly when it is claimed, and Release for every id of the range; ids outside the range, however large, are refused and reported neither present nor free. Distinct ids never affect each other, for every range including a single id, ranges ending at the largest value and the whole width. FindFree reports, and ClaimFree claims and returns with the given labels, the lowest free id of the range; both fail exactly when every id of the range is claimed.",
 ["histories","inputs","configurations"],"Every start<=end of each width, every history of operations, every id that fits a 64-bit argument.",
 "Each table has one or two straight-line cases over a hundred-id range; ClaimFree, Update, Release and ranges touching zero or the maximum of the width (except one 64-bit case) are never run.",
 RT+IDX,[("validateID range check before every operation","pkg/table/table16/table16.go validateID (and 32, 64)"),("offset mapping between caller ids and internal indexes","calculateIndex, calculateIDFromIndex"),("size computed from start and end","New")],[("start,end","bounds of the range","table16/32/64 structs")],["table.Table interface"])
p("C07","Range tables: every view of an entry shows the same id and labels",
 "Every entry returned by ClaimFree, Get, GetAll or GetByLabel of a 16-, 32- or 64-bit table carries the caller's own id, the table's full bit width as its length, and the labels last stored for that id. GetAll lists every claimed id exactly once in ascending order, and GetByLabel lists exactly the claimed ids whose labels satisfy the selector, in the same order. Listings already handed out do not change when the table changes afterwards.",
 ["histories","inputs"],"Every range, every history of claims, updates and releases with every assignment of labels, and every selector over them (equality, inequality, existence, sets, everything, nothing).",
 "The table tests look only at Has and the number of entries; no test reads an id or a label back, or uses GetByLabel.",
 RT+["pkg/tree/entry.go"],[("ids are remapped on the way out","pkg/table/table16/table16.go Get, GetAll, GetByLabel (and 32, 64)"),("entries are stored with their labels","Claim, Update, ClaimFree")],[("stored tree.Entry","labels per id","idxtable.Table[tree.Entry] inside table16/32/64")],["Get","GetAll","GetByLabel","ClaimFree"])
p("C08","Range tables: concurrent use is linearizable, race-free and deadlock-free",
 "When several goroutines use one 16-, 32- or 64-bit range table at the same time, every operation appears to take effect atomically at one instant between its call and its return. In particular ClaimFree never hands the same id to two holders and fails only if at some instant of the call no id was free. No schedule leads to a data race, a panic or a deadlock.",
 ["schedules"],"Every interleaving of two or three goroutines with one to three operations each, on each width, from empty to full tables.",
 "No test starts a second goroutine.",
 RT+IT,[("operations delegate to the locked index table","pkg/table/table16/table16.go (and 32, 64)"),("find-then-claim in ClaimFree","ClaimFree")],None,["call/return history of every operation"],"none in /repo: sync replaced through a build overlay")
p("C09","IP table: exactly the addresses of the range, each claimable once",
 "An IP table over [from,to], IPv4 or IPv6, accepts Claim for an address exactly when the text is a valid address inside the range (in whatever textual form) and it is free, Update exactly when it is claimed, and Release for every address of the range; anything else is refused and reported neither present nor free. Distinct addresses never affect each other, Get returns the route last stored for the address, and FindFree returns the lowest unclaimed address of the range, in its own family, failing exactly when there is none. GetAll and GetByLabel list the stored (matching) routes in ascending address order.",
 ["histories","inputs","configurations"],"Every valid from<=to of both families, of any number of addresses; every history of operations; every address text.",
 "The single test case claims two addresses of one eleven-address IPv4 range; IPv6, update, release, exhaustion and the reported addresses are never checked.",
 ["pkg/iptable/iptable.go"]+IT,[("validateIP parses and checks containment","pkg/iptable/iptable.go validateIP"),("address/index arithmetic","calculateIndex, calculateIPFromIndex, numIPs")],[("ipRange","managed addresses","ipTable.ipRange"),("table","index -> route","ipTable.table")],["IPTable interface"])
p("C10","IP table: concurrent use is linearizable, race-free and deadlock-free",
 "When several goroutines use one IP table at the same time, every operation appears to take effect atomically at one instant between its call and its return; one address is never claimed successfully by two of them without a release in between. No schedule leads to a data race, a panic or a deadlock, including listing by label while others claim, update and release.",
 ["schedules"],"Every interleaving of two or three goroutines with one to three operations each, from empty, partly filled and full tables.",
 "No test starts a second goroutine.",
 ["pkg/iptable/iptable.go"]+IT,[("operations delegate to the locked index table","pkg/iptable/iptable.go")],None,["call/return history of every operation"],"none in /repo: sync replaced through a build overlay")
p("C11","Prefix tree: behaves as a map from prefix to list of values",
 "The generic prefix tree of width 16, 32 or 64 behaves as a map from prefix to a list of values for every mix of Add, Set and Delete with canonical prefixes of that width (bits beyond the length zero): Add appends a value unless the given matcher finds an equal one at that prefix, Set makes it the single value, Delete removes exactly the values the matcher accepts, and each reports the resulting count or number removed. No operation affects values at any other prefix, whatever nesting or splitting of prefixes is involved. Iteration visits every prefix that has values exactly once with its values in the order they were added, an enclosing prefix before those nested in it and lower before higher.",
 ["histories","inputs"],"Every sequence of insertions and deletions of prefixes of every length (0 to full width), nested, adjacent and diverging at every bit position, in every order.",
 "The trees are tested through one or two insertions; deletion is never executed by any test, so node merging, index reuse and value moving are completely unexercised, and the 64-bit tree fails its only test.",
 TR,[("node splitting on insert","pkg/tree/tree.go add"),("compaction on delete","pkg/tree/tree.go deleteNode, node.go MergeFromNodes"),("values keyed by node index","addVal, moveTags, deleteVal, valsForNode")],[("nodes","array of trie nodes","Tree.nodes"),("availableIndexes","free list of node slots","Tree.availableIndexes"),("vals","values by node index and position","Tree.vals")],["NewTree","Add","Set","Delete","Iterate"])
p("C12","Id trees: claims, updates, releases and reads act on exactly one entry",
 "A 16-, 32- or 64-bit id tree created for n bits behaves as a map from (id, prefix length) to labels: ClaimID and Update store the labels for that entry (replacing older ones) and fail exactly when the id exceeds 2^n-1 or the length exceeds the width (prefixes are canonical and of the tree's own width), and ReleaseID removes exactly that entry. Get returns the entry with the labels last stored and fails exactly when it is absent; GetAll, GetByLabel and Size report exactly the stored (matching) entries, enclosing before nested and lower before higher; ReleaseByLabel removes exactly the matching ones. Creating a tree fails exactly when n exceeds the width.",
 ["histories","inputs","configurations"],"Every n of each width, every sequence of operations over single ids and (canonical) prefixes nested in each other, with every label assignment and selector.",
 "The tests claim two ids and read them back; no release, update, selector or nested prefix is tested, and the 64-bit tree fails its only test.",
 GT+TR+["pkg/tree/entry.go"],[("entries live in the generic tree, one value per node","tree16/32/64 set, del"),("validate bounds the id","tree16/32/64 validate")],[("tree","prefix tree of entries","tree16/32/64.tree")],["gtree.GTree interface"])
p("C13","Id trees: Children and Parents follow prefix containment exactly",
 "Children(p) returns exactly the stored entries whose ids all lie inside p and whose prefix is strictly longer than p's; Parents(p) returns exactly the stored entries that contain all of p and whose prefix is strictly shorter. Each entry is returned once, with its labels, in listing order, whether or not p itself is stored (p canonical, of the tree's own width, with a length up to that width).",
 ["histories","inputs"],"Every set of stored prefixes and every query prefix, on each width.",
 "No test calls Children or Parents.",
 GT+ID[:3],[("overlap and length comparison over all entries","tree16/32/64 Children, Parents"),("bit-mask overlap","id16/id32/id64 Overlaps")],None,["Children","Parents"])
p("C14","Id trees: ClaimFree hands out an uncovered id until none is left",
 "ClaimFree returns a single full-length id between 0 and 2^n-1 that no stored entry covers, neither as a single id nor as part of a claimed prefix or range, and stores it with the given labels, leaving every other entry as it was. It fails, without effect, exactly when every id of the tree is covered. Released ids become available again.",
 ["histories","inputs","configurations"],"Every n of each width, every set of stored ids and prefixes (including one covering the whole tree), every sequence of claims and releases.",
 "No test calls ClaimFree; the example program prints its results without checking them.",
 GT+SET+RG,[("free set = whole tree minus stored entries","tree16/32/64 findFree"),("id set subtraction","id16/32/64 IDSetBuilder.normalize, RemoveFreePrefix")],None,["ClaimFree"])
p("C15","Id trees: ClaimRange stores exactly the requested range or nothing",
 "ClaimRange(\"a-b\") succeeds exactly when a and b are decimal ids of the tree with a<=b, and then stores entries with the given labels that together cover every id from a to b exactly once and no other id; entries for other prefixes are unaffected. Malformed, reversed and out-of-range requests are refused and change nothing.",
 ["inputs","histories"],"Every text, every pair a,b within and beyond the tree, every prior content of the tree, on each width.",
 "No test calls ClaimRange.",
 GT+RG,[("range text parsing","id16/32/64 ParseRange"),("decomposition into prefixes","Range.IDs"),("per-prefix store","tree16/32/64 ClaimRange")],None,["ClaimRange"])
p("C16","Clones are equal at first and independent afterwards",
 "A clone of a generic prefix tree or of an id tree has exactly the contents of the original at the time of cloning and supports every operation just as the original does. From then on no operation on one is visible in the other.",
 ["histories"],"Every tree content reached by any history of insertions and deletions, and every sequence of operations applied to the original and to the clone afterwards.",
 "No test calls Clone.",
 ["pkg/tree/tree.go"]+GT,[("field-by-field copy","pkg/tree/tree.go Clone"),("wrapper clone","tree16/32/64 Clone")],None,["Clone, then every operation on both"])
p("C17","Id trees: concurrent use is linearizable, race-free and deadlock-free",
 "When several goroutines use one id tree at the same time, every operation (claims, free claims, range claims, updates, releases by id or label, lookups, listings, containment queries, Clone) appears to take effect atomically at one instant between its call and its return. In particular two concurrent ClaimFree calls never return the same id. No schedule leads to a data race, a panic or a deadlock.",
 ["schedules"],"Every interleaving of two or three goroutines with one to three operations each on each width; caller-driven iteration with Iterate and the debug print methods are excluded, they are documented as needing a quiescent tree.",
 "No test starts a second goroutine.",
 GT,[("one RWMutex per tree","tree16/32/64.m")],[("lock","RWMutex","tree16/32/64.m")],["call/return history of every operation"],"none in /repo: sync replaced through a build overlay")
p("C18","Ranges decompose into the minimal exact list of prefixes",
 "For every from<=to of each width, the prefixes a range decomposes into are canonical, ascending and disjoint, cover every id from from to to and no other, and there are as few of them as possible. Appending to an existing list keeps that list in front, unchanged.",
 ["inputs"],"Every pair from<=to of the 16-bit width (thorough) and, for each width, every pair inside windows placed at zero, at the maximum and across every power of two, plus every pair of ids differing from a power of two by at most one.",
 "Two ranges are decomposed by tests and the result is not compared with anything.",
 RG+ID[3:],[("recursive halving at the first differing bit","appendRangeIDs, compareIDs"),("mask tables","mask6 in myuint16/32/64.go")],None,["Range.IDs","Range.AppendIDs"])
p("C19","Id sets: builder results equal set algebra, in minimal normal form",
 "For every sequence of additions and removals of ids, prefixes, ranges and whole sets, the resulting id set contains exactly the ids that ordinary set algebra in that order gives, and its ranges are sorted, disjoint and not adjacent. Taking a free prefix of length L succeeds exactly when some aligned block of that size lies entirely in the set, returns such a block, and returns the set without it, leaving the original set unchanged. An invalid id or reversed range is reported as an error by the next build, and only by that one, and otherwise ignored.",
 ["histories","inputs"],"Every sequence of add and remove operations up to a depth over ranges and prefixes at both ends and in the middle of each width, every requested prefix length.",
 "No test uses the id sets directly or indirectly.",
 SET+RG,[("merge of sorted additions and removals","IDSetBuilder.normalize"),("mergeRanges","range16/32/64.go mergeRanges"),("RemoveFreePrefix","idset.go")],[("in, out","pending additions and removals","IDSetBuilder")],["IDSetBuilder","IDSet.Ranges","IDSet.IDs","IDSet.RemoveFreePrefix"])
p("C20","Id arithmetic: next, previous, masking, order and overlap are exact",
 "On each width: Next and Prev give the neighbouring id with the same length (the zero value past either end); Mask and Masked keep exactly the leading bits and refuse only lengths beyond the width; Compare and Less order by length, then id; Overlaps is true exactly when the two prefixes share an id. LastID and RangeOfID give the last id and the exact first-to-last range of a prefix; bit tests, shifts, copies and text forms agree with the number and length.",
 ["inputs"],"Every 16-bit id and every length; for 32 and 64 bits every id within distance 3 of 0, of the maximum and of every power of two (and sums of two such), with every length, in every pair where an operation takes two.",
 "No test calls any of these functions directly.",
 ID+RG,[("mask tables and add/sub helpers","myuint16/32/64.go"),("ID methods","id16/32/64.go")],None,["NewID","Next","Prev","Mask","Masked","Overlaps","Compare","LastID","RangeOfID"])
p("C21","Range parsing and range relations agree with interval arithmetic",
 "ParseRange accepts exactly texts of the form a-b with decimal a and b that fit the width, yields those bounds, and printing the range gives the canonical text that parses back to it; a range is valid exactly when a<=b. For any two valid ranges, the before, covered-by, in-the-middle, overlaps-start, overlaps-end and ordering relations hold exactly when the interval arithmetic they name does (to overlap the start or end of another, a range has to share an id with it); changing one bound changes only that bound in the copy returned.",
 ["inputs"],"Every pair of ranges over a window of ids at both ends of each width; every text up to six characters over a digit/sign/space alphabet plus boundary numbers.",
 "ParseRange is used on a handful of well-formed texts and no relation is tested.",
 RG,[("ParseRange","range16/32/64.go ParseRange"),("relations","EntirelyBefore, CoveredBy, InMiddleOf, OverlapsStartOf, OverlapsEndOf, Less")],None,["ParseRange","Range methods"])
p("C22","The 16-, 32- and 64-bit variants behave alike",
 "A history of operations on a range table, id tree, generic prefix tree or id set that only involves numbers fitting 16 bits gives the same results (ids, errors, labels, lists and order) on the 16-, 32- and 64-bit variants configured for the same numbers.",
 ["histories","configurations"],"Every operation sequence up to a depth over the shared number range, run on all three widths side by side.",
 "The three variants are separate copies with separate two-case tests; nothing compares them.",
 RT+GT+SET+RG,[("three hand-maintained copies of each file","pkg/table/table*, pkg/tree/tree*, pkg/tree/id*")],None,["results of every operation on the three variants"])
p("C23","Operations that report an error change nothing",
 "On every table and tree, an operation that returns an error leaves the object exactly as it was: every lookup, listing, free search and selector query gives the same answers as before the call, and so does every later operation. No operation panics or fails to return for any argument other than nil, valid or not.",
 ["histories","inputs","fault_sequences"],"Every reachable state (up to a depth) of every table and tree kind and every failing operation on it.",
 "Tests check that a few calls return errors but not what they leave behind.",
 IDX+RT+["pkg/iptable/iptable.go"]+GT,[("validate before mutate","validate, validateID, validateIP and existence checks")],None,["full observation before and after each failing operation"])
p("C24","Behaviour depends on the current claims, not on how they came about",
 "Two tables, or two trees, with the same configuration and the same current claims and labels answer every query identically and give identical results to every further operation, whatever different histories of claims, updates, releases and failed calls led there. In particular releasing everything gives back an object that behaves like a new one.",
 ["histories"],"Every pair of histories up to a depth that lead to the same contents, for every table and tree kind.",
 "Each test starts from a new object and looks at one history.",
 IDX+RT+["pkg/iptable/iptable.go"]+GT+TR,[("no state besides the claims","maps in idxtable, node array and free list in tree.go")],None,["full observation plus every next operation, per abstract content"])
p("C25","Entries are equal exactly when id, length and labels are equal",
 "Two tree entries compare equal exactly when they have the same id, the same prefix length and the same labels, key by key and value by value (no labels and an empty set of labels being the same). An entry keeps the id and labels it was made with.",
 ["inputs"],"Every pair over a universe of ids, lengths and label sets whose keys and values include separators, prefixes of each other, and empty strings.",
 "No test compares entries.",
 ["pkg/tree/entry.go"],[("Entry.Equal","pkg/tree/entry.go Equal")],None,["Entry.Equal","Entry.ID","Entry.Labels"])
p("C26","Unrelated objects and shared values are safe to use from several goroutines",
 "Goroutines that work on different tables, trees or id set builders, also on a tree and a clone of it, need no coordination: no schedule leads to a data race, a panic or a deadlock, and every call gives the answer it gives when nothing else runs. The same holds for goroutines that read the same ids, ranges, id sets and entries.",
 ["schedules"],"Every interleaving of two goroutines with one or two calls each, for pairs of objects of the same and of different kinds and widths, clones, and shared values.",
 "No test starts a second goroutine, and state shared by accident between objects is only visible to happens-before analysis.",
 IDX+RT+["pkg/iptable/iptable.go"]+GT+TR+SET,[("no mutable package-level state; clones copy every slice and map","package-level variables, Tree.Clone")],None,["call/return history of every operation on each object"])
p("C27","What an operation hands out belongs to the caller and stays what it was",
 "A listing, list of ids, entry, route, iterator over an index table or id set that an operation handed out shows the same contents whatever is done to the object afterwards. A caller may overwrite the lists it was given, or append to them, without the object, or anything handed out in another call, changing.",
 ["histories"],"Every state of every kind of object up to a depth, every way of taking lists from it, and every operation before or after the caller overwrites them; also objects of some hundred entries.",
 "No test keeps a result while it changes the object, and none writes to a list it was given.",
 IDX+RT+["pkg/iptable/iptable.go"]+GT+SET,[("listings are built afresh for each call","GetAll, GetByLabel, Children, Parents, IDSet.Ranges, IDSet.IDs"),("stored entries are replaced, never changed","entry values in idxtable and pkg/tree/entry.go")],None,["every list, entry and iterator handed out, re-read after each later step"])
p("C28","Released claims give their storage back: repeated use makes no object grow",
 "A table or tree on which the same things are done over and over (claims, updates, releases, reads, operations that fail), coming back to the same contents each time, keeps to a bounded amount of memory: nothing that is reachable from it, or from package-level state, keeps growing with the number of rounds. The same holds when ids come and go in any order while only a few are held at a time, and for an id set builder from which a set is built after every round.",
 ["histories"],"Every closed walk over the states of small objects is a cycle; each is unrolled.",
 "Storage that is lost a little with each round changes no answer until memory runs out.",
 IDX+RT+["pkg/iptable/iptable.go"]+GT+TR+SET,[("free list of node indexes","tree.go newNode, deleteNode, availableIndexes"),("entries leave the maps when released","maps in idxtable and table16/32/64"),("builders fold their lists when a set is built","idSetBuilder normalize")],None,["storage reachable from each object by reflection, after 40 to 4096 rounds of a cycle"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
    n=x['statement'].count('. ')+1; assert n<=3,(x['id'],n)
print(len(P))
