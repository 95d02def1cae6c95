From 42b083224a05c23a4041eab57fa72e3f15d9511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 01/24] fix: idxtable GetAll takes the read lock only once

GetAll held the read lock while Iterate took it again; with a writer waiting
in between, both block forever.
---
 pkg/idxtable/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..29f07eb 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -319,7 +319,7 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From 01af049de82d1ecbf7f72a5302f65b754a2846ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 02/24] fix: idxtable iterators keep their own copy of the
 entries

The iterators read the live map without the lock: later claims, updates and
releases showed through (or made Value return nil) and raced with writers.
---
 pkg/idxtable/table.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 29f07eb..62a885c 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -2,6 +2,7 @@ package idxtable
 
 import (
 	"fmt"
+	"maps"
 	"sort"
 	"sync"
 )
@@ -158,7 +159,8 @@ func (r *table[T1]) iterate() *Iterator[T1] {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	// the iterator is used without the lock, so it gets its own copy
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: maps.Clone(r.table)}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -185,7 +187,8 @@ func (r *table[T1]) iterateFree() *Iterator[T1] {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	// free ids have no entries
+	return &Iterator[T1]{current: 1<<64-1, keys: keys}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From 341db217c30ecf904087f774edb4e384a07cb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 03/24] fix: idxtable ranges consist of exactly the requested
 ids

A range of one id returned (and claimed) the next free id as well, a claimed
first or last id went unnoticed, and size 0 and overflowing ends were not
refused.
---
 pkg/idxtable/table.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 62a885c..0485cc9 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -234,6 +234,9 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
 	end := start + size - 1
 
+	if size == 0 || end < start {
+		return nil, fmt.Errorf("invalid range start %d, size %d", start, size)
+	}
 	if start > r.size-1 {
 		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
 	}
@@ -250,12 +253,18 @@ func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
 		switch {
 		case free.ID() == start:
 			entries = append(entries, free.ID())
+			if start == end {
+				return entries, nil
+			}
 		case free.ID() > start && free.ID() < end:
 			if !free.IsConsecutive() {
 				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
 			}
 			entries = append(entries, free.ID())
 		default:
+			if free.ID() > end || !free.IsConsecutive() {
+				return nil, fmt.Errorf("entry in use in range: start: %d, end %d", start, end)
+			}
 			entries = append(entries, free.ID())
 			return entries, nil
 		}
-- 
2.43.0


From 942cc7fe41b11901e6420d0c7861fd324c30db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 04/24] fix: tables over a whole 16-, 32- or 64-bit range find
 free ids

The size of a full-width range was computed as 0, which made FindFree (and
with it ClaimFree) fail on an empty table; on other large ranges it listed all
free ids to return the first.
---
 pkg/idxtable/table.go        | 34 ++++++++++++++++++++++------------
 pkg/table/table16/table16.go |  2 +-
 pkg/table/table32/table32.go |  2 +-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 0485cc9..e8fb072 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -79,15 +79,15 @@ func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	free := r.iterateFree()
-	if free.Next() {
-		e := NewEntry(free.ID(), d)
-		if err := r.add(e); err != nil {
-			return nil, err
-		}
-		return e, nil
+	id, err := r.findFree()
+	if err != nil {
+		return nil, err
+	}
+	e := NewEntry(id, d)
+	if err := r.add(e); err != nil {
+		return nil, err
 	}
-	return nil, fmt.Errorf("no free entry found")
+	return e, nil
 }
 
 func (r *table[T1]) ClaimRange(start, size uint64, d T1) error {
@@ -217,12 +217,22 @@ func (r *table[T1]) isFree(id uint64) bool {
 }
 
 func (r *table[T1]) FindFree() (uint64, error) {
-	free := r.IterateFree()
+	r.m.RLock()
+	defer r.m.RUnlock()
+	return r.findFree()
+}
 
-	if free.Next() {
-		return free.ID(), nil
+// findFree walks up to the lowest free id only: the table can be too large to
+// list all free ids. A size of 0 stands for the 2^64 ids of a full 64-bit table.
+func (r *table[T1]) findFree() (uint64, error) {
+	for id := uint64(0); ; id++ {
+		if r.isFree(id) {
+			return id, nil
+		}
+		if id == r.size-1 {
+			return 0, fmt.Errorf("no free entry found")
+		}
 	}
-	return 0, fmt.Errorf("no free entry found")
 }
 
 func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..f3171c3 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -14,7 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start) + 1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..8976bc0 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -13,7 +13,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end-start) + 1,
 		),
 		start: start,
 		end:   end,
-- 
2.43.0


From 97c2e3e5cdd249a67807e252783bb3e93161035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 05/24] fix: range tables return entries with the caller's id

Get returned the internal index instead of the id, and the listings of the
16-bit table carried 32-bit ids.
---
 pkg/table/table16/table16.go | 8 ++++----
 pkg/table/table32/table32.go | 3 ++-
 pkg/table/table64/table64.go | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index f3171c3..5143bc0 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -38,7 +37,8 @@ func (r *table16) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id16.NewID(uint16(id), id16.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table16) Claim(id uint64, labels labels.Set) error {
@@ -125,7 +125,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -141,7 +141,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8976bc0..d8fd41b 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -37,7 +37,8 @@ func (r *table32) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id32.NewID(uint32(id), id32.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table32) Claim(id uint64, labels labels.Set) error {
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..24975a3 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -37,7 +37,8 @@ func (r *table64) Get(id uint64) (tree.Entry, error) {
 	if err != nil {
 		return entry, err
 	}
-	return e.Data(), nil
+	// need to remap the id for the outside world
+	return tree.NewEntry(id64.NewID(uint64(id), id64.IDBitSize), e.Data().Labels()), nil
 }
 
 func (r *table64) Claim(id uint64, labels labels.Set) error {
-- 
2.43.0


From 907fbc66ca78f326ab05d60909329871f0788d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 06/24] fix: range tables pick and claim a free id in one step

ClaimFree looked for a free id and claimed it in two steps; when another
claim took the id in between, it failed although ids were free.
---
 pkg/table/table16/table16.go | 11 +++++------
 pkg/table/table32/table32.go | 11 +++++------
 pkg/table/table64/table64.go | 11 +++++------
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index 5143bc0..317d1a3 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -59,14 +59,13 @@ func (r *table16) Claim(id uint64, labels labels.Set) error {
 func (r *table16) ClaimFree(labels labels.Set) (tree.Entry, error) {
 	// Validate input
 
-	id, err := r.FindFree()
+	// the table picks and claims the id in one step; the entry's own id is
+	// remapped whenever it is handed out
+	e, err := r.table.ClaimDynamic(tree.NewEntry(id16.NewID(0, id16.IDBitSize), labels))
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(uint64(id), labels); err != nil {
-		return nil, err
-	}
-	treeId := id16.NewID(uint16(id), id16.IDBitSize)
+	treeId := id16.NewID(calculateIDFromIndex(r.start, e.ID()), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return treeEntry, nil
 }
@@ -141,7 +140,7 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, uint64(entry.ID().ID())), id16.IDBitSize), entry.Labels())
+			entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, iter.ID()), id16.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index d8fd41b..4bae30c 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -59,14 +59,13 @@ func (r *table32) Claim(id uint64, labels labels.Set) error {
 func (r *table32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 	// Validate input
 
-	id, err := r.FindFree()
+	// the table picks and claims the id in one step; the entry's own id is
+	// remapped whenever it is handed out
+	e, err := r.table.ClaimDynamic(tree.NewEntry(id32.NewID(0, id32.IDBitSize), labels))
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
-		return nil, err
-	}
-	treeId := id32.NewID(uint32(id), id32.IDBitSize)
+	treeId := id32.NewID(calculateIDFromIndex(r.start, e.ID()), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return treeEntry, nil
 }
@@ -141,7 +140,7 @@ func (r *table32) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), id32.IDBitSize), entry.Labels())
+			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, iter.ID())), id32.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 24975a3..13ee204 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -59,14 +59,13 @@ func (r *table64) Claim(id uint64, labels labels.Set) error {
 func (r *table64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 	// Validate input
 
-	id, err := r.FindFree()
+	// the table picks and claims the id in one step; the entry's own id is
+	// remapped whenever it is handed out
+	e, err := r.table.ClaimDynamic(tree.NewEntry(id64.NewID(0, id64.IDBitSize), labels))
 	if err != nil {
 		return nil, err
 	}
-	if err := r.Claim(id, labels); err != nil {
-		return nil, err
-	}
-	treeId := id64.NewID(uint64(id), id64.IDBitSize)
+	treeId := id64.NewID(calculateIDFromIndex(r.start, e.ID()), id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return treeEntry, nil
 }
@@ -141,7 +140,7 @@ func (r *table64) GetByLabel(selector labels.Selector) tree.Entries {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
 			// need to remap the id for the outside world
-			entry := tree.NewEntry(id64.NewID(uint64(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), id64.IDBitSize), entry.Labels())
+			entry := tree.NewEntry(id64.NewID(uint64(calculateIDFromIndex(r.start, iter.ID())), id64.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
-- 
2.43.0


From b06ba9f3a60c3f0ca4b33928f5a519d80c6f6b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 07/24] fix: tree entries keep their own copy of the labels

An entry shared the caller's map: changing that map after a claim changed the
labels of the claimed entry.
---
 pkg/tree/entry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/tree/entry.go b/pkg/tree/entry.go
index 26b342c..6795641 100644
--- a/pkg/tree/entry.go
+++ b/pkg/tree/entry.go
@@ -2,6 +2,7 @@ package tree
 
 import (
 	"fmt"
+	"maps"
 
 	"k8s.io/apimachinery/pkg/labels"
 )
@@ -34,7 +35,7 @@ func (r entry) Equal(e2 Entry) bool {
 func NewEntry(id ID, labels labels.Set) Entry {
 	return entry{
 		id:     id.Copy(),
-		labels: labels,
+		labels: maps.Clone(labels),
 	}
 }
 
-- 
2.43.0


From 42d9d24eb6707e25040555141e85ff38ad1c8534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 08/24] fix: nodes of a 64-bit tree keep separate values

Values were keyed by the node index shifted by the tree's bit length; for 64
bits that is 0 for every node, so all prefixes shared the same values.
---
 pkg/tree/tree.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..be90e62 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -38,6 +38,9 @@ const (
 	deletedNodeJustRemoved
 )
 
+// valIndexBits is the number of bits of a value key that number the values of one node
+const valIndexBits = 32
+
 type Tree[T any] struct {
 	name             string         // name of the tree
 	isLeftBitSetFn   IsLeftBitSetFn // input
@@ -83,7 +86,7 @@ func (r *Tree[T]) Clone() *Tree[T] {
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := (uint64(nodeIndex) << valIndexBits)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -103,8 +106,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := uint64(fromIndex) << valIndexBits
+	toKey := uint64(toIndex) << valIndexBits
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -123,7 +126,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := uint64(nodeIndex) << valIndexBits
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -146,7 +149,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, (uint64(nodeIndex)<<valIndexBits)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From eeeb53c058e4464e16f1535cc7fc01d26b4229db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 09/24] fix: Delete keeps all values the matcher does not
 accept

The remaining values were added back through the matcher of the deletion,
which dropped values that match each other.
---
 pkg/tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index be90e62..22ba706 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -161,7 +161,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From 909511f0e46deff07b6245e37d5014b176214edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 10/24] fix: Set replaces all values of a prefix

When a prefix had several values, Set replaced the first and kept the rest.
---
 pkg/tree/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 22ba706..7072f51 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -174,6 +174,11 @@ func (r *Tree[T]) Set(id ID, val T) (bool, int) {
 	b, idx := r.add(id, val,
 		func(T, T) bool { return true },
 		func(T) T { return val })
+	if idx > 1 {
+		// there were several values: this one replaces them all
+		r.Delete(id, func(T, T) bool { return true }, val)
+		_, idx = r.add(id, val, nil, nil)
+	}
 
 	//fmt.Println("set", r.name, id, b, idx)
 	return b, idx
-- 
2.43.0


From d0ef0f4de13cf4a8ff5205adc3df95f5cff4a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 11/24] fix: Clone copies the settings of the tree

---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 7072f51..c6e160e 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -68,6 +68,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From 7e6410414b75f1c2585a89917a52e070ff13fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 12/24] fix: 64-bit ids use all 64 bits in Mask, Prev and
 Overlaps masks

---
 pkg/tree/id64/id64.go     | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..cdf2602 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
+	lo, borrow := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo - borrow)
 }
 
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From 3498c2862dd19d83d0717a8ff844aa7c2ce6bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 13/24] fix: Next of the largest id returns the zero id

---
 pkg/tree/id16/myuint16.go | 4 ++--
 pkg/tree/id32/myuint32.go | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..e6c35d3 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -32,8 +32,8 @@ func (u myuint16) subOne() myuint16 {
 
 // addOne returns u + 1.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..18e0018 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -34,8 +34,8 @@ func (u myuint32) subOne() myuint32 {
 
 // addOne returns u + 1.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index cdf2602..6c3fa05 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -34,8 +34,8 @@ func (u myuint64) subOne() myuint64 {
 
 // addOne returns u + 1.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From 1d848af98425bf1b30eff63069b8fcdec1f96fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 14/24] fix: ranges return ids that compare equal to other ids

---
 pkg/tree/id16/range16.go | 2 +-
 pkg/tree/id32/range32.go | 2 +-
 pkg/tree/id64/range64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 5032855..baf01d9 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -88,7 +88,7 @@ func (r r16) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r16) makeID(id myuint16, bits uint8) tree.ID {
-	return &myid16{id: uint16(id), length: bits}
+	return myid16{id: uint16(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index cee6b89..78de4e1 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -88,7 +88,7 @@ func (r r32) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r32) makeID(id myuint32, bits uint8) tree.ID {
-	return &myid32{id: uint32(id), length: bits}
+	return myid32{id: uint32(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6408f69..eeb40a2 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -88,7 +88,7 @@ func (r r64) AppendIDs(dst []tree.ID) []tree.ID {
 }
 
 func (r r64) makeID(id myuint64, bits uint8) tree.ID {
-	return &myid64{id: uint64(id), length: bits}
+	return myid64{id: uint64(id), length: bits}
 }
 
 // entirelyBefore returns whether r lies entirely before other in IP
-- 
2.43.0


From 2f74ae01cd5067e354c96ce079529c03367b7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 15/24] fix: IsValid of a zero range returns false

---
 pkg/tree/id16/range16.go | 3 ++-
 pkg/tree/id32/range32.go | 3 ++-
 pkg/tree/id64/range64.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index baf01d9..42cdf97 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -64,7 +64,8 @@ func (r r16) String() string {
 }
 
 func (r r16) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index 78de4e1..7c72203 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -64,7 +64,8 @@ func (r r32) String() string {
 }
 
 func (r r32) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index eeb40a2..6ab4b85 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -64,7 +64,8 @@ func (r r64) String() string {
 }
 
 func (r r64) IsValid() bool {
-	return r.from.Length() == r.to.Length() &&
+	return r.from != nil && r.to != nil &&
+		r.from.Length() == r.to.Length() &&
 		!(r.to.ID() < r.From().ID())
 }
 
-- 
2.43.0


From 8f76287d49b561be6b23009c810c61afe9a94dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 16/24] fix: trees reject ids longer than their width

---
 pkg/tree/tree16/tree16.go | 4 ++--
 pkg/tree/tree32/tree32.go | 4 ++--
 pkg/tree/tree64/tree64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..639350d 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -253,8 +253,8 @@ func (r *tree16) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id16.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id16.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..87b30cb 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -252,8 +252,8 @@ func (r *tree32) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id32.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id32.IDBitSize, id.Length())
 	}
 	return nil
 }
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..cf64cf4 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -253,8 +253,8 @@ func (r *tree64) validate(id tree.ID) error {
 	if id.ID() > uint64(r.size) {
 		return fmt.Errorf("max id allowed is %d, got %d", r.size, id.ID())
 	}
-	if id.Length() < uint8(0) {
-		return fmt.Errorf("min allowed length is %d, got %d", r.length, id.Length())
+	if id.Length() > id64.IDBitSize {
+		return fmt.Errorf("max allowed length is %d, got %d", id64.IDBitSize, id.Length())
 	}
 	return nil
 }
-- 
2.43.0


From 88fe7cecd469768b6442b96e38d23cdc62e2f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 17/24] fix: tree32 looks for free ids in the whole tree

---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 87b30cb..41325bd 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -115,7 +115,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, (id32.IDBitSize - r.length))
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From 0960d3bc8d912076278ba2c13923cea0f287f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 18/24] fix: trees do not hand out ids covered by a large entry

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 639350d..19fa2cc 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -120,7 +120,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 41325bd..dc675a8 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -119,7 +119,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index cf64cf4..d8c6f3e 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -120,7 +120,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
+	for _, e := range r.GetAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
-- 
2.43.0


From b6508a77d4964493c4c4cd3b27f99871f0c68f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 19/24] fix: ClaimRange rejects invalid and out of range ranges

---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 19fa2cc..94b11a9 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -96,6 +96,12 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(trange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index dc675a8..d3e89fa 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -96,6 +96,12 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(vlanRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index d8c6f3e..3f7d3a4 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -97,6 +97,12 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("invalid range %q", s)
+	}
+	if err := r.validate(treeRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
-- 
2.43.0


From fb0573a327d7dd7ee7b807a527b7d05eed2b73d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 20/24] fix: Parents returns only shorter entries

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 94b11a9..84275a5 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -204,7 +204,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index d3e89fa..fb86ac6 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -203,7 +203,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 3f7d3a4..8755be3 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -204,7 +204,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From b04d911f52da20aace1d4bf519bbb46fa923c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 21/24] fix: entries are equal only if their labels are

---
 pkg/tree/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/entry.go b/pkg/tree/entry.go
index 6795641..9daf4f8 100644
--- a/pkg/tree/entry.go
+++ b/pkg/tree/entry.go
@@ -26,7 +26,7 @@ func (r entry) String() string     { return fmt.Sprintf("id: %d, labels: %s", r.
 func (r entry) Equal(e2 Entry) bool {
 	if r.ID().ID() == e2.ID().ID() &&
 		r.ID().Length() == e2.ID().Length() &&
-		r.labels.String() == e2.Labels().String() {
+		maps.Equal(r.labels, e2.Labels()) {
 		return true
 	}
 	return false
-- 
2.43.0


From 31b699e6b81fadaddb0978ea6dd760a4c7d16fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 22/24] fix: tree operations take the lock once, around all
 they do

---
 pkg/tree/tree16/tree16.go | 61 ++++++++++++++++++++++++++++++---------
 pkg/tree/tree32/tree32.go | 60 +++++++++++++++++++++++++++++---------
 pkg/tree/tree64/tree64.go | 60 +++++++++++++++++++++++++++++---------
 3 files changed, 139 insertions(+), 42 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 84275a5..09f084f 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -44,7 +47,11 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+func (r *tree16) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -77,12 +84,13 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -106,6 +114,9 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range trange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -126,7 +137,7 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -148,21 +159,22 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -184,7 +196,7 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -201,7 +213,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -212,9 +224,16 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree16) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -225,9 +244,16 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree16) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getAll()
+}
+
+func (r *tree16) getAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -236,9 +262,12 @@ func (r *tree16) GetAll() tree.Entries {
 }
 
 func (r *tree16) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -250,6 +279,10 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+func (r *tree16) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index fb86ac6..4e9e99a 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,11 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+func (r *tree32) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -75,6 +82,8 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -83,8 +92,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -106,6 +113,9 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range vlanRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -125,7 +135,7 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -147,21 +157,22 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -183,7 +194,7 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -200,7 +211,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -211,9 +222,16 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree32) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -224,9 +242,16 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree32) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getAll()
+}
+
+func (r *tree32) getAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -235,9 +260,12 @@ func (r *tree32) GetAll() tree.Entries {
 }
 
 func (r *tree32) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -249,6 +277,10 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+func (r *tree32) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 8755be3..7bbec4f 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,11 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+func (r *tree64) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -76,6 +83,8 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -84,8 +93,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -107,6 +114,9 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range treeRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -126,7 +136,7 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.GetAll() {
+	for _, e := range r.getAll() {
 		bldr.RemoveId(e.ID())
 	}
 	ipset, err := bldr.IPSet()
@@ -148,21 +158,22 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
+
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -184,7 +195,7 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -201,7 +212,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -212,9 +223,16 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+func (r *tree64) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -225,9 +243,16 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree64) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getAll()
+}
+
+func (r *tree64) getAll() tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -236,9 +261,12 @@ func (r *tree64) GetAll() tree.Entries {
 }
 
 func (r *tree64) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -250,6 +278,10 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+func (r *tree64) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
-- 
2.43.0


From cb7cd0d58dd8b5ba50d00254e1783fedfd44bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 23/24] fix: a range overlaps the start or end of another only
 if they share ids

---
 pkg/tree/id16/range16.go | 4 ++--
 pkg/tree/id32/range32.go | 4 ++--
 pkg/tree/id64/range64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/id16/range16.go b/pkg/tree/id16/range16.go
index 42cdf97..a23b51f 100644
--- a/pkg/tree/id16/range16.go
+++ b/pkg/tree/id16/range16.go
@@ -115,13 +115,13 @@ func (r r16) InMiddleOf(other tree.Range) bool {
 // overlapsStartOf returns whether r entirely overlaps the start of
 // other, but not all of other.
 func (r r16) OverlapsStartOf(other tree.Range) bool {
-	return lessOrEq(r.from, other.From()) && r.to.Less(other.To())
+	return lessOrEq(r.from, other.From()) && lessOrEq(other.From(), r.to) && r.to.Less(other.To())
 }
 
 // overlapsEndOf returns whether r entirely overlaps the end of
 // other, but not all of other.
 func (r r16) OverlapsEndOf(other tree.Range) bool {
-	return other.From().Less(r.from) && lessOrEq(other.To(), r.to)
+	return other.From().Less(r.from) && lessOrEq(r.from, other.To()) && lessOrEq(other.To(), r.to)
 }
 
 type idMaker func(a myuint16, bits uint8) tree.ID
diff --git a/pkg/tree/id32/range32.go b/pkg/tree/id32/range32.go
index 7c72203..dda10e0 100644
--- a/pkg/tree/id32/range32.go
+++ b/pkg/tree/id32/range32.go
@@ -115,13 +115,13 @@ func (r r32) InMiddleOf(other tree.Range) bool {
 // overlapsStartOf returns whether r entirely overlaps the start of
 // other, but not all of other.
 func (r r32) OverlapsStartOf(other tree.Range) bool {
-	return lessOrEq(r.from, other.From()) && r.to.Less(other.To())
+	return lessOrEq(r.from, other.From()) && lessOrEq(other.From(), r.to) && r.to.Less(other.To())
 }
 
 // overlapsEndOf returns whether r entirely overlaps the end of
 // other, but not all of other.
 func (r r32) OverlapsEndOf(other tree.Range) bool {
-	return other.From().Less(r.from) && lessOrEq(other.To(), r.to)
+	return other.From().Less(r.from) && lessOrEq(r.from, other.To()) && lessOrEq(other.To(), r.to)
 }
 
 type idMaker func(a myuint32, bits uint8) tree.ID
diff --git a/pkg/tree/id64/range64.go b/pkg/tree/id64/range64.go
index 6ab4b85..dd995b9 100644
--- a/pkg/tree/id64/range64.go
+++ b/pkg/tree/id64/range64.go
@@ -115,13 +115,13 @@ func (r r64) InMiddleOf(other tree.Range) bool {
 // overlapsStartOf returns whether r entirely overlaps the start of
 // other, but not all of other.
 func (r r64) OverlapsStartOf(other tree.Range) bool {
-	return lessOrEq(r.from, other.From()) && r.to.Less(other.To())
+	return lessOrEq(r.from, other.From()) && lessOrEq(other.From(), r.to) && r.to.Less(other.To())
 }
 
 // overlapsEndOf returns whether r entirely overlaps the end of
 // other, but not all of other.
 func (r r64) OverlapsEndOf(other tree.Range) bool {
-	return other.From().Less(r.from) && lessOrEq(other.To(), r.to)
+	return other.From().Less(r.from) && lessOrEq(r.from, other.To()) && lessOrEq(other.To(), r.to)
 }
 
 type idMaker func(a myuint64, bits uint8) tree.ID
-- 
2.43.0


From 0b832aa08c4f42bbf00b2c8feef8be6f289f1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 24/24] fix: block searches list only the free ids they need,
 so they work on tables too large to list

---
 pkg/idxtable/table.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index e8fb072..1b26025 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -167,16 +167,18 @@ func (r *table[T1]) IterateFree() *Iterator[T1] {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	return r.iterateFree()
+	return r.iterateFree(0, r.size)
 }
 
-func (r *table[T1]) iterateFree() *Iterator[T1] {
+// iterateFree lists the first max free ids at or after the id from; listing more
+// than needed is to be avoided, as the table can be too large to list all free ids
+func (r *table[T1]) iterateFree(from, max uint64) *Iterator[T1] {
 	var keys []uint64
 	table := map[uint64]T1{}
 
 	var d T1
 
-	for id := uint64(0); id < r.size; id++ {
+	for id := from; id < r.size && uint64(len(keys)) < max; id++ {
 		_, exists := r.table[id]
 		if !exists {
 			keys = append(keys, id)
@@ -255,7 +257,7 @@ func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
 	}
 
 	entries := []uint64{}
-	free := r.iterateFree()
+	free := r.iterateFree(start, size)
 	for free.Next() {
 		if free.ID() < start {
 			continue
@@ -293,7 +295,7 @@ func (r *table[T1]) findFreeSize(size uint64) ([]uint64, error) {
 		return nil, fmt.Errorf("size %d is bigger then max allowed entries: %d", size, r.size)
 	}
 	entries := []uint64{}
-	free := r.iterateFree()
+	free := r.iterateFree(0, size)
 	i := uint64(0)
 	for free.Next() {
 		i++
-- 
2.43.0

