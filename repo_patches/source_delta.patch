From c44b527892a39e93764b49ddf08dfee45045e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 01/29] fix: order floats totally and seek them from their
 least value

Seeks by entity, attribute or both started at 0, so negative values were not
found, replaced or counted, and NaN broke the order of the trees.
---
 internal/database/snapshot.go |  9 ++++++++-
 internal/index/compare.go     | 22 +++++++---------------
 internal/index/index.go       | 21 ++++++++++++---------
 3 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 224227d..b960128 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"cmp"
 	"iter"
 	"time"
 
@@ -123,13 +124,19 @@ func filterByV(seq iter.Seq[Datum], v Value) iter.Seq[Datum] {
 
 // valuesEqual compares two values with the same instant semantics the indexes use:
 // Inst values are equal when they denote the same millisecond, matching how they are
-// stored and compared in the int tree. All other value types compare by ==.
+// stored and compared in the int tree, and Float values when neither precedes the other,
+// so NaN equals itself. All other value types compare by ==.
 func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
 		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
+	af, aok := a.(Float)
+	bf, bok := b.(Float)
+	if aok && bok {
+		return cmp.Compare(af, bf) == 0
+	}
 	return a == b
 }
 
diff --git a/internal/index/compare.go b/internal/index/compare.go
index fa853b0..1688237 100644
--- a/internal/index/compare.go
+++ b/internal/index/compare.go
@@ -15,7 +15,7 @@ func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.A > d2.A:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
@@ -26,9 +26,9 @@ func LessAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 		less = true
 	case d1.A > d2.A:
 		less = false
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	default:
 		less = d1.E < d2.E
@@ -47,16 +47,16 @@ func LessAEV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.E > d2.E:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
 
 func LessVAE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	case d1.A < d2.A:
 		less = true
@@ -143,15 +143,7 @@ func CompareAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 }
 
 func CompareV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
-	switch {
-	case d1.V < d2.V:
-		diff = -1
-	case d1.V > d2.V:
-		diff = 1
-	default:
-		diff = 0
-	}
-	return
+	return cmp.Compare(d1.V, d2.V)
 }
 
 func CompareVA[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
diff --git a/internal/index/index.go b/internal/index/index.go
index b202605..e93f94b 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -111,6 +111,9 @@ func NewCompositeIndex(degree int, indexType IndexType, attrTypes map[ID]ID) (co
 	return
 }
 
+// minFloat is the least value in the order of floats, in which NaN precedes all others.
+var minFloat = math.NaN()
+
 var stringValuer TypeValuer[string] = TypeValuer[string]{
 	valuer:   func(v string) (value Value) { return String(v) },
 	devaluer: func(value Value) (v string) { return string(value.(String)) },
@@ -310,11 +313,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -391,11 +394,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -471,11 +474,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From 9894befc2dae66c196997ebb3877d2a6ba731dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 02/29] fix: look up mistyped values and unknown attributes
 without panicking

A value of a type other than the attribute's in a lookup or a query panicked on a
type assertion, and selecting by an id that is not an attribute's gave a nil
sequence, which panicked when iterated. Both match nothing.
---
 internal/index/index.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/index/index.go b/internal/index/index.go
index e93f94b..bb59116 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -155,6 +155,9 @@ var instValuer TypeValuer[int64] = TypeValuer[int64]{
 }
 
 func (idx *CompositeIndex) Find(datum Datum) (extant bool) {
+	if !sys.ValidValue(idx.attrTypes[datum.A], datum.V) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		extant = idx.strings.Find(TypedDatum[string]{E: datum.E, A: datum.A, V: string(datum.V.(String))})
@@ -263,8 +266,8 @@ func mapSeq(seq iter.Seq[Datum], f func(Datum) Datum) iter.Seq[Datum] {
 
 // The partial index passed to Select/First/Count must be one this index can
 // satisfy for the datum's attribute type; the database is responsible for pairing
-// the right index with the right partial. An unsupported pairing yields an empty
-// result rather than an error.
+// the right index with the right partial. An unsupported pairing, or a value which the
+// attribute cannot have, yields an empty result rather than an error.
 func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Datum]) {
 	if p == E {
 		strings := idx.strings.Select(CompareE[string], stringValuer.valuer, TypedDatum[string]{E: datum.E})
@@ -276,6 +279,10 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 		seq = mergeEAV(strings, mapSeq(ints, idx.reint), mapSeq(uints, idx.reuint), floats)
 		return
 	}
+	seq = func(yield func(Datum) bool) {}
+	if p == AV && !sys.ValidValue(idx.attrTypes[datum.A], datum.V) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
@@ -357,6 +364,9 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 		}
 		return
 	}
+	if p == AV && !sys.ValidValue(idx.attrTypes[datum.A], datum.V) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
@@ -437,6 +447,9 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 		count += idx.floats.Count(CompareE[float64], TypedDatum[float64]{E: datum.E})
 		return
 	}
+	if p == AV && !sys.ValidValue(idx.attrTypes[datum.A], datum.V) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
-- 
2.43.0


From a5f574128c943e35c723c7747a79c916207f8fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 03/29] fix: a query by a ref that resolves to nothing matches
 nothing

An ident, lookup ref or tempid that did not resolve, in any position, and every
ref given for the value or lookup ref given for the attribute, was taken as a
wildcard instead.
---
 internal/database/snapshot.go | 66 +++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index b960128..669c24d 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -76,7 +76,10 @@ func (snapshot *indexSnapshot) selectWith(a access, match Datum) (datums iter.Se
 
 // Select returns the datums matching the claim.
 func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return func(yield func(Datum) bool) {}
+	}
 	return snapshot.selectWith(snapshot.access(match), match)
 }
 
@@ -84,7 +87,10 @@ func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
 // exact existence check against eav (a btree lookup, no allocation); other shapes
 // fall back to testing whether the access path yields anything.
 func (snapshot *indexSnapshot) Has(claim Claim) bool {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return false
+	}
 	if match.E != 0 && match.A != 0 && match.V != nil {
 		return snapshot.eav.Find(match)
 	}
@@ -98,7 +104,10 @@ func (snapshot *indexSnapshot) Has(claim Claim) bool {
 // directly through the typed indexes (which tally without materializing values);
 // value-filtered and unconstrained shapes are counted by enumeration.
 func (snapshot *indexSnapshot) Count(claim Claim) (count int) {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return
+	}
 	a := snapshot.access(match)
 	if a.all || a.filterV != nil {
 		for range snapshot.selectWith(a, match) {
@@ -170,24 +179,45 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum) {
-	switch e := claim.E.(type) {
-	case ID:
-		match.E = e
-	case Ident:
-		match.E = snapshot.idents[e]
-	case LookupRef:
-		match.E = snapshot.resolveLookupRef(e)
+// resolveClaim resolves the refs of the claim, reporting false if any that is given resolves
+// to nothing, in which case no datum matches.
+func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum, ok bool) {
+	if claim.E != nil && claim.E != ERef(ID(0)) {
+		match.E = snapshot.resolveRef(claim.E)
+		if match.E == 0 {
+			return
+		}
+	}
+	if claim.A != nil && claim.A != IDRef(ID(0)) {
+		match.A = snapshot.resolveRef(claim.A)
+		if match.A == 0 {
+			return
+		}
 	}
-	switch a := claim.A.(type) {
+	switch v := claim.V.(type) {
+	case nil:
+	case Value:
+		match.V = v
+	default:
+		id := snapshot.resolveRef(v)
+		if id == 0 {
+			return
+		}
+		match.V = id
+	}
+	ok = true
+	return
+}
+
+// resolveRef resolves an entity, attribute or value ref to an id, or 0 if there is none.
+func (snapshot *indexSnapshot) resolveRef(ref any) (id ID) {
+	switch r := ref.(type) {
 	case ID:
-		match.A = a
+		id = r
 	case Ident:
-		match.A = snapshot.idents[a]
-	}
-	value, ok := claim.V.(Value)
-	if ok {
-		match.V = value
+		id = snapshot.idents[r]
+	case LookupRef:
+		id = snapshot.resolveLookupRef(r)
 	}
 	return
 }
-- 
2.43.0


From 581a350d5fc2c16014834c9cff950dff5cbd8552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 04/29] fix: resolve lookup refs whose attribute is itself a
 lookup ref

LookupRef documents that its attribute may be any form of id ref.
---
 internal/database/database.go | 2 ++
 internal/database/snapshot.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index ac22379..f7ca9c7 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -474,6 +474,8 @@ func (db *indexDatabase) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = db.idents[a]
+	case LookupRef:
+		datum.A = db.resolveLookupRef(a)
 	default:
 		return
 	}
diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 669c24d..5bd2732 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -166,6 +166,8 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = snapshot.idents[a]
+	case LookupRef:
+		datum.A = snapshot.resolveLookupRef(a)
 	default:
 		return
 	}
-- 
2.43.0


From 5aff49f38f120cd7ac42c812fc9a2fc9d410a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 05/29] fix: exclude concurrent readers while the indexes are
 cloned

Cloning a btree replaces the original's copy-on-write context, so two concurrent
reads raced, and could leave a snapshot sharing nodes with a later database state.
---
 internal/database/database.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index f7ca9c7..d1e5732 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -79,8 +79,9 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 }
 
 func (db *indexDatabase) Read() (snapshot Snapshot) {
-	db.lock.RLock()
-	defer db.lock.RUnlock()
+	// Cloning the indexes changes them, so reading excludes even other readers.
+	db.lock.Lock()
+	defer db.lock.Unlock()
 	snapshot = db.read()
 	return
 }
-- 
2.43.0


From dac9c29d1c8fc438f3c90d94615a789cf1c3ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 06/29] fix: do not change the attribute types extant snapshots
 share

Declaring an attribute wrote to a map that every snapshot's indexes read without
a lock.
---
 internal/database/database.go | 12 +++++++++++-
 internal/index/index.go       |  7 +++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index d1e5732..c69a0f2 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -338,6 +338,17 @@ CLAIMS:
 				}
 			}
 		}
+		if len(attrChanges) != 0 {
+			// The extant types are shared with the indexes of extant snapshots.
+			attrTypes := maps.Clone(db.attrTypes)
+			for id, attr := range attrChanges {
+				attrTypes[id] = attr.Type
+			}
+			eav.SetAttrTypes(attrTypes)
+			aev.SetAttrTypes(attrTypes)
+			ave.SetAttrTypes(attrTypes)
+			db.attrTypes = attrTypes
+		}
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
@@ -351,7 +362,6 @@ CLAIMS:
 			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
 			db.attrsByIdent[attr.Ident] = attr
-			db.attrTypes[id] = attr.Type
 			if attr.Cardinality == sys.AttrCardinalityMany {
 				db.attrCardManies[id] = Void{}
 			}
diff --git a/internal/index/index.go b/internal/index/index.go
index bb59116..dc343e7 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -84,6 +84,9 @@ type Index interface {
 	// Clone returns a copy of the index. Both instances are hereafter safe to change without affecting
 	// the other.
 	Clone() (clone Index)
+	// SetAttrTypes replaces the attribute types of the index, though not of its clones. The
+	// types may be shared with other indexes, none of which change them.
+	SetAttrTypes(attrTypes map[ID]ID)
 }
 
 // CompositeIndex is an index of indexes of the discrete types.
@@ -531,3 +534,7 @@ func (idx *CompositeIndex) Clone() (clone Index) {
 	}
 	return
 }
+
+func (idx *CompositeIndex) SetAttrTypes(attrTypes map[ID]ID) {
+	idx.attrTypes = attrTypes
+}
-- 
2.43.0


From 5eb5754f9a613324a6b1bd60f5d45f20df07f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 07/29] fix: reject retractions without constraints and answer
 rejected ones with a snapshot

A retraction without constraints was accepted, one whose constraints did not
resolve gave a response without a snapshot, and the claims that retractions expand
to could be written to the spare capacity of the caller's claims.
---
 internal/database/database.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index c69a0f2..6a319f3 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -107,7 +107,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	identDeletes := map[ID]Ident{}
-	claims := req.Claims
+	// The full slice expression keeps us from appending to memory that belongs to the caller.
+	claims := req.Claims[:len(req.Claims):len(req.Claims)]
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
 		for _, retraction := range req.Retractions {
@@ -125,14 +126,19 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				switch {
 				case refID == 0:
 					res.Error = NewError("database.write.invalidE", "retraction", retraction, "ref", ref)
-					return
 				case id == 0:
 					id = refID
 				case id != refID:
 					res.Error = NewError("database.write.inconsistentE", "retraction", retraction, "ref", ref, "id", id)
-					return
 				}
 			}
+			if id == 0 && res.Error == nil {
+				res.Error = NewError("database.write.invalidE", "retraction", retraction)
+			}
+			if res.Error != nil {
+				res.Snapshot = db.read()
+				return
+			}
 			ids[id] = Void{}
 		}
 		for id := range ids {
-- 
2.43.0


From 8f028245ae76100182ef9b9d69e1f7c36fd63e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 08/29] fix: resolve tempids by identity before enforcing the
 invariants

Tempids were replaced by the entity holding their identity unique value only after
the checks, so redeclaring an attribute by tempid escaped them, re-pointed its
ident at an id that was never recorded and forked its definition. Values that two
tempids of a request share were not unified at all, leaving both as holders, and a
tempid with two identity unique values of one same entity was rejected.
---
 internal/database/database.go | 113 ++++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 40 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 6a319f3..f04bbfa 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -101,7 +101,6 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 }
 
 func (db *indexDatabase) Write(req Request) (res Response) {
-	rewrites := map[ID]ID{}
 	db.lock.Lock()
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
@@ -153,31 +152,28 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
 	data := make([]*Datum, 0, len(claims))
-CLAIMS:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
 		if res.Error != nil {
 			break
 		}
-		if !claim.Retract {
-			unique := db.attrUniques[datum.A]
-			if unique != 0 {
-				d, ok := db.ave.First(index.AV, *datum)
-				if ok {
-					switch unique {
-					case sys.AttrUniqueIdentity:
-						_, ok := rewrites[datum.E]
-						if ok {
-							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
-							break CLAIMS
-						} else {
-							rewrites[datum.E] = d.E
-						}
-					case sys.AttrUniqueValue:
-						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-						break CLAIMS
-					}
-				}
+		data = append(data, datum)
+	}
+	if res.Error == nil {
+		// From here on, the datums have their final ids.
+		db.resolveTempIDs(&res, claims, data)
+	}
+	if res.Error != nil {
+		data = nil
+	}
+CLAIMS:
+	for i, datum := range data {
+		claim := claims[i]
+		if !claim.Retract && db.attrUniques[datum.A] == sys.AttrUniqueValue {
+			d, ok := db.ave.First(index.AV, *datum)
+			if ok {
+				res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+				break CLAIMS
 			}
 		}
 		// Enforce system invariants and maintain database caches.
@@ -261,7 +257,6 @@ CLAIMS:
 				attrChanges[datum.E] = attr
 			}
 		}
-		data = append(data, datum)
 	}
 	for id, attr := range attrChanges {
 		ident, ok := identCreates[id]
@@ -293,24 +288,6 @@ CLAIMS:
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
-			// TempIDs may have been assigned IDs that subsequently resolved to identity
-			// unique datum ids, so we rewrite them if so.
-			tempid, ok := claim.E.(TempID)
-			if ok {
-				id, ok := rewrites[datum.E]
-				if ok {
-					datum.E = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			tempid, ok = claim.V.(TempID)
-			if ok {
-				id, ok := rewrites[datum.V.(ID)]
-				if ok {
-					datum.V = id
-					res.TempIDs[tempid] = id
-				}
-			}
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
@@ -478,6 +455,62 @@ func (db *indexDatabase) evaluateClaim(res *Response, claim *Claim) (datum *Datu
 	return
 }
 
+// resolveTempIDs replaces the ids allocated for tempids that claim an identity unique value
+// with the id of the entity which has that value, if any, or else with a single one among
+// those of the tempids that claim it. Since the values may themselves refer to tempids, this
+// repeats until it finds none to replace.
+func (db *indexDatabase) resolveTempIDs(res *Response, claims []Claim, data []*Datum) {
+	for {
+		rewrites := map[ID]ID{}
+		resolve := func(id ID) ID {
+			for rewrites[id] != 0 {
+				id = rewrites[id]
+			}
+			return id
+		}
+		ave := db.ave.Clone()
+		for i, datum := range data {
+			_, ok := claims[i].E.(TempID)
+			if !ok || claims[i].Retract || db.attrUniques[datum.A] != sys.AttrUniqueIdentity {
+				continue
+			}
+			d, ok := ave.First(index.AV, *datum)
+			if !ok {
+				ave.Insert(*datum)
+				continue
+			}
+			e, holder := resolve(datum.E), resolve(d.E)
+			switch {
+			case e == holder:
+			case e > res.ID:
+				rewrites[e] = holder
+			case holder > res.ID:
+				rewrites[holder] = e
+			default:
+				// The tempid has already resolved to another extant entity.
+				res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum, "extant", d)
+				return
+			}
+		}
+		if len(rewrites) == 0 {
+			return
+		}
+		for tempid, id := range res.TempIDs {
+			res.TempIDs[tempid] = resolve(id)
+		}
+		for i, datum := range data {
+			tempid, ok := claims[i].E.(TempID)
+			if ok {
+				datum.E = res.TempIDs[tempid]
+			}
+			tempid, ok = claims[i].V.(TempID)
+			if ok {
+				datum.V = res.TempIDs[tempid]
+			}
+		}
+	}
+}
+
 func (db *indexDatabase) allocateID() (id ID) {
 	id = db.nextID
 	db.nextID++
-- 
2.43.0


From 87d0951c250f3708a1eb9eb0938d2653c880466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 09/29] fix: reject claims about system entities

Requests could rename or retract the idents of system entities other than
attributes, and change or retract their datums.
---
 internal/database/database.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index f04bbfa..394dc1f 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -138,6 +138,11 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				res.Snapshot = db.read()
 				return
 			}
+			if id < sys.FirstUserID {
+				res.Error = NewError("database.write.systemEntity", "retraction", retraction)
+				res.Snapshot = db.read()
+				return
+			}
 			ids[id] = Void{}
 		}
 		for id := range ids {
@@ -169,6 +174,10 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
+		if datum.E < sys.FirstUserID {
+			res.Error = NewError("database.write.systemEntity", "datum", datum)
+			break CLAIMS
+		}
 		if !claim.Retract && db.attrUniques[datum.A] == sys.AttrUniqueValue {
 			d, ok := db.ave.First(index.AV, *datum)
 			if ok {
-- 
2.43.0


From e61c629727ca541f9fa57adb52fe5ebb64668e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 10/29] fix: enforce uniqueness on the outcome of the request

A unique value could come to be held by two entities when both were asserted in
one request, or when an identity attribute was asserted of an entity given by id,
ident or lookup ref; and asserting a value unique attribute again of the entity
that holds it was rejected.
---
 internal/database/database.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 394dc1f..b881c0e 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -178,13 +178,6 @@ CLAIMS:
 			res.Error = NewError("database.write.systemEntity", "datum", datum)
 			break CLAIMS
 		}
-		if !claim.Retract && db.attrUniques[datum.A] == sys.AttrUniqueValue {
-			d, ok := db.ave.First(index.AV, *datum)
-			if ok {
-				res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-				break CLAIMS
-			}
-		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
@@ -289,11 +282,12 @@ CLAIMS:
 		}
 	}
 	// We now have datums with resolved or assigned ids and consistent avs.
+	var eav, aev, ave index.Index
 	if res.Error == nil {
-		eav := db.eav.Clone()
-		aev := db.aev.Clone()
+		eav = db.eav.Clone()
+		aev = db.aev.Clone()
 		// Could defer this clone until we know we need it
-		ave := db.ave.Clone()
+		ave = db.ave.Clone()
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
@@ -330,6 +324,16 @@ CLAIMS:
 				}
 			}
 		}
+		// The values of unique attributes must have a single holder in the result, however
+		// the request came to assert them.
+		for i, datum := range data {
+			if !claims[i].Retract && db.attrUniques[datum.A] != 0 && ave.Count(index.AV, *datum) > 1 {
+				res.Error = NewError("database.write.uniqueValueCollision", "datum", datum)
+				break
+			}
+		}
+	}
+	if res.Error == nil {
 		if len(attrChanges) != 0 {
 			// The extant types are shared with the indexes of extant snapshots.
 			attrTypes := maps.Clone(db.attrTypes)
-- 
2.43.0


From d9a323a91abb81136fd1476772952ac4f6acae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 11/29] fix: compare cardinality one values as the indexes do

Asserting the value an entity already has replaced it, and its transaction, if it
was an instant with another zone or sub-millisecond part, or NaN.
---
 internal/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index b881c0e..a58bf6a 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -297,7 +297,7 @@ CLAIMS:
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
 					if ok {
-						if d.V == datum.V {
+						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
 							eav.Delete(d)
-- 
2.43.0


From e9d5e3e978f23d1348a341f3e27549eaff7df958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 12/29] fix: reject two values for a cardinality one attribute
 in one request

The last one silently won, and for attribute entities the definition enforced
could differ from the one recorded. The architecture documents the rejection.
---
 internal/database/database.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index a58bf6a..d32c9d1 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -171,9 +171,20 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	if res.Error != nil {
 		data = nil
 	}
+	ones := map[Datum]Value{}
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
+		_, many := db.attrCardManies[datum.A]
+		if !claim.Retract && !many {
+			one := Datum{E: datum.E, A: datum.A}
+			v, ok := ones[one]
+			if ok && !valuesEqual(v, datum.V) {
+				res.Error = NewError("database.write.cardinalityOneConflict", "datum", datum, "conflict", v)
+				break CLAIMS
+			}
+			ones[one] = datum.V
+		}
 		if datum.E < sys.FirstUserID {
 			res.Error = NewError("database.write.systemEntity", "datum", datum)
 			break CLAIMS
-- 
2.43.0


From 3faae9388e3e3f7a404ffbea1362f8275e38764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 13/29] fix: keep the resolution of idents in step with their
 datums

Renaming an entity left its old ident resolving to it, retracting an ident that
another entity has (or asserting it first) unresolved that entity's, and asserting
and retracting an ident in one request left it resolving, or an attribute without
one. The idents a request touches are now read back from the index.
---
 internal/database/database.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index d32c9d1..d1b50a0 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -105,7 +105,6 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	identDeletes := map[ID]Ident{}
 	// The full slice expression keeps us from appending to memory that belongs to the caller.
 	claims := req.Claims[:len(req.Claims):len(req.Claims)]
 	if len(req.Retractions) != 0 {
@@ -209,10 +208,11 @@ CLAIMS:
 					res.Error = NewError("database.write.invalidUserIdent", "datum", datum)
 					break CLAIMS
 				}
-				if claim.Retract {
-					identDeletes[datum.E] = ident
-				} else {
+				switch {
+				case !claim.Retract:
 					identCreates[datum.E] = ident
+				case identCreates[datum.E] == ident:
+					delete(identCreates, datum.E)
 				}
 			}
 		case sys.AttrType:
@@ -294,6 +294,7 @@ CLAIMS:
 	}
 	// We now have datums with resolved or assigned ids and consistent avs.
 	var eav, aev, ave index.Index
+	identChanges := map[String]Void{}
 	if res.Error == nil {
 		eav = db.eav.Clone()
 		aev = db.aev.Clone()
@@ -302,6 +303,9 @@ CLAIMS:
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
+			if datum.A == sys.DbIdent {
+				identChanges[datum.V.(String)] = Void{}
+			}
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
@@ -311,6 +315,9 @@ CLAIMS:
 						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
+							if d.A == sys.DbIdent {
+								identChanges[d.V.(String)] = Void{}
+							}
 							eav.Delete(d)
 							aev.Delete(d)
 							_, ok := db.attrUniques[datum.A]
@@ -359,14 +366,15 @@ CLAIMS:
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
-		for _, ident := range identDeletes {
-			delete(db.idents, ident)
-		}
-		for id, ident := range identCreates {
-			db.idents[ident] = id
+		for ident := range identChanges {
+			d, ok := ave.First(index.AV, Datum{A: sys.DbIdent, V: ident})
+			if ok {
+				db.idents[Ident(ident)] = d.E
+			} else {
+				delete(db.idents, Ident(ident))
+			}
 		}
 		for id, attr := range attrChanges {
-			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
 			db.attrsByIdent[attr.Ident] = attr
 			if attr.Cardinality == sys.AttrCardinalityMany {
-- 
2.43.0


From fa1ea7098615039df4bc23a2e5b36301300bcd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 14/29] fix: reject zero as the cardinality or uniqueness of an
 attribute

It was recorded as though it were a valid declaration, even on an existing
attribute.
---
 internal/database/database.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index d1b50a0..15825b0 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -239,6 +239,10 @@ CLAIMS:
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
 				break CLAIMS
 			}
+			if !sys.ValidAttrCardinality(card) {
+				res.Error = NewError("database.write.invalidAttrCardinality", "datum", datum)
+				break CLAIMS
+			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Cardinality != card {
@@ -257,6 +261,10 @@ CLAIMS:
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
 				break CLAIMS
 			}
+			if !sys.ValidUnique(unique) {
+				res.Error = NewError("database.write.invalidAttrUnique", "datum", datum)
+				break CLAIMS
+			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Unique != unique {
@@ -283,14 +291,6 @@ CLAIMS:
 			res.Error = NewError("database.write.invalidAttrType", "attr", attr)
 			break
 		}
-		if attr.Cardinality != 0 && !sys.ValidAttrCardinality(attr.Cardinality) {
-			res.Error = NewError("database.write.invalidAttrCardinality", "attr", attr)
-			break
-		}
-		if attr.Unique != 0 && !sys.ValidUnique(attr.Unique) {
-			res.Error = NewError("database.write.invalidAttrUnique", "attr", attr)
-			break
-		}
 	}
 	// We now have datums with resolved or assigned ids and consistent avs.
 	var eav, aev, ave index.Index
-- 
2.43.0


From 1ab39b2b8b873c339f4d44130fa264a359f3c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 15/29] fix: cache the models that were analyzed, not the
 errors

The caching analyzer cached nothing, and panicked writing to a nil map when a type
could not be modelled. Snapshots share it, so the cache needs a lock.
---
 internal/structs/models/models.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index d0c55f7..15dd2f7 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -4,6 +4,7 @@ package models
 import (
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
@@ -16,27 +17,32 @@ type Analyzer interface {
 }
 
 type cachingAnalyzer struct {
-	types map[reflect.Type]*StructModel
+	lock  sync.RWMutex
+	types map[reflect.Type]StructModel
 }
 
 var _ Analyzer = (*cachingAnalyzer)(nil)
 
 func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, err error) {
-	mp := analyzer.types[typ]
-	if mp != nil {
-		model = *mp
+	analyzer.lock.RLock()
+	model, ok := analyzer.types[typ]
+	analyzer.lock.RUnlock()
+	if ok {
 		return
 	}
 	model, err = Analyze(typ)
-	if err != nil {
-		analyzer.types[typ] = &model
+	if err == nil {
+		analyzer.lock.Lock()
+		analyzer.types[typ] = model
+		analyzer.lock.Unlock()
 	}
 	return
 }
 
-// BuildCachingAnalyzer returns an analyzer with a cache of type models.
+// BuildCachingAnalyzer returns an analyzer with a cache of type models, which is safe for
+// concurrent use.
 func BuildCachingAnalyzer() Analyzer {
-	return &cachingAnalyzer{}
+	return &cachingAnalyzer{types: map[reflect.Type]StructModel{}}
 }
 
 // StructModel models a struct that has fields bound to attributes, whose instances
-- 
2.43.0


From 64f7c14961f943f8902076b6f5830e22d489f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 16/29] fix: leave fields without an attr tag out of struct
 models

They were modelled as fields without a type, so recording a struct that had one
panicked, or its schema was rejected. A time is a scalar, not a struct to model.
---
 internal/structs/models/models.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 15dd2f7..ecde5f0 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -104,7 +104,7 @@ func (attr AttrFieldModel) IsPointer() bool {
 
 // Analyze builds a struct model for the given struct type.
 func Analyze(typ reflect.Type) (model StructModel, err error) {
-	if typ.Kind() != reflect.Struct {
+	if typ.Kind() != reflect.Struct || typ == TimeType {
 		err = NewError("models.notStruct", "type", typ)
 		return
 	}
@@ -118,6 +118,10 @@ func Analyze(typ reflect.Type) (model StructModel, err error) {
 			err = fieldErr
 			return
 		}
+		if attr.FieldType == nil {
+			// The field has no attr tag.
+			continue
+		}
 		attr.Index = i
 		attrFields = append(attrFields, attr)
 	}
-- 
2.43.0


From d7423031b26e9ebd1fe71d402fd60cb7eb0eb6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 17/29] fix: reject struct types whose tagged fields cannot be
 set

Tagged fields that are unexported, and id fields that are not uint64, panicked when
recording or finding structs. Building a typed snapshot checks the reachable types.
---
 internal/structs/models/models.go   | 3 +++
 internal/structs/schemas/schemas.go | 4 ++++
 pkg/database/database.go            | 3 ++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index ecde5f0..3e4cd04 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -158,6 +158,9 @@ func parseAttrField(field reflect.StructField) (attr AttrFieldModel, err error)
 	}
 	attr.FieldType = field.Type
 	if attr.Ident == sys.DbId {
+		if field.Type.Kind() != reflect.Uint64 {
+			err = NewError("models.invalidIdFieldType", "tag", tag, "type", field.Type)
+		}
 		return
 	}
 	switch field.Type.Kind() {
diff --git a/internal/structs/schemas/schemas.go b/internal/structs/schemas/schemas.go
index d467f20..e0f1cc8 100644
--- a/internal/structs/schemas/schemas.go
+++ b/internal/structs/schemas/schemas.go
@@ -26,6 +26,10 @@ func Analyze(typ reflect.Type) (claims []Claim, err error) {
 			}
 			typeClaims := make([]Claim, 0, 3*len(model.AttrFields))
 			for _, field := range model.AttrFields {
+				if !typ.Field(field.Index).IsExported() {
+					err = NewError("schemas.unexportedField", "type", typ, "ident", field.Ident)
+					return
+				}
 				if field.Ident == Ident("sys/db/id") {
 					continue
 				}
diff --git a/pkg/database/database.go b/pkg/database/database.go
index 5093c5c..5fbea23 100644
--- a/pkg/database/database.go
+++ b/pkg/database/database.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/dball/destructive/internal/structs/assemblers"
 	"github.com/dball/destructive/internal/structs/models"
+	"github.com/dball/destructive/internal/structs/schemas"
 	"github.com/dball/destructive/internal/types"
 )
 
@@ -41,7 +42,7 @@ func (ts *typedSnapshot[T]) Find(id uint64) (entity *T) {
 }
 
 func BuildTypedSnapshot[T any](snapshot *Snapshot) (ts TypedSnapshot[T], err error) {
-	_, err = models.Analyze(reflect.TypeFor[T]())
+	_, err = schemas.Analyze(reflect.TypeFor[T]())
 	if err == nil {
 		ts = &typedSnapshot[T]{snapshot: snapshot}
 	}
-- 
2.43.0


From 99ada6269947f6211b5837a85bff473cbc20ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 18/29] fix: reject nil where a struct is to be retracted
 without panicking

---
 internal/structs/shredder/shredder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 6edbcc7..41aa07d 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -106,6 +106,10 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 	typ := reflect.TypeOf(x)
 	var fields reflect.Value
 	var id ID
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	switch typ.Kind() {
 	case reflect.Struct:
 		fields = reflect.ValueOf(x)
@@ -227,6 +231,10 @@ func (s *shredder) retract(confetti *confetti, x any) (retraction *Retraction, e
 	var fields reflect.Value
 	typ := reflect.TypeOf(x)
 	var e ID
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	switch typ.Kind() {
 	case reflect.Struct:
 		fields = reflect.ValueOf(x)
-- 
2.43.0


From ed83e680f4654d073b5b499c5400f378a6267e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 19/29] fix: write the schema and the data of a struct request
 as a whole

The attributes a request declared remained when its data was rejected, or even the
schema of a later assertion was, so that it affected later requests, and the
response lacked the snapshot that rejected it. Asserting nil panicked.
---
 internal/database/database.go | 26 ++++++++++++++++++++++++++
 internal/types/txn.go         |  3 +++
 pkg/database/impl.go          | 31 ++++++++++++++++---------------
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 15825b0..72532bd 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -103,6 +103,32 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 func (db *indexDatabase) Write(req Request) (res Response) {
 	db.lock.Lock()
 	defer db.lock.Unlock()
+	return db.write(req)
+}
+
+func (db *indexDatabase) WriteAll(reqs []Request) (res Response) {
+	db.lock.Lock()
+	defer db.lock.Unlock()
+	// Writing replaces the indexes and the attribute types, but changes the other caches.
+	eav, aev, ave, attrTypes, nextID := db.eav, db.aev, db.ave, db.attrTypes, db.nextID
+	attrsByID, attrsByIdent := maps.Clone(db.attrsByID), maps.Clone(db.attrsByIdent)
+	attrUniques, attrCardManies := maps.Clone(db.attrUniques), maps.Clone(db.attrCardManies)
+	idents := maps.Clone(db.idents)
+	for _, req := range reqs {
+		res = db.write(req)
+		if res.Error != nil {
+			db.eav, db.aev, db.ave, db.attrTypes, db.nextID = eav, aev, ave, attrTypes, nextID
+			db.attrsByID, db.attrsByIdent = attrsByID, attrsByIdent
+			db.attrUniques, db.attrCardManies = attrUniques, attrCardManies
+			db.idents = idents
+			res.Snapshot = db.read()
+			return
+		}
+	}
+	return
+}
+
+func (db *indexDatabase) write(req Request) (res Response) {
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	// The full slice expression keeps us from appending to memory that belongs to the caller.
diff --git a/internal/types/txn.go b/internal/types/txn.go
index ecfa16a..61dd61c 100644
--- a/internal/types/txn.go
+++ b/internal/types/txn.go
@@ -76,6 +76,9 @@ type Database interface {
 	Read() Snapshot
 	// Write tries to apply the request to the database.
 	Write(req Request) Response
+	// WriteAll tries to apply the requests to the database, in order and as a whole: if any of
+	// them is rejected, none of them is applied. The response is that of the last request tried.
+	WriteAll(reqs []Request) Response
 }
 
 // Snapshot is an immutable set of datums. Snapshots are safe for concurrent use.
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 434916b..89258bd 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -56,8 +56,14 @@ func (db *localDatabase) Read() *Snapshot {
 }
 
 func (db *localDatabase) Write(req Request) (res Response) {
+	ireqs := make([]types.Request, 0, len(req.Assertions)+1)
 	for _, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
+		if typ == nil {
+			res.Error = types.NewError("database.write.nilAssertion")
+			res.Snap = db.Read()
+			return
+		}
 		if typ.Kind() == reflect.Pointer {
 			typ = typ.Elem()
 		}
@@ -66,18 +72,10 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		claims, err := schemas.Analyze(typ)
 		if err != nil {
 			res.Error = err
+			res.Snap = db.Read()
 			return
 		}
-		// TODO holy non-atomicity, batman. Probably we should accumulate
-		// all claims and at least write them all in one batch?
-		// For the subsequent data claims, perhaps the internal db write
-		// should accommodate a separate "ddl" claims form and handle
-		// a total reversion if the data claims have an error?
-		ires := db.db.Write(types.Request{Claims: claims})
-		if ires.Error != nil {
-			res.Error = ires.Error
-			return
-		}
+		ireqs = append(ireqs, types.Request{Claims: claims})
 	}
 	ireq, ids, err := shredder.NewShredder(db.analyzer).Shred(shredder.Document{
 		Retractions: req.Retractions,
@@ -85,17 +83,20 @@ func (db *localDatabase) Write(req Request) (res Response) {
 	})
 	if err != nil {
 		res.Error = err
+		res.Snap = db.Read()
 		return
 	}
-	ires := db.db.Write(ireq)
-	if ires.Error != nil {
-		res.Error = ires.Error
-		return
-	}
+	// The data claims need the attributes the schema claims declare, so they follow in
+	// requests of their own, but are accepted or rejected together.
+	ires := db.db.WriteAll(append(ireqs, ireq))
 	res.Snap = &Snapshot{
 		snap:     ires.Snapshot,
 		analyzer: db.analyzer,
 	}
+	if ires.Error != nil {
+		res.Error = ires.Error
+		return
+	}
 	n := len(req.Assertions)
 	res.IDs = make([]uint64, 0, n)
 	for i := range n {
-- 
2.43.0


From 8e105392d456cbf6219a62b20e925741a2845261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 20/29] fix: assemble ints in slices, keys that are ints or
 ids, and named scalars

Struct slices of ints, maps keyed by ints or by the entity id, and pointers to named
scalar types panicked on a value of another type.
---
 internal/structs/assemblers/assemblers.go | 39 ++++++++++++++---------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 6809759..71f7d07 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -113,23 +113,24 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 		}
 		field := value.Field(attr.Index)
 		if attr.IsPointer() {
-			// TODO who owns the vs anyway? If they're not copied at some point,
-			// exposing value pointers opens the door to database corruption.
+			// Pointers to scalars point to copies of the datums' values.
 			switch v := datum.V.(type) {
 			case String:
-				// TODO does this count as a copy for the purpose of ensuring the
-				// outer pointer doesn't change the Fact value?
-				fv := string(v)
-				field.Set(reflect.ValueOf(&fv))
+				scalar := reflect.New(field.Type().Elem())
+				scalar.Elem().SetString(string(v))
+				field.Set(scalar)
 			case Int:
-				fv := int(v)
-				field.Set(reflect.ValueOf(&fv))
+				scalar := reflect.New(field.Type().Elem())
+				scalar.Elem().SetInt(int64(v))
+				field.Set(scalar)
 			case Bool:
-				fv := bool(v)
-				field.Set(reflect.ValueOf(&fv))
+				scalar := reflect.New(field.Type().Elem())
+				scalar.Elem().SetBool(bool(v))
+				field.Set(scalar)
 			case Float:
-				fv := float64(v)
-				field.Set(reflect.ValueOf(&fv))
+				scalar := reflect.New(field.Type().Elem())
+				scalar.Elem().SetFloat(float64(v))
+				field.Set(scalar)
 			case Inst:
 				fv := time.Time(v)
 				field.Set(reflect.ValueOf(&fv))
@@ -201,8 +202,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
 						scalar := as.findValue(v, attr.CollValue)
-						i := int(as.findValue(v, Ident("sys/db/rank")).(int64))
-						slice.Index(i).Set(reflect.ValueOf(scalar))
+						rank, ok := as.findValue(v, Ident("sys/db/rank")).(int64)
+						if ok && scalar != nil {
+							slice.Index(int(rank)).Set(reflect.ValueOf(scalar).Convert(slice.Type().Elem()))
+						}
 					}
 				default:
 					pointer, ok := as.pointers[v]
@@ -248,6 +251,9 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 }
 
 func (as *assembler) findValue(e ID, a Ident) (v any) {
+	if a == Ident(sys.DbId) {
+		return uint64(e)
+	}
 	// TODO snapshot should support SelectOne?
 	for datum := range as.snapshot.Select(Claim{E: e, A: a}) {
 		switch x := datum.V.(type) {
@@ -278,11 +284,14 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
 		// allows lookup by ident and use that to lookup the field value by index here.
 		key := as.findValue(id, mapKey)
+		if key == nil {
+			return
+		}
 		value := pointer
 		if !mapHasPointers {
 			value = pointer.Elem()
 		}
-		m.SetMapIndex(reflect.ValueOf(key), value)
+		m.SetMapIndex(reflect.ValueOf(key).Convert(m.Type().Key()), value)
 		return
 	}
 	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
-- 
2.43.0


From 9a170f7258a4ed527e7c63d41cd24a3578a5f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 21/29] fix: complete entities before copying them into fields,
 maps and slices

Whether a struct held by value had its nested values, and whether an entity reached
twice was copied before it was assembled, depended on the order of a map.
---
 internal/structs/assemblers/assemblers.go | 50 +++++++++++++++++++----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 71f7d07..00a5208 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -91,6 +91,17 @@ func (as *assembler) assembleAll() (err error) {
 	return
 }
 
+// realize assembles the entity if it is as yet unprocessed, so that its value is complete
+// when it is copied into a field, map or slice.
+func (as *assembler) realize(id ID) (err error) {
+	ptr, ok := as.unprocessed[id]
+	if ok {
+		delete(as.unprocessed, id)
+		err = as.assemble(id, ptr)
+	}
+	return
+}
+
 func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	value := ptr.Elem()
 
@@ -181,7 +192,13 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
-					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					if !mapHasPointers {
+						err = as.realize(v)
+						if err != nil {
+							return
+						}
+					}
+					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, false)
 				case attr.IsSlice():
 					var slice reflect.Value
 					if field.IsNil() {
@@ -197,7 +214,11 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
-						as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
+						err = as.realize(v)
+						if err != nil {
+							return
+						}
+						as.addEntityToSlice(attr.CollValue, slice, v, pointer, false)
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
@@ -209,13 +230,18 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					}
 				default:
 					pointer, ok := as.pointers[v]
-					if ok {
-						field.Set(pointer.Elem())
-					} else {
+					if !ok {
 						pointer = field.Addr()
 						as.pointers[v] = pointer
 						as.unprocessed[v] = pointer
 					}
+					err = as.realize(v)
+					if err != nil {
+						return
+					}
+					if ok {
+						field.Set(pointer.Elem())
+					}
 				}
 			default:
 				err = NewError("assembler.invalidFactValue")
@@ -278,7 +304,12 @@ func (as *assembler) findValue(e ID, a Ident) (v any) {
 }
 
 func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) {
-	if immediate {
+	instance, realized := as.instances[id]
+	if realized && !instance.IsValid() {
+		// The entity has no datums.
+		return
+	}
+	if immediate || realized {
 		// findValue is the only way of finding the key value when it's not present on the value struct,
 		// though is plausibly much less efficient when that is the case. It might be useful to optimize
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
@@ -305,7 +336,12 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 }
 
 func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
-	if immediate {
+	instance, realized := as.instances[id]
+	if realized && !instance.IsValid() {
+		// The entity has no datums.
+		return
+	}
+	if immediate || realized {
 		value := pointer.Elem()
 		index := as.findValue(id, Ident("sys/db/rank"))
 		i := int(index.(int64))
-- 
2.43.0


From 518ae169cd3981447a74bd19f6a66570c4bb84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 22/29] fix: find the struct its own graph refers to, not a
 copy

A pointer cycle through the struct that was found led to another instance of it.
---
 internal/structs/assemblers/assemblers.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 00a5208..2a693bb 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -378,14 +378,13 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 			return
 		}
 	}
-	if instance == reflect.ValueOf(nil) {
+	if !instance.IsValid() {
 		return
 	}
-	extant := instance.Elem().Interface()
-	it, ok := extant.(T)
+	// Pointers in the entity's graph that refer to it refer to this very instance.
+	entity, ok = instance.Interface().(*T)
 	if !ok {
-		err = NewError("assembler.typeConflictForID", "id", id, "extant", extant, "type", structType)
+		err = NewError("assembler.typeConflictForID", "id", id, "extant", instance.Elem().Interface(), "type", structType)
 	}
-	entity = &it
 	return
 }
-- 
2.43.0


From 8179398b67b4e8eb111e78e97afad8e26604f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 23/29] fix: resolve the idents of the uniqueness values

---
 internal/sys/sys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index 3379624..bf4bb45 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -78,6 +78,8 @@ var Attrs map[ID]Attr = map[ID]Attr{
 var Idents map[Ident]ID = map[Ident]ID{
 	Ident("sys/db/ident"):                DbIdent,
 	Ident("sys/attr/unique"):             AttrUnique,
+	Ident("sys/attr/unique/identity"):    AttrUniqueIdentity,
+	Ident("sys/attr/unique/value"):       AttrUniqueValue,
 	Ident("sys/tx/at"):                   TxAt,
 	Ident("sys/attr/type"):               AttrType,
 	Ident("sys/attr/type/ref"):           AttrTypeRef,
-- 
2.43.0


From 33d0e0aa597ddff6cd2845eb12ec6d78f61d97d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 24/29] fix: assemble an entity as each struct type that refers
 to it

---
 internal/structs/assemblers/assemblers.go | 129 ++++++++++++----------
 1 file changed, 68 insertions(+), 61 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 2a693bb..f68c2bd 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -23,34 +23,39 @@ type sliceAwaitingEntry struct {
 	pointer   reflect.Value
 }
 
-// TODO an assembler can only have a single instance type per id, which is not a constraint imposed
-// by the database. Should we reify this more formally?
+// instanceKey identifies an instance. An entity may have several instances of different types.
+type instanceKey struct {
+	id ID
+	// typ is the struct type
+	typ reflect.Type
+}
+
 type assembler struct {
 	// analyzer converts types to struct models
 	analyzer models.Analyzer
 	// snapshot holds the actual datums
 	snapshot Snapshot
 	// instances are pointers to fully realized entity instances
-	instances map[ID]reflect.Value
+	instances map[instanceKey]reflect.Value
 	// pointers are pointers to all of the at least partially realized entities allocated by the assembler
-	pointers map[ID]reflect.Value
+	pointers map[instanceKey]reflect.Value
 	// unprocessed are (not nil) pointers to unrealized entities
-	unprocessed map[ID]reflect.Value
+	unprocessed map[instanceKey]reflect.Value
 	// mapsAwaitingEntries are maps in entity struct fields awaiting referent entities to be realized
-	mapsAwaitingEntries map[ID][]mapAwaitingEntry
+	mapsAwaitingEntries map[instanceKey][]mapAwaitingEntry
 	// slicesAwaitingEntries are slices in entity struct fields awaiting referent entities to be realized
-	slicesAwaitingEntries map[ID][]sliceAwaitingEntry
+	slicesAwaitingEntries map[instanceKey][]sliceAwaitingEntry
 }
 
 func NewAssembler(analyzer models.Analyzer, snapshot Snapshot) (as *assembler) {
 	as = &assembler{
 		analyzer:              analyzer,
 		snapshot:              snapshot,
-		instances:             map[ID]reflect.Value{},
-		pointers:              map[ID]reflect.Value{},
-		unprocessed:           map[ID]reflect.Value{},
-		mapsAwaitingEntries:   map[ID][]mapAwaitingEntry{},
-		slicesAwaitingEntries: map[ID][]sliceAwaitingEntry{},
+		instances:             map[instanceKey]reflect.Value{},
+		pointers:              map[instanceKey]reflect.Value{},
+		unprocessed:           map[instanceKey]reflect.Value{},
+		mapsAwaitingEntries:   map[instanceKey][]mapAwaitingEntry{},
+		slicesAwaitingEntries: map[instanceKey][]sliceAwaitingEntry{},
 	}
 	return
 }
@@ -64,8 +69,9 @@ func (as *assembler) allocate(id ID, pointerType reflect.Type) (ptr reflect.Valu
 	// store the new struct in the new pointer
 	ptr.Set(entity)
 	// store the pointer in the unrealized entities map
-	as.unprocessed[id] = ptr
-	as.pointers[id] = ptr
+	key := instanceKey{id, entity.Type().Elem()}
+	as.unprocessed[key] = ptr
+	as.pointers[key] = ptr
 	return
 }
 
@@ -74,16 +80,16 @@ func (as *assembler) assembleAll() (err error) {
 		if len(as.unprocessed) == 0 {
 			break
 		}
-		var id ID
+		var key instanceKey
 		var ptr reflect.Value
 		// TODO this should ideally be the first value in id order, so, again, sorted map
 		for k, v := range as.unprocessed {
-			id = k
+			key = k
 			ptr = v
 			delete(as.unprocessed, k)
 			break
 		}
-		err = as.assemble(id, ptr)
+		err = as.assemble(key, ptr)
 		if err != nil {
 			return
 		}
@@ -93,16 +99,16 @@ func (as *assembler) assembleAll() (err error) {
 
 // realize assembles the entity if it is as yet unprocessed, so that its value is complete
 // when it is copied into a field, map or slice.
-func (as *assembler) realize(id ID) (err error) {
-	ptr, ok := as.unprocessed[id]
+func (as *assembler) realize(key instanceKey) (err error) {
+	ptr, ok := as.unprocessed[key]
 	if ok {
-		delete(as.unprocessed, id)
-		err = as.assemble(id, ptr)
+		delete(as.unprocessed, key)
+		err = as.assemble(key, ptr)
 	}
 	return
 }
 
-func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
+func (as *assembler) assemble(key instanceKey, ptr reflect.Value) (err error) {
 	value := ptr.Elem()
 
 	model, modelErr := as.analyzer.Analyze(value.Type())
@@ -114,7 +120,7 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	// We know the A's in which we're interested, so we could be more selective (heh) here
 	// if we had reason to believe the snapshot E had many more A's.
 	foundAny := false
-	for datum := range as.snapshot.Select(Claim{E: id}) {
+	for datum := range as.snapshot.Select(Claim{E: key.id}) {
 		foundAny = true
 		ident := as.snapshot.ResolveAttrIdent(datum.A)
 		attr, ok := model.Attr(ident)
@@ -146,7 +152,7 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 				fv := time.Time(v)
 				field.Set(reflect.ValueOf(&fv))
 			case ID:
-				pointer, ok := as.pointers[v]
+				pointer, ok := as.pointers[instanceKey{v, field.Type().Elem()}]
 				if ok {
 					field.Set(pointer)
 				} else {
@@ -188,17 +194,18 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if mapHasPointers {
 						mapValueType = mapValueType.Elem()
 					}
-					pointer, ok := as.pointers[v]
+					valueKey := instanceKey{v, mapValueType}
+					pointer, ok := as.pointers[valueKey]
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
 					if !mapHasPointers {
-						err = as.realize(v)
+						err = as.realize(valueKey)
 						if err != nil {
 							return
 						}
 					}
-					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, false)
+					as.addEntityToMap(attr.MapKey, m, valueKey, pointer, mapHasPointers, false)
 				case attr.IsSlice():
 					var slice reflect.Value
 					if field.IsNil() {
@@ -210,15 +217,16 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					}
 					if attr.CollValue == "" {
 						sliceValueType := slice.Type().Elem()
-						pointer, ok := as.pointers[v]
+						valueKey := instanceKey{v, sliceValueType}
+						pointer, ok := as.pointers[valueKey]
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
-						err = as.realize(v)
+						err = as.realize(valueKey)
 						if err != nil {
 							return
 						}
-						as.addEntityToSlice(attr.CollValue, slice, v, pointer, false)
+						as.addEntityToSlice(attr.CollValue, slice, valueKey, pointer, false)
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
@@ -229,13 +237,14 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						}
 					}
 				default:
-					pointer, ok := as.pointers[v]
+					valueKey := instanceKey{v, field.Type()}
+					pointer, ok := as.pointers[valueKey]
 					if !ok {
 						pointer = field.Addr()
-						as.pointers[v] = pointer
-						as.unprocessed[v] = pointer
+						as.pointers[valueKey] = pointer
+						as.unprocessed[valueKey] = pointer
 					}
-					err = as.realize(v)
+					err = as.realize(valueKey)
 					if err != nil {
 						return
 					}
@@ -250,29 +259,29 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 		}
 	}
 	if !foundAny {
-		as.instances[id] = reflect.ValueOf(nil)
+		as.instances[key] = reflect.ValueOf(nil)
 		return
 	}
 	attr, ok := model.Attr(Ident(sys.DbId))
 	if ok {
 		field := value.Field(attr.Index)
-		field.SetUint(uint64(id))
+		field.SetUint(uint64(key.id))
 	}
-	maes, ok := as.mapsAwaitingEntries[id]
+	maes, ok := as.mapsAwaitingEntries[key]
 	if ok {
 		for _, mae := range maes {
-			as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
+			as.addEntityToMap(mae.mapKey, mae.m, key, mae.pointer, mae.mapHasPointers, true)
 		}
-		delete(as.mapsAwaitingEntries, id)
+		delete(as.mapsAwaitingEntries, key)
 	}
-	saes, ok := as.slicesAwaitingEntries[id]
+	saes, ok := as.slicesAwaitingEntries[key]
 	if ok {
 		for _, sae := range saes {
-			as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+			as.addEntityToSlice(sae.collValue, sae.slice, key, sae.pointer, true)
 		}
-		delete(as.slicesAwaitingEntries, id)
+		delete(as.slicesAwaitingEntries, key)
 	}
-	as.instances[id] = ptr
+	as.instances[key] = ptr
 	return
 }
 
@@ -303,8 +312,8 @@ func (as *assembler) findValue(e ID, a Ident) (v any) {
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) {
-	instance, realized := as.instances[id]
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, valueKey instanceKey, pointer reflect.Value, mapHasPointers bool, immediate bool) {
+	instance, realized := as.instances[valueKey]
 	if realized && !instance.IsValid() {
 		// The entity has no datums.
 		return
@@ -314,7 +323,7 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 		// though is plausibly much less efficient when that is the case. It might be useful to optimize
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
 		// allows lookup by ident and use that to lookup the field value by index here.
-		key := as.findValue(id, mapKey)
+		key := as.findValue(valueKey.id, mapKey)
 		if key == nil {
 			return
 		}
@@ -326,35 +335,35 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 		return
 	}
 	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
-	maes, ok := as.mapsAwaitingEntries[id]
+	maes, ok := as.mapsAwaitingEntries[valueKey]
 	if !ok {
-		as.mapsAwaitingEntries[id] = []mapAwaitingEntry{mae}
+		as.mapsAwaitingEntries[valueKey] = []mapAwaitingEntry{mae}
 	} else {
 		maes = append(maes, mae)
-		as.mapsAwaitingEntries[id] = maes
+		as.mapsAwaitingEntries[valueKey] = maes
 	}
 }
 
-func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
-	instance, realized := as.instances[id]
+func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, valueKey instanceKey, pointer reflect.Value, immediate bool) {
+	instance, realized := as.instances[valueKey]
 	if realized && !instance.IsValid() {
 		// The entity has no datums.
 		return
 	}
 	if immediate || realized {
 		value := pointer.Elem()
-		index := as.findValue(id, Ident("sys/db/rank"))
+		index := as.findValue(valueKey.id, Ident("sys/db/rank"))
 		i := int(index.(int64))
 		slice.Index(i).Set(value)
 		return
 	}
 	sae := sliceAwaitingEntry{collValue, slice, pointer}
-	saes, ok := as.slicesAwaitingEntries[id]
+	saes, ok := as.slicesAwaitingEntries[valueKey]
 	if !ok {
-		as.slicesAwaitingEntries[id] = []sliceAwaitingEntry{sae}
+		as.slicesAwaitingEntries[valueKey] = []sliceAwaitingEntry{sae}
 	} else {
 		saes = append(saes, sae)
-		as.slicesAwaitingEntries[id] = saes
+		as.slicesAwaitingEntries[valueKey] = saes
 	}
 }
 
@@ -365,14 +374,15 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 		err = modelErr
 		return
 	}
-	instance, ok := as.instances[id]
+	key := instanceKey{id, structType}
+	instance, ok := as.instances[key]
 	if !ok {
 		as.allocate(id, reflect.TypeFor[*T]())
 		err = as.assembleAll()
 		if err != nil {
 			return
 		}
-		instance, ok = as.instances[id]
+		instance, ok = as.instances[key]
 		if !ok {
 			err = NewError("assembler.failure", "id", id)
 			return
@@ -382,9 +392,6 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 		return
 	}
 	// Pointers in the entity's graph that refer to it refer to this very instance.
-	entity, ok = instance.Interface().(*T)
-	if !ok {
-		err = NewError("assembler.typeConflictForID", "id", id, "extant", instance.Elem().Interface(), "type", structType)
-	}
+	entity = instance.Interface().(*T)
 	return
 }
-- 
2.43.0


From 7d616c5e21675f06ec7ec5d7a9e8f746c0bec348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 25/29] fix: find nothing by the zero id

---
 internal/structs/assemblers/assemblers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index f68c2bd..d5537f5 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -109,6 +109,11 @@ func (as *assembler) realize(key instanceKey) (err error) {
 }
 
 func (as *assembler) assemble(key instanceKey, ptr reflect.Value) (err error) {
+	if key.id == 0 {
+		// Zero is not a valid id, but selects every datum.
+		as.instances[key] = reflect.ValueOf(nil)
+		return
+	}
 	value := ptr.Elem()
 
 	model, modelErr := as.analyzer.Analyze(value.Type())
-- 
2.43.0


From adb9ce1ad0a9a7a3645d54ec96616dc61684313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 26/29] fix: reject or skip values that do not fit the struct
 instead of panicking

---
 internal/structs/assemblers/assemblers.go | 52 ++++++++++++++++++-----
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index d5537f5..65b4ea6 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -133,6 +133,10 @@ func (as *assembler) assemble(key instanceKey, ptr reflect.Value) (err error) {
 			// Here's where we could be accumulating stats of attr hit rates for e types, sort of.
 			continue
 		}
+		if !sys.ValidValue(attr.Type, datum.V) {
+			err = NewError("assembler.inconsistentType", "attr", attr, "datum", datum)
+			return
+		}
 		field := value.Field(attr.Index)
 		if attr.IsPointer() {
 			// Pointers to scalars point to copies of the datums' values.
@@ -235,10 +239,10 @@ func (as *assembler) assemble(key instanceKey, ptr reflect.Value) (err error) {
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
-						scalar := as.findValue(v, attr.CollValue)
-						rank, ok := as.findValue(v, Ident("sys/db/rank")).(int64)
-						if ok && scalar != nil {
-							slice.Index(int(rank)).Set(reflect.ValueOf(scalar).Convert(slice.Type().Elem()))
+						element, ok := as.findRanked(v, slice)
+						scalar, found := as.findScalar(v, attr.CollValue, slice.Type().Elem())
+						if ok && found {
+							element.Set(scalar)
 						}
 					}
 				default:
@@ -317,6 +321,32 @@ func (as *assembler) findValue(e ID, a Ident) (v any) {
 	return
 }
 
+// findScalar finds the value of the entity's attribute as a scalar of the given type, if it
+// has one that is convertible.
+func (as *assembler) findScalar(e ID, a Ident, typ reflect.Type) (scalar reflect.Value, ok bool) {
+	v := as.findValue(e, a)
+	if v == nil {
+		return
+	}
+	scalar = reflect.ValueOf(v)
+	// Integers would convert to strings, but as code points.
+	ok = scalar.CanConvert(typ) && (typ.Kind() != reflect.String || scalar.Kind() == reflect.String)
+	if ok {
+		scalar = scalar.Convert(typ)
+	}
+	return
+}
+
+// findRanked finds the element of the slice for the entity, if it has a rank therein.
+func (as *assembler) findRanked(e ID, slice reflect.Value) (element reflect.Value, ok bool) {
+	rank, ok := as.findValue(e, Ident("sys/db/rank")).(int64)
+	ok = ok && rank >= 0 && rank < int64(slice.Len())
+	if ok {
+		element = slice.Index(int(rank))
+	}
+	return
+}
+
 func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, valueKey instanceKey, pointer reflect.Value, mapHasPointers bool, immediate bool) {
 	instance, realized := as.instances[valueKey]
 	if realized && !instance.IsValid() {
@@ -328,15 +358,15 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, valueKey inst
 		// though is plausibly much less efficient when that is the case. It might be useful to optimize
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
 		// allows lookup by ident and use that to lookup the field value by index here.
-		key := as.findValue(valueKey.id, mapKey)
-		if key == nil {
+		key, ok := as.findScalar(valueKey.id, mapKey, m.Type().Key())
+		if !ok {
 			return
 		}
 		value := pointer
 		if !mapHasPointers {
 			value = pointer.Elem()
 		}
-		m.SetMapIndex(reflect.ValueOf(key).Convert(m.Type().Key()), value)
+		m.SetMapIndex(key, value)
 		return
 	}
 	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
@@ -356,10 +386,10 @@ func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, valu
 		return
 	}
 	if immediate || realized {
-		value := pointer.Elem()
-		index := as.findValue(valueKey.id, Ident("sys/db/rank"))
-		i := int(index.(int64))
-		slice.Index(i).Set(value)
+		element, ok := as.findRanked(valueKey.id, slice)
+		if ok {
+			element.Set(pointer.Elem())
+		}
 		return
 	}
 	sae := sliceAwaitingEntry{collValue, slice, pointer}
-- 
2.43.0


From cbb6ec75d604ee49bf4d86ee4bce345db17031f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:56 +0000
Subject: [PATCH 27/29] fix: reject a struct that contains itself through
 slices or maps instead of overflowing the stack

---
 internal/structs/shredder/shredder.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 41aa07d..e24eb12 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -40,6 +40,17 @@ type confetti struct {
 	pointers map[reflect.Value]TempID
 	// tempIDs are the registry of temp ids allocated by shredding the document.
 	tempIDs map[TempID]ID
+	// open are the collections whose elements are being shredded.
+	open map[collection]Void
+}
+
+// collection identifies a map or slice that is being shredded. If it is come upon again within
+// itself and no pointer to a struct was come upon in between, it has no end.
+type collection struct {
+	typ         reflect.Type
+	ptr         uintptr
+	len         int
+	numPointers int
 }
 
 func (s *shredder) nextTempID() TempID {
@@ -52,6 +63,7 @@ func (s *shredder) Shred(doc Document) (req Request, ids []ERef, err error) {
 	confetti := confetti{
 		tempIDs:  make(map[TempID]ID, len(doc.Assertions)),
 		pointers: make(map[reflect.Value]TempID, len(doc.Assertions)),
+		open:     map[collection]Void{},
 	}
 	ids = make([]ERef, 0, len(doc.Assertions))
 	// The likely size here is actually assertions*numFields
@@ -179,6 +191,12 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 			vref = v
 			// TODO idk if tempid constraints are legit or not
 		case values:
+			coll := collection{attr.FieldType, fieldValue.Pointer(), len(v), len(confetti.pointers)}
+			if _, ok := confetti.open[coll]; ok {
+				err = NewError("shredder.endlessStruct", "type", typ, "attr", attr.Ident)
+				return
+			}
+			confetti.open[coll] = Void{}
 			for i, vv := range v {
 				var refFieldClaims []Claim
 				if attr.CollValue != "" {
@@ -211,6 +229,7 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 					claims = append(claims, Claim{E: e, A: attr.Ident, V: vref})
 				}
 			}
+			delete(confetti.open, coll)
 			continue
 		default:
 			var refFieldClaims []Claim
-- 
2.43.0


From 9509b368b527057d1c813b4181f04dd8193ace51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:45 +0000
Subject: [PATCH 28/29] fix: reject retracting by an unexported field that
 cannot be read instead of panicking

---
 internal/structs/shredder/shredder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index e24eb12..c491e47 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -301,6 +301,14 @@ func (s *shredder) retract(confetti *confetti, x any) (retraction *Retraction, e
 		if attr.Unique == 0 {
 			continue
 		}
+		switch attr.FieldType.Kind() {
+		case reflect.Bool, reflect.Int, reflect.String, reflect.Float64:
+		default:
+			if !fieldValue.CanInterface() {
+				err = NewError("shredder.unexportedField", "type", typ, "ident", attr.Ident)
+				return
+			}
+		}
 		vref, fieldErr := getFieldValue(confetti.pointers, attr.FieldType, fieldValue)
 		if fieldErr != nil {
 			err = fieldErr
-- 
2.43.0


From 82c6c76185576b8b4115c57875358b86d39f3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:45 +0000
Subject: [PATCH 29/29] fix: reject instants that milliseconds cannot count
 instead of storing another

---
 internal/database/snapshot.go | 2 +-
 internal/sys/sys.go           | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 5bd2732..07f59ac 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -139,7 +139,7 @@ func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
-		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
+		return time.Time(ai).Unix() == time.Time(bi).Unix() && time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
 	af, aok := a.(Float)
 	bf, bok := b.(Float)
diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index bf4bb45..051b770 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -107,7 +107,10 @@ func ValidValue(typ ID, value Value) (ok bool) {
 	case AttrTypeBool:
 		_, ok = value.(Bool)
 	case AttrTypeInst:
-		_, ok = value.(Inst)
+		var inst Inst
+		inst, ok = value.(Inst)
+		// Instants are stored as a count of milliseconds, so one that overflows it cannot be.
+		ok = ok && time.UnixMilli(time.Time(inst).UnixMilli()).Unix() == time.Time(inst).Unix()
 	case AttrTypeFloat:
 		_, ok = value.(Float)
 	}
-- 
2.43.0

