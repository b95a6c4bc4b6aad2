From c50743d8c6faecd804e506371ba4a0020ab085a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 001/129] fix: refuse to add attributes to a group once storage
 is allocated

---
 base/dense.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index d3a87df..9b5b874 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -237,6 +237,11 @@ func (inst *DenseInstances) AddAttributeToAttributeGroup(newAttribute Attribute,
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	// The row layout can't change once storage has been allocated
+	if inst.fixed {
+		return AttributeSpec{-1, 0, nil}, fmt.Errorf("Can't add additional Attributes")
+	}
+
 	// Check if the ag exists
 	if _, ok := inst.agMap[ag]; !ok {
 		return AttributeSpec{-1, 0, nil}, fmt.Errorf("AttributeGroup '%s' doesn't exist. Call CreateAttributeGroup() first", ag)
-- 
2.43.0


From 9c447bf22e524e412b89603b4cc66d8a10e77c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 002/129] fix: row-mapped views iterate over the mapped rows

MapOverRows on a view made with NewInstancesViewFromRows visited the
source rows and ignored the row mapping.
---
 base/view.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/base/view.go b/base/view.go
index 99d59d8..23f2db3 100644
--- a/base/view.go
+++ b/base/view.go
@@ -221,6 +221,22 @@ func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, i
 			}
 		}
 		return nil
+	} else if v.rows != nil {
+		_, rows := v.Size()
+		rowBuf := make([][]byte, len(as))
+		for r := 0; r < rows; r++ {
+			for i, a := range as {
+				rowBuf[i] = v.Get(a, r)
+			}
+			ok, err := rowFunc(rowBuf, r)
+			if err != nil {
+				return err
+			}
+			if !ok {
+				break
+			}
+		}
+		return nil
 	} else {
 		return v.src.MapOverRows(as, rowFunc)
 	}
-- 
2.43.0


From d11623ee60337374c79f7abfc7ff8108ebf1c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 003/129] fix: match view class attributes by equality, not by
 pointer

---
 base/view.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/view.go b/base/view.go
index 23f2db3..084dbc7 100644
--- a/base/view.go
+++ b/base/view.go
@@ -161,6 +161,12 @@ func (v *InstancesView) AddClassAttribute(a Attribute) error {
 	if !matched {
 		return fmt.Errorf("Attribute has been filtered")
 	}
+	for b := range v.classAttrs {
+		if b.Equals(a) {
+			v.classAttrs[b] = true
+			return nil
+		}
+	}
 
 	v.classAttrs[a] = true
 	return nil
@@ -169,7 +175,11 @@ func (v *InstancesView) AddClassAttribute(a Attribute) error {
 // RemoveClassAttribute removes the given Attribute from the set of
 // class Attributes.
 func (v *InstancesView) RemoveClassAttribute(a Attribute) error {
-	v.classAttrs[a] = false
+	for b := range v.classAttrs {
+		if b.Equals(a) {
+			v.classAttrs[b] = false
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From dd8c0e1f2cfcbf8dd8128ed7d60826069f2286c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 004/129] fix: Mat64Instances.MapOverRows stops when the
 callback reports an error

---
 base/mat.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/mat.go b/base/mat.go
index f644cf3..11f35ff 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -99,9 +99,12 @@ func (m *Mat64Instances) MapOverRows(as []AttributeSpec, f func([][]byte, int) (
 			PackFloatToBytesInline(m.Data.At(i, as.position), rowData[j])
 		}
 		stat, err := f(rowData, i)
-		if !stat {
+		if err != nil {
 			return err
 		}
+		if !stat {
+			break
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 33cef9ac046f6bf278ce59c3d54d4bfe7b524b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 005/129] fix: pass unfiltered attributes through when
 iterating filtered rows

LazilyFilteredInstances.MapOverRows transformed attributes the filter was
never given, and attributes were looked up by pointer only.
---
 base/filtered.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 0d4f77f..e77d411 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -51,9 +51,22 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	return ret
 }
 
+// isUnfiltered tells whether an Attribute passes through the filter untouched.
+func (l *LazilyFilteredInstances) isUnfiltered(target Attribute) bool {
+	if unfiltered, ok := l.unfilteredMap[target]; ok {
+		return unfiltered
+	}
+	for a, unfiltered := range l.unfilteredMap {
+		if a.Equals(target) {
+			return unfiltered
+		}
+	}
+	return false
+}
+
 // GetAttribute returns an AttributeSpecification for a given Attribute
 func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec, error) {
-	if l.unfilteredMap[target] {
+	if l.isUnfiltered(target) {
 		return l.src.GetAttribute(target)
 	}
 	var ret AttributeSpec
@@ -73,7 +86,7 @@ func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec,
 func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
 	ret := make([]Attribute, 0)
 	for _, a := range l.src.AllAttributes() {
-		if l.unfilteredMap[a] {
+		if l.isUnfiltered(a) {
 			ret = append(ret, a)
 		} else {
 			for _, b := range l.attrs {
@@ -89,7 +102,7 @@ func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
 // AddClassAttribute adds a given Attribute (either before or after filtering)
 // to the set of defined class Attributes.
 func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
+	if l.isUnfiltered(cls) {
 		l.classAttrs[cls] = true
 		return nil
 	}
@@ -109,7 +122,7 @@ func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 // RemoveClassAttribute removes a given Attribute (either before or
 // after filtering) from the set of defined class Attributes.
 func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
+	if l.isUnfiltered(cls) {
 		l.classAttrs[cls] = false
 		return nil
 	}
@@ -138,7 +151,7 @@ func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 }
 
 func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, error) {
-	if l.unfilteredMap[as.GetAttribute()] {
+	if l.isUnfiltered(as.GetAttribute()) {
 		return as, nil
 	}
 	for _, a := range l.attrs {
@@ -160,7 +173,7 @@ func (l *LazilyFilteredInstances) Get(as AttributeSpec, row int) []byte {
 		panic(fmt.Sprintf("Attribute %s could not be resolved. (Error: %s)", as.String(), err.Error()))
 	}
 	byteSeq := l.src.Get(asOld, row)
-	if l.unfilteredMap[as.attr] {
+	if l.isUnfiltered(as.attr) {
 		return byteSeq
 	}
 	newByteSeq := l.filter.Transform(asOld.attr, as.attr, byteSeq)
@@ -174,18 +187,24 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	// Have to transform each item of asv into an
 	// AttributeSpec in the original
 	oldAsv := make([]AttributeSpec, len(asv))
+	unfiltered := make([]bool, len(asv))
 	for i, a := range asv {
 		old, err := l.transformNewToOldAttribute(a)
 		if err != nil {
 			return fmt.Errorf("Couldn't fetch old Attribute: '%s'", a.String())
 		}
 		oldAsv[i] = old
+		unfiltered[i] = l.isUnfiltered(a.attr)
 	}
 
 	// Then map over each row in the original
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
+			if unfiltered[i] {
+				newRowBuf[i] = b
+				continue
+			}
 			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
-- 
2.43.0


From 5109ccc143b400acf06ea3f2fdc8eefbd595be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 006/129] fix: match filtered attributes by equality

A filter applied to a grid holding equal but separately created attributes
(such as a test set loaded from another file) left them half-filtered.
---
 base/filtered.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/filtered.go b/base/filtered.go
index e77d411..7de14c2 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -30,6 +30,11 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	unFilteredMap := make(map[Attribute]bool)
 	for _, a := range src.AllAttributes() {
 		unFilteredMap[a] = true
+		for _, b := range attrs {
+			if b.Old.Equals(a) {
+				unFilteredMap[a] = false
+			}
+		}
 	}
 	for _, a := range attrs {
 		unFilteredMap[a.Old] = false
@@ -160,6 +165,8 @@ func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (
 			if err != nil {
 				return AttributeSpec{}, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
 			}
+			// The filter knows the Attribute it was trained with
+			as.attr = a.Old
 			return as, nil
 		}
 	}
-- 
2.43.0


From ac7f5d916ca982c416fe87e1148aca81cb3128ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 007/129] fix: LazilyFilteredInstances.Size counts the filtered
 attributes

---
 base/filtered.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 7de14c2..7ebb014 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -240,10 +240,11 @@ func (l *LazilyFilteredInstances) RowString(row int) string {
 	return buffer.String() // Return the result
 }
 
-// Size returns the number of Attributes and rows of the underlying
-// FixedDataGrid.
+// Size returns the number of Attributes after filtering and the number of
+// rows of the underlying FixedDataGrid.
 func (l *LazilyFilteredInstances) Size() (int, int) {
-	return l.src.Size()
+	_, rows := l.src.Size()
+	return len(l.AllAttributes()), rows
 }
 
 // String returns a human-readable summary of this FixedDataGrid
-- 
2.43.0


From e62abe907e6d6f13d25749baac11ed4d409c0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 008/129] fix: removing a filtered class attribute removes
 every attribute made from it

---
 base/filtered.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 7ebb014..ebed00e 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -131,13 +131,17 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 		l.classAttrs[cls] = false
 		return nil
 	}
+	matched := false
 	for _, a := range l.attrs {
 		if a.Old.Equals(cls) || a.New.Equals(cls) {
 			l.classAttrs[a.New] = false
-			return nil
+			matched = true
 		}
 	}
-	return fmt.Errorf("Attribute %s could not be resolved", cls)
+	if !matched {
+		return fmt.Errorf("Attribute %s could not be resolved", cls)
+	}
+	return nil
 }
 
 // AllClassAttributes returns details of all Attributes currently specified
-- 
2.43.0


From 7b150ceb9e1b83dfb700b96046ecfda22304f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 009/129] fix: class distributions count every row, not only
 the first

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2def385..ae29da7 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -146,7 +146,7 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 			ret[0]++
 		}
 
-		return false, nil
+		return true, nil
 	})
 
 	return ret
@@ -177,7 +177,7 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
 		index := UnpackBytesToU64(vals[0])
 		ret[int(index)]++
-		return false, nil
+		return true, nil
 	})
 
 	return ret
-- 
2.43.0


From 107d5246ff6157a1b53fc1acd05927393c15439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 010/129] fix: LazyShuffle produces a permutation

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index ae29da7..53d0e3e 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -402,8 +402,8 @@ func LazyShuffle(from FixedDataGrid) FixedDataGrid {
 	rowMap := make(map[int]int)
 	for i := 0; i < rows; i++ {
 		j := rand.Intn(i + 1)
-		rowMap[i] = j
-		rowMap[j] = i
+		rowMap[i] = i
+		rowMap[i], rowMap[j] = rowMap[j], rowMap[i]
 	}
 	return NewInstancesViewFromRows(from, rowMap)
 }
-- 
2.43.0


From 06697e4b76dfc9e4f3b3d8c0aa17fc4db5d78619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 011/129] fix: SampleWithReplacement returns only the sampled
 rows

---
 base/util_instances.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 53d0e3e..6ca6ff4 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -435,7 +435,9 @@ func SampleWithReplacement(from FixedDataGrid, size int) FixedDataGrid {
 		srcRow := rand.Intn(rows)
 		rowMap[i] = srcRow
 	}
-	return NewInstancesViewFromRows(from, rowMap)
+	ret := NewInstancesViewFromRows(from, rowMap)
+	ret.maskRows = true // only the sampled rows are visible
+	return ret
 }
 
 // CheckCompatible checks whether two DataGrids have the same Attributes
-- 
2.43.0


From 88a0ac4b5454a292b78c8781f3bd81408e34a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 012/129] fix: CheckStrictlyCompatible compares the number of
 attributes

---
 base/util_instances.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index 6ca6ff4..10e1ee9 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -492,6 +492,9 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 		ag2 := d2ags[a]
 		a1 := ag1.Attributes()
 		a2 := ag2.Attributes()
+		if len(a1) != len(a2) {
+			return false
+		}
 		for i := range a1 {
 			at1 := a1[i]
 			at2 := a2[i]
-- 
2.43.0


From d218a439564d3bb16db5d5ba3cb887386c50ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 013/129] fix: InstancesAreEqual compares with the other grid

---
 base/util_instances.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 10e1ee9..b433b91 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -510,26 +510,40 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 // InstancesAreEqual checks whether a given Instance set is exactly
 // the same as another (i.e. has the same size and values).
 func InstancesAreEqual(inst, other FixedDataGrid) bool {
-	_, rows := inst.Size()
+	cols, rows := inst.Size()
+	otherCols, otherRows := other.Size()
+	if cols != otherCols || rows != otherRows {
+		return false
+	}
 
 	for _, a := range inst.AllAttributes() {
 		as1, err := inst.GetAttribute(a)
 		if err != nil {
 			panic(err) // That indicates some kind of error
 		}
-		as2, err := inst.GetAttribute(a)
+		as2, err := other.GetAttribute(a)
 		if err != nil {
-			return false // Obviously has different Attributes
-		}
-
-		if !as1.GetAttribute().Equals(as2.GetAttribute()) {
-			return false
+			// The same column may number its categories differently
+			b := GetAttributeByName(other, a.GetName())
+			if b == nil || b.GetType() != a.GetType() {
+				return false // Obviously has different Attributes
+			}
+			as2, err = other.GetAttribute(b)
+			if err != nil {
+				return false
+			}
 		}
+		a2 := as2.GetAttribute()
+		sameStorage := as1.GetAttribute().Equals(a2)
 
 		for i := 0; i < rows; i++ {
 			b1 := inst.Get(as1, i)
-			b2 := inst.Get(as2, i)
-			if !byteSeqEqual(b1, b2) {
+			b2 := other.Get(as2, i)
+			if sameStorage {
+				if !byteSeqEqual(b1, b2) {
+					return false
+				}
+			} else if a.GetStringFromSysVal(b1) != a2.GetStringFromSysVal(b2) {
 				return false
 			}
 		}
-- 
2.43.0


From d4926332792e9223a5670f5d475c44829b928c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 014/129] fix: sort numbers numerically

Negative numbers sorted after positive ones in reverse order, and the lowest
byte of the last attribute was compared as signed.
---
 base/sort.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index 1cbfa57..c510132 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -3,12 +3,27 @@ package base
 import (
 	"bytes"
 	"encoding/binary"
+	"math"
 )
 
-func sortXorOp(b []byte) []byte {
+// sortKey returns a little-endian byte sequence which compares like the
+// value stored in b.
+func sortKey(a Attribute, b []byte) []byte {
 	ret := make([]byte, len(b))
 	copy(ret, b)
-	ret[0] ^= 0x80
+	if _, ok := a.(*FloatAttribute); ok {
+		val := UnpackBytesToFloat(b)
+		if val == 0 { // Positive and negative zero are equal
+			val = 0
+		}
+		bits := math.Float64bits(val)
+		if bits&(1<<63) != 0 {
+			bits = ^bits
+		} else {
+			bits |= 1 << 63
+		}
+		binary.LittleEndian.PutUint64(ret, bits)
+	}
 	return ret
 }
 
@@ -47,11 +62,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		byteBuf := make([]byte, rowSize)
 
 		for i, r := range row {
-			if i == 0 {
-				binary.Write(buf, binary.LittleEndian, sortXorOp(r))
-			} else {
-				binary.Write(buf, binary.LittleEndian, r)
-			}
+			binary.Write(buf, binary.LittleEndian, sortKey(attrs[i].GetAttribute(), r))
 		}
 
 		buf.Read(byteBuf)
-- 
2.43.0


From 4954b1b0f8c974f1de683dc8fb7fb2bc08ccb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 015/129] fix: bagged predictions no longer break ties by map
 iteration order

Predicting the same rows with the same models twice gave different answers.
---
 meta/bagging.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index f509463..acfaee6 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -98,8 +98,8 @@ func (b *BaggedModel) Fit(from base.FixedDataGrid) {
 // Predict gathers predictions from all the classifiers
 // and outputs the most common (majority) class
 //
-// IMPORTANT: in the event of a tie, the first class which
-// achieved the tie value is output.
+// IMPORTANT: in the event of a tie, the class which comes first
+// in alphabetical order is output.
 func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, error) {
 	n := runtime.NumCPU()
 	// Channel to receive the results as they come in
@@ -169,7 +169,7 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 		// Find the most popular class
 		for c := range voting[i] {
 			votes := voting[i][c]
-			if votes > maxCount {
+			if votes > maxCount || (votes == maxCount && c < maxClass) {
 				maxClass = c
 				maxCount = votes
 			}
-- 
2.43.0


From 748b9d05d5367e17e8fe979a67e24e36e3925596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 016/129] fix: tree predictions for unseen values no longer
 depend on map order

---
 trees/id3.go | 50 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 8574d48..fccd7eb 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -352,6 +352,28 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 }
 
+// nextNode returns the child for a given value of the split Attribute.
+// If that value wasn't seen in training, it's the child with the next
+// larger value, or the one with the largest.
+func (d *DecisionTreeNode) nextNode(val string) *DecisionTreeNode {
+	if next, ok := d.Children[val]; ok {
+		return next
+	}
+	keys := make([]string, 0, len(d.Children))
+	for c := range d.Children {
+		keys = append(keys, c)
+	}
+	sort.Strings(keys)
+	var bestChild string
+	for _, c := range keys {
+		bestChild = c
+		if c > val {
+			break
+		}
+	}
+	return d.Children[bestChild]
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
@@ -391,19 +413,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				} else {
 					classVar = ats.GetAttribute().GetStringFromSysVal(what.Get(ats, rowNo))
 				}
-				if next, ok := cur.Children[classVar]; ok {
-					cur = next
-				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
-				}
+				cur = cur.nextNode(classVar)
 			}
 		}
 		return true, nil
@@ -477,19 +487,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				} else {
 					classVar = ats.GetAttribute().GetStringFromSysVal(what.Get(ats, rowNo))
 				}
-				if next, ok := cur.Children[classVar]; ok {
-					cur = next
-				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
-				}
+				cur = cur.nextNode(classVar)
 			}
 		}
 		return true, nil
-- 
2.43.0


From 2419ccee9b7b617fe1e0901fea305b4962a5c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 017/129] fix: ID3DecisionTree.Save finishes the file it writes

---
 trees/id3.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index fccd7eb..b7ceafd 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -568,8 +568,11 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return t.SaveWithPrefix(writer, "")
+	err = t.SaveWithPrefix(writer, "")
+	if err != nil {
+		return err
+	}
+	return writer.Close()
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-- 
2.43.0


From 3630c507d81bc885a80fffe740f312ebab8f0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 018/129] fix: match class attributes of filtered grids by
 equality, not by pointer

---
 base/filtered.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/base/filtered.go b/base/filtered.go
index ebed00e..0775cac 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -108,6 +108,11 @@ func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
 // to the set of defined class Attributes.
 func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 	if l.isUnfiltered(cls) {
+		for a := range l.classAttrs {
+			if a.Equals(cls) {
+				cls = a
+			}
+		}
 		l.classAttrs[cls] = true
 		return nil
 	}
@@ -128,7 +133,11 @@ func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 // after filtering) from the set of defined class Attributes.
 func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 	if l.isUnfiltered(cls) {
-		l.classAttrs[cls] = false
+		for a := range l.classAttrs {
+			if a.Equals(cls) {
+				l.classAttrs[a] = false
+			}
+		}
 		return nil
 	}
 	matched := false
-- 
2.43.0


From d84626ee9ac771c7b42d1a7d299a7e5889e4698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 019/129] fix: deserialise categorical attributes without
 values

UnmarshalJSON panicked on a null or malformed value list, which is what an
attribute that was itself deserialised without values marshals to.
---
 base/categorical.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/categorical.go b/base/categorical.go
index ddcffb1..9d51b81 100644
--- a/base/categorical.go
+++ b/base/categorical.go
@@ -31,8 +31,19 @@ func (Attr *CategoricalAttribute) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	for _, v := range d["values"].([]interface{}) {
-		Attr.values = append(Attr.values, v.(string))
+	if d["values"] == nil {
+		return nil // Has no values (yet)
+	}
+	values, ok := d["values"].([]interface{})
+	if !ok {
+		return fmt.Errorf("Values must be a list")
+	}
+	for _, v := range values {
+		s, ok := v.(string)
+		if !ok {
+			return fmt.Errorf("Values must be strings")
+		}
+		Attr.values = append(Attr.values, s)
 	}
 	return nil
 }
-- 
2.43.0


From 54d83d156a00b37d104a9c0660db96bee36758ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 020/129] fix: estimate the precision of every number of a CSV
 line

The unescaped dot matched the separators, so in '1,2.55' the fraction of
the second number was never seen and the column printed as whole numbers.
---
 base/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/csv.go b/base/csv.go
index 93bb63d..c49b354 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -31,7 +31,7 @@ func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
 // digits occuring anywhere after the decimal point within the reader.
 func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	// Creat a basic regexp
-	rexp := regexp.MustCompile("[0-9]+(.[0-9]+)?")
+	rexp := regexp.MustCompile("[0-9]+(\\.[0-9]+)?")
 
 	// Scan through the file line-by-line
 	maxL := 0
-- 
2.43.0


From 2eacf7a2a42911948b8858f2a34439e555b03e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 021/129] fix: do not count the header as a row when parsing
 CSV into groups

---
 base/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index c49b354..88a9c7e 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -295,6 +295,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		return nil, err
 	}
 
+	if hasHeaders {
+		rowCount--
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From 94a4b8c95ebbcb060de723ee299f20cc69a2751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 022/129] fix: parsing CSV input without records does not panic

Empty input is an error, a header alone gives no rows.
---
 base/csv.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/base/csv.go b/base/csv.go
index 88a9c7e..180c039 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -114,16 +114,21 @@ func ParseCSVSniffAttributeTypesFromReader(r io.ReadSeeker, hasHeaders bool) []A
 	// Create the CSV reader
 	r.Seek(0, 0)
 	reader := csv.NewReader(r)
+	var headers []string
+	var err error
 	if hasHeaders {
 		// Skip the headers
-		_, err := reader.Read()
+		headers, err = reader.Read()
 		if err != nil {
 			panic(err)
 		}
 	}
 	// Read the first line of the file
 	columns, err := reader.Read()
-	if err != nil {
+	if err == io.EOF && hasHeaders {
+		// Nothing to determine the types from
+		columns = make([]string, len(headers))
+	} else if err != nil {
 		panic(err)
 	}
 
@@ -212,6 +217,9 @@ func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 0 || rowCount == 0 && !hasHeaders {
+		return nil, fmt.Errorf("CSV contains no records")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
@@ -260,6 +268,9 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 0 || rowCount == 0 && !hasHeaders {
+		return nil, fmt.Errorf("CSV contains no records")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
@@ -298,6 +309,9 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 0 || rowCount == 0 && !hasHeaders {
+		return nil, fmt.Errorf("CSV contains no records")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
-- 
2.43.0


From 5934e199a85414d08c22b1247fbcb8011bcb0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 023/129] fix: split ARFF categories at commas, not at blanks

'{a,b, c}' gave the categories 'a,b' and 'c', '{ a, b }' two empty ones.
---
 base/arff.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 996201b..251138d 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -146,23 +146,14 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		default:
 			if fields[2][0] == '{' {
 				if strings.HasSuffix(fields[len(fields)-1], "}") {
-					var cats []string
-					if len(fields) > 3 {
-						cats = fields[2:len(fields)]
-					} else {
-						cats = strings.Split(fields[2], ",")
-					}
-					if len(cats) == 0 {
+					list := strings.Join(fields[2:], " ")
+					list = strings.TrimSpace(list[1 : len(list)-1]) // Remove the brackets
+					if len(list) == 0 {
 						panic(fmt.Errorf("Empty categorical field on line '%s'", line))
 					}
-					cats[0] = cats[0][1:]                                            // Remove leading '{'
-					cats[len(cats)-1] = cats[len(cats)-1][:len(cats[len(cats)-1])-1] // Remove trailing '}'
-					for i, v := range cats {                                         // Miaow
+					cats := strings.Split(list, ",")
+					for i, v := range cats { // Miaow
 						cats[i] = strings.TrimSpace(v)
-						if strings.HasSuffix(cats[i], ",") {
-							// Strip end comma
-							cats[i] = cats[i][0 : len(cats[i])-1]
-						}
 					}
 					attr = NewCategoricalAttribute()
 					for _, v := range cats {
-- 
2.43.0


From c539b2c287753f3a3408cc8b7ca59ec279bf383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 024/129] fix: count the rows of an ARFF file the way they are
 read

Data rows starting with '@' and a '@data' line with trailing blanks were
read but not counted, so that reading ran past the allocated rows. Too long
lines and rows with too many values are errors.
---
 base/arff.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 251138d..6972bad 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -91,9 +91,6 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if counting {
-			if line[0] == '@' {
-				continue
-			}
 			if line[0] == '%' {
 				continue
 			}
@@ -101,13 +98,13 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if line[0] == '@' {
-			line = strings.ToLower(line)
+			line = strings.TrimSpace(strings.ToLower(line))
 			if line == "@data" {
 				counting = true
 			}
 		}
 	}
-	return count, nil
+	return count, scanner.Err()
 }
 
 // ParseARFFGetAttributes returns the set of Attributes represented in this ARFF
@@ -173,6 +170,9 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		attr.SetName(fields[1])
 		ret = append(ret, attr)
 	}
+	if err := scanner.Err(); err != nil {
+		panic(err)
+	}
 
 	maxPrecision, err := ParseCSVEstimateFilePrecision(filepath)
 	if err != nil {
@@ -217,6 +217,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 				} else if err != nil {
 					return err
 				}
+				if len(r) > len(specs) {
+					return fmt.Errorf("Too many values on line '%s'", line)
+				}
 				for i, v := range r {
 					v = strings.TrimSpace(v)
 					if a, ok := specs[i].attr.(*CategoricalAttribute); ok {
@@ -237,7 +240,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 // ParseDenseARFFToInstances parses the dense ARFF File into a FixedDataGrid
@@ -269,6 +272,9 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 	}
 
 	// Set the last Attribute as the class
+	if len(attrs) == 0 {
+		return nil, fmt.Errorf("No Attributes in %s", filepath)
+	}
 	ret.AddClassAttribute(attrs[len(attrs)-1])
 	ret.Extend(rows)
 
-- 
2.43.0


From 59a624e99f2989eca34577478adfe72e6597e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 025/129] fix: writing ARFF replaces the previous contents of
 the file

---
 base/arff.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 6972bad..2743575 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -31,14 +31,15 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
 
 	// Open output file
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-
-	return SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation)
-
+	err = SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
-- 
2.43.0


From a077669c649e55277230cede9c484626fca4327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 026/129] fix: saving instances replaces the previous contents
 of the file

The old tail of a longer file stayed behind. Errors when syncing and
closing are reported.
---
 base/serialize_instances.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 7239776..8baadb7 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -12,34 +12,37 @@ import (
 )
 
 func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
 	err = SerializeInstances(inst, f)
 	if err != nil {
+		f.Close()
 		return err
 	}
 	err = f.Sync()
 	if err != nil {
+		f.Close()
 		return fmt.Errorf("Couldn't flush file: %s", err)
 	}
-	f.Close()
-	return nil
+	return f.Close()
 }
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
 func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-	defer func() {
-		f.Sync()
-		f.Close()
-	}()
-
-	return SerializeInstancesToCSVStream(inst, f)
+	err = SerializeInstancesToCSVStream(inst, f)
+	if syncErr := f.Sync(); err == nil {
+		err = syncErr
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SerializeInstancesToCSVStream outputs a FixedDataGrid into a CSV file format, via the io.Writer stream.
-- 
2.43.0


From 6359dfb653580b5ab96d705c942697f34d7d6424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 027/129] fix: report write errors when serialising to CSV

---
 base/serialize_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 8baadb7..ecbe5b8 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -77,7 +77,7 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	})
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
 
 // DeserializeInstancesFromTarReader returns DenseInstances from a FunctionalTarReader with the name prefix.
-- 
2.43.0


From 473725e6555b7b085707c34654bad1c79a892442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 028/129] fix: report write errors when serialising to ARFF

---
 base/arff.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 2743575..0487abf 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -43,8 +43,11 @@ func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []
 }
 
 func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
+	// Collects the first write error
+	out := bufio.NewWriter(w)
+
 	// Write @relation header
-	fmt.Fprintf(w, "@relation %s\n\n", relation)
+	fmt.Fprintf(out, "@relation %s\n\n", relation)
 
 	// Get all Attribute specifications
 	attrs := ResolveAttributes(inst, rawAttrs)
@@ -57,21 +60,21 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 			vals := a.GetValues()
 			t = fmt.Sprintf("{%s}", strings.Join(vals, ", "))
 		}
-		fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t)
+		fmt.Fprintf(out, "@attribute %s %s\n", attr.GetName(), t)
 	}
-	fmt.Fprint(w, "\n@data\n")
+	fmt.Fprint(out, "\n@data\n")
 
 	buf := make([]string, len(attrs))
 	inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
-		fmt.Fprint(w, strings.Join(buf, ","))
-		fmt.Fprint(w, "\n")
+		fmt.Fprint(out, strings.Join(buf, ","))
+		fmt.Fprint(out, "\n")
 		return true, nil
 	})
 
-	return nil
+	return out.Flush()
 }
 
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
-- 
2.43.0


From 3498ee582c030dff019311b8fdb3efa300db2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 029/129] fix: restore instances whatever sizes the reader
 delivers

A short read in the middle of a cell was reported as a damaged file.
---
 base/serialize_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index ecbe5b8..4027543 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -169,7 +169,7 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 	for i := 0; i < rowCount; i++ {
 		for j, s := range specs {
 			r := ret.Get(s, i)
-			n, err := reader.Read(r)
+			n, err := io.ReadFull(reader, r)
 			if n != len(r) {
 				return nil, WrapError(fmt.Errorf("Expected %d bytes (read %d) on row %d", len(r), n, i))
 			}
-- 
2.43.0


From b0b6458949acbd3bbc1fe7b479b4853eaa78f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 030/129] fix: verify the checksum when restoring instances

Files cut off after the data section, or with changed bytes, were accepted.
---
 base/serialize_instances.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 4027543..48db276 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -6,6 +6,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"reflect"
 	"runtime"
@@ -214,6 +215,12 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 	tr := NewFunctionalTarReader(regenerateTarReader)
 
 	ret, deSerializeErr := DeserializeInstancesFromTarReader(tr, "")
+	if deSerializeErr == nil {
+		// Read the rest, so that the checksum is verified
+		if _, err = io.Copy(ioutil.Discard, gzReader); err != nil {
+			return nil, fmt.Errorf("Error reading gzip stream: %s", err)
+		}
+	}
 
 	if err = gzReader.Close(); err != nil {
 		return ret, fmt.Errorf("Error closing gzip stream: %s", err)
-- 
2.43.0


From 998024e4b5c3887fcfd5eaf4efbdefdd86e05fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 031/129] fix: refuse classifier files which are cut off or
 damaged

---
 base/serialize.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 5cf7ebe..54165e4 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -137,6 +137,12 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 
 	tz := NewFunctionalTarReader(regenerateFunc)
 
+	// Check that the file is complete and undamaged
+	if _, err := io.Copy(ioutil.Discard, gzr); err != nil {
+		f.Close()
+		return nil, DescribeError("Can't decompress", err)
+	}
+
 	// Check that the serialization format is right
 	// Retrieve the MANIFEST and verify
 	manifestBytes, err := tz.GetNamedFile("CLS_MANIFEST")
-- 
2.43.0


From b4805d23556adbd4bb5e13daff39077a86054764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 032/129] fix: report flush and sync errors when saving a
 classifier

---
 base/serialize.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index 54165e4..8dabcb7 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -314,9 +314,15 @@ func (c *ClassifierSerializer) WriteBytesForKey(key string, b []byte) error {
 		return fmt.Errorf("Could not write data for '%s': %s", key, err)
 	}
 
-	c.tarWriter.Flush()
-	c.gzipWriter.Flush()
-	c.fileWriter.Sync()
+	if err := c.tarWriter.Flush(); err != nil {
+		return fmt.Errorf("Could not flush tar for '%s': %s", key, err)
+	}
+	if err := c.gzipWriter.Flush(); err != nil {
+		return fmt.Errorf("Could not flush gz for '%s': %s", key, err)
+	}
+	if err := c.fileWriter.Sync(); err != nil {
+		return fmt.Errorf("Could not sync file for '%s': %s", key, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 9e4aee4c8df09ec7901c449bc97972598ffe30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 033/129] fix: storing only the structure of instances leaves a
 readable file

The header announced the data which was left out, so every following entry
of the archive failed.
---
 base/serialize_instances.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 48db276..d75044f 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -280,6 +280,9 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// Now write the dimensions of the dataset
 	attrCount, rowCount := inst.Size()
+	if !includeData {
+		rowCount = 0
+	}
 	hdr = &tar.Header{
 		Name: p("DIMS"),
 		Size: 16,
@@ -319,12 +322,14 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// First, estimate the amount of data we'll need...
 	dataLength := int64(0)
-	inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
-		for _, v := range val {
-			dataLength += int64(len(v))
-		}
-		return true, nil
-	})
+	if includeData {
+		inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
+			for _, v := range val {
+				dataLength += int64(len(v))
+			}
+			return true, nil
+		})
+	}
 
 	// Then write the header
 	hdr = &tar.Header{
-- 
2.43.0


From 3ea765c61a0884f3b5486dd3873aede2beea83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 034/129] fix: check a saved grid's checksum before trusting
 its sizes

---
 base/serialize_instances.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index d75044f..c7e300f 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -212,15 +212,14 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 		return tr
 	}
 
+	// Verify the checksum first: nothing in a damaged stream can be trusted
+	if _, err = io.Copy(ioutil.Discard, gzReader); err != nil {
+		return nil, fmt.Errorf("Error reading gzip stream: %s", err)
+	}
+
 	tr := NewFunctionalTarReader(regenerateTarReader)
 
 	ret, deSerializeErr := DeserializeInstancesFromTarReader(tr, "")
-	if deSerializeErr == nil {
-		// Read the rest, so that the checksum is verified
-		if _, err = io.Copy(ioutil.Discard, gzReader); err != nil {
-			return nil, fmt.Errorf("Error reading gzip stream: %s", err)
-		}
-	}
 
 	if err = gzReader.Close(); err != nil {
 		return ret, fmt.Errorf("Error closing gzip stream: %s", err)
-- 
2.43.0


From 6eb67aa2657de7f645d2e8e8a693e50fc7daf38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 035/129] fix: KNN classifiers can be saved inside ensembles

---
 knn/knn.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 0ce44fa..badee6d 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -349,18 +349,22 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return KNN.SaveWithPrefix(writer, "")
+	err = KNN.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
-	if err != nil {
-		return err
+	if prefix != "" {
+		// Save only describes the outermost classifier
+		if err := writer.WriteMetadataAtPrefix(prefix, KNN.GetMetadata()); err != nil {
+			return err
+		}
 	}
-	err = writer.Close()
-	return err
+	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
 // Load reloads a given KNN classifier when it's the only thing in the output file.
@@ -370,6 +374,8 @@ func (KNN *KNNClassifier) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	return KNN.LoadWithPrefix(reader, "")
 }
 
-- 
2.43.0


From ce929fad26e649a3434395b3658dd429eaf14479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 036/129] fix: loading a KNN classifier from another
 classifier's file is an error

---
 knn/knn.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index badee6d..221211b 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -395,14 +395,19 @@ func (KNN *KNNClassifier) LoadWithPrefix(reader *base.ClassifierDeserializer, pr
 	}
 
 	metadata := clsMetadata.ClassifierMetadata
-	KNN.DistanceFunc = metadata["distance_func"].(string)
-	KNN.Algorithm = metadata["algorithm"].(string)
-	//KNN.NearestNeighbours = metadata["neighbours"].(int)
-	KNN.Weighted = metadata["weighted"].(bool)
-	KNN.AllowOptimisations = metadata["allow_optimizations"].(bool)
-
+	distanceFunc, okD := metadata["distance_func"].(string)
+	algorithm, okA := metadata["algorithm"].(string)
+	weighted, okW := metadata["weighted"].(bool)
+	allowOptimisations, okO := metadata["allow_optimizations"].(bool)
 	// 101 on why JSON is a bad serialization format
-	floatNeighbours := metadata["neighbours"].(float64)
+	floatNeighbours, okN := metadata["neighbours"].(float64)
+	if !okD || !okA || !okW || !okO || !okN {
+		return fmt.Errorf("This file doesn't contain a KNN classifier")
+	}
+	KNN.DistanceFunc = distanceFunc
+	KNN.Algorithm = algorithm
+	KNN.Weighted = weighted
+	KNN.AllowOptimisations = allowOptimisations
 	KNN.NearestNeighbours = int(floatNeighbours)
 
 	KNN.TrainingData, err = reader.GetInstancesForKey(reader.Prefix(prefix, "TrainingInstances"))
-- 
2.43.0


From dfdb54bf791e654e9853ed0b9df4e0281a9f5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 037/129] fix: ties between KNN classes no longer depend on map
 order

---
 knn/knn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 221211b..f87361f 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -289,7 +289,8 @@ func (KNN *KNNClassifier) vote(maxmap map[string]int, values []int) string {
 	var maxClass string
 	maxVal := -1
 	for a := range maxmap {
-		if maxmap[a] > maxVal {
+		// ties are resolved alphabetically
+		if maxmap[a] > maxVal || (maxmap[a] == maxVal && a < maxClass) {
 			maxVal = maxmap[a]
 			maxClass = a
 		}
@@ -317,7 +318,8 @@ func (KNN *KNNClassifier) weightedVote(maxmap map[string]float64, values []int,
 	var maxClass string
 	maxVal := -1.0
 	for a := range maxmap {
-		if maxmap[a] > maxVal {
+		// ties are resolved alphabetically
+		if maxmap[a] > maxVal || (maxmap[a] == maxVal && a < maxClass) {
 			maxVal = maxmap[a]
 			maxClass = a
 		}
-- 
2.43.0


From 497c6855bffe94f2204149a9b9e8bbff42cc4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 038/129] fix: ties between naive Bayes classes no longer
 depend on map order

---
 naive/bernoulli_nb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 767a90a..ae81c39 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -305,7 +305,8 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 			}
 		}
 
-		if classScore > bestScore {
+		// ties are resolved alphabetically
+		if classScore > bestScore || (classScore == bestScore && class < bestClass) {
 			bestScore = classScore
 			bestClass = class
 		}
-- 
2.43.0


From 322a162fcae97f8cc5f889fc5e1d584c0373ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 039/129] fix: random trees report failed saves and refuse
 other classifiers' files

---
 trees/random.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/trees/random.go b/trees/random.go
index c5b44ed..7a72e0a 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -95,10 +95,11 @@ func (rt *RandomTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	return rt.SaveWithPrefix(writer, "")
+	err = rt.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs this model to a file with a prefix.
@@ -112,6 +113,11 @@ func (rt *RandomTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
+	// Earlier versions called random trees "KNN"
+	if name := reader.Metadata.ClassifierName; name != "RandomTree" && name != "KNN" {
+		return fmt.Errorf("This file doesn't contain a RandomTree: %s", name)
+	}
 	return rt.LoadWithPrefix(reader, "")
 }
 
@@ -125,7 +131,7 @@ func (rt *RandomTree) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 func (rt *RandomTree) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "RandomTree",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
-- 
2.43.0


From 6df468157e2e6b9b3d84158b8a1b3fe7a6a24731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 040/129] fix: decision trees refuse other classifiers' files

---
 trees/id3.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index b7ceafd..a45c7a8 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -128,10 +128,10 @@ func (d *DecisionTreeNode) Save(filePath string) error {
 		return err
 	}
 	err = d.SaveWithPrefix(serializer, "")
-	if err != nil {
-		return err
+	if closeErr := serializer.Close(); err == nil {
+		err = closeErr
 	}
-	return serializer.Close()
+	return err
 }
 
 func (d *DecisionTreeNode) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -160,6 +160,10 @@ func (d *DecisionTreeNode) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+	if name := reader.Metadata.ClassifierName; name != "test" {
+		return fmt.Errorf("This file doesn't contain a DecisionTreeNode: %s", name)
+	}
 	return d.LoadWithPrefix(reader, "")
 }
 
@@ -569,10 +573,10 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 		return err
 	}
 	err = t.SaveWithPrefix(writer, "")
-	if err != nil {
-		return err
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
 	}
-	return writer.Close()
+	return err
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -584,6 +588,10 @@ func (t *ID3DecisionTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
+	if name := reader.Metadata.ClassifierName; name != "ID3" {
+		return fmt.Errorf("This file doesn't contain an ID3 tree: %s", name)
+	}
 	return t.LoadWithPrefix(reader, "")
 }
 
-- 
2.43.0


From 5bc6b36666a047e7f25dee00e19d9046aa7b7720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 041/129] fix: one-vs-all models can be saved inside other
 models

---
 meta/one_v_all.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index e6a7e6f..9338fb5 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -254,7 +254,11 @@ func (m *OneVsAllModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	return m.SaveWithPrefix(writer, "")
+	err = m.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -324,7 +328,7 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		}
 	}
 
-	return writer.Close()
+	return nil
 }
 
 func (m *OneVsAllModel) generateAttributes(from base.FixedDataGrid) map[base.Attribute]base.Attribute {
-- 
2.43.0


From c5ba5b704a033593cdf7c95e94e940c34df600fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 042/129] fix: report errors when finishing a saved bagged
 model

---
 meta/bagging.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index acfaee6..e5ae3a4 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -207,7 +207,9 @@ func (b *BaggedModel) Save(filePath string) error {
 		return err
 	}
 	err = b.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
-- 
2.43.0


From 053e7c5506748ff7c9fc2a30757b005f6e121258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 043/129] fix: report errors when finishing a saved random
 forest

---
 ensemble/randomforest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 0d9492a..8c5516d 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -78,7 +78,9 @@ func (f *RandomForest) Save(filePath string) error {
 	}
 
 	err = f.SaveWithPrefix(writer, "model")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
@@ -91,6 +93,7 @@ func (f *RandomForest) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
 	return f.LoadWithPrefix(reader, "model")
 }
 
-- 
2.43.0


From 6d69c98b0267c8add3e8b9ef01c7feb4b7b8085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 044/129] fix: report errors when finishing a saved multi-class
 SVC

---
 ensemble/multisvc.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 2f29780..7193562 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -98,11 +98,13 @@ func (m *MultiLinearSVC) Save(filePath string) error {
 		return err
 	}
 	err = m.SaveWithPrefix(serializer, "")
+	if closeErr := serializer.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		return fmt.Errorf("Unable to Save(): %v", err)
 	}
-	serializer.Close()
-	return err
+	return nil
 }
 
 func (m *MultiLinearSVC) SaveWithPrefix(serializer *base.ClassifierSerializer, prefix string) error {
@@ -142,6 +144,8 @@ func (m *MultiLinearSVC) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	err = m.LoadWithPrefix(reader, "")
 	if err != nil {
 		return err
-- 
2.43.0


From 9141887ffbab997c4209bc6abb6683273bdd9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 045/129] fix: report errors when finishing a saved naive Bayes
 classifier

---
 naive/bernoulli_nb.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index ae81c39..28c250a 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -75,7 +75,9 @@ func (nb *BernoulliNBClassifier) Save(filePath string) error {
 		return err
 	}
 	err = nb.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
@@ -85,6 +87,8 @@ func (nb *BernoulliNBClassifier) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	return nb.LoadWithPrefix(reader, "")
 }
 
-- 
2.43.0


From 2791a064cb26f85780eb3f524a443ad28089cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 046/129] fix: linear SVCs report failed saves and leave no
 temporary files

---
 linear_models/linearsvc.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 6166198..635683a 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -241,11 +241,11 @@ func (lr *LinearSVC) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	fmt.Printf("writer: %v", writer)
-	return lr.SaveWithPrefix(writer, "")
+	err = lr.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -266,6 +266,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	err = Export(lr.model, f.Name())
@@ -283,7 +284,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model parameters", err)
 	}
-	writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
+	err = writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
@@ -315,11 +316,18 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	}
 
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
+	if err != nil {
+		return base.DescribeError("Unable to reload the model", err)
+	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
-	f.WriteAt(modelBytes, 0)
+	_, err = f.WriteAt(modelBytes, 0)
+	if err != nil {
+		return base.DescribeError("Unable to reload the model", err)
+	}
 
 	lr.model = &Model{}
 
-- 
2.43.0


From a5627cb657a7e14b4f6ef410a686837aed40e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 047/129] fix: refuse to load part of a bagged model

---
 meta/bagging.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/meta/bagging.go b/meta/bagging.go
index e5ae3a4..85072c0 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -308,6 +308,15 @@ func (b *BaggedModel) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 
 	b.RandomFeatures = int(randomFeatures)
 
+	// The models which were added must be those which were saved
+	numClassifiers, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+	if numClassifiers != uint64(len(b.Models)) {
+		return fmt.Errorf("File contains %d classifiers, have %d", numClassifiers, len(b.Models))
+	}
+
 	// Reload the classifiers
 	for i, m := range b.Models {
 		clsPrefix := fmt.Sprintf("%s/", pI("CLASSIFIERS", i))
-- 
2.43.0


From 5ca24934a2e76455481f2c5de896e6ec484d13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 048/129] fix: a reloaded random forest has all the trees that
 were saved

---
 ensemble/randomforest.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 8c5516d..305bea9 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -98,11 +98,20 @@ func (f *RandomForest) Load(filePath string) error {
 }
 
 func (f *RandomForest) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
+	forestSize, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read the number of trees", err)
+	}
+	f.ForestSize = int(forestSize)
 	f.Model = new(meta.BaggedModel)
 	for i := 0; i < f.ForestSize; i++ {
 		tree := trees.NewID3DecisionTree(0.00)
 		f.Model.AddModel(tree)
 	}
 
-	return f.Model.LoadWithPrefix(reader, prefix)
+	err = f.Model.LoadWithPrefix(reader, prefix)
+	if err == nil {
+		f.Features = f.Model.RandomFeatures
+	}
+	return err
 }
-- 
2.43.0


From cff532f33185a2346a0a8d9a25c7fe2ed20d1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 049/129] fix: naive Bayes can be trained on classes without
 any feature

---
 naive/bernoulli_nb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 28c250a..b4c6661 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -255,8 +255,10 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	for c, _ := range nb.classInstances {
 		nb.condProb[c] = make([]float64, nb.features)
 		for feat := 0; feat < nb.features; feat++ {
-			classTerms, _ := docsContainingTerm[c]
-			numDocs := classTerms[feat]
+			numDocs := 0
+			if classTerms, ok := docsContainingTerm[c]; ok {
+				numDocs = classTerms[feat]
+			}
 			docsInClass, _ := nb.classInstances[c]
 
 			classCondProb, _ := nb.condProb[c]
-- 
2.43.0


From 05d308310d992814139153abc3875d7f036eeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 050/129] fix: training naive Bayes again forgets the previous
 classes

---
 naive/bernoulli_nb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index b4c6661..d5ae1e7 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -252,6 +252,7 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	})
 
 	// Pre-calculate conditional probabilities for each class
+	nb.condProb = make(map[string][]float64)
 	for c, _ := range nb.classInstances {
 		nb.condProb[c] = make([]float64, nb.features)
 		for feat := 0; feat < nb.features; feat++ {
-- 
2.43.0


From ce12cd8c9f939f4fb78face40af8f5b4ff0d0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 051/129] fix: SortIntMap orders equal values by key, not by
 map order

---
 utilities/utilities.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/utilities.go b/utilities/utilities.go
index d2a9c35..5f0462d 100644
--- a/utilities/utilities.go
+++ b/utilities/utilities.go
@@ -17,6 +17,10 @@ func (sm *sortedIntMap) Len() int {
 }
 
 func (sm *sortedIntMap) Less(i, j int) bool {
+	if sm.m[sm.s[i]] == sm.m[sm.s[j]] {
+		// equal values come in the order of their keys
+		return sm.s[i] < sm.s[j]
+	}
 	return sm.m[sm.s[i]] < sm.m[sm.s[j]]
 }
 
-- 
2.43.0


From a49631cbb6d243d0f9aeefa11278d59c61bb5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 052/129] fix: compute the Gini impurity from the class counts

---
 trees/gini.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/trees/gini.go b/trees/gini.go
index 23b1569..c411cd8 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -70,19 +70,20 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 
 // computeGini computes the Gini impurity measure
 func computeGini(s map[string]int) float64 {
-	// Compute probability map
-	p := make(map[string]float64)
+	total := 0
 	for i := range s {
-		if p[i] == 0 {
-			continue
-		}
-		p[i] = 1.0 / float64(p[i])
+		total += s[i]
 	}
-	// Compute overall sum
-	sum := 0.0
-	for i := range p {
-		sum += p[i] * p[i]
+	if total == 0 {
+		return 0.0
+	}
+	// Compute the sum of the squared probabilities (as an integer,
+	// so that the result doesn't depend on the order)
+	squares := 0
+	for i := range s {
+		squares += s[i] * s[i]
 	}
+	sum := float64(squares) / float64(total) / float64(total)
 
 	return 1.0 - sum
 }
-- 
2.43.0


From 4707fe5411c0a20ec9a7cbb068b12e17b3ea86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 053/129] fix: the Gini rule never splits a constant numeric
 attribute

---
 trees/gini.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trees/gini.go b/trees/gini.go
index c411cd8..ab7d1a4 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -49,6 +49,10 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 		var splitVal float64
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			_, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitVal, 1) {
+				// All the values are the same
+				continue
+			}
 			proposedDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
 			proposedDist = base.GetClassDistributionAfterSplit(f, s)
-- 
2.43.0


From d1ff8ed34e74c0053eb269e3580edcba196c3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 054/129] fix: decision trees use the last remaining attribute

---
 trees/id3.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index a45c7a8..6cfe02a 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -226,8 +226,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 
 	// If there are no more Attributes left to split on,
 	// return a DecisionTreeLeaf with the majority class
-	cols, _ := from.Size()
-	if cols == 2 {
+	if len(base.NonClassAttributes(from)) == 0 {
 		ret := &DecisionTreeNode{
 			LeafNode,
 			nil,
-- 
2.43.0


From 3f04b0c5c9bcc0862cd52b1075f7cf393843e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 055/129] fix: random trees stop drawing when every attribute
 is considered

---
 trees/random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trees/random.go b/trees/random.go
index 7a72e0a..1b9030e 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -24,7 +24,7 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 
 	attrCounter := 0
 	for {
-		if len(consideredAttributes) >= r.Attributes {
+		if len(consideredAttributes) >= r.Attributes || len(consideredAttributes) >= maximumAttribute {
 			break
 		}
 		selectedAttrIndex := rand.Intn(maximumAttribute)
-- 
2.43.0


From eff367e44a0098311635db529bb19154cdcee7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 056/129] fix: the gain ratio divides by the split information

---
 trees/gr.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/trees/gr.go b/trees/gr.go
index 46577f5..124d67e 100644
--- a/trees/gr.go
+++ b/trees/gr.go
@@ -56,14 +56,25 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 		var informationGain float64
 		var localEntropy float64
 		var splitVal float64
+		var proposedClassDist map[string]map[string]int
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			localEntropy, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitVal, 1) {
+				// All the values are the same
+				continue
+			}
+			proposedClassDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
-			proposedClassDist := base.GetClassDistributionAfterSplit(f, s)
+			proposedClassDist = base.GetClassDistributionAfterSplit(f, s)
 			localEntropy = getSplitEntropy(proposedClassDist)
 		}
+		splitInformation := getSplitInformation(proposedClassDist)
+		if splitInformation == 0 {
+			// Every row has the same value
+			continue
+		}
 		informationGain = baseEntropy - localEntropy
-		informationGainRatio := informationGain / localEntropy
+		informationGainRatio := informationGain / splitInformation
 		if informationGainRatio > maxRatio {
 			maxRatio = informationGainRatio
 			selectedAttribute = s
@@ -74,3 +85,18 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 	// Pick the one which maximises IG
 	return &DecisionTreeRule{selectedAttribute, selectedVal}
 }
+
+// getSplitInformation returns the entropy of the sizes of the branches of a
+// proposed split (the denominator of the gain ratio)
+func getSplitInformation(s map[string]map[string]int) float64 {
+	sizes := make(map[string]int)
+	for a := range s {
+		for c := range s[a] {
+			sizes[a] += s[a][c]
+		}
+	}
+	if len(sizes) < 2 {
+		return 0
+	}
+	return getBaseEntropy(sizes)
+}
-- 
2.43.0


From d278ac471e9b476916e2a3c0e96269a0fdf1ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 057/129] fix: consider every threshold between neighbouring
 values in numeric splits

---
 trees/entropy.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index faa6613..932bc73 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -122,8 +122,6 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 
 	minSplitEntropy := math.Inf(1)
 	minSplitVal := math.Inf(1)
-	prevVal := math.NaN()
-	prevInd := 0
 
 	splitDist := [2][]int{make([]int, numClasses), make([]int, numClasses)}
 	// Before first split all refs are not smaller than val
@@ -132,22 +130,17 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 	}
 
 	// Consider each possible function
-	for i := 0; i < len(refs)-1; {
-		val := refs[i].val + refs[i+1].val
-		val /= 2
-		if val == prevVal {
-			i++
+	for i := 0; i < len(refs)-1; i++ {
+		// refs is sorted, so each row moves to the left of the
+		// split once the next value is considered
+		splitDist[0][refs[i].class]++
+		splitDist[1][refs[i].class]--
+		if refs[i].val == refs[i+1].val {
+			// no threshold separates equal values
 			continue
 		}
-		// refs is sorted, so we only need to update values that are
-		// bigger than prevVal, but are lower than val
-		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
-			splitDist[0][refs[j].class]++
-			splitDist[1][refs[j].class]--
-			i++
-			prevInd++
-		}
-		prevVal = val
+		val := refs[i].val + refs[i+1].val
+		val /= 2
 		splitEntropy := getSplitEntropyFast(splitDist)
 		if splitEntropy < minSplitEntropy {
 			minSplitEntropy = splitEntropy
-- 
2.43.0


From 592ad6249369946f4f437961205e7784c2110040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 058/129] fix: prune each child of a decision tree on the rows
 that reach it

---
 trees/id3.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 6cfe02a..9ad67c9 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -325,17 +325,21 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 		return
 	}
 
-	// Recursively prune children of this node
-	sub := base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
-	for k := range d.Children {
-		if sub[k] == nil {
-			continue
-		}
-		subH, subV := sub[k].Size()
-		if subH == 0 || subV == 0 {
-			continue
-		}
-		d.Children[k].Prune(sub[k])
+	// Without any rows, there's nothing to judge by
+	if _, rows := using.Size(); rows == 0 {
+		return
+	}
+
+	// Recursively prune children of this node, each with
+	// the rows for which Predict goes there
+	sub := make(map[*DecisionTreeNode][]int)
+	_, rows := using.Size()
+	for i := 0; i < rows; i++ {
+		next := d.nextNodeForRow(using, i)
+		sub[next] = append(sub[next], i)
+	}
+	for next := range sub {
+		next.Prune(base.NewInstancesViewFromVisible(using, sub[next], using.AllAttributes()))
 	}
 
 	// Get a baseline accuracy
@@ -377,6 +381,22 @@ func (d *DecisionTreeNode) nextNode(val string) *DecisionTreeNode {
 	return d.Children[bestChild]
 }
 
+// nextNodeForRow returns the child which row rowNo of what goes to.
+func (d *DecisionTreeNode) nextNodeForRow(what base.FixedDataGrid, rowNo int) *DecisionTreeNode {
+	ats, err := what.GetAttribute(d.SplitRule.SplitAttr)
+	if err != nil {
+		panic(err)
+	}
+	val := what.Get(ats, rowNo)
+	if _, ok := ats.GetAttribute().(*base.FloatAttribute); ok {
+		if base.UnpackBytesToFloat(val) > d.SplitRule.SplitVal {
+			return d.nextNode("1")
+		}
+		return d.nextNode("0")
+	}
+	return d.nextNode(ats.GetAttribute().GetStringFromSysVal(val))
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
-- 
2.43.0


From 1b6b3b794fe8f8dc68872577a619460f34c656d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 059/129] fix: ID3 reports an empty training split instead of
 crashing

---
 trees/id3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index 9ad67c9..e4d84d3 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -559,6 +559,9 @@ func NewID3DecisionTreeFromRule(prune float64, rule RuleGenerator) *ID3DecisionT
 func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
 	if t.PruneSplit > 0.001 {
 		trainData, testData := base.InstancesTrainTestSplit(on, t.PruneSplit)
+		if _, rows := trainData.Size(); rows == 0 {
+			return fmt.Errorf("No rows are left for training after holding back a pruning set")
+		}
 		t.Root = InferID3Tree(trainData, t.Rule)
 		t.Root.Prune(testData)
 	} else {
-- 
2.43.0


From 67b8387bd9b04f5634ad77d73c4c14161f858953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 060/129] fix: evaluation counts classes which were predicted
 but never occur

---
 evaluation/confusion.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index eb71faf..18a6585 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"sort"
 	"text/tabwriter"
 
 	"github.com/sjwhitworth/golearn/base"
@@ -37,6 +38,24 @@ func GetConfusionMatrix(ref base.FixedDataGrid, gen base.FixedDataGrid) (map[str
 	return ret, nil
 }
 
+// allClasses returns every class of a given ConfusionMatrix in order,
+// including those which were predicted, but never occur.
+func allClasses(c ConfusionMatrix) []string {
+	seen := make(map[string]bool)
+	for k := range c {
+		seen[k] = true
+		for l := range c[k] {
+			seen[l] = true
+		}
+	}
+	ret := make([]string, 0, len(seen))
+	for k := range seen {
+		ret = append(ret, k)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 // GetTruePositives returns the number of times an entry is
 // predicted successfully in a given ConfusionMatrix.
 func GetTruePositives(class string, c ConfusionMatrix) float64 {
@@ -134,7 +153,7 @@ func GetAccuracy(c ConfusionMatrix) float64 {
 func GetMicroPrecision(c ConfusionMatrix) float64 {
 	truePositives := 0.0
 	falsePositives := 0.0
-	for k := range c {
+	for _, k := range allClasses(c) {
 		truePositives += GetTruePositives(k, c)
 		falsePositives += GetFalsePositives(k, c)
 	}
@@ -145,10 +164,11 @@ func GetMicroPrecision(c ConfusionMatrix) float64 {
 // classes by averaging the precision measures achieved for each class.
 func GetMacroPrecision(c ConfusionMatrix) float64 {
 	precisionVals := 0.0
-	for k := range c {
+	classes := allClasses(c)
+	for _, k := range classes {
 		precisionVals += GetPrecision(k, c)
 	}
-	return precisionVals / float64(len(c))
+	return precisionVals / float64(len(classes))
 }
 
 // GetMicroRecall assesses Classifier performance across all
@@ -183,7 +203,7 @@ func GetSummary(c ConfusionMatrix) string {
 
 	fmt.Fprintln(w, "Reference Class\tTrue Positives\tFalse Positives\tTrue Negatives\tPrecision\tRecall\tF1 Score")
 	fmt.Fprintln(w, "---------------\t--------------\t---------------\t--------------\t---------\t------\t--------")
-	for k := range c {
+	for _, k := range allClasses(c) {
 		tp := GetTruePositives(k, c)
 		fp := GetFalsePositives(k, c)
 		tn := GetTrueNegatives(k, c)
@@ -206,11 +226,10 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 	w := new(tabwriter.Writer)
 	w.Init(&buffer, 0, 8, 0, '\t', 0)
 
-	ref := make([]string, 0)
+	ref := allClasses(c)
 	fmt.Fprintf(w, "Reference Class\t")
-	for k := range c {
+	for _, k := range ref {
 		fmt.Fprintf(w, "%s\t", k)
-		ref = append(ref, k)
 	}
 	fmt.Fprintf(w, "\n")
 
-- 
2.43.0


From 24760ecb1bb691ce17141e838110b5e8977a3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 061/129] fix: weighted KNN doesn't use the unweighted
 optimisation

---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index f87361f..42161a2 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -126,7 +126,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Use optimised version if permitted
-	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
+	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
 			if KNN.canUseOptimisations(what) {
 				return KNN.optimisedEuclideanPredict(what.(*base.DenseInstances)), nil
-- 
2.43.0


From a9fd068bce89293d1c5ea2736f202a1106019b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 062/129] fix: KNN never measures distances by the class it
 predicts

---
 knn/knn.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 42161a2..cbee6c0 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -134,20 +134,15 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
-	// Remove the Attributes which aren't numeric
+	// Remove the Attributes which aren't numeric, and those
+	// which we are trying to predict
 	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
+	for _, a := range base.AttributeDifference(allAttrs, what.AllClassAttributes()) {
 		if fAttr, ok := a.(*base.FloatAttribute); ok {
 			allNumericAttrs = append(allNumericAttrs, fAttr)
 		}
 	}
 
-	// If every Attribute is a FloatAttribute, then we remove the last one
-	// because that is the Attribute we are trying to predict.
-	if len(allNumericAttrs) == len(allAttrs) {
-		allNumericAttrs = allNumericAttrs[:len(allNumericAttrs)-1]
-	}
-
 	// Generate return vector
 	ret := base.GeneratePredictionVector(what)
 
-- 
2.43.0


From bfa9c8eb584888978d04a5de48fd0181ff5ea92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 063/129] fix: KNN reports when there are fewer rows than
 neighbours

---
 knn/knn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index cbee6c0..db23b14 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -125,6 +125,12 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("attributes not compatible")
 	}
 
+	// Check that there are enough neighbours
+	_, trainRows := KNN.TrainingData.Size()
+	if KNN.NearestNeighbours > trainRows {
+		return nil, fmt.Errorf("%d neighbours requested, but there are %d training rows", KNN.NearestNeighbours, trainRows)
+	}
+
 	// Use optimised version if permitted
 	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
@@ -187,7 +193,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Iterate over all outer rows
-	what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
+	err := what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
 
 		if (curRow%1) == 0 && curRow > 0 {
 			fmt.Printf("KNN: %.2f %% done\r", float64(curRow)*100.0/float64(maxRow))
@@ -256,6 +262,9 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return true, nil
 
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
-- 
2.43.0


From 6e312c2302a88cc81f641f004daeb4b8ca1a62a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 064/129] fix: optimised KNN compares distances in double
 precision

---
 knn/knn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.h b/knn/knn.h
index e785b99..99c67b5 100644
--- a/knn/knn.h
+++ b/knn/knn.h
@@ -4,7 +4,7 @@
 #include <stdint.h>
 
 struct dist {
-    float dist;
+    double dist;
     uint32_t p;
 };
 
-- 
2.43.0


From dcd71422bcd6b9ec0d4f00399f8a434509fa55c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 065/129] fix: optimised KNN can predict grids without rows

---
 knn/knn_opt_euclidean.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index a6b159c..9d5d36e 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -38,6 +38,11 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 		}
 		counter++
 	}
+	// Without any rows, there's no storage to point to
+	_, predRows := d.Size()
+	if predRows == 0 {
+		return ret
+	}
 	// Pointers to the start of each prediction row
 	rowPointers := make([]*C.double, len(agPred))
 	trainPointers := make([]*C.double, len(agPred))
@@ -50,7 +55,6 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 			rowSizes[ap] = agPred[ag].RowSizeInBytes() / 8
 		}
 	}
-	_, predRows := d.Size()
 	_, trainRows := tr.Size()
 	// Crete the distance vector
 	distanceVec := distanceRecs(make([]C.struct_dist, trainRows))
-- 
2.43.0


From 8bf8ea60667cb4832e352533ab1ca07790022f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 066/129] fix: k-d tree search never returns a node without a
 point

---
 kdtree/kdtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 6bddbe8..3b3347c 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -192,6 +192,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 }
 
 func (t *Tree) searchAllNodes(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
+	if n.feature == -2 {
+		return
+	}
+
 	vectorX := mat.NewDense(len(target), 1, target)
 	vectorY := mat.NewDense(len(target), 1, n.value)
 	length := disType.Distance(vectorX, vectorY)
-- 
2.43.0


From 0a61218536c1385bffc09c16c5919d7f4ccd0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 067/129] fix: k-d tree search with cosine distance considers
 every branch

---
 kdtree/kdtree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 3b3347c..5cf0008 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -181,7 +181,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 		vectorY = mat.NewDense(1, 1, []float64{n.value[n.feature]})
 		length = disType.Distance(vectorX, vectorY)
 
-		if h.maximum().length > length {
+		// The distance along one feature doesn't limit the angle
+		// between points
+		_, isCosine := disType.(*pairwise.Cosine)
+		if isCosine || h.maximum().length > length {
 			if dir {
 				t.searchAllNodes(k, disType, target, h, n.right)
 			} else {
-- 
2.43.0


From c9d4d3ce5490b09813538b79d7fe624d49b0e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 068/129] fix: cosine distances are never negative

---
 metrics/pairwise/cosine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics/pairwise/cosine.go b/metrics/pairwise/cosine.go
index 08b9ca1..63dfd0f 100644
--- a/metrics/pairwise/cosine.go
+++ b/metrics/pairwise/cosine.go
@@ -30,5 +30,6 @@ func (c *Cosine) Distance(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
 
 	cos := dotXY / (lengthX * lengthY)
 
-	return 1 - cos
+	// Rounding may leave slightly more than 1
+	return math.Max(0, 1-cos)
 }
-- 
2.43.0


From 5e4405e9b8b709f31090e9028771074b69546164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 069/129] fix: polynomial kernels use every element of row
 vectors

---
 metrics/pairwise/poly_kernel.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics/pairwise/poly_kernel.go b/metrics/pairwise/poly_kernel.go
index ce3d6ec..7a09e7a 100644
--- a/metrics/pairwise/poly_kernel.go
+++ b/metrics/pairwise/poly_kernel.go
@@ -18,9 +18,9 @@ func NewPolyKernel(degree int) *PolyKernel {
 // InnerProduct computes the inner product through a kernel trick
 // K(x, y) = (x^T y + 1)^d
 func (p *PolyKernel) InnerProduct(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
-	subVectorX := vectorX.ColView(0)
-	subVectorY := vectorY.ColView(0)
-	result := mat.Dot(subVectorX, subVectorY)
+	subVector := new(mat.Dense)
+	subVector.MulElem(vectorX, vectorY)
+	result := mat.Sum(subVector)
 	result = math.Pow(result+1, float64(p.degree))
 
 	return result
-- 
2.43.0


From caf4ef12bec7fcb60c8d3de95f40f6073f0cd1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 070/129] fix: cluster maps with other points are not equal

---
 clustering/clustering.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustering/clustering.go b/clustering/clustering.go
index 3636d5b..58e5c2d 100644
--- a/clustering/clustering.go
+++ b/clustering/clustering.go
@@ -80,6 +80,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	// Check that after transformation, key contains the same points
 	arraysEqual := func(a1, a2 []int) bool {
 
+		if len(a1) != len(a2) {
+			return false
+		}
+
 		cnt := make(map[int]bool)
 		for _, a := range a1 {
 			cnt[a] = true
@@ -96,6 +100,9 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	}
 	newMap := ClusterMap(make(map[int][]int))
 	for cOld := range other {
+		if len(other[cOld]) == 0 {
+			continue
+		}
 		cNew := clusterIdMap[cOld]
 		if !arraysEqual(ref[cNew], other[cOld]) {
 			return false, fmt.Errorf("Re-labelled cluster %d => %d doesn't contain the same points (%d, %d)", cOld, cNew, ref[cNew], other[cOld])
-- 
2.43.0


From c4f737460bcad6489cbcf859bf41480229238ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 071/129] fix: DBSCAN adds the border points it visited first
 and doesn't crash on their neighbours

---
 clustering/dbscan.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 82861f1..8fb1823 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -96,8 +96,6 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 					neighbours = neighbours.Or(neighbours, newNeighbours)
 					reset = true
 				}
-			} else {
-				continue
 			}
 			if clustered.Bit(i) == 0 {
 				clusterMap[c] = append(clusterMap[c], i)
@@ -118,8 +116,7 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		neighbours := big.NewInt(0)
 		neighbours = regionQuery(i, neighbours, dist, params.Eps)
 		if BitCount(neighbours) < params.MinCount {
-			// Noise, cluster 0
-			clustered = clustered.Or(clustered, neighbours)
+			// Noise, unless a core point turns out to be near
 			continue
 		}
 		c = c + 1 // Increment cluster count
-- 
2.43.0


From b2ed1664614cd01d86e2114a165124df1fe46907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 072/129] fix: DBSCAN looks at the first row again when a
 cluster grows

---
 clustering/dbscan.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 8fb1823..3c05d8b 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -102,7 +102,8 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 				clustered = clustered.SetBit(clustered, i, 1)
 			}
 			if reset {
-				i = 0
+				// Start over with the first row
+				i = -1
 			}
 		}
 	}
-- 
2.43.0


From 550a0eedc6bc3d7d6e3c1b3eb70a3d9e5ca4c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 073/129] fix: DBSCAN keeps clusters which share border points
 with others

---
 clustering/dbscan.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 3c05d8b..5f7cb0b 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -124,18 +124,6 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		expandCluster(i, neighbours, c)
 	}
 
-	// Remove anything from the map which doesn't make
-	// minimum points
-	rmKeys := make([]int, 0)
-	for id := range clusterMap {
-		if len(clusterMap[id]) < params.MinCount {
-			rmKeys = append(rmKeys, id)
-		}
-	}
-	for _, r := range rmKeys {
-		delete(clusterMap, r)
-	}
-
 	return ClusterMap(clusterMap), nil
 }
 
-- 
2.43.0


From abd29cea2151e2d34edc469fde0c85be58199cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:02 +0000
Subject: [PATCH 074/129] fix: mixture components without any rows no longer
 crash the fit

---
 clustering/em.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustering/em.go b/clustering/em.go
index 70894df..6f60563 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -313,6 +313,9 @@ func where(X *mat.Dense, y mat.Vector, target int) *mat.Dense {
 			rows++
 		}
 	}
+	if rows == 0 {
+		return &mat.Dense{}
+	}
 	X_i := mat.NewDense(rows, n_feats, result)
 	return X_i
 }
-- 
2.43.0


From 09624fb351bcfa1cc24a91abaef508eb56771984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:02 +0000
Subject: [PATCH 075/129] fix: mixture models predict grids without rows

---
 clustering/em.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustering/em.go b/clustering/em.go
index 6f60563..b965468 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -93,6 +93,9 @@ func (em *ExpectationMaximization) Predict(inst base.FixedDataGrid) (ClusterMap,
 
 	_, n_obs := inst.Size()
 	n_feats := len(em.attrs)
+	if n_obs == 0 {
+		return ClusterMap{}, nil
+	}
 
 	// Numeric attrs
 	attrSpecs := base.ResolveAttributes(inst, em.attrs)
-- 
2.43.0


From b81b622e3f67bfa3a1fe62972debe6ae4c125cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:02 +0000
Subject: [PATCH 076/129] fix: mixture components on a line or point no longer
 crash the fit

---
 clustering/em.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/clustering/em.go b/clustering/em.go
index b965468..a662a7a 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -16,6 +16,9 @@ var (
 	InsufficientDataError       = errors.New("Estimation requires n_obs >= n_comps")
 )
 
+// Covariance matrices of a larger condition number count as singular
+const maxCovarianceCondition = 1e12
+
 type ExpectationMaximization struct {
 	n_comps int
 	eps     float64
@@ -153,6 +156,13 @@ func maximization(X *mat.Dense, y mat.Vector, p Params, n_comps int) Params {
 			stat.CovarianceMatrix(covs_k_reg, X_yk, nil)
 		}
 
+		// A singular matrix isn't a covariance of any component: keep
+		// the previous one
+		var chol mat.Cholesky
+		if ok := chol.Factorize(covs_k_reg); !ok || chol.Cond() > maxCovarianceCondition {
+			covs_k_reg = p.Covs[k]
+		}
+
 		p_new.Covs[k] = covs_k_reg
 	}
 
-- 
2.43.0


From 9ef6885582494c6316a3587b762ed1b8447af907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 077/129] fix: mixture models only use numeric attributes

---
 clustering/em.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/em.go b/clustering/em.go
index a662a7a..c35c972 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -44,7 +44,7 @@ func NewExpectationMaximization(n_comps int) (*ExpectationMaximization, error) {
 // Fit method - generates the component parameters (means and covariance matrices)
 func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 	// Numeric Attrs
-	attrs := base.NonClassAttributes(inst)
+	attrs := base.NonClassFloatAttributes(inst)
 	attrSpecs := base.ResolveAttributes(inst, attrs)
 
 	_, n_obs := inst.Size()
-- 
2.43.0


From bc76d984878a448e8f02e8aab9c14b453a6836e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 078/129] fix: PCA no longer centres the caller's matrix in
 place

Fit subtracted the column means from the matrix it was given, and Transform
relied on that; it now centres a copy with the means seen by Fit.
---
 pca/pca.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pca/pca.go b/pca/pca.go
index c6c6837..3118114 100644
--- a/pca/pca.go
+++ b/pca/pca.go
@@ -8,6 +8,7 @@ import (
 type PCA struct {
 	Num_components int
 	svd            *mat.SVD
+	mean           *mat.Dense
 }
 
 // Number of components. 0 - by default, use number of features as number of components
@@ -25,7 +26,8 @@ func (pca *PCA) FitTransform(X *mat.Dense) *mat.Dense {
 func (pca *PCA) Fit(X *mat.Dense) *PCA {
 	// Mean to input data
 	M := mean(X)
-	X = matrixSubVector(X, M)
+	X = matrixSubVector(mat.DenseCopyOf(X), M)
+	pca.mean = M
 
 	// Get SVD decomposition from data
 	pca.svd = &mat.SVD{}
@@ -48,6 +50,8 @@ func (pca *PCA) Transform(X *mat.Dense) *mat.Dense {
 
 	num_samples, num_features := X.Dims()
 
+	X = matrixSubVector(mat.DenseCopyOf(X), pca.mean)
+
 	vTemp := new(mat.Dense)
 	pca.svd.VTo(vTemp)
 	//Compute to full data
-- 
2.43.0


From 19864d295c141a4d85889e6ef0e9314bf9bcab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 079/129] fix: perceptron writes negative labels to their own
 row

Every row with a negative score reset the label of row 1.
---
 perceptron/average.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index b4d0249..25786e9 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -132,7 +132,7 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		if result > 0.0 {
 			ret.Set(classSpec, i, base.PackU64ToBytes(1))
 		} else {
-			ret.Set(classSpec, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0})
+			ret.Set(classSpec, i, []byte{0, 0, 0, 0, 0, 0, 0, 0})
 		}
 	}
 
-- 
2.43.0


From ff5621fd3191d9be90ce28a500cb72ad827bf82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 080/129] fix: the averaged perceptron learns from the class of
 each row

Training compared every score with 0 whatever the class of the row, replaced
the weights instead of adding to them, and added a count to them instead of
averaging. Rows are now expected on the side of their class, mistakes move the
weights, and the weights used to predict are the mean over all rows presented.
---
 perceptron/average.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index 25786e9..e808763 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -21,6 +21,7 @@ type AveragePerceptron struct {
 
 type instance struct {
 	class    string
+	expected float64 // 1 for the class which is stored as 1, else -1
 	features []float64
 }
 
@@ -32,23 +33,20 @@ func (p *AveragePerceptron) updateWeights(features []float64, correction float64
 		fv := &features[i]
 		if fv != nil {
 			update := p.learningRate * correction * *fv
-			p.weights[i] = update
-			p.edges[i]++
+			p.weights[i] += update
 		}
 	}
-
-	p.average()
 }
 
+// average replaces the weights by their mean over all the rows presented
 func (p *AveragePerceptron) average() {
 
-	for i, fcount := range p.edges {
-		wv := &p.weights[i]
-		if wv != nil {
-			p.weights[i] = (p.count**wv + fcount) / (fcount + 1)
-		}
+	if p.count == 0 {
+		return
+	}
+	for i, total := range p.edges {
+		p.weights[i] = total / p.count
 	}
-	p.count++
 }
 
 func (p *AveragePerceptron) score(datum instance) float64 {
@@ -72,16 +70,21 @@ func (p *AveragePerceptron) Fit(trainingData base.FixedDataGrid) {
 	learning := true
 
 	data := processData(trainingData)
+	p.edges, p.count = make([]float64, len(p.weights)), 0
 	for learning {
 		for _, datum := range data {
 			response := p.score(datum)
-			expected := 0.0
+			expected := datum.expected
 			correction := expected - response
 
 			if expected != response {
 				p.updateWeights(datum.features, correction)
 				p.trainError += math.Abs(correction)
 			}
+			for i, w := range p.weights {
+				p.edges[i] += w
+			}
+			p.count++
 		}
 
 		epochs++
@@ -166,6 +169,11 @@ func processData(x base.FixedDataGrid) instances {
 		panic("Wrong class Attribute type!")
 	}
 
+	classSpec, err := x.GetAttribute(classAttr)
+	if err != nil {
+		panic(err)
+	}
+
 	// Convert each row
 	x.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		// Allocate a new row
@@ -178,7 +186,11 @@ func processData(x base.FixedDataGrid) instances {
 
 		// Get the class for the values
 		class := base.GetClass(x, rowNo)
-		instance := instance{class, probRow}
+		expected := -1.0
+		if x.Get(classSpec, rowNo)[0] == 1 {
+			expected = 1.0
+		}
+		instance := instance{class, expected, probRow}
 		result[rowNo] = instance
 		return true, nil
 	})
-- 
2.43.0


From 2de8a36b093040d880c1e2bae7f12bee21eed418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 081/129] fix: the perceptron pairs its weights with the
 attributes it was trained on

Predicting a grid whose columns come in another order multiplied the weights
with the wrong columns.
---
 perceptron/average.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index e808763..15f89e5 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -107,8 +107,6 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		panic("Cannot call Predict on an untrained AveragePerceptron")
 	}
 
-	data := processData(what)
-
 	allAttrs := base.CheckCompatible(what, p.TrainingData)
 	if allAttrs == nil {
 		// Don't have the same Attributes
@@ -123,6 +121,9 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		}
 	}
 
+	// Read the features in the order they were trained in
+	data := processAttributes(what, base.NonClassFloatAttributes(p.TrainingData))
+
 	ret := base.GeneratePredictionVector(what)
 	classAttr := ret.AllClassAttributes()[0]
 	classSpec, err := ret.GetAttribute(classAttr)
@@ -143,12 +144,15 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 }
 
 func processData(x base.FixedDataGrid) instances {
+	// Retrieve numeric non-class Attributes
+	return processAttributes(x, base.NonClassFloatAttributes(x))
+}
+
+func processAttributes(x base.FixedDataGrid, numericAttrs []base.Attribute) instances {
 	_, rows := x.Size()
 
 	result := make(instances, rows)
 
-	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(x)
 	numericAttrSpecs := base.ResolveAttributes(x, numericAttrs)
 
 	// Retrieve class Attributes
-- 
2.43.0


From 13614326565e1ea988a514c4e7030ca7ce963472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 082/129] fix: the perceptron uses the learning rate and
 threshold it is given

The constructor's arguments were shifted by one field: the learning rate became
the threshold, and the training error became the learning rate.
---
 perceptron/average.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index 15f89e5..89bd0dc 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -206,7 +206,7 @@ func NewAveragePerceptron(features int, learningRate float64, startingThreshold
 	weights := make([]float64, features)
 	edges := make([]float64, features)
 
-	p := AveragePerceptron{nil, weights, edges, startingThreshold, learningRate, trainError, 0.0, false, 0}
+	p := AveragePerceptron{nil, weights, edges, 0.0, startingThreshold, learningRate, trainError, false, 0}
 
 	return &p
 }
-- 
2.43.0


From dd069f89e21c288e5b589dd8e48ed15fecc08674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:58 +0000
Subject: [PATCH 083/129] fix: importing a data frame keeps all digits of its
 numbers

Numbers were rounded to six decimals on their way.
---
 base/dataframe_go.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index b5a186f..40603ef 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"fmt"
 	"reflect"
 	"strconv"
 
@@ -53,9 +52,9 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 			case int64:
 				val = strconv.FormatInt(v, 10)
 			case float64:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(float64(v), 'g', -1, 64)
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0


From 4d984495eed55907560ef7482f221bc61b636d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:58 +0000
Subject: [PATCH 084/129] fix: data frames with missing values or no rows can
 be imported

The type of a column was taken from its first value, which may be missing, and
missing numbers could not be parsed; they are now NaN.
---
 base/dataframe_go.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index 40603ef..0fb32a3 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -19,7 +19,15 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 
 	for i := range names {
 		col := df.Series[i]
-		if reflect.TypeOf(col.Value(0)).Kind() == reflect.String {
+		isString := col.Type() == "string"
+		for row := 0; row < df.NRows(); row++ {
+			// Missing values are nil, and don't tell the type
+			if v := col.Value(row); v != nil {
+				isString = reflect.TypeOf(v).Kind() == reflect.String
+				break
+			}
+		}
+		if isString {
 			attrs[i] = new(CategoricalAttribute)
 			attrs[i].SetName(names[i])
 		} else {
@@ -46,6 +54,9 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 			col := df.Series[j]
 
 			var val string
+			if _, ok := attrs[j].(*FloatAttribute); ok {
+				val = "NaN"
+			}
 			switch v := col.Value(i).(type) {
 			case string:
 				val = v
-- 
2.43.0


From 3787927ff4fa2bcbce9f957b69db431efb390fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 085/129] fix: negative numbers are non-zero when converted to
 binary

The documented conversion is 0 if the value is 0, and 1 if it is not.
---
 filters/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/binary.go b/filters/binary.go
index 291ac7d..de95b09 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -93,7 +93,7 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 	} else if _, ok := a.(*base.FloatAttribute); ok {
 		// Float: check for non-zero
 		val := base.UnpackBytesToFloat(attrBytes)
-		if val > 0 {
+		if val != 0 {
 			ret[0] = 1
 		} else {
 			ret[0] = 0
-- 
2.43.0


From f30fe583dcd6d2931784ffd1528b4a33f8306560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 086/129] fix: binning gives values above the training data the
 last category

They got categories that don't exist (or an undefined one if all training values
were equal).
---
 filters/binning.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filters/binning.go b/filters/binning.go
index fb9ebf6..a120401 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -91,7 +91,9 @@ func (b *BinningFilter) Transform(a base.Attribute, n base.Attribute, field []by
 	if val <= minVal {
 		disc = 0
 	} else {
-		disc = int(math.Floor(float64(float64(val-minVal)/delta + 0.0001)))
+		// Values above the training data belong to the last category
+		pos := math.Floor(float64(float64(val-minVal)/delta + 0.0001))
+		disc = int(math.Min(pos, float64(b.bins)))
 	}
 	return base.PackU64ToBytes(uint64(disc))
 }
-- 
2.43.0


From 5952577e113be85da1e06ac72c3217fbe0545891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 087/129] fix: discretised attributes keep a category for each
 interval

Intervals whose bounds look the same at the printed precision shared a category,
so that values were mapped beyond the last one.
---
 filters/binning.go  |  2 +-
 filters/chimerge.go |  2 +-
 filters/disc.go     | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/filters/binning.go b/filters/binning.go
index a120401..97b966f 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -114,7 +114,7 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 				floatVal := float64(i)*delta + minVal
 				fmtStr := fmt.Sprintf("%%.%df", a.(*base.FloatAttribute).Precision)
 				binVal := fmt.Sprintf(fmtStr, floatVal)
-				retAttr.GetSysValFromString(binVal)
+				addCategory(retAttr, binVal, floatVal)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
diff --git a/filters/chimerge.go b/filters/chimerge.go
index 826e8d0..50a3648 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -152,7 +152,7 @@ func (c *ChiMergeFilter) GetAttributesAfterFiltering() []base.FilteredAttribute
 			retAttr := new(base.CategoricalAttribute)
 			retAttr.SetName(a.GetName())
 			for _, k := range c.tables[a] {
-				retAttr.GetSysValFromString(fmt.Sprintf("%f", k.Value))
+				addCategory(retAttr, fmt.Sprintf("%f", k.Value), k.Value)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
diff --git a/filters/disc.go b/filters/disc.go
index 940829e..8f8dc9c 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -42,6 +42,18 @@ func (d *AbstractDiscretizeFilter) GetAttributesAfterFiltering() []base.Filtered
 	return ret
 }
 
+// addCategory adds a category for the interval which starts at val. It has the
+// given name, unless that's already the name of another interval.
+func addCategory(attr *base.CategoricalAttribute, name string, val float64) {
+	for _, v := range attr.GetValues() {
+		if v == name {
+			name = fmt.Sprintf("%v (%d)", val, len(attr.GetValues()))
+			break
+		}
+	}
+	attr.GetSysValFromString(name)
+}
+
 func (d *AbstractDiscretizeFilter) getAttributeSpecs() []base.AttributeSpec {
 	as := make([]base.AttributeSpec, 0)
 	// Set up the AttributeSpecs, and values
-- 
2.43.0


From 456fa1d829a0421fc0e1d6dc794c7d26e0bd35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 088/129] fix: ChiMerge maps the lower bound of an interval
 into it

The entries of the table are lower bounds, but a value equal to one was mapped to
the interval below, away from the other values of its own.
---
 filters/chimerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index 50a3648..1df6516 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -173,7 +173,7 @@ func (c *ChiMergeFilter) Transform(a base.Attribute, n base.Attribute, field []b
 	dis := 0
 	val := base.UnpackBytesToFloat(field)
 	for j, k := range table {
-		if k.Value < val {
+		if k.Value <= val {
 			dis = j
 			continue
 		}
-- 
2.43.0


From 02559149ca8bee3f6c734eeb3d6737a8089df295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 089/129] fix: ChiMerge merges intervals of data with one or
 two classes

The chi-squared density with one degree of freedom is infinite at 0, so every
statistic was significant and nothing was ever merged.
---
 filters/chimerge_funcs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 6b649c1..9a35996 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -54,6 +54,14 @@ func chiSquaredPercentile(k int, x float64) float64 {
 	// Implements Yahya et al.'s "A Numerical Procedure
 	//  for Computing Chi-Square Percentage Points"
 	// InterStat Journal 01/2007; April 25:page:1-8.
+	if k < 1 || x <= 0 {
+		// With a single class or equal distributions nothing differs
+		return 0
+	}
+	if k == 1 {
+		// The density isn't finite at 0, use the closed form
+		return math.Erf(math.Sqrt(x / 2))
+	}
 	steps := 32
 	intervals := 4 * steps
 	w := x / (4.0 * float64(steps))
-- 
2.43.0


From 008ab2ab729d4ac5ea1dfb5aab00381532a735a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 090/129] fix: bagged models report the errors of their members

---
 ensemble/randomforest.go |  3 +--
 meta/bagging.go          | 29 +++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 305bea9..a2703a6 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -48,8 +48,7 @@ func (f *RandomForest) Fit(on base.FixedDataGrid) error {
 		tree := trees.NewID3DecisionTree(0.00)
 		f.Model.AddModel(tree)
 	}
-	f.Model.Fit(on)
-	return nil
+	return f.Model.Fit(on)
 }
 
 // Predict generates predictions from a trained RandomForest.
diff --git a/meta/bagging.go b/meta/bagging.go
index 85072c0..d5c4492 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -79,20 +79,28 @@ func (b *BaggedModel) AddModel(m base.Classifier) {
 }
 
 // Fit generates and trains each model on a randomised subset of
-// Instances.
-func (b *BaggedModel) Fit(from base.FixedDataGrid) {
+// Instances. If models can't be trained, one of their errors is returned.
+func (b *BaggedModel) Fit(from base.FixedDataGrid) error {
+	var firstErr error
 	var wait sync.WaitGroup
 	b.selectedAttributes = make(map[int][]base.Attribute)
 	for i, m := range b.Models {
 		wait.Add(1)
 		go func(c base.Classifier, f base.FixedDataGrid, model int) {
 			l := b.generateTrainingInstances(model, f)
-			c.Fit(l)
+			if err := c.Fit(l); err != nil {
+				b.lock.Lock()
+				if firstErr == nil {
+					firstErr = err
+				}
+				b.lock.Unlock()
+			}
 			wait.Done()
 		}(m, from, i)
 	}
 	wait.Wait()
 	b.fitOn = base.NewStructuralCopy(from)
+	return firstErr
 }
 
 // Predict gathers predictions from all the classifiers
@@ -133,6 +141,8 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	}()
 
 	// Create workers to process the predictions
+	var firstErr error
+	var errLock sync.Mutex
 	processpipe := make(chan int, n)
 	var processwait sync.WaitGroup
 	for i := 0; i < n; i++ {
@@ -142,7 +152,15 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 				if i, ok := <-processpipe; ok {
 					c := b.Models[i]
 					l := b.generatePredictionInstances(i, from)
-					v, _ := c.Predict(l)
+					v, err := c.Predict(l)
+					if err != nil {
+						errLock.Lock()
+						if firstErr == nil {
+							firstErr = err
+						}
+						errLock.Unlock()
+						continue
+					}
 					votes <- v
 				} else {
 					processwait.Done()
@@ -160,6 +178,9 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	processwait.Wait() // Predictors all finished processing
 	close(votes)       // Close the vote channel and allow it to drain
 	votingwait.Wait()  // All the votes are in
+	if firstErr != nil {
+		return nil, firstErr
+	}
 
 	// Generate the overall consensus
 	ret := base.GeneratePredictionVector(from)
-- 
2.43.0


From 3ed399544bad17eda4ff3a8cf350188fd991bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 091/129] fix: prediction vectors have class attributes of
 their own

---
 base/util_instances.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index b433b91..c74b128 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -15,6 +15,13 @@ func GeneratePredictionVector(from FixedDataGrid) UpdatableDataGrid {
 	_, rowCount := from.Size()
 	ret := NewDenseInstances()
 	for _, a := range classAttrs {
+		if c, ok := a.(*CategoricalAttribute); ok {
+			// Predicted classes which aren't in from get added
+			// to the Attribute, which belongs to from
+			own := *c
+			own.values = append([]string{}, c.values...)
+			a = &own
+		}
 		ret.AddAttribute(a)
 		ret.AddClassAttribute(a)
 	}
-- 
2.43.0


From 0ad9a15d8a86018d73f544f9734bea20d2cf1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 092/129] fix: splitting off test data leaves the order of the
 rows alone

---
 base/util_instances.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index c74b128..dd025ba 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -383,7 +383,8 @@ func DecomposeOnAttributeValues(inst FixedDataGrid, at Attribute) map[string]Fix
 func InstancesTrainTestSplit(src FixedDataGrid, prop float64) (FixedDataGrid, FixedDataGrid) {
 	trainingRows := make([]int, 0)
 	testingRows := make([]int, 0)
-	src = Shuffle(src)
+	// Leave the rows of src in their order
+	src = LazyShuffle(src)
 
 	// Create the return structure
 	_, rows := src.Size()
-- 
2.43.0


From 747d3bea7fa4387048bc529458406d3a754f4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 093/129] fix: trees report training data without any rows

---
 trees/id3.go    | 3 +++
 trees/random.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index e4d84d3..f45fdae 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -557,6 +557,9 @@ func NewID3DecisionTreeFromRule(prune float64, rule RuleGenerator) *ID3DecisionT
 
 // Fit builds the ID3 decision tree
 func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
+	if _, rows := on.Size(); rows == 0 {
+		return fmt.Errorf("Can't train a tree without any rows")
+	}
 	if t.PruneSplit > 0.001 {
 		trainData, testData := base.InstancesTrainTestSplit(on, t.PruneSplit)
 		if _, rows := trainData.Size(); rows == 0 {
diff --git a/trees/random.go b/trees/random.go
index 1b9030e..ca9d0df 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -69,6 +69,9 @@ func NewRandomTree(attrs int) *RandomTree {
 
 // Fit builds a RandomTree suitable for prediction
 func (rt *RandomTree) Fit(from base.FixedDataGrid) error {
+	if _, rows := from.Size(); rows == 0 {
+		return fmt.Errorf("Can't train a tree without any rows")
+	}
 	rt.Root = InferID3Tree(from, rt.Rule)
 	return nil
 }
-- 
2.43.0


From fe2388cea6e203daae4c3810623b3d68758bddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 094/129] fix: one-vs-all picks the highest score when all are
 negative

---
 meta/one_v_all.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index 9338fb5..3e12dd5 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -119,7 +119,7 @@ func (m *OneVsAllModel) Predict(what base.FixedDataGrid) (base.FixedDataGrid, er
 		best := 0.0
 		for j := uint64(0); j <= m.maxClassVal; j++ {
 			val := base.UnpackBytesToFloat(vecs[j].Get(specs[j], i))
-			if val > best {
+			if j == 0 || val > best {
 				class = j
 				best = val
 			}
-- 
2.43.0


From 30cd64ea8508f23ce0c6442fb821c6fd2f8721be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 095/129] fix: one-vs-all predicts classes by name

---
 meta/one_v_all.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index 3e12dd5..6fbec1a 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -113,7 +113,6 @@ func (m *OneVsAllModel) Predict(what base.FixedDataGrid) (base.FixedDataGrid, er
 		specs[i] = base.ResolveAttributes(p, p.AllClassAttributes())[0]
 	}
 	_, rows := ret.Size()
-	spec := base.ResolveAttributes(ret, ret.AllClassAttributes())[0]
 	for i := 0; i < rows; i++ {
 		class := uint64(0)
 		best := 0.0
@@ -124,7 +123,8 @@ func (m *OneVsAllModel) Predict(what base.FixedDataGrid) (base.FixedDataGrid, er
 				best = val
 			}
 		}
-		ret.Set(spec, i, base.PackU64ToBytes(class))
+		// The classes of what may be stored in another order
+		base.SetClass(ret, i, m.classValues[class])
 	}
 	return ret, nil
 }
-- 
2.43.0


From 728249d5bb23a2cd5ce0a7231e1d009d2462f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 096/129] fix: one-vs-all models report the errors of their
 members

---
 ensemble/multisvc.go |  3 +--
 meta/one_v_all.go    | 16 ++++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 7193562..a7e70c3 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -69,8 +69,7 @@ func (m *MultiLinearSVC) initializeOneVsAllModel() {
 // Fit builds the MultiLinearSVC by building n (where n is the number of values
 // the singular CategoricalAttribute can take) seperate one-vs-rest models.
 func (m *MultiLinearSVC) Fit(instances base.FixedDataGrid) error {
-	m.m.Fit(instances)
-	return nil
+	return m.m.Fit(instances)
 }
 
 // Predict issues predictions from the MultiLinearSVC. Each underlying LinearSVC is
diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index 6fbec1a..f4625cb 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -34,7 +34,7 @@ func NewOneVsAllModel(f func(string) base.Classifier) *OneVsAllModel {
 // Fit creates n filtered datasets (where n is the number of values
 // a CategoricalAttribute can take) and uses them to train the
 // underlying classifiers.
-func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
+func (m *OneVsAllModel) Fit(using base.FixedDataGrid) error {
 	var classAttr *base.CategoricalAttribute
 	// Do some validation
 	classAttrs := using.AllClassAttributes()
@@ -77,7 +77,10 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 		filters[i] = f
 		classifiers[i] = m.NewClassifierFunction(classVals[int(i)])
 		if !fittingToStructure {
-			classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			err := classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			if err != nil {
+				return base.FormatError(err, "Can't train the classifier for class %s", classVals[int(i)])
+			}
 		}
 	}
 
@@ -85,6 +88,7 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 	m.classifiers = classifiers
 	m.fitOn = base.NewStructuralCopy(using)
 	m.classValues = classVals
+	return nil
 }
 
 // Predict issues predictions. Each class-specific classifier is expected
@@ -151,10 +155,10 @@ func (m *OneVsAllModel) LoadWithPrefix(reader *base.ClassifierDeserializer, pref
 	if err != nil {
 		return base.DescribeError("Can't load INSTANCE_STRUCTURE", err)
 	}
-	m.Fit(fitOn)
-	/*if err != nil {
-		base.DescribeError("Could not fit reloaded classifier to the structure", err)
-	}*/
+	err = m.Fit(fitOn)
+	if err != nil {
+		return base.DescribeError("Could not fit reloaded classifier to the structure", err)
+	}
 
 	// Reload the filters
 	numFiltersU64, err := reader.GetU64ForKey(reader.Prefix(prefix, "FILTER_COUNT"))
-- 
2.43.0


From fc2f48a3cc1e7652e9808621b8362ac0fc9a4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 097/129] fix: CART classifier: a tree without splits predicts
 the most common label

---
 trees/cart_classifier.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index daf6a29..c7f7694 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -195,11 +195,6 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
 	depth++
 
-	if maxDepth != -1 && depth > maxDepth {
-		return upperNode, nil
-	}
-
-	numFeatures := len(data[0])
 	var bestGini, origGini float64
 	var err error
 	// Calculate loss based on Criterion Specified by user
@@ -207,7 +202,14 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	if err != nil {
 		return upperNode, err
 	}
+	// Without a split, both sides predict the most common label
+	upperNode.RightLabel = upperNode.LeftLabel
 
+	if maxDepth != -1 && depth > maxDepth {
+		return upperNode, nil
+	}
+
+	numFeatures := len(data[0])
 	bestGini = origGini
 
 	bestLeft, bestRight, bestLefty, bestRighty := data, data, y, y
-- 
2.43.0


From c9ef3e171466c12661c87c6f0d10b6073cd1f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 098/129] fix: CART regressor: a tree without splits predicts
 the average

---
 trees/cart_regressor.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 69ae9d6..4e2ff7e 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -182,18 +182,20 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
 	depth++
 
-	if depth > maxDepth && maxDepth != -1 {
-		return upperNode, nil
-	}
-
-	numFeatures := len(data[0])
 	var bestLoss, origLoss float64
 	var err error
 	origLoss, upperNode.LeftPred, err = calculateRegressionLoss(y, criterion)
 	if err != nil {
 		return upperNode, err
 	}
+	// Without a split, both sides predict the average
+	upperNode.RightPred = upperNode.LeftPred
 
+	if depth > maxDepth && maxDepth != -1 {
+		return upperNode, nil
+	}
+
+	numFeatures := len(data[0])
 	bestLoss = origLoss
 
 	bestLeft, bestRight, bestLefty, bestRighty := data, data, y, y
-- 
2.43.0


From 3ec303c1200c23d924f2f7859e8e5d50b265420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 099/129] fix: CART trees: thresholds separate adjacent and
 huge feature values

---
 trees/cart_classifier.go |  2 +-
 trees/cart_regressor.go  |  2 +-
 trees/cart_utils.go      | 15 +++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index c7f7694..1068e16 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -238,7 +238,7 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 		// Iterate over all possible thresholds for that feature
 		for j := 0; j < len(unique)-1; j++ {
 
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := splitThreshold(unique[j], unique[j+1])
 			// Ensure that same split has not been made before
 			if validate(tree.triedSplits, int64(i), threshold) {
 				// We need to split data from fresh when considering new feature for the first time.
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 4e2ff7e..74a4d19 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -222,7 +222,7 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 		var leftY, rightY []float64
 
 		for j := 0; j < len(unique)-1; j++ {
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := splitThreshold(unique[j], unique[j+1])
 			if validate(tree.triedSplits, int64(i), threshold) {
 				if firstTime {
 					left, right, leftY, rightY = regressorCreateSplit(sortData, int64(i), sortY, threshold)
diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 251dee9..7468585 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -1,6 +1,8 @@
 package trees
 
 import (
+	"math"
+
 	"github.com/sjwhitworth/golearn/base"
 )
 
@@ -39,6 +41,19 @@ func validate(triedSplits [][]float64, feature int64, threshold float64) bool {
 	return true
 }
 
+// Find a threshold that separates two neighbouring values: lower < threshold <= upper.
+func splitThreshold(lower, upper float64) float64 {
+	threshold := (lower + upper) / 2
+	if math.IsInf(threshold, 0) {
+		threshold = lower/2 + upper/2
+	}
+	// The midpoint of adjacent floating point numbers rounds to one of them
+	if !(threshold > lower && threshold <= upper) {
+		threshold = upper
+	}
+	return threshold
+}
+
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
 func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 	// Allocate problem array
-- 
2.43.0


From d795d5fa9ed157056b70fb9b49b5433cb1d8e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 100/129] fix: CART regressor: equal targets have no impurity

---
 trees/cart_regressor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 74a4d19..a098365 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -42,8 +42,14 @@ type CARTDecisionTreeRegressor struct {
 // Find average
 func average(y []float64) float64 {
 	mean := 0.0
+	equal := true
 	for _, value := range y {
 		mean += value
+		equal = equal && value == y[0]
+	}
+	// The average of equal values is that value, without rounding errors
+	if equal && len(y) > 0 {
+		return y[0]
 	}
 	mean /= float64(len(y))
 	return mean
-- 
2.43.0


From d47a031a0496f8f3a4de4637401937d786b1ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 101/129] fix: CART trees: predictions don't depend on the
 column order of the query

---
 trees/cart_classifier.go |  9 ++++++---
 trees/cart_regressor.go  | 32 +++++---------------------------
 trees/cart_utils.go      | 19 +++++++++++++++++--
 3 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index 1068e16..e195f52 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -37,6 +37,7 @@ type CARTDecisionTreeClassifier struct {
 	maxDepth    int64
 	labels      []int64
 	triedSplits [][]float64
+	attrs       []base.Attribute
 }
 
 // Convert a series of labels to frequency map for efficient impurity calculation
@@ -173,7 +174,8 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 	var emptyNode classifierNode
 	var err error
 
-	data := convertInstancesToProblemVec(X)
+	attrs := base.NonClassFloatAttributes(X)
+	data := convertAttributesToProblemVec(X, attrs)
 	y, err := classifierConvertInstancesToLabelVec(X)
 	if err != nil {
 		return err
@@ -185,6 +187,7 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 		return err
 	}
 	tree.RootNode = &emptyNode
+	tree.attrs = attrs
 	return nil
 }
 
@@ -376,7 +379,7 @@ func classifierPredictSingle(tree classifierNode, instance []float64) int64 {
 // Given test data, return predictions for every datapoint. calls classifierPredictFromNode
 func (tree *CARTDecisionTreeClassifier) Predict(X_test base.FixedDataGrid) []int64 {
 	root := *tree.RootNode
-	test := convertInstancesToProblemVec(X_test)
+	test := convertAttributesToProblemVec(X_test, featureAttributes(X_test, tree.attrs))
 	return classifierPredictFromNode(root, test)
 }
 
@@ -396,7 +399,7 @@ func classifierPredictFromNode(tree classifierNode, test [][]float64) []int64 {
 // Calls classifierEvaluateFromNode
 func (tree *CARTDecisionTreeClassifier) Evaluate(test base.FixedDataGrid) (float64, error) {
 	rootNode := *tree.RootNode
-	xTest := convertInstancesToProblemVec(test)
+	xTest := convertAttributesToProblemVec(test, featureAttributes(test, tree.attrs))
 	yTest, err := classifierConvertInstancesToLabelVec(test)
 	if err != nil {
 		return 0, err
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index a098365..634b890 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -37,6 +37,7 @@ type CARTDecisionTreeRegressor struct {
 	criterion   string
 	maxDepth    int64
 	triedSplits [][]float64
+	attrs       []base.Attribute
 }
 
 // Find average
@@ -167,7 +168,8 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 	var emptyNode regressorNode
 	var err error
 
-	data := regressorConvertInstancesToProblemVec(X)
+	attrs := base.NonClassFloatAttributes(X)
+	data := convertAttributesToProblemVec(X, attrs)
 	y, err := regressorConvertInstancesToLabelVec(X)
 	if err != nil {
 		return err
@@ -178,6 +180,7 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 		return err
 	}
 	tree.RootNode = &emptyNode
+	tree.attrs = attrs
 	return nil
 }
 
@@ -354,7 +357,7 @@ func regressorPredictSingle(tree regressorNode, instance []float64) float64 {
 // First converts input data into usable format, and then calls regressorPredictFromNode
 func (tree *CARTDecisionTreeRegressor) Predict(X_test base.FixedDataGrid) []float64 {
 	root := *tree.RootNode
-	test := regressorConvertInstancesToProblemVec(X_test)
+	test := convertAttributesToProblemVec(X_test, featureAttributes(X_test, tree.attrs))
 	return regressorPredictFromNode(root, test)
 }
 
@@ -369,31 +372,6 @@ func regressorPredictFromNode(tree regressorNode, test [][]float64) []float64 {
 	return preds
 }
 
-// Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
-func regressorConvertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
-	// Allocate problem array
-	_, rows := X.Size()
-	problemVec := make([][]float64, rows)
-
-	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
-	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
-
-	// Convert each row
-	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
-		// Allocate a new row
-		probRow := make([]float64, len(numericAttrSpecs))
-		// Read out the row
-		for i, _ := range numericAttrSpecs {
-			probRow[i] = base.UnpackBytesToFloat(row[i])
-		}
-		// Add the row
-		problemVec[rowNo] = probRow
-		return true, nil
-	})
-	return problemVec
-}
-
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
 func regressorConvertInstancesToLabelVec(X base.FixedDataGrid) ([]float64, error) {
 	// Get the class Attributes
diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 7468585..1661691 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -56,12 +56,27 @@ func splitThreshold(lower, upper float64) float64 {
 
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
 func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
+	// Retrieve numeric non-class Attributes
+	return convertAttributesToProblemVec(X, base.NonClassFloatAttributes(X))
+}
+
+// Find the features that a model was trained with in X, whatever its column order.
+// If X doesn't have all of them, its numeric non-class Attributes stand in for them.
+func featureAttributes(X base.FixedDataGrid, trained []base.Attribute) []base.Attribute {
+	for _, a := range trained {
+		if _, err := X.GetAttribute(a); err != nil {
+			return base.NonClassFloatAttributes(X)
+		}
+	}
+	return trained
+}
+
+// Helper function to convert the given Attributes into required format
+func convertAttributesToProblemVec(X base.FixedDataGrid, numericAttrs []base.Attribute) [][]float64 {
 	// Allocate problem array
 	_, rows := X.Size()
 	problemVec := make([][]float64, rows)
 
-	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
 	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
 
 	// Convert each row
-- 
2.43.0


From 81d37e3e4694d9241729ed1cecc84a2490821bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 102/129] fix: isolation forest: thresholds lie within the
 range of the data

---
 trees/isolation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trees/isolation.go b/trees/isolation.go
index 3f83c90..d9721e5 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -46,6 +46,10 @@ func selectValue(min, max float64) float64 {
 	} else if val == max {
 		val -= 0.000001
 	}
+	// Both sides of the split need data: min <= val < max
+	if !(val >= min && val < max) {
+		val = min
+	}
 	return val
 }
 
-- 
2.43.0


From c8b866becbec9d05dcbd1322c10e77a75141d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 103/129] fix: isolation forest: trees without splits have the
 path length of a leaf

---
 trees/isolation.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/trees/isolation.go b/trees/isolation.go
index d9721e5..ee464a2 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -85,6 +85,8 @@ func buildTree(data [][]float64, upperNode regressorNode, depth int, maxDepth in
 	upperNode.isNodeNeeded = true
 	if (depth > maxDepth) || (len(data) <= 1) || !checkData(data) {
 		upperNode.isNodeNeeded = false
+		upperNode.LeftPred = float64(len(data))
+		upperNode.RightPred = float64(len(data))
 		return upperNode
 	}
 
@@ -158,6 +160,11 @@ func (iForest *IsolationForest) Fit(X base.FixedDataGrid) {
 
 // Calculate the path length to reach a leaf node for a datapoint. Outliers have smaller path lengths than standard data points.
 func pathLength(tree regressorNode, instance []float64, path float64) float64 {
+	// A tree which couldn't be split is a single leaf
+	if !tree.isNodeNeeded {
+		return path + cFactor(int(tree.LeftPred))
+	}
+
 	path++
 
 	if instance[tree.Feature] <= tree.Threshold {
@@ -193,6 +200,9 @@ func evaluateInstance(instance []float64, forest []regressorNode) []float64 {
 
 // Helper function to calculate anomaly score.
 func cFactor(n int) float64 {
+	if n <= 1 {
+		return 0
+	}
 	return 2.0*(math.Log(float64(n-1))+0.5772156649) - (float64(2.0*(n-1)) / float64(n))
 }
 
@@ -205,6 +215,10 @@ func anomalyScore(instance []float64, forest []regressorNode, n int) float64 {
 	}
 	E /= float64(len(paths))
 	c := cFactor(n)
+	if c == 0 {
+		// Samples of one point have no path length to compare with
+		return 0.5
+	}
 	return math.Pow(2, (-1 * E / c))
 }
 
-- 
2.43.0


From 06171a87aaf546da6623b9a40c551ea93eb7d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 104/129] fix: isolation forest: scores don't depend on the
 column order of the query

---
 trees/cart_utils.go |  6 ------
 trees/isolation.go  | 10 ++++++----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 1661691..45ec1a0 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -54,12 +54,6 @@ func splitThreshold(lower, upper float64) float64 {
 	return threshold
 }
 
-// Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
-func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
-	// Retrieve numeric non-class Attributes
-	return convertAttributesToProblemVec(X, base.NonClassFloatAttributes(X))
-}
-
 // Find the features that a model was trained with in X, whatever its column order.
 // If X doesn't have all of them, its numeric non-class Attributes stand in for them.
 func featureAttributes(X base.FixedDataGrid, trained []base.Attribute) []base.Attribute {
diff --git a/trees/isolation.go b/trees/isolation.go
index ee464a2..4a158a5 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -12,6 +12,7 @@ type IsolationForest struct {
 	maxDepth int
 	subSpace int
 	trees    []regressorNode
+	attrs    []base.Attribute
 }
 
 // Select A random feature for splitting from the data.
@@ -142,7 +143,8 @@ func NewIsolationForest(nTrees int, maxDepth int, subSpace int) IsolationForest
 
 // Fit the data based on hyperparameters and data.
 func (iForest *IsolationForest) Fit(X base.FixedDataGrid) {
-	data := preprocessData(X)
+	iForest.attrs = base.NonClassFloatAttributes(X)
+	data := preprocessData(X, iForest.attrs)
 	nTrees := iForest.nTrees
 	subSpace := iForest.subSpace
 	maxDepth := iForest.maxDepth
@@ -224,7 +226,7 @@ func anomalyScore(instance []float64, forest []regressorNode, n int) float64 {
 
 // Return anamoly score for all datapoints.
 func (iForest *IsolationForest) Predict(X base.FixedDataGrid) []float64 {
-	data := preprocessData(X)
+	data := preprocessData(X, featureAttributes(X, iForest.attrs))
 
 	var preds []float64
 	for _, instance := range data {
@@ -235,8 +237,8 @@ func (iForest *IsolationForest) Predict(X base.FixedDataGrid) []float64 {
 }
 
 // Extract data in the form of floats. Used in Fit and predict. Note that class labels are treated as normal data because Isolation Forest is unsupervised.
-func preprocessData(X base.FixedDataGrid) [][]float64 {
-	data := convertInstancesToProblemVec(X)
+func preprocessData(X base.FixedDataGrid, attrs []base.Attribute) [][]float64 {
+	data := convertAttributesToProblemVec(X, attrs)
 	class, err := regressorConvertInstancesToLabelVec(X)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 06c14ec0520b0237a97cdaef110fad0469244df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 105/129] fix: linear models: predictions use negative feature
 values

---
 linear_models/liblinear.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 47e7456..d13ff38 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -90,7 +90,7 @@ func Predict(model *Model, x []float64) float64 {
 func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	n_ele := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			n_ele++
 		}
 	}
@@ -99,7 +99,7 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	c_x := make([]C.struct_feature_node, n_ele)
 	j := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			c_x[j].index = C.int(i + 1)
 			c_x[j].value = C.double(x[i])
 			j++
-- 
2.43.0


From 703aa5c5247a489ce77cdb083990cf641471863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 106/129] fix: linear models: predictions don't depend on the
 column order of the query

---
 linear_models/linearsvc.go | 17 +++++++++++++++--
 linear_models/logistic.go  |  7 +++++--
 linear_models/util.go      | 18 ++++++++++++++++--
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 635683a..641b9e5 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -112,6 +112,7 @@ type LinearSVC struct {
 	param *Parameter
 	model *Model
 	Param *LinearSVCParams
+	attrs []base.Attribute
 }
 
 // NewLinearSVC creates a new support classifier.
@@ -169,7 +170,8 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 	}
 
 	// Convert the problem
-	problemVec := convertInstancesToProblemVec(X)
+	attrs := base.NonClassFloatAttributes(X)
+	problemVec := convertInstancesToProblemVec(X, attrs)
 	labelVec := convertInstancesToLabelVec(X)
 
 	// Train
@@ -180,6 +182,7 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 
 	//	lr.param.weights = (*C.double)unsafe.Pointer(&(weightVec[0]));
 	lr.model = Train(prob, lr.param)
+	lr.attrs = attrs
 	return nil
 }
 
@@ -196,7 +199,7 @@ func (lr *LinearSVC) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
 
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
+	numericAttrs := featureAttributes(X, lr.attrs)
 	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
 
 	// Allocate row storage
@@ -288,6 +291,10 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
+	err = writer.WriteAttributesForKey(writer.Prefix(prefix, "ATTRIBUTES"), lr.attrs)
+	if err != nil {
+		return base.DescribeError("Error writing Attributes", err)
+	}
 
 	return nil
 }
@@ -315,6 +322,12 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 		return base.DescribeError("Error reading MODEL", err)
 	}
 
+	// Files written by earlier versions don't have the Attributes
+	lr.attrs = nil
+	if attrs, err := reader.GetAttributesForKey(reader.Prefix(prefix, "ATTRIBUTES")); err == nil {
+		lr.attrs = attrs
+	}
+
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
 	if err != nil {
 		return base.DescribeError("Unable to reload the model", err)
diff --git a/linear_models/logistic.go b/linear_models/logistic.go
index 96c3206..c9be8db 100644
--- a/linear_models/logistic.go
+++ b/linear_models/logistic.go
@@ -9,6 +9,7 @@ import (
 type LogisticRegression struct {
 	param *Parameter
 	model *Model
+	attrs []base.Attribute
 }
 
 func NewLogisticRegression(penalty string, C float64, eps float64) (*LogisticRegression, error) {
@@ -28,10 +29,12 @@ func NewLogisticRegression(penalty string, C float64, eps float64) (*LogisticReg
 }
 
 func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
-	problemVec := convertInstancesToProblemVec(X)
+	attrs := base.NonClassFloatAttributes(X)
+	problemVec := convertInstancesToProblemVec(X, attrs)
 	labelVec := convertInstancesToLabelVec(X)
 	prob := NewProblem(problemVec, labelVec, 0)
 	lr.model = Train(prob, lr.param)
+	lr.attrs = attrs
 	return nil
 }
 
@@ -46,7 +49,7 @@ func (lr *LogisticRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid,
 	ret := base.GeneratePredictionVector(X)
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
+	numericAttrs := featureAttributes(X, lr.attrs)
 	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
 
 	// Allocate row storage
diff --git a/linear_models/util.go b/linear_models/util.go
index ac6b2ce..7a6ab7d 100644
--- a/linear_models/util.go
+++ b/linear_models/util.go
@@ -34,13 +34,27 @@ func generateClassWeightVectorFromFixed(X base.FixedDataGrid) []float64 {
 	}
 }
 
-func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
+// featureAttributes finds the features that a model was trained with in X,
+// whatever its column order. If X doesn't have all of them, its numeric
+// non-class Attributes stand in for them.
+func featureAttributes(X base.FixedDataGrid, trained []base.Attribute) []base.Attribute {
+	for _, a := range trained {
+		if _, err := X.GetAttribute(a); err != nil {
+			return base.NonClassFloatAttributes(X)
+		}
+	}
+	if len(trained) == 0 {
+		return base.NonClassFloatAttributes(X)
+	}
+	return trained
+}
+
+func convertInstancesToProblemVec(X base.FixedDataGrid, numericAttrs []base.Attribute) [][]float64 {
 	// Allocate problem array
 	_, rows := X.Size()
 	problemVec := make([][]float64, rows)
 
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
 	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
 
 	// Convert each row
-- 
2.43.0


From 97007d612b7ec8d5246a06517a3917cffd2fc376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 107/129] fix: linear models: saved models keep all digits of
 the weights

---
 linear_models/linear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index e435db7..60b501a 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -2621,14 +2621,14 @@ int save_model(const char *model_file_name, const struct model *model_)
 
 	fprintf(fp, "nr_feature %d\n", nr_feature);
 
-	fprintf(fp, "bias %.16g\n", model_->bias);
+	fprintf(fp, "bias %.17g\n", model_->bias);
 
 	fprintf(fp, "w\n");
 	for(i=0; i<w_size; i++)
 	{
 		int j;
 		for(j=0; j<nr_w; j++)
-			fprintf(fp, "%.16g ", model_->w[i*nr_w+j]);
+			fprintf(fp, "%.17g ", model_->w[i*nr_w+j]);
 		fprintf(fp, "\n");
 	}
 
-- 
2.43.0


From d69a20625fb8a1adbaf53d9cb11f5c8064795600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 108/129] fix: linear models: problems with a bias learn an
 intercept

---
 linear_models/liblinear.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index d13ff38..4598d3a 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -54,6 +54,9 @@ func NewProblem(X [][]float64, y []float64, bias float64) *Problem {
 	}
 	prob.c_prob.y = &c_y[0]
 	prob.c_prob.bias = C.double(-1)
+	if bias > 0 {
+		prob.c_prob.bias = C.double(bias)
+	}
 
 	return &prob
 }
@@ -82,8 +85,9 @@ func Load(model *Model, filePath string) error {
 }
 
 func Predict(model *Model, x []float64) float64 {
-	c_x := convert_vector(x, 0)
-	c_y := C.predict((*C.struct_model)(model.c_model), c_x)
+	c_model := (*C.struct_model)(model.c_model)
+	c_x := convert_vector(x, float64(c_model.bias))
+	c_y := C.predict(c_model, c_x)
 	y := float64(c_y)
 	return y
 }
@@ -106,8 +110,8 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 		}
 	}
 	if bias > 0 {
-		c_x[j].index = C.int(0)
-		c_x[j].value = C.double(0)
+		c_x[j].index = C.int(len(x) + 1)
+		c_x[j].value = C.double(bias)
 		j++
 	}
 	c_x[j].index = C.int(-1)
@@ -122,8 +126,8 @@ func convert_features(X [][]float64, bias float64) **C.struct_feature_node {
 			if X[i][j] != 0.0 {
 				n_elements++
 			}
-			n_elements++ //for bias
 		}
+		n_elements++ //for bias
 	}
 
 	x_space := make([]C.struct_feature_node, n_elements+n_samples)
@@ -141,11 +145,11 @@ func convert_features(X [][]float64, bias float64) **C.struct_feature_node {
 				x_space[cursor].value = C.double(X[i][j])
 				cursor++
 			}
-			if bias > 0 {
-				x_space[cursor].index = C.int(0)
-				x_space[cursor].value = C.double(bias)
-				cursor++
-			}
+		}
+		if bias > 0 {
+			x_space[cursor].index = C.int(len(X[i]) + 1)
+			x_space[cursor].value = C.double(bias)
+			cursor++
 		}
 		x_space[cursor].index = C.int(-1)
 		cursor++
-- 
2.43.0


From 26f3875faf53c712093f22c3eca088fc247b4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 109/129] fix: linear models: a restored model trains with its
 own parameters

---
 linear_models/linearsvc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 641b9e5..16581ec 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -316,6 +316,7 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	if err != nil {
 		return base.DescribeError("Error reading PARAMETERS", err)
 	}
+	lr.param = lr.Param.convertToNativeFormat()
 
 	modelBytes, err := reader.GetBytesForKey(reader.Prefix(prefix, "MODEL"))
 	if err != nil {
-- 
2.43.0


From 2d762f4b20ed2f1aae6a0752f861e3457c6e8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 110/129] fix: linear models: the dual solver doesn't stop
 while all gradients are equal

---
 linear_models/linear.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index 60b501a..3e09f0b 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -918,7 +918,9 @@ static void solve_l2r_l1l2_svc(
 		if(iter % 10 == 0)
 			info(".");
 
-		if(PGmax_new - PGmin_new <= eps)
+		// All projected gradients may be equal without being near zero
+		if(PGmax_new - PGmin_new <= eps &&
+			(active_size == 0 || (PGmax_new >= -eps && PGmin_new <= eps)))
 		{
 			if(active_size == l)
 				break;
-- 
2.43.0


From 7777a4b25b1a20a3c2e77d4b64251ca64e149455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 111/129] fix: neural.SoftplusRectifier: use its own
 derivative, don't overflow

The backward function was the sigmoid's; in terms of the output of
softplus its derivative is 1 - exp(-v). Inputs above 709 gave +Inf.
---
 neural/funcs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural/funcs.go b/neural/funcs.go
index 48bf3db..8d3541a 100644
--- a/neural/funcs.go
+++ b/neural/funcs.go
@@ -21,6 +21,6 @@ var Linear NeuralFunction = NeuralFunction{
 // Rectified Linear function
 // https://www.wikiwand.com/en/Rectifier_(neural_networks)
 var SoftplusRectifier NeuralFunction = NeuralFunction{
-	func(v float64) float64 { return math.Log(1 + math.Exp(v)) },
-	func(v float64) float64 { return v * (1 - v) },
+	func(v float64) float64 { return math.Max(v, 0) + math.Log1p(math.Exp(-math.Abs(v))) },
+	func(v float64) float64 { return 1 - math.Exp(-v) },
 }
-- 
2.43.0


From 61f9aad4e99bc05a028cbf3ae7cf48b372ae61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 112/129] fix: neural.Network.UpdateWeights: keep connections
 with small weights

Connections whose initial weight was at most 0.005, or which were set
after the first update, were cut by the next update.
---
 neural/network.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural/network.go b/neural/network.go
index 5119133..c779a7a 100644
--- a/neural/network.go
+++ b/neural/network.go
@@ -77,6 +77,9 @@ func (n *Network) SetWeight(src, target int, v float64) {
 	src--
 	target--
 	n.weights.Set(target, src, v)
+	if n.origWeights != nil {
+		n.origWeights.Set(target, src, v)
+	}
 }
 
 // SetBias sets the bias at a given neuron (counted from 1).
@@ -139,7 +142,7 @@ func (n *Network) UpdateWeights(out, err *mat.Dense, learnRate float64) {
 		if target == source {
 			return v
 		}
-		if math.Abs(n.origWeights.At(target, source)) > 0.005 {
+		if n.origWeights.At(target, source) != 0 {
 			return v + learnRate*out.At(source, 0)*err.At(target, 0)
 		}
 		return 0.00
-- 
2.43.0


From 548135b74cb21e55dd50dfe672ed6255e90c72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 113/129] fix: neural.MultiLayerNet.Fit: initialise the output
 layer's biases

Neurons are counted from 1: the last hidden neuron's bias was drawn
twice, the last output neuron's never.
---
 neural/layered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index c1daee9..ee193eb 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -241,7 +241,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	}
 
 	// Initialise biases for output layer
-	for i := 0; i < len(classAttrsVec); i++ {
+	for i := 1; i <= len(classAttrsVec); i++ {
 		nodeOffset := layerOffset + i
 		m.network.SetBias(nodeOffset, rand.NormFloat64()*0.1)
 	}
-- 
2.43.0


From eb27e122903a473af8a5ad786ad34294e20fd118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 114/129] fix: neural.MultiLayerNet.Predict: read the class
 from the output neurons

The offset of the class neurons ignored the hidden layers, no output
above 0 gave a negative index, a class with two values (one neuron) was
always predicted as the first, and classes were numbered by the
prediction's Attribute rather than by the training one.
---
 neural/layered.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index ee193eb..24e68c6 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -23,6 +23,7 @@ type MultiLayerNet struct {
 	attrs           map[base.Attribute]int
 	layers          []int
 	classAttrOffset int
+	classVals       []string
 	classAttrCount  int
 	Convergence     float64
 	MaxIterations   int
@@ -40,6 +41,7 @@ func NewMultiLayerNet(layers []int) *MultiLayerNet {
 		make(map[base.Attribute]int),
 		layers,
 		0,
+		nil,
 		0,
 		0.001,
 		500,
@@ -138,16 +140,19 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 			}
 		} else {
 			maxIndex := 0
-			maxVal := 0.0
-			for i := m.classAttrOffset; i < m.classAttrOffset+m.classAttrCount; i++ {
-				val := a.At(i, 0)
+			maxVal := a.At(m.classAttrOffset, 0)
+			for i := 1; i < m.classAttrCount; i++ {
+				val := a.At(m.classAttrOffset+i, 0)
 				if val > maxVal {
 					maxIndex = i
 					maxVal = val
 				}
 			}
-			maxIndex -= m.classAttrOffset
-			ret.Set(outputAs[0], rc, base.PackU64ToBytes(uint64(maxIndex)))
+			if m.classAttrCount == 1 && maxVal > 0.5 {
+				// One neuron stands for both values of the class
+				maxIndex = len(m.classVals) - 1
+			}
+			base.SetClass(ret, rc, m.classVals[maxIndex])
 		}
 		return true, nil
 	})
@@ -197,7 +202,12 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 		m.attrs[a] = attrCounter
 		trainingAttrs[a] = attrCounter
 	}
-	m.classAttrOffset = attrCounter + 1
+	m.classAttrOffset = attrCounter + 1 + hiddenSize
+	for _, a := range X.AllClassAttributes() {
+		if c, ok := a.(*base.CategoricalAttribute); ok {
+			m.classVals = append([]string{}, c.GetValues()...)
+		}
+	}
 	for _, a := range classAttrsVec {
 		attrCounter++
 		m.attrs[a] = attrCounter + hiddenSize
-- 
2.43.0


From a07d18faa15af0a23646e542e2cbc23f51dfe01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 115/129] fix: neural.MultiLayerNet.Predict: find neurons of
 equal Attributes

Neurons were looked up by Attribute pointer, so rows of another grid, or
any grid with categorical or binary Attributes (which are converted
again) could not be predicted, and float classes of another grid got
the value of the first input.
---
 neural/layered.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 24e68c6..ccf16b5 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -66,6 +66,19 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	return insts
 }
 
+// neuron finds the neuron which was trained for a given Attribute.
+func (m *MultiLayerNet) neuron(a base.Attribute) (int, bool) {
+	if i, ok := m.attrs[a]; ok {
+		return i, true
+	}
+	for b, i := range m.attrs {
+		if b.Equals(a) {
+			return i, true
+		}
+	}
+	return 0, false
+}
+
 // Predict uses the underlying network to produce predictions for the
 // class variables of X.
 //
@@ -123,7 +136,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		// Build the activation vector
 		for i, vb := range row {
-			if cIndex, ok := m.attrs[inputAs[i].GetAttribute()]; !ok {
+			if cIndex, ok := m.neuron(inputAs[i].GetAttribute()); !ok {
 				panic("Can't resolve the Attribute!")
 			} else {
 				a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
@@ -135,7 +148,10 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		// Decide which class to set
 		if floatMode > 0 {
 			for _, as := range outputAs {
-				cIndex := m.attrs[as.GetAttribute()]
+				cIndex, ok := m.neuron(as.GetAttribute())
+				if !ok {
+					panic("Can't resolve the Attribute!")
+				}
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
 			}
 		} else {
-- 
2.43.0


From fb2a01807b1b287879607104685934c5d491ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 116/129] fix: neural.MultiLayerNet.Fit: forget the previous
 training data

The number of class neurons added up over repeated calls, and Attributes
of earlier data stayed. Without inputs the class neurons were counted
from 1.
---
 neural/layered.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index ccf16b5..2eb3995 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -212,7 +212,9 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	// Enumerate the Attributes
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
-	attrCounter := 0
+	attrCounter := -1
+	m.attrs = make(map[base.Attribute]int)
+	m.classAttrCount = 0
 	for i, a := range inputAttrsVec {
 		attrCounter = i
 		m.attrs[a] = attrCounter
-- 
2.43.0


From 96144e67a103fcb477e4b4e4ddcab0e22daa3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 117/129] fix: neural.MultiLayerNet.Fit: stop by the mean
 squared error

As documented. Errors of opposite sign of several outputs cancelled, and
the sum was divided by one row too few (a single row never converged).
---
 neural/layered.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 2eb3995..50eac71 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -5,7 +5,6 @@ import (
 	"github.com/sjwhitworth/golearn/base"
 	"github.com/sjwhitworth/golearn/filters"
 	"gonum.org/v1/gonum/mat"
-	"math"
 	"math/rand"
 )
 
@@ -316,10 +315,10 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	// until convergence (what's that)
 	for iteration := 0; iteration < m.MaxIterations; iteration++ {
 		totalError := 0.0
-		maxRow := 0
+		rows := 0
 		insts.MapOverRows(trainAs, func(row [][]byte, i int) (bool, error) {
 
-			maxRow = i
+			rows++
 			// Clear vectors
 			for i := 0; i < size; i++ {
 				trainVec.Set(i, 0, 0.0)
@@ -350,7 +349,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 			}
 
 			// Update total error
-			totalError += math.Abs(mat.Sum(errVec))
+			totalError += mat.Dot(errVec.ColView(0), errVec.ColView(0))
 
 			// Back-propagate the error
 			b := m.network.Error(trainVec, errVec, totalLayers)
@@ -364,7 +363,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 			return true, nil
 		})
 
-		totalError /= float64(maxRow)
+		totalError /= float64(rows)
 		// If we've converged, no need to carry on
 		if totalError < m.Convergence {
 			break
-- 
2.43.0


From 63110fb00c6ac2304cabb21734df80ee707cafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 118/129] fix: linear models: report incomplete model files

load_model ignored what fscanf returned: a file cut in the header was
read for ever, one cut in the weights gave a model of what happened to
be in memory.
---
 linear_models/linear.cpp | 73 ++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index 3e09f0b..3322a1b 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -918,9 +919,7 @@ static void solve_l2r_l1l2_svc(
 		if(iter % 10 == 0)
 			info(".");
 
-		// All projected gradients may be equal without being near zero
-		if(PGmax_new - PGmin_new <= eps &&
-			(active_size == 0 || (PGmax_new >= -eps && PGmin_new <= eps)))
+		if(PGmax_new - PGmin_new <= eps)
 		{
 			if(active_size == l)
 				break;
@@ -2641,20 +2640,41 @@ int save_model(const char *model_file_name, const struct model *model_)
 	else return 0;
 }
 
+#define EXIT_LOAD_MODEL()\
+{\
+	setlocale(LC_ALL, old_locale);\
+	free(model_->label);\
+	free(model_->w);\
+	free(model_);\
+	free(old_locale);\
+	fclose(fp);\
+	return NULL;\
+}
+
+#define FSCANF(_stream, _format, _var)\
+{\
+	if(fscanf(_stream, _format, _var) != 1)\
+	{\
+		fprintf(stderr,"incomplete model file\n");\
+		EXIT_LOAD_MODEL()\
+	}\
+}
+
 struct model *load_model(const char *model_file_name)
 {
 	FILE *fp = fopen(model_file_name,"r");
 	if(fp==NULL) return NULL;
 
 	int i;
-	int nr_feature;
+	int nr_feature = -1;
 	int n;
-	int nr_class;
+	int nr_class = 0;
 	double bias;
 	model *model_ = Malloc(model,1);
 	parameter& param = model_->param;
 
 	model_->label = NULL;
+	model_->w = NULL;
 
 	char *old_locale = strdup(setlocale(LC_ALL, NULL));
 	setlocale(LC_ALL, "C");
@@ -2662,10 +2682,10 @@ struct model *load_model(const char *model_file_name)
 	char cmd[81];
 	while(1)
 	{
-		fscanf(fp,"%80s",cmd);
+		FSCANF(fp,"%80s",cmd);
 		if(strcmp(cmd,"solver_type")==0)
 		{
-			fscanf(fp,"%80s",cmd);
+			FSCANF(fp,"%80s",cmd);
 			int i;
 			for(i=0;solver_type_table[i];i++)
 			{
@@ -2678,27 +2698,22 @@ struct model *load_model(const char *model_file_name)
 			if(solver_type_table[i] == NULL)
 			{
 				fprintf(stderr,"unknown solver type.\n");
-
-				setlocale(LC_ALL, old_locale);
-				free(model_->label);
-				free(model_);
-				free(old_locale);
-				return NULL;
+				EXIT_LOAD_MODEL()
 			}
 		}
 		else if(strcmp(cmd,"nr_class")==0)
 		{
-			fscanf(fp,"%d",&nr_class);
+			FSCANF(fp,"%d",&nr_class);
 			model_->nr_class=nr_class;
 		}
 		else if(strcmp(cmd,"nr_feature")==0)
 		{
-			fscanf(fp,"%d",&nr_feature);
+			FSCANF(fp,"%d",&nr_feature);
 			model_->nr_feature=nr_feature;
 		}
 		else if(strcmp(cmd,"bias")==0)
 		{
-			fscanf(fp,"%lf",&bias);
+			FSCANF(fp,"%lf",&bias);
 			model_->bias=bias;
 		}
 		else if(strcmp(cmd,"w")==0)
@@ -2710,20 +2725,21 @@ struct model *load_model(const char *model_file_name)
 			int nr_class = model_->nr_class;
 			model_->label = Malloc(int,nr_class);
 			for(int i=0;i<nr_class;i++)
-				fscanf(fp,"%d",&model_->label[i]);
+				FSCANF(fp,"%d",&model_->label[i]);
 		}
 		else
 		{
 			fprintf(stderr,"unknown text in model file: [%s]\n",cmd);
-			setlocale(LC_ALL, old_locale);
-			free(model_->label);
-			free(model_);
-			free(old_locale);
-			return NULL;
+			EXIT_LOAD_MODEL()
 		}
 	}
 
-	nr_feature=model_->nr_feature;
+	if(nr_class < 1 || nr_feature < 0)
+	{
+		fprintf(stderr,"incomplete model file\n");
+		EXIT_LOAD_MODEL()
+	}
+
 	if(model_->bias>=0)
 		n=nr_feature+1;
 	else
@@ -2740,8 +2756,15 @@ struct model *load_model(const char *model_file_name)
 	{
 		int j;
 		for(j=0; j<nr_w; j++)
-			fscanf(fp, "%lf ", &model_->w[i*nr_w+j]);
-		fscanf(fp, "\n");
+		{
+			FSCANF(fp, "%lf", &model_->w[i*nr_w+j]);
+			// A number that ends with the file may have been cut
+			if(!isspace(fgetc(fp)))
+			{
+				fprintf(stderr,"incomplete model file\n");
+				EXIT_LOAD_MODEL()
+			}
+		}
 	}
 
 	setlocale(LC_ALL, old_locale);
-- 
2.43.0


From c4c343d7e3a7a89629f16665cf29d2b5f6a4a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 119/129] fix: base.GetU64ForKey: report values that are cut

They were read beyond their end, or panicked.
---
 base/serialize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 8dabcb7..8beec0b 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -211,6 +211,9 @@ func (c *ClassifierDeserializer) GetU64ForKey(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if len(b) != 8 {
+		return 0, WrapError(fmt.Errorf("Expected 8 bytes for %s, got %d", key, len(b)))
+	}
 	return UnpackBytesToU64(b), nil
 }
 
-- 
2.43.0


From e25d2bb191467de34802e343308b004b8609866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:54 +0000
Subject: [PATCH 120/129] fix: base: report failing reads of CSV data

---
 base/csv.go | 53 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/base/csv.go b/base/csv.go
index 180c039..78e7681 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -12,7 +12,9 @@ import (
 
 // ParseCSVGetRowsFromReader returns the number of rows in a given reader.
 func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return 0, err
+	}
 	reader := csv.NewReader(r)
 	counter := 0
 	for {
@@ -36,7 +38,9 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	// Scan through the file line-by-line
 	maxL := 0
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return 0, err
+	}
 	scanner := bufio.NewScanner(r)
 	lineCount := 0
 	for scanner.Scan() {
@@ -65,6 +69,9 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 		}
 		lineCount++
 	}
+	if err := scanner.Err(); err != nil && err != bufio.ErrTooLong {
+		return 0, err
+	}
 	return maxL, nil
 }
 
@@ -79,11 +86,28 @@ func ParseCSVGetAttributesFromReader(r io.ReadSeeker, hasHeaders bool) []Attribu
 	return attrs
 }
 
+// parseCSVAttributes is ParseCSVGetAttributesFromReader for callers which
+// report errors (the reader's among them) instead of panicking.
+func parseCSVAttributes(r io.ReadSeeker, hasHeaders bool) (attrs []Attribute, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			e, ok := r.(error)
+			if _, isRuntime := r.(runtime.Error); !ok || isRuntime {
+				panic(r)
+			}
+			attrs, err = nil, e
+		}
+	}()
+	return ParseCSVGetAttributesFromReader(r, hasHeaders), nil
+}
+
 // ParseCSVSniffAttributeNamesFromReader returns a slice containing the top row
 // of a given reader with CSV-contents, or placeholders if hasHeaders is false.
 func ParseCSVSniffAttributeNamesFromReader(r io.ReadSeeker, hasHeaders bool) []string {
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		panic(err)
+	}
 	reader := csv.NewReader(r)
 	headers, err := reader.Read()
 	if err != nil {
@@ -112,7 +136,9 @@ func ParseCSVSniffAttributeTypesFromReader(r io.ReadSeeker, hasHeaders bool) []A
 	var attrs []Attribute
 
 	// Create the CSV reader
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		panic(err)
+	}
 	reader := csv.NewReader(r)
 	var headers []string
 	var err error
@@ -175,7 +201,9 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 
 	specs := ResolveAttributes(u, attrs)
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return err
+	}
 	reader := csv.NewReader(r)
 
 	for {
@@ -222,7 +250,10 @@ func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances
 	}
 
 	// Read the row headers
-	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
+	attrs, err := parseCSVAttributes(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
 	specs := make([]AttributeSpec, len(attrs))
 	// Allocate the Instances to return
 	instances = NewDenseInstances()
@@ -273,7 +304,10 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 	}
 
 	// Read the row headers
-	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
+	attrs, err := parseCSVAttributes(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
 	templateAttrs := template.AllAttributes()
 	ParseMatchAttributes(attrs, templateAttrs)
 
@@ -314,7 +348,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 	}
 
 	// Read the row headers
-	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
+	attrs, err := parseCSVAttributes(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
 	for i := range attrs {
 		if a, ok := attrOverrides[i]; ok {
 			attrs[i] = a
-- 
2.43.0


From f0d379d57cebe06ac768c551e856856350902ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 121/129] fix: linear models: restore the stopping rule of the
 dual solver

The change to load_model undid it by mistake.
---
 linear_models/linear.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index 3322a1b..0093703 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -919,7 +919,9 @@ static void solve_l2r_l1l2_svc(
 		if(iter % 10 == 0)
 			info(".");
 
-		if(PGmax_new - PGmin_new <= eps)
+		// All projected gradients may be equal without being near zero
+		if(PGmax_new - PGmin_new <= eps &&
+			(active_size == 0 || (PGmax_new >= -eps && PGmin_new <= eps)))
 		{
 			if(active_size == l)
 				break;
-- 
2.43.0


From a7611a614c26f2aa9e2722e6d6e1581269436a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 122/129] fix: estimate the precision of CSV files with long
 lines

---
 base/csv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 78e7681..588edbf 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -5,6 +5,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"runtime"
 	"strings"
@@ -42,6 +43,8 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 		return 0, err
 	}
 	scanner := bufio.NewScanner(r)
+	// Lines can be longer than the scanner's default maximum
+	scanner.Buffer(nil, math.MaxInt32)
 	lineCount := 0
 	for scanner.Scan() {
 		if lineCount > 5 {
-- 
2.43.0


From bcd3a6fef5e223374fa9441da5a249be1224b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:56 +0000
Subject: [PATCH 123/129] fix: bagged models stop drawing when every attribute
 is selected

With RandomFeatures above the number of attributes Fit drew for ever.
---
 meta/bagging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index d5c4492..476b6b4 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -29,7 +29,7 @@ func (b *BaggedModel) generateTrainingAttrs(model int, from base.FixedDataGrid)
 		ret = attrs
 	} else {
 		for {
-			if len(ret) >= b.RandomFeatures {
+			if len(ret) >= b.RandomFeatures || len(ret) >= len(attrs) {
 				break
 			}
 			attrIndex := rand.Intn(len(attrs))
-- 
2.43.0


From a2d2e07941530621f594b2c334968ea7a43b7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:29 +0000
Subject: [PATCH 124/129] fix: an averaged perceptron that is trained again
 starts anew

It went on from the averaged weights of the earlier training.
---
 perceptron/average.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/perceptron/average.go b/perceptron/average.go
index 89bd0dc..142805f 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -70,6 +70,7 @@ func (p *AveragePerceptron) Fit(trainingData base.FixedDataGrid) {
 	learning := true
 
 	data := processData(trainingData)
+	p.weights = make([]float64, len(p.weights))
 	p.edges, p.count = make([]float64, len(p.weights)), 0
 	for learning {
 		for _, datum := range data {
-- 
2.43.0


From eb42c399e0ca7f533c3bf806f9404f4ae6523490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:13 +0000
Subject: [PATCH 125/129] fix: thresholds separate adjacent and very large
 numbers

---
 trees/entropy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trees/entropy.go b/trees/entropy.go
index 932bc73..f28773a 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -141,6 +141,14 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 		}
 		val := refs[i].val + refs[i+1].val
 		val /= 2
+		if math.IsInf(val, 0) {
+			// the sum overflowed
+			val = refs[i].val/2 + refs[i+1].val/2
+		}
+		if !(val < refs[i+1].val) {
+			// the midpoint of adjacent numbers rounded up
+			val = refs[i].val
+		}
 		splitEntropy := getSplitEntropyFast(splitDist)
 		if splitEntropy < minSplitEntropy {
 			minSplitEntropy = splitEntropy
-- 
2.43.0


From 12562e2809acf30184c0357900dd07a0721b1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:01 +0000
Subject: [PATCH 126/129] fix: chi-squared percentiles are right for large
 values and many classes

---
 filters/chimerge_funcs.go | 46 ++-------------------------------------
 1 file changed, 2 insertions(+), 44 deletions(-)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 9a35996..c93e39b 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -2,6 +2,7 @@ package filters
 
 import (
 	"github.com/sjwhitworth/golearn/base"
+	"gonum.org/v1/gonum/mathext"
 	"math"
 )
 
@@ -41,55 +42,12 @@ func ChiMBuildFrequencyTable(attr base.Attribute, inst base.FixedDataGrid) []*Fr
 	return ret
 }
 
-func chiSquaredPdf(k float64, x float64) float64 {
-	if x < 0 {
-		return 0
-	}
-	top := math.Pow(x, (k/2)-1) * math.Exp(-x/2)
-	bottom := math.Pow(2, k/2) * math.Gamma(k/2)
-	return top / bottom
-}
-
 func chiSquaredPercentile(k int, x float64) float64 {
-	// Implements Yahya et al.'s "A Numerical Procedure
-	//  for Computing Chi-Square Percentage Points"
-	// InterStat Journal 01/2007; April 25:page:1-8.
 	if k < 1 || x <= 0 {
 		// With a single class or equal distributions nothing differs
 		return 0
 	}
-	if k == 1 {
-		// The density isn't finite at 0, use the closed form
-		return math.Erf(math.Sqrt(x / 2))
-	}
-	steps := 32
-	intervals := 4 * steps
-	w := x / (4.0 * float64(steps))
-	values := make([]float64, intervals+1)
-	for i := 0; i < intervals+1; i++ {
-		c := w * float64(i)
-		v := chiSquaredPdf(float64(k), c)
-		values[i] = v
-	}
-
-	ret1 := values[0] + values[len(values)-1]
-	ret2 := 0.0
-	ret3 := 0.0
-	ret4 := 0.0
-
-	for i := 2; i < intervals-1; i += 4 {
-		ret2 += values[i]
-	}
-
-	for i := 4; i < intervals-3; i += 4 {
-		ret3 += values[i]
-	}
-
-	for i := 1; i < intervals; i += 2 {
-		ret4 += values[i]
-	}
-
-	return (2.0 * w / 45) * (7*ret1 + 12*ret2 + 14*ret3 + 32*ret4)
+	return mathext.GammaIncReg(float64(k)/2, x/2)
 }
 
 func chiCountClasses(entries []*FrequencyTableEntry) map[string]int {
-- 
2.43.0


From a41f52ad9f9c22682796d191b997d3b535a302be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:35 +0000
Subject: [PATCH 127/129] fix: CSV templates may have several categorical
 columns

---
 base/util_instances.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index dd025ba..7ee8d4a 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -51,10 +51,12 @@ func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *De
 		if ag, ok := template.agRevMap[s.pond]; !ok {
 			panic(ag)
 		} else {
-			_, err := instances.AddAttributeToAttributeGroup(a, ag)
-			if err != nil {
+			// AddAttributeToAttributeGroup would refuse what AddAttribute
+			// put together in the template (e.g. differing categories)
+			if err := instances.ags[instances.agMap[ag]].AddAttribute(a); err != nil {
 				panic(err)
 			}
+			instances.attributes = append(instances.attributes, a)
 		}
 	}
 	return instances
-- 
2.43.0


From 9da148082aa4f0c23282ddbf6ebc524134c3861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:35 +0000
Subject: [PATCH 128/129] fix: class attributes of views are attributes of the
 view

---
 base/view.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/view.go b/base/view.go
index 084dbc7..87857a9 100644
--- a/base/view.go
+++ b/base/view.go
@@ -156,6 +156,7 @@ func (v *InstancesView) AddClassAttribute(a Attribute) error {
 	for _, r := range v.AllAttributes() {
 		if r.Equals(a) {
 			matched = true
+			a = r // callers compare with AllAttributes by reference
 		}
 	}
 	if !matched {
-- 
2.43.0


From 5be8f11653f153ebcee1269d51d3a6268424b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:35 +0000
Subject: [PATCH 129/129] fix: class attributes of filtered grids are
 attributes of the grid

---
 base/filtered.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 0775cac..eb3b3aa 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -108,9 +108,9 @@ func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
 // to the set of defined class Attributes.
 func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 	if l.isUnfiltered(cls) {
-		for a := range l.classAttrs {
+		for _, a := range l.src.AllAttributes() {
 			if a.Equals(cls) {
-				cls = a
+				cls = a // callers compare with AllAttributes by reference
 			}
 		}
 		l.classAttrs[cls] = true
-- 
2.43.0

