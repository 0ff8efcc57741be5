From 1b991551417fdea99d23e3a596fd889bc655aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 1/4] fix: move pointers as pointers in SortSlice([]*T,
 []unsafe.Pointer)

Sorting pointer slices as []uint64/[]uint32 moved pointers without write
barriers (and held them in integer variables), so a garbage collection running
during the sort could miss and free objects that are still in the slice.
Pointers get their own copy of the type-specific sorter.
---
 sortyP.go     | 361 ++++++++++++++++++++++++++++++++++++++++++++++++++
 sortySlice.go |   9 ++
 2 files changed, 370 insertions(+)
 create mode 100644 sortyP.go

diff --git a/sortyP.go b/sortyP.go
new file mode 100644
index 0000000..ee18547
--- /dev/null
+++ b/sortyP.go
@@ -0,0 +1,361 @@
+/*	Copyright (c) 2019-present, Serhat Şevki Dinçer.
+	This Source Code Form is subject to the terms of the Mozilla Public
+	License, v. 2.0. If a copy of the MPL was not distributed with this
+	file, You can obtain one at http://mozilla.org/MPL/2.0/.
+*/
+
+package sorty
+
+import (
+	"sync/atomic"
+	"unsafe"
+
+	"github.com/jfcg/sixb"
+)
+
+// insertion sort, inlined
+func insertionP(slc []unsafe.Pointer) {
+	for h := 1; h < len(slc); h++ {
+		l, val := h, slc[h]
+		var pre unsafe.Pointer
+		goto start
+	loop:
+		slc[l] = pre
+		l--
+		if l == 0 {
+			goto last
+		}
+	start:
+		pre = slc[l-1]
+		if uintptr(val) < uintptr(pre) {
+			goto loop
+		}
+		if l == h {
+			continue
+		}
+	last:
+		slc[l] = val
+	}
+}
+
+// pivotP selects n equidistant samples from slc that minimizes max distance
+// to non-selected members, then calculates median-of-n pivot from samples.
+// Assumes odd n, nsConc > n ≥ 3, len(slc) ≥ 2n. Returns pivot for partitioning.
+//
+//go:nosplit
+func pivotP(slc []unsafe.Pointer, n uint) unsafe.Pointer {
+
+	first, step, _ := minMaxSample(uint(len(slc)), n)
+
+	var sample [nsConc - 1]unsafe.Pointer
+	for i := int(n - 1); i >= 0; i-- {
+		sample[i] = slc[first]
+		first += step
+	}
+	insertionP(sample[:n]) // sort n samples
+
+	return sample[n>>1] // return middle sample
+}
+
+// partition slc, returns k with slc[:k] ≤ pivot ≤ slc[k:]
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
+// next: slc[l] ≤ pv ≤ slc[h]
+//
+//go:nosplit
+func partOneP(slc []unsafe.Pointer, pv unsafe.Pointer) int {
+	l, h := 0, len(slc)-1
+	goto start
+second:
+	for {
+		h--
+		if h <= l {
+			return l
+		}
+		if uintptr(slc[h]) <= uintptr(pv) {
+			break
+		}
+	}
+swap:
+	slc[l], slc[h] = slc[h], slc[l]
+next:
+	l++
+	h--
+start:
+	if h <= l {
+		goto last
+	}
+
+	if uintptr(pv) <= uintptr(slc[h]) { // avoid unnecessary comparisons
+		if uintptr(pv) < uintptr(slc[l]) { // extend ranges in balance
+			goto second
+		}
+		goto next
+	}
+	for {
+		if uintptr(pv) <= uintptr(slc[l]) {
+			goto swap
+		}
+		l++
+		if h <= l {
+			return l + 1
+		}
+	}
+last:
+	if l == h && uintptr(slc[h]) < uintptr(pv) { // classify mid element
+		l++
+	}
+	return l
+}
+
+// swaps elements to get slc[:l] ≤ pivot ≤ slc[h:]
+// Gap (l,h) expands until one of the intervals is fully consumed.
+// swap: slc[h] < pv ≤ slc[l]
+// swap: slc[h] ≤ pv < slc[l]
+// next: slc[l] ≤ pv ≤ slc[h]
+//
+//go:nosplit
+func partTwoP(slc []unsafe.Pointer, l, h int, pv unsafe.Pointer) int {
+	l--
+	if h <= l {
+		return -1 // will not run
+	}
+	goto start
+second:
+	for {
+		h++
+		if h >= len(slc) {
+			return l
+		}
+		if uintptr(slc[h]) <= uintptr(pv) {
+			break
+		}
+	}
+swap:
+	slc[l], slc[h] = slc[h], slc[l]
+next:
+	l--
+	h++
+start:
+	if l < 0 {
+		return h
+	}
+	if h >= len(slc) {
+		return l
+	}
+
+	if uintptr(pv) <= uintptr(slc[h]) { // avoid unnecessary comparisons
+		if uintptr(pv) < uintptr(slc[l]) { // extend ranges in balance
+			goto second
+		}
+		goto next
+	}
+	for {
+		if uintptr(pv) <= uintptr(slc[l]) {
+			goto swap
+		}
+		l--
+		if l < 0 {
+			return h
+		}
+	}
+}
+
+// new-goroutine partition
+//
+//go:nosplit
+func gPartOneP(ar []unsafe.Pointer, pv unsafe.Pointer, ch chan int) {
+	ch <- partOneP(ar, pv)
+}
+
+// partition slc in two goroutines, returns k with slc[:k] ≤ pivot ≤ slc[k:]
+//
+//go:nosplit
+func partConP(slc []unsafe.Pointer, ch chan int) int {
+
+	pv := pivotP(slc, nsConc-1) // median-of-n pivot
+	mid := len(slc) >> 1
+	l, h := mid>>1, sixb.MeanI(mid, len(slc))
+
+	go gPartOneP(slc[l:h:h], pv, ch) // mid half range
+
+	r := partTwoP(slc, l, h, pv) // left/right quarter ranges
+
+	k := l + <-ch // convert returned index to slc
+
+	// only one gap is possible
+	if r < mid {
+		for ; 0 <= r; r-- { // gap left in low range?
+			if uintptr(pv) < uintptr(slc[r]) {
+				k--
+				slc[r], slc[k] = slc[k], slc[r]
+			}
+		}
+	} else {
+		for ; r < len(slc); r++ { // gap left in high range?
+			if uintptr(slc[r]) < uintptr(pv) {
+				slc[r], slc[k] = slc[k], slc[r]
+				k++
+			}
+		}
+	}
+	return k
+}
+
+// short range sort function, assumes MaxLenIns < len(ar) <= MaxLenRec, recursive
+func shortP(ar []unsafe.Pointer) {
+start:
+	first, step, last := minMaxSample(uint(len(ar)), 3)
+	f, pv, l := ar[first], ar[first+step], ar[last]
+
+	if uintptr(pv) < uintptr(f) {
+		pv, f = f, pv
+	}
+	if uintptr(l) < uintptr(pv) {
+		if uintptr(l) < uintptr(f) {
+			pv = f
+		} else {
+			pv = l // median-of-3 pivot
+		}
+	}
+
+	k := partOneP(ar, pv)
+	var aq []unsafe.Pointer
+
+	if k < len(ar)-k {
+		aq = ar[:k:k]
+		ar = ar[k:] // ar is the longer range
+	} else {
+		aq = ar[k:]
+		ar = ar[:k:k]
+	}
+
+	if len(aq) > MaxLenIns {
+		shortP(aq) // recurse on the shorter range
+		goto start
+	}
+isort:
+	insertionP(aq) // at least one insertion range
+
+	if len(ar) > MaxLenIns {
+		goto start
+	}
+	if &ar[0] != &aq[0] {
+		aq = ar
+		goto isort // two insertion ranges
+	}
+}
+
+// new-goroutine sort function
+//
+//go:nosplit
+func gLongP(ar []unsafe.Pointer, sv *syncVar) {
+	longP(ar, sv)
+
+	if atomic.AddUint64(&sv.nGor, ^uint64(0)) == 0 { // decrease goroutine counter
+		sv.done <- 0 // we are the last, all done
+	}
+}
+
+// long range sort function, assumes len(ar) > MaxLenRec, recursive
+func longP(ar []unsafe.Pointer, sv *syncVar) {
+start:
+	pv := pivotP(ar, nsLong-1) // median-of-n pivot
+	k := partOneP(ar, pv)
+	var aq []unsafe.Pointer
+
+	if k < len(ar)-k {
+		aq = ar[:k:k]
+		ar = ar[k:] // ar is the longer range
+	} else {
+		aq = ar[k:]
+		ar = ar[:k:k]
+	}
+
+	// branches below are optimal for fewer total jumps
+	if len(aq) <= MaxLenRec { // at least one not-long range?
+
+		if len(aq) > MaxLenIns {
+			shortP(aq)
+		} else {
+			insertionP(aq)
+		}
+
+		if len(ar) > MaxLenRec { // two not-long ranges?
+			goto start
+		}
+		shortP(ar) // we know len(ar) > MaxLenIns
+		return
+	}
+
+	// max goroutines? not atomic but good enough
+	if sv == nil || gorFull(sv) {
+		longP(aq, sv) // recurse on the shorter range
+		goto start
+	}
+
+	// new-goroutine sort on the longer range only when
+	// both ranges are big and max goroutines is not exceeded
+	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
+	go gLongP(ar, sv)
+	ar = aq
+	goto start
+}
+
+// sortP concurrently sorts ar in ascending order.
+//
+//go:nosplit
+func sortP(ar []unsafe.Pointer) {
+
+	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+
+		if len(ar) > MaxLenRec { // single-goroutine sorting
+			longP(ar, nil)
+		} else if len(ar) > MaxLenIns {
+			shortP(ar)
+		} else {
+			insertionP(ar)
+		}
+		return
+	}
+
+	// create channel only when concurrent partitioning & sorting
+	sv := syncVar{1, // number of goroutines including this
+		make(chan int)} // end signal
+	for {
+		// concurrent dual partitioning with done
+		k := partConP(ar, sv.done)
+		var aq []unsafe.Pointer
+
+		if k < len(ar)-k {
+			aq = ar[:k:k]
+			ar = ar[k:] // ar is the longer range
+		} else {
+			aq = ar[k:]
+			ar = ar[:k:k]
+		}
+
+		// handle shorter range
+		if len(aq) > MaxLenRec {
+			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
+			go gLongP(aq, &sv)
+
+		} else if len(aq) > MaxLenIns {
+			shortP(aq)
+		} else {
+			insertionP(aq)
+		}
+
+		// longer range big enough? max goroutines?
+		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+			break
+		}
+		// dual partition longer range
+	}
+
+	longP(ar, &sv) // we know len(ar) > MaxLenRec
+
+	if atomic.AddUint64(&sv.nGor, ^uint64(0)) != 0 { // decrease goroutine counter
+		<-sv.done // we are not the last, wait
+	}
+}
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..cc9cfe8 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -63,6 +63,15 @@ func IsSortedSlice(ar any) int {
 //go:nosplit
 func SortSlice(ar any) {
 	slc, kind := extractSK(ar)
+	if kind != reflect.Invalid {
+		switch reflect.TypeOf(ar).Elem().Kind() {
+		case reflect.Pointer, reflect.UnsafePointer:
+			// must move pointers as pointers, garbage collector tracks those writes
+			p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+			sortP(p)
+			return
+		}
+	}
 	switch kind {
 	case reflect.Int32:
 		i := *(*[]int32)(unsafe.Pointer(&slc))
-- 
2.43.0


From 13763759eb766600d5457106cfd492f657c8b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 2/4] fix: no index overflow in Sort's pivot at lengths near
 the largest int

Advancing past the last sample overflowed when the length was above about
0.9*MaxInt (n > 1.9e9 on 32-bit platforms) and lesswap got negative indices.
---
 sortyLsw.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..5cb0b4e 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -64,7 +64,8 @@ func pivot(lsw Lesswap, lo, hi int, n uint) int {
 	last := lo + int(l)
 
 	// insertion sort slc[first + j * step], j=0,1,..
-	for h := first + step; h <= last; h += step {
+	for h := first; h < last; { // last + step can overflow
+		h += step
 		for l := h; lsw(l, l-step, l, l-step); {
 			l -= step
 			if l <= first {
-- 
2.43.0


From 8d7daa65b31d5ea36c51563771d997adacb408a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 3/4] fix: no overflow when checking MaxLenIns at start

2*MaxLenIns overflowed for MaxLenIns above half of the largest int, so a
MaxLenRecFC below it was accepted.
---
 sorty.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..d8436b5 100644
--- a/sorty.go
+++ b/sorty.go
@@ -31,8 +31,9 @@ import (
 var MaxGor uint64 = 3
 
 func init() {
-	if !(4097 > MaxGor && MaxGor > 0 && MaxLenRec > MaxLenRecFC && MaxLenRecFC >
-		2*MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > 2*nsShort) {
+	if !(4097 > MaxGor && MaxGor > 0 && MaxLenRec > MaxLenRecFC &&
+		MaxLenRecFC > MaxLenIns && MaxLenRecFC-MaxLenIns > MaxLenIns &&
+		MaxLenIns > MaxLenInsFC && MaxLenInsFC > 2*nsShort) {
 		panic("sorty: check your MaxGor/MaxLen* values")
 	}
 }
-- 
2.43.0


From c4e22088026bb6d53d7c00704ebd5c5522cfafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 4/4] fix: no overflow in length checks for
 MaxLenRec/MaxLenRecFC above half of the largest int

2*(MaxLenRec+1) was then negative or zero, so that sorts of any length, 0 and 1
included, partitioned concurrently: they panicked or never returned.
---
 sortyB.go    | 4 ++--
 sortyF4.go   | 4 ++--
 sortyF8.go   | 4 ++--
 sortyI4.go   | 4 ++--
 sortyI8.go   | 4 ++--
 sortyLenB.go | 4 ++--
 sortyLenS.go | 4 ++--
 sortyLsw.go  | 4 ++--
 sortyP.go    | 4 ++--
 sortyS.go    | 4 ++--
 sortyU4.go   | 4 ++--
 sortyU8.go   | 4 ++--
 12 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/sortyB.go b/sortyB.go
index e5f93d0..b95d9d0 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -315,7 +315,7 @@ start:
 // sortB concurrently sorts ar in ascending lexicographic order.
 func sortB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRecFC || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longB(ar, nil)
@@ -355,7 +355,7 @@ func sortB(ar [][]byte) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRecFC || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..0ffdc42 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -364,7 +364,7 @@ func sortF4(ar []float32) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF4(ar, nil)
@@ -404,7 +404,7 @@ func sortF4(ar []float32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..917cd4a 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -364,7 +364,7 @@ func sortF8(ar []float64) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF8(ar, nil)
@@ -404,7 +404,7 @@ func sortF8(ar []float64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..9a1e967 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortI4(ar []int32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI4(ar, nil)
@@ -361,7 +361,7 @@ func sortI4(ar []int32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index c546035..8f0d2a6 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortI8(ar []int64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI8(ar, nil)
@@ -361,7 +361,7 @@ func sortI8(ar []int64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..8c6cc1a 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -322,7 +322,7 @@ start:
 //go:nosplit
 func sortLenB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenB(ar, nil)
@@ -362,7 +362,7 @@ func sortLenB(ar [][]byte) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..70e19a3 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -322,7 +322,7 @@ start:
 //go:nosplit
 func sortLenS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenS(ar, nil)
@@ -362,7 +362,7 @@ func sortLenS(ar []string) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index 5cb0b4e..ecfdde3 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -338,7 +338,7 @@ start:
 func Sort(n int, lsw Lesswap) {
 
 	n-- // high index
-	if n <= 2*MaxLenRecFC || MaxGor <= 1 {
+	if (n+1)>>1 <= MaxLenRecFC || MaxGor <= 1 {
 
 		if n >= MaxLenRecFC { // single-goroutine sorting
 			long(lsw, 0, n, nil)
@@ -379,7 +379,7 @@ func Sort(n int, lsw Lesswap) {
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || gorFull(&sv) {
+		if (no+1)>>1 <= MaxLenRecFC || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyP.go b/sortyP.go
index ee18547..5287096 100644
--- a/sortyP.go
+++ b/sortyP.go
@@ -307,7 +307,7 @@ start:
 //go:nosplit
 func sortP(ar []unsafe.Pointer) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longP(ar, nil)
@@ -347,7 +347,7 @@ func sortP(ar []unsafe.Pointer) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index 621df0d..77a2491 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -315,7 +315,7 @@ start:
 // sortS concurrently sorts ar in ascending lexicographic order.
 func sortS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRecFC || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longS(ar, nil)
@@ -355,7 +355,7 @@ func sortS(ar []string) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRecFC || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..e0d8402 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortU4(ar []uint32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU4(ar, nil)
@@ -361,7 +361,7 @@ func sortU4(ar []uint32) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..9438cbf 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortU8(ar []uint64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar)>>1 <= MaxLenRec || MaxGor <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU8(ar, nil)
@@ -361,7 +361,7 @@ func sortU8(ar []uint64) {
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar)>>1 <= MaxLenRec || gorFull(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0

