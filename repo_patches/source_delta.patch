From dfa9e0dac420aa623c925204cced3c8dc6fd5d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 01/49] fix: Insert never finished on lists with a split size
 below 4

---
 list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 08a3ee9..f43b27e 100644
--- a/list.go
+++ b/list.go
@@ -1573,7 +1573,10 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 	store := blobstore.StoreWithSet(bs, l.Set)
 
 	// Limit single inserts to inserting max into each segment.
-	var wantLimit = (l.SplitSize / 4) * len(l.index.Segments)
+	var wantLimit = (l.SplitSize / 4) * len(segs.index.Segments)
+	if wantLimit < 1 {
+		wantLimit = 1
+	}
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
-- 
2.43.0


From 5e8ffa9219cf821a4b062526d0bc6458fe46373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 02/49] fix: looked up elements were not sorted by rank across
 segments

---
 segments.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segments.go b/segments.go
index 71ddfd1..b4e8132 100644
--- a/segments.go
+++ b/segments.go
@@ -956,10 +956,12 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 		return nil, err
 	}
 	close(resch)
-	var res []RankedElement
+	var res RankedElements
 	for e := range resch {
 		res = append(res, e...)
 	}
+	// Segments answer in any order.
+	res.Sort()
 	return res, nil
 }
 
-- 
2.43.0


From f17be0722922e3e443ab08d7c5b322f0302b39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 03/49] fix: previous rank of updated elements was relative to
 the segment and had no rank from bottom

---
 list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index f43b27e..4ce4e0d 100644
--- a/list.go
+++ b/list.go
@@ -1277,6 +1277,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	segmentScoresWait := make(map[int]chan struct{})
 	// Contains all segments with previous score values.
 	oldRank := make(map[ElementID]*RankedElement)
+	// Rank of the first element of each segment and number of elements prior to update.
+	oldOffsets, oldTotal := scores.topOffsets()
 
 	// used for local locking
 	var mu sync.Mutex
@@ -1376,11 +1378,12 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				}
 				if results {
 					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, 0, 0)
+					rank, err := scores.findRanked(ctx, store, ss, eid, oldOffsets[segIdx], 0)
 					if err != nil {
 						log.Info(ctx, "Could not find element", "error", err.Error())
 						continue
 					}
+					rank.CalculateFromBottom(oldTotal)
 					withLock(func() {
 						oldRank[eid] = rank
 					})
-- 
2.43.0


From c69eead61821eab6de215d452a3d3e9b108c38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 04/49] fix: percentile of an empty list or of a list with an
 empty last segment panicked

---
 list.go     | 7 +++++++
 segments.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/list.go b/list.go
index 4ce4e0d..10d84ca 100644
--- a/list.go
+++ b/list.go
@@ -1752,10 +1752,17 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 
 	store := blobstore.StoreWithSet(bs, set)
 	segOffs, total := segs.scores.topOffsets()
+	if total == 0 {
+		// There is no element at any percentile of an empty list.
+		return nil, nil
+	}
 	var bTotal = &big.Float{}
 	bTotal = bTotal.SetInt(big.NewInt(int64(total)))
 	bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
 	wantOff, _ := bTotal.Int64()
+	if wantOff >= int64(total) {
+		wantOff = int64(total) - 1
+	}
 	for i, segOff := range segOffs {
 		if wantOff < int64(segOff) {
 			e, err := segs.scores.getElementIndex(ctx, store, i-1, int(wantOff)-segOffs[i-1], segOffs[i-1], radius)
diff --git a/segments.go b/segments.go
index b4e8132..ded8fa3 100644
--- a/segments.go
+++ b/segments.go
@@ -974,6 +974,10 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	}
 	defer ls.unlock()
 
+	if len(ls.elements) == 0 {
+		// Emptied since the caller looked.
+		return nil, ErrNotFound
+	}
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
-- 
2.43.0


From 799adb8fbc2f00ded588f7547623db650a07cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 05/49] fix: negative offsets panicked instead of being out of
 bounds

---
 segments.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segments.go b/segments.go
index ded8fa3..b3712c6 100644
--- a/segments.go
+++ b/segments.go
@@ -599,6 +599,9 @@ func (s *Segments) reindex() {
 // Returns -1 if offset is after last element.
 // caller must hold read lock.
 func (s *Segments) segIdxTop(offset int) (segIdx, elementOffset int) {
+	if offset < 0 {
+		return -1, -1
+	}
 	n := 0
 	s.SegmentsLock.RLock()
 	defer s.SegmentsLock.RUnlock()
@@ -616,6 +619,9 @@ func (s *Segments) segIdxTop(offset int) (segIdx, elementOffset int) {
 // Returns -1 if offset is before first element.
 // caller must hold read lock.
 func (s *Segments) segIdxBottom(offset int) (segIdx, elementOffset int) {
+	if offset < 0 {
+		return -1, -1
+	}
 	n := 0
 	s.SegmentsLock.RLock()
 	defer s.SegmentsLock.RUnlock()
-- 
2.43.0


From 0634f2995f5712797656e700d4bd97aab77a96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 06/49] fix: segments were read locked twice by score queries,
 deadlocking with updates; huge counts panicked

---
 segments.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/segments.go b/segments.go
index b3712c6..7696859 100644
--- a/segments.go
+++ b/segments.go
@@ -1076,31 +1076,39 @@ func (s *Segments) getElementsFromScore(ctx context.Context, bs blobstore.WithSe
 		return nil, err
 	}
 
-	defer ls.unlock()
-	seg := ls.seg
+	// Elements that do not fit the score precede the requested ones,
+	// if there are only such elements we continue with the next segment.
+	first := len(ls.elements)
 	for i, elem := range ls.elements {
 		if elem.Score <= score {
-			e, err := s.getElementsOffset(ctx, bs, segIdx, i, elements)
-			if err != nil {
-				return nil, err
-			}
-			return e.Ranked(i, seg.N), nil
+			first = i
+			break
 		}
 	}
+	n := len(ls.elements)
+	// Unlock before the segment is locked again,
+	// otherwise we deadlock when a writer waits in between.
+	ls.unlock()
 
-	// Return first of next segment.
-	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements)
+	e, err := s.getElementsOffset(ctx, bs, segIdx, first, elements)
 	if err != nil {
 		return nil, err
 	}
-	return e.Ranked(seg.N, seg.N), nil
+	return e.Ranked(first, n), nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
 // If at end of list fewer results may be returned.
 // Caller must hold read lock to Segments.
 func (s *Segments) getElementsOffset(ctx context.Context, bs blobstore.WithSet, segIdx, firstElem, elements int) (Elements, error) {
-	var res = make(Elements, 0, elements)
+	alloc := elements
+	if n := s.Elements(); alloc > n {
+		alloc = n
+	}
+	if alloc < 0 {
+		alloc = 0
+	}
+	var res = make(Elements, 0, alloc)
 	for elements > 0 {
 		if segIdx >= len(s.Segments) {
 			break
-- 
2.43.0


From e15b1355713b0df6d56e4aa2cb0aefae60c5a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 07/49] fix: looking up neighbors held locks of several
 segments, deadlocking with updates; neighbors that failed to load were left
 out silently

---
 segments.go | 99 +++++++++++++++++++++++------------------------------
 1 file changed, 42 insertions(+), 57 deletions(-)

diff --git a/segments.go b/segments.go
index 7696859..e0433a5 100644
--- a/segments.go
+++ b/segments.go
@@ -943,7 +943,6 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				errch <- err
 				return
 			}
-			defer ls.unlock()
 			var res []RankedElement
 			for _, id := range ids {
 				re, err := s.findRanked(ctx, bs, ls, id, offsets[segIdx], radius)
@@ -954,6 +953,14 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				re.CalculateFromBottom(total)
 				res = append(res, *re)
 			}
+			ls.unlock()
+			for i := range res {
+				err := s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+				if err != nil {
+					errch <- err
+					return
+				}
+			}
 			resch <- res
 		}(segIdx, id)
 	}
@@ -978,23 +985,24 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	if err != nil {
 		return nil, err
 	}
-	defer ls.unlock()
 
 	if len(ls.elements) == 0 {
 		// Emptied since the caller looked.
+		ls.unlock()
 		return nil, ErrNotFound
 	}
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
 	re, err := s.findRanked(ctx, bs, ls, ls.elements[elementOff].ID, offset, radius)
+	ls.unlock()
 	if err != nil {
 		return nil, err
 	}
-	return re, nil
+	return re, s.addNeighbors(ctx, bs, re, segIdx, radius)
 }
 
-// findRanked returns ranked element.
+// findRanked returns ranked element, with the neighbors that are in the same segment.
 // caller must hold segment read lock and element read lock for supplied segment.
 func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *lockedSegment, id ElementID, offset, radius int) (*RankedElement, error) {
 	eidx, err := ls.elements.FindIdx(id)
@@ -1006,64 +1014,41 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 	r := RankedElement{
 		Element: ls.elements[eidx],
 		FromTop: offset + eidx,
-		Above:   make([]Element, 0, radius),
-		Below:   make([]Element, 0, radius),
+		Above:   []Element{},
+		Below:   []Element{},
 	}
-
-	if radius <= 0 {
-		return &r, nil
+	// Neighbors within the segment.
+	for i := eidx + 1; i < len(ls.elements) && len(r.Below) < radius; i++ {
+		r.Below = append(r.Below, ls.elements[i])
+	}
+	for i := eidx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		r.Above = append(r.Above, ls.elements[i])
 	}
-	segIdx := ls.index
+	return &r, nil
+}
 
-	// Below
-	func() {
-		bidx, bLS, bsegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			bidx++
-			for bidx == len(bLS.elements) {
-				// Load next
-				bsegIdx++
-				if bsegIdx == len(s.Segments) {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, bsegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", bsegIdx)
-					return
-				}
-				defer ls.unlock()
-				bLS = ls
-				bidx = 0
-			}
-			r.Below = append(r.Below, bLS.elements[bidx])
+// addNeighbors adds the neighbors that are not in the segment of the element itself.
+// The caller must hold segment read lock, but no element locks,
+// since holding more than one would deadlock with updates.
+func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) error {
+	if missing := radius - len(r.Below); missing > 0 {
+		e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, missing)
+		if err != nil {
+			return err
 		}
-	}()
-
-	// Above
-	func() {
-		aidx, aLS, asegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			aidx--
-			for aidx < 0 {
-				// Load previous
-				asegIdx--
-				if asegIdx == -1 {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, asegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", asegIdx)
-					return
-				}
-				aLS = ls
-				aidx = len(aLS.elements) - 1
-				defer ls.unlock()
-			}
-			r.Above = append(r.Above, aLS.elements[aidx])
+		r.Below = append(r.Below, e...)
+	}
+	for i := segIdx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			return err
 		}
-	}()
-
-	return &r, nil
+		for j := len(ls.elements) - 1; j >= 0 && len(r.Above) < radius; j-- {
+			r.Above = append(r.Above, ls.elements[j])
+		}
+		ls.unlock()
+	}
+	return nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From a08c99cb57fa5c06eb9918a464b5e3efb0dcf19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 08/49] fix: list statistics locked the segments twice,
 deadlocking with concurrent writers, and ignored storage errors

---
 list.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 10d84ca..4b787ee 100644
--- a/list.go
+++ b/list.go
@@ -1036,13 +1036,20 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 		res.CachePct = 100 * float64(res.CacheHits) / float64(res.CacheMisses+res.CacheHits)
 	}
 	if elements {
-		es, err := l.GetRankTop(ctx, bs, 0, 1)
+		// We hold the segments already, locking them again could deadlock.
+		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
 		if err == nil && len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
-		es, err = l.GetRankBottom(ctx, bs, 0, 1)
+		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
 		if err == nil && len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
-- 
2.43.0


From 36ec78f58fa01bc17d9810e280020e5bb5cfd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 09/49] fix: an element at the lower bound of a segment with
 the maximum update time belonged to no segment and got lost

---
 segment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index a4b9613..41eb289 100644
--- a/segment.go
+++ b/segment.go
@@ -118,11 +118,11 @@ func (s *Segment) FilterIdx(e Elements) (start, end int) {
 	if start == -1 {
 		return 0, 0
 	}
-	endE := &Element{Score: s.Min, TieBreaker: s.MinTie, Updated: math.MaxUint32}
+	endE := &Element{Score: s.Min, TieBreaker: s.MinTie, Updated: math.MaxUint32, ID: math.MaxUint64}
 	// Find first element that is below endE
 	end = len(e)
 	for i, elem := range e[start:] {
-		if !elem.aboveP(endE) {
+		if endE.aboveP(&elem) {
 			end = i + start
 			break
 		}
-- 
2.43.0


From 1a715f68af8ebb44aa585432030d81581f834346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 10/49] fix: sorting 25000 or more elements with equal score
 and tie breaker never finished

---
 elements.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elements.go b/elements.go
index 6f4c8ab..510dee8 100644
--- a/elements.go
+++ b/elements.go
@@ -130,9 +130,9 @@ func (l *Elements) Sort() (changed bool) {
 	}
 	// Split + sort
 	split := l.SplitSize(2500)
-	for i, s := range split {
-		s.Sort()
-		split[i] = s
+	for _, s := range split {
+		// Parts can be as big as the input when elements are tied.
+		sort.Slice(s, s.Sorter())
 	}
 
 	// Merge
-- 
2.43.0


From 60e75b3d01b561f155c589fc9650e5a8276521a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 11/49] fix: de-duplication kept the lowest score when update
 times are equal

---
 elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elements.go b/elements.go
index 510dee8..c67694c 100644
--- a/elements.go
+++ b/elements.go
@@ -85,7 +85,7 @@ func (l *Elements) Deduplicate() (changed bool) {
 		j := i
 		// If updated time equal, use highest score
 		if prev.Updated == e.Updated {
-			if prev.Score > e.Score {
+			if prev.Score < e.Score {
 				j = i - 1
 			}
 		} else {
-- 
2.43.0


From 43824642e2174eb5d656bf4dc914191df216888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 12/49] fix: division by zero when populating lists with tiny
 split and merge sizes

---
 elements.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elements.go b/elements.go
index c67694c..df53093 100644
--- a/elements.go
+++ b/elements.go
@@ -386,6 +386,9 @@ func (l *Elements) Delete(id ElementID) error {
 
 // SplitSize will split the elements into a slice of elements.
 func (l Elements) SplitSize(inEach int) []Elements {
+	if inEach < 1 {
+		inEach = 1
+	}
 	if len(l) <= inEach {
 		return []Elements{l}
 	}
-- 
2.43.0


From 8ee19b37c4cee7fab1ba6d579cce0568ee04fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 13/49] fix: failing to save an index released the wrong locks,
 crashing or blocking the list

---
 list.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/list.go b/list.go
index 4b787ee..713e776 100644
--- a/list.go
+++ b/list.go
@@ -771,13 +771,8 @@ func (l *List) reindex(ctx context.Context, bs blobstore.Store, segs *segments)
 
 	// Replace
 	segs.index = newIdx
-	err = l.saveSegments(ctx, bs, segs)
-	if err != nil {
-		segs.unlock()
-		return err
-	}
-
-	return nil
+	// Segments are unlocked by the caller.
+	return l.saveSegments(ctx, bs, segs)
 }
 
 // VerifyUnlocked validates that all elements of the list can be locked.
@@ -950,7 +945,7 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	split = ids.SplitSize(wantSize)
 	idx, err := NewSegmentsElements(ctx, store, split, nil)
 	if err != nil {
-		segs.unlock()
+		l.Unlock()
 		return segs, err
 	}
 	idx.cache = l.cache
-- 
2.43.0


From c1472318fa3f9b6101496257e2d687b6567a3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 14/49] fix: a list whose content could not be replaced
 panicked on any further use

---
 list.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 713e776..f7edb77 100644
--- a/list.go
+++ b/list.go
@@ -234,6 +234,11 @@ func (l *List) initEmptyList(ctx context.Context, bs blobstore.Store, xfer *segm
 	return segs, l.verify(ctx, bs, segs)
 }
 
+// errNoSegments is returned when a list has no segments.
+// This happens when replacing the content of a list failed.
+// The list can be populated or repaired.
+var errNoSegments = errors.New("list has no segments")
+
 // listVersion should be incremented if non-compatible changes are made.
 const listVersion = 1
 
@@ -361,6 +366,7 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			if updateLock {
 				l.updateLock.Unlock()
 			}
+			s.removeUnlock(ctx)
 		}
 		s.readOnly = false
 	}
@@ -390,6 +396,10 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 			}
 		}
 	}
+	if s.scores == nil || s.index == nil {
+		s.unlock()
+		return nil, errNoSegments
+	}
 	l.updateSegments(ctx, &s)
 	// Return read only if that was what was requested.
 	if readOnly {
@@ -864,7 +874,7 @@ func testLock(log log.Adapter, fail chan struct{}, locker sync.Locker, wg *sync.
 func (l *List) Populate(ctx context.Context, bs blobstore.Store, e Elements) error {
 	ctx = log.WithFn(ctx)
 	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
-	if err != nil {
+	if err != nil && err != errNoSegments {
 		// Log error, but proceed.
 		log.Error(ctx, "Populate: error loading existing segments", "error", err.Error())
 	}
@@ -1811,7 +1821,7 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 
 	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
 	if err != nil {
-		if (err == blobstore.ErrBlobNotFound && l.scores == nil) || (clearIfErr && l.scores == nil) {
+		if ((err == blobstore.ErrBlobNotFound || err == errNoSegments) && l.scores == nil) || (clearIfErr && l.scores == nil) {
 			log.Logger(ctx).Error("Repair: Could not load segments. list cleared", "list_id", l.ID)
 			segs, err := l.initEmptyList(ctx, bs, segs)
 			if segs != nil {
-- 
2.43.0


From c52cdb4aa24a97032bfcdd314c828ed41ae687c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 15/49] fix: repair panicked when segments could not be loaded,
 and dropped elements when storage failed temporarily

---
 list.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/list.go b/list.go
index f7edb77..0e56676 100644
--- a/list.go
+++ b/list.go
@@ -22,6 +22,7 @@ import (
 
 	"github.com/Vivino/rankdb/blobstore"
 	"github.com/Vivino/rankdb/log"
+	"github.com/tinylib/msgp/msgp"
 )
 
 // List contains the segments representing a list
@@ -1813,8 +1814,6 @@ func (l *List) checkSanity(ctx context.Context, bs blobstore.Store, after string
 // So far this is fairly brutally done by loading all segments and recreating scores and indexes.
 func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool) error {
 	store := blobstore.StoreWithSet(bs, l.Set)
-	stats, _ := l.Stats(ctx, bs, false)
-
 	l.RLock()
 	ctx = log.WithValues(ctx, "list_id", l.ID)
 	l.RUnlock()
@@ -1838,14 +1837,22 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 	}()
 
 	// Now that no-one else is updating, make sure that no-one else reads from the list while we rebuild.
+	allElements := make(Elements, 0, segs.scores.Elements())
 	l.Lock()
 	segs.scores.SegmentsLock.Lock()
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, stats.Elements)
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
 			log.Error(ctx, "Repair: Error loading elements", "error", err)
+			var corrupt msgp.Error
+			lost := err == blobstore.ErrBlobNotFound || err == ErrVersionMismatch || errors.As(err, &corrupt)
+			if !lost && !clearIfErr {
+				// The elements may still be there.
+				segs.scores.SegmentsLock.Unlock()
+				l.Unlock()
+				return err
+			}
 			continue
 		}
 
-- 
2.43.0


From 43898d724f875f37fb60e13bc51fa22e036653bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 16/49] fix: clones taken during updates were inconsistent, and
 elements that could not be saved were missing silently

---
 list.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/list.go b/list.go
index 0e56676..66564a8 100644
--- a/list.go
+++ b/list.go
@@ -501,7 +501,8 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List) error {
 	ctx = log.WithFn(ctx)
 	// Ensure segments are loaded.
-	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsAllowUpdates)
+	// Disallow updates, so we get a consistent copy.
+	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
 	if err != nil {
 		return fmt.Errorf("loading segments: %v", err)
 	}
@@ -541,13 +542,9 @@ func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List)
 		dst.elements = ls.elements.Clone(true)
 		ls.unlock()
 		dstIdx.Elements = append(dstIdx.Elements, dst.elements.ElementIDs(dst.seg.ID).Elements...)
-		if err != nil {
-			dst.unlock()
-			return err
-		}
 		err = newSegments.scores.replaceSegment(ctx, bsDst, dst)
 		if err != nil {
-			log.Error(ctx, err.Error())
+			return err
 		}
 	}
 	dstIdx.Sort()
-- 
2.43.0


From a986c19c671a1abb76e61fbb8e76761efacba7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 17/49] fix: looking up an element missed it while an update
 moved it to another segment

---
 list.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/list.go b/list.go
index 66564a8..6df65ae 100644
--- a/list.go
+++ b/list.go
@@ -1226,14 +1226,28 @@ func (l *List) GetElements(ctx context.Context, bs blobstore.Store, ids []Elemen
 	if err != nil {
 		return nil, err
 	}
+	res, missed, err := l.getElements(ctx, bs, ids, radius, segs)
+	segs.unlock()
+	if err != nil || missed == 0 {
+		return res, err
+	}
+
+	// An indexed element was not in its segment,
+	// so it may have been moved by an update after we looked up the segment.
+	segs, err = l.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
+	if err != nil {
+		return nil, err
+	}
 	defer segs.unlock()
-	return l.getElements(ctx, bs, ids, radius, segs)
+	res, _, err = l.getElements(ctx, bs, ids, radius, segs)
+	return res, err
 }
 
 // GetElements will look up the provided elements and return them as ranked.
 // The returned elements are sorted by rank.
 // Elements that are not found are not returned.
-func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []ElementID, radius int, segs *segments) (RankedElements, error) {
+// The number of elements that are indexed but were not found is returned as well.
+func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []ElementID, radius int, segs *segments) (res RankedElements, missed int, err error) {
 	ctx = log.WithFn(ctx)
 	scores := segs.scores
 	l.RLock()
@@ -1243,10 +1257,14 @@ func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []Elemen
 	// Disallow updates to scores until we have found the elements
 	e, err := l.getIndexElements(ctx, bs, ids, segs)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	// Find elements in each segment.
-	return scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	res, err = scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	if err != nil {
+		return nil, 0, err
+	}
+	return res, len(e.Elements) - len(res), nil
 }
 
 // UpdateElements will update or add elements to the list.
@@ -1493,7 +1511,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	// Get updated when everything is said and done.
 	updated := []RankedElement{}
 	if results {
-		updated, err = l.getElements(ctx, bs, ids, radius, segs)
+		updated, _, err = l.getElements(ctx, bs, ids, radius, segs)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a18434f1d7830c083cea3ac7af669feb8c38a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 18/49] fix: updates reported success when elements could not
 be loaded or saved, and failed saves left modified elements in the cache

---
 list.go     | 42 +++++++++++++++++++++++++++++-------------
 segments.go | 23 ++++++++++++++++-------
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/list.go b/list.go
index 6df65ae..e1ae9e9 100644
--- a/list.go
+++ b/list.go
@@ -1317,8 +1317,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	}
 
 	// segmentScoresLoad loads a score by index.
-	var segmentScoresLoad func(segIdx int) *lockedSegment
-	segmentScoresLoad = func(segIdx int) *lockedSegment {
+	var segmentScoresLoad func(segIdx int) (*lockedSegment, error)
+	segmentScoresLoad = func(segIdx int) (*lockedSegment, error) {
 		mu.Lock()
 		ss, ok := segmentScores[segIdx]
 		if !ok {
@@ -1340,14 +1340,14 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				mu.Lock()
 				delete(segmentScoresWait, segIdx)
 				mu.Unlock()
-				return nil
+				return nil, err
 			}
 			mu.Lock()
 			segmentScores[segIdx] = ss
 			delete(segmentScoresWait, segIdx)
 		}
 		mu.Unlock()
-		return ss
+		return ss, nil
 	}
 
 	// Use if returning early.
@@ -1400,9 +1400,10 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				scores.SegmentsLock.RLock()
 				segIdx := scores.idx[SegmentID(existing.TieBreaker)]
 				scores.SegmentsLock.RUnlock()
-				ss := segmentScoresLoad(segIdx)
-				if ss == nil {
-					continue
+				ss, err := segmentScoresLoad(segIdx)
+				if err != nil {
+					errs <- err
+					return
 				}
 				if results {
 					// Record rank of old element.
@@ -1426,12 +1427,18 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		return nil, err
 	}
 	// Split incoming elements to get destination score segments.
-	for sidx, elems := range scores.splitElementsIdx(elems) {
-		// The element should end up in this segment
-		scoreDstSeg := segmentScoresLoad(sidx)
-		if scoreDstSeg == nil {
-			continue
+	dstScores := scores.splitElementsIdx(elems)
+	// Load all before changing any.
+	for sidx := range dstScores {
+		_, err := segmentScoresLoad(sidx)
+		if err != nil {
+			unlockAll()
+			return nil, err
 		}
+	}
+	for sidx, elems := range dstScores {
+		// The element should end up in this segment
+		scoreDstSeg := segmentScores[sidx]
 
 		// Check if element have changed from another segment
 		for _, elem := range elems {
@@ -1482,7 +1489,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			scores.SegmentsLock.RLock()
 			eSid := scores.idx[SegmentID(existing.TieBreaker)]
 			scores.SegmentsLock.RUnlock()
-			rem := segmentScoresLoad(eSid)
+			rem := segmentScores[eSid]
 			if rem != nil {
 				err := rem.elements.Delete(elem.ID)
 				if err != nil {
@@ -1492,10 +1499,13 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		}
 	}
 
+	// We save as much as possible, but report if something couldn't be saved.
+	var saveErr error
 	for _, ls := range segmentsIdx {
 		err := index.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated index elements", "error", err.Error())
+			saveErr = err
 		}
 	}
 
@@ -1503,9 +1513,15 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		err := scores.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated score elements", "error", err.Error())
+			saveErr = err
 		}
 	}
 	wg.Wait()
+	if saveErr != nil {
+		// Record the number of elements in the segments that were saved.
+		_ = l.saveSegments(ctx, bs, segs)
+		return nil, saveErr
+	}
 	l.checkSanity(ctx, bs, "update", segs)
 
 	// Get updated when everything is said and done.
diff --git a/segments.go b/segments.go
index e0433a5..5189db3 100644
--- a/segments.go
+++ b/segments.go
@@ -276,19 +276,24 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 		ls.seg.loader = &elementLoader{}
 	}
 
+	err := ls.saveElements(ctx, bs, ls.elements)
+	if err != nil {
+		// The cached elements may have been modified.
+		if s.cache != nil {
+			s.cache.Remove(ls.seg.cacheID())
+		}
+		return err
+	}
+
 	s.SegmentsLock.Lock()
-	ls.seg.elementsUpdated(ls.elements)
 	if ls.index >= len(s.Segments) || ls.index < 0 {
+		s.SegmentsLock.Unlock()
 		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
 	}
+	ls.seg.elementsUpdated(ls.elements)
 	s.Segments[ls.index] = *ls.seg
 	s.SegmentsLock.Unlock()
 
-	err := ls.saveElements(ctx, bs, ls.elements)
-	if err != nil {
-		return err
-	}
-
 	if s.cache != nil {
 		s.cache.Add(ls.seg.cacheID(), ls.elements)
 	}
@@ -444,7 +449,11 @@ func (s *Segments) DeleteElements(ctx context.Context, bs blobstore.WithSet, e E
 				log.Info(ctx, "Did not find all elements", "left", len(toDelete)-ndeleted)
 			}
 			ls.elements = ls.elements[:wrtto]
-			s.replaceSegment(ctx, bs, ls)
+			err = s.replaceSegment(ctx, bs, ls)
+			if err != nil {
+				errC <- err
+				return
+			}
 			if withIdx {
 				deleted.Sort()
 				idxC <- deleted
-- 
2.43.0


From 8f40d94fee5b6a3a1b58eac8515836f289254c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 19/49] fix: segments stayed locked when a split could not be
 saved

---
 list.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/list.go b/list.go
index e1ae9e9..8e2dcaf 100644
--- a/list.go
+++ b/list.go
@@ -2223,12 +2223,14 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				ls.unlock()
 				return nil
 			}
-			// Save changed segments
-			err = scores.replaceSegment(ctx, store, ls)
+			// Save changed segments.
+			// New segment first, so no elements are lost if we fail.
+			err = scores.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				ls.unlock()
 				return err
 			}
-			err = scores.replaceSegment(ctx, store, newSeg)
+			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
 				return err
 			}
@@ -2325,6 +2327,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save updated segments.
 			err = index.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				ls.unlock()
 				return err
 			}
 			err = index.replaceSegment(ctx, store, ls)
-- 
2.43.0


From d2a2b049962a5dd2c63c8cd2e7062272f6b2fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 20/49] fix: paging backwards through lists returned wrong
 lists and counts

---
 lists.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lists.go b/lists.go
index 7be2d7d..b270b73 100644
--- a/lists.go
+++ b/lists.go
@@ -442,10 +442,10 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 					}
 					return true
 				}
-				s = append(s, string(id))
-				if id < firstElement {
+				if len(s) == 0 || id < firstElement {
 					firstElement = id
 				}
+				s = append(s, string(id))
 			} else {
 				page.After++
 			}
@@ -455,8 +455,9 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 	s.Sort()
 	if cropOne {
 		if len(s) > 1 {
-			page.After++
-			s = s[:1]
+			// Keep the one closest to the provided ID.
+			page.Before++
+			s = s[1:]
 		}
 	}
 	res := make([]*List, 0, len(s))
-- 
2.43.0


From fcee286ea75620fd9dc1532fc2cce1d76c6c64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 21/49] fix: matching an empty metadata value matched lists
 without the key

---
 lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lists.go b/lists.go
index b270b73..a5e88fe 100644
--- a/lists.go
+++ b/lists.go
@@ -303,7 +303,7 @@ func (l *Lists) MatchAll(q map[string]string, sets []string) []ListID {
 			return true
 		}
 		for k, v := range q {
-			if list.Metadata[k] != v {
+			if got, ok := list.Metadata[k]; !ok || got != v {
 				return true
 			}
 		}
-- 
2.43.0


From 296acda8a27a749ae78a7bf8888b14079affebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 22/49] fix: lazy saver confused blobs when set or key contain
 a slash

---
 blobstore/lazysaver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 72a71ba..a944d59 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"fmt"
 	"math/bits"
+	"strconv"
 	"sync"
 	"time"
 
@@ -636,7 +637,8 @@ func (l *LazySaver) Delete(ctx context.Context, set, key string) error {
 }
 
 func lazyKey(set, key string) string {
-	return set + "/" + key
+	// Sets and keys may contain any character.
+	return strconv.Itoa(len(set)) + "/" + set + "/" + key
 }
 
 var (
-- 
2.43.0


From 7883863597ba34e2686d526e8eb843a25e4dbf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 23/49] fix: requests racing with the shutdown of the lazy
 saver blocked forever and were lost

---
 blobstore/lazysaver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index a944d59..8c29ade 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -239,6 +239,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		// Copy b, so caller is free to re-use.
 		b = append(getDataBufferChunk(len(b)), b...)
 		l.mu.Lock()
+		if l.shuttingDown {
+			// Shutdown started since the caller checked, nobody would save this.
+			l.mu.Unlock()
+			return ErrShuttingDown
+		}
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
 			// First update cache, since we have it.
@@ -269,6 +274,11 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		// First update cache, if we have it.
 		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now()}
 		l.mu.Lock()
+		if l.shuttingDown {
+			// Shutdown started since the caller checked, nobody would save this.
+			l.mu.Unlock()
+			return ErrShuttingDown
+		}
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
 			if l.verbose {
-- 
2.43.0


From 48f458afbab7e87f7475389f07c9b72d3fda2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 24/49] fix: lazy saver acknowledged more writes than its limit
 when overwriting an item that waits for capacity

---
 blobstore/lazysaver.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 8c29ade..3611cc5 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -74,6 +74,8 @@ type updateItemRequest struct {
 	seen     time.Time
 	token    struct{}
 	saving   bool
+	// queued is closed when the item has got its token.
+	queued chan struct{}
 }
 
 type lazySaveOption func(*lazySaveOptions) error
@@ -257,22 +259,24 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				v.b = b
 				e.Value = v
 				l.mu.Unlock()
+				<-v.queued
 				return nil
 			}
 		}
-		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now()}
+		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now(), queued: make(chan struct{})}
 		if l.verbose {
 			log.Logger(ctx).Info("Adding new Save")
 		}
 		l.add(r)
 		r.token = <-l.tokens
+		close(r.queued)
 		return nil
 	}
 
 	l.delete = func(ctx context.Context, set, key string) error {
 		ctx = log.WithValues(ctx, "set", set, "key", key, "func", "lazy-delete")
 		// First update cache, if we have it.
-		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now()}
+		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now(), queued: make(chan struct{})}
 		l.mu.Lock()
 		if l.shuttingDown {
 			// Shutdown started since the caller checked, nobody would save this.
@@ -291,6 +295,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				v.b = nil
 				e.Value = v
 				l.mu.Unlock()
+				<-v.queued
 				return nil
 			}
 		}
@@ -299,6 +304,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		}
 		l.add(r)
 		r.token = <-l.tokens
+		close(r.queued)
 		return nil
 	}
 
-- 
2.43.0


From 0e124f6a7eeb8a556e22dd25a76b9a07c21aec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:05 +0000
Subject: [PATCH 25/49] fix: a slow save of the lazy saver could overwrite a
 newer value of the same blob

---
 blobstore/lazysaver.go | 89 ++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 3611cc5..7e71bc4 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -26,6 +26,7 @@ type LazySaver struct {
 	tokens       chan struct{}
 	cache        *list.List
 	cacheIdx     map[string]*list.Element
+	savingKeys   map[string]struct{}
 	itemAdded    chan struct{}
 	savech       chan *list.Element
 	shuttingDown bool
@@ -180,6 +181,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		store:           store,
 		cache:           list.New(),
 		cacheIdx:        make(map[string]*list.Element),
+		savingKeys:      make(map[string]struct{}),
 		itemAdded:       make(chan struct{}, 1),
 		savech:          make(chan *list.Element),
 		shutdownCh:      make(chan struct{}, 0),
@@ -329,6 +331,11 @@ func (l *LazySaver) add(r updateItemRequest) {
 	e := l.cache.PushBack(r)
 	l.cacheIdx[lazyKey(r.set, r.key)] = e
 	l.mu.Unlock()
+	l.wake()
+}
+
+// wake makes the request handler look at the queue.
+func (l *LazySaver) wake() {
 	select {
 	case l.itemAdded <- struct{}{}:
 		if l.verbose {
@@ -341,26 +348,39 @@ func (l *LazySaver) add(r updateItemRequest) {
 	}
 }
 
+// nextToSave returns the oldest element that can be sent to a saver, or nil.
+// While an older value of the same blob is being saved an element has to wait,
+// so a slow save cannot overwrite a newer one.
+// The second result is whether there are elements that are not being saved.
+// Caller must hold l.mu.
+func (l *LazySaver) nextToSave() (next *list.Element, unsaved bool) {
+	for e := l.cache.Front(); e != nil; e = e.Next() {
+		v := e.Value.(updateItemRequest)
+		if v.saving {
+			continue
+		}
+		unsaved = true
+		if _, ok := l.savingKeys[lazyKey(v.set, v.key)]; !ok {
+			return e, true
+		}
+	}
+	return nil, unsaved
+}
+
 // saveFront will send oldest element to saver.
 // Returns the approximate number of elements in the queue.
 func (l *LazySaver) saveFront() int {
 	l.mu.Lock()
-	e := l.cache.Front()
-	for {
-		if e == nil {
-			l.mu.Unlock()
-			return 0
-		}
-		v := e.Value.(updateItemRequest)
-		if !v.saving {
-			break
-		}
-		e = e.Next()
+	e, _ := l.nextToSave()
+	if e == nil {
+		l.mu.Unlock()
+		return 0
 	}
 	n := l.cache.Len()
 	v := e.Value.(updateItemRequest)
 	v.saving = true
 	e.Value = v
+	l.savingKeys[lazyKey(v.set, v.key)] = struct{}{}
 	l.mu.Unlock()
 	l.savech <- e
 	return n
@@ -382,18 +402,12 @@ func (l *LazySaver) requestHandler() {
 		if l.verbose {
 			l.logger.Info("Cycling saver")
 		}
-		if l.shuttingDown {
-			e := l.cache.Front()
-			for {
-				if e == nil {
-					l.mu.RUnlock()
-					return
-				}
-				if !e.Value.(updateItemRequest).saving {
-					break
-				}
-				e = e.Next()
-			}
+		next, unsaved := l.nextToSave()
+		if l.shuttingDown && !unsaved {
+			l.mu.RUnlock()
+			return
+		}
+		if l.shuttingDown && next != nil {
 			if l.verbose {
 				l.logger.Info("Flushing front item", "queued", l.cache.Len())
 			}
@@ -401,7 +415,7 @@ func (l *LazySaver) requestHandler() {
 			l.saveFront()
 			continue
 		}
-		if l.cache.Len() > opts.flushItems {
+		if l.cache.Len() > opts.flushItems && next != nil {
 			if l.verbose {
 				l.logger.Info("Flushing front item ( > flushItems)", "queued", l.cache.Len())
 			}
@@ -409,23 +423,16 @@ func (l *LazySaver) requestHandler() {
 			l.saveFront()
 			continue
 		}
-		next := l.cache.Front()
-		for {
-			if next == nil {
-				break
+		if next != nil {
+			v := next.Value.(updateItemRequest)
+			nextIn := time.Until(v.seen.Add(l.maxTime))
+			if nextIn <= time.Nanosecond {
+				nextIn = time.Nanosecond
 			}
-			if v := next.Value.(updateItemRequest); !v.saving {
-				nextIn := time.Until(v.seen.Add(l.maxTime))
-				if nextIn <= time.Nanosecond {
-					nextIn = time.Nanosecond
-				}
-				nextUp.Reset(nextIn)
-				if l.verbose {
-					l.logger.Info("Queuing item", "next_duration", nextIn)
-				}
-				break
+			nextUp.Reset(nextIn)
+			if l.verbose {
+				l.logger.Info("Queuing item", "next_duration", nextIn)
 			}
-			next = next.Next()
 		}
 
 		l.mu.RUnlock()
@@ -463,6 +470,7 @@ func (l *LazySaver) requestHandler() {
 			}
 		case <-shutdownCh:
 			l.logger.Info("Shutdown received")
+			shutdownCh = nil
 		}
 	}
 }
@@ -527,10 +535,13 @@ func (l *LazySaver) startSaver(n int) {
 		if found := l.cacheIdx[lk]; e == found {
 			delete(l.cacheIdx, lk)
 		}
+		delete(l.savingKeys, lk)
 		if dataDone != nil {
 			putDataBufferChunk(dataDone)
 		}
 		l.mu.Unlock()
+		// A newer value of the same blob may have to be saved.
+		l.wake()
 	}
 }
 
-- 
2.43.0


From 1e122558a7884fed90ac68394e5ac2353cb70e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 26/49] fix: lazy saver handed out more capacity than
 configured when items were saved before their writer got a token

---
 blobstore/lazysaver.go | 57 +++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 7e71bc4..e987584 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -73,10 +73,19 @@ type updateItemRequest struct {
 	set, key string
 	b        []byte
 	seen     time.Time
-	token    struct{}
+	token    *lazyToken
 	saving   bool
-	// queued is closed when the item has got its token.
-	queued chan struct{}
+}
+
+// lazyToken keeps track of whether an item has taken a token.
+type lazyToken struct {
+	taken  bool          // the item has taken a token, it must be returned after saving. Protected by l.mu.
+	saved  chan struct{} // closed when the item was saved without ever getting a token.
+	queued chan struct{} // closed when the item has got its token or doesn't need one anymore.
+}
+
+func newLazyToken() *lazyToken {
+	return &lazyToken{saved: make(chan struct{}), queued: make(chan struct{})}
 }
 
 type lazySaveOption func(*lazySaveOptions) error
@@ -261,24 +270,23 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				v.b = b
 				e.Value = v
 				l.mu.Unlock()
-				<-v.queued
+				<-v.token.queued
 				return nil
 			}
 		}
-		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now(), queued: make(chan struct{})}
+		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now(), token: newLazyToken()}
 		if l.verbose {
 			log.Logger(ctx).Info("Adding new Save")
 		}
 		l.add(r)
-		r.token = <-l.tokens
-		close(r.queued)
+		l.waitToken(r.token)
 		return nil
 	}
 
 	l.delete = func(ctx context.Context, set, key string) error {
 		ctx = log.WithValues(ctx, "set", set, "key", key, "func", "lazy-delete")
 		// First update cache, if we have it.
-		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now(), queued: make(chan struct{})}
+		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now(), token: newLazyToken()}
 		l.mu.Lock()
 		if l.shuttingDown {
 			// Shutdown started since the caller checked, nobody would save this.
@@ -297,7 +305,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				v.b = nil
 				e.Value = v
 				l.mu.Unlock()
-				<-v.queued
+				<-v.token.queued
 				return nil
 			}
 		}
@@ -305,8 +313,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 			log.Logger(ctx).Info("Not present in buffer")
 		}
 		l.add(r)
-		r.token = <-l.tokens
-		close(r.queued)
+		l.waitToken(r.token)
 		return nil
 	}
 
@@ -334,6 +341,26 @@ func (l *LazySaver) add(r updateItemRequest) {
 	l.wake()
 }
 
+// waitToken waits until there is capacity for an added item.
+// If the item was saved meanwhile it doesn't need any.
+func (l *LazySaver) waitToken(t *lazyToken) {
+	select {
+	case <-l.tokens:
+		l.mu.Lock()
+		select {
+		case <-t.saved:
+			// Others can use the token.
+			l.mu.Unlock()
+			l.tokens <- struct{}{}
+		default:
+			t.taken = true
+			l.mu.Unlock()
+		}
+	case <-t.saved:
+	}
+	close(t.queued)
+}
+
 // wake makes the request handler look at the queue.
 func (l *LazySaver) wake() {
 	select {
@@ -528,7 +555,6 @@ func (l *LazySaver) startSaver(n int) {
 		}()
 		_ = ok
 		// Now remove from cache
-		tokens <- v.token
 		l.mu.Lock()
 		l.cache.Remove(e)
 		lk := lazyKey(v.set, v.key)
@@ -539,7 +565,14 @@ func (l *LazySaver) startSaver(n int) {
 		if dataDone != nil {
 			putDataBufferChunk(dataDone)
 		}
+		taken := v.token.taken
+		if !taken {
+			close(v.token.saved)
+		}
 		l.mu.Unlock()
+		if taken {
+			tokens <- struct{}{}
+		}
 		// A newer value of the same blob may have to be saved.
 		l.wake()
 	}
-- 
2.43.0


From 14759d40766fbf3f1e926c4eb78cc416ff8b5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 27/49] fix: MaxSizeStore.Delete swallows read errors and
 leaves the blob

---
 blobstore/maxsize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 1ec61e5..e12dc4d 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -163,9 +163,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 
 	if n == 0 {
 		b, err := r.store.Get(ctx, set, key)
-		if err != nil {
+		if err == ErrBlobNotFound {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		var size int
 		n, size = binary.Uvarint(b)
 		if size < 1 {
-- 
2.43.0


From 5e7edf8f63536756d892ee84a0398e281dd39728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 28/49] fix: MaxSizeStore leaves parts behind after failed
 writes and deletes

---
 blobstore/maxsize.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index e12dc4d..3bec1d1 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -78,13 +78,13 @@ func (r *MaxSizeStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	}
 	b = b[size:]
 	if n == 0 {
-		r.mu.Lock()
-		delete(r.parts, mapKey(set, key))
-		r.mu.Unlock()
 		return b, nil
 	}
+	// More parts may be known after failed writes.
 	r.mu.Lock()
-	r.parts[mapKey(set, key)] = int(n + 1)
+	if int(n+1) > r.parts[mapKey(set, key)] {
+		r.parts[mapKey(set, key)] = int(n + 1)
+	}
 	r.mu.Unlock()
 	for i := 0; i < int(n); i++ {
 		b2, err := r.store.Get(ctx, set, extKey(key, i))
@@ -110,18 +110,14 @@ func (r *MaxSizeStore) Set(ctx context.Context, set, key string, b []byte) error
 	var bbuf = buf[:]
 	s := binary.PutUvarint(bbuf[:], uint64(total-1))
 
-	// delete extra parts if more.
 	// Since we are saving it is extremely likely a load has previously been done.
+	// Keep track of every part that may be stored, also if we fail below.
 	r.mu.Lock()
 	prev := r.parts[mapKey(set, key)]
-	r.mu.Unlock()
-	for i := total; i < prev; i++ {
-		kkey := extKey(key, i-1)
-		err := r.store.Delete(ctx, set, kkey)
-		if err != nil {
-			log.Error(ctx, "Error deleting extra segments", "error", err, "key", kkey, "set", set)
-		}
+	if total > 1 && total > prev {
+		r.parts[mapKey(set, key)] = total
 	}
+	r.mu.Unlock()
 
 	// Prepend total
 	b2 := make([]byte, len(b)+s)
@@ -144,6 +140,16 @@ func (r *MaxSizeStore) Set(ctx context.Context, set, key string, b []byte) error
 		}
 		b2 = b2[l:]
 	}
+
+	// delete extra parts if more.
+	for i := total; i < prev; i++ {
+		kkey := extKey(key, i-1)
+		err := r.store.Delete(ctx, set, kkey)
+		if err != nil {
+			log.Error(ctx, "Error deleting extra segments", "error", err, "key", kkey, "set", set)
+			return err
+		}
+	}
 	r.mu.Lock()
 	if total == 1 {
 		delete(r.parts, mapKey(set, key))
@@ -175,6 +181,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 			n = 0
 		}
 		n++
+		if n > 1 {
+			// If we fail below, the rest must be found again.
+			r.mu.Lock()
+			r.parts[mapKey(set, key)] = int(n)
+			r.mu.Unlock()
+		}
 	}
 	for i := 0; i < int(n); i++ {
 		kkey := key
-- 
2.43.0


From e8d14cd7ea4d273c050fa89b0f4b40ae2dc2f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 29/49] fix: MaxSizeStore confuses the parts of different blobs

---
 blobstore/maxsize.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 3bec1d1..cd79ffb 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -24,8 +24,8 @@ type MaxSizeStore struct {
 
 	// Cache parts size.
 	// No entry means one or unknown number of segments.
-	parts   map[string]int
-	running map[string]*sync.Mutex
+	parts   map[blobKey]int
+	running map[blobKey]*sync.Mutex
 	mu      sync.Mutex
 }
 
@@ -39,14 +39,19 @@ func NewMaxSizeStore(store Store, maxSize int) (*MaxSizeStore, error) {
 	r := MaxSizeStore{
 		store:   store,
 		maxsize: maxSize,
-		parts:   make(map[string]int),
-		running: make(map[string]*sync.Mutex),
+		parts:   make(map[blobKey]int),
+		running: make(map[blobKey]*sync.Mutex),
 	}
 	return &r, nil
 }
 
-func mapKey(set, key string) string {
-	return set + `/\` + key
+// blobKey identifies a blob. Sets and keys may contain any character.
+type blobKey struct {
+	set, key string
+}
+
+func mapKey(set, key string) blobKey {
+	return blobKey{set: set, key: key}
 }
 
 func extKey(key string, n int) string {
-- 
2.43.0


From ca2f77a520b01d7992f494a8844092a414bd6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 30/49] fix: BadgerStore loses queued writes when a flush fails

Items were removed from the queue before the transaction was committed,
a failed commit was ignored, and an item Badger cannot store made
every later flush fail.
---
 blobstore/badgerstore/badger.go | 46 ++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 931a489..675e800 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -84,32 +84,54 @@ func (b *BadgerStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	return res, err
 }
 
+// flush will write all queued items.
+// Items remain in the queue until the transaction containing them has been committed.
 func (b *BadgerStore) flush() error {
 	txn := b.db.NewTransaction(true)
+	defer func() { txn.Discard() }()
+	var added []string
+	commit := func() error {
+		if err := txn.Commit(); err != nil {
+			return err
+		}
+		for _, k := range added {
+			delete(b.queue, k)
+		}
+		added = added[:0]
+		return nil
+	}
 	for k, v := range b.queue {
-		if err := txn.Set([]byte(k), v); err == badger.ErrTxnTooBig {
-			err = txn.Commit()
-			txn = b.db.NewTransaction(true)
-			err = txn.Set([]byte(k), v)
-			if err != nil {
-				txn.Discard()
+		err := txn.Set([]byte(k), v)
+		if err == badger.ErrTxnTooBig && len(added) > 0 {
+			if err = commit(); err != nil {
 				return err
 			}
-			delete(b.queue, k)
-		} else if err == nil {
-			delete(b.queue, k)
-		} else {
-			txn.Discard()
+			txn = b.db.NewTransaction(true)
+			err = txn.Set([]byte(k), v)
+		}
+		if err != nil {
 			return err
 		}
+		added = append(added, k)
 	}
-	return txn.Commit()
+	return commit()
+}
+
+// storable returns an error if the item cannot be stored by itself.
+func (b *BadgerStore) storable(key string, val []byte) error {
+	txn := b.db.NewTransaction(true)
+	defer txn.Discard()
+	return txn.Set([]byte(key), val)
 }
 
 func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) error {
 	cKey := b.keyString(set, key)
 	dst := make([]byte, len(val))
 	copy(dst, val)
+	// An item that cannot be written would block the queue.
+	if err := b.storable(cKey, dst); err != nil {
+		return err
+	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
 	b.queue[cKey] = dst
-- 
2.43.0


From 41e8ba078adcda758d8683530f5b4c32ff0e7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 31/49] fix: MemBlobStore.Get returns the stored slice itself

---
 blobstore/memstore/memstore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blobstore/memstore/memstore.go b/blobstore/memstore/memstore.go
index cf6c51b..2aa3bb7 100644
--- a/blobstore/memstore/memstore.go
+++ b/blobstore/memstore/memstore.go
@@ -57,7 +57,10 @@ func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	if !ok {
 		return nil, blobstore.ErrBlobNotFound
 	}
-	return blob, nil
+	// The caller may modify the returned slice.
+	dst := make([]byte, len(blob))
+	copy(dst, blob)
+	return dst, nil
 }
 
 func (m *MemBlobStore) Set(ctx context.Context, set, key string, val []byte) error {
-- 
2.43.0


From 984ef249237e6ef695c207c9b3e3eefded800061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 32/49] fix: BadgerStore shows a replaced version of a blob
 while it is deleted

---
 blobstore/badgerstore/badger.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 675e800..a4b1f1c 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -142,9 +142,11 @@ func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) erro
 }
 
 func (b *BadgerStore) Delete(ctx context.Context, set, key string) error {
+	// Keep the lock until the blob is gone from the database as well.
+	// Otherwise an older, already replaced version is visible meanwhile.
 	b.mu.Lock()
+	defer b.mu.Unlock()
 	delete(b.queue, b.keyString(set, key))
-	b.mu.Unlock()
 	return b.db.Update(func(tx *badger.Txn) error {
 		err := tx.Delete(b.key(set, key))
 		if err == badger.ErrKeyNotFound {
-- 
2.43.0


From 2c898e1248d33820914092201cf24202ea5c376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 33/49] fix: BadgerStore.Close drops the error of the last
 flush

---
 blobstore/badgerstore/badger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index a4b1f1c..5bd38f2 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -43,9 +43,9 @@ func (b *BadgerStore) Close() error {
 	err := b.flush()
 	err2 := b.db.Close()
 	if err != nil {
-		return err2
+		return err
 	}
-	return err
+	return err2
 }
 
 func (b *BadgerStore) key(set, key string) []byte {
-- 
2.43.0


From e0a17f1007a9ccf3362a32fd17e49ae5759b15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 34/49] fix: RetryOpt.PermanentErr changes the defaults of all
 stores

---
 blobstore/retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 87fcaf2..9b71f89 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -84,7 +84,7 @@ func (l RetryOpt) PermanentErr(errs ...error) RetryStoreOption {
 		}
 		for _, err := range errs {
 			if err != nil {
-				o.permanent[err] = struct{}{}
+				perm[err] = struct{}{}
 			}
 		}
 		o.permanent = perm
-- 
2.43.0


From 5c10724e1d66517d31a7c729f88926eb317ca13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 35/49] fix: RetryStore panics on errors that are not hashable

---
 blobstore/retry.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 9b71f89..a1557b5 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -183,8 +183,11 @@ func (r *RetryStore) Delete(ctx context.Context, set, key string) error {
 // opErr checks if an error is permanent or the context is cancelled
 // and returns a permanent error if so.
 func (r *RetryStore) opErr(ctx context.Context, err error) error {
-	if _, ok := r.permanent[err]; ok {
-		return backoff.Permanent(err)
+	// Compare instead of looking up, errors of some types cannot be map keys.
+	for perm := range r.permanent {
+		if perm == err {
+			return backoff.Permanent(err)
+		}
 	}
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 775bfdc8ec089c3e5cdc4b7f1a605fc4803a60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 36/49] fix: RetryStore may retry after the context has ended

---
 blobstore/retry.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index a1557b5..e690a6f 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -123,7 +123,12 @@ func (r *RetryStore) Get(ctx context.Context, set, key string) ([]byte, error) {
 	bo := r.get()
 	bo = backoff.WithContext(bo, ctx)
 	var res []byte
+	var last error
 	op := func() error {
+		// The context may have ended together with the back off.
+		if last != nil && ctx.Err() != nil {
+			return backoff.Permanent(last)
+		}
 		lctx := ctx
 		if r.opTimeout != 0 {
 			var cancel context.CancelFunc
@@ -132,6 +137,7 @@ func (r *RetryStore) Get(ctx context.Context, set, key string) ([]byte, error) {
 		}
 		b, err := r.store.Get(lctx, set, key)
 		if err != nil {
+			last = err
 			return r.opErr(ctx, err)
 		}
 		res = b
@@ -144,7 +150,12 @@ func (r *RetryStore) Get(ctx context.Context, set, key string) ([]byte, error) {
 func (r *RetryStore) Set(ctx context.Context, set, key string, b []byte) error {
 	bo := r.set()
 	bo = backoff.WithContext(bo, ctx)
+	var last error
 	op := func() error {
+		// The context may have ended together with the back off.
+		if last != nil && ctx.Err() != nil {
+			return backoff.Permanent(last)
+		}
 		lctx := ctx
 		if r.opTimeout != 0 {
 			var cancel context.CancelFunc
@@ -153,6 +164,7 @@ func (r *RetryStore) Set(ctx context.Context, set, key string, b []byte) error {
 		}
 		err := r.store.Set(lctx, set, key, b)
 		if err != nil {
+			last = err
 			return r.opErr(ctx, err)
 		}
 		return nil
@@ -164,7 +176,12 @@ func (r *RetryStore) Set(ctx context.Context, set, key string, b []byte) error {
 func (r *RetryStore) Delete(ctx context.Context, set, key string) error {
 	bo := r.del()
 	bo = backoff.WithContext(bo, ctx)
+	var last error
 	op := func() error {
+		// The context may have ended together with the back off.
+		if last != nil && ctx.Err() != nil {
+			return backoff.Permanent(last)
+		}
 		lctx := ctx
 		if r.opTimeout != 0 {
 			var cancel context.CancelFunc
@@ -173,6 +190,7 @@ func (r *RetryStore) Delete(ctx context.Context, set, key string) error {
 		}
 		err := r.store.Delete(lctx, set, key)
 		if err != nil {
+			last = err
 			return r.opErr(ctx, err)
 		}
 		return nil
-- 
2.43.0


From 0f015e17d1b8fa6d926ef89382cbb02be7f19e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 37/49] verif hook: start the HTTP server in-process (build tag
 verif)

---
 api/verif.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)
 create mode 100644 api/verif.go

diff --git a/api/verif.go b/api/verif.go
new file mode 100644
index 0000000..2e73b36
--- /dev/null
+++ b/api/verif.go
@@ -0,0 +1,22 @@
+//go:build verif
+// +build verif
+
+package api
+
+import (
+	"net"
+
+	"github.com/Vivino/rankdb"
+)
+
+// VerifManager returns the manager that serves all requests, for the
+// verification harness.
+func VerifManager() *rankdb.Manager {
+	return db
+}
+
+// VerifAddr returns the address the server listens on, once it does.
+func VerifAddr() net.Addr {
+	<-listening
+	return listenAddr
+}
-- 
2.43.0


From 5c85765dfbeb6f67a5ba3ea893c640b7187e91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 38/49] fix: neighbours above an element are returned with
 wrong ranks and in reverse order

---
 api/morph/elements.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/api/morph/elements.go b/api/morph/elements.go
index b9a5112..85128fb 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -56,7 +56,7 @@ func (r RankedElement) Full(id rankdb.ListID) *app.RankdbElementFull {
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: reversed(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFull{
@@ -110,7 +110,7 @@ func (r RankedElement) FullUpdate(id rankdb.ListID) *app.RankdbElementFullUpdate
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: reversed(in.Above)}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFullUpdate{
@@ -162,6 +162,15 @@ type Elements struct {
 	In []rankdb.Element
 }
 
+// reversed returns a copy of the elements in reverse order.
+func reversed(e []rankdb.Element) rankdb.Elements {
+	res := make(rankdb.Elements, 0, len(e))
+	for i := len(e) - 1; i >= 0; i-- {
+		res = append(res, e[i])
+	}
+	return res
+}
+
 func (e Elements) ToRanked(firstFromTop, firstFromBottom int, id rankdb.ListID) []*app.RankdbElement {
 	in := e.In
 	var res []*app.RankdbElement
-- 
2.43.0


From 1871d1c9c1d89bc544f02066d5a6ec287c44ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 39/49] fix: all_in_sets is ignored by multi-list requests
 without match_metadata

---
 api/multilist.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index a0ab575..6df8443 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -51,9 +51,7 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -197,9 +195,7 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -242,11 +238,9 @@ func (c *MultilistController) Verify(ctx *app.VerifyMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -308,11 +302,9 @@ func (c *MultilistController) Reindex(ctx *app.ReindexMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -343,11 +335,9 @@ func (c *MultilistController) Backup(ctx *app.BackupMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists.Lists}.IDs()
-	if len(ctx.Payload.Lists.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata)+len(ctx.Payload.Lists.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
-- 
2.43.0


From b798f973ffb2252d269800ab35c0d3a7c3f3150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 40/49] fix: cancelled multi-list requests panic and leave work
 running after the request ended

---
 api/multilist.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/api/multilist.go b/api/multilist.go
index 6df8443..4ca07ec 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -469,7 +469,12 @@ func onEveryList(ctx context.Context, lists rankdb.ListIDs, limit int, fn func(l
 	}
 	for i, id := range lists {
 		if err := ctx.Err(); err != nil {
-			return nil
+			// The remaining lists are not touched.
+			mu.Lock()
+			results.Errors[string(id)] = err.Error()
+			mu.Unlock()
+			wg.Done()
+			continue
 		}
 		if limit > 0 {
 			<-tokens
-- 
2.43.0


From 4cca34811fb3e0752e33ab950c25ca9153240108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 41/49] fix: percentile NaN is not refused

---
 api/lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/lists.go b/api/lists.go
index 2aba814..7dd819c 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -136,7 +136,7 @@ func (c *ListsController) GetPercentile(ctx *app.GetPercentileListsContext) erro
 	} else {
 		return ctx.BadRequest(goa.InvalidParamTypeError("from_top", ctx.FromTop, "number"))
 	}
-	if percentile < 0 {
+	if !(percentile >= 0) {
 		return ctx.BadRequest(goa.InvalidRangeError(`from_top`, ctx.FromTop, 0, true))
 	}
 	if percentile > 100 {
-- 
2.43.0


From 9ca2aec04e25cebd6854aec765adef8bb1a1e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 42/49] fix: cloning with invalid sizes is reported as internal
 error

---
 api/lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/lists.go b/api/lists.go
index 7dd819c..3034ec5 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -349,7 +349,7 @@ func (c *ListsController) Clone(ctx *app.CloneListsContext) error {
 		opts...,
 	)
 	if err != nil {
-		return err
+		return ctx.BadRequest(err)
 	}
 
 	// Add to manager
-- 
2.43.0


From c77b44a05096fb402edf1aded7e110d41e7d20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 43/49] fix: refused repair requests are answered as served

---
 api/lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/lists.go b/api/lists.go
index 3034ec5..b2bf25d 100644
--- a/api/lists.go
+++ b/api/lists.go
@@ -251,7 +251,7 @@ func (c *ListsController) Reindex(ctx *app.ReindexListsContext) error {
 func (c *ListsController) Repair(ctx *app.RepairListsContext) error {
 	// ListsController_Repair: start_implement
 	if done, err := UpdateRequest(ctx); err != nil {
-		return ctx.OK(&app.RankdbListopresult{Error: errAsStringP(err)})
+		return err
 	} else {
 		defer done()
 	}
-- 
2.43.0


From 51a93a191682d65a5e7e9c31f6848aea6983371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 44/49] fix: restoring panics when a list cannot be restored

---
 backup/restore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9fd485e..67901f6 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -39,7 +39,7 @@ type RestoreResult struct {
 // Restore a backup set.
 // 'ri' should contain all needed information.
 func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
-	var res RestoreResult
+	res := RestoreResult{Failed: make(map[string]string)}
 	r, err := ri.Source.Load(ctx)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3d1244da23f431d2e7606eb523d88b2e600ba4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 45/49] fix: restoring without failures reports no errors, as
 before

---
 backup/restore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backup/restore.go b/backup/restore.go
index 67901f6..9366d17 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -39,7 +39,7 @@ type RestoreResult struct {
 // Restore a backup set.
 // 'ri' should contain all needed information.
 func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
-	res := RestoreResult{Failed: make(map[string]string)}
+	var res RestoreResult
 	r, err := ri.Source.Load(ctx)
 	if err != nil {
 		return nil, err
@@ -96,6 +96,9 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
 		if err != nil {
+			if res.Failed == nil {
+				res.Failed = make(map[string]string)
+			}
 			res.Failed[string(dstLstID)] = err.Error()
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
-- 
2.43.0


From c5b4d1dae858c5ddcaf206da81a2722bb4bba48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 46/49] fix: updates waiting for a slot do not notice that the
 client left

---
 api/shutdown.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/api/shutdown.go b/api/shutdown.go
index 3a9f973..51a9793 100644
--- a/api/shutdown.go
+++ b/api/shutdown.go
@@ -65,9 +65,16 @@ var updateBucket rankdb.Bucket
 
 func UpdateRequest(ctx context.Context) (done func(), err error) {
 	if updateBucket != nil {
+		// ctx may not end with the request.
+		var reqDone <-chan struct{}
+		if req := goa.ContextRequest(ctx); req != nil && req.Request != nil {
+			reqDone = req.Request.Context().Done()
+		}
 		select {
 		case <-ctx.Done():
 			return nil, errCancelled
+		case <-reqDone:
+			return nil, errCancelled
 		case <-updateBucket:
 			return func() {
 				updateBucket <- struct{}{}
-- 
2.43.0


From 0c25a896d8c924003178388a12011ca261ce7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 47/49] fix: backup left the segments locked when its writer
 failed

---
 list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 8e2dcaf..1d59cdd 100644
--- a/list.go
+++ b/list.go
@@ -1938,12 +1938,12 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 	}
 	scores.SegmentsLock.RLock()
 	err = scores.EncodeMsg(w.Writer())
+	segs := len(scores.Segments)
+	scores.SegmentsLock.RUnlock()
 	if err != nil {
 		return err
 	}
 
-	segs := len(scores.Segments)
-	scores.SegmentsLock.RUnlock()
 	if err := w.SetVersion(segmentVersion); err != nil {
 		return err
 	}
-- 
2.43.0


From c40c3738bcec191e1d61b47fd93aa5fd0fe9eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 48/49] fix: the status of a running backup shared its maps
 with the job

---
 backup/job.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/backup/job.go b/backup/job.go
index 8018529..2adfafd 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -38,11 +38,22 @@ func (id ID) Status() *Status {
 		return nil
 	}
 	job.mu.Lock()
+	defer job.mu.Unlock()
 	status := job.status
-	job.mu.Unlock()
+	// The job keeps changing its maps.
+	status.Custom = copyMap(status.Custom)
+	status.Errors = copyMap(status.Errors)
 	return &status
 }
 
+func copyMap(m map[string]string) map[string]string {
+	res := make(map[string]string, len(m))
+	for k, v := range m {
+		res[k] = v
+	}
+	return res
+}
+
 // Status returns the status of the jobState with the id.
 // Returns nil if the jobState cannot be found.
 func (id ID) Cancel() {
@@ -183,14 +194,18 @@ func (req Request) Start(bg context.Context) ID {
 		msg := rankdb.NewWriterMsg()
 		dst, err := job.dst.Save(ctx)
 		if err != nil {
+			job.mu.Lock()
 			job.status.Errors["saver"] = err.Error()
+			job.mu.Unlock()
 			return
 		}
 		defer dst.Close()
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
+			job.mu.Lock()
 			job.status.Errors["compress"] = err.Error()
+			job.mu.Unlock()
 			return
 		}
 		defer zw.Close()
-- 
2.43.0


From 69f151d449b3a7f1740734ee2996575273f1bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 49/49] fix: backup jobs reported lists as saved although they
 could not be stored

---
 backup/job.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index 2adfafd..7ee8d4e 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -199,7 +199,16 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 			return
 		}
-		defer dst.Close()
+		// Lists are not saved until everything has been written and closed.
+		finalize := func(fn func() error) {
+			err := fn()
+			if err != nil {
+				job.mu.Lock()
+				job.status.Errors["finalizing"] = err.Error()
+				job.mu.Unlock()
+			}
+		}
+		defer finalize(dst.Close)
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
@@ -208,9 +217,10 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 			return
 		}
-		defer zw.Close()
+		defer finalize(zw.Close)
 		msg.ReplaceWriter(zw)
 		defer msg.Close()
+		defer finalize(msg.Writer().Flush)
 		db := job.db
 
 		// The stream is just a collection of lists one after another.
@@ -255,7 +265,6 @@ func (req Request) Start(bg context.Context) ID {
 			job.status.Errors["finalizing"] = err.Error()
 			job.mu.Unlock()
 		}
-		msg.Flush()
 	}()
 
 	log.Info(ctx, "Backup started")
-- 
2.43.0

