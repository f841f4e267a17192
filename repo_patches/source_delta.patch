From 0fb56e01f67318014b0d3e349108fe36d1eb3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 01/56] fix: Elements.Deduplicate keeps the highest score when
 update times are equal

---
 elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elements.go b/elements.go
index 6f4c8ab..e14d9f7 100644
--- a/elements.go
+++ b/elements.go
@@ -85,7 +85,7 @@ func (l *Elements) Deduplicate() (changed bool) {
 		j := i
 		// If updated time equal, use highest score
 		if prev.Updated == e.Updated {
-			if prev.Score > e.Score {
+			if prev.Score < e.Score {
 				j = i - 1
 			}
 		} else {
-- 
2.43.0


From a8f3c55f2c474bf475330d7839f0ef4d34a907fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 02/56] fix: GetElements returns elements sorted by rank as
 documented

---
 list.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 08a3ee9..a1922c5 100644
--- a/list.go
+++ b/list.go
@@ -1236,7 +1236,12 @@ func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []Elemen
 		return nil, err
 	}
 	// Find elements in each segment.
-	return scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	res, err := scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	if err != nil {
+		return nil, err
+	}
+	RankedElements(res).Sort()
+	return res, nil
 }
 
 // UpdateElements will update or add elements to the list.
-- 
2.43.0


From 3595577518bf0819d17380b45e0bec333eccb852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 03/56] fix: GetPercentile no longer panics on empty lists,
 empty last segments and NaN

---
 list.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index a1922c5..760b504 100644
--- a/list.go
+++ b/list.go
@@ -1732,11 +1732,13 @@ func (l *List) GetRankScoreAsc(ctx context.Context, bs blobstore.Store, score ui
 
 // GetPercentile returns the element at a given percentile.
 // The percentile must be normalized to 0->1.
+// If the list is empty no element is returned.
 func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile float64, radius int) (*RankedElement, error) {
 	if percentile > 1 {
 		percentile = 1
 	}
-	if percentile < 0 {
+	// Also matches NaN.
+	if !(percentile >= 0) {
 		percentile = 0
 	}
 	// Ensure segments are loaded.
@@ -1751,10 +1753,16 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 
 	store := blobstore.StoreWithSet(bs, set)
 	segOffs, total := segs.scores.topOffsets()
+	if total == 0 {
+		return nil, nil
+	}
 	var bTotal = &big.Float{}
 	bTotal = bTotal.SetInt(big.NewInt(int64(total)))
 	bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
 	wantOff, _ := bTotal.Int64()
+	if wantOff >= int64(total) {
+		wantOff = int64(total) - 1
+	}
 	for i, segOff := range segOffs {
 		if wantOff < int64(segOff) {
 			e, err := segs.scores.getElementIndex(ctx, store, i-1, int(wantOff)-segOffs[i-1], segOffs[i-1], radius)
-- 
2.43.0


From 4f891d0546a0b0d75e90320ea63803ac222dc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 04/56] fix: Insert no longer loops forever when SplitSize is
 below 4

---
 list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/list.go b/list.go
index 760b504..aa76548 100644
--- a/list.go
+++ b/list.go
@@ -1582,6 +1582,10 @@ func (l *List) insert(ctx context.Context, bs blobstore.Store, e Elements, segs
 	if wantLimit > 100000 {
 		wantLimit = 100000
 	}
+	// With very small split sizes we still need to make progress.
+	if wantLimit < 1 {
+		wantLimit = 1
+	}
 	for len(e) > wantLimit {
 		// Calling ourselves, wantLimit should be the same.
 		err := l.insert(ctx, bs, e[:wantLimit], segs)
-- 
2.43.0


From 6e64617367d3e666cf6dee181dc9cd565e7b561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 05/56] fix: UpdateElements reports the previous rank in the
 whole list

---
 list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index aa76548..8b791d3 100644
--- a/list.go
+++ b/list.go
@@ -1283,6 +1283,9 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	// Contains all segments with previous score values.
 	oldRank := make(map[ElementID]*RankedElement)
 
+	// Rank offset of each segment before the update.
+	oldOffsets, oldTotal := scores.topOffsets()
+
 	// used for local locking
 	var mu sync.Mutex
 	var withLock = func(fn func()) {
@@ -1381,11 +1384,12 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				}
 				if results {
 					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, 0, 0)
+					rank, err := scores.findRanked(ctx, store, ss, eid, oldOffsets[segIdx], 0)
 					if err != nil {
 						log.Info(ctx, "Could not find element", "error", err.Error())
 						continue
 					}
+					rank.CalculateFromBottom(oldTotal)
 					withLock(func() {
 						oldRank[eid] = rank
 					})
-- 
2.43.0


From 2df04300fe468e5c4eebb5f8d86aa8771d65a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 06/56] fix: SplitSize no longer divides by zero for sizes
 below 1

---
 elements.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elements.go b/elements.go
index e14d9f7..70092da 100644
--- a/elements.go
+++ b/elements.go
@@ -386,6 +386,9 @@ func (l *Elements) Delete(id ElementID) error {
 
 // SplitSize will split the elements into a slice of elements.
 func (l Elements) SplitSize(inEach int) []Elements {
+	if inEach < 1 {
+		inEach = 1
+	}
 	if len(l) <= inEach {
 		return []Elements{l}
 	}
-- 
2.43.0


From a775774498771853bfcb509b48c8bc0632833acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 07/56] fix: Verify rejects segments following one that already
 ends at 0

---
 segments.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segments.go b/segments.go
index 71ddfd1..01f300f 100644
--- a/segments.go
+++ b/segments.go
@@ -693,6 +693,9 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 				s.SegmentsLock.RLock()
 				prev := &s.Segments[i-1]
 				s.SegmentsLock.RUnlock()
+				if prev.Min == 0 && prev.MinTie == 0 {
+					return fmt.Errorf(prefix + "Previous segment already ends at 0")
+				}
 				// Maximum of this should be just after minimum of previous
 				wantScore, wantTie := Element{Score: prev.Min, TieBreaker: prev.MinTie}.PrevMax()
 				if v.Max != wantScore || v.MaxTie != wantTie {
-- 
2.43.0


From 9881451f5552c43aa5f6deb67bdf088c6a698d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 08/56] fix: split segments at the boundary nearest the middle
 when the middle is tied

---
 segments.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/segments.go b/segments.go
index 01f300f..7cc73f7 100644
--- a/segments.go
+++ b/segments.go
@@ -1350,6 +1350,25 @@ func (s *Segments) splitIndexUpdates(ctx context.Context, ids []indexSegmentUpda
 	return res
 }
 
+// splitPoint returns the index closest to the middle where e can be split.
+// Elements with the same score and tiebreaker must not be separated.
+// Returns -1 if e cannot be split.
+func splitPoint(e Elements) int {
+	ok := func(i int) bool {
+		return i > 0 && i < len(e) && (e[i-1].Score != e[i].Score || e[i-1].TieBreaker != e[i].TieBreaker)
+	}
+	mid := (len(e) + 1) / 2
+	for d := 0; d <= mid; d++ {
+		if ok(mid + d) {
+			return mid + d
+		}
+		if ok(mid - d) {
+			return mid - d
+		}
+	}
+	return -1
+}
+
 // splitIdx will split a segment with the specified index in two equally sized parts.
 // The changed indexes are returned as well as new segment.
 // The caller must save the new segment and updated indexes if needed.
@@ -1357,16 +1376,13 @@ func (s *Segments) splitIndexUpdates(ctx context.Context, ids []indexSegmentUpda
 func (s *Segments) splitIdx(ctx context.Context, s1 *lockedSegment) (changed []indexSegmentUpdate, newSegment *lockedSegment) {
 	s1.seg.N = len(s1.elements)
 	orgLen := s1.seg.N
-	nn := s1.elements.SplitSize((s1.seg.N + 1) / 2)
-	if len(nn) == 1 {
+	at := splitPoint(s1.elements)
+	if at < 0 {
 		// Cannot split segment
-		log.Info(ctx, "Could not split segment - likely all scores are tied.", s1.seg.ID, len(s1.elements))
-		return nil, nil
-	}
-	if len(nn) != 2 {
-		log.Error(ctx, "internal error: Unexpected segment count", s1.seg.N, s1, len(nn), len(s1.elements))
+		log.Info(ctx, "Could not split segment - all scores are tied.", "seg_id", s1.seg.ID, "elements", len(s1.elements))
 		return nil, nil
 	}
+	nn := [2]Elements{s1.elements[:at], s1.elements[at:]}
 	// Overwrite first part of s1.
 	s1.elements = nn[0].Clone(false)
 	s1.seg.N = len(s1.elements)
-- 
2.43.0


From 2f898226530d9933f0699d1cf851b8467782ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 09/56] fix: Repair no longer panics when the index cannot be
 loaded

---
 list.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 8b791d3..5cbcc25 100644
--- a/list.go
+++ b/list.go
@@ -1809,7 +1809,6 @@ func (l *List) checkSanity(ctx context.Context, bs blobstore.Store, after string
 // So far this is fairly brutally done by loading all segments and recreating scores and indexes.
 func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool) error {
 	store := blobstore.StoreWithSet(bs, l.Set)
-	stats, _ := l.Stats(ctx, bs, false)
 
 	l.RLock()
 	ctx = log.WithValues(ctx, "list_id", l.ID)
@@ -1834,10 +1833,10 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 	}()
 
 	// Now that no-one else is updating, make sure that no-one else reads from the list while we rebuild.
+	allElements := make(Elements, 0, segs.scores.Elements())
 	l.Lock()
 	segs.scores.SegmentsLock.Lock()
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, stats.Elements)
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
-- 
2.43.0


From 53533cd465fcdb3efa2cca071eff22afa192f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 10/56] fix: split does not skip the segment after a merged or
 unsplittable one

---
 list.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/list.go b/list.go
index 5cbcc25..cc821dc 100644
--- a/list.go
+++ b/list.go
@@ -2159,8 +2159,8 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				}
 				updIdx = append(updIdx, ch...)
 				updated = true
-				// Skip the merged, so we don't have conflicting indices.
-				i++
+				// The following segment has taken the index of the merged.
+				i--
 				return nil
 			}()
 			if err != nil {
@@ -2255,8 +2255,8 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				}
 
 				updated = true
-				// Skip merged.
-				i++
+				// The following segment has taken the index of the merged.
+				i--
 				return nil
 			}()
 			if err != nil {
@@ -2288,14 +2288,15 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			if err != nil {
 				return err
 			}
+			updated = true
+			// Skip inserted
+			i++
 			return nil
 		}()
 		if err != nil {
 			log.Error(ctx, "Index merge returned error", "error", err.Error(), "seg_id", seg.ID, "seg_idx", i)
 			return err
 		}
-		i++
-		updated = true
 	}
 	if !updated {
 		return nil
-- 
2.43.0


From 2ed2ed27425e13c069d77606b3eb1c32d2e1e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 11/56] fix: GetElements, UpdateElements and GetPercentile
 report unreadable neighbor segments

---
 segments.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/segments.go b/segments.go
index 7cc73f7..67fac8d 100644
--- a/segments.go
+++ b/segments.go
@@ -944,10 +944,14 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 			var res []RankedElement
 			for _, id := range ids {
 				re, err := s.findRanked(ctx, bs, ls, id, offsets[segIdx], radius)
-				if err != nil {
+				if err == ErrNotFound {
 					// We ignore not found elements.
 					continue
 				}
+				if err != nil {
+					errch <- err
+					return
+				}
 				re.CalculateFromBottom(total)
 				res = append(res, *re)
 			}
@@ -1007,7 +1011,7 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 	segIdx := ls.index
 
 	// Below
-	func() {
+	err = func() error {
 		bidx, bLS, bsegIdx := eidx, ls, segIdx
 		for i := 1; i < radius+1; i++ {
 			bidx++
@@ -1015,12 +1019,12 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 				// Load next
 				bsegIdx++
 				if bsegIdx == len(s.Segments) {
-					return
+					return nil
 				}
 				ls, err := s.elementFullIdx(ctx, bs, bsegIdx, true)
 				if err != nil {
 					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", bsegIdx)
-					return
+					return err
 				}
 				defer ls.unlock()
 				bLS = ls
@@ -1028,10 +1032,14 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 			}
 			r.Below = append(r.Below, bLS.elements[bidx])
 		}
+		return nil
 	}()
+	if err != nil {
+		return nil, err
+	}
 
 	// Above
-	func() {
+	err = func() error {
 		aidx, aLS, asegIdx := eidx, ls, segIdx
 		for i := 1; i < radius+1; i++ {
 			aidx--
@@ -1039,12 +1047,12 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 				// Load previous
 				asegIdx--
 				if asegIdx == -1 {
-					return
+					return nil
 				}
 				ls, err := s.elementFullIdx(ctx, bs, asegIdx, true)
 				if err != nil {
 					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", asegIdx)
-					return
+					return err
 				}
 				aLS = ls
 				aidx = len(aLS.elements) - 1
@@ -1052,7 +1060,11 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 			}
 			r.Above = append(r.Above, aLS.elements[aidx])
 		}
+		return nil
 	}()
+	if err != nil {
+		return nil, err
+	}
 
 	return &r, nil
 }
-- 
2.43.0


From a54855ee2eea772d992b3cff2a88e4fc9e88854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 12/56] fix: UpdateElements returns segment load and save
 errors

---
 list.go | 56 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/list.go b/list.go
index cc821dc..7b42bea 100644
--- a/list.go
+++ b/list.go
@@ -1295,8 +1295,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	}
 
 	// segmentScoresLoad loads a score by index.
-	var segmentScoresLoad func(segIdx int) *lockedSegment
-	segmentScoresLoad = func(segIdx int) *lockedSegment {
+	var segmentScoresLoad func(segIdx int) (*lockedSegment, error)
+	segmentScoresLoad = func(segIdx int) (*lockedSegment, error) {
 		mu.Lock()
 		ss, ok := segmentScores[segIdx]
 		if !ok {
@@ -1318,14 +1318,14 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				mu.Lock()
 				delete(segmentScoresWait, segIdx)
 				mu.Unlock()
-				return nil
+				return nil, err
 			}
 			mu.Lock()
 			segmentScores[segIdx] = ss
 			delete(segmentScoresWait, segIdx)
 		}
 		mu.Unlock()
-		return ss
+		return ss, nil
 	}
 
 	// Use if returning early.
@@ -1378,9 +1378,10 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				scores.SegmentsLock.RLock()
 				segIdx := scores.idx[SegmentID(existing.TieBreaker)]
 				scores.SegmentsLock.RUnlock()
-				ss := segmentScoresLoad(segIdx)
-				if ss == nil {
-					continue
+				ss, err := segmentScoresLoad(segIdx)
+				if err != nil {
+					errs <- err
+					return
 				}
 				if results {
 					// Record rank of old element.
@@ -1404,12 +1405,18 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		return nil, err
 	}
 	// Split incoming elements to get destination score segments.
-	for sidx, elems := range scores.splitElementsIdx(elems) {
-		// The element should end up in this segment
-		scoreDstSeg := segmentScoresLoad(sidx)
-		if scoreDstSeg == nil {
-			continue
+	dstScores := scores.splitElementsIdx(elems)
+	// Load all before changing anything.
+	for sidx := range dstScores {
+		_, err := segmentScoresLoad(sidx)
+		if err != nil {
+			unlockAll()
+			return nil, err
 		}
+	}
+	for sidx, elems := range dstScores {
+		// The element should end up in this segment
+		scoreDstSeg := segmentScores[sidx]
 
 		// Check if element have changed from another segment
 		for _, elem := range elems {
@@ -1460,20 +1467,23 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			scores.SegmentsLock.RLock()
 			eSid := scores.idx[SegmentID(existing.TieBreaker)]
 			scores.SegmentsLock.RUnlock()
-			rem := segmentScoresLoad(eSid)
-			if rem != nil {
-				err := rem.elements.Delete(elem.ID)
-				if err != nil {
-					log.Info(ctx, "Could not delete existing", "error", err.Error())
-				}
+			// Loaded when the element was found.
+			err := segmentScores[eSid].elements.Delete(elem.ID)
+			if err != nil {
+				log.Info(ctx, "Could not delete existing", "error", err.Error())
 			}
 		}
 	}
 
+	// Save as much as possible, but return the first error.
+	var saveErr error
 	for _, ls := range segmentsIdx {
 		err := index.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated index elements", "error", err.Error())
+			if saveErr == nil {
+				saveErr = err
+			}
 		}
 	}
 
@@ -1481,9 +1491,19 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		err := scores.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated score elements", "error", err.Error())
+			if saveErr == nil {
+				saveErr = err
+			}
 		}
 	}
 	wg.Wait()
+	if saveErr != nil {
+		err := l.saveSegments(ctx, bs, segs)
+		if err != nil {
+			log.Error(ctx, "Error saving segments", "error", err.Error())
+		}
+		return nil, saveErr
+	}
 	l.checkSanity(ctx, bs, "update", segs)
 
 	// Get updated when everything is said and done.
-- 
2.43.0


From cd163083504133a3d559cd2274865ff5977a988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 13/56] fix: DeleteElements returns errors saving the index

---
 segments.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segments.go b/segments.go
index 67fac8d..3b51108 100644
--- a/segments.go
+++ b/segments.go
@@ -444,7 +444,11 @@ func (s *Segments) DeleteElements(ctx context.Context, bs blobstore.WithSet, e E
 				log.Info(ctx, "Did not find all elements", "left", len(toDelete)-ndeleted)
 			}
 			ls.elements = ls.elements[:wrtto]
-			s.replaceSegment(ctx, bs, ls)
+			err = s.replaceSegment(ctx, bs, ls)
+			if err != nil {
+				errC <- err
+				return
+			}
 			if withIdx {
 				deleted.Sort()
 				idxC <- deleted
-- 
2.43.0


From 3ba1afd3561b6d71779cd7c20bc1cda5152ca207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 14/56] fix: cloning a list returns errors saving elements

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 7b42bea..ace5606 100644
--- a/list.go
+++ b/list.go
@@ -536,7 +536,7 @@ func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List)
 		}
 		err = newSegments.scores.replaceSegment(ctx, bsDst, dst)
 		if err != nil {
-			log.Error(ctx, err.Error())
+			return err
 		}
 	}
 	dstIdx.Sort()
-- 
2.43.0


From e1efd7f335ef8a0534ca07fc88e65c46a9ded7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 15/56] fix: reindex leaves unlocking to the caller when saving
 fails

---
 list.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/list.go b/list.go
index ace5606..d5c47bf 100644
--- a/list.go
+++ b/list.go
@@ -771,13 +771,7 @@ func (l *List) reindex(ctx context.Context, bs blobstore.Store, segs *segments)
 
 	// Replace
 	segs.index = newIdx
-	err = l.saveSegments(ctx, bs, segs)
-	if err != nil {
-		segs.unlock()
-		return err
-	}
-
-	return nil
+	return l.saveSegments(ctx, bs, segs)
 }
 
 // VerifyUnlocked validates that all elements of the list can be locked.
-- 
2.43.0


From ca08beac2b9fcbfb69fe8b3c0ff279e3a3251fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 16/56] fix: populate releases the list when saving the index
 fails

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index d5c47bf..4cd6415 100644
--- a/list.go
+++ b/list.go
@@ -944,7 +944,7 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	split = ids.SplitSize(wantSize)
 	idx, err := NewSegmentsElements(ctx, store, split, nil)
 	if err != nil {
-		segs.unlock()
+		l.Unlock()
 		return segs, err
 	}
 	idx.cache = l.cache
-- 
2.43.0


From e5eab4a5c65ddd7c37fbae03cece09469975787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 17/56] fix: Backup and replaceSegment release the segments
 lock on errors

---
 list.go     | 4 ++--
 segments.go | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 4cd6415..c4f406d 100644
--- a/list.go
+++ b/list.go
@@ -1909,12 +1909,12 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 	}
 	scores.SegmentsLock.RLock()
 	err = scores.EncodeMsg(w.Writer())
+	segs := len(scores.Segments)
+	scores.SegmentsLock.RUnlock()
 	if err != nil {
 		return err
 	}
 
-	segs := len(scores.Segments)
-	scores.SegmentsLock.RUnlock()
 	if err := w.SetVersion(segmentVersion); err != nil {
 		return err
 	}
diff --git a/segments.go b/segments.go
index 3b51108..57f3f1d 100644
--- a/segments.go
+++ b/segments.go
@@ -279,6 +279,7 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 	s.SegmentsLock.Lock()
 	ls.seg.elementsUpdated(ls.elements)
 	if ls.index >= len(s.Segments) || ls.index < 0 {
+		s.SegmentsLock.Unlock()
 		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
 	}
 	s.Segments[ls.index] = *ls.seg
-- 
2.43.0


From 8c687277f985c059c21f2c17453ad4a549e94f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:24 +0000
Subject: [PATCH 18/56] fix: Repair does not drop elements when storage fails
 to return them

---
 list.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/list.go b/list.go
index c4f406d..e57605d 100644
--- a/list.go
+++ b/list.go
@@ -22,6 +22,7 @@ import (
 
 	"github.com/Vivino/rankdb/blobstore"
 	"github.com/Vivino/rankdb/log"
+	"github.com/tinylib/msgp/msgp"
 )
 
 // List contains the segments representing a list
@@ -1855,6 +1856,12 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
 			log.Error(ctx, "Repair: Error loading elements", "error", err)
+			if !clearIfErr && !isLost(err) {
+				// The elements may still be there, do not drop them.
+				segs.scores.SegmentsLock.Unlock()
+				l.Unlock()
+				return err
+			}
 			continue
 		}
 
@@ -1877,6 +1884,16 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 	return err
 }
 
+// isLost returns whether a load error means that the content is missing or damaged,
+// as opposed to storage failing to return it.
+func isLost(err error) bool {
+	if err == blobstore.ErrBlobNotFound || err == ErrVersionMismatch {
+		return true
+	}
+	_, damaged := err.(msgp.Error)
+	return damaged
+}
+
 // Version of the list content.
 const backupVersion = 1
 
-- 
2.43.0


From 7ce5b7741ec7aa0b72b0a75e9eaacbc6def18951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 19/56] fix: Stats uses the segments it has locked and reports
 unreadable elements

---
 list.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/list.go b/list.go
index e57605d..9962ea8 100644
--- a/list.go
+++ b/list.go
@@ -1031,14 +1031,20 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 		res.CachePct = 100 * float64(res.CacheHits) / float64(res.CacheMisses+res.CacheHits)
 	}
 	if elements {
-		es, err := l.GetRankTop(ctx, bs, 0, 1)
-		if err == nil && len(es) > 0 {
+		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
+		if len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
-		es, err = l.GetRankBottom(ctx, bs, 0, 1)
-		if err == nil && len(es) > 0 {
+		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
+		if err != nil && err != ErrOffsetOutOfBounds {
+			return nil, err
+		}
+		if len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
 		}
-- 
2.43.0


From 5e061eab3bfc1d8e01905fcb4bfa92d287760de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 20/56] fix: operations on a deleted or unpopulated list return
 an error instead of panicking

---
 list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/list.go b/list.go
index 9962ea8..cd5439d 100644
--- a/list.go
+++ b/list.go
@@ -375,6 +375,12 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 		}
 	}
 
+	if s.scores == nil {
+		// The list was deleted or could not be populated.
+		s.unlock()
+		return nil, blobstore.ErrBlobNotFound
+	}
+
 	if s.index == nil && !l.Index.Unset() {
 		s.index, err = l.Index.Load(ctx, blobstore.StoreWithSet(bs, l.Set), l.cache)
 		if err != nil {
-- 
2.43.0


From 87c7f502609fd9bcda7f5b7b5aa0ddfb084389f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 21/56] fix: memstore does not mix up sets and keys that
 contain a slash

---
 blobstore/memstore/memstore.go | 37 +++++++++++++++-------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/blobstore/memstore/memstore.go b/blobstore/memstore/memstore.go
index cf6c51b..4c219c8 100644
--- a/blobstore/memstore/memstore.go
+++ b/blobstore/memstore/memstore.go
@@ -8,7 +8,6 @@ import (
 	"context"
 	"fmt"
 	"sort"
-	"strings"
 	"sync"
 
 	"github.com/Vivino/rankdb/blobstore"
@@ -18,32 +17,29 @@ import (
 // NewMemStore returns a new MemBlobStore
 func NewMemStore() *MemBlobStore {
 	return &MemBlobStore{
-		blobs:   make(map[string][]byte),
-		reads:   make(map[string]int),
-		writes:  make(map[string]int),
-		deletes: make(map[string]int),
+		blobs:   make(map[blobKey][]byte),
+		reads:   make(map[blobKey]int),
+		writes:  make(map[blobKey]int),
+		deletes: make(map[blobKey]int),
 	}
 }
 
 type MemBlobStore struct {
 	blobsMu sync.Mutex
-	blobs   map[string][]byte
-	reads   map[string]int
-	writes  map[string]int
-	deletes map[string]int
+	blobs   map[blobKey][]byte
+	reads   map[blobKey]int
+	writes  map[blobKey]int
+	deletes map[blobKey]int
 	debug   bool
 }
 
-func toKey(set, key string) string {
-	return set + "/" + key
+// blobKey identifies a blob.
+type blobKey struct {
+	set, key string
 }
 
-func splitKey(k string) (set, key string) {
-	s := strings.Split(k, "/")
-	if len(s) != 2 {
-		panic(fmt.Errorf("len != 2, was %d", len(s)))
-	}
-	return s[0], s[1]
+func toKey(set, key string) blobKey {
+	return blobKey{set: set, key: key}
 }
 
 func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error) {
@@ -93,7 +89,7 @@ func (m *MemBlobStore) Delete(ctx context.Context, set, key string) error {
 func (m *MemBlobStore) Usage(set string) (blobs, size int) {
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		if strings.HasPrefix(k, toKey(set, "")) {
+		if k.set == set {
 			size += len(v)
 			blobs++
 		}
@@ -106,9 +102,8 @@ func (m *MemBlobStore) Dir(set string) []string {
 	var res []string
 	m.blobsMu.Lock()
 	for k, v := range m.blobs {
-		s, key := splitKey(k)
-		if set == s {
-			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
+		if k.set == set {
+			res = append(res, fmt.Sprintf("%s: %d bytes [r:%d, w:%d, d:%d]", k.key, len(v), m.reads[k], m.writes[k], m.deletes[k]))
 		}
 	}
 	m.blobsMu.Unlock()
-- 
2.43.0


From 4f00113886078abf8a017fddc97a5c6f766096c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 22/56] fix: permanent errors of one retry store do not leak
 into all others

---
 blobstore/retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 87fcaf2..9b71f89 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -84,7 +84,7 @@ func (l RetryOpt) PermanentErr(errs ...error) RetryStoreOption {
 		}
 		for _, err := range errs {
 			if err != nil {
-				o.permanent[err] = struct{}{}
+				perm[err] = struct{}{}
 			}
 		}
 		o.permanent = perm
-- 
2.43.0


From ec7bcddb9b756e1639de301ca06f390475b695e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 23/56] fix: MaxSizeStore reports a delete that could not be
 carried out

---
 blobstore/maxsize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 1ec61e5..e12dc4d 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -163,9 +163,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 
 	if n == 0 {
 		b, err := r.store.Get(ctx, set, key)
-		if err != nil {
+		if err == ErrBlobNotFound {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		var size int
 		n, size = binary.Uvarint(b)
 		if size < 1 {
-- 
2.43.0


From 5131966191892d938ad2856281d6cf4b0b071295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 24/56] fix: API returns the elements above in ranking order
 with matching ranks

---
 api/morph/elements.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/api/morph/elements.go b/api/morph/elements.go
index b9a5112..5afff95 100644
--- a/api/morph/elements.go
+++ b/api/morph/elements.go
@@ -56,7 +56,7 @@ func (r RankedElement) Full(id rankdb.ListID) *app.RankdbElementFull {
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: in.Above}.Reversed().ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFull{
@@ -110,7 +110,7 @@ func (r RankedElement) FullUpdate(id rankdb.ListID) *app.RankdbElementFullUpdate
 		Below app.RankdbElementCollection `form:"below,omitempty" json:"below,omitempty" yaml:"below,omitempty" xml:"below,omitempty"`
 	}{
 		Below: Elements{In: in.Below}.ToRanked(in.FromTop+1, in.FromBottom-1, id),
-		Above: Elements{In: in.Above}.ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
+		Above: Elements{In: in.Above}.Reversed().ToRanked(in.FromTop-len(in.Above), in.FromBottom+len(in.Above), id),
 	}
 
 	return &app.RankdbElementFullUpdate{
@@ -182,6 +182,17 @@ func (e Elements) ToRanked(firstFromTop, firstFromBottom int, id rankdb.ListID)
 	return res
 }
 
+// Reversed returns the elements in reverse order.
+// rankdb returns the elements above an element with the nearest first,
+// while the API lists them in ranking order.
+func (e Elements) Reversed() Elements {
+	res := make([]rankdb.Element, len(e.In))
+	for i, elem := range e.In {
+		res[len(res)-1-i] = elem
+	}
+	return Elements{In: res}
+}
+
 func NewApiElements(e ...*app.Element) ApiElements {
 	return ApiElements{In: e}
 }
-- 
2.43.0


From 27b6198c80f6a8407e2c873bb21c80256d149afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 25/56] fix: SortedIDsBefore returns the lists closest to the
 given ID

---
 lists.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lists.go b/lists.go
index 7be2d7d..4688fae 100644
--- a/lists.go
+++ b/lists.go
@@ -433,18 +433,16 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 					if id < firstElement {
 						return true
 					}
-					s.Sort()
 					// Overwrite smallest
-					firstElement = ListID(s[1])
 					s[0] = string(id)
-					if id < firstElement {
-						firstElement = id
-					}
+					s.Sort()
+					firstElement = ListID(s[0])
 					return true
 				}
 				s = append(s, string(id))
-				if id < firstElement {
-					firstElement = id
+				if len(s) == n {
+					s.Sort()
+					firstElement = ListID(s[0])
 				}
 			} else {
 				page.After++
@@ -455,8 +453,8 @@ func (l *Lists) SortedIDsBefore(to ListID, n int) ([]*List, PageInfo) {
 	s.Sort()
 	if cropOne {
 		if len(s) > 1 {
-			page.After++
-			s = s[:1]
+			page.Before++
+			s = s[1:]
 		}
 	}
 	res := make([]*List, 0, len(s))
-- 
2.43.0


From 69b85ccc69b775bae0aaa1ba04f3e3322fce554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 26/56] fix: an unreadable list registry is not reported as not
 existing

---
 manager.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/manager.go b/manager.go
index 701c451..f6b3077 100644
--- a/manager.go
+++ b/manager.go
@@ -175,8 +175,13 @@ func (m *Manager) LoadLists(ctx context.Context, cache Cache) error {
 	}
 	// Load backup.
 	log.Error(ctx, "Unable to load master list, loading from backup", "error", err.Error())
-	blob, err = m.Backup.Get(ctx, backupListStorageKey)
-	if err != nil {
+	blob, berr := m.Backup.Get(ctx, backupListStorageKey)
+	if berr != nil {
+		if err == blobstore.ErrBlobNotFound {
+			return berr
+		}
+		// Report why the master list cannot be used. If we returned that the backup does not exist,
+		// it would look like there never were any lists.
 		return err
 	}
 	return m.Lists.Load(ctx, m.Storage, blob)
-- 
2.43.0


From 2242af3b3ae0fafe7464296696f089987dd995c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 27/56] fix: saving the list registry reports write errors

---
 lists.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lists.go b/lists.go
index 4688fae..a9d1215 100644
--- a/lists.go
+++ b/lists.go
@@ -85,7 +85,7 @@ const (
 )
 
 // Save the lists.
-func (l Lists) Save(ctx context.Context, w io.Writer) error {
+func (l Lists) Save(ctx context.Context, w io.Writer) (err error) {
 	wc := &writeCounter{w: w}
 	n := 0
 	defer func() {
@@ -98,19 +98,23 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	c := compressionNone
 	if compressLists {
 		c = compressionZstd
-		enc, err := zstd.NewWriter(wc)
-		if err != nil {
-			return err
+		enc, zerr := zstd.NewWriter(wc)
+		if zerr != nil {
+			return zerr
 		}
 		wm.ReplaceWriter(enc)
-		defer enc.Close()
+		defer func() {
+			// Remaining data is written on close.
+			if cerr := enc.Close(); err == nil {
+				err = cerr
+			}
+		}()
 	}
-	_, err := wc.Write([]byte{c})
+	_, err = wc.Write([]byte{c})
 	if err != nil {
 		return err
 	}
 
-	defer wm.Flush()
 	err = wm.SetVersion(listVersion)
 	if err != nil {
 		return err
@@ -138,8 +142,7 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	wm.Flush()
-	return nil
+	return msg.Flush()
 }
 
 // Load the lists. Overwrites all existing lists.
-- 
2.43.0


From d434f577a5a4dd5dd1b2047a9f2d799401c5deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 28/56] fix: restore does not crash on the first list that
 fails

---
 backup/restore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index 9fd485e..9366d17 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -96,6 +96,9 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
 		if err != nil {
+			if res.Failed == nil {
+				res.Failed = make(map[string]string)
+			}
 			res.Failed[string(dstLstID)] = err.Error()
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
-- 
2.43.0


From 26d3390aefbf9e146adbc1eda42af1a68b3274de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 29/56] fix: a backup job reports when its destination did not
 take all data

---
 backup/job.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index 8018529..4a542d0 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -183,17 +183,29 @@ func (req Request) Start(bg context.Context) ID {
 		msg := rankdb.NewWriterMsg()
 		dst, err := job.dst.Save(ctx)
 		if err != nil {
+			job.mu.Lock()
 			job.status.Errors["saver"] = err.Error()
+			job.mu.Unlock()
 			return
 		}
-		defer dst.Close()
+		// fail adds an error that concerns the entire backup.
+		fail := func(what string, err error) {
+			if err == nil {
+				return
+			}
+			log.Error(ctx, "Backup failed", "stage", what, "error", err.Error())
+			job.mu.Lock()
+			job.status.Errors[what] = err.Error()
+			job.mu.Unlock()
+		}
+		defer func() { fail("closing", dst.Close()) }()
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
-			job.status.Errors["compress"] = err.Error()
+			fail("compress", err)
 			return
 		}
-		defer zw.Close()
+		defer func() { fail("compress", zw.Close()) }()
 		msg.ReplaceWriter(zw)
 		defer msg.Close()
 		db := job.db
@@ -235,12 +247,10 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 		}
 		err = msg.Writer().WriteBool(false)
-		if err != nil {
-			job.mu.Lock()
-			job.status.Errors["finalizing"] = err.Error()
-			job.mu.Unlock()
+		if err == nil {
+			err = msg.Writer().Flush()
 		}
-		msg.Flush()
+		fail("finalizing", err)
 	}()
 
 	log.Info(ctx, "Backup started")
-- 
2.43.0


From 01127ea82e03c3a9e050f359b0073b84f453df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 30/56] fix: the status of a running backup job can be read
 safely

---
 backup/job.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/backup/job.go b/backup/job.go
index 4a542d0..3e32745 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -38,7 +38,7 @@ func (id ID) Status() *Status {
 		return nil
 	}
 	job.mu.Lock()
-	status := job.status
+	status := job.status.clone()
 	job.mu.Unlock()
 	return &status
 }
@@ -102,6 +102,21 @@ type Status struct {
 	Finished  *time.Time
 }
 
+// clone returns a copy that is not affected by further changes to s.
+func (s Status) clone() Status {
+	custom, errs := s.Custom, s.Errors
+	s.Custom = make(map[string]string, len(custom))
+	for k, v := range custom {
+		s.Custom[k] = v
+	}
+	s.Errors = make(map[string]string, len(errs))
+	for k, v := range errs {
+		s.Errors[k] = v
+	}
+	s.Success = append([]string{}, s.Success...)
+	return s
+}
+
 // writeCounter counts the number of written bytes written to 'w'.
 // The count 'n' can be accessed safely when holding the lock.
 type writeCounter struct {
-- 
2.43.0


From c9e4390df4bb8b28e8ec33536f46f290708ca885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 31/56] fix: LazySaver does not mix up sets and keys that
 contain a slash

---
 blobstore/lazysaver.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index 72a71ba..b117de5 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -24,7 +24,7 @@ type LazySaver struct {
 	mu           sync.RWMutex
 	tokens       chan struct{}
 	cache        *list.List
-	cacheIdx     map[string]*list.Element
+	cacheIdx     map[blobKey]*list.Element
 	itemAdded    chan struct{}
 	savech       chan *list.Element
 	shuttingDown bool
@@ -176,7 +176,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		lazySaveOptions: defaultLazySaveOptions,
 		store:           store,
 		cache:           list.New(),
-		cacheIdx:        make(map[string]*list.Element),
+		cacheIdx:        make(map[blobKey]*list.Element),
 		itemAdded:       make(chan struct{}, 1),
 		savech:          make(chan *list.Element),
 		shutdownCh:      make(chan struct{}, 0),
@@ -635,8 +635,13 @@ func (l *LazySaver) Delete(ctx context.Context, set, key string) error {
 	return fn(ctx, set, key)
 }
 
-func lazyKey(set, key string) string {
-	return set + "/" + key
+// blobKey identifies a blob.
+type blobKey struct {
+	set, key string
+}
+
+func lazyKey(set, key string) blobKey {
+	return blobKey{set: set, key: key}
 }
 
 var (
-- 
2.43.0


From 16c1cd814c60a44b92d5ea9d1d3fe5a7eba4bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 32/56] fix: LazySaver never lets an older value overwrite a
 newer one

---
 blobstore/lazysaver.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/blobstore/lazysaver.go b/blobstore/lazysaver.go
index b117de5..e3001ec 100644
--- a/blobstore/lazysaver.go
+++ b/blobstore/lazysaver.go
@@ -73,6 +73,11 @@ type updateItemRequest struct {
 	seen     time.Time
 	token    struct{}
 	saving   bool
+	// done is closed when the item has been saved.
+	done chan struct{}
+	// after must be closed before this item can be saved.
+	// It is set if an older value of the same key is being saved.
+	after chan struct{}
 }
 
 type lazySaveOption func(*lazySaveOptions) error
@@ -237,6 +242,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 		ctx = log.WithValues(ctx, "set", set, "key", key, "func", "lazy-set")
 		// Copy b, so caller is free to re-use.
 		b = append(getDataBufferChunk(len(b)), b...)
+		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now(), done: make(chan struct{})}
 		l.mu.Lock()
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
@@ -253,8 +259,8 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				l.mu.Unlock()
 				return nil
 			}
+			r.after = v.done
 		}
-		r := updateItemRequest{ctx: ctx, set: set, key: key, b: b, seen: time.Now()}
 		if l.verbose {
 			log.Logger(ctx).Info("Adding new Save")
 		}
@@ -266,7 +272,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 	l.delete = func(ctx context.Context, set, key string) error {
 		ctx = log.WithValues(ctx, "set", set, "key", key, "func", "lazy-delete")
 		// First update cache, if we have it.
-		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now()}
+		r := updateItemRequest{ctx: ctx, set: set, key: key, seen: time.Now(), done: make(chan struct{})}
 		l.mu.Lock()
 		e, ok := l.cacheIdx[lazyKey(set, key)]
 		if ok {
@@ -282,6 +288,7 @@ func NewLazySaver(store Store, opts ...lazySaveOption) (*LazySaver, error) {
 				l.mu.Unlock()
 				return nil
 			}
+			r.after = v.done
 		}
 		if l.verbose {
 			log.Logger(ctx).Info("Not present in buffer")
@@ -464,6 +471,10 @@ func (l *LazySaver) startSaver(n int) {
 	defer l.saversWG.Done()
 	for e := range input {
 		v := e.Value.(updateItemRequest)
+		if v.after != nil {
+			// Never let an older value overwrite a newer one.
+			<-v.after
+		}
 		var dataDone []byte
 		ok := func() bool {
 			ctx, cancel := context.WithTimeout(log.WithValues(ctxb, "set", v.set, "key", v.key), timeout)
@@ -514,6 +525,7 @@ func (l *LazySaver) startSaver(n int) {
 			putDataBufferChunk(dataDone)
 		}
 		l.mu.Unlock()
+		close(v.done)
 	}
 }
 
-- 
2.43.0


From 0e1e461097917c7ae19b53a5ca4e23e778969bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 33/56] fix: damaged element counts do not crash loading of
 elements

---
 segment.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index a4b9613..b11151c 100644
--- a/segment.go
+++ b/segment.go
@@ -16,6 +16,7 @@ import (
 	"time"
 
 	"github.com/Vivino/rankdb/blobstore"
+	"github.com/tinylib/msgp/msgp"
 )
 
 // SegmentID is the ID of a segment.
@@ -211,7 +212,15 @@ func (s *Segment) loadElements(ctx context.Context, store blobstore.WithSet, rea
 	if b, v = MsgpGetVersion(b); v != elementsVersion {
 		return nil, ErrVersionMismatch
 	}
-	e = make(Elements, 0, s.N)
+	// Check the element count before allocating. An element takes more than one byte.
+	var n uint32
+	if n, _, err = msgp.ReadArrayHeaderBytes(b); err != nil {
+		return nil, err
+	}
+	if int64(n) > int64(len(b)) {
+		return nil, msgp.ErrShortBytes
+	}
+	e = make(Elements, 0, n)
 	_, err = e.UnmarshalMsg(b)
 	forReader = e
 	if !readOnly {
-- 
2.43.0


From 46a4621d5e9658f442d72dca3fd6ea9d50777e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 34/56] fix: a damaged segment count does not crash loading of
 segments

---
 segments.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segments.go b/segments.go
index 57f3f1d..2167665 100644
--- a/segments.go
+++ b/segments.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/Vivino/rankdb/blobstore"
 	"github.com/Vivino/rankdb/log"
+	"github.com/tinylib/msgp/msgp"
 )
 
 // SegmentsID is the ID of a collection of segments.
@@ -872,7 +873,10 @@ func (s SegmentsID) Load(ctx context.Context, store blobstore.WithSet, cache Cac
 	case 1:
 		return nil, errors.New("deprecated v1 found")
 	case segmentsVersion:
-		b, err = segs.UnmarshalMsg(b)
+		// Check that everything announced is there before allocating.
+		if _, err = msgp.Skip(b); err == nil {
+			b, err = segs.UnmarshalMsg(b)
+		}
 	default:
 		return nil, ErrVersionMismatch
 	}
-- 
2.43.0


From 842b1f72698d367a6ed3810be72d159c61c48ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 35/56] fix: a damaged metadata count does not crash loading of
 lists

---
 list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index cd5439d..67c5730 100644
--- a/list.go
+++ b/list.go
@@ -199,7 +199,8 @@ func NewList(ctx context.Context, id ListID, set string, bs blobstore.Store, opt
 
 // newList creates a new, empty list.
 func newList(c Cache, m *Manager) *List {
-	return &List{cache: c, manager: m}
+	// A metadata map is provided, so decoding does not allocate one of the size the data claims.
+	return &List{cache: c, manager: m, Metadata: make(map[string]string)}
 }
 
 // initEmptyList will create an empty list.
-- 
2.43.0


From 933e07108cc2019c813d82fff3151fce086cb5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 36/56] fix: damaged counts in a backup do not crash the
 restore

---
 list.go     |  8 +++++---
 msgppool.go | 13 +++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/list.go b/list.go
index 67c5730..3483463 100644
--- a/list.go
+++ b/list.go
@@ -2003,7 +2003,7 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		log.Error(ctx, "RestoreList: segmentsVersion mismatch")
 		return nil, ErrVersionMismatch
 	}
-	err = s.DecodeMsg(r.Reader())
+	err = r.decode(&s)
 	if err != nil {
 		return nil, err
 	}
@@ -2024,6 +2024,9 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 	if err != nil {
 		return nil, err
 	}
+	if segs != len(s.Segments) {
+		return nil, fmt.Errorf("RestoreList: want %d segments, found %d", segs, len(s.Segments))
+	}
 	s.Segments = make([]Segment, segs)
 	for i := range s.Segments {
 		var seg Segment
@@ -2036,12 +2039,11 @@ func RestoreList(ctx context.Context, bs blobstore.Store, r *ReaderMsgp, c Cache
 		// decode elements
 		ls := lockedSegment{
 			seg:      &seg,
-			elements: make(Elements, 0, seg.N),
 			index:    i,
 			readOnly: false,
 			unlock:   func() {},
 		}
-		err = ls.elements.DecodeMsg(r.Reader())
+		err = r.decode(&ls.elements)
 		if err != nil {
 			return nil, err
 		}
diff --git a/msgppool.go b/msgppool.go
index 1f12153..e6f2efc 100644
--- a/msgppool.go
+++ b/msgppool.go
@@ -109,6 +109,19 @@ func (w ReaderMsgp) Reader() *msgp.Reader {
 	return w.r
 }
 
+// decode reads a value.
+// The value is read completely before it is decoded,
+// so memory is never allocated for elements that are announced, but not there.
+func (w ReaderMsgp) decode(v msgp.Unmarshaler) error {
+	var raw msgp.Raw
+	err := raw.DecodeMsg(w.r)
+	if err != nil {
+		return err
+	}
+	_, err = v.UnmarshalMsg(raw)
+	return err
+}
+
 func (w ReaderMsgp) GetVersion() (v uint8) {
 	b, err := w.r.ReadByte()
 	if err != nil {
-- 
2.43.0


From e0a9f3a9215e640596c0c54a2facf379ea353de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 37/56] fix: queries do not deadlock with updates

Neighbours and score queries locked further segments while holding the
element lock of one. Updates lock several segments as well, in any order,
so the two could wait for each other forever.
---
 list.go     |   2 +-
 segments.go | 134 +++++++++++++++++++++++-----------------------------
 2 files changed, 60 insertions(+), 76 deletions(-)

diff --git a/list.go b/list.go
index 3483463..50f3410 100644
--- a/list.go
+++ b/list.go
@@ -1393,7 +1393,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				}
 				if results {
 					// Record rank of old element.
-					rank, err := scores.findRanked(ctx, store, ss, eid, oldOffsets[segIdx], 0)
+					rank, err := scores.findRanked(ctx, ss, eid, oldOffsets[segIdx], 0)
 					if err != nil {
 						log.Info(ctx, "Could not find element", "error", err.Error())
 						continue
diff --git a/segments.go b/segments.go
index 2167665..1f2a15a 100644
--- a/segments.go
+++ b/segments.go
@@ -949,20 +949,23 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				errch <- err
 				return
 			}
-			defer ls.unlock()
 			var res []RankedElement
 			for _, id := range ids {
-				re, err := s.findRanked(ctx, bs, ls, id, offsets[segIdx], radius)
-				if err == ErrNotFound {
+				re, err := s.findRanked(ctx, ls, id, offsets[segIdx], radius)
+				if err != nil {
 					// We ignore not found elements.
 					continue
 				}
+				re.CalculateFromBottom(total)
+				res = append(res, *re)
+			}
+			ls.unlock()
+			for i := range res {
+				err := s.addNeighbours(ctx, bs, segIdx, &res[i], radius)
 				if err != nil {
 					errch <- err
 					return
 				}
-				re.CalculateFromBottom(total)
-				res = append(res, *re)
 			}
 			resch <- res
 		}(segIdx, id)
@@ -986,21 +989,20 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	if err != nil {
 		return nil, err
 	}
-	defer ls.unlock()
-
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
-	re, err := s.findRanked(ctx, bs, ls, ls.elements[elementOff].ID, offset, radius)
+	re, err := s.findRanked(ctx, ls, ls.elements[elementOff].ID, offset, radius)
+	ls.unlock()
 	if err != nil {
 		return nil, err
 	}
-	return re, nil
+	return re, s.addNeighbours(ctx, bs, segIdx, re, radius)
 }
 
-// findRanked returns ranked element.
+// findRanked returns ranked element with the neighbours that are in the same segment.
 // caller must hold segment read lock and element read lock for supplied segment.
-func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *lockedSegment, id ElementID, offset, radius int) (*RankedElement, error) {
+func (s *Segments) findRanked(ctx context.Context, ls *lockedSegment, id ElementID, offset, radius int) (*RankedElement, error) {
 	eidx, err := ls.elements.FindIdx(id)
 	if err != nil {
 		//log.Info(ctx, "Unable to find element", "error", err, "segment_id", seg.ID, "element_id", id, "looking_in", seg)
@@ -1014,68 +1016,47 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 		Below:   make([]Element, 0, radius),
 	}
 
-	if radius <= 0 {
-		return &r, nil
+	for i := eidx + 1; i < len(ls.elements) && len(r.Below) < radius; i++ {
+		r.Below = append(r.Below, ls.elements[i])
+	}
+	for i := eidx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		r.Above = append(r.Above, ls.elements[i])
 	}
-	segIdx := ls.index
+	return &r, nil
+}
 
-	// Below
-	err = func() error {
-		bidx, bLS, bsegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			bidx++
-			for bidx == len(bLS.elements) {
-				// Load next
-				bsegIdx++
-				if bsegIdx == len(s.Segments) {
-					return nil
-				}
-				ls, err := s.elementFullIdx(ctx, bs, bsegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", bsegIdx)
-					return err
-				}
-				defer ls.unlock()
-				bLS = ls
-				bidx = 0
+// addNeighbours adds the neighbours of r that are in other segments than segIdx.
+// Caller must hold segment read lock, but no element locks.
+// Updates lock several segments, so only one element lock must be held at the time.
+func (s *Segments) addNeighbours(ctx context.Context, bs blobstore.WithSet, segIdx int, r *RankedElement, radius int) error {
+	for i := segIdx + 1; i < len(s.Segments) && len(r.Below) < radius; i++ {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			return err
+		}
+		for j := 0; j < len(ls.elements) && len(r.Below) < radius; j++ {
+			// The element itself may just have been moved here.
+			if ls.elements[j].ID != r.ID {
+				r.Below = append(r.Below, ls.elements[j])
 			}
-			r.Below = append(r.Below, bLS.elements[bidx])
 		}
-		return nil
-	}()
-	if err != nil {
-		return nil, err
+		ls.unlock()
 	}
-
-	// Above
-	err = func() error {
-		aidx, aLS, asegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			aidx--
-			for aidx < 0 {
-				// Load previous
-				asegIdx--
-				if asegIdx == -1 {
-					return nil
-				}
-				ls, err := s.elementFullIdx(ctx, bs, asegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", asegIdx)
-					return err
-				}
-				aLS = ls
-				aidx = len(aLS.elements) - 1
-				defer ls.unlock()
+	for i := segIdx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			return err
+		}
+		for j := len(ls.elements) - 1; j >= 0 && len(r.Above) < radius; j-- {
+			if ls.elements[j].ID != r.ID {
+				r.Above = append(r.Above, ls.elements[j])
 			}
-			r.Above = append(r.Above, aLS.elements[aidx])
 		}
-		return nil
-	}()
-	if err != nil {
-		return nil, err
+		ls.unlock()
 	}
-
-	return &r, nil
+	return nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
@@ -1088,24 +1069,27 @@ func (s *Segments) getElementsFromScore(ctx context.Context, bs blobstore.WithSe
 		return nil, err
 	}
 
-	defer ls.unlock()
-	seg := ls.seg
+	// The element lock must not be held while locking the next segments.
+	n := len(ls.elements)
+	first := n
+	var res Elements
 	for i, elem := range ls.elements {
 		if elem.Score <= score {
-			e, err := s.getElementsOffset(ctx, bs, segIdx, i, elements)
-			if err != nil {
-				return nil, err
-			}
-			return e.Ranked(i, seg.N), nil
+			first = i
+			break
 		}
 	}
+	for i := first; i < n && len(res) < elements; i++ {
+		res = append(res, ls.elements[i])
+	}
+	ls.unlock()
 
-	// Return first of next segment.
-	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements)
+	// Continue with next segment.
+	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements-len(res))
 	if err != nil {
 		return nil, err
 	}
-	return e.Ranked(seg.N, seg.N), nil
+	return append(res, e...).Ranked(first, n), nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From b3d673ca7e8169f757b2d04dda7d1ec940b4e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 38/56] fix: cloning a list while it is updated does not lose
 or duplicate elements

---
 list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 50f3410..be229df 100644
--- a/list.go
+++ b/list.go
@@ -498,7 +498,8 @@ func (l *List) saveSegments(ctx context.Context, bs blobstore.Store, s *segments
 func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List) error {
 	ctx = log.WithFn(ctx)
 	// Ensure segments are loaded.
-	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsAllowUpdates)
+	// Lock updates while copying, so elements are not moved between segments.
+	oSegs, err := org.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
 	if err != nil {
 		return fmt.Errorf("loading segments: %v", err)
 	}
-- 
2.43.0


From cabb4fb0f96d77375d9a0b590f76ceb008e099db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 39/56] fix: lookups find elements that are moved by a
 concurrent update

---
 list.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/list.go b/list.go
index be229df..a9fbcb0 100644
--- a/list.go
+++ b/list.go
@@ -1225,32 +1225,44 @@ func (l *List) GetElements(ctx context.Context, bs blobstore.Store, ids []Elemen
 	if err != nil {
 		return nil, err
 	}
+	res, missing, err := l.getElements(ctx, bs, ids, radius, segs)
+	segs.unlock()
+	if err != nil || missing == 0 {
+		return res, err
+	}
+	// An update may have moved elements after the index was read.
+	// Look again with updates locked.
+	segs, err = l.loadSegments(ctx, bs, segsReadOnly|segsLockUpdates)
+	if err != nil {
+		return nil, err
+	}
 	defer segs.unlock()
-	return l.getElements(ctx, bs, ids, radius, segs)
+	res, _, err = l.getElements(ctx, bs, ids, radius, segs)
+	return res, err
 }
 
 // GetElements will look up the provided elements and return them as ranked.
 // The returned elements are sorted by rank.
 // Elements that are not found are not returned.
-func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []ElementID, radius int, segs *segments) (RankedElements, error) {
+// The number of elements that are in the index, but could not be found is returned.
+func (l *List) getElements(ctx context.Context, bs blobstore.Store, ids []ElementID, radius int, segs *segments) (res RankedElements, missing int, err error) {
 	ctx = log.WithFn(ctx)
 	scores := segs.scores
 	l.RLock()
 	set := l.Set
 	l.RUnlock()
 
-	// Disallow updates to scores until we have found the elements
 	e, err := l.getIndexElements(ctx, bs, ids, segs)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	// Find elements in each segment.
-	res, err := scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
+	res, err = scores.FindElements(ctx, blobstore.StoreWithSet(bs, set), e, radius)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
-	RankedElements(res).Sort()
-	return res, nil
+	res.Sort()
+	return res, len(e.Elements) - len(res), nil
 }
 
 // UpdateElements will update or add elements to the list.
@@ -1518,7 +1530,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 	// Get updated when everything is said and done.
 	updated := []RankedElement{}
 	if results {
-		updated, err = l.getElements(ctx, bs, ids, radius, segs)
+		updated, _, err = l.getElements(ctx, bs, ids, radius, segs)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 0517da625c2e21a0a886d7e24c1a03f5210f71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 40/56] fix: percentile query does not panic when its segment
 is emptied meanwhile

---
 list.go     | 53 ++++++++++++++++++++++++++---------------------------
 segments.go | 11 +++++++++++
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/list.go b/list.go
index a9fbcb0..4f4c09f 100644
--- a/list.go
+++ b/list.go
@@ -1801,35 +1801,34 @@ func (l *List) GetPercentile(ctx context.Context, bs blobstore.Store, percentile
 	l.RUnlock()
 
 	store := blobstore.StoreWithSet(bs, set)
-	segOffs, total := segs.scores.topOffsets()
-	if total == 0 {
-		return nil, nil
-	}
-	var bTotal = &big.Float{}
-	bTotal = bTotal.SetInt(big.NewInt(int64(total)))
-	bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
-	wantOff, _ := bTotal.Int64()
-	if wantOff >= int64(total) {
-		wantOff = int64(total) - 1
-	}
-	for i, segOff := range segOffs {
-		if wantOff < int64(segOff) {
-			e, err := segs.scores.getElementIndex(ctx, store, i-1, int(wantOff)-segOffs[i-1], segOffs[i-1], radius)
-			if err != nil {
-				return nil, err
-			}
-			e.CalculateFromBottom(total)
-			return e, nil
+	for {
+		segOffs, total := segs.scores.topOffsets()
+		if total == 0 {
+			return nil, nil
+		}
+		var bTotal = &big.Float{}
+		bTotal = bTotal.SetInt(big.NewInt(int64(total)))
+		bTotal = bTotal.Mul(bTotal, big.NewFloat(percentile))
+		wantOff, _ := bTotal.Int64()
+		if wantOff >= int64(total) {
+			wantOff = int64(total) - 1
+		}
+		// Find the last segment starting at or before the offset.
+		segIdx := len(segOffs) - 1
+		for wantOff < int64(segOffs[segIdx]) {
+			segIdx--
+		}
+		e, err := segs.scores.getElementIndex(ctx, store, segIdx, int(wantOff)-segOffs[segIdx], segOffs[segIdx], radius)
+		if err != nil {
+			return nil, err
 		}
+		if e == nil {
+			// The segment was emptied by an update. Try again.
+			continue
+		}
+		e.CalculateFromBottom(total)
+		return e, nil
 	}
-	// Must be last segment.
-	segIdx := len(segOffs) - 1
-	e, err := segs.scores.getElementIndex(ctx, store, segIdx, int(wantOff)-segOffs[segIdx], segOffs[segIdx], radius)
-	if err != nil {
-		return nil, err
-	}
-	e.CalculateFromBottom(total)
-	return e, nil
 }
 
 func (l *List) checkSanity(ctx context.Context, bs blobstore.Store, after string, segs *segments) {
diff --git a/segments.go b/segments.go
index 1f2a15a..4b82a7c 100644
--- a/segments.go
+++ b/segments.go
@@ -983,12 +983,23 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 }
 
 // getElementIndex returns element the element at supplied index in supplied segment.
+// Returns nil if the segment has become empty.
 // Must hold Read Lock
 func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, segIdx, elementOff, offset, radius int) (*RankedElement, error) {
 	ls, err := s.elementFullIdx(ctx, bs, segIdx, true)
 	if err != nil {
 		return nil, err
 	}
+	if len(ls.elements) == 0 {
+		s.SegmentsLock.RLock()
+		n := s.Segments[segIdx].N
+		s.SegmentsLock.RUnlock()
+		ls.unlock()
+		if n != 0 {
+			return nil, fmt.Errorf("segment %d: want %d elements, found none", segIdx, n)
+		}
+		return nil, nil
+	}
 	if elementOff >= len(ls.elements) {
 		elementOff = len(ls.elements) - 1
 	}
-- 
2.43.0


From b43d29c1bc377e09b4a3ac3b7dfae7fdb109e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 41/56] fix: Elements.Sort no longer recurses forever on many
 tied elements

---
 elements.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elements.go b/elements.go
index 70092da..c0770ee 100644
--- a/elements.go
+++ b/elements.go
@@ -130,9 +130,9 @@ func (l *Elements) Sort() (changed bool) {
 	}
 	// Split + sort
 	split := l.SplitSize(2500)
-	for i, s := range split {
-		s.Sort()
-		split[i] = s
+	for _, s := range split {
+		// A part may be as big as l when elements are tied.
+		sort.Slice(s, s.Sorter())
 	}
 
 	// Merge
-- 
2.43.0


From a396a02c3605a8bf2c08b3f60b06037e52c38656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 42/56] fix: multi-list requests that only name sets operate on
 the lists in these sets

---
 api/multilist.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index a0ab575..6df8443 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -51,9 +51,7 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -197,9 +195,7 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
 	if err := HasAccessToList(ctx, lists...); err != nil {
 		return ctx.Unauthorized(err)
@@ -242,11 +238,9 @@ func (c *MultilistController) Verify(ctx *app.VerifyMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -308,11 +302,9 @@ func (c *MultilistController) Reindex(ctx *app.ReindexMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists}.IDs()
-	if len(ctx.Payload.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.MatchMetadata, ctx.Payload.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists)+len(ctx.Payload.MatchMetadata)+len(ctx.Payload.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
@@ -343,11 +335,9 @@ func (c *MultilistController) Backup(ctx *app.BackupMultilistContext) error {
 
 	// Collect list ids.
 	lists := morph.APIListIDs{In: ctx.Payload.Lists.Lists}.IDs()
-	if len(ctx.Payload.Lists.MatchMetadata) > 0 {
-		lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
-	}
+	lists = append(lists, db.Lists.MatchAll(ctx.Payload.Lists.MatchMetadata, ctx.Payload.Lists.AllInSets)...)
 	lists.Deduplicate()
-	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata) == 0 {
+	if len(ctx.Payload.Lists.Lists)+len(ctx.Payload.Lists.MatchMetadata)+len(ctx.Payload.Lists.AllInSets) == 0 {
 		lists = db.Lists.All()
 	}
 
-- 
2.43.0


From 45d2e883c944a25048b4afaee04c788ca39d720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 43/56] fix: cancelled multi-list requests wait for started
 operations and report the rest

---
 api/multilist.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/multilist.go b/api/multilist.go
index 6df8443..6f60a6c 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -469,7 +469,11 @@ func onEveryList(ctx context.Context, lists rankdb.ListIDs, limit int, fn func(l
 	}
 	for i, id := range lists {
 		if err := ctx.Err(); err != nil {
-			return nil
+			mu.Lock()
+			results.Errors[string(id)] = err.Error()
+			mu.Unlock()
+			wg.Done()
+			continue
 		}
 		if limit > 0 {
 			<-tokens
-- 
2.43.0


From 0a66a5b626cef6f644f84d0b8dc4d590541a32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 44/56] fix: closing a badger store reports a failing flush or
 close

---
 blobstore/badgerstore/badger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 931a489..c1b09cd 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -42,8 +42,8 @@ func (b *BadgerStore) Close() error {
 	defer b.mu.Unlock()
 	err := b.flush()
 	err2 := b.db.Close()
-	if err != nil {
-		return err2
+	if err == nil {
+		err = err2
 	}
 	return err
 }
-- 
2.43.0


From 682b04b053bf9fb706d81d1f4cb69e36ca33a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 45/56] fix: badger store keeps queued blobs that a failed
 flush did not write

---
 blobstore/badgerstore/badger.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index c1b09cd..40ebf70 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -86,24 +86,34 @@ func (b *BadgerStore) Get(ctx context.Context, set, key string) ([]byte, error)
 
 func (b *BadgerStore) flush() error {
 	txn := b.db.NewTransaction(true)
+	var pending []string
+	// commit the transaction, the blobs in it only leave the queue if that succeeds.
+	commit := func() error {
+		if err := txn.Commit(); err != nil {
+			return err
+		}
+		for _, k := range pending {
+			delete(b.queue, k)
+		}
+		pending = pending[:0]
+		return nil
+	}
 	for k, v := range b.queue {
-		if err := txn.Set([]byte(k), v); err == badger.ErrTxnTooBig {
-			err = txn.Commit()
-			txn = b.db.NewTransaction(true)
-			err = txn.Set([]byte(k), v)
-			if err != nil {
-				txn.Discard()
+		err := txn.Set([]byte(k), v)
+		if err == badger.ErrTxnTooBig {
+			if err := commit(); err != nil {
 				return err
 			}
-			delete(b.queue, k)
-		} else if err == nil {
-			delete(b.queue, k)
-		} else {
+			txn = b.db.NewTransaction(true)
+			err = txn.Set([]byte(k), v)
+		}
+		if err != nil {
 			txn.Discard()
 			return err
 		}
+		pending = append(pending, k)
 	}
-	return txn.Commit()
+	return commit()
 }
 
 func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) error {
-- 
2.43.0


From cfab053c447b4baae14948e91fdfcd1394e190b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 46/56] fix: a failing delete does not bring back an older blob
 from badger

---
 blobstore/badgerstore/badger.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 40ebf70..e44c37d 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -131,15 +131,18 @@ func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) erro
 
 func (b *BadgerStore) Delete(ctx context.Context, set, key string) error {
 	b.mu.Lock()
-	delete(b.queue, b.keyString(set, key))
-	b.mu.Unlock()
-	return b.db.Update(func(tx *badger.Txn) error {
+	defer b.mu.Unlock()
+	err := b.db.Update(func(tx *badger.Txn) error {
 		err := tx.Delete(b.key(set, key))
 		if err == badger.ErrKeyNotFound {
 			err = nil
 		}
 		return err
 	})
+	if err == nil {
+		delete(b.queue, b.keyString(set, key))
+	}
+	return err
 }
 
 // BadgerLogger converts a logger on a context to a Badger logger.
-- 
2.43.0


From c7791edd824b0df6d1b0a63901555e4caf1637c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 47/56] fix: backup to another server reports a restore that
 failed there

---
 backup/server/rankdb.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/backup/server/rankdb.go b/backup/server/rankdb.go
index 61fb397..8948117 100644
--- a/backup/server/rankdb.go
+++ b/backup/server/rankdb.go
@@ -50,11 +50,11 @@ func (r *RankDB) Save(ctx context.Context) (io.WriteCloser, error) {
 		return nil, err
 	}
 	req = req.WithContext(ctx)
-	b := bodyWriter{req: req, c: r.c}
+	b := bodyWriter{req: req, c: r.c, done: make(chan error, 1)}
 	b.r, b.w = io.Pipe()
 	log.Info(ctx, "Created pipe for writing", "full_path", b.req.URL.String())
-	go b.Transfer(ctx)
-	return b.w, nil
+	go func() { b.done <- b.Transfer(ctx) }()
+	return &b, nil
 }
 
 // bodyWriter provides transfer from the pipe writer to the body of the request.
@@ -67,29 +67,43 @@ type bodyWriter struct {
 	c *client.Client
 	// request to which the body is written.
 	req *http.Request
+	// done receives the result of the transfer.
+	done chan error
+}
+
+// Write data to the body of the request.
+func (b *bodyWriter) Write(p []byte) (int, error) {
+	return b.w.Write(p)
+}
+
+// Close ends the body of the request and returns the answer of the destination server.
+func (b *bodyWriter) Close() error {
+	_ = b.w.Close()
+	return <-b.done
 }
 
 // Transfer the body after executing the request.
-// Errors are logged, and the pipe will be closed with an error if any occurs.
-func (b *bodyWriter) Transfer(ctx context.Context) {
+// Errors are logged and returned, and the pipe will be closed with an error if any occurs.
+func (b *bodyWriter) Transfer(ctx context.Context) error {
 	log.Info(ctx, "Starting tranfer to destination server", "full_path", b.req.URL.String())
 	b.req.Body = b.r
 	resp, err := b.c.Do(ctx, b.req)
 	if err != nil {
 		log.Error(ctx, "Backup transfer failed", "error", err)
 		_ = b.r.CloseWithError(err)
-		return
+		return err
 	}
 	if resp.StatusCode != http.StatusOK {
 		err := decodeError(ctx, resp, b.c)
 		log.Error(ctx, "Backup transfer failed", "error", err)
 		_ = b.r.CloseWithError(err)
-		return
+		return err
 	}
 	log.Info(ctx, "Destination server returned ok", "full_path", b.req.URL.String())
 	b.r.Close()
 	io.Copy(ioutil.Discard, resp.Body)
 	resp.Body.Close()
+	return nil
 }
 
 // decodeError will decode an error response.
-- 
2.43.0


From dce549acc2bbf9027c89ccbf48d4548d3f6f10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 48/56] fix: a list that cannot be restored does not remove the
 list it would replace

---
 backup/restore.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9366d17..aafd06e 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -80,18 +80,11 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 		if err != nil {
 			return nil, err
 		}
-		if _, ok := ri.DB.Lists.ByID(dstLstID); ok {
-			if !ri.Replace {
-				res.Skipped++
-				// We have already consumed the body, so we can safely continue.
-				continue
-			}
-			// List will be shortly unavailable.
-			err := ri.DB.DeleteList(ctx, dstLstID)
-			if err != nil {
-				log.Error(ctx, "Error Deleting List", "list_id", dstLstID, "error", err.Error())
-				// Restore it anyway.
-			}
+		_, exists := ri.DB.Lists.ByID(dstLstID)
+		if exists && !ri.Replace {
+			res.Skipped++
+			// We have already consumed the body, so we can safely continue.
+			continue
 		}
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
@@ -103,6 +96,14 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
 		}
+		if exists {
+			// List will be shortly unavailable.
+			err := ri.DB.DeleteList(ctx, dstLstID)
+			if err != nil {
+				log.Error(ctx, "Error Deleting List", "list_id", dstLstID, "error", err.Error())
+				// Replace it anyway.
+			}
+		}
 		db.Lists.Add(lst)
 		res.Restored++
 	}
-- 
2.43.0


From 5b1cce8e6b6b1f5d41912451d9b48a299aa90a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 49/56] fix: a split that cannot be saved does not leave a
 segment locked

---
 list.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/list.go b/list.go
index 4f4c09f..8ae77f9 100644
--- a/list.go
+++ b/list.go
@@ -2241,6 +2241,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save changed segments
 			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
+				newSeg.unlock()
 				return err
 			}
 			err = scores.replaceSegment(ctx, store, newSeg)
@@ -2340,6 +2341,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save updated segments.
 			err = index.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				ls.unlock()
 				return err
 			}
 			err = index.replaceSegment(ctx, store, ls)
-- 
2.43.0


From c3ce5e0b1cea05f4c9901ce78e9a45b094e81b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 50/56] fix: badger writes synchronously unless NoSync is set,
 not only if it is

---
 api/rankdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/rankdb.go b/api/rankdb.go
index e9c41d3..2726fa0 100644
--- a/api/rankdb.go
+++ b/api/rankdb.go
@@ -279,7 +279,7 @@ func newBlobstore(ctx context.Context, s string) (store blobstore.Store, closers
 	switch s {
 	case "Badger":
 		opts := badger.DefaultOptions(config.Badger.Path)
-		opts = opts.WithSyncWrites(config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
+		opts = opts.WithSyncWrites(!config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
 		opts = opts.WithLogger(badgerstore.BadgerLogger(ctx))
 		bs, err := badgerstore.New(opts)
 		if err != nil {
-- 
2.43.0


From 6b2392d4b39e89c0c3ee6b5d98a0d81c30957de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 51/56] fix: a server that cannot load its lists does not save
 them

---
 api/rankdb.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/api/rankdb.go b/api/rankdb.go
index 2726fa0..a55663a 100644
--- a/api/rankdb.go
+++ b/api/rankdb.go
@@ -259,9 +259,12 @@ func StartServer(ctx context.Context, confData io.Reader, lr *logrus.Logger) err
 		log.Info(ctx, "Creating new lists")
 		err = db.NewLists(cache)
 	}
-	db.StartIntervalSaver(ctx, config.SaveEvery.Duration, shutdown.Second("List saver"))
-	db.StartListPruner(ctx, config.PruneEvery.Duration, shutdown.First("List pruner"))
-	db.StartListSplitter(ctx, store, shutdown.First("List Splitter"))
+	if err == nil {
+		// If the lists could not be loaded, saving them would overwrite what is stored.
+		db.StartIntervalSaver(ctx, config.SaveEvery.Duration, shutdown.Second("List saver"))
+		db.StartListPruner(ctx, config.PruneEvery.Duration, shutdown.First("List pruner"))
+		db.StartListSplitter(ctx, store, shutdown.First("List Splitter"))
+	}
 	if len(closeStores) > 0 {
 		shutdown.ThirdFn(func() {
 			for i := range closeStores {
-- 
2.43.0


From 68fdbe6bd2d87e159f03266c8bac7e058cff8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 52/56] fix: elements that could not be saved do not stay in
 the cache

---
 segments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segments.go b/segments.go
index 4b82a7c..791c50a 100644
--- a/segments.go
+++ b/segments.go
@@ -288,6 +288,10 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 
 	err := ls.saveElements(ctx, bs, ls.elements)
 	if err != nil {
+		if s.cache != nil {
+			// The cached elements may have been changed, but the changes were not stored.
+			s.cache.Remove(ls.seg.cacheID())
+		}
 		return err
 	}
 
-- 
2.43.0


From 9e009c32f2fd399a07c8fcda9801a56bb17d0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 53/56] fix: replacing a segment does not write fields that
 others read

---
 segments.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segments.go b/segments.go
index 791c50a..83b5343 100644
--- a/segments.go
+++ b/segments.go
@@ -283,7 +283,9 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 		s.SegmentsLock.Unlock()
 		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
 	}
-	s.Segments[ls.index] = *ls.seg
+	if dst := &s.Segments[ls.index]; dst != ls.seg {
+		*dst = *ls.seg
+	}
 	s.SegmentsLock.Unlock()
 
 	err := ls.saveElements(ctx, bs, ls.elements)
-- 
2.43.0


From 805b44a8b201dbc3b7d644f7a04322e4f44d9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 54/56] fix: segments loaded for reading are marked as read
 only

---
 list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/list.go b/list.go
index 8ae77f9..6c2472a 100644
--- a/list.go
+++ b/list.go
@@ -403,6 +403,7 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 	if readOnly {
 		l.segmentsLock.Unlock()
 		l.segmentsLock.RLock()
+		s.readOnly = true
 		s.unlock = func() {
 			l.segmentsLock.RUnlock()
 			if updateLock {
-- 
2.43.0


From 1369f23827b0d408ddf8c39f4878c2128590208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 55/56] fix: list statistics read the cache counters atomically
 and count those of the index once

---
 list.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/list.go b/list.go
index 6c2472a..d61ee16 100644
--- a/list.go
+++ b/list.go
@@ -18,6 +18,7 @@ import (
 	"runtime/pprof"
 	"sort"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/Vivino/rankdb/blobstore"
@@ -1028,12 +1029,12 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 	res.Elements = scores.Elements()
 	res.Segments = len(scores.Segments)
 	if scores != nil {
-		res.CacheHits = l.scores.cacheHits + l.index.cacheHits
-		res.CacheMisses = l.scores.cacheMisses + l.index.cacheMisses
+		res.CacheHits = atomic.LoadUint64(&scores.cacheHits)
+		res.CacheMisses = atomic.LoadUint64(&scores.cacheMisses)
 	}
 	if index != nil {
-		res.CacheHits += index.cacheHits
-		res.CacheMisses += index.cacheMisses
+		res.CacheHits += atomic.LoadUint64(&index.cacheHits)
+		res.CacheMisses += atomic.LoadUint64(&index.cacheMisses)
 	}
 
 	if res.CacheMisses+res.CacheHits > 0 {
-- 
2.43.0


From 2d224cbde79cacb80c5fbaeed31ad585d631ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 56/56] fix: verifying a list reads segments while holding
 their lock

---
 list.go     | 4 ++--
 segments.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/list.go b/list.go
index d61ee16..3f8e0fd 100644
--- a/list.go
+++ b/list.go
@@ -636,7 +636,7 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 	psegn := lMergeSize
 	for i := range segs.scores.Segments {
 		segs.scores.SegmentsLock.RLock()
-		seg := &segs.scores.Segments[i]
+		seg := segs.scores.Segments[i]
 		segs.scores.SegmentsLock.RUnlock()
 		if seg.Parent != lScores {
 			return ScoreError(fmt.Errorf("Scores Segment %d Parent ID mismatch. List: %v, Segment:%v", i, lScores, seg.Parent))
@@ -659,7 +659,7 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 	psegn = lMergeSize
 	for i := range segs.index.Segments {
 		segs.index.SegmentsLock.RLock()
-		seg := &l.index.Segments[i]
+		seg := segs.index.Segments[i]
 		segs.index.SegmentsLock.RUnlock()
 		if seg.Parent != lIndex {
 			return IndexError(fmt.Errorf("Index Segment %d Parent ID mismatch. List: %v, Segment:%v", i, lIndex, seg.Parent))
diff --git a/segments.go b/segments.go
index 83b5343..1a4d7b0 100644
--- a/segments.go
+++ b/segments.go
@@ -683,7 +683,7 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 	for i := range s.Segments {
 		err := func(i int) error {
 			s.SegmentsLock.RLock()
-			v := &s.Segments[i]
+			v := s.Segments[i]
 			s.SegmentsLock.RUnlock()
 
 			prefix := fmt.Sprintf("Segment %v:", v.ID)
-- 
2.43.0

