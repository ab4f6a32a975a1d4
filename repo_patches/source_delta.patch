From 98cc2ae36732405680b533c336039e721cd65d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 01/19] fix: panic on a negative number of batches for empty
 ranges as well

The range functions document that they panic if n < 0; an empty range
bypassed that check.
---
 internal/internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..48981c0 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -24,6 +24,9 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 			batches = size
 		}
 	case size == 0:
+		if n < 0 {
+			panic(fmt.Sprintf("invalid number of batches: %v", n))
+		}
 		batches = 1
 	default:
 		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
-- 
2.43.0


From 6d1746ee9fc6658d97658221be62f395648613de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 02/19] fix: Map.SpeculativeRange returned before all entries
 were visited

The function passed to speculative.Range returned true when no function
invocation had returned false, and true is what makes speculative.Range
stop early.
---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index dda4163..4557daa 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -274,10 +274,10 @@ func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	speculative.Range(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
-				return false
+				return true
 			}
 		}
-		return true
+		return false
 	})
 }
 
-- 
2.43.0


From 9dc33efdf74b4261ec0ef2e85a842616dae3f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 03/19] fix: release the lock if the function passed to
 Map.Modify or Map.DeleteOrCompute panics

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index 4557daa..6f07315 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From a8f7c10a46a78fd7938b4f688256611f3d41d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 04/19] fix: IsSorted returned while its goroutines still
 accessed the collection, racing with Sort

---
 sort/sort.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..bee7667 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,13 +42,14 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 84f0e025e645a200a0e7a04edb0b4558b98ec335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 05/19] fix: nodes were skipped if preceding nodes were merged
 after Begin

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..5156b2f 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -48,7 +48,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -77,7 +77,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -87,7 +87,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -96,7 +96,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -111,7 +111,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..2c773c0 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -113,11 +114,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..24402b3 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -72,7 +72,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -80,7 +80,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 2ab8269a0b5c1f353b56934f3a8e59c55494f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 06/19] fix: sequential and limited nodes before a strictly
 ordered node were made ordered only after they had started

---
 pipeline/pipeline.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..7a5fcc0 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -275,6 +275,21 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	}
 	p.ctx, p.cancel = ctx, cancel
 	dataSize := p.source.Prepare(p.ctx)
+	// All nodes before a strictly ordered node have to preserve the order. This
+	// has to be known before their goroutines are started in Begin.
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if _, ok := p.nodes[index].(*strictordnode); ok {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode:
+					node.kind = Ordered
+				case *lparnode:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
@@ -294,19 +309,6 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if _, ok := p.nodes[index].(*strictordnode); ok {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode:
-						node.kind = Ordered
-					case *lparnode:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From d23a7a71b849c5b26830a20a7431c1d1ea222898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 07/19] fix: lost wakeup when a pipeline with a strictly
 ordered node is cancelled

---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5156b2f..1c72605 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -61,7 +61,9 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 24402b3..47e876a 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool)
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From dcd70d1b91ba4a0af293e546657784d9a015dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 08/19] fix: RunWithContext accessed the error of the pipeline
 without synchronization and could overwrite one set by SetErr

---
 pipeline/pipeline.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 7a5fcc0..36d4bf7 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -270,7 +270,7 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -298,7 +298,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -339,8 +339,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if err := p.source.Err(); err != nil {
+		p.SetErr(err)
 	}
 }
 
-- 
2.43.0


From 4857f3a82d61a0a81d503f311c745bbbcfcbc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 09/19] fix: arrays as pipeline sources panicked

---
 pipeline/source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..8a2c4e3 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -35,6 +35,12 @@ type sliceSource struct {
 
 func newSliceSource(value reflect.Value) *sliceSource {
 	size := value.Len()
+	if value.Kind() == reflect.Array {
+		// only addressable arrays can be sliced
+		array := reflect.New(value.Type()).Elem()
+		array.Set(value)
+		value = array
+	}
 	return &sliceSource{value: value.Slice(0, size), size: size}
 }
 
-- 
2.43.0


From 3ccae69e3bb32a0497cea091c0eaae686abece1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 10/19] fix: the first batch could be larger than the maximum
 batch size

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 36d4bf7..849ce2c 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -311,7 +311,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From d344bb99ff167fa0f464539464df793ac199bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 11/19] fix: overflow of the batch size

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 849ce2c..eb96b06 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -246,7 +246,7 @@ func (p *Pipeline) finalizeVariableBatchSize() {
 
 func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
+	if result > p.maxBatchSize || result < batchSize {
 		result = p.maxBatchSize
 	}
 	return
-- 
2.43.0


From cb04e48443cd5896d27cd77e9b547eaadb6aa785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 12/19] fix: Count in ordered and sequential nodes added to the
 initial value of the result

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..6605a11 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -272,6 +272,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From 4996cd6a67c729df47f76c6e4e4489ee1f51810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 13/19] fix: Limit and Skip crashed on nil batches of preceding
 Limit and Skip nodes

---
 pipeline/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 6605a11..823c542 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -306,7 +306,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if seen >= limit || data == nil {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -346,7 +346,7 @@ func Skip(n int) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= n {
+				if seen >= n || data == nil {
 					result = data
 					return
 				}
-- 
2.43.0


From 703e4486511a5ea0b8abf0ce2547df799835dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 14/19] fix: Skip announced a wrong data size to the filters
 after it

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 823c542..fa7d5d3 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -342,7 +342,7 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-- 
2.43.0


From 05b494d51d63f7a33100748dabb7fb8a78a02872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 15/19] fix: Slice crashed on results that are not slices
 instead of setting an error

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index fa7d5d3..8372734 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -224,7 +224,7 @@ func NotAny(result *bool, cancelWhenKnown bool, predicate Predicate) Filter {
 func Slice(result interface{}) Filter {
 	res := reflect.ValueOf(result).Elem()
 	return func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver Receiver, finalizer Finalizer) {
-		if (res.Kind() != reflect.Slice) && !res.CanSet() {
+		if (res.Kind() != reflect.Slice) || !res.CanSet() {
 			pipeline.SetErr(errors.New("result is not a settable slice in Pipeline.ToSlice"))
 			return
 		}
-- 
2.43.0


From dcec4730d1cc9b8160943ece39fe76c90566a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 16/19] fix: StableSort crashed the process if NewTemp or
 Assign panics

---
 sort/mergesort.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sort/mergesort.go b/sort/mergesort.go
index df84aad..b77bbd3 100755
--- a/sort/mergesort.go
+++ b/sort/mergesort.go
@@ -3,6 +3,7 @@ package sort
 import (
 	"sync"
 
+	"github.com/exascience/pargo/internal"
 	"github.com/exascience/pargo/parallel"
 )
 
@@ -154,10 +155,14 @@ func StableSort(data StableSorter) {
 		return
 	}
 	var T, A *sorter
+	var tempPanic interface{}
 	var temp sync.WaitGroup
 	temp.Add(1)
 	go func() {
-		defer temp.Done()
+		defer func() {
+			tempPanic = internal.WrapPanic(recover())
+			temp.Done()
+		}()
 		a := data.NewTemp()
 		T = &sorter{data.Less, data.Assign(a)}
 		A = &sorter{a.Less, a.Assign(data)}
@@ -177,6 +182,9 @@ func StableSort(data StableSorter) {
 				func() { pSort(index+q3, size-q3) },
 			)
 			temp.Wait()
+			if tempPanic != nil {
+				panic(tempPanic)
+			}
 			parallel.Do(
 				func() { pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index) },
 				func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },
-- 
2.43.0


From 2aebca18b8147fa60ecd0d06c6f981979a370960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 17/19] fix: ranges that end near the greatest int are divided
 without overflow

---
 parallel/parallel.go       | 24 ++++++++++++------------
 sequential/sequential.go   | 24 ++++++++++++------------
 speculative/speculative.go | 14 +++++++-------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 53291d8..b4d355e 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -613,7 +613,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				f(low, high)
 				return
 			}
@@ -672,7 +672,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -731,7 +731,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -792,7 +792,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -854,7 +854,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -914,7 +914,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -974,7 +974,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -1036,7 +1036,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1096,7 +1096,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1156,7 +1156,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1218,7 +1218,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
@@ -1278,7 +1278,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
diff --git a/sequential/sequential.go b/sequential/sequential.go
index 2f97399..6b89239 100755
--- a/sequential/sequential.go
+++ b/sequential/sequential.go
@@ -180,7 +180,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				f(low, high)
 				return
 			}
@@ -219,7 +219,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -258,7 +258,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -297,7 +297,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -337,7 +337,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -375,7 +375,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -413,7 +413,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -453,7 +453,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -491,7 +491,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -529,7 +529,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -569,7 +569,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -607,7 +607,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4da1598..2273e29 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -434,7 +434,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -496,7 +496,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -558,7 +558,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -626,7 +626,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -699,7 +699,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -772,7 +772,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -845,7 +845,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
-- 
2.43.0


From e1139880d45512e1eed00adf9c488d1ee8099943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 18/19] fix: appending to a batch of a slice source does not
 overwrite the next batch

---
 pipeline/source.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 8a2c4e3..6c4add4 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -63,7 +63,12 @@ func (src *sliceSource) Fetch(n int) (fetched int) {
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value.Slice(0, n).Interface()
+		batch := src.value.Slice(0, n)
+		if batch.Kind() == reflect.Slice {
+			// appending to a batch must not overwrite the next one
+			batch = src.value.Slice3(0, n, n)
+		}
+		src.data = batch.Interface()
 		src.value = src.value.Slice(n, src.size)
 		src.size -= n
 	}
-- 
2.43.0


From 7d184a5ee218b0a9e1123ae335aa3e978ac3fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 19/19] fix: merging nodes does not overwrite the filter slices
 passed to their constructors

---
 pipeline/filters.go       | 4 ++--
 pipeline/lparnode.go      | 4 ++--
 pipeline/parnode.go       | 2 +-
 pipeline/seqnode.go       | 4 ++--
 pipeline/strictordnode.go | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 8372734..acf3d40 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -13,9 +13,9 @@ import (
 func NewNode(kind NodeKind, filters ...Filter) Node {
 	switch kind {
 	case Ordered, Sequential:
-		return &seqnode{kind: kind, filters: filters}
+		return &seqnode{kind: kind, filters: filters[:len(filters):len(filters)]}
 	case Parallel:
-		return &parnode{filters: filters}
+		return &parnode{filters: filters[:len(filters):len(filters)]}
 	default:
 		panic("Invalid NodeKind in pipeline.NewNode.")
 	}
diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 1c72605..6ddcf2b 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -26,9 +26,9 @@ func LimitedPar(limit int, filters ...Filter) Node {
 		limit = runtime.GOMAXPROCS(0)
 	}
 	if limit == 1 {
-		return &seqnode{kind: Sequential, filters: filters}
+		return &seqnode{kind: Sequential, filters: filters[:len(filters):len(filters)]}
 	}
-	return &lparnode{limit: limit, filters: filters}
+	return &lparnode{limit: limit, filters: filters[:len(filters):len(filters)]}
 }
 
 func (node *lparnode) makeOrdered() {
diff --git a/pipeline/parnode.go b/pipeline/parnode.go
index 9d80927..4de9f19 100644
--- a/pipeline/parnode.go
+++ b/pipeline/parnode.go
@@ -13,7 +13,7 @@ type parnode struct {
 
 // Par creates a parallel node with the given filters.
 func Par(filters ...Filter) Node {
-	return &parnode{filters: filters}
+	return &parnode{filters: filters[:len(filters):len(filters)]}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 2c773c0..a128158 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -23,12 +23,12 @@ type (
 
 // Ord creates an ordered node with the given filters.
 func Ord(filters ...Filter) Node {
-	return &seqnode{kind: Ordered, filters: filters}
+	return &seqnode{kind: Ordered, filters: filters[:len(filters):len(filters)]}
 }
 
 // Seq creates a sequential node with the given filters.
 func Seq(filters ...Filter) Node {
-	return &seqnode{kind: Sequential, filters: filters}
+	return &seqnode{kind: Sequential, filters: filters[:len(filters):len(filters)]}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 47e876a..4c7f45d 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -16,7 +16,7 @@ type strictordnode struct {
 
 // StrictOrd creates an ordered node with the given filters.
 func StrictOrd(filters ...Filter) Node {
-	return &strictordnode{filters: filters}
+	return &strictordnode{filters: filters[:len(filters):len(filters)]}
 }
 
 // Implements the TryMerge method of the Node interface.
-- 
2.43.0

