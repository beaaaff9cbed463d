From 3ce71c30c192e8bca388555cbebcbc99abda5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 01/63] fix: keep unchanged tree nodes when they are written
 again

Writing a key with the value it already has (or deleting an absent key) marked
the live nodes on its path for deletion, so that the next commit removed them
from the database.
---
 pkg/mapserver/trie/trie.go       | 4 ++++
 pkg/mapserver/trie/trie_cache.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..02a55a4 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -607,6 +607,10 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 
 // storeNode stores a batch and deletes the old node from cache
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
+	if len(oldRoot) >= HashLength && bytes.Equal(h[:HashLength], oldRoot[:HashLength]) {
+		// The node is identical to the old one: it must be kept, not deleted.
+		oldRoot = nil
+	}
 	if !bytes.Equal(h, oldRoot) {
 		var node Hash
 		copy(node[:], h)
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..b3f0e4c 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -180,6 +180,11 @@ func (db *CacheDB) updateUpdateNodes(node common.SHA256Output, value [][]byte) {
 	db.updatedMux.Lock()
 	db.updatedNodes[node] = value
 	db.updatedMux.Unlock()
+
+	// The node is part of the tree (again): it must not be removed by the next commit.
+	db.removeMux.Lock()
+	delete(db.removedNode, node)
+	db.removeMux.Unlock()
 }
 
 // deleteUpdatedNodes: remove updated nodes
-- 
2.43.0


From 647c2115d38eb17b590cff62e68a65709ce0a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 02/63] fix: do not duplicate keys when a batch deletes a leaf
 between others

Deleting the only leaf of a subtree in a batch that also holds a smaller and a
larger key appended all keys (including the deleted one) a second time.
---
 pkg/mapserver/trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 02a55a4..9d39221 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -485,6 +485,7 @@ func (s *Trie) maybeAddShortcutToKV(keys, values [][]byte, shortcutKey, shortcut
 				newKeys = append(newKeys, keys[i+1:]...)
 				newValues = append(newValues, values[:i]...)
 				newValues = append(newValues, values[i+1:]...)
+				break
 			}
 			if !higher && bytes.Compare(shortcutKey, key) > 0 {
 				higher = true
-- 
2.43.0


From 616787f61a8b2da8b7c9663b9111443db53be016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 03/63] fix: verify compressed absence proofs of the empty tree

MerkleProofCompressed produces them, but VerifyNonInclusionC rejected them,
unlike VerifyNonInclusion.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..7cc423b 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -200,6 +200,10 @@ func (s *Trie) verifyInclusionC(bitmap, key, leafHash []byte, ap [][]byte, lengt
 // VerifyNonInclusionC verifies a proof of non inclusion,
 // Returns true if the non-inclusion is verified
 func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value, proofKey []byte) bool {
+	if s.Root == nil {
+		// Nothing is included in an empty trie, as in VerifyNonInclusion.
+		return true
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
-- 
2.43.0


From ccc210e23d9e224a6edcc7bd60cb10bffc4c970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 04/63] fix: keep the pending nodes of a failed commit

A failed Commit dropped all pending changes, so that repeating it reported
success although nothing was stored.
---
 pkg/mapserver/trie/trie_cache.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index b3f0e4c..f1731fd 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -66,6 +66,7 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	for k, v := range cacheDB.updatedNodes {
 		updatesToDB = append(updatesToDB, &db.TreeNodeRecord{Key: k, Value: serializeBatch(v)})
 	}
+	pendingUpdates := cacheDB.updatedNodes
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
 	cacheDB.updatedMux.Unlock()
 
@@ -76,6 +77,7 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 		keysToDelete = append(keysToDelete, k)
 	}
 
+	pendingRemovals := cacheDB.removedNode
 	cacheDB.removedNode = make(map[Hash][]byte)
 	cacheDB.removeMux.Unlock()
 
@@ -85,12 +87,14 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 
 	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
 	if err != nil {
+		cacheDB.restorePending(pendingUpdates, pendingRemovals)
 		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
 	}
 
 	if len(keysToDelete) > 0 {
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 		if err != nil {
+			cacheDB.restorePending(pendingUpdates, pendingRemovals)
 			return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
 		}
 	}
@@ -98,6 +102,24 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	return nil
 }
 
+// restorePending puts back the changes of a failed commit, so that it can be repeated.
+func (cacheDB *CacheDB) restorePending(updates map[Hash][][]byte, removals map[Hash][]byte) {
+	cacheDB.updatedMux.Lock()
+	defer cacheDB.updatedMux.Unlock()
+	cacheDB.removeMux.Lock()
+	defer cacheDB.removeMux.Unlock()
+	for k, v := range updates {
+		if _, ok := cacheDB.updatedNodes[k]; !ok {
+			cacheDB.updatedNodes[k] = v
+		}
+	}
+	for k, v := range removals {
+		if _, ok := cacheDB.updatedNodes[k]; !ok {
+			cacheDB.removedNode[k] = v
+		}
+	}
+}
+
 func (cacheDB *CacheDB) getValueLimit(ctx context.Context, key []byte) ([]byte, error) {
 	cacheDB.readLimiter <- struct{}{}        // block until there is some slack
 	defer func() { <-cacheDB.readLimiter }() // ensure we'll give some slack
-- 
2.43.0


From 9edfbd5d4b35726b196041dfae8f42bd1b0b972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 05/63] fix: reject malformed Merkle proofs

Proof elements of arbitrary size let the same hash input be read as a leaf, as
an interior node or as a node with other children, and a proof key equal to the
queried key let a present key be proven absent.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 43 +++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index 7cc423b..5b92708 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -127,8 +127,40 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 	}
 }
 
+// wellFormedPath checks the sizes of the elements of an audit path. Without fixed sizes, the same
+// hash input could be read as a leaf, as an interior node, or as a node with other children.
+func wellFormedPath(ap [][]byte, length int) bool {
+	if length < len(ap) || length > 8*HashLength {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength && !bytes.Equal(node, DefaultLeaf) {
+			return false
+		}
+	}
+	return true
+}
+
+// wellFormedBitmap checks that the bitmap of a compressed audit path covers the whole path,
+// and marks as many elements as there are.
+func wellFormedBitmap(bitmap []byte, ap [][]byte, length int) bool {
+	if len(bitmap)*8 < length {
+		return false
+	}
+	count := 0
+	for i := 0; i < length; i++ {
+		if bitIsSet(bitmap, i) {
+			count++
+		}
+	}
+	return count == len(ap)
+}
+
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if !wellFormedPath(ap, len(ap)) || len(key) != HashLength || len(value) != HashLength {
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
@@ -150,6 +182,9 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 	if root == nil {
 		return true
 	}
+	if !wellFormedPath(ap, len(ap)) || len(key) != HashLength || bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
@@ -175,6 +210,10 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 
 // VerifyInclusionC verifies that key/value is included in the trie with latest root
 func (s *Trie) VerifyInclusionC(bitmap, key, value []byte, ap [][]byte, length int) bool {
+	if !wellFormedPath(ap, length) || !wellFormedBitmap(bitmap, ap, length) ||
+		len(key) != HashLength || len(value) != HashLength {
+		return false
+	}
 	leafHash := s.hash(key, value, []byte{byte(s.TrieHeight - length)})
 	return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, leafHash, ap, length, 0, 0))
 }
@@ -204,6 +243,10 @@ func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value,
 		// Nothing is included in an empty trie, as in VerifyNonInclusion.
 		return true
 	}
+	if !wellFormedPath(ap, length) || !wellFormedBitmap(bitmap, ap, length) ||
+		len(key) != HashLength || bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
-- 
2.43.0


From 418cb74b4a6cd94b187f2c0707ad724dc619591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 06/63] fix: bind the verified identifier and value to the
 domain entry

VerifyProofByDomain accepted a response whose domain name or entry did not
belong to the identifier and value that the Merkle proof is about.
---
 pkg/mapserver/prover/prover.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/mapserver/prover/prover.go b/pkg/mapserver/prover/prover.go
index 44902f7..d2e8502 100644
--- a/pkg/mapserver/prover/prover.go
+++ b/pkg/mapserver/prover/prover.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"fmt"
 
+	"github.com/netsec-ethz/fpki/pkg/common"
 	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
 	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
 )
@@ -12,15 +13,34 @@ import (
 // VerifyProofByDomain verifies the MapServerResponse (received from map server),
 // and returns the type of proof, and proofing result.
 func VerifyProofByDomain(response *mapCommon.MapServerResponse) (mapCommon.ProofType, bool, error) {
+	// The proof is about the identifier: check that it belongs to the domain name.
+	if response.DomainEntry.DomainID != common.SHA256Hash32Bytes([]byte(response.DomainEntry.DomainName)) {
+		return 0, false, fmt.Errorf("the domain ID %s is not that of %s",
+			hex.EncodeToString(response.DomainEntry.DomainID[:]), response.DomainEntry.DomainName)
+	}
 	if response.PoI.ProofType == mapCommon.PoP {
 		if !bytes.Equal(response.DomainEntry.DomainValue[:], response.PoI.ProofValue) {
 			return 0, false, fmt.Errorf("different hash for value %s != %s",
 				hex.EncodeToString(response.DomainEntry.DomainID[:]),
 				hex.EncodeToString(response.PoI.ProofValue))
 		}
+		// The proof is about the value: check that it is that of the entry.
+		if !valueMatchesEntry(response.DomainEntry) {
+			return 0, false, fmt.Errorf("the value %s is not that of the entry of %s",
+				hex.EncodeToString(response.DomainEntry.DomainValue[:]), response.DomainEntry.DomainName)
+		}
 		return mapCommon.PoP, trie.VerifyInclusion(response.PoI.Root, response.PoI.Proof,
 			response.DomainEntry.DomainID[:], response.DomainEntry.DomainValue[:]), nil
 	}
 	return mapCommon.PoA, trie.VerifyNonInclusion(response.PoI.Root, response.PoI.Proof,
 		response.DomainEntry.DomainID[:], response.PoI.ProofValue, response.PoI.ProofKey), nil
 }
+
+// valueMatchesEntry returns true if the value of the entry is the SHA256 of its sorted identifiers.
+func valueMatchesEntry(entry *mapCommon.DomainEntry) bool {
+	if len(entry.CertIDs)%common.SHA256Size != 0 || len(entry.PolicyIDs)%common.SHA256Size != 0 {
+		return false
+	}
+	allIDs := append(common.BytesToIDs(entry.CertIDs), common.BytesToIDs(entry.PolicyIDs)...)
+	return entry.DomainValue == common.SHA256Hash32Bytes(common.SortIDsAndGlue(allIDs))
+}
-- 
2.43.0


From 283c6a93f304ff5ca71756f05015c297c1035ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 07/63] fix: joined pipelines can run more than once

---
 pkg/pipeline/join.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/join.go b/pkg/pipeline/join.go
index 1b827ef..fa7b47c 100644
--- a/pkg/pipeline/join.go
+++ b/pkg/pipeline/join.go
@@ -133,6 +133,7 @@ type jointStage[T any] struct {
 	source *Source[T]
 	p1     *Pipeline
 	p2     *Pipeline
+	joined bool // whether the sink already forwards to the source
 }
 
 var _ StageLike = (*jointStage[int])(nil)
@@ -180,9 +181,15 @@ func (j *jointStage[T]) Resume(ctx context.Context) {
 	j.sink.Resume(ctx)
 }
 
-// joinStages must be called once, after the new pipeline's stages have been prepared,
-// but before resuming them, usually at the new pipeline's link function.
+// joinStages must be called after the new pipeline's stages have been prepared,
+// but before resuming them, usually at the new pipeline's link function. It takes effect only
+// the first time: the replaced functions remain in place when the new pipeline runs again.
 func (j *jointStage[T]) joinStages() {
+	if j.joined {
+		return
+	}
+	j.joined = true
+
 	// Sketch of the original scenario:
 	// ----> B1 ----> sink ----> sink's_None_output
 	// ----> B2 ---/
-- 
2.43.0


From 27ae80e23db41383df430105a61977e49f51627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 08/63] fix: propagate stage errors backwards at once and
 discard pending data

A stage that failed waited for its next stages before telling the previous
ones. With fan-in, those next stages wait for other branches, which in turn
wait for the previous stage: deadlock. Errors received after the first one
were dropped or replaced by nil.
---
 pkg/pipeline/pipeline.go |  8 ++++-
 pkg/pipeline/source.go   | 47 +++++++++++++--------------
 pkg/pipeline/stage.go    | 68 ++++++++++++++++++++++++++++------------
 3 files changed, 77 insertions(+), 46 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index a436a26..8e3439f 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -3,6 +3,8 @@ package pipeline
 import (
 	"context"
 	"fmt"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 // Pipeline represents a data processing pipeline.
@@ -152,7 +154,11 @@ func (p *Pipeline) Wait(ctx context.Context) error {
 	// It is not a source, just treat it as a stage.
 	DebugPrintf("[pipeline] Wait on NON source, chan is: %s.\n",
 		chanPtr(p.Stages[0].Base().ErrCh))
-	return <-p.Stages[0].Base().ErrCh
+	var err error
+	for e := range p.Stages[0].Base().ErrCh {
+		err = util.ErrorsCoalesce(err, e)
+	}
+	return err
 }
 
 func (p Pipeline) LinkFunction() func(*Pipeline) {
diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index 5db963a..f6963b5 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -2,6 +2,8 @@ package pipeline
 
 import (
 	"context"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 type SourceLike interface {
@@ -111,38 +113,27 @@ func WithSourceSlice[OUT any](
 ) option[None, OUT] {
 	return newSourceOption(
 		func(s *Source[OUT]) {
+			var values []OUT // The values still to be processed.
 			s.onResume = func() {
-				s.sourceIncomingCh = make(chan OUT)
-				DebugPrintf("[%s] WithSourceSlice restoring source channel to %s\n",
-					s.Name, chanPtr(s.sourceIncomingCh))
-				go func() {
-					for _, in := range *incomingValues {
-						s.sourceIncomingCh <- in
-					}
-					close(s.sourceIncomingCh)
-				}()
+				values = *incomingValues
 			}
 
 			processFunction := processFunction // Local copy of the processing function.
 			outs := make([]OUT, 1)
 			outChs := make([]int, 1)
 			s.ProcessFunc = func(in None) ([]OUT, []int, error) {
-				DebugPrintf("[%s] source.ProcessFunc: channel is: %s\n",
-					s.Name, chanPtr(s.sourceIncomingCh))
-				for in := range s.sourceIncomingCh {
-					DebugPrintf("[%s] source channel %s got value: %v\n",
-						s.Name, chanPtr(s.sourceIncomingCh), in)
-					outCh, err := processFunction(in)
-					DebugPrintf("[%s] source channel processed value: %v, out ch: %d, err: %v\n",
-						s.Name, in, outCh, err)
-					outs[0] = in
-					outChs[0] = outCh
-					return outs, outChs, err
+				if len(values) == 0 {
+					DebugPrintf("[%s] source slice is exhausted, no more data\n", s.Name)
+					return nil, nil, NoMoreData
 				}
-				DebugPrintf("[%s] source channel %s is closed, no more data\n",
-					s.Name, chanPtr(s.sourceIncomingCh))
-				// When the incoming channel is closed, return no more data.
-				return nil, nil, NoMoreData
+				value := values[0]
+				values = values[1:]
+				outCh, err := processFunction(value)
+				DebugPrintf("[%s] source slice processed value: %v, out ch: %d, err: %v\n",
+					s.Name, value, outCh, err)
+				outs[0] = value
+				outChs[0] = outCh
+				return outs, outChs, err
 			}
 		},
 	)
@@ -170,12 +161,18 @@ func (s *Source[OUT]) Prepare(ctx context.Context) {
 			select {
 			case s.IncomingChs[0] <- None{}:
 				DebugPrintf("[%s] source to itself None\n", s.Name)
-			case err := <-errCh:
+			case err, ok := <-errCh:
 				DebugPrintf("[%s] source's orig. errCh (%s): %v. Sending to TopChan %s\n",
 					s.Name, chanPtr(errCh), err, chanPtr(s.TopErrCh))
 				// Close incoming.
 				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(s.IncomingChs[0]))
 				close(s.IncomingChs[0])
+				// Collect the errors until the stage is done.
+				for ok {
+					var e error
+					e, ok = <-errCh
+					err = util.ErrorsCoalesce(err, e)
+				}
 				if err != nil {
 					s.TopErrCh <- err // might block, but this goroutine is done anyways.
 				}
diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 1cdb6f6..ae79fa3 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -343,12 +343,16 @@ func (s *Stage[IN, OUT]) StopAndWait() error {
 	// not to read any state from the next stage. We will do that here.
 	s.StopCh <- None{}
 
-	return s.breakPipelineAndWait(nil)
+	return s.breakPipelineAndWait(nil, nil)
 }
 
-// breakPipelineAndWait closes the outgoing channels in index order, and stops to read the
-// next stages' error channels, in whichever order (no sorting of the error channels).
-func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
+// breakPipelineAndWait closes the outgoing channels in index order, and reads the next stages'
+// error channels until all of them are closed, in whichever order (no sorting of the error channels).
+// Errors are propagated backwards as soon as they are known: next stages that are fed by other
+// stages as well can only finish once the previous stages stop sending data.
+// If there are errors, the data that is still arriving at incoming is discarded, so that whoever is
+// sending it can finish. The incoming channel is nil if it should not be touched.
+func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error, incoming chan IN) error {
 	DebugPrintf("[%s] exiting _____________________________ initial err=%v\n", s.Name, initialErr)
 
 	// Indicate to the next stage to stop by closing its input channel.
@@ -362,28 +366,52 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 
 	// Read its status:
 	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	err := <-s.NextStagesAggregatedErrCh
-	DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
-
-	// Coalesce with any error at this stage.
-	initialErr = util.ErrorsCoalesce(initialErr, err)
+	nextErrCh := s.NextStagesAggregatedErrCh
+	pendingErr := initialErr // Errors not yet propagated backwards.
+	for nextErrCh != nil || pendingErr != nil {
+		var errCh chan error // Only when there is something to propagate.
+		var discardCh chan IN
+		if pendingErr != nil {
+			errCh = s.ErrCh
+		} else if initialErr != nil {
+			discardCh = incoming
+		}
 
-	// Propagate error backwards.
-	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
-		s.Name, chanPtr(s.ErrCh))
-	if initialErr != nil {
-		// Propagate error backwards.
-		s.ErrCh <- initialErr
+		select {
+		case errCh <- pendingErr:
+			DebugPrintf("[%s] propagated error backwards: %v\n", s.Name, pendingErr)
+			pendingErr = nil
+		case err, ok := <-nextErrCh:
+			DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+			if !ok {
+				nextErrCh = nil
+				continue
+			}
+			// Coalesce with any error at this stage.
+			initialErr = util.ErrorsCoalesce(initialErr, err)
+			pendingErr = util.ErrorsCoalesce(pendingErr, err)
+		case _, ok := <-discardCh:
+			if !ok {
+				incoming = nil
+			}
+		}
 	}
 
 	// Close our own error channel.
-	DebugPrintf("[%s] closed main error channel %s\n", s.Name, chanPtr(s.ErrCh))
+	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
+		s.Name, chanPtr(s.ErrCh))
 	close(s.ErrCh)
 
 	// Close the stop channel indicator.
 	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
 	close(s.StopCh)
 
+	// Unblock those still sending to this stage.
+	if initialErr != nil && incoming != nil {
+		for range incoming {
+		}
+	}
+
 	DebugPrintf("[%s] all done, stage is stopped\n", s.Name)
 	return initialErr
 }
@@ -509,7 +537,7 @@ readIncoming:
 	} // end of for-loop readIncoming
 
 	// Stop pipeline.
-	s.breakPipelineAndWait(foundError)
+	s.breakPipelineAndWait(foundError, s.AggregatedIncomeCh)
 }
 
 // sendOutputsSequential sends the outputs to their channels, one by one, and blocking at each one.
@@ -542,7 +570,7 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 			DebugPrintf("[%s] ERROR while sending at channel %d the value %v, error: %v\n",
 				s.Name, outChIndex, out, err)
 			// We received an error from next stage while trying to write to it.
-			*foundError = err
+			*foundError = util.ErrorsCoalesce(*foundError, err)
 			*shouldBreakReadingIncoming = true
 			failedIndices = append(failedIndices, i)
 		case <-s.StopCh:
@@ -596,7 +624,7 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 					s.Name, outChIndex, out, err)
 				// We received an error from next stage while trying to write to it.
 				muShouldBreakReadingIncoming.Lock()
-				*foundError = err
+				*foundError = util.ErrorsCoalesce(*foundError, err)
 				*shouldBreakReadingIncoming = true
 				failedIndices = append(failedIndices, i)
 				muShouldBreakReadingIncoming.Unlock()
@@ -656,7 +684,7 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 						s.Name, outChIndex, out, err)
 				}
 				// We received an error from next stage while trying to write to it.
-				*foundError = err
+				*foundError = util.ErrorsCoalesce(*foundError, err)
 				shouldStopSending = true
 				failedIndices = append(failedIndices, i)
 				break eachOutput
-- 
2.43.0


From f494ebe49f86dc34dd6e963015951e2af122a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 09/63] fix: report errors of the output streaming function

---
 pkg/pipeline/stage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index ae79fa3..e52416b 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -532,6 +532,10 @@ readIncoming:
 					break
 				}
 				err = s.streamFunc(&outs, &outChIndxs)
+				if err != nil && err != StreamOutput && err != NoMoreData {
+					foundError = err
+					break readIncoming
+				}
 			}
 		} // end of select
 	} // end of for-loop readIncoming
-- 
2.43.0


From 148980d2af23a765f7340f87dd2e2380e821c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 10/63] fix: stop joined pipelines on errors

---
 pkg/pipeline/join.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/pipeline/join.go b/pkg/pipeline/join.go
index fa7b47c..1bfa5d8 100644
--- a/pkg/pipeline/join.go
+++ b/pkg/pipeline/join.go
@@ -229,8 +229,19 @@ func (j *jointStage[T]) joinStages() {
 		DebugPrintf("[%s] resuming second pipeline\n", j.Name)
 		j.p2.Resume(j.p1.Ctx)
 
-		// (3) Set the p2.source's TopErr channel as one of the p1.sink's next err channels.
-		j.sink.NextErrChs = append(j.sink.NextErrChs, j.source.TopErrCh)
+		// (3) Set the p2.source's TopErr channel as one of the p1.sink's next err channels,
+		// and remember when the second pipeline does not take any more data.
+		stopped := make(chan None)
+		topErrCh, errCh := j.source.TopErrCh, make(chan error)
+		go func() {
+			err, ok := <-topErrCh
+			close(stopped)
+			for ; ok; err, ok = <-topErrCh {
+				errCh <- err
+			}
+			close(errCh)
+		}()
+		j.sink.NextErrChs = append(j.sink.NextErrChs, errCh)
 		DebugPrintf("[%s] added source's TopErr to sink's next error channels\n", j.Name)
 
 		// (4) Every time the sink finishes processing a message, forward it to p2.source, unless
@@ -239,10 +250,15 @@ func (j *jointStage[T]) joinStages() {
 		// Since the next error channel number 2 (sink.NextErrChs[1]) is the top level p2.source's
 		// error channel, the sink will also receive errors from the second pipeline.
 		j.sink.ProcessFunc = func(in T) ([]None, []int, error) {
-			j.source.sourceIncomingCh <- in
+			select {
+			case j.source.sourceIncomingCh <- in:
+			case <-stopped:
+				// The error, if any, will be read from the next error channels.
+				return nil, nil, nil
+			}
 			_, _, err := sinkOrigProcessFunc(in)
 			DebugPrintf("[%s] msg: '%v' on original sink. Processing error: %v\n", j.Name, in, err)
-			if err == NoMoreData {
+			if err != nil {
 				close(j.source.sourceIncomingCh)
 			}
 			return nil, nil, err
-- 
2.43.0


From 9cd8fbf30a54b1c0744f1a5160e28ca70ec16274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 11/63] fix: close the stop channel of a stage before its error
 channel, not after

---
 pkg/pipeline/stage.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index e52416b..ca6fee0 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -397,15 +397,16 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error, incoming chan IN
 		}
 	}
 
-	// Close our own error channel.
-	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
-		s.Name, chanPtr(s.ErrCh))
-	close(s.ErrCh)
-
 	// Close the stop channel indicator.
 	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
 	close(s.StopCh)
 
+	// Close our own error channel. This must be the last use of the channels of this stage: once the
+	// error channel is closed, the stage can be prepared again with new ones.
+	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
+		s.Name, chanPtr(s.ErrCh))
+	close(s.ErrCh)
+
 	// Unblock those still sending to this stage.
 	if initialErr != nil && incoming != nil {
 		for range incoming {
-- 
2.43.0


From 64ebb1318e2a4a09a57f4d0945e5bc04f43cc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 12/63] fix: keep each new certificate's own expiration when
 others of the batch are known

UpdateWithKeepExisting removes the known certificates from the slices of
identifiers, names and parents, but not from that of the expirations, so that
the remaining certificates were stored with the expiration of others.
---
 pkg/mapserver/updater/updater.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..b010c25 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -390,12 +390,14 @@ func UpdateWithKeepExisting(
 		certIDs[to] = certIDs[from]
 		domainNames[to] = domainNames[from]
 		parentCertIDs[to] = parentCertIDs[from]
+		certExpirations[to] = certExpirations[from]
 		payloads = append(payloads, certs[from].Raw)
 	})
 	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
 	certIDs = certIDs[:len(payloads)]
 	domainNames = domainNames[:len(payloads)]
 	parentCertIDs = parentCertIDs[:len(payloads)]
+	certExpirations = certExpirations[:len(payloads)]
 
 	// Update those certificates that were not in the mask.
 	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
-- 
2.43.0


From e734bc81005ce30b87e79f7342e9ae7563e31438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 13/63] fix: UpdateCertsLocally passes one expiration per
 unfolded certificate

The expirations were those of the leaves only; with any chain, storing the
ancestors failed with an index out of range.
---
 pkg/mapserver/updater/updater.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index b010c25..d799c58 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -199,7 +199,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -208,7 +207,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -220,6 +218,7 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
+	expirations := util.ExtractExpirations(certs)
 	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
 }
 
-- 
2.43.0


From 84b1daa645f385b2573352979418daa86b1493c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 14/63] fix: the saved root always refers to a complete tree

UpdateSMT deleted the nodes of the saved root's tree, once per bundle, before
saving the new root. A crash or storage error in between left a root whose
nodes are gone, and no later update could load the tree.
---
 pkg/mapserver/trie/trie_cache.go | 38 ++++++++++++++++++--------
 pkg/mapserver/trie/trie_tools.go | 13 +++++++++
 pkg/mapserver/updater/updater.go | 47 +++++++++++++++++++++++---------
 3 files changed, 73 insertions(+), 25 deletions(-)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index f1731fd..e2c63a9 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -55,11 +55,18 @@ func NewCacheDB(store DBConn) (*CacheDB, error) {
 	}, nil
 }
 
-// commitChangesToDB stores the updated nodes to disk.
+// commitChangesToDB stores the updated nodes to disk, and then deletes the replaced ones.
 func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
+	if err := cacheDB.storeUpdatedNodes(ctx); err != nil {
+		return err
+	}
+	return cacheDB.deleteRemovedNodes(ctx)
+}
+
+// storeUpdatedNodes stores the updated nodes to disk.
+func (cacheDB *CacheDB) storeUpdatedNodes(ctx context.Context) error {
 	// prepare value to store
 	updatesToDB := []*db.TreeNodeRecord{}
-	keysToDelete := []common.SHA256Output{}
 
 	// get nodes from update map
 	cacheDB.updatedMux.Lock()
@@ -70,13 +77,27 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
 	cacheDB.updatedMux.Unlock()
 
+	// lock the db; other thread should not read or write to db during the updates
+	cacheDB.wholeCacheDBLock.Lock()
+	defer cacheDB.wholeCacheDBLock.Unlock()
+
+	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
+	if err != nil {
+		cacheDB.restorePending(pendingUpdates, nil)
+		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
+	}
+	return nil
+}
+
+// deleteRemovedNodes deletes from disk the nodes that are not part of the tree any more.
+func (cacheDB *CacheDB) deleteRemovedNodes(ctx context.Context) error {
+	keysToDelete := []common.SHA256Output{}
+
 	// get nodes from remove map
 	cacheDB.removeMux.Lock()
-
 	for k := range cacheDB.removedNode {
 		keysToDelete = append(keysToDelete, k)
 	}
-
 	pendingRemovals := cacheDB.removedNode
 	cacheDB.removedNode = make(map[Hash][]byte)
 	cacheDB.removeMux.Unlock()
@@ -85,20 +106,13 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.wholeCacheDBLock.Lock()
 	defer cacheDB.wholeCacheDBLock.Unlock()
 
-	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
-	if err != nil {
-		cacheDB.restorePending(pendingUpdates, pendingRemovals)
-		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
-	}
-
 	if len(keysToDelete) > 0 {
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 		if err != nil {
-			cacheDB.restorePending(pendingUpdates, pendingRemovals)
+			cacheDB.restorePending(nil, pendingRemovals)
 			return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
 		}
 	}
-
 	return nil
 }
 
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..15a172f 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -108,6 +108,7 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 	return s.get(ctx, lnode, key, batch, 2*iBatch+1, height-1)
 }
 
+// Commit stores the current version of the tree and deletes the nodes of the previous version.
 func (s *Trie) Commit(ctx context.Context) error {
 	err := s.db.commitChangesToDB(ctx)
 	if err != nil {
@@ -115,3 +116,15 @@ func (s *Trie) Commit(ctx context.Context) error {
 	}
 	return nil
 }
+
+// CommitNewNodes is the first half of a Commit: it stores the current version of the tree, and
+// leaves the previous one in place.
+func (s *Trie) CommitNewNodes(ctx context.Context) error {
+	return s.db.storeUpdatedNodes(ctx)
+}
+
+// CommitRemovals is the second half of a Commit: it deletes the nodes that belong only to the
+// previous version of the tree. To be called once no one refers to the previous version any more.
+func (s *Trie) CommitRemovals(ctx context.Context) error {
+	return s.db.deleteRemovedNodes(ctx)
+}
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index d799c58..485406e 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -475,7 +475,10 @@ func updateSMTfromDirty(
 			time.Now().Format(time.Stamp), len(entries), bundleNum)
 
 		cursor = nextCursor
-		if err := updateSMTFromDomainEntries(ctx, smtTrie, entries); err != nil {
+		err = updateSMTAndSaveRoot(ctx, smtTrie, entries, func(root []byte) error {
+			return saveRoot(ctx, conn, root)
+		})
+		if err != nil {
 			return err
 		}
 		if done {
@@ -491,6 +494,17 @@ func updateSMTFromDomainEntries(
 	smtTrie *trie.Trie,
 	entries []db.DomainEntryRecord,
 ) error {
+	return updateSMTAndSaveRoot(ctx, smtTrie, entries, func([]byte) error { return nil })
+}
+
+// updateSMTAndSaveRoot updates and commits the SMT using domain-entry records retrieved from
+// the database, and calls saveRoot when the new tree is complete.
+func updateSMTAndSaveRoot(
+	ctx context.Context,
+	smtTrie *trie.Trie,
+	entries []db.DomainEntryRecord,
+	saveRoot func(root []byte) error,
+) error {
 
 	// Adapt data type.
 	keys, values, err := domainEntriesToSMTInput(entries)
@@ -507,8 +521,16 @@ func updateSMTFromDomainEntries(
 	}
 	fmt.Printf("\nsmt.updateSMTFromDomainEntries [%s]: in-memory tree updated\n", time.Now().Format(time.Stamp))
 
-	// And update the tree in the DB.
-	err = smtTrie.Commit(ctx)
+	// And update the tree in the DB. The root is saved once all the nodes of the new tree are
+	// stored, and before any node of the tree of the previous root is deleted: the saved root
+	// always refers to a complete tree, even if the process stops at any of these steps.
+	if err := smtTrie.CommitNewNodes(ctx); err != nil {
+		return err
+	}
+	if err := saveRoot(smtTrie.Root); err != nil {
+		return err
+	}
+	err = smtTrie.CommitRemovals(ctx)
 	// TODO: clean records on the `dirty` table that correspond to [s:e]
 	if err != nil {
 		return err
@@ -521,7 +543,7 @@ func updateSMTFromDomainEntries(
 
 // UpdateSMT reads all the dirty domains (pending to update their contents in the SMT), creates
 // a SMT Trie, loads it, and updates its entries with the new values.
-// It finally commits the Trie and saves its root in the DB.
+// It commits the Trie and saves its root in the DB.
 func UpdateSMT(ctx context.Context, conn db.Conn) error {
 	// Load root.
 	root, err := loadRoot(ctx, conn)
@@ -554,20 +576,19 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 
 	fmt.Printf("\nsmt [%s]: SMT updated\n", time.Now().Format(time.Stamp))
 
-	// Save root value:
-	if smtTrie.Root != nil {
-		err = conn.SaveRoot(ctx, (*common.SHA256Output)(smtTrie.Root))
-		if err != nil {
-			return err
-		}
-	} else {
-		panic("SMT tree root is nil")
-	}
+	// The root was saved with each one of the bundles.
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
 	return nil
 }
 
+func saveRoot(ctx context.Context, conn db.Conn, root []byte) error {
+	if root == nil {
+		panic("SMT tree root is nil")
+	}
+	return conn.SaveRoot(ctx, (*common.SHA256Output)(root))
+}
+
 func loadRoot(ctx context.Context, conn db.Conn) ([]byte, error) {
 	var root []byte
 	if rootID, err := conn.LoadRoot(ctx); err != nil {
-- 
2.43.0


From 458dec218caa3ec718499222414b179dcfd0931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 15/63] fix: updating the tree to an empty one panicked

When the last domain of the map disappears (all its certificates expired), or
the only dirty domains have no entry in an empty map, the new tree has no root.
---
 pkg/db/db.go                     | 2 ++
 pkg/db/mysql/smt.go              | 6 ++++++
 pkg/mapserver/updater/updater.go | 5 +++--
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/db/db.go b/pkg/db/db.go
index aeca4fc..3efc7a2 100644
--- a/pkg/db/db.go
+++ b/pkg/db/db.go
@@ -32,7 +32,9 @@ type DirtyDomainEntriesCursor struct {
 }
 
 type smt interface {
+	// LoadRoot returns the saved root of the tree, or nil if there is none (empty tree).
 	LoadRoot(ctx context.Context) (*common.SHA256Output, error)
+	// SaveRoot saves the root of the tree. A nil root means that the tree is empty.
 	SaveRoot(ctx context.Context, root *common.SHA256Output) error
 
 	// RetrieveTreeNode retrieves one serialized SMT node from the tree table.
diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index c6116ca..5193a2e 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -21,6 +21,12 @@ func (c *mysqlDB) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
 }
 
 func (c *mysqlDB) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
+	if root == nil {
+		if _, err := c.db.ExecContext(ctx, "DELETE FROM root"); err != nil {
+			return fmt.Errorf("error deleting root ID: %w", err)
+		}
+		return nil
+	}
 	str := "REPLACE INTO root (key32) VALUES (?)"
 	_, err := c.db.ExecContext(ctx, str, (*root)[:])
 	if err != nil {
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 485406e..74d4956 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -583,8 +583,9 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 }
 
 func saveRoot(ctx context.Context, conn db.Conn, root []byte) error {
-	if root == nil {
-		panic("SMT tree root is nil")
+	if len(root) == 0 {
+		// The tree is empty: there is no root.
+		return conn.SaveRoot(ctx, nil)
 	}
 	return conn.SaveRoot(ctx, (*common.SHA256Output)(root))
 }
-- 
2.43.0


From c2e0ba526c1627e5fdd07dbfb4aefd858194d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 16/63] fix: an interrupted update could leave a certificate
 without its domains forever

The certificates were stored before their domains. If an update stopped in
between, a repeated update that keeps existing certificates skipped them, and
their domains were never marked as changed nor linked.
---
 pkg/mapserver/updater/updater.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 74d4956..e6c551b 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -618,12 +618,6 @@ func insertCerts(
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
 
-	// Send hash, parent hash, expiration and payload to the certs table.
-	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting certificates: %w", err)
-	}
-	// around 3 seconds for this ^^ (100K certs)
-
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -651,6 +645,14 @@ func insertCerts(
 	}
 	// around 8 seconds for this ^^ (100K certs)
 
+	// Send hash, parent hash, expiration and payload to the certs table. This comes last: the
+	// presence of a certificate in the DB means that all its domains are recorded (see
+	// UpdateWithKeepExisting), also if an update stops in the middle.
+	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting certificates: %w", err)
+	}
+	// around 3 seconds for this ^^ (100K certs)
+
 	return nil
 }
 
@@ -685,15 +687,15 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		t := time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC) // TODO(juagargi) use real expirations.
 		expirations[i] = t
 	}
-	// Update policies:
+	// Update policies. The policies table comes last: the presence of a policy in the DB means that
+	// its domain is recorded (see UpdateWithKeepExisting).
+	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
+		return fmt.Errorf("updating domain_policies: %w", err)
+	}
 	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
 		return fmt.Errorf("inserting policies: %w", err)
 	}
 
-	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
-		return fmt.Errorf("updating domain_certs: %w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From d81d5ea88ee4c14e7352b7a8d2771a850ff95815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 17/63] fix: data race between concurrent readers of the tree

Get and MerkleProof wrote the atomicUpdate flag while holding only the read lock.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 2 --
 pkg/mapserver/trie/trie_tools.go        | 1 -
 2 files changed, 3 deletions(-)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index 5b92708..fa65865 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -32,7 +32,6 @@ func (s *Trie) MerkleProofR(ctx context.Context, key, root []byte) ([][]byte, bo
 	auditPath := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	included, newKey, value, err := s.merkleProof(ctx, &auditPath, root, key, nil, s.TrieHeight, 0)
 	return auditPath, included, newKey, value, err
 }
@@ -51,7 +50,6 @@ func (s *Trie) merkleProofCompressed(ctx context.Context, key, root []byte) ([]b
 	mpFull := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	// create a regular merkle proof and then compress it
 	included, proofKey, proofVal, err := s.merkleProof(ctx, &mpFull, root, key, nil, s.TrieHeight, 0)
 	if err != nil {
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index 15a172f..4e27afa 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -80,7 +80,6 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 func (s *Trie) Get(ctx context.Context, key []byte) ([]byte, error) {
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false
 	return s.get(ctx, s.Root, key, nil, 0, s.TrieHeight)
 }
 
-- 
2.43.0


From 9b505e2448d5386cec42541e501ea268041a0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 18/63] fix: proof responses mixed several versions of the map

While the tree was reloaded, a response could carry the root of one tree, the proof of another one
and the signature of a third; while an update ran, the entry could differ from the proven one.
---
 pkg/mapserver/responder/responder.go | 57 +++++++++++++++++++---------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index e37e318..1a8d096 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -1,9 +1,11 @@
 package responder
 
 import (
+	"bytes"
 	"context"
 	"crypto/rsa"
 	"fmt"
+	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/common/crypto"
@@ -14,7 +16,9 @@ import (
 )
 
 type MapResponder struct {
-	conn           db.Conn
+	conn db.Conn
+
+	mu             sync.RWMutex // protects the next two, which always belong together
 	smt            *trie.Trie
 	signedTreeHead []byte
 }
@@ -55,11 +59,19 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 		return fmt.Errorf("error loading SMT: %w", err)
 	}
 
-	// Use the new SMT
+	// Sign the SMT root.
+	signature, err := signTreeHead(smt, privateKey)
+	if err != nil {
+		return err
+	}
+
+	// Use the new SMT, and keep the signature for the proofs.
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.smt = smt
+	r.signedTreeHead = signature
 
-	// sign the SMT root
-	return r.signTreeHead(privateKey)
+	return nil
 }
 
 func (r *MapResponder) GetProof(ctx context.Context, domainName string,
@@ -71,11 +83,14 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 		return nil, err
 	}
 
+	// All the proofs of this response come from the same tree, regardless of reloads.
+	smt, signedTreeHead := r.currentTree()
+
 	// Prepare proof with the help of the SMT.
 	proofList := make([]*mapCommon.MapServerResponse, len(domainParts))
 	for i, domainPart := range domainParts {
 		domainPartID := common.SHA256Hash32Bytes([]byte(domainPart))
-		proof, isPoP, proofKey, proofValue, err := r.smt.MerkleProof(ctx, domainPartID[:])
+		proof, isPoP, proofKey, proofValue, err := smt.MerkleProof(ctx, domainPartID[:])
 		if err != nil {
 			return nil, fmt.Errorf("error obtaining Merkle proof for %s: %w",
 				domainPart, err)
@@ -107,6 +122,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			de.DomainValue = vID
 
 			// TODO(juagargi) the sorting and concatenation should happen inside the DB.
+
+			// The entry may already be newer than the tree, if an update is in progress.
+			if !bytes.Equal(de.DomainValue[:], proofValue) {
+				return nil, fmt.Errorf("the entry of %s is being updated", domainPart)
+			}
 		}
 
 		proofList[i] = &mapCommon.MapServerResponse{
@@ -114,11 +134,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			PoI: mapCommon.PoI{
 				ProofType:  proofType,
 				Proof:      proof,
-				Root:       r.smt.Root,
+				Root:       smt.Root,
 				ProofKey:   proofKey,
 				ProofValue: proofValue,
 			},
-			TreeHeadSig: r.SignedTreeHead(),
+			TreeHeadSig: append(signedTreeHead[:0:0], signedTreeHead...),
 		}
 	}
 	return proofList, nil
@@ -126,18 +146,21 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 
 // SignedTreeHead returns a copy of the Signed Tree Head (STH).
 func (r *MapResponder) SignedTreeHead() []byte {
-	return append(r.signedTreeHead[:0:0], r.signedTreeHead...)
+	_, signedTreeHead := r.currentTree()
+	return append(signedTreeHead[:0:0], signedTreeHead...)
+}
+
+// currentTree returns the tree in use and the signature of its root.
+func (r *MapResponder) currentTree() (*trie.Trie, []byte) {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+	return r.smt, r.signedTreeHead
 }
 
-func (r *MapResponder) signTreeHead(privateKey *rsa.PrivateKey) error {
-	// Sign the tree head.
-	signature, err := crypto.SignBytes(r.smt.Root, privateKey)
+func signTreeHead(smt *trie.Trie, privateKey *rsa.PrivateKey) ([]byte, error) {
+	signature, err := crypto.SignBytes(smt.Root, privateKey)
 	if err != nil {
-		return fmt.Errorf("SignStructRSASHA256 | %w", err)
+		return nil, fmt.Errorf("SignStructRSASHA256 | %w", err)
 	}
-
-	// Keep it for the proofs.
-	r.signedTreeHead = signature
-
-	return nil
+	return signature, nil
 }
-- 
2.43.0


From 86e2b208c53c98c619008ce30519e082d30cff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 19/63] fix: update requests blocked forever, or got the
 outcome of another request

The outcome was sent before the new tree was published, an error of publishing it was left for the
next request (blocking the server meanwhile), and after a shutdown requests blocked or crashed.
---
 pkg/mapserver/mapserver.go | 60 +++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index f35c3d3..88e443c 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -44,8 +44,14 @@ type MapServer struct {
 	HttpAPIPort  int
 
 	apiStopServerChan chan struct{}
-	updateChan        chan context.Context
-	updateErrChan     chan error
+	updateChan        chan updateRequest
+	stopped           chan struct{} // closed when no more update requests are served
+}
+
+// updateRequest is the request to run one update cycle.
+type updateRequest struct {
+	ctx    context.Context
+	result chan error // buffered: receives exactly one value, the outcome of the cycle
 }
 
 func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error) {
@@ -115,8 +121,8 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 		HttpAPIPort:  conf.HttpAPIPort,
 
 		apiStopServerChan: make(chan struct{}, 1),
-		updateChan:        make(chan context.Context),
-		updateErrChan:     make(chan error),
+		updateChan:        make(chan updateRequest),
+		stopped:           make(chan struct{}),
 	}
 
 	// Start listening for update requests.
@@ -124,18 +130,20 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 		// Non stop read from updateChan. Unless requested to exit.
 		for {
 			select {
-			case c := <-s.updateChan:
+			case req := <-s.updateChan:
 				// TODO: ensure that the Mapserver is never in an inconsistent state. Currently, if
 				// the new SMT is applied but the responder does not yet use the updated SMT root
 				// value, queries will fail
-				s.pruneAndUpdate(c)
-				err := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
-				if err != nil {
-					s.updateErrChan <- err
+				err := s.pruneAndUpdate(req.ctx)
+				// Regardless of the error, use the last tree.
+				reloadErr := s.Responder.ReloadRootAndSignTreeHead(req.ctx, s.Key)
+				if err == nil {
+					err = reloadErr
 				}
+				req.result <- err
 			case <-ctx.Done():
 				// Requested to exit.
-				close(s.updateChan)
+				close(s.stopped)
 				return
 			}
 		}
@@ -207,11 +215,12 @@ func (s *MapServer) Shutdown(ctx context.Context) {
 // If an ongoing update is still in process, it returns false. Returns true if a new update was
 // triggered.
 func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error) {
+	req := newUpdateRequest(ctx)
 	select {
 	// Signal we want an update.
-	case s.updateChan <- ctx:
+	case s.updateChan <- req:
 		// Wait for the answer (in form of an error).
-		err := <-s.updateErrChan
+		err := <-req.result
 		return true, err
 	default:
 		return false, nil
@@ -220,12 +229,24 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 
 // PruneAndUpdate triggers an update. If an ongoing update is still in process, it blocks.
 func (s *MapServer) PruneAndUpdate(ctx context.Context) error {
+	req := newUpdateRequest(ctx)
+	select {
 	// Signal we want an update.
-	s.updateChan <- ctx
+	case s.updateChan <- req:
+		// Wait for the answer (in form of an error).
+		return <-req.result
+	case <-s.stopped:
+		return fmt.Errorf("the map server does not accept updates anymore")
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
 
-	// Wait for the answer (in form of an error).
-	err := <-s.updateErrChan
-	return err
+func newUpdateRequest(ctx context.Context) updateRequest {
+	return updateRequest{
+		ctx:    ctx,
+		result: make(chan error, 1),
+	}
 }
 
 // apiGetProof expects one GET parameter "domain" with a string value for the domain name.
@@ -299,15 +320,14 @@ func (s *MapServer) apiGetPayloads(w http.ResponseWriter, r *http.Request, retur
 	}
 }
 
-func (s *MapServer) pruneAndUpdate(ctx context.Context) {
+func (s *MapServer) pruneAndUpdate(ctx context.Context) error {
 	// Refrain from updating if pruning failed.
 	err := s.prune(ctx)
 	if err != nil {
-		s.updateErrChan <- err
-		return
+		return err
 	}
 
-	s.updateErrChan <- s.update(ctx)
+	return s.update(ctx)
 }
 
 // prune only removes the affected certificates from the certs table and adds the affected domains
-- 
2.43.0


From 413ab381d49bf9bcb4726bc41a037d98a5c29128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 20/63] fix: bulk ingestion crashed if the number of workers is
 not a power of two

---
 pkg/mapserver/updater/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 104f85e..039963a 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -46,7 +46,8 @@ func NewManager(
 	nBits := int(util.Log2(uint(workerCount)))
 
 	selectPartition := func(id *common.SHA256Output) uint {
-		return mysql.PartitionByIdMSB(id, nBits)
+		// The modulo matters only if the count is not a power of two: there are 2^nBits >= N values.
+		return mysql.PartitionByIdMSB(id, nBits) % uint(workerCount)
 	}
 
 	// Create the Manager structure.
-- 
2.43.0


From 0a8fa47368564fee4485e34917549fdf170a131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 21/63] fix: expiration times with a zone other than UTC were
 stored and compared as if in UTC

---
 pkg/db/mysql/certs.go        | 4 ++--
 pkg/mapserver/updater/csv.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..298bac3 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -80,7 +80,7 @@ func (c *mysqlDB) updateCertsCSV(
 			if parents[i] != nil {
 				records[i][1] = base64.StdEncoding.EncodeToString(parents[i][:])
 			}
-			records[i][2] = expirations[i].Format(time.DateTime)
+			records[i][2] = expirations[i].UTC().Format(time.DateTime)
 			records[i][3] = base64.StdEncoding.EncodeToString(payloads[i])
 		}
 
@@ -370,7 +370,7 @@ func (c *mysqlDB) pruneCerts(ctx context.Context, now time.Time) error {
 	// We thus look for certificates with expiration less than now.
 
 	str := "CALL prune_expired(?)"
-	_, err := c.db.ExecContext(ctx, str, now.Format(time.DateTime))
+	_, err := c.db.ExecContext(ctx, str, now.UTC().Format(time.DateTime))
 	return err
 }
 
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..6d52cd5 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -245,7 +245,7 @@ func bytesToBase64WithStorage(storage *[]byte, b []byte) {
 
 func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = (*storage)[:0]
-	*storage = t.AppendFormat(*storage, time.DateTime)
+	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
 }
 
 func stringToStorage(storage *[]byte, s string) {
-- 
2.43.0


From 8d4449f065ffb2285ac150225cce07a38512bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 22/63] fix: domain names with separators, quotes or
 backslashes corrupted the rows handed to MySQL

---
 pkg/db/mysql/mysql.go        |  3 ++-
 pkg/mapserver/updater/csv.go | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 27f3183..8a35759 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -122,7 +122,8 @@ func (c *mysqlDB) updateDomainsCSV(
 	for i := 0; i < len(ids); i++ {
 		records[i] = make([]string, 2)
 		records[i][0] = base64.StdEncoding.EncodeToString(ids[i][:])
-		records[i][1] = domainNames[i]
+		// Backslash is an escape character for LOAD DATA, but not for the CSV writer.
+		records[i][1] = strings.ReplaceAll(domainNames[i], `\`, `\\`)
 	}
 
 	// Create temporary file.
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index 6d52cd5..5a03cf5 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -3,6 +3,7 @@ package updater
 import (
 	"encoding/base64"
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -218,7 +219,7 @@ func recordsForDirty(dst [][]byte, d DirtyDomain) {
 func recordsForDomains(dst [][]byte, d DirtyDomain) {
 	// 2 columns: ID, name.
 	idToBase64WithStorage(&dst[0], d.DomainID)
-	stringToStorage(&dst[1], d.Name)
+	nameToStorage(&dst[1], d.Name)
 }
 
 func recordsForDomainCerts(dst [][]byte, d DirtyDomain) {
@@ -248,7 +249,22 @@ func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
 }
 
-func stringToStorage(storage *[]byte, s string) {
+// nameToStorage writes the name as one CSV field. The names come from the certificates and may
+// contain anything; those that would not be read back as they are get enclosed and escaped.
+func nameToStorage(storage *[]byte, s string) {
 	*storage = (*storage)[:0]
-	*storage = append(*storage, []byte(s)...)
+	if s != "NULL" && !strings.ContainsAny(s, ",\"\\\r\n") {
+		*storage = append(*storage, s...)
+		return
+	}
+
+	*storage = append(*storage, '"')
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '"', '\\':
+			*storage = append(*storage, s[i]) // Double it.
+		}
+		*storage = append(*storage, s[i])
+	}
+	*storage = append(*storage, '"')
 }
-- 
2.43.0


From 94e03ebdbd7e2c4486ff7f4a4fbe563088659555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 23/63] fix: checks for the existence of 1000 or more
 certificates or policies missed some of them

---
 pkg/db/mysql/certs.go    |  2 +-
 pkg/db/mysql/policies.go | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 298bac3..3b73a7b 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -27,7 +27,7 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
+	for i := 0; i <= len(ids)-batchSize; i += batchSize {
 		to := i + batchSize
 		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
 			return nil, err
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..8d2003c 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -19,6 +19,22 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		// If empty, return empty.
 		return nil, nil
 	}
+	present := make([]bool, len(ids))
+
+	// The query won't accept more than batchSize elements. Make batches.
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkPoliciesExist(ctx, ids[from:to], present[from:to]); err != nil {
+			return nil, err
+		}
+	}
+	return present, nil
+}
+
+// checkPoliciesExist should not be called with more than batchSize elements, see checkCertsExist.
+func (c *mysqlDB) checkPoliciesExist(ctx context.Context, ids []common.SHA256Output,
+	present []bool) error {
+
 	// Slice to be used in the SQL query:
 	data := make([]interface{}, len(ids))
 	for i, id := range ids {
@@ -48,11 +64,9 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		"policies.policy_id = request.policy_id) AS t"
 
 	// Return slice of booleans:
-	present := make([]bool, len(ids))
-
 	var value string
 	if err := c.db.QueryRowContext(ctx, str, data...).Scan(&value); err != nil {
-		return nil, err
+		return err
 	}
 	for i, c := range value {
 		if c == '1' {
@@ -60,7 +74,7 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		}
 	}
 
-	return present, nil
+	return nil
 }
 
 func (c *mysqlDB) UpdatePolicies(
-- 
2.43.0


From 76caf5b57e717eb834bae4afe4152cdca4c19ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 24/63] fix: payload and tree node calls without identifiers
 were invalid SQL statements

---
 pkg/db/mysql/certs.go    | 3 +++
 pkg/db/mysql/common.go   | 3 +++
 pkg/db/mysql/policies.go | 3 +++
 pkg/db/mysql/smt.go      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 3b73a7b..7b8f6c5 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -253,6 +253,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		return [][]byte{}, nil
+	}
 	str := "SELECT cert_id,payload from certs WHERE cert_id IN " + repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
 	for i, id := range IDs {
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..f3811bb 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -12,6 +12,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	ctx context.Context,
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
+	if len(IDs) == 0 {
+		return [][]byte{}, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs)) +
 		"UNION SELECT cert_id,payload from certs WHERE cert_id IN " +
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index 8d2003c..fd16ffa 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -155,6 +155,9 @@ func (c *mysqlDB) RetrieveDomainPoliciesIDs(ctx context.Context, domainID common
 func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		return [][]byte{}, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index 5193a2e..e560b3b 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -49,6 +49,9 @@ func (c *mysqlDB) RetrieveTreeNode(ctx context.Context, key common.SHA256Output)
 }
 
 func (c *mysqlDB) DeleteTreeNodes(ctx context.Context, keys []common.SHA256Output) (int, error) {
+	if len(keys) == 0 {
+		return 0, nil
+	}
 	str := "DELETE FROM tree WHERE key32 IN " + repeatStmt(1, len(keys))
 	params := make([]interface{}, len(keys))
 	for i, k := range keys {
-- 
2.43.0


From b31fab4407a65386d8b548eee51f0566469afddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 25/63] fix: results of the database that were cut off by an
 error were taken for complete

---
 pkg/db/mysql/certs.go    | 3 +++
 pkg/db/mysql/common.go   | 3 +++
 pkg/db/mysql/dirty.go    | 3 +++
 pkg/db/mysql/policies.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 7b8f6c5..904652e 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -276,6 +276,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index f3811bb..7c4c271 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -39,6 +39,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/dirty.go b/pkg/db/mysql/dirty.go
index 6dfb59b..3f0efe3 100644
--- a/pkg/db/mysql/dirty.go
+++ b/pkg/db/mysql/dirty.go
@@ -107,6 +107,9 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 		}
 		domainIDs = append(domainIDs, common.SHA256Output(domainId))
 	}
+	if err = rows.Err(); err != nil {
+		return nil, fmt.Errorf("error iterating dirty domains: %w", err)
+	}
 	return domainIDs, nil
 }
 
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index fd16ffa..0120954 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -179,6 +179,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
-- 
2.43.0


From b31f805921d0ca3b30e04b640d425db8b981e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 26/63] fix: a failed verification removed the signatures of a
 policy certificate

---
 pkg/common/crypto/crypto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..a67f072 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -136,11 +136,11 @@ func VerifyOwnerSignatureInPolicyCertificate(
 		c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature
 	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature = nil, nil, nil, nil
 	serializedStruct, err := common.ToJSON(c)
+	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
+		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 	if err != nil {
 		return fmt.Errorf("RCSRVerifySignature | ToJSON | %w", err)
 	}
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
-		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := sha256.Sum256(serializedStruct)
@@ -288,10 +288,10 @@ func VerifyIssuerSignature(
 	sig := childPolCert.IssuerSignature
 	childPolCert.IssuerSignature = nil
 	serializedStruct, err := common.ToJSON(childPolCert)
+	childPolCert.IssuerSignature = sig // restore previous signature
 	if err != nil {
 		return err
 	}
-	childPolCert.IssuerSignature = sig // restore previous signature
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := common.SHA256Hash(serializedStruct)
-- 
2.43.0


From e9472322eb04ea59bf83ccb274ae2b4c2ffc52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 27/63] fix: the domain and issuing constraints of an issuer
 policy certificate were not enforced

---
 pkg/common/crypto/crypto.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index a67f072..5b0d4dd 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -228,6 +228,11 @@ func VerifyIssuerConstraints(
 	childPolCert *common.PolicyCertificate,
 ) error {
 
+	// check that the issuer is allowed to issue
+	if !issuerPolCert.CanIssue {
+		return fmt.Errorf("the issuer policy certificate cannot issue")
+	}
+
 	// check validity period
 	if childPolCert.NotBefore.Before(issuerPolCert.NotBefore) {
 		return fmt.Errorf("policy certificate is valid before its issuer certificate (%v < %v)", childPolCert.NotBefore, issuerPolCert.NotBefore)
@@ -238,14 +243,14 @@ func VerifyIssuerConstraints(
 
 	// check domain constraint
 	// TODO (cyrill): could also check with public suffix list
-	validDomainName := regexp.MustCompile("([^.]+\\.)*([^.]+\\.?)?")
+	validDomainName := regexp.MustCompile("^([^.]+\\.)*([^.]+\\.?)?$")
 	if !validDomainName.Match([]byte(childPolCert.DomainField)) {
 		return fmt.Errorf("Policy Certificate does not have a valid domain name: %s", childPolCert.DomainField)
 	}
 	if !validDomainName.Match([]byte(issuerPolCert.DomainField)) {
 		return fmt.Errorf("Issuer Policy Certificate does not have a valid domain name: %s", issuerPolCert.DomainField)
 	}
-	if issuerPolCert.DomainField != "" {
+	if issuerPolCert.DomainField == "" {
 		// all domain fields are accepted
 	} else if issuerPolCert.DomainField == childPolCert.DomainField {
 		// identical domain fields are accepted
-- 
2.43.0


From 179501aeb87258919cf2c79ff07dab9403641142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 28/63] fix: equal policy certificate revocations compared as
 different after decoding them

---
 pkg/common/policies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index 4d64f0b..fb6c3f1 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -363,7 +363,7 @@ func NewPolicyCertificateRevocationFields(
 
 func (c PolicyCertificateRevocationFields) Equal(x PolicyCertificateRevocationFields) bool {
 	return c.PolicyCertificateBase.Equal(x.PolicyCertificateBase) &&
-		c.TimeStamp == x.TimeStamp &&
+		c.TimeStamp.Equal(x.TimeStamp) &&
 		bytes.Equal(c.OwnerSignature, x.OwnerSignature) &&
 		bytes.Equal(c.OwnerHash, x.OwnerHash)
 }
-- 
2.43.0


From 982216ed84122ae66623b6fbbecb8e2211cc032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 29/63] fix: the owner signature of a request was never checked
 against the certificates issued by the PCA

---
 pkg/pca/pca.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/pca/pca.go b/pkg/pca/pca.go
index 0648e10..0dc9769 100644
--- a/pkg/pca/pca.go
+++ b/pkg/pca/pca.go
@@ -27,6 +27,8 @@ type PCA struct {
 	LogServerRequester LogServerRequester                     // not set
 	DB                 map[[32]byte]*common.PolicyCertificate // per hash of public key
 	SerialNumber       int                                    // unique serial number per pol cert
+
+	issued map[[32]byte]*common.PolicyCertificate // issued pol certs, per hash as signer
 }
 
 // LogServerRequester is implemented by objects that can talk to CT log servers.
@@ -179,7 +181,9 @@ func (pca *PCA) SignAndLogRequest(
 		return nil, err
 	}
 
-	pca.storeInDb(pc)
+	if err := pca.storeInDb(pc); err != nil {
+		return nil, err
+	}
 
 	return pc, nil
 }
@@ -201,6 +205,9 @@ func (pca *PCA) canSkipCoolOffPeriod(req *common.PolicyCertificateSigningRequest
 	// Cast it to array and check the DB.
 	key := (*[32]byte)(req.OwnerHash)
 	stored, ok := pca.DB[*key]
+	if !ok {
+		stored, ok = pca.issued[*key]
+	}
 	if !ok {
 		// No such certificate, cannot skip cool off period.
 		return false, nil
@@ -260,9 +267,21 @@ func (pca *PCA) sendFinalPolCertToAllLogServers(pc *common.PolicyCertificate) er
 	return nil
 }
 
-func (pca *PCA) storeInDb(pc *common.PolicyCertificate) {
+// storeInDb stores the issued policy certificate so that it is found by its public key, and also
+// by the hash that identifies it as owner in later requests.
+func (pca *PCA) storeInDb(pc *common.PolicyCertificate) error {
+	hash, err := crypto.ComputeHashAsSigner(pc)
+	if err != nil {
+		return err
+	}
+	if pca.issued == nil {
+		pca.issued = make(map[[32]byte]*common.PolicyCertificate)
+	}
+	pca.issued[[32]byte(hash)] = pc
+
 	key := (*[32]byte)(common.SHA256Hash(pc.PublicKey))
 	pca.DB[*key] = pc
+	return nil
 }
 
 // TODO(yongzhe): modify this to make sure unique SN
-- 
2.43.0


From 9b4358b05e8525abf3d3e1661d3e9b713e4f7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 30/63] fix: decoded policy objects kept their encoding in a
 buffer of the caller

---
 pkg/common/json.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index 42d3e17..35f150a 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -143,8 +144,8 @@ func (o *serializableObjectBase) UnmarshalJSON(data []byte) error {
 			if base != (reflect.Value{}) {
 				// It is a PolicyPartBase like object. Check the Raw field (should always be true).
 				if raw := base.FieldByName("JSONField"); raw != (reflect.Value{}) {
-					// Set its value to the JSON data.
-					raw.Set(reflect.ValueOf(data))
+					// Set its value to a copy of the JSON data, which belongs to the caller.
+					raw.Set(reflect.ValueOf(bytes.Clone(data)))
 				} else {
 					// This should never happen, and the next line should ensure it:
 					_ = PolicyPartBase{}.JSONField
@@ -227,12 +228,12 @@ func inflateObj[T any](data []byte) (any, error) {
 
 // ToJSONFile serializes any supported type to a file, using JSON.
 func ToJSONFile(s any, filePath string) error {
-	bytes, err := ToJSON(s)
+	data, err := ToJSON(s)
 	if err != nil {
 		return fmt.Errorf("JsonStructToFile | ToJSON | %w", err)
 	}
 
-	err = ioutil.WriteFile(filePath, bytes, 0644)
+	err = ioutil.WriteFile(filePath, data, 0644)
 	if err != nil {
 		return fmt.Errorf("JsonStructToFile | WriteFile | %w", err)
 	}
-- 
2.43.0


From 7785d89199c2e1c538b7942167c2819384696bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 31/63] fix: encoding a nil policy object crashed instead of
 failing

---
 pkg/common/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index 35f150a..1b1f8a9 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -84,6 +84,9 @@ func (*serializableObjectBase) marshalJSON(obj any) (string, []byte, error) {
 		valOf := reflect.ValueOf(obj)
 		switch valOf.Kind() {
 		case reflect.Pointer:
+			if valOf.IsNil() {
+				return "", nil, fmt.Errorf("nil pointer of type %T", obj)
+			}
 			// Dereference and convert to "any".
 			T, O, err := (*serializableObjectBase)(nil).marshalJSON(valOf.Elem().Interface())
 			return fmt.Sprintf("*%s", T), O, err
-- 
2.43.0


From 886f6fecf8646e7c6177869b06beaf01925e6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 32/63] fix: the next time of day was in the past or over a day
 away in zones other than UTC

---
 pkg/util/time_wrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util/time_wrap.go b/pkg/util/time_wrap.go
index 48e2ff4..6bd498d 100644
--- a/pkg/util/time_wrap.go
+++ b/pkg/util/time_wrap.go
@@ -89,7 +89,7 @@ func (t TimeOfDayWrap) String() string {
 // NextTimeOfDay returns the next possible time that keeps the same hour minute and second as this
 // TimeOfDayWrap. The returned time is never Before time.Now() and at most 1 day in the future.
 func (t TimeOfDayWrap) NextTimeOfDay() time.Time {
-	now := time.Now()
+	now := time.Now().UTC()
 
 	// The actual time in the present or future?
 	if !t.Time.Before(now) {
-- 
2.43.0


From f6bafd864a5cac1e68e967291bea9c13868bf0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 33/63] fix: a periodic function was executed after its context
 was cancelled

---
 pkg/util/ticker.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/util/ticker.go b/pkg/util/ticker.go
index 1c5f4d4..1cf8826 100644
--- a/pkg/util/ticker.go
+++ b/pkg/util/ticker.go
@@ -20,15 +20,20 @@ func RunWhen(
 	go func() {
 		waiting := time.Until(when)
 		timer := time.NewTimer(waiting)
-		<-timer.C
+		select {
+		case <-timer.C:
+		case <-ctx.Done():
+			timer.Stop()
+			return
+		}
 		ticker := time.NewTicker(repeat)
-		for {
+		defer ticker.Stop()
+		for ctx.Err() == nil {
 			whenTick(ctx)
 			select {
 			case <-ticker.C:
 				continue
 			case <-ctx.Done():
-				ticker.Stop()
 				return
 			}
 		}
-- 
2.43.0


From 4a08adaf49c1e05aa86c30a3b4dc6fd403b8130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 34/63] fix: malformed and too large durations were parsed as
 some other duration

---
 pkg/util/duration.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/pkg/util/duration.go b/pkg/util/duration.go
index dbe1f80..cf6aabf 100644
--- a/pkg/util/duration.go
+++ b/pkg/util/duration.go
@@ -45,32 +45,45 @@ func ParseDuration(durationStr string) (time.Duration, error) {
 	if len(matches) != 3 {
 		return 0, fmt.Errorf("invalid duration string %s", durationStr)
 	}
-	var (
-		n, _ = strconv.Atoi(matches[1])
-		dur  = time.Duration(n)
-	)
+	n, err := strconv.ParseInt(matches[1], 10, 64)
+	if err != nil {
+		return 0, fmt.Errorf("invalid duration string %s: %w", durationStr, err)
+	}
+	dur := time.Duration(n)
 	switch unit := matches[2]; unit {
 	case "y":
-		dur *= year
+		dur, err = multiply(dur, year)
 	case "w":
-		dur *= week
+		dur, err = multiply(dur, week)
 	case "d":
-		dur *= day
+		dur, err = multiply(dur, day)
 	case "h":
-		dur *= time.Hour
+		dur, err = multiply(dur, time.Hour)
 	case "m":
-		dur *= time.Minute
+		dur, err = multiply(dur, time.Minute)
 	case "s":
-		dur *= time.Second
+		dur, err = multiply(dur, time.Second)
 	case "ms":
-		dur *= time.Millisecond
+		dur, err = multiply(dur, time.Millisecond)
 	case "us", "µs":
-		dur *= time.Microsecond
+		dur, err = multiply(dur, time.Microsecond)
 	case "ns":
 		// Value already correct
 	default:
 		return 0, fmt.Errorf("invalid time unit %s in duration string %s", unit, durationStr)
 	}
+	if err != nil {
+		return 0, fmt.Errorf("invalid duration string %s: %w", durationStr, err)
+	}
+	return dur, nil
+}
+
+// multiply returns the n-fold of the unit, or an error if a duration cannot hold it.
+func multiply(n, unit time.Duration) (time.Duration, error) {
+	dur := n * unit
+	if dur/unit != n {
+		return 0, fmt.Errorf("value out of range")
+	}
 	return dur, nil
 }
 
-- 
2.43.0


From 8d250416675d9609ffe12604a40ace115e0c1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 35/63] fix: the number of duplicate CAs in policy attributes
 was reported negative

---
 pkg/common/policies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index fb6c3f1..2649da8 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -145,7 +145,7 @@ func (a PolicyAttributes) ValidateAttributes() error {
 		caMap[caName] = struct{}{}
 	}
 	if len(caMap) < len(a.AllowedCAs) {
-		return fmt.Errorf("Allowed CA attribute contains %d duplicate CAs", len(caMap)-len(a.AllowedCAs))
+		return fmt.Errorf("Allowed CA attribute contains %d duplicate CAs", len(a.AllowedCAs)-len(caMap))
 	}
 
 	// TODO: could also check CA subject name formatting
-- 
2.43.0


From 29b9020bec2ec56bb4c701d82879c013f44fa5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 36/63] fix: domains named www directly below a public suffix
 could not be parsed

---
 pkg/domain/domain.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/domain/domain.go b/pkg/domain/domain.go
index 3d7ec86..3fe6adb 100644
--- a/pkg/domain/domain.go
+++ b/pkg/domain/domain.go
@@ -156,9 +156,12 @@ func removeWildCardAndWWW(domainName string) string {
 		domainName = domainName[2:]
 	}
 
-	// remove "www."
+	// remove "www.", unless it is itself the name registered below a public suffix (www.com)
 	if len(domainName) > 4 && domainName[:4] == "www." {
-		domainName = domainName[4:]
+		suffix, icann := publicsuffix.PublicSuffix(domainName)
+		if !icann || suffix != domainName[4:] {
+			domainName = domainName[4:]
+		}
 	}
 
 	return domainName
-- 
2.43.0


From c6894181a6791fd0d6771a0b9573f90a7bcb9dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 37/63] fix: unfolding a certificate without chain crashed

---
 pkg/util/certificate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 32e4c24..8881fab 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -142,8 +142,13 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	// Always add the leaf certificate.
 	certs = append(certs, *leafCert)
 	certIDs = append(certIDs, certID)
-	parentIDs = append(parentIDs, chainIDs[0])
 	names = append(names, ExtractCertDomains(leafCert))
+	if len(chain) == 0 {
+		// The certificate is itself a root certificate.
+		parentIDs = append(parentIDs, nil)
+		return
+	}
+	parentIDs = append(parentIDs, chainIDs[0])
 	// Add the intermediate certs iff their payload is not nil.
 	i := 0
 	for ; i < len(chain)-1; i++ {
-- 
2.43.0


From 467742c842cf5772ccafea46958392b6cd16b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 38/63] fix: reading an RSA key from data that is not PEM
 crashed

---
 pkg/util/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/util/io.go b/pkg/util/io.go
index d2e4dba..4924b4e 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -107,6 +107,9 @@ func RSAKeyFromPEMFile(keyPath string) (*rsa.PrivateKey, error) {
 func RSAKeyFromPEM(bytes []byte) (*rsa.PrivateKey, error) {
 	block, _ := pem.Decode(bytes)
 	expectType := "RSA PRIVATE KEY"
+	if block == nil {
+		return nil, fmt.Errorf("no PEM block found, expected '%s'", expectType)
+	}
 	if block.Type != expectType {
 		// wrong type.
 		return nil, fmt.Errorf("wrong type. Got '%s' expected '%s'",
-- 
2.43.0


From 36b0983f9f554a28a4443127a31c72d5eae5b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 39/63] fix: PEM data without any certificate was loaded as an
 empty certificate

---
 pkg/util/io.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/util/io.go b/pkg/util/io.go
index 4924b4e..97c71bd 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -65,8 +65,8 @@ func ReadAllGzippedFile(filename string) ([]byte, error) {
 	return buff, r.Close()
 }
 
-// CertificateFromFile uses a CertReader to read just one certificate. It returns nil if no
-// certificate was found. The file must encode the certificate in PEM format.
+// CertificateFromFile uses a CertReader to read just one certificate. It returns nil and
+// an error if no certificate was found. The file must encode the certificate in PEM format.
 func CertificateFromPEMFile(filename string) (*ctx509.Certificate, error) {
 	f, err := os.Open(filename)
 	if err != nil {
@@ -74,11 +74,13 @@ func CertificateFromPEMFile(filename string) (*ctx509.Certificate, error) {
 	}
 	r := NewCertReader(f)
 	certs := make([]ctx509.Certificate, 1)
-	_, err = r.Read(certs)
+	n, err := r.Read(certs)
 	if err != nil {
 		return nil, err
 	}
-	// If no certificate was found, certs[0] will be nil.
+	if n == 0 {
+		return nil, fmt.Errorf("no certificate found in %s", filename)
+	}
 	return &certs[0], nil
 }
 
@@ -86,11 +88,13 @@ func CertificateFromPEMBytes(pem []byte) (*ctx509.Certificate, error) {
 	f := bytes.NewReader(pem)
 	r := NewCertReader(f)
 	certs := make([]ctx509.Certificate, 1)
-	_, err := r.Read(certs)
+	n, err := r.Read(certs)
 	if err != nil {
 		return nil, err
 	}
-	// If no certificate was found, certs[0] will be nil.
+	if n == 0 {
+		return nil, fmt.Errorf("no certificate found")
+	}
 	return &certs[0], nil
 }
 
-- 
2.43.0


From 3781081ddeeffb1a82163c67c79fb8fc34454376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 40/63] fix: loading a CSV row with too few fields crashed

---
 pkg/util/io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util/io.go b/pkg/util/io.go
index 97c71bd..5a504b7 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -187,6 +187,10 @@ func LoadCertsAndChainsFromCSV(
 		if len(fields) == 0 {
 			continue
 		}
+		if len(fields) <= CertChainColumn {
+			errRet = fmt.Errorf("row has only %d fields", len(fields))
+			return
+		}
 
 		cert, err := parseCertFromCSVField(fields[CertificateColumn])
 		if err != nil {
-- 
2.43.0


From 1f3ec5a0657448330155ade929438261b9b37639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 41/63] fix: file names without a dot before their extension
 were taken for certificate files

---
 pkg/util/csv_files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util/csv_files.go b/pkg/util/csv_files.go
index fca367f..8e58806 100644
--- a/pkg/util/csv_files.go
+++ b/pkg/util/csv_files.go
@@ -13,7 +13,7 @@ import (
 )
 
 // gzCsvFilename matches with the name of the gz files is e.g. "0-100005.gz".
-var gzCsvFilename = regexp.MustCompile(`^(\d+)-(\d+).(?:gz|csv)$`)
+var gzCsvFilename = regexp.MustCompile(`^(\d+)-(\d+)\.(?:gz|csv)$`)
 
 func EstimateCertCount(filename string) (uint, error) {
 	indices, err := filenameToIndices(filename)
-- 
2.43.0


From f13ca4e4900bd9ec305728b84e9caa563a333204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 42/63] fix: bundles of other subdirectories were missing in
 the list of files to ingest

---
 cmd/ingest/journal/list_files.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index a87da22..ea75efb 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -22,14 +22,16 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
 			d := filepath.Join(dir, e.Name())
-			gzFiles, err = filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := filepath.Glob(fmt.Sprintf("%s/*.gz", d))
 			if err != nil {
 				return nil, nil, err
 			}
-			csvFiles, err = filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
 			if err != nil {
 				return nil, nil, err
 			}
+			gzFiles = append(gzFiles, gzs...)
+			csvFiles = append(csvFiles, csvs...)
 		} else {
 			gzs, csvs, err := ListCsvFiles(filepath.Join(dir, e.Name()))
 			if err != nil {
-- 
2.43.0


From 86145650c0fa3acbaa47f9a007c935ff635279ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 43/63] fix: ingest directories with pattern characters or read
 errors were listed as empty

---
 cmd/ingest/journal/list_files.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index ea75efb..dc5c258 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -1,7 +1,6 @@
 package journal
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 
@@ -22,11 +21,11 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
 			d := filepath.Join(dir, e.Name())
-			gzs, err := filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := listWithExtension(d, ".gz")
 			if err != nil {
 				return nil, nil, err
 			}
-			csvs, err := filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := listWithExtension(dir, ".csv")
 			if err != nil {
 				return nil, nil, err
 			}
@@ -48,3 +47,19 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 
 	return
 }
+
+// listWithExtension returns the paths of the entries of dir that have the given extension. Other
+// than filepath.Glob, it takes the directory name literally and reports errors reading it.
+func listWithExtension(dir, ext string) ([]string, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+	var names []string
+	for _, e := range entries {
+		if filepath.Ext(e.Name()) == ext {
+			names = append(names, filepath.Join(dir, e.Name()))
+		}
+	}
+	return names, nil
+}
-- 
2.43.0


From d6f8f0207c8080be210b8d5e6abde4edc62201bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 44/63] fix: files of one log were skipped after those of
 another log in the same directory

---
 cmd/ingest/journal/journal.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/ingest/journal/journal.go b/cmd/ingest/journal/journal.go
index a8498a7..5227f4f 100644
--- a/cmd/ingest/journal/journal.go
+++ b/cmd/ingest/journal/journal.go
@@ -659,7 +659,15 @@ func normalizeCompletedFile(file string, ingestDir string) (string, Interval, er
 	if err != nil {
 		return "", Interval{}, err
 	}
-	return filepath.Base(filepath.Clean(ingestDir)), interval, nil
+	ingestDirBase := filepath.Base(filepath.Clean(ingestDir))
+	// The same indices in another subdirectory are those of another log.
+	if rel, err := filepath.Rel(ingestDir, filepath.Dir(file)); err == nil && filepath.IsLocal(rel) {
+		if filepath.Base(rel) == "bundled" {
+			rel = filepath.Dir(rel)
+		}
+		ingestDirBase = filepath.Join(ingestDirBase, rel)
+	}
+	return ingestDirBase, interval, nil
 }
 
 // parseFileInterval extracts an inclusive interval from a bundle filename such
-- 
2.43.0


From 18c05c972ffbc08a32721e997975fdc0bb0e9da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 45/63] fix: the recorded CT log size covered indices before
 the first ingested one

---
 cmd/ingest/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..537460c 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,10 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("first completed index for ingest directory %q is %d instead of 0",
+			ingestDirBase, intervals[0].Start)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From 63cb4e9a0ba4998a6be6564589c0368e34eb5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 46/63] fix: files ingested by an earlier run stayed without
 entries although the full work was requested

---
 cmd/ingest/run.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 537460c..e22477c 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -156,7 +156,21 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 		defer stats.Stop()
 	}
 
-	return ingestFilesInBatches(
+	followUp := func() error {
+		if jobCfg.Coalesce {
+			if err := coalesce(); err != nil {
+				return err
+			}
+		}
+		if jobCfg.UpdateSMT {
+			if err := updateSMT(); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+
+	err = ingestFilesInBatches(
 		ctx,
 		j,
 		stats,
@@ -167,19 +181,30 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 			if err := deps.RunBatch(stats, files); err != nil {
 				return err
 			}
-			if jobCfg.Coalesce {
-				if err := coalesce(); err != nil {
-					return err
-				}
-			}
-			if jobCfg.UpdateSMT {
-				if err := updateSMT(); err != nil {
-					return err
-				}
+			if err := followUp(); err != nil {
+				return err
 			}
 			return j.CommitProgress(files, jobCfg.Coalesce, jobCfg.UpdateSMT)
 		},
 	)
+	if err != nil {
+		return err
+	}
+
+	// Files completed by an earlier run may still lack the phases requested now.
+	job := j.Jobs[len(j.Jobs)-1]
+	if len(job.CompletedIndices) > 0 &&
+		(jobCfg.Coalesce && !job.Coalesced || jobCfg.UpdateSMT && !job.UpdatedSMT) {
+
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+		if err := followUp(); err != nil {
+			return err
+		}
+		return j.CommitProgress(nil, jobCfg.Coalesce, jobCfg.UpdateSMT)
+	}
+	return nil
 }
 
 func ingestFilesInBatches(
-- 
2.43.0


From 1472dc0d5cd9f8b7433bf6bee980807bfa5c80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 47/63] fix: quoted rows without a certificate were accepted by
 the CSV parser

---
 cmd/ingest/fastcsv/fastcsv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ingest/fastcsv/fastcsv.go b/cmd/ingest/fastcsv/fastcsv.go
index d7196b1..2b69d29 100644
--- a/cmd/ingest/fastcsv/fastcsv.go
+++ b/cmd/ingest/fastcsv/fastcsv.go
@@ -153,6 +153,9 @@ func parseRowSlow(rawLine []byte) (ParsedLine, error) {
 	if len(fields) <= CertChainColumn {
 		return ParsedLine{}, fmt.Errorf("too few fields")
 	}
+	if fields[CertificateColumn] == "" {
+		return ParsedLine{}, fmt.Errorf("missing certificate field")
+	}
 	expirationField := fields[len(fields)-1]
 	if expirationField == "" {
 		return ParsedLine{}, fmt.Errorf("missing expiration field")
-- 
2.43.0


From afacbd0a004ce514fa6b0186ac6d159802234909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 48/63] fix: certificates above an already seen parent were
 lost if they were in another chain then

---
 pkg/util/certificate.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 8881fab..93f4c73 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -153,10 +153,9 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	i := 0
 	for ; i < len(chain)-1; i++ {
 		if chain[i] == nil {
-			// This parent has been inserted already in DB. This implies that its own parent,
-			// the grandparent of the leaf, must have been inserted as well; and so on.
-			// There are no more parents to insert.
-			return
+			// This parent has been inserted already in DB. Its own parents may still be missing, if
+			// it was part of another chain then (e.g. if there are cross-signed certificates).
+			continue
 		}
 		certs = append(certs, *chain[i])
 		certIDs = append(certIDs, *chainIDs[i])
-- 
2.43.0


From 1996d5ef0367663281830eaa29e8d5eee7c565cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 49/63] fix: leaf certificates already seen as a parent were
 ingested without their names

---
 cmd/ingest/toChainPtrWorker.go | 6 ++----
 cmd/ingest/toChainWorker.go    | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/cmd/ingest/toChainPtrWorker.go b/cmd/ingest/toChainPtrWorker.go
index 3b77e84..d19bd84 100644
--- a/cmd/ingest/toChainPtrWorker.go
+++ b/cmd/ingest/toChainPtrWorker.go
@@ -69,11 +69,9 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 	p.Manager.Stats.UncachedCerts.Add(1)
 
 	// Get the leaf certificate ID.
+	// Note that the cache contains only certificates that were seen as a parent. Those were sent
+	// without names: even if the leaf is in the cache, it has to be sent again, with its names.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so skip duplicate work and output.
-		return nil, nil
-	}
 	cert, err := ctx509.ParseCertificate(rawBytes)
 	if err != nil {
 		return nil, err
diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 8d3b2ae..9aeeb2c 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -93,11 +93,9 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 	p.Manager.Stats.ReadBytes.Add(int64(len(rawBytes)))
 
 	// Get the leaf certificate ID.
+	// Note that the cache contains only certificates that were seen as a parent. Those were sent
+	// without names: even if the leaf is in the cache, it has to be sent again, with its names.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so avoid reparsing and reinserting it.
-		return nil, nil
-	}
 
 	p.Manager.Stats.UncachedCerts.Add(1)
 
-- 
2.43.0


From a31892f8799cf04cf775464782b80ee52d090ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 50/63] fix: the end of reading a file could be reported for
 the next file

---
 cmd/ingest/csvSplitWorker.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/ingest/csvSplitWorker.go b/cmd/ingest/csvSplitWorker.go
index 4dd0e3c..f6d0e87 100644
--- a/cmd/ingest/csvSplitWorker.go
+++ b/cmd/ingest/csvSplitWorker.go
@@ -87,8 +87,12 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 	}
 
 	r := bufio.NewReader(fileReader)
-	w.lines = make(chan line, cap(w.lines))
-	w.done = make(chan error, 1)
+	// The reading goroutine uses its own variables for the channels: w.lines and w.done are replaced
+	// when the next file is read, which may happen before the goroutine has finished.
+	lines := make(chan line, cap(w.lines))
+	done := make(chan error, 1)
+	w.lines = lines
+	w.done = done
 	go func() {
 		var finalErr error
 		for lineNo := 1; ; lineNo++ {
@@ -122,7 +126,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 					break
 				}
 				// Forward only the compact, ingest-relevant fields to the next stage.
-				w.lines <- line{
+				lines <- line{
 					certField:       parsed.CertField,
 					chainField:      parsed.ChainField,
 					expirationField: parsed.ExpirationField,
@@ -134,7 +138,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				break
 			}
 		}
-		close(w.lines)
+		close(lines)
 		if err := f.Close(); err != nil {
 			if finalErr != nil {
 				finalErr = errors.Join(finalErr, err)
@@ -142,8 +146,8 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				finalErr = err
 			}
 		}
-		w.done <- finalErr
-		close(w.done)
+		done <- finalErr
+		close(done)
 	}()
 
 	return nil
-- 
2.43.0


From 97e408634b857f9bf9e5eee9e7f2f5caba2dd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 51/63] fix: a new fetch from a CT log could receive batches of
 the previous one

A fetch whose batches were not consumed until the end kept running, and read the range and the
channel of the next fetch. Also, a server returning too many or no entries crashed or blocked the
fetcher, and chains with non fatal parsing errors were refused.
---
 pkg/mapserver/logfetcher/httplogfetcher.go | 91 +++++++++++++++++-----
 1 file changed, 70 insertions(+), 21 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a94cb30..51c8b52 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"net/http"
 	"os"
+	"sync/atomic"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -40,7 +41,13 @@ type HttpLogFetcher struct {
 	processBatchSize int64 // We unblock NextBatch in batches of this size.
 	ctClient         *client.LogClient
 	chanResults      chan *result
-	stopping         bool // Set to request the LogFetcher to stop fetching.
+	stopping         atomic.Bool // Set to request the LogFetcher to stop fetching.
+
+	// A fetch runs in the background until it is done, or it is stopped via fetchCancel. It closes
+	// fetchDone when it finishes.
+	fetchCtx    context.Context
+	fetchCancel atomic.Pointer[context.CancelFunc]
+	fetchDone   chan struct{}
 
 	// The chanResults channel is used to obtain results from this fetcher. Each call to NextBatch
 	// pulls one full result from the channel into the currentResult variable. And each call
@@ -104,16 +111,30 @@ func (f *HttpLogFetcher) GetCurrentState(ctx context.Context, lastState State) (
 
 // StartFetching will start fetching certificates in the background, so that there is
 // at most two batches ready to be immediately read by NextBatch.
+// If there is a previous fetch still running (e.g. because its batches were not consumed until the
+// end), it is stopped: the new one must deliver only its own range.
 func (f *HttpLogFetcher) StartFetching(start, end int64) {
+	if f.fetchDone != nil {
+		f.StopFetching()
+		<-f.fetchDone
+	}
+	ctx, cancelF := context.WithCancel(context.Background())
+	f.fetchCtx = ctx
+	f.fetchCancel.Store(&cancelF)
+	f.fetchDone = make(chan struct{})
 	f.chanResults = make(chan *result, preloadCount)
-	f.stopping = false
+	f.stopping.Store(false)
 	f.start = start
 	f.end = end
 	go f.fetch()
 }
 
+// StopFetching requests the background fetch to stop. It doesn't wait for it.
 func (f *HttpLogFetcher) StopFetching() {
-	f.stopping = true
+	f.stopping.Store(true)
+	if cancelF := f.fetchCancel.Load(); cancelF != nil {
+		(*cancelF)()
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved, or error, I.e. if the call to
@@ -163,6 +184,7 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 ) {
 
 	f.StartFetching(start, end)
+	defer f.StopFetching()
 	certs = make([]ctx509.Certificate, 0, end-start+1)
 	chains = make([][]*ctx509.Certificate, 0, end-start+1)
 	for f.NextBatch(ctx) {
@@ -178,11 +200,21 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 		chains = append(chains, bChains...)
 		excluded += uint64(bExcluded)
 	}
-	f.StopFetching()
 	return
 }
 
+// sendResult delivers a result to NextBatch. It returns false if the fetch was stopped.
+func (f *HttpLogFetcher) sendResult(r *result) bool {
+	select {
+	case f.chanResults <- r:
+		return true
+	case <-f.fetchCtx.Done():
+		return false
+	}
+}
+
 func (f *HttpLogFetcher) fetch() {
+	defer close(f.fetchDone)
 	defer close(f.chanResults)
 
 	if f.start > f.end {
@@ -198,13 +230,12 @@ func (f *HttpLogFetcher) fetch() {
 		end := min(f.end, start+f.processBatchSize-1)
 		n, err := f.getRawEntriesInBatches(leafEntries, start, end)
 		if err != nil {
-			f.chanResults <- &result{
+			f.sendResult(&result{
 				err: err,
-			}
+			})
 			return // Don't continue processing when errors.
 		}
-		if f.stopping {
-			f.stopping = false // We are handling the stop now.
+		if f.stopping.Load() {
 			return
 		}
 		certEntries := make([]ctx509.Certificate, n)
@@ -214,9 +245,9 @@ func (f *HttpLogFetcher) fetch() {
 			index := start + int64(i)
 			raw, err := ct.RawLogEntryFromLeaf(index, &leaf)
 			if err != nil {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			// Certificate.
@@ -224,9 +255,9 @@ func (f *HttpLogFetcher) fetch() {
 			// Accept the same certificates as CT logs, i.e., don't be too restrictive in terms of
 			// which certificates to reject (i.e., allow for non-fatal parsing/validation errors)
 			if ctx509.IsFatal(err) {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			certEntries[i] = *cert
@@ -234,18 +265,20 @@ func (f *HttpLogFetcher) fetch() {
 			chainEntries[i] = make([]*ctx509.Certificate, len(raw.Chain))
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
-				if err != nil {
-					f.chanResults <- &result{
+				if ctx509.IsFatal(err) {
+					f.sendResult(&result{
 						err: err,
-					}
+					})
 					return
 				}
 			}
 		}
 		// Send the result.
-		f.chanResults <- &result{
+		if !f.sendResult(&result{
 			certs:  certEntries,
 			chains: chainEntries,
+		}) {
+			return
 		}
 	}
 }
@@ -264,7 +297,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 	// TODO(juagargi) should we align the calls to serverBatchSize
 	batchCount := (end - start + 1) / f.serverBatchSize
 
-	if f.stopping {
+	if f.stopping.Load() {
 		return 0, nil
 	}
 	// Do batches.
@@ -277,7 +310,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return i * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopping.Load() {
 			return i*f.serverBatchSize + n, nil
 		}
 		assert(n == f.serverBatchSize, "bad size in getRawEntriesInBatches")
@@ -293,7 +326,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return batchCount * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopping.Load() {
 			return remStart + n, nil
 		}
 		assert(n == remEnd-remStart+1, "bad remainder size in getRawEntriesInBatches")
@@ -302,6 +335,14 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 	return end - start + 1, nil
 }
 
+// requestContext is the context of the requests to the server.
+func (f *HttpLogFetcher) requestContext() context.Context {
+	if f.fetchCtx == nil {
+		return context.Background()
+	}
+	return f.fetchCtx
+}
+
 // getRawEntries downloads raw entries. It doesn't have a concept of batch size, and  will
 // re-query the server if it didn't return as many entries as requested.
 // The function returns all entries [start,end], both inclusive.
@@ -316,14 +357,22 @@ func (f *HttpLogFetcher) getRawEntries(
 	_ = leafEntries[end-start] // Fail early if the slice is too small.
 
 	for offset := int64(0); offset < end-start+1; {
-		if f.stopping {
+		if f.stopping.Load() {
 			// Requested to stop
 			return 0, nil
 		}
-		rsp, err := f.ctClient.GetRawEntries(context.Background(), start+offset, end)
+		rsp, err := f.ctClient.GetRawEntries(f.requestContext(), start+offset, end)
 		if err != nil {
+			if f.stopping.Load() {
+				return 0, nil
+			}
 			return offset, err
 		}
+		// The server may return less entries than requested, but at least one, and never more.
+		if n := int64(len(rsp.Entries)); n == 0 || n > end-start+1-offset {
+			return offset, fmt.Errorf("the server returned %d entries for the range [%d,%d]",
+				n, start+offset, end)
+		}
 		for i := int64(0); i < int64(len(rsp.Entries)); i++ {
 			e := rsp.Entries[i]
 			leafEntries[offset+i] = e
-- 
2.43.0


From bd9c5029c2c428b112f6cca0b172678b43aa11da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 52/63] fix: errors in local certificate files were not
 reported, or crashed the map server

They are now returned by ReturnNextBatch. Also, a cycle that was aborted left the processing of
its files running, which mixed with the one of the next cycle.
---
 pkg/mapserver/logfetcher/locallogfetcher.go | 160 ++++++++++++--------
 1 file changed, 94 insertions(+), 66 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..de201fb 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -47,7 +46,6 @@ type LocalLogFetcher struct {
 	// reading cvs files
 	certWithChainChan chan *CertWithChainData
 	incomingFileCh    chan util.CsvFile // New files with certificates to be ingested
-	errorCh           chan error        // Errors accumulate here
 
 	processBatchSize int64 // We unblock NextBatch in batches of this size.
 
@@ -57,7 +55,12 @@ type LocalLogFetcher struct {
 	maxIngestionSize uint64
 
 	chanResults chan *result
-	stopping    bool // Set to request the LogFetcher to stop fetching.
+
+	// The goroutines started by Initialize and StartFetching run until all data is delivered, or
+	// until runCancel is called.
+	runCtx    context.Context
+	runCancel context.CancelFunc
+	running   sync.WaitGroup
 
 	inputFiles []*CsvFileInfo
 
@@ -97,13 +100,16 @@ func NewLocalLogFetcher(url, folder string, csvIngestionMaxRows uint64) (*LocalL
 
 func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 	// reset current time for removing expired certificates
+	// (stop first a previous run whose batches were not consumed until the end)
+	f.StopFetching()
+	f.running.Wait()
 	f.now = updateStartTime
 
 	// reset values
+	f.runCtx, f.runCancel = context.WithCancel(context.Background())
 	f.chanResults = make(chan *result, preloadCount)
 	f.incomingFileCh = make(chan util.CsvFile)
 	f.certWithChainChan = make(chan *CertWithChainData)
-	f.errorCh = make(chan error)
 
 	// find all csv files
 	gzFiles, csvFiles, err := listFiles(f.folder)
@@ -184,7 +190,9 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 	}
 
 	// process the requested files in a separate go routine
+	f.running.Add(1)
 	go func() {
+		defer f.running.Done()
 		for _, entry := range requestedFiles {
 			fmt.Printf("Processing Certificate File %s\n", entry)
 			if entry.isGzipped {
@@ -197,9 +205,33 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 	}()
 }
 
+// StopFetching requests the background processing to stop. It doesn't wait for it.
 func (f *LocalLogFetcher) StopFetching() {
-	// TODO: abort csv fetching/parsing if this value is set to true
-	f.stopping = true
+	if f.runCancel != nil {
+		f.runCancel()
+	}
+}
+
+// sendFile, sendCert and sendResult pass data to the next step, unless the fetcher is stopped.
+func (f *LocalLogFetcher) sendFile(file util.CsvFile) {
+	select {
+	case f.incomingFileCh <- file:
+	case <-f.runCtx.Done():
+	}
+}
+
+func (f *LocalLogFetcher) sendCert(data *CertWithChainData) {
+	select {
+	case f.certWithChainChan <- data:
+	case <-f.runCtx.Done():
+	}
+}
+
+func (f *LocalLogFetcher) sendResult(r *result) {
+	select {
+	case f.chanResults <- r:
+	case <-f.runCtx.Done():
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved or false if no further batches
@@ -239,7 +271,7 @@ func (f *LocalLogFetcher) ReturnNextBatch() (
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.GzFile{}).WithFile(filename)
+		p.sendFile((&util.GzFile{}).WithFile(filename))
 	}
 }
 
@@ -247,26 +279,26 @@ func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addCsvFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.UncompressedFile{}).WithFile(filename)
+		p.sendFile((&util.UncompressedFile{}).WithFile(filename))
 	}
 }
 
 // processFile processes any File.
 // This stage is responsible of parsing the data into X509 certificates and chains.
+// If there is an error it is delivered to the caller of NextBatch.
 func (p *LocalLogFetcher) processFile(f util.CsvFile) {
 	r, err := f.Open()
-	if err != nil {
-		p.errorCh <- err
-		return
-	}
-	// ingestWithCSV will send data to the cert with chain channel
-	if err := p.ingestWithCSV(r); err != nil {
-		p.errorCh <- err
-		return
+	if err == nil {
+		// ingestWithCSV will send data to the cert with chain channel
+		err = p.ingestWithCSV(r)
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
 	}
-	if err := f.Close(); err != nil {
-		p.errorCh <- err
-		return
+	if err != nil {
+		p.sendResult(&result{
+			err: fmt.Errorf("processing file %s: %w", f.Filename(), err),
+		})
 	}
 }
 
@@ -282,32 +314,35 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		// First avoid even parsing already expired certs.
 		n, err := getExpiration(fields)
 		if err != nil {
-			return err
+			return fmt.Errorf("at line %d: %w", lineNo, err)
 		}
 		if p.now.After(time.Unix(n, 0)) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendCert(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
 		// From this point on, we need to parse the certificate.
+		if len(fields) <= CertChainColumn {
+			return fmt.Errorf("at line %d: not enough columns (%d)", lineNo, len(fields))
+		}
 		rawBytes, err := base64.StdEncoding.DecodeString(fields[CertificateColumn])
 		if err != nil {
-			return err
+			return fmt.Errorf("at line %d: %w", lineNo, err)
 		}
 		certID := common.SHA256Hash32Bytes(rawBytes)
 		cert, err := ctx509.ParseCertificate(rawBytes)
-		if err != nil {
-			return err
+		if ctx509.IsFatal(err) {
+			return fmt.Errorf("at line %d: %w", lineNo, err)
 		}
 
 		if p.now.After(cert.NotAfter) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendCert(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
@@ -324,17 +359,17 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			id := common.SHA256Hash32Bytes(rawBytes)
 			// Not seen before, push it to the DB.
 			chain[i], err = ctx509.ParseCertificate(rawBytes)
-			if err != nil {
+			if ctx509.IsFatal(err) {
 				return fmt.Errorf("at line %d: %s\n%s", lineNo, err, fields[CertChainColumn])
 			}
 			chainIDs[i] = &id
 		}
-		p.certWithChainChan <- &CertWithChainData{
+		p.sendCert(&CertWithChainData{
 			Cert:          *cert,
 			CertID:        &certID,
 			ChainPayloads: chain,
 			ChainIDs:      chainIDs,
-		}
+		})
 		return nil
 	}
 
@@ -342,8 +377,14 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		lineNo int
 		fields []string
 	}
+	records, err := reader.ReadAll()
+	if err != nil {
+		return err
+	}
 	recordsChan := make(chan *lineAndFields)
 
+	var parseErr error // The first error of any parser.
+	var onceErr sync.Once
 	wg := sync.WaitGroup{}
 	wg.Add(NumParsers)
 	for r := 0; r < NumParsers; r++ {
@@ -351,15 +392,11 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			defer wg.Done()
 			for x := range recordsChan {
 				if err := parseFunction(x.fields, x.lineNo); err != nil {
-					panic(err)
+					onceErr.Do(func() { parseErr = err })
 				}
 			}
 		}()
 	}
-	records, err := reader.ReadAll()
-	if err != nil {
-		return err
-	}
 	for lineNo, fields := range records {
 		if len(fields) == 0 { // there exist empty lines (e.g. at the end of the gz files)
 			continue
@@ -371,7 +408,7 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 	}
 	close(recordsChan)
 	wg.Wait()
-	return nil
+	return parseErr
 }
 
 // getExpiration returns the expiration time in seconds. It is stored already in seconds on the
@@ -394,16 +431,26 @@ func getExpiration(fields []string) (int64, error) {
 }
 
 func (l *LocalLogFetcher) processIncomingFiles() {
+	l.running.Add(2)
 	// Process files and parse the CSV contents:
 	go func() {
+		defer l.running.Done()
 		// Spawn a fixed number of file readers.
 		wg := sync.WaitGroup{}
 		wg.Add(NumFileReaders)
 		for r := 0; r < NumFileReaders; r++ {
 			go func() {
 				defer wg.Done()
-				for f := range l.incomingFileCh {
-					l.processFile(f)
+				for {
+					select {
+					case f, ok := <-l.incomingFileCh:
+						if !ok {
+							return
+						}
+						l.processFile(f)
+					case <-l.runCtx.Done():
+						return
+					}
 				}
 			}()
 		}
@@ -416,6 +463,7 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 
 	// Process the parsed content into the DB, and from DB into SMT:
 	go func() {
+		defer l.running.Done()
 		var currentSize int64 = 0
 		var r *result = &result{}
 		for data := range l.certWithChainChan {
@@ -427,44 +475,18 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 				r.chains = append(r.chains, data.ChainPayloads)
 			}
 			if currentSize >= l.processBatchSize {
-				l.chanResults <- r
+				l.sendResult(r)
 				currentSize = 0
 				r = &result{}
 			}
 		}
 		if currentSize > 0 {
-			l.chanResults <- r
+			l.sendResult(r)
 			currentSize = 0
 			r = &result{}
 		}
 		close(l.chanResults)
-
-		// There is no more processing to do, close the errors channel and allow the
-		// error processor to finish.
-		close(l.errorCh)
 	}()
-
-	go func() {
-		// Print errors and return error if there was any error printed:
-		l.processErrorChannel()
-	}()
-}
-
-// processErrorChannel outputs the errors it encounters in the errors channel.
-// Returns with error if any is found, or nil if no error.
-func (p *LocalLogFetcher) processErrorChannel() error {
-	var errorsFound bool
-	for err := range p.errorCh {
-		if err == nil {
-			continue
-		}
-		errorsFound = true
-		fmt.Fprintf(os.Stderr, "%s\n", err)
-	}
-	if errorsFound {
-		return fmt.Errorf("errors found while processing. See above")
-	}
-	return nil
 }
 
 func getGzFileChain(stateMap map[int64][]*CsvFileInfo, start int64) []*CsvFileInfo {
@@ -493,6 +515,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 			if err != nil {
 				return nil, err
 			}
+			if end < start {
+				return nil, fmt.Errorf("bad range of indices in file name %s", path)
+			}
 			return &CsvFileInfo{
 				path:      path,
 				isGzipped: isGzipped,
@@ -507,6 +532,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 // listFiles recursively finds all .csv and .gz files located in the given folder (or any subfolder)
 func listFiles(dir string) (gzFiles, csvFiles []*CsvFileInfo, err error) {
 	err = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
 		if !d.IsDir() {
 			gzFile, err := getFileInfo(path, d.Name(), true)
 			if err != nil {
-- 
2.43.0


From 0af853c29aec233aa91772d57eb99c37a38e2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 53/63] fix: the error when obtaining the progress of an update
 was reported as nil

---
 pkg/mapserver/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index e6c551b..b8496f8 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -177,7 +177,7 @@ func (u *MapUpdater) UpdateNextBatch(ctx context.Context) (int, error) {
 	logUrl, origIndex, currentIndex, maxIndex, realMaxIndex, progressErr := u.GetProgress(ctx)
 
 	if progressErr != nil {
-		err = fmt.Errorf("error printing progress information: %s", err)
+		err = fmt.Errorf("error printing progress information: %w", progressErr)
 	} else {
 		fmt.Printf("Batch with size %d (%d excluded) updated in %.2fs (%.2fs verifying, %.2fs inserting); log %s progress: (current %d [%.0f%%], target %d, real %d) at %s\n", n, excludedCerts, totalTime, verificationTime, insertionTime, logUrl, currentIndex, 100.0*(float64(currentIndex)-float64(origIndex))/(float64(maxIndex)-float64(origIndex)), maxIndex, realMaxIndex, getTime())
 	}
-- 
2.43.0


From 67f89540302dae64d462b13e74468b7f750ef91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 54/63] fix: one malformed inclusion proof made valid ones be
 rejected, a missing one crashed the verifier

---
 pkg/logverifier/verifier.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/logverifier/verifier.go b/pkg/logverifier/verifier.go
index 15377c7..0ff6459 100644
--- a/pkg/logverifier/verifier.go
+++ b/pkg/logverifier/verifier.go
@@ -84,19 +84,25 @@ func (c *LogVerifier) VerifyRoot(trusted *types.LogRootV1, newRoot *types.LogRoo
 func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHash []byte,
 	proofs []*trillian.Proof) error {
 
+	if trustedRoot == nil {
+		return fmt.Errorf("VerifyInclusionByHash() error: trustedRoot == nil")
+	}
+
 	// As long as one proof is verified, the verification is successful.
 	// Proofs might contain multiple proofs for different leaves, while the content of each leaf
 	// is identical. Trillian will return all the proofs for one content.
 	// So one successful verification is enough.
+	var unexpectedErr error
 	for _, proof := range proofs {
-		err := logProof.VerifyInclusion(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
-			leafHash, proof.Hashes, trustedRoot.RootHash)
+		err := logProof.VerifyInclusion(c.hasher, uint64(proof.GetLeafIndex()), trustedRoot.TreeSize,
+			leafHash, proof.GetHashes(), trustedRoot.RootHash)
 
 		if err == nil {
 			return nil
 		}
 		if _, ok := err.(logProof.RootMismatchError); !ok {
-			return fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", err)
+			// The next proofs could still be valid.
+			unexpectedErr = err
 		}
 
 		// deleteme, err := logProof.RootFromInclusionProof(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
@@ -106,6 +112,9 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 		// }
 		// fmt.Printf("deleteme calcRoot = %s\n", base64.StdEncoding.EncodeToString(deleteme))
 	}
+	if unexpectedErr != nil {
+		return fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", unexpectedErr)
+	}
 	// This is a logProof.RootMismatchError, aka different hash values.
 	return fmt.Errorf("verification failed: different hashes")
 }
-- 
2.43.0


From 588e923aa1837e9f051c703d396ee4334f9e0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 55/63] fix: adding no leaves crashed the policy log client,
 and a leaf was always reported as failed

---
 pkg/policylog/client/concurrentfunc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 3f7dfb2..379a090 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -97,7 +97,10 @@ func (c *LogClient) AddLeaves(ctx context.Context, data [][]byte) *addLeavesResu
 	// init result
 	result := &addLeavesResult{
 		Errs:         []error{},
-		FailedLeaves: [][]byte{{}},
+		FailedLeaves: [][]byte{},
+	}
+	if len(data) == 0 {
+		return result
 	}
 
 	// channels to workers
@@ -248,6 +251,9 @@ func (c *LogClient) FetchInclusions(ctx context.Context, leavesData [][]byte) *f
 	// init result
 	fetchInclusionResult := new(fetchInclusionResult)
 	fetchInclusionResult.PoIs = make(map[string]*PoIAndSTH)
+	if len(leavesData) == 0 {
+		return fetchInclusionResult
+	}
 
 	workChan := make(chan string)
 	resultChan := make(chan fetchInclusionResultFromWorker)
-- 
2.43.0


From 0998217bc58ef80ce6a2f3e16b22aa4255b4c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 56/63] fix: responses of the log server without proof or log
 root crashed the policy log client, or made it retry forever

---
 pkg/policylog/client/concurrentfunc.go | 10 +++++++---
 pkg/policylog/client/logclient.go      |  8 +++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 379a090..6c1ac59 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -200,6 +200,11 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 			// get result
 			resp, err := worker.GetInclusionProofByHash(ctx, request)
 
+			// a successful response should have proofs; without them, the leaf was not found
+			if err == nil && len(resp.GetProof()) == 0 {
+				err = status.Error(codes.NotFound, "response without proofs")
+			}
+
 			// if the leaf is not found -> try later
 			if err != nil && status.Code(err) == codes.NotFound {
 				// if retry for 10 times, return error
@@ -219,15 +224,14 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 				resultChan <- *workerResult
 				break workerQueryLoop
 
-				// normally, proof will > 0, except for when there is only one leaf in the log; ignore this situation
-			} else if len(resp.Proof) > 0 {
+			} else {
 				// init poiAndSTH
 				poiAndSTH := new(PoIAndSTH)
 				// when query succeeds
 				poiAndSTH.PoIs = resp.Proof
 
 				// marshall the log root (Signed Tree Head)
-				if err := poiAndSTH.STH.UnmarshalBinary(resp.SignedLogRoot.LogRoot); err != nil {
+				if err := poiAndSTH.STH.UnmarshalBinary(resp.GetSignedLogRoot().GetLogRoot()); err != nil {
 					workerResult.err = err
 					workerResult.failedLeafData = []byte(leafData)
 					resultChan <- *workerResult
diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 94a6fe2..bfd797c 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -106,7 +106,7 @@ func (c *LogClient) GetCurrentLogRoot(ctx context.Context) (*types.LogRootV1, er
 	}
 
 	var root types.LogRootV1
-	if err := root.UnmarshalBinary(logRootResp.SignedLogRoot.LogRoot); err != nil {
+	if err := root.UnmarshalBinary(logRootResp.GetSignedLogRoot().GetLogRoot()); err != nil {
 		return nil, fmt.Errorf("GetCurrentLogRoot | UnmarshalBinary: %w", err)
 	}
 	return &root, nil
@@ -137,6 +137,12 @@ func (c *LogClient) GetConsistencyProof(ctx context.Context, trusted *types.LogR
 		return nil, fmt.Errorf("GetConsistencyProof | %w", err)
 	}
 
+	if resp.GetProof() == nil {
+		// The log server answers without a proof if its tree is smaller than the new root.
+		return nil, fmt.Errorf("GetConsistencyProof | no proof between tree sizes %d and %d",
+			trusted.TreeSize, newRoot.TreeSize)
+	}
+
 	return resp.Proof.Hashes, nil
 }
 
-- 
2.43.0


From ae7a1c8a2b1186af10ee089f74b1828a9bdb0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 57/63] fix: the policy log client returned inclusion proofs
 that do not belong to the log root returned with them

---
 pkg/policylog/client/concurrentfunc.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 6c1ac59..1b2d10b 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	base64 "encoding/base64"
+	"fmt"
 	"time"
 
 	"github.com/google/trillian"
@@ -238,6 +239,21 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 					break workerQueryLoop
 				}
 
+				// The proofs are those of the requested tree size, but the log root is the latest
+				// one. If the log has changed since, get the proofs that belong to this log root.
+				if rootSize := int64(poiAndSTH.STH.TreeSize); rootSize != request.TreeSize {
+					if tries > 10 {
+						workerResult.err = fmt.Errorf("proofs for tree size %d, but log root for %d",
+							request.TreeSize, rootSize)
+						workerResult.failedLeafData = []byte(leafData)
+						resultChan <- *workerResult
+						break workerQueryLoop
+					}
+					request.TreeSize = rootSize
+					tries = tries + 1
+					continue
+				}
+
 				workerResult.PoI = poiAndSTH
 				workerResult.err = nil
 
-- 
2.43.0


From 5a95a77adb56549b489bece5c57cc3771d6e6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 58/63] fix: queueing an RPC that the log had already, or while
 the log grew otherwise, waited forever

---
 pkg/policylog/client/concurrentfunc.go | 15 +++++++++++++--
 pkg/policylog/client/logclient.go      | 20 +++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 1b2d10b..8efc9c4 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -28,6 +28,7 @@ import (
 // result from worker; only for internal use
 type addLeavesResultFromWorker struct {
 	leafData []byte
+	existing bool // the log already has this leaf, and will not grow
 	err      error
 }
 
@@ -35,6 +36,8 @@ type addLeavesResultFromWorker struct {
 type addLeavesResult struct {
 	FailedLeaves [][]byte
 	Errs         []error
+	// how many of the leaves were already in the log
+	NumOfExistingLeaves int
 }
 
 // result from worker; only for internal use
@@ -75,8 +78,8 @@ func worker_addLeaf(ctx context.Context, worker trillian.TrillianLogClient, work
 		leaf := buildLeaf([]byte(leafData))
 
 		// add the leaf to the server
-		// response is not important, so ignore it
-		_, err := worker.QueueLeaf(ctx, &trillian.QueueLeafRequest{
+		// from the response, only the status is important
+		resp, err := worker.QueueLeaf(ctx, &trillian.QueueLeafRequest{
 			LogId: treeId,
 			Leaf:  leaf,
 		})
@@ -86,6 +89,8 @@ func worker_addLeaf(ctx context.Context, worker trillian.TrillianLogClient, work
 		if err != nil {
 			result.leafData = []byte(leafData)
 			result.err = err
+		} else {
+			result.existing = codes.Code(resp.GetQueuedLeaf().GetStatus().GetCode()) == codes.AlreadyExists
 		}
 
 		// return the result (err)
@@ -140,6 +145,9 @@ send_receive_loop:
 				result.Errs = append(result.Errs, workerResult.err)
 				result.FailedLeaves = append(result.FailedLeaves, workerResult.leafData)
 			}
+			if workerResult.existing {
+				result.NumOfExistingLeaves = result.NumOfExistingLeaves + 1
+			}
 
 			resultCounter = resultCounter + 1
 		}
@@ -154,6 +162,9 @@ send_receive_loop:
 				result.Errs = append(result.Errs, workerResult.err)
 				result.FailedLeaves = append(result.FailedLeaves, workerResult.leafData)
 			}
+			if workerResult.existing {
+				result.NumOfExistingLeaves = result.NumOfExistingLeaves + 1
+			}
 
 			resultCounter = resultCounter + 1
 			if resultCounter == dataSize {
diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index bfd797c..97b9fb8 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -14,10 +14,6 @@ import (
 	"github.com/transparency-dev/merkle/rfc6962"
 )
 
-// TODO(yongzhe, CRITICAL): Around line 183, the func will wait forever, if one identical leaf is added to the trillian
-// Possible cause: Trillian will update the identical leaf, rather than add a new one... So the tree size will not grow
-// To Be Solved Later...
-
 // what will a LogCLient do?
 // 1. Add leaves to the log
 // 2. Get the inclusion proof for one leaf
@@ -156,6 +152,13 @@ func (c *LogClient) GetConsistencyProof(ctx context.Context, trusted *types.LogR
 func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	queueRPCResult := &QueueRPCResult{}
 
+	// record previous tree size
+	err := c.UpdateTreeSize(ctx)
+	if err != nil {
+		return nil, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
+	}
+	prevTreeSize := c.currentTreeSize
+
 	// read RPC from files
 	data, err := c.readRPCFromFileToBytes()
 	if err != nil {
@@ -178,16 +181,15 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	fmt.Println("queue leaves succeed!")
 	fmt.Println(elapsed)
 
-	// record previous tree size
-	prevTreeSize := c.currentTreeSize
-
-	// wait for the leaves to be added to the log (BUG FOUND!!!!!!)
+	// wait for the leaves to be added to the log; leaves that the log had already do not make it
+	// grow, but other clients could
+	newLeaves := queueRPCResult.NumOfSucceedAddedLeaves - addLeavesErrors.NumOfExistingLeaves
 	for {
 		err = c.UpdateTreeSize(ctx)
 		if err != nil {
 			return queueRPCResult, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
 		}
-		if c.currentTreeSize == prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
+		if c.currentTreeSize >= prevTreeSize+int64(newLeaves) {
 			break
 		}
 		// wait 50 ms before next query
-- 
2.43.0


From 35f68de82097e3712ae7843e33471d87c51a1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 59/63] fix: RPC files were deleted although their RPCs were
 not queued, errors of adding leaves were not returned

---
 pkg/policylog/client/logclient.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 97b9fb8..e475336 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -175,6 +175,7 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	// process the errors from AddLeaves()
 	queueRPCResult.NumOfSucceedAddedLeaves = leafNum - len(addLeavesErrors.Errs)
 	queueRPCResult.FailToAddLeaves = addLeavesErrors.FailedLeaves
+	queueRPCResult.AddLeavesErrs = addLeavesErrors.Errs
 
 	// calculate time
 	elapsed := time.Since(start)
@@ -240,9 +241,11 @@ func (c *LogClient) readRPCFromFileToBytes() ([][]byte, error) {
 		}
 
 		data = append(data, bytes)
+	}
 
-		// delete rpc
-		os.Remove(filaPath)
+	// delete the rpcs, only once all of them were read
+	for _, fileName := range fileNames {
+		os.Remove(c.config.PolicyLogExchangePath + "/rpc/" + fileName.Name())
 	}
 	return data, nil
 }
-- 
2.43.0


From 2083e61296e2f44cc4a4569b7624661c065229e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 60/63] fix: stop the API listener when its context ends, and
 let it return only when the shutdown is complete

The listener was only stopped by Shutdown. The context passed to it (cancelled on SIGTERM
and SIGINT by the mapserver command) was ignored, so the command panicked instead of ending.
After a failed start the goroutine waiting for Shutdown remained, and consumed the request
meant for a later listener. Listen returned while requests were still in progress, so that
the command ended before answering them.
---
 pkg/mapserver/mapserver.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index 88e443c..706165c 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -181,10 +181,23 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 	}
 	// chanErr will hold the error from the Listen call.
 	chanErr := make(chan error)
+	// noServer is closed when there is no server to shutdown, and shutdownDone when the goroutine
+	// in charge of it has finished.
+	noServer := make(chan struct{})
+	shutdownDone := make(chan struct{})
 	go func() {
 		// Spawn a goroutine to shutdown the HTTP server.
 		go func() {
-			<-s.apiStopServerChan
+			defer close(shutdownDone)
+			select {
+			case <-s.apiStopServerChan:
+			case <-ctx.Done():
+			case <-noServer:
+				return
+			}
+			// Let the requests in progress finish, also if the context is already cancelled.
+			ctx, cancelF := context.WithTimeout(context.WithoutCancel(ctx), s.WriteTimeout)
+			defer cancelF()
 			server.Shutdown(ctx)
 		}()
 		// This call blocks
@@ -196,6 +209,10 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 		}
 	}()
 	err := <-chanErr
+	if err != http.ErrServerClosed {
+		close(noServer)
+	}
+	<-shutdownDone
 	// If the error happened because we stopped the server, ignore it.
 	if err == http.ErrServerClosed {
 		err = nil
-- 
2.43.0


From ca1faa6dc1b0a5b93c45bec37c8ed1583331d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 61/63] fix: gRPC server stops serving when asked to terminate,
 and reports serving errors

---
 pkg/grpc/grpcserver/grpcserver.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/grpc/grpcserver/grpcserver.go b/pkg/grpc/grpcserver/grpcserver.go
index 6cad7ee..82e16c7 100644
--- a/pkg/grpc/grpcserver/grpcserver.go
+++ b/pkg/grpc/grpcserver/grpcserver.go
@@ -80,9 +80,17 @@ func (server *ResponderServer) StartWork(terminateChan chan byte, port int) erro
 	pb.RegisterMapResponderServer(s, server)
 	log.Printf("server listening at %v", lis.Addr())
 
-	go s.Serve(lis)
-
-	_ = <-terminateChan
-
-	return nil
+	served := make(chan error, 1)
+	go func() {
+		served <- s.Serve(lis)
+	}()
+
+	select {
+	case <-terminateChan:
+		// Stop listening, and finish the requests in progress.
+		s.GracefulStop()
+		return nil
+	case err := <-served:
+		return err
+	}
 }
-- 
2.43.0


From fdaf47861d331fa4ae6aeddf8e9b8d36b3d333a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 62/63] fix: the database could not be reached with a port and
 no password, or with certain users, hosts and socket paths

The DSN was parsed as a URL, which it is not.
---
 pkg/db/mysql/init.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index c4dd379..f9f5f30 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"net/url"
+	"strings"
 	"time"
 
 	_ "github.com/go-sql-driver/mysql"
@@ -81,16 +82,22 @@ func parseDSN(config *db.Configuration) string {
 }
 
 func connect(config *db.Configuration) (*sql.DB, error) {
-	dsn, err := url.Parse(config.Dsn)
-	if err != nil {
-		return nil, fmt.Errorf("bad connection string: %w", err)
-	}
-	uri := dsn.Query()
+	// The DSN is not a URL: user, password, host and path are used as they are.
+	dsn := config.Dsn
+	values := url.Values{}
 	for k, v := range config.Values {
-		uri.Add(k, v)
+		values.Add(k, v)
+	}
+	if len(values) > 0 {
+		// The parameters come after the DB name, which follows the last slash.
+		if strings.Contains(dsn[strings.LastIndex(dsn, "/")+1:], "?") {
+			dsn += "&"
+		} else {
+			dsn += "?"
+		}
+		dsn += values.Encode()
 	}
-	dsn.RawQuery = uri.Encode()
-	return sql.Open("mysql", dsn.String())
+	return sql.Open("mysql", dsn)
 }
 
 func checkSchema(c *sql.DB) error {
-- 
2.43.0


From bae98055d4c67c8d67d25d71cfbeaccec10b10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 63/63] fix: keep the index order of sequential inputs when one
 of them closes

WithSequentialInputs promises to read the channels in index order, wrapping
around; removing a closed channel moved the last one to its position.
---
 pkg/pipeline/stage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index ca6fee0..ef28c3a 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -846,8 +846,8 @@ func (s *Stage[IN, OUT]) readIncomingSequentially() chan IN {
 			if !ok {
 				DebugPrintf("[%s] aggregated input: channel index %d: %s closed\n",
 					s.Name, debugIndex, chanPtr(inChannels[i]))
-				// This incoming channel was closed.
-				util.RemoveElemFromSlice(&inChannels, i)
+				// This incoming channel was closed. Keep the order of the remaining ones.
+				inChannels = append(inChannels[:i], inChannels[i+1:]...)
 				if len(inChannels) == 0 { // no more open channels, break out of loop.
 					break
 				}
-- 
2.43.0

