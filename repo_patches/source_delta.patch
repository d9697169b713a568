From f401e3c2b6c41c9f6d84af5f9ad78020cfd9d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 01/28] fix: report deterministic-tag proof creation errors
 from the workers

The worker tested the shared err (nil) instead of its own tmpErr, so a failed
proof was silently published as an empty one.
---
 lib/deterministic_tag/deterministic_tag_proofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..24ba1c1 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -102,7 +102,7 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(vBef)); j++ {
 				proofAux, tmpErr := DeterministicTagCrProofCreation(vBef[i+j], vAft[i+j], K, k, s)
-				if err != nil {
+				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
 					mutex.Unlock()
-- 
2.43.0


From ed118450d6cd2b3e3c8f31ac04da1a90fa9a3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 02/28] fix: build deterministic-tag proofs with the secrets in
 their proper roles

The protocols handed the survey secret where the private key is expected (and
vice versa), so every proof they produced was rejected by the verifier.
---
 protocols/deterministic_tagging_protocol.go | 2 +-
 protocols/shuffling+ddt_protocol.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index a457f8c..9817672 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -310,7 +310,7 @@ func sendingDet(p DeterministicTaggingProtocol, detTarget DeterministicTaggingMe
 func TaggingDet(cv *libunlynx.CipherVector, privKey, secretContrib kyber.Scalar, pubKey kyber.Point, proofs bool) error {
 	switchedVect := libunlynxdetertag.DeterministicTagSequence(*cv, privKey, secretContrib)
 	if proofs {
-		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, secretContrib, privKey)
+		_, err := libunlynxdetertag.DeterministicTagCrListProofCreation(*cv, switchedVect, pubKey, privKey, secretContrib)
 		if err != nil {
 			return err
 		}
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 369d0ac..7faad04 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -238,7 +238,7 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 				vBef := shuffledData[i+j]
 				vAft := libunlynxdetertag.DeterministicTagSequence(vBef, p.Private(), *p.SurveySecretKey)
 				if p.Proofs {
-					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), *p.SurveySecretKey, p.Private())
+					_, tmpErr := libunlynxdetertag.DeterministicTagCrListProofCreation(vBef, vAft, p.Public(), p.Private(), *p.SurveySecretKey)
 					if tmpErr != nil {
 						mutex.Lock()
 						err = tmpErr
-- 
2.43.0


From 733802575a9083403fb3415b946b0d1e164da3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 03/28] fix: check the error recorded by the tagging workers of
 shuffling+ddt

---
 protocols/shuffling+ddt_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 7faad04..ca66755 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -251,6 +251,9 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 		}(i)
 	}
 	wg.Wait()
+	if err != nil {
+		return err
+	}
 	libunlynx.EndTimer(step3)
 
 	var taggedData []libunlynx.DeterministCipherVector
-- 
2.43.0


From 99a56e6adc99119e882f570433f1e0b52f7fc62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 04/28] fix: prove every deterministic-tag addition, not only
 the first of each chunk

Each worker reused the first element of its chunk for all the proofs of the chunk.
---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 24ba1c1..b9b7758 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -209,10 +209,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -221,7 +221,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
+		}(i)
 
 	}
 	wg.Wait()
-- 
2.43.0


From dc6bd80167092e2b7e3b2523ec3f19f7f5f11f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 05/28] fix: compare points by value in the deterministic-tag
 addition verification

reflect.DeepEqual compares the internal (projective) representation, so a
valid proof whose points were decoded from bytes was rejected.
---
 lib/deterministic_tag/deterministic_tag_proofs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index b9b7758..5a0262b 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -248,7 +247,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	partProof = true
 
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return partProof && cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From 2f8c26c9b6cdb0e50c32cfa7bd3f33a038bc3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 06/28] fix: do not crash the server when a protocol instance
 fails

The failure handler read the message of another, nil, error variable.
---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index dddecc0..d14fe01 100644
--- a/services/service.go
+++ b/services/service.go
@@ -606,12 +606,12 @@ func (s *Service) StartProtocol(name string, targetSurvey SurveyID) (onet.Protoc
 
 	go func(pname string) {
 		if tmpErr := pi.Dispatch(); tmpErr != nil {
-			log.Error("Error running Dispatch ->" + name + " :" + err.Error())
+			log.Error("Error running Dispatch ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 	go func(pname string) {
 		if tmpErr := pi.Start(); tmpErr != nil {
-			log.Error("Error running Start ->" + name + " :" + err.Error())
+			log.Error("Error running Start ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 
-- 
2.43.0


From 292d02ef01cd856c94609a90e899b5f81bb5854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 07/28] fix: verify only the requested share of the add/rm
 proofs

The result list has nbrProofsToVerify entries but all proofs were visited, so
any percent below 1 crashed with an index out of range.
---
 lib/add_rm/add_rm_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..681b766 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -133,11 +133,11 @@ func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) b
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
-- 
2.43.0


From 19c3a5adc522bba10c2ec12f25bc6816495ecb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 08/28] fix: do not publish an add/rm result whose proofs do
 not verify

---
 protocols/utils/addrm_server_protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 9fbcc91..a9e6751 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -81,7 +81,9 @@ func (p *AddRmServerProtocol) Start() error {
 	if p.Proofs && len(proofs.List) == 0 {
 		return fmt.Errorf("something went wrong during the creation of the add/rm proofs")
 	}
-	libunlynxaddrm.AddRmListProofVerification(proofs, 1.0)
+	if !libunlynxaddrm.AddRmListProofVerification(proofs, 1.0) {
+		return fmt.Errorf("the add/rm proofs did not verify")
+	}
 
 	libunlynx.EndTimer(roundProof)
 
-- 
2.43.0


From 5ebacc4672e1365c61dabc7813fcc83e040133cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 09/28] fix: release the key-switch proof workers on their
 error path

The workers deferred Done() only after their loop, so a failing proof made the
caller wait forever instead of returning the error.
---
 lib/key_switch/key_switch_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index ff5ae54..213dd40 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -82,10 +82,10 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg1.Add(1)
 		go func(i int) {
+			defer wg1.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				viBs[i+j] = libunlynx.SuiTe.Point().Mul(vis[i+j], libunlynx.SuiTe.Point().Base())
 			}
-			defer wg1.Done()
 		}(i)
 
 	}
@@ -100,6 +100,7 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg2.Add(1)
 		go func(i int, Q kyber.Point, k kyber.Scalar) {
+			defer wg2.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				proofAux, tmpErr := KeySwitchProofCreation(K, Q, k, viBs[i+j], ks2s[i+j], rBNegs[i+j], vis[i+j])
 				if tmpErr != nil {
@@ -110,7 +111,6 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 				}
 				plop.List[i+j] = proofAux
 			}
-			defer wg2.Done()
 		}(i, Q, k)
 
 	}
-- 
2.43.0


From da233bb0a72ea5977a14a809e95b73da6a904ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 10/28] fix: report a predicate that cannot be evaluated
 instead of crashing

A query whose predicate names an unknown variable or is not a condition
panicked the server (nil type assertion); one that does not parse silently
produced an empty result.
---
 services/service.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/services/service.go b/services/service.go
index d14fe01..cdd7d02 100644
--- a/services/service.go
+++ b/services/service.go
@@ -785,7 +785,10 @@ func (s *Service) TaggingPhase(targetSurvey SurveyID) error {
 	if survey.Query.Predicate == "" || len(queryWhereTag) == 0 {
 		filteredResponses = FilterNone(deterministicTaggingResult)
 	} else {
-		filteredResponses = FilterResponses(survey.Query.Predicate, queryWhereTag, deterministicTaggingResult)
+		filteredResponses, err = filterResponses(survey.Query.Predicate, queryWhereTag, deterministicTaggingResult)
+		if err != nil {
+			return err
+		}
 	}
 
 	survey.PushDeterministicFilteredResponses(filteredResponses, s.ServerIdentity().String(), survey.Query.Proofs)
@@ -874,11 +877,20 @@ func (s *Service) KeySwitchingPhase(targetSurvey SurveyID) error {
 
 // FilterResponses evaluates the predicate and keeps the entries that satisfy the conditions
 func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.FilteredResponseDet {
+	result, err := filterResponses(pred, whereQueryValues, responsesToFilter)
+	if err != nil {
+		log.Error(err)
+	}
+	return result
+}
+
+// filterResponses is FilterResponses that reports a predicate which cannot be evaluated
+func filterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) ([]libunlynx.FilteredResponseDet, error) {
 	var result []libunlynx.FilteredResponseDet
 	for _, v := range responsesToFilter {
 		expression, err := govaluate.NewEvaluableExpression(pred)
 		if err != nil {
-			return result
+			return nil, fmt.Errorf("error while parsing the predicate: %v", err)
 		}
 		parameters := make(map[string]interface{}, len(whereQueryValues)+len(responsesToFilter[0].DetTagWhere))
 		counter := 0
@@ -892,12 +904,19 @@ func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 			}
 
 		}
-		keep, err := expression.Evaluate(parameters)
-		if keep.(bool) {
+		value, err := expression.Evaluate(parameters)
+		if err != nil {
+			return nil, fmt.Errorf("error while evaluating the predicate: %v", err)
+		}
+		keep, ok := value.(bool)
+		if !ok {
+			return nil, fmt.Errorf("the predicate is not a condition: %v", value)
+		}
+		if keep {
 			result = append(result, libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: v.PR.GroupByEnc, AggregatingAttributes: v.PR.AggregatingAttributes}})
 		}
 	}
-	return result
+	return result, nil
 }
 
 // FilterNone skips the filtering of attributes when there is no predicate (the number of where attributes == 0)
-- 
2.43.0


From 18ddd4818a42cac81c4b22eab8d62ead66c9ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 11/28] fix: do not send an empty query when the query
 parameters do not parse

---
 cmd/unlynx/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 7709fff..6379df1 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -61,6 +61,7 @@ func runUnLynx(c *cli.Context) {
 	log.ErrFatal(err, "Could not open group toml.")
 
 	sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal, err := parseQuery(el, sum, count, whereQueryValues, predicate, groupBy)
+	log.ErrFatal(err, "Could not parse the query.")
 
 	err = startQuery(el, proofs, sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal)
 	log.ErrFatal(err)
-- 
2.43.0


From 9aa4b7ec1622477321e78810e422edd7eb57476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 12/28] fix: bound the wait for the children's contributions

Collective aggregation and key switching waited forever for a child that
never answers; every other receive of the protocols gives up after TIMEOUT.
---
 protocols/collective_aggregation_protocol.go | 16 ++++++++++------
 protocols/key_switching_protocol.go          | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 12e184d..7eefe53 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -211,13 +211,17 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	roundTotComput := libunlynx.StartTimer(p.Name() + "_CollectiveAggregation(ascendingAggregation)")
 
 	if !p.IsLeaf() {
-		length := make([]cadmbLengthStruct, 0)
-		for _, v := range <-p.LengthNodeChannel {
-			length = append(length, v)
+		var length []cadmbLengthStruct
+		select {
+		case length = <-p.LengthNodeChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <length> on time")
 		}
-		datas := make([]childAggregatedDataBytesStruct, 0)
-		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+		var datas []childAggregatedDataBytesStruct
+		select {
+		case datas = <-p.ChildDataChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <datas> on time")
 		}
 
 		for i, v := range length {
diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a774605..8ae3da5 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -254,14 +254,18 @@ func (p *KeySwitchingProtocol) ascendingKSPhase() (*libunlynx.CipherVector, erro
 	keySwitchingAscendingAggregation := libunlynx.StartTimer(p.Name() + "_KeySwitching(ascendingAggregation)")
 
 	if !p.IsLeaf() {
-		length := make([]LengthStruct, 0)
-		for _, v := range <-p.LengthChannel {
-			length = append(length, v)
+		var length []LengthStruct
+		select {
+		case length = <-p.LengthChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <length> on time")
 		}
 
-		datas := make([]UpBytesStruct, 0)
-		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+		var datas []UpBytesStruct
+		select {
+		case datas = <-p.ChildDataChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <datas> on time")
 		}
 		for i := range length { // len of length is number of children
 			cv := libunlynx.CipherVector{}
-- 
2.43.0


From aa7d85f4bb241fd1e7413ef0fae748af775529a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 13/28] fix: pair each child's data with the lengths of the
 same child

The collective aggregation matched the two messages by arrival order, so with
several children whose contributions differ in size (e.g. one without data) a
contribution was decoded with the lengths of another child, or dropped.
---
 protocols/collective_aggregation_protocol.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 7eefe53..efe035d 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -224,9 +224,19 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <datas> on time")
 		}
 
-		for i, v := range length {
+		// the two messages of a child may arrive in a different order than those of its siblings
+		dataOf := make(map[onet.TreeNodeID]childAggregatedDataBytesStruct)
+		for _, v := range datas {
+			dataOf[v.TreeNode.ID] = v
+		}
+
+		for _, v := range length {
+			data, ok := dataOf[v.TreeNode.ID]
+			if !ok {
+				return nil, fmt.Errorf(p.ServerIdentity().String() + " is missing the data of a child")
+			}
 			childrenContribution := ChildAggregatedDataMessage{}
-			err := childrenContribution.FromBytes(datas[i].Data, v.GacbLength, v.AabLength, v.DtbLength)
+			err := childrenContribution.FromBytes(data.Data, v.GacbLength, v.AabLength, v.DtbLength)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From ce1ba67e553a24054d15a9f351f5bb41d7e18704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 14/28] fix: decode the where tags of a tagged response from
 their own bytes

The upper bound counted the length of the grouping tag twice, so decoding the
encoder's own output ran past the end of the message.
---
 lib/structs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..84939a0 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -412,7 +412,7 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
-- 
2.43.0


From 9c761f859251ccd4a7e13b18de3f949d8eb72660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 15/28] fix: recover grouping values of more than one digit
 from their key

UnKey kept only the last digit of each value.
---
 lib/structs.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 84939a0..c4bfb7d 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -208,19 +208,17 @@ func Key(ga []int64) GroupingKey {
 // UnKey permits to go from a tag non-encrypted grouping attributes to grouping attributes
 func UnKey(gk GroupingKey) ([]int64, error) {
 	tab := make([]int64, 0)
-	count := 0
-	nbrString := make([]string, 1)
+	nbrString := make([]string, 0)
 	for _, a := range gk {
 		if a != ',' {
-			nbrString[0] = string(a)
+			nbrString = append(nbrString, string(a))
 		} else {
 			key, err := strconv.Atoi(strings.Join(nbrString, ""))
 			if err != nil {
 				return nil, err
 			}
 			tab = append(tab, int64(key))
-			nbrString = make([]string, 1)
-			count++
+			nbrString = make([]string, 0)
 		}
 	}
 	return tab, nil
-- 
2.43.0


From 176e578b00c29ebd5839e9277537133946ccd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 16/28] fix: do not overwrite the scalar handed to SplitScalar

The remainder was computed in place, so the caller's key was replaced by the
last share.
---
 lib/crypto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..d4b03ac 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -115,6 +115,7 @@ func GenKeys(n int) (kyber.Point, []kyber.Scalar, []kyber.Point) {
 // The sum of the returned slice of scalars equals the given `rootScalar`
 func SplitScalar(rootScalar kyber.Scalar, nbrSplits int) []kyber.Scalar {
 	allScalars := make([]kyber.Scalar, nbrSplits)
+	rootScalar = rootScalar.Clone()
 	for i := range allScalars {
 		allScalars[i] = RandomScalarSlice(1)[0]
 		rootScalar = rootScalar.Sub(rootScalar, allScalars[i])
-- 
2.43.0


From 3fc597b9f6061f140a01686d07a609bf9fe1a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 17/28] fix: release the decryption table lock when the table
 cannot be extended

The error returns left the lock held and blocked every later decryption.
---
 lib/crypto.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index d4b03ac..2dc03e7 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -325,9 +325,9 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 
 	//check if the point is already in the table
 	mutex.Lock()
+	defer mutex.Unlock()
 	decrypted, ok := PointToInt.Get(P.String())
 	if ok == nil && decrypted != nil {
-		mutex.Unlock()
 		return decrypted.(int64), nil
 	}
 
@@ -372,7 +372,6 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 	}
 	currentGreatestM = guess
 	currentGreatestInt = guessInt
-	mutex.Unlock()
 
 	if !foundPos && !foundNeg {
 		log.Error("out of bound encryption, bound is ", MaxHomomorphicInt)
-- 
2.43.0


From 019b6f3431b59a5fb17220761e5fb417736727a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 18/28] fix: hand the result of the local protocols over within
 the instance

Start and Dispatch exchanged the result through a package-level channel, so
two instances in one process could deliver each other's result.
---
 protocols/utils/addrm_server_protocol.go            | 10 ++++++----
 protocols/utils/local_aggregation_protocol.go       | 10 ++++++----
 protocols/utils/local_clear_aggregation_protocol.go | 10 ++++++----
 protocols/utils/proofs_verification_protocol.go     | 10 ++++++----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index a9e6751..5d62070 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -34,6 +34,9 @@ type AddRmServerProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.CipherText
 
+	// Result handed over from Start to Dispatch
+	finalResult chan []libunlynx.CipherText
+
 	// Protocol state data
 	TargetOfTransformation []libunlynx.CipherText
 	KeyToRm                kyber.Scalar
@@ -46,13 +49,12 @@ func NewAddRmProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
 	pvp := &AddRmServerProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.CipherText),
+		finalResult:      make(chan []libunlynx.CipherText),
 	}
 
 	return pvp, nil
 }
 
-var finalResultAddrm = make(chan []libunlynx.CipherText)
-
 // Start is called at the root to start the execution of the Add/Rm protocol.
 func (p *AddRmServerProtocol) Start() error {
 
@@ -87,7 +89,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAddrm <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -97,7 +99,7 @@ func (p *AddRmServerProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.CipherText
 	select {
-	case finalResultMessage = <-finalResultAddrm:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_aggregation_protocol.go b/protocols/utils/local_aggregation_protocol.go
index 665cb3b..5c8313d 100644
--- a/protocols/utils/local_aggregation_protocol.go
+++ b/protocols/utils/local_aggregation_protocol.go
@@ -23,8 +23,6 @@ func init() {
 // Protocol
 //______________________________________________________________________________________________________________________
 
-var finalResultAggr = make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
-
 // LocalAggregationProtocol is a struct holding the state of a protocol instance.
 type LocalAggregationProtocol struct {
 	*onet.TreeNodeInstance
@@ -32,6 +30,9 @@ type LocalAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 
+	// Result handed over from Start to Dispatch
+	finalResult chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.FilteredResponseDet
 	Proofs              bool
@@ -42,6 +43,7 @@ func NewLocalAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstanc
 	pvp := &LocalAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
+		finalResult:      make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
 	}
 	return pvp, nil
 }
@@ -75,7 +77,7 @@ func (p *LocalAggregationProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAggr <- resultingMap
+	p.finalResult <- resultingMap
 
 	return nil
 }
@@ -86,7 +88,7 @@ func (p *LocalAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 	select {
-	case finalResultMessage = <-finalResultAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_clear_aggregation_protocol.go b/protocols/utils/local_clear_aggregation_protocol.go
index 9e73549..d295bc3 100644
--- a/protocols/utils/local_clear_aggregation_protocol.go
+++ b/protocols/utils/local_clear_aggregation_protocol.go
@@ -29,6 +29,9 @@ type LocalClearAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.DpClearResponse
 
+	// Result handed over from Start to Dispatch
+	finalResult chan []libunlynx.DpClearResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.DpClearResponse
 }
@@ -38,19 +41,18 @@ func NewLocalClearAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolIn
 	pvp := &LocalClearAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.DpClearResponse),
+		finalResult:      make(chan []libunlynx.DpClearResponse),
 	}
 	return pvp, nil
 }
 
-var finalResultClearAggr = make(chan []libunlynx.DpClearResponse)
-
 // Start is called at the root to start the execution of the local clear aggregation.
 func (p *LocalClearAggregationProtocol) Start() error {
 	log.Lvl1(p.ServerIdentity(), "started a local clear aggregation protocol")
 	roundComput := libunlynx.StartTimer(p.Name() + "_LocalClearAggregation(START)")
 	result := libunlynxstore.AddInClear(p.TargetOfAggregation)
 	libunlynx.EndTimer(roundComput)
-	finalResultClearAggr <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -60,7 +62,7 @@ func (p *LocalClearAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.DpClearResponse
 	select {
-	case finalResultMessage = <-finalResultClearAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/proofs_verification_protocol.go b/protocols/utils/proofs_verification_protocol.go
index 7cbf169..67941a3 100644
--- a/protocols/utils/proofs_verification_protocol.go
+++ b/protocols/utils/proofs_verification_protocol.go
@@ -45,6 +45,9 @@ type ProofsVerificationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []bool
 
+	// Result handed over from Start to Dispatch
+	finalResult chan []bool
+
 	// Protocol state data
 	TargetOfVerification ProofsToVerify
 }
@@ -54,13 +57,12 @@ func NewProofsVerificationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInsta
 	pvp := &ProofsVerificationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []bool),
+		finalResult:      make(chan []bool),
 	}
 
 	return pvp, nil
 }
 
-var finalResult = make(chan []bool)
-
 // Start is called at the root to start the execution of the key switching.
 func (p *ProofsVerificationProtocol) Start() error {
 
@@ -101,7 +103,7 @@ func (p *ProofsVerificationProtocol) Start() error {
 	result[5] = libunlynxaggr.AggregationListProofVerification(p.TargetOfVerification.CollectiveAggregationProofs, 1.0)
 	libunlynx.EndTimer(collectiveAggrTime)
 
-	finalResult <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -111,7 +113,7 @@ func (p *ProofsVerificationProtocol) Dispatch() error {
 
 	var finalResultMessage []bool
 	select {
-	case finalResultMessage = <-finalResult:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
-- 
2.43.0


From b16f27834ed24295b5933505ee57a9f1055ab876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 19/28] fix: hand every stored response out once and never
 share its memory

PullDpResponses kept the aggregated clear responses (they were counted again by
the next pull), and the cleared tables kept the backing array of the slice just
handed out, so later insertions overwrote the responses being processed.
---
 lib/store/store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..ca99287 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -113,7 +113,9 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	//clear tables
+	s.DpResponses = nil
+	s.DpResponsesAggr = make(map[GroupingKeyTuple]libunlynx.ProcessResponse)
 	return result
 }
 
@@ -125,7 +127,7 @@ func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libun
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
 	result := s.ShuffledProcessResponses
-	s.ShuffledProcessResponses = s.ShuffledProcessResponses[:0] //clear table
+	s.ShuffledProcessResponses = nil //clear table
 	return result
 }
 
-- 
2.43.0


From 4bb539b5bbc451ccf9e6fba8d48135b47b5771d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 20/28] fix: apply the differential-privacy noise to the
 results

The noise was added to the copy made by range and lost.
---
 lib/store/store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index ca99287..8db0480 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -276,8 +276,8 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 
 	if diffPri {
 		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
+			for i := range v.AggregatingAttributes {
+				v.AggregatingAttributes[i].Add(v.AggregatingAttributes[i], noise)
 			}
 		}
 	}
@@ -297,8 +297,8 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 
 	if diffPri {
 		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
+			for i := range v.AggregatingAttributes {
+				v.AggregatingAttributes[i].Add(v.AggregatingAttributes[i], noise)
 			}
 		}
 	}
-- 
2.43.0


From 73a9015b3d7521cff6ba08107076a75898aebc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 21/28] fix: remember the layout of the shuffled noise in the
 survey

The lengths were set on a local copy of the survey, so the DRO phase read the
shuffled noise with the layout of the data responses.
---
 services/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/services/service.go b/services/service.go
index cdd7d02..77966fa 100644
--- a/services/service.go
+++ b/services/service.go
@@ -534,6 +534,11 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			var toShuffleCV []libunlynx.CipherVector
 			toShuffleCV, survey.Lengths = protocolsunlynx.ProcessResponseToMatrixCipherText(clientResponses)
 			shuffle.ShuffleTarget = &toShuffleCV
+
+			err = s.putSurvey(target, survey)
+			if err != nil {
+				return nil, err
+			}
 		}
 		return pi, nil
 
-- 
2.43.0


From fc5c9939fe5626e81e9cc9238b9b40cd2dc24daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 22/28] fix: guard the stored responses with the store's mutex

The responses of several data providers are inserted by concurrent handlers;
without the lock an append could overwrite another one (a response was lost)
and concurrent writes of the aggregation map crash the server.
---
 lib/store/store.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/store/store.go b/lib/store/store.go
index 8db0480..600f3c4 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -80,6 +80,10 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
+	// several data providers can push their responses at the same time
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
@@ -104,11 +108,15 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 
 // HasNextDpResponse permits to verify if there are new DP responses to be processed.
 func (s *Store) HasNextDpResponse() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	return len(s.DpResponses) > 0
 }
 
 // PullDpResponses permits to get the received DP responses
 func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	result := s.DpResponses
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
@@ -147,6 +155,8 @@ func (s *Store) PushDeterministicFilteredResponses(detFilteredResponses []libunl
 		}
 
 	}
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	if proofsB {
 		for k, v := range cvMap {
 			libunlynxaggr.AggregationListProofCreation(v, s.LocAggregatedProcessResponse[k].AggregatingAttributes)
@@ -158,11 +168,15 @@ func (s *Store) PushDeterministicFilteredResponses(detFilteredResponses []libunl
 
 // HasNextAggregatedResponse verifies the presence of locally aggregated results.
 func (s *Store) HasNextAggregatedResponse() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	return len(s.LocAggregatedProcessResponse) > 0
 }
 
 // PullLocallyAggregatedResponses permits to get the result of the collective and grouped aggregation
 func (s *Store) PullLocallyAggregatedResponses() map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	LocGroupingAggregatingReturn := s.LocAggregatedProcessResponse
 	s.LocAggregatedProcessResponse = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 	return LocGroupingAggregatingReturn
@@ -257,11 +271,15 @@ func (s *Store) PushCothorityAggregatedFilteredResponses(sNew map[libunlynx.Grou
 
 // HasNextAggregatedFilteredResponses verifies that the server has local grouping results (group attributes).
 func (s *Store) HasNextAggregatedFilteredResponses() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	return len(s.GroupedDeterministicFilteredResponses) > 0
 }
 
 // PullCothorityAggregatedFilteredResponses returns the local results of the grouping.
 func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
 	aggregatedResults := make([]libunlynx.FilteredResponse, len(s.GroupedDeterministicFilteredResponses))
 	aggregatedGrps := make([]libunlynx.GroupingKey, len(s.GroupedDeterministicFilteredResponses))
 	count := 0
-- 
2.43.0


From 4ffdc829f379f402e42f16325e978a90a9e858dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 23/28] fix: do not write a stale survey back when data is
 pushed

The responses live in the store shared by all copies of the survey. Writing the
copy back could undo what a concurrent handler had recorded since, e.g. the
querier's public key.
---
 services/service.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/services/service.go b/services/service.go
index 77966fa..d73560b 100644
--- a/services/service.go
+++ b/services/service.go
@@ -220,11 +220,6 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		}
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-	err = s.putSurvey(resp.SurveyID, survey)
-	if err != nil {
-		return err
-	}
-
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
 	return nil
 }
-- 
2.43.0


From 6e66254e050cb08134a76ee588a6ed3d3a09a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 24/28] fix: tie the third point of a deterministic tag proof
 to its ciphertexts

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 5a0262b..a020d47 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -133,6 +133,12 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 	ci2 := prf.CTaft.C
 	ciminus12 := prf.CTbef.C
 
+	// ciminus11Si has to be -s*ciminus11 (= -ci1), otherwise any ci2 could be proved
+	if !prf.Ciminus11Si.Equal(libunlynx.SuiTe.Point().Neg(ci1)) {
+		log.Error("---------Verifier: the proof is not about these ciphertexts")
+		return false
+	}
+
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
-- 
2.43.0


From df87f96c0fb74baeb4040e8afdae837f02155e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 25/28] fix: check both parts of the ciphertexts in an
 add/remove proof

---
 lib/add_rm/add_rm_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 681b766..80fd7e5 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,12 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	// adding or removing a server leaves the first part of the ciphertext as it is
+	if !cp.CtAft.K.Equal(cp.CtBef.K) {
+		log.Error("---------Verifier: the proof is not about these ciphertexts")
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From 2141755106eff89c8db335853a5068eef0f9f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 26/28] fix: derive the challenges of a shuffle proof from all
 the data it is about

---
 lib/shuffle/shuffle_proofs.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..63e6660 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -45,7 +45,11 @@ type PublishedShufflingListProof struct {
 
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
-	e, err := CipherVectorComputeE(h, originalList[0])
+	seed, err := statementSeed(h, originalList, shuffledList)
+	if err != nil {
+		return PublishedShufflingProof{}, err
+	}
+	e, err := CipherVectorComputeE(seed, originalList[0])
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
@@ -137,7 +141,13 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
-	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
+	statement, err := statementSeed(seed, psp.OriginalList, psp.ShuffledList)
+	if err != nil {
+		log.Error(err)
+		log.Lvl1("-----------verify failed (statement)")
+		return false
+	}
+	e, err := CipherVectorComputeE(statement, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
 		log.Lvl1("-----------verify failed (with XhaBar)")
@@ -217,6 +227,23 @@ func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.P
 	return finalResult
 }
 
+// statementSeed derives the seed of the e's from everything that a shuffle proof is about, so that no part of it
+// can be chosen to fit the e's
+func statementSeed(h kyber.Point, originalList, shuffledList []libunlynx.CipherVector) (kyber.Point, error) {
+	statement, err := h.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+	for _, list := range [][]libunlynx.CipherVector{originalList, shuffledList} {
+		data, _, err := libunlynx.ArrayCipherVectorToBytes(list)
+		if err != nil {
+			return nil, err
+		}
+		statement = append(statement, data...)
+	}
+	return libunlynx.SuiTe.Point().Pick(libunlynx.SuiTe.XOF(statement)), nil
+}
+
 // CipherVectorComputeE computes all the e's for a ciphervector based on a seed h
 func CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) ([]kyber.Scalar, error) {
 	var err error
-- 
2.43.0


From c2d35a4efe03100a3a074686cbc6648d8ffa51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 27/28] fix: check the generators of a shuffle proof against
 the collective key

---
 lib/shuffle/shuffle_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 63e6660..f856e2e 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -141,6 +141,12 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	// the proof has to be about a rerandomization under the key it is verified for
+	if !psp.G.Equal(libunlynx.SuiTe.Point().Base()) || !psp.H.Equal(seed) {
+		log.Lvl1("-----------verify failed (wrong key)")
+		return false
+	}
+
 	statement, err := statementSeed(seed, psp.OriginalList, psp.ShuffledList)
 	if err != nil {
 		log.Error(err)
-- 
2.43.0


From 8da08014011f1baacfefa6b0c5b246289989501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 28/28] fix: keep the challenges of equal ciphertexts apart in
 a shuffle proof

---
 lib/shuffle/shuffle_proofs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index f856e2e..c3a287d 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -3,6 +3,7 @@ package libunlynxshuffle
 import (
 	"fmt"
 	"math"
+	"strconv"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -307,6 +308,10 @@ func computeE(index int, cv libunlynx.CipherVector, seed []byte) (kyber.Scalar,
 		return nil, err
 	}
 
+	// the position keeps the e's of equal ciphertexts apart: with the same e, columns could be traded against each other
+	if _, err := randomCipher.Write([]byte(strconv.Itoa(index))); err != nil {
+		return nil, err
+	}
 	if _, err := randomCipher.Write(dataC); err != nil {
 		return nil, err
 	}
-- 
2.43.0

