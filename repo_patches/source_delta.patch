From 31204100d5260a6d5d2451f5fd9284e29a042cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 01/25] fix: reject COSE keys whose curve or modulus has an
 unexpected CBOR type

CoseKeyToX509 asserted the type of the CrvOrN field unchecked, so a received
COSE key carrying any other CBOR type there panicked instead of being refused.
---
 core/shared/signing.cose.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/signing.cose.go b/core/shared/signing.cose.go
index 74b743c..089c185 100644
--- a/core/shared/signing.cose.go
+++ b/core/shared/signing.cose.go
@@ -71,9 +71,15 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 
 			xy := append(x, y...)
 			rawPublicKey = append([]byte{0x04}, xy...)
-			algId = cosePubKey.CrvOrN.(CoseAlg)
+			algId, ok = cosePubKey.CrvOrN.(CoseAlg)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Curve is not a COSE curve identifier")
+			}
 		case CoseRSA:
-			rawPublicKey = cosePubKey.CrvOrN.([]byte)
+			rawPublicKey, ok = cosePubKey.CrvOrN.([]byte)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. RSA modulus is not a byte string")
+			}
 			algId = cosePubKey.Alg
 		case CoseOKP:
 			return nil, errors.New("unsupported COSE key type: OKP")
-- 
2.43.0


From ef8ddf845a682571efd948e791709e566849b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 02/25] fix: refuse a voucher whose header has no device
 certificate chain hash

Validate dereferenced the optional OVDevCertChainHash of the header unchecked,
so a voucher that carries a certificate chain but a null hash panicked instead
of being refused.
---
 core/shared/voucher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index 5af3094..af9dc13 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -71,6 +71,10 @@ func (h OwnershipVoucher) Validate() error {
 		return errors.New("OVDeviceInfo is empty")
 	}
 
+	if ovHeader.OVDevCertChainHash == nil {
+		return errors.New("OVDevCertChainHash is missing")
+	}
+
 	ovDevCertChainCert, err := ComputeOVDevCertChainHash(*h.OVDevCertChain, ovHeader.OVDevCertChainHash.Type)
 	if err != nil {
 		return errors.New("could not compute OVDevCertChain hash ")
-- 
2.43.0


From 7efe56cddfd26028efd93c10c9b097c7537d0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:53 +0000
Subject: [PATCH 03/25] fix: AES-CCM-16-128 suites use the key length their
 name and algorithm state

---
 core/shared/enc.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 7009d77..73b79ce 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -105,7 +105,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA256,
 		HashAlg:    HASH_SHA256,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 32,
+		SevkLength: 16,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
@@ -115,7 +115,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 16,
+		SevkLength: 32,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
-- 
2.43.0


From 2b3b92fe0875b12e336aba2b9c660f14eaed94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:56 +0000
Subject: [PATCH 04/25] fix: reject encrypted messages without an algorithm or
 with a missing or wrong length IV

---
 core/shared/enc.crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 73b79ce..72378dd 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -371,11 +371,14 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *innerProtected.Alg != int(algInfo.CryptoAlg) {
+	if innerProtected.Alg == nil || *innerProtected.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := inner.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or wrong length IV")
+	}
 
 	block, err := aes.NewCipher(sek)
 	if err != nil {
@@ -490,11 +493,14 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *protectedHeader.Alg != int(algInfo.CryptoAlg) {
+	if protectedHeader.Alg == nil || *protectedHeader.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := embInst.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or wrong length nonce")
+	}
 
 	block, err := aes.NewCipher(sevk)
 	if err != nil {
-- 
2.43.0


From 42172b0272def65db6615a525003c2f7916c6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 05/25] fix: refuse an encrypt-then-MAC message naming another
 MAC algorithm than the suite's

---
 core/shared/enc.crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 72378dd..22e87d8 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -334,6 +334,10 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 
 	algInfo := CipherSuitesInfoMap[cipherSuite]
 
+	if outerProtected.Alg == nil || *outerProtected.Alg != int(algInfo.HmacAlg) {
+		return nil, errors.New("error! HMAC algorithms don't match")
+	}
+
 	svksek, err := Sp800108CounterKDF(algInfo.SekLen+algInfo.SvkLen, algInfo.KdfHmacAlg, sessionKeyInfo.ShSe, sessionKeyInfo.ContextRand)
 	if err != nil {
 		return nil, errors.New("Error generating SVK/SEK! " + err.Error())
-- 
2.43.0


From 2bf7ce2bbc95d14c175c931a1204f6c4e051edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 06/25] fix: return an error for a message too long for AES-CCM
 rather than panic

---
 core/shared/enc.crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 22e87d8..41f5589 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -457,6 +457,10 @@ func encryptEMB(plaintext []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 			return []byte{}, errors.New("Error generating new CCM instance. " + err.Error())
 		}
 
+		if len(plaintext) > aesccm.MaxLength() {
+			return nil, errors.New("Error encoding EMB: message is too long for the cipher suite")
+		}
+
 		ciphertext = aesccm.Seal(nil, nonceIvBytes, plaintext, aadBytes)
 
 	default:
-- 
2.43.0


From 78f21cfcf3d1e7047464ed3278c6045c84336cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 07/25] fix: encode long AES-CCM associated data lengths as RFC
 3610 section 2.2 defines

---
 core/shared/ccm/ccm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/shared/ccm/ccm.go b/core/shared/ccm/ccm.go
index 6589546..3b2ea24 100644
--- a/core/shared/ccm/ccm.go
+++ b/core/shared/ccm/ccm.go
@@ -144,12 +144,13 @@ func (c *ccm) tag(nonce, plaintext, adata []byte) ([]byte, error) {
 		if n <= 0xfeff {
 			binary.BigEndian.PutUint16(block[:i], uint16(n))
 		} else {
-			block[0] = 0xfe
-			block[1] = 0xff
+			block[0] = 0xff
 			if n < uint64(1<<32) {
+				block[1] = 0xfe
 				i = 2 + 4
 				binary.BigEndian.PutUint32(block[2:i], uint32(n))
 			} else {
+				block[1] = 0xff
 				i = 2 + 8
 				binary.BigEndian.PutUint64(block[2:i], n)
 			}
-- 
2.43.0


From b3e72e096459896d79e3d4e4ee675e3028561470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 08/25] fix: keep the expiry of sessions when they are updated

---
 core/do/dbs/session.db.go | 3 ++-
 core/rv/session.db.go     | 3 ++-
 dbs/session.db.go         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 47dcc1a..c2e40d6 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -110,7 +110,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10)
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a6d5173..821909b 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -65,7 +65,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10)
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/dbs/session.db.go b/dbs/session.db.go
index 44a8f8f..1741005 100644
--- a/dbs/session.db.go
+++ b/dbs/session.db.go
@@ -79,7 +79,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(MAX_SESSION_TIME)
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From 7cdc37b834853f48c6c8931a3f33b05f7b8aed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:00 +0000
Subject: [PATCH 09/25] fix: report an unknown protocol session as an error

---
 core/do/dbs/session.db.go | 4 +++-
 core/rv/session.db.go     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index c2e40d6..62bbbee 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -1,7 +1,9 @@
 package dbs
 
 import (
+	"encoding/hex"
 	"errors"
+	"fmt"
 	"time"
 
 	"github.com/dgraph-io/badger/v4"
@@ -132,7 +134,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, fmt.Errorf("The session entry with id %s does not exist", hex.EncodeToString(entryId))
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index 821909b..26da496 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -1,7 +1,9 @@
 package rv
 
 import (
+	"encoding/hex"
 	"errors"
+	"fmt"
 	"time"
 
 	"github.com/dgraph-io/badger/v4"
@@ -87,7 +89,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, fmt.Errorf("The session entry with id %s does not exist", hex.EncodeToString(entryId))
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
-- 
2.43.0


From 8aa11fd9a5681d9c61c711759d658e70229661e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:46 +0000
Subject: [PATCH 10/25] fix: hand out no test when none is scheduled for the
 expected message

---
 core/shared/testcom/listener/listenert.db.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 48661db..10772d9 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -119,11 +119,16 @@ func (h *RequestListenerRunnerInst) GetNextTestID() testcom.FDOTestID {
 		return testcom.NULL_TEST
 	}
 
-	selectedTestID := h.Tests[h.ExpectedCmd][h.CurrentTestIndex]
+	scheduledTests := h.Tests[h.ExpectedCmd]
+	if h.CurrentTestIndex < 0 || h.CurrentTestIndex >= len(scheduledTests) {
+		return testcom.NULL_TEST
+	}
+
+	selectedTestID := scheduledTests[h.CurrentTestIndex]
 
 	h.LastTestID = selectedTestID
 
-	if h.CurrentTestIndex+1 < len(h.Tests[h.ExpectedCmd]) {
+	if h.CurrentTestIndex+1 < len(scheduledTests) {
 		h.CurrentTestIndex = h.CurrentTestIndex + 1
 	}
 
-- 
2.43.0


From 6606c60881ae275cc38596ca240a5786c5f11f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:46 +0000
Subject: [PATCH 11/25] fix: remove a completed listener run from the history
 as well

---
 core/shared/testcom/listener/listenert.db.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 10772d9..6b120a7 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -93,10 +93,10 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	var newList []ListenerTestRun = []ListenerTestRun{}
 
-	if h.CurrentTestRun.Uuid == id {
+	isCurrent := h.CurrentTestRun.Uuid == id
+	if isCurrent {
 		h.CurrentTestRun = ListenerTestRun{}
 		h.Running = false
-		return nil
 	}
 
 	for _, testRun := range h.TestRunHistory {
@@ -105,7 +105,7 @@ func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 		}
 	}
 
-	if len(newList) == len(h.TestRunHistory) {
+	if !isCurrent && len(newList) == len(h.TestRunHistory) {
 		return fmt.Errorf("Error removing test run for %s. Not found", id)
 	}
 
-- 
2.43.0


From 6de44137e0e8ee54f9180d9788ce0d9322206aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 12/25] fix: do nothing for a test record that cannot be read

---
 core/shared/testcom/dbs/reqt.db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 3b5e4e0..39cc282 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -125,6 +125,7 @@ func (h *RequestTestDB) StartNewRun(rvteid []byte) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
@@ -143,6 +144,7 @@ func (h *RequestTestDB) FinishRun(rvteid []byte) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	rvte.InProgress = false
@@ -159,6 +161,7 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	rvte.CurrentTestRun.Tests[testID] = testResult
@@ -174,6 +177,7 @@ func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
-- 
2.43.0


From efba3653c7a7e57558b77d2bda1c60166a906b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 13/25] fix: report a result into its own run's history entry
 only

---
 core/shared/testcom/dbs/reqt.db.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 39cc282..ec6b78c 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -164,8 +164,16 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 		return
 	}
 
+	if rvte.CurrentTestRun.Tests == nil {
+		rvte.CurrentTestRun.Tests = reqtestsdeps.RequestTestResultMap{}
+	}
+
 	rvte.CurrentTestRun.Tests[testID] = testResult
-	rvte.TestsHistory[0] = rvte.CurrentTestRun
+
+	// The run may have been removed from the history while its tests were executing
+	if len(rvte.TestsHistory) != 0 && rvte.TestsHistory[0].Uuid == rvte.CurrentTestRun.Uuid {
+		rvte.TestsHistory[0] = rvte.CurrentTestRun
+	}
 
 	err = h.Save(*rvte)
 	if err != nil {
-- 
2.43.0


From 9434dfe8d84c89fff6431045d472224747325783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 14/25] fix: ECDH key exchange encodes coordinates and shared
 value with fixed length

Values with leading zero bytes produced exchange messages the other side
refuses or misreads, and a shared secret of the wrong length.
---
 core/shared/kex.crypto.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index a42017b..40c84fb 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -158,12 +158,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 32))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 32))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -192,12 +192,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 48))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 48))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -305,7 +305,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 32)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
@@ -350,7 +350,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 48)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
-- 
2.43.0


From 64e1069d056783194d09569eb328575b2db1148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 15/25] fix: refuse malformed ECDH key-exchange messages

A point off the curve aborted the message handling with a runtime panic, and
messages with other length prefixes were read at the wrong offsets.
---
 core/shared/kex.crypto.go | 42 +++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 40c84fb..b830d8f 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -245,6 +245,22 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 	}
 }
 
+// checkECDHKeyExchange checks the length and the length prefixes of an ECDH exchange message
+func checkECDHKeyExchange(msg []byte, coordinateLen int, randomLen int) error {
+	expectedLen := 2 + coordinateLen + 2 + coordinateLen + 2 + randomLen
+	if len(msg) != expectedLen {
+		return fmt.Errorf("unexpected length. Expected %d bytes long", expectedLen)
+	}
+
+	if int(binary.BigEndian.Uint16(msg)) != coordinateLen ||
+		int(binary.BigEndian.Uint16(msg[2+coordinateLen:])) != coordinateLen ||
+		int(binary.BigEndian.Uint16(msg[2+coordinateLen+2+coordinateLen:])) != randomLen {
+		return errors.New("unexpected length of a coordinate or random")
+	}
+
+	return nil
+}
+
 func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, ownerPrivateKey interface{}) (*SessionKeyInfo, error) {
 	switch kexA.KexSuit {
 	case KEX_DHKEXid14, KEX_DHKEXid15:
@@ -268,9 +284,12 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		}, nil
 
 	case KEX_ECDH256:
-		expectedLen := 2 + 32 + 2 + 32 + 2 + KEX_ECDH256_RANDOM_LEN
-		if len(xBKeyExchange) != expectedLen {
-			return nil, fmt.Errorf("unexpected xBKeyExchange for ECDH256 length. Expected %d bytes long", expectedLen)
+		if err := checkECDHKeyExchange(xBKeyExchange, 32, KEX_ECDH256_RANDOM_LEN); err != nil {
+			return nil, fmt.Errorf("invalid xBKeyExchange for ECDH256: %s", err.Error())
+		}
+
+		if err := checkECDHKeyExchange(kexA.XAKeyExchange, 32, KEX_ECDH256_RANDOM_LEN); err != nil {
+			return nil, fmt.Errorf("invalid xAKeyExchange for ECDH256: %s", err.Error())
 		}
 
 		deviceX := xBKeyExchange[2:34]
@@ -283,6 +302,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("invalid xBKeyExchange for ECDH256: the point is not on the curve")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:34]
 		ownerY := kexA.XAKeyExchange[36:68]
 		xaRandom := kexA.XAKeyExchange[70:86]
@@ -313,9 +336,12 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		}, nil
 
 	case KEX_ECDH384:
-		expectedLen := 2 + 48 + 2 + 48 + 2 + KEX_ECDH384_RANDOM_LEN
-		if len(xBKeyExchange) != expectedLen {
-			return nil, fmt.Errorf("unexpected xBKeyExchange for ECDH384 length. Expected %d bytes long", expectedLen)
+		if err := checkECDHKeyExchange(xBKeyExchange, 48, KEX_ECDH384_RANDOM_LEN); err != nil {
+			return nil, fmt.Errorf("invalid xBKeyExchange for ECDH384: %s", err.Error())
+		}
+
+		if err := checkECDHKeyExchange(kexA.XAKeyExchange, 48, KEX_ECDH384_RANDOM_LEN); err != nil {
+			return nil, fmt.Errorf("invalid xAKeyExchange for ECDH384: %s", err.Error())
 		}
 
 		deviceX := xBKeyExchange[2:50]
@@ -328,6 +354,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("invalid xBKeyExchange for ECDH384: the point is not on the curve")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:50]
 		ownerY := kexA.XAKeyExchange[52:100]
 		xaRandom := kexA.XAKeyExchange[102:150]
-- 
2.43.0


From c8d6fb701311d024b5c2ae0b06aef1ac202c5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 16/25] fix: report an unreadable Diffie-Hellman private key as
 an error

---
 core/shared/kex.crypto.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index b830d8f..762624d 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -265,9 +265,15 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 	switch kexA.KexSuit {
 	case KEX_DHKEXid14, KEX_DHKEXid15:
 		privKeyStruct := DHKexPrivateKey{}
-		privKeyStruct.UnmarshalCbor(kexA.Private)
+		err := privKeyStruct.UnmarshalCbor(kexA.Private)
+		if err != nil {
+			return nil, fmt.Errorf("error decoding private key for KEX_DHKEX id14/id15. %s", err.Error())
+		}
 
 		dhkxPrivKeyA := privKeyStruct.GetDHKEXPrivateKeyInst()
+		if dhkxPrivKeyA.Group == nil {
+			return nil, errors.New("unknown group for KEX_DHKEX id14/id15")
+		}
 
 		// Recover Bob's public key
 		dhkxBPubKey := dhkx.NewPublicKey(xBKeyExchange)
-- 
2.43.0


From 865121240b0e790414b408eba2308d1a0e1baf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 17/25] fix: asymmetric key exchange with a key that is not RSA
 is an error, not a panic

---
 core/shared/kex.crypto.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 762624d..1fb2be2 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -426,8 +426,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 		return nil, errors.New("error parsing PKIX X509 Public Key. " + err.Error())
 	}
 
+	rsaPubKey, ok := pubKeyInst.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("error wrapping OAEP. The public key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pubKeyInst.(*rsa.PublicKey), message, []byte{})
+	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, rsaPubKey, message, []byte{})
 	if err != nil {
 		return nil, errors.New("error wrapping OAEP. " + err.Error())
 	}
@@ -436,8 +441,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 }
 
 func UnwrapOAEP(ciphertext []byte, privateKeyInterface interface{}) ([]byte, error) {
+	rsaPrivateKey, ok := privateKeyInterface.(*rsa.PrivateKey)
+	if !ok {
+		return nil, errors.New("error unwrapping OAEP. The private key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	message, err := rsa.DecryptOAEP(hash, rand.Reader, privateKeyInterface.(*rsa.PrivateKey), ciphertext, []byte{})
+	message, err := rsa.DecryptOAEP(hash, rand.Reader, rsaPrivateKey, ciphertext, []byte{})
 	if err != nil {
 		return nil, errors.New("error unwrapping OAEP. " + err.Error())
 	}
-- 
2.43.0


From 8d60f082e30c8e9dee614c36f1a33b0a8ee45271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 18/25] fix: a device proof without setup nonce, or a voucher
 without device certificates, is an error, not a panic

---
 core/do/to2/listener-to2-64-ProveDevice.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d188dcb..0c727ca 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -75,6 +75,16 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if session.Voucher.OVDevCertChain == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Voucher has no device certificate chain", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
+	if proveDevice64.Unprotected.EUPHNonce == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Missing EUPHNonce unprotected header", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	err = fdoshared.VerifyCoseSignatureWithCertificate(proveDevice64, pkType, *session.Voucher.OVDevCertChain)
 	if err != nil {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Error validating cose signature with certificate..."+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-- 
2.43.0


From acd918822a5b12f7dac17f34e0b7fd75d24239c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 19/25] fix: refuse to serve a voucher with more entries than
 can be announced and requested

---
 core/do/to2/listener-to2-60-HelloDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index f969d04..bf2d2fe 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -93,6 +93,11 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 
 	// Generating response
 	NumOVEntries := len(voucherDBEntry.Voucher.OVEntryArray)
+	if NumOVEntries > MAX_NUM_OVENTRIES {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Voucher has too many entries...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	proveOVHdrPayload := fdoshared.TO2ProveOVHdrPayload{
 		OVHeader:            voucherDBEntry.Voucher.OVHeaderTag,
 		NumOVEntries:        uint8(NumOVEntries),
-- 
2.43.0


From 63f7289ae64f4d8aa399b98e8e5735166f3becc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 20/25] fix: a completed TO2 session accepts no further
 messages

---
 core/do/to2/listener-to2-70-Done.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index de702bd..3a4cf79 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -18,7 +18,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_70_DONE
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
-	session, _, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
+	session, sessionId, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
 	if err != nil {
 		return
 	}
@@ -98,6 +98,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
+	// Onboarding is completed, the session takes no further messages
+	session.PrevCMD = fdoshared.TO2_71_DONE2
+	err = h.session.UpdateSessionEntry(sessionId, *session)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error saving session..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
 		testcomListener.To2.PushSuccess()
 		testcomListener.To2.CompleteTestRun()
-- 
2.43.0


From ee2a39f2de6cfbc20e0812c353d0fc3e6f6af0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 21/25] fix: an undecodable TO2 done message gets one error
 answer

---
 core/do/to2/listener-to2-70-Done.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 3a4cf79..c62aa7b 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -57,12 +57,8 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-		if testcomListener != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
-		}
-
 		log.Println("Done70: Error decoding request..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode body!", http.StatusBadRequest)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
-- 
2.43.0


From 7f9ae4d8254a99fb8872a664b9a9352d814dc764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 22/25] fix: an incomplete owner token mapping is an error, not
 a panic

---
 core/do/to2/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 3761735..5c73823 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -66,6 +66,10 @@ func (h *DoTo2) getEnvInteropSimsMapping() (map[fdoshared.FdoGuid]string, error)
 		}
 
 		for _, mapping := range envMappings {
+			if len(mapping) < 2 {
+				return nil, fmt.Errorf("owner token mapping needs a GUID and a token, found %d elements", len(mapping))
+			}
+
 			guidBytes, err := hex.DecodeString(mapping[0])
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 9ff5e8219ac31b774ba66232b2254024f198c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 23/25] fix: name the test in the verdict of an unsupported TO2
 device test

---
 core/device/to2/to2-common.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/device/to2/to2-common.go b/core/device/to2/to2-common.go
index 65c7765..463cb00 100644
--- a/core/device/to2/to2-common.go
+++ b/core/device/to2/to2-common.go
@@ -70,9 +70,6 @@ func (h *To2Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 		return testcom.ExpectAnyFdoError(bodyBytes, fdoTestID, fdoshared.MESSAGE_BODY_ERROR, httpStatusCode)
 
 	default:
-		return testcom.FDOTestState{
-			Passed: false,
-			Error:  "Unsupported test " + string(fdoTestID),
-		}
+		return testcom.NewFailTestState(fdoTestID, "Unsupported test "+string(fdoTestID))
 	}
 }
-- 
2.43.0


From 3dc347c5fa795eac1fdc7e0061b3cde4e25d787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 24/25] fix: refuse an owner's TO2 answer without owner key or
 nonce instead of crashing

---
 core/device/to2/req-to2-60-HelloDevice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 91e67c0..ba42f4a 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -60,6 +60,10 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 
 	// Signature verification
 	probableOwnerPubKey := proveOVHdr61.Unprotected.CUPHOwnerPubKey
+	if probableOwnerPubKey == nil || proveOVHdr61.Unprotected.CUPHNonce == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing owner public key or nonce")
+	}
+
 	err = fdoshared.VerifyCoseSignature(proveOVHdr61, *probableOwnerPubKey)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 54d236d936858b4fd966389b02499f3bdeb780b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 25/25] fix: accept valueless boolean rendezvous instructions
 and refuse undecodable values

---
 core/shared/rvinfo.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index 3490d60..78c096a 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -113,11 +113,13 @@ func (h *RendezvousDirective) Validate() error {
 			return fmt.Errorf("boolean key (%d) has non-nil value", instr.Key)
 		}
 
-		// Is valid cbor
-		var v interface{}
-		err := CborCust.Unmarshal(instr.Value, &v)
-		if err != nil {
-			return fmt.Errorf("error decoding RVInstr (%d) value. %s", instr.Key, err.Error())
+		// Is valid cbor. Boolean keys have no value
+		if !instr.Key.IsBoolean() {
+			var v interface{}
+			err := CborCust.Unmarshal(instr.Value, &v)
+			if err != nil {
+				return fmt.Errorf("error decoding RVInstr (%d) value. %s", instr.Key, err.Error())
+			}
 		}
 
 		recordedKeys[instr.Key]++
@@ -241,7 +243,10 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVOwnerOnly = true
 		case RVIPAddress:
 			var ipAddressBytes []byte
-			CborCust.Unmarshal(instr.Value, &ipAddressBytes)
+			err = CborCust.Unmarshal(instr.Value, &ipAddressBytes)
+			if err != nil {
+				break
+			}
 
 			ipv4addr, err := FdoIPAddressFromBytes(ipAddressBytes)
 			if err != nil {
@@ -251,42 +256,46 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVIPAddresses = append(rvib.RVIPAddresses, ipv4addr)
 		case RVDevPort:
 			rvib.RVDevPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVDevPort)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVDevPort)
 		case RVOwnerPort:
 			rvib.RVOwnerPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVOwnerPort)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVOwnerPort)
 		case RVDns:
 			rvib.RVDns = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVDns)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVDns)
 		case RVSvCertHash:
 			rvib.RVSvCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVSvCertHash)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVSvCertHash)
 		case RVClCertHash:
 			rvib.RVClCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVClCertHash)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVClCertHash)
 		case RVUserInput:
 			rvib.RVUserInput = true
 		case RVWifiSsid:
 			rvib.RVWifiSsid = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiSsid)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVWifiSsid)
 		case RVWifiPw:
 			rvib.RVWifiPw = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiPw)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVWifiPw)
 		case RVMedium:
 			rvib.RVMedium = new(RVMediumValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVMedium)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVMedium)
 		case RVProtocol:
 			rvib.RVProtocol = new(RVProtocolValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVProtocol)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVProtocol)
 		case RVDelaysec:
 			rvib.RVDelaysec = new(uint32)
-			CborCust.Unmarshal(instr.Value, rvib.RVDelaysec)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVDelaysec)
 		case RVBypass:
 			rvib.RVBypass = true
 		case RVExtRV:
 			rvib.RVExtRV = new([]interface{})
-			CborCust.Unmarshal(instr.Value, rvib.RVExtRV)
+			err = CborCust.Unmarshal(instr.Value, rvib.RVExtRV)
+
+		}
 
+		if err != nil {
+			return rvib, fmt.Errorf("error decoding RVInstr (%d) value. %s", instr.Key, err.Error())
 		}
 	}
 
-- 
2.43.0

