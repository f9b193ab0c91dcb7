From e9832fc09468e2cc4f3b8fb36f67be4931420576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 01/52] fix: read KV messages in full, reject truncated input
 and accept a trailing empty value

---
 encoding/binary/decode.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..3f5650f 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -26,8 +26,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
@@ -58,16 +58,29 @@ func (d *Decoder) decode(v interface{}) error {
 	return nil
 }
 
+// readFull fills the whole buffer or fails, message that ends too early is never accepted.
+func (d *Decoder) readFull(b []byte) error {
+	if _, err := io.ReadFull(d.r, b); err != nil {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
+
+		return err
+	}
+
+	return nil
+}
+
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if err := d.readFull(sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if err := d.readFull(str); err != nil {
 		return "", err
 	}
 
@@ -131,7 +144,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 		}
 
 		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		if err := d.readFull(b); err != nil {
 			return err
 		}
 
@@ -193,7 +206,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if err := d.readFull(sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +229,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if err := d.readFull(allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 2a32f7be682e2f6b15a71a7d2d188adab13b96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 02/52] fix: bound the memory taken for a KV binary value by
 the data received

---
 encoding/binary/decode.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 3f5650f..c9c6347 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -71,6 +71,25 @@ func (d *Decoder) readFull(b []byte) error {
 	return nil
 }
 
+// readBytes reads exactly size bytes. The size is provided by remote side, so the buffer grows only
+// with the data that was really received.
+func (d *Decoder) readBytes(size uint64) ([]byte, error) {
+	if size > maxStringLen {
+		return nil, errors.New(fmt.Sprintf("binary value is too big: %d", size))
+	}
+
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, d.r, int64(size)); err != nil {
+		if err == io.EOF {
+			return nil, io.ErrUnexpectedEOF
+		}
+
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
+}
+
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
@@ -143,8 +162,8 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if err := d.readFull(b); err != nil {
+		b, err := d.readBytes(size)
+		if err != nil {
 			return err
 		}
 
-- 
2.43.0


From 5d5adddd485c3166e698a02e76cd3bfbc4c5dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:04 +0000
Subject: [PATCH 03/52] fix: reject KV values that do not fit the receiving
 field instead of panic, endless loop or padding

---
 encoding/binary/decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index c9c6347..87d964e 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -182,6 +182,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 		case reflect.Slice:
 			newSlice := reflect.New(value.Type()).Elem()
 			itemType := value.Type().Elem()
+			if binary.Size(reflect.New(itemType).Interface()) <= 0 {
+				return errors.New(fmt.Sprintf("not supported binary slice of %s", itemType))
+			}
+
 			reader := bytes.NewReader(b)
 
 			for {
@@ -200,6 +204,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			value.Set(newSlice)
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
+			if len(b) != value.Len() {
+				return errors.New(fmt.Sprintf("wrong size of binary array: %d, expected %d", len(b), value.Len()))
+			}
+
 			newArray := reflect.New(value.Type()).Elem()
 			reflect.Copy(newArray, reflect.ValueOf(b))
 
@@ -210,6 +218,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
-- 
2.43.0


From 964ca2a8344bc7e6fd9683eb306fe46e347c5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 04/52] fix: pick the highest activated block version instead
 of a random one

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..a050afd 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,7 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From 8badbb8e8aebf43b8fbaed8b91b81a2d07121637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 05/52] fix: charge the transaction extra fee per byte

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index a050afd..5e55b10 100644
--- a/config/network.go
+++ b/config/network.go
@@ -273,7 +273,7 @@ func (n *Network) MinimalFeeValidator(height uint32) uint64 {
 
 func (n *Network) GetFeePerByte(txExtraSize uint64, minFee uint64) uint64 {
 	if txExtraSize > 100 {
-		return minFee / (100 * (txExtraSize - 100))
+		return minFee / 100 * (txExtraSize - 100)
 	}
 
 	return 0
-- 
2.43.0


From eeace9e90a350bd8ab325b4bf950170d514f7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 06/52] fix: LWMA-2 and LWMA-3 weighted average in difficulty
 of the version 4 blocks

---
 config/network.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 5e55b10..2857886 100644
--- a/config/network.go
+++ b/config/network.go
@@ -475,7 +475,11 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		}
 	}
 
-	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N * 1) / 2 * L
+	if L == 0 {
+		L = 1
+	}
+
+	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N + 1) / (2 * L)
 	nextD = (nextD * 99) / 100
 
 	prevD := int64(cumulativeDifficulties[N] - cumulativeDifficulties[N-1])
-- 
2.43.0


From 3c1102377daa42386953893d0478075db38f54cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 07/52] fix: weight solve times in difficulty of the version 3
 blocks

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 2857886..90edf1a 100644
--- a/config/network.go
+++ b/config/network.go
@@ -542,7 +542,7 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 		solveTime = int64(timestamps[i]) - int64(timestamps[i-1])
 		solveTime = utils.MinInt64(T*7, utils.MaxInt64(solveTime, -6*T))
 		difficulty = int64(cumulativeDifficulties[i]) - int64(cumulativeDifficulties[i-1])
-		LWMA += float64(solveTime*1) / k
+		LWMA += float64(solveTime*int64(i)) / k
 		sumInverseD += 1 / float64(difficulty)
 	}
 
-- 
2.43.0


From 8412a174cfac14765366be9832633064e202d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 08/52] fix: average difficulty and rounding in difficulty of
 the version 5 blocks

---
 config/network.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/network.go b/config/network.go
index 90edf1a..0f9b617 100644
--- a/config/network.go
+++ b/config/network.go
@@ -395,7 +395,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	}
 
 	nextD := int64(0)
-	avgD := int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])/N
+	avgD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) / N
 
 	// Prevent round off error for small D and overflow for large D.
 	if avgD > 2000000*N*N*T {
@@ -408,7 +408,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	i := int64(1000000000)
 	for i > 1 {
 		if nextD > i*100 {
-			nextD = (((nextD + i) / 2) / i) * i
+			nextD = ((nextD + i/2) / i) * i
 			break
 		}
 
-- 
2.43.0


From 87bfe68da502cc831ada9d1fe95fafa52a3ba67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:52 +0000
Subject: [PATCH 09/52] fix: count 24 hours in the expected number of blocks
 per day

---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 2144053d30afd8429370d5e633801118fcef9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 10/52] fix: report difficulty windows of wrong size as error
 instead of panic

---
 config/network.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/config/network.go b/config/network.go
index 0f9b617..3f3e8a7 100644
--- a/config/network.go
+++ b/config/network.go
@@ -349,13 +349,17 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	// https://github.com/zawy12/difficulty-algorithms/issues/3
 
 	// begin reset difficulty for new epoch
-	if height == UpgradeHeightV5 {
+	if height == UpgradeHeightV5 && len(cumulativeDifficulties) > 0 {
 		return cumulativeDifficulties[0] / uint64(height) / resetWorkFactorV5, nil
 	}
 
 	count := uint32(n.DifficultyBlocksCountByBlockVersion(majorVersion) - 1)
 	if height > UpgradeHeightV5 && height < UpgradeHeightV5+count {
 		offset := count - (height - UpgradeHeightV5)
+		if int(offset) > len(timestamps) || int(offset) > len(cumulativeDifficulties) {
+			return 0, errors.New(fmt.Sprintf("assertion failed - timestamps size (%d) is too small", len(timestamps)))
+		}
+
 		timestamps = timestamps[offset:]
 		cumulativeDifficulties = cumulativeDifficulties[offset:]
 	}
@@ -369,6 +373,10 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 		))
 	}
 
+	if len(timestamps) < 2 {
+		return 0, errors.New(fmt.Sprintf("assertion failed - timestamps size (%d) is too small", len(timestamps)))
+	}
+
 	T := int64(difficultyTarget)
 	// adjust for new epoch difficulty reset, N should be by 1 block smaller
 	N := utils.MinInt64(difficultyWindow4, int64(len(cumulativeDifficulties)-1))
@@ -449,6 +457,14 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		))
 	}
 
+	if len(timestamps) < int(N+1) {
+		return 0, errors.New(fmt.Sprintf(
+			"assertion failed - timestamps size (%d) smaller than (%d)",
+			len(timestamps),
+			N+1,
+		))
+	}
+
 	var maxTS, prevMaxTS int64 = 0, int64(timestamps[0])
 	var lwma3Height = UpgradeHeightV4s1
 
@@ -507,6 +523,14 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 	// T= target_solvetime;
 	// N = int(45 * (600 / T) ^ 0.3));
 
+	if len(timestamps) != len(cumulativeDifficulties) {
+		return 0, errors.New(fmt.Sprintf(
+			"assertion failed - timestamp count (%d) must match cumulativeDifficulties count (%d)",
+			len(timestamps),
+			len(cumulativeDifficulties),
+		))
+	}
+
 	T := int64(difficultyTarget)
 	N := difficultyWindow3
 
@@ -521,8 +545,8 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 	}
 
 	if len(timestamps) > N+1 {
-		timestamps = timestamps[N-1:]
-		cumulativeDifficulties = cumulativeDifficulties[N-1:]
+		timestamps = timestamps[len(timestamps)-(N+1):]
+		cumulativeDifficulties = cumulativeDifficulties[len(cumulativeDifficulties)-(N+1):]
 	}
 
 	// To get an average solvetime to within +/- ~0.1%, use an adjustment factor.
-- 
2.43.0


From 593e576298b65a09fe8e752a6c4637f57275f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 11/52] fix: self deadlock on alternative block check of a deep
 block

---
 config/checkpoints.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..34095a4 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,11 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone must be called when lock is already taken
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +125,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From 2d786b39dbd8a4054c0ee39f9cac78c657d5b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 12/52] fix: ring signature check with wrong number of
 signatures fails instead of panic

---
 crypto/signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/signature.go b/crypto/signature.go
index 6d7da31..702b7e8 100644
--- a/crypto/signature.go
+++ b/crypto/signature.go
@@ -278,6 +278,10 @@ func GenerateRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey,
 }
 
 func CheckRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey, sigs *[]Signature, checkKeyImage bool) bool {
+	if len(*pubs) != len(*sigs) {
+		return false
+	}
+
 	// -------- ENABLED IN DEBUG MODE --------
 	for i := 0; i < len(*pubs); i++ {
 		if !(*pubs)[i].Check() {
-- 
2.43.0


From 412cd22ea7e51cadac5d62fb39ffc7c53f61f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 13/52] fix: initialization of the memory storage with the
 genesis block

---
 cryptonote/storage_memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..2a57960 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
@@ -43,6 +44,8 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
+		Timestamp:            genesisBlock.Timestamp,
 		CumulativeDifficulty: 1,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
-- 
2.43.0


From ddd6b8eb258141ea8114159f0e79138d1c314f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 14/52] fix: release of the read lock in the memory storage
 TopIndex

---
 cryptonote/storage_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 2a57960..289495a 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -58,7 +58,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
 	index := s.topBlock.Index()
-	s.Unlock()
+	s.RUnlock()
 	return index, nil
 }
 
-- 
2.43.0


From 7e3c5da7573c43df9a780cb65725332818773631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 15/52] fix: report read errors of the block header and the
 parent block

---
 cryptonote/block.go        | 4 ++--
 cryptonote/block_parent.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..67de25c 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -227,12 +227,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..e07a75c 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -68,17 +68,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if err := prev.Read(r); err != nil {
-- 
2.43.0


From 4cc4319101e0e47a74b56f803d2829c78a17cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 16/52] fix: support block version 5 header

---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 67de25c..3ac3faa 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -240,7 +240,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -285,7 +285,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0


From 539be9ac6508922272b03c8b9ff1fdb041cfdaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 17/52] fix: take timestamp and nonce of merge mined blocks
 from the parent block

---
 cryptonote/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 3ac3faa..dff783b 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -139,6 +139,10 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		}
 
 		b.Parent = parentBlock
+
+		// Header of these blocks has no timestamp and nonce, they are shared with the parent block.
+		b.Timestamp = parentBlock.Timestamp
+		b.Nonce = parentBlock.Nonce
 	}
 
 	if err := b.BaseTransaction.Deserialize(r); err != nil {
-- 
2.43.0


From d00eb63bc3b1d87e3236aea693fdb5c8684fd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 18/52] fix: bound transaction inputs, outputs and extra counts
 by the received data

---
 cryptonote/transaction.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..5aacfd0 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"io"
 )
 
 const (
@@ -231,11 +232,16 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := binary.ReadUvarint(br)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
 
+	// Every input takes at least one byte, don't trust in the count that can't fit in received data.
+	if inputsLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
+
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
 		if err := binary.Read(br, binary.LittleEndian, &tag); err != nil {
@@ -294,11 +300,15 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := binary.ReadUvarint(br)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
 
+	if outputLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
+
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := binary.ReadUvarint(br)
 		if err != nil {
@@ -337,6 +347,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 		return err
 	}
 
+	if extraLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
 		return err
-- 
2.43.0


From a3549f8221e96bf2ffd30328c03cfeb767bef6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 19/52] fix: keep transaction signatures aligned with inputs
 when some input has no signatures

---
 cryptonote/transaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 5aacfd0..1177dfe 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -394,10 +394,11 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			return errors.New("unexpected signatures")
 		}
 
-		if sigSize == 0 {
+		if signaturesNotExpected {
 			continue
 		}
 
+		// Signatures are placed by the input index, so input without signatures still takes the place.
 		sigs := make([]crypto.Signature, sigSize)
 		for i := 0; i < sigSize; i++ {
 			if err := binary.Read(br, binary.LittleEndian, &sigs[i]); err != nil {
-- 
2.43.0


From b4d00aeb99b30da33cd85ef06cf02494b7e3ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 20/52] fix: huge nonce size in transaction extra

---
 cryptonote/transaction_extra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From b165ffd4a1c493aa2af73edbbf91dbe3baaab796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 21/52] fix: bound transaction signatures by the received data

---
 cryptonote/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 1177dfe..f3aa5c8 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -13,6 +13,9 @@ const (
 	TxTagCoinbase       byte = 0xff
 	TxTagKey                 = 0x2
 	TxTagMultisignature      = 0x3
+
+	// signatureSize is a size of the serialized signature
+	signatureSize = 64
 )
 
 type TransactionSignatures [][]crypto.Signature
@@ -399,6 +402,10 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 		}
 
 		// Signatures are placed by the input index, so input without signatures still takes the place.
+		if sigSize > br.Len()/signatureSize {
+			return io.ErrUnexpectedEOF
+		}
+
 		sigs := make([]crypto.Signature, sigSize)
 		for i := 0; i < sigSize; i++ {
 			if err := binary.Read(br, binary.LittleEndian, &sigs[i]); err != nil {
-- 
2.43.0


From bcb2cb37503af3337c1431ec9baf269fcbc2a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 22/52] fix: reject overflown and redundant varints in blocks
 and transactions

---
 cryptonote/block.go        |  9 +++++----
 cryptonote/block_parent.go |  9 +++++----
 cryptonote/transaction.go  | 23 ++++++++++++-----------
 cryptonote/utils.go        | 37 +++++++++++++++++++++++++++++++++++++
 4 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index dff783b..bdc0054 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 	"unsafe"
 )
 
@@ -149,7 +150,7 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		return err
 	}
 
-	hashesCount, err := binary.ReadUvarint(r)
+	hashesCount, err := readVarint(r, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -229,12 +230,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 	var ts uint64
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(reader)
+	majorVersion, err := readVarint(reader, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(reader)
+	minorVersion, err := readVarint(reader, math.MaxUint8)
 	if err != nil {
 		return err
 	}
@@ -245,7 +246,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 			return err
 		}
 	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
-		ts, err = binary.ReadUvarint(reader)
+		ts, err = readVarint(reader, math.MaxUint64)
 		if err != nil {
 			return err
 		}
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index e07a75c..977855f 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 type ParentBlock struct {
@@ -66,17 +67,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 	var prev crypto.Hash
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(r)
+	majorVersion, err := readVarint(r, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(r)
+	minorVersion, err := readVarint(r, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	timestamp, err := binary.ReadUvarint(r)
+	timestamp, err := readVarint(r, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -89,7 +90,7 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
-	txCount, err := binary.ReadUvarint(r)
+	txCount, err := readVarint(r, math.MaxUint16)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index f3aa5c8..89dd633 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 	"io"
 )
 
@@ -217,7 +218,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction version
 	 */
-	version, err := binary.ReadUvarint(br)
+	version, err := readVarint(br, math.MaxUint8)
 	if err != nil {
 		return err
 	}
@@ -226,7 +227,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction UnlockHeight
 	 */
-	tp.UnlockHeight, err = binary.ReadUvarint(br)
+	tp.UnlockHeight, err = readVarint(br, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -234,7 +235,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Inputs
 	 */
-	inputsLen, err := binary.ReadUvarint(br)
+	inputsLen, err := readVarint(br, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -253,7 +254,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 
 		switch tag {
 		case TxTagCoinbase:
-			blockIndex, err := binary.ReadUvarint(br)
+			blockIndex, err := readVarint(br, math.MaxUint32)
 			if err != nil {
 				return err
 			}
@@ -263,18 +264,18 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 			var OutputIndexes []uint32
 			var Key crypto.KeyImage
 
-			amount, err := binary.ReadUvarint(br)
+			amount, err := readVarint(br, math.MaxUint64)
 			if err != nil {
 				return err
 			}
 
-			size, err := binary.ReadUvarint(br)
+			size, err := readVarint(br, math.MaxUint64)
 			if err != nil {
 				return err
 			}
 
 			for i := uint64(0); i < size; i++ {
-				oi, err := binary.ReadUvarint(br)
+				oi, err := readVarint(br, math.MaxUint32)
 				if err != nil {
 					return err
 				}
@@ -302,7 +303,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Output
 	 */
-	outputLen, err := binary.ReadUvarint(br)
+	outputLen, err := readVarint(br, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -313,12 +314,12 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	tp.Outputs = make([]TransactionOutput, outputLen)
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
-		amount, err := binary.ReadUvarint(br)
+		amount, err := readVarint(br, math.MaxUint64)
 		if err != nil {
 			return err
 		}
 
-		tag, err := binary.ReadUvarint(br)
+		tag, err := readVarint(br, math.MaxUint8)
 		if err != nil {
 			return err
 		}
@@ -345,7 +346,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Extra
 	 */
-	extraLen, err := binary.ReadUvarint(br)
+	extraLen, err := readVarint(br, math.MaxUint64)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/utils.go b/cryptonote/utils.go
index 7b120fb..d1d07d5 100644
--- a/cryptonote/utils.go
+++ b/cryptonote/utils.go
@@ -1,5 +1,42 @@
 package cryptonote
 
+import (
+	"bytes"
+	"encoding/binary"
+	"errors"
+)
+
+var (
+	errVarintOverflow       = errors.New("varint value overflow")
+	errVarintRepresentation = errors.New("invalid varint value representation")
+)
+
+// readVarint reads varint that is not bigger than max.
+// Same value must have only one representation, so varint with redundant bytes is rejected.
+func readVarint(r *bytes.Reader, max uint64) (uint64, error) {
+	before := r.Len()
+
+	value, err := binary.ReadUvarint(r)
+	if err != nil {
+		return 0, err
+	}
+
+	if value > max {
+		return 0, errVarintOverflow
+	}
+
+	if before-r.Len() != varintSize(value) {
+		return 0, errVarintRepresentation
+	}
+
+	return value, nil
+}
+
+func varintSize(value uint64) int {
+	buf := make([]byte, binary.MaxVarintLen64)
+	return binary.PutUvarint(buf, value)
+}
+
 func DecomposeAmountIntoDigits(amount, dustThreshold uint64) ([]uint64, []uint64) {
 	var dusts []uint64
 	var chunks []uint64
-- 
2.43.0


From 97b4f7ed38d4fa35e3b72aea1f7c9599472563cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 23/52] fix: reject redundant varint of the address tag

---
 cryptonote/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/address.go b/cryptonote/address.go
index c2947a2..d0465fb 100644
--- a/cryptonote/address.go
+++ b/cryptonote/address.go
@@ -90,7 +90,7 @@ func addressDecode(addr string) (tag uint64, data []byte, err error) {
 
 	tag, read := binary.Uvarint(decoded[:checksumStart])
 
-	if read <= 0 || read > checksumStart {
+	if read <= 0 || read > checksumStart || read != varintSize(tag) {
 		err = fmt.Errorf("Failed read varint")
 		return
 	}
-- 
2.43.0


From c01389e5face458a4b872392a791e71526fb459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 24/52] fix: reject raw transactions with extra bytes after the
 transaction

---
 cryptonote/chain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..53c3ce8 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -560,6 +560,11 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
 
+		if r.Len() != 0 {
+			tsLogger.Error(ErrAddBlockTransactionDeserialization)
+			return nil, 0, ErrAddBlockTransactionDeserialization
+		}
+
 		transactionsSize += tsSize
 	}
 
-- 
2.43.0


From 5c997a0362188aff744441cdd167c73540b87688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 25/52] fix: blockchain height and sparse chain of the
 blockchain higher than genesis

---
 cryptonote/chain.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 53c3ce8..b372ade 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -81,8 +81,7 @@ func (bc *BlockChain) Init() error {
 
 // Height returns current blockchain height
 func (bc *BlockChain) Height() uint32 {
-	// TODO: Implement
-	return 0
+	return bc.TopBlock().Index() + 1
 }
 
 // TopBlock returns current best block
@@ -318,9 +317,9 @@ func (bc *BlockChain) BuildSparseChain() ([]crypto.Hash, error) {
 
 	list = append(list, *topHash)
 
-	height := bc.Height()
-	for i := uint32(1); i < height; i *= 2 {
-		hash, err := bc.storage.HashAtIndex(height - i)
+	topIndex := topBlock.Index()
+	for i := uint32(1); i < topIndex; i *= 2 {
+		hash, err := bc.storage.HashAtIndex(topIndex - i)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 18ed8e470fc682bbb208ec5507143ba663db89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 26/52] fix: block timestamp is compared with the median of
 previous blocks only

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b372ade..ec18b3f 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -379,7 +379,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From 2f899550323993cc3efce4459163cd5c83cd9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 27/52] fix: coinbase unlock height bigger than 32 bits

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index ec18b3f..c91e6e6 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -407,7 +407,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From 878fe6934cc71ade21617ae4a0fa59eb5fc4de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 28/52] fix: use the whole window of block sizes and cumulative
 difficulties

---
 cryptonote/chain.go      | 1 -
 cryptonote/difficulty.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index c91e6e6..21a1790 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -604,7 +604,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From 8a06315aea9c13754efa50c4b05070a21f23bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 29/52] fix: difficulty for next block uses the version of that
 block

---
 cryptonote/difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index ee1690c..04da0ab 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -12,7 +12,7 @@ func (bc *BlockChain) difficultyForNextBlock(b *Block) (uint64, error) {
 		return 0, errors.New(fmt.Sprintf("unknown block hashIndex %d, top hashIndex is %d", b.Index(), bc.bestTip.Index()))
 	}
 
-	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index())
+	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index() + 1)
 	difficultyBlocksCount := bc.Network.DifficultyBlocksCountByBlockVersion(nextBlockMajorVersion)
 
 	timestamps := bc.lastBlocksTimestamps(difficultyBlocksCount, b, false)
-- 
2.43.0


From 7b885078adfe0428fb12dddc98602dd14059856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 30/52] fix: do not keep half built genesis block after an
 error

---
 cryptonote/chain.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 21a1790..002abce 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -513,7 +513,7 @@ func (bc *BlockChain) haveBlock(h *crypto.Hash) bool {
 // GenesisBlock returns first basic block of the blockchain
 func (bc *BlockChain) GenesisBlock() (*Block, error) {
 	if bc.genesisBlock == nil {
-		bc.genesisBlock = &Block{}
+		genesisBlock := &Block{}
 		genesisTransactionBytes, err := hex.DecodeString(bc.Network.GenesisCoinbaseTxHex)
 		reader := bytes.NewReader(genesisTransactionBytes)
 
@@ -521,14 +521,16 @@ func (bc *BlockChain) GenesisBlock() (*Block, error) {
 			return nil, err
 		}
 
-		if err := bc.genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
+		if err := genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
 			return nil, err
 		}
 
-		bc.genesisBlock.MajorVersion = config.BlockMajorVersion1
-		bc.genesisBlock.MinorVersion = config.BlockMinorVersion0
-		bc.genesisBlock.Timestamp = bc.Network.GenesisTimestamp
-		bc.genesisBlock.Nonce = bc.Network.GenesisNonce
+		genesisBlock.MajorVersion = config.BlockMajorVersion1
+		genesisBlock.MinorVersion = config.BlockMinorVersion0
+		genesisBlock.Timestamp = bc.Network.GenesisTimestamp
+		genesisBlock.Nonce = bc.Network.GenesisNonce
+
+		bc.genesisBlock = genesisBlock
 	}
 
 	return bc.genesisBlock, nil
-- 
2.43.0


From 993bedb3edb57708601363aa1feaeda2e2b5da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 31/52] fix: count mixin of the key inputs

---
 cryptonote/transaction_validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..c5f0a5b 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -569,11 +569,12 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		inputKey, ok := input.(InputKey)
+		if !ok {
 			continue
 		}
 
-		curMixin := len(input.(InputKey).OutputIndexes)
+		curMixin := len(inputKey.OutputIndexes)
 		if curMixin > mixin {
 			mixin = curMixin
 		}
-- 
2.43.0


From d4884504fa37444b462bd314cfe4b8ab0f7d94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 32/52] fix: identical ring outputs are zero offsets, equal
 offsets are allowed

---
 cryptonote/transaction_validator.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index c5f0a5b..6f1f7d4 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
-	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
 )
@@ -155,7 +154,7 @@ func (validator *blockTransactionsValidator) validateInputs(transaction *Transac
 				}
 			}
 
-			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {
+			if hasZeroOffset(input.OutputIndexes) {
 				err := ErrTransactionInputIdenticalOutputIndexes
 				logger.Error(err)
 				return 0, err
@@ -566,6 +565,17 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	return true
 }
 
+// hasZeroOffset checks if some output is referenced twice. First value is an absolute index, others are offsets.
+func hasZeroOffset(outputIndexes []uint32) bool {
+	for i, offset := range outputIndexes {
+		if i > 0 && offset == 0 {
+			return true
+		}
+	}
+
+	return false
+}
+
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-- 
2.43.0


From b41c63686d5336cb1304020a630b1d95836b0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 33/52] fix: compare amounts of the fusion transaction outputs
 with the expected decomposition

---
 cryptonote/transaction_validator.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 6f1f7d4..e9839e8 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/crypto"
 	log "github.com/sirupsen/logrus"
 	"math"
+	"sort"
 )
 
 type blockTransactionsValidator struct {
@@ -546,12 +547,16 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	}
 
 	expectedOutputsAmount := validator.bc.DecomposeAmount(inputAmount, dustThreshold)
-	// Why do we need sorting here?
-	//sort.Slice(expectedOutputsAmount, func(i, j int) bool {
-	//	return expectedOutputsAmount[i] < expectedOutputsAmount[j]
-	//})
+	sort.Slice(expectedOutputsAmount, func(i, j int) bool {
+		return expectedOutputsAmount[i] < expectedOutputsAmount[j]
+	})
+
+	decomposed := len(expectedOutputsAmount) == len(outputsAmounts)
+	for i := 0; decomposed && i < len(outputsAmounts); i++ {
+		decomposed = expectedOutputsAmount[i] == outputsAmounts[i]
+	}
 
-	if len(expectedOutputsAmount) != len(outputsAmounts) {
+	if !decomposed {
 		logger := validator.logger.WithFields(log.Fields{
 			"expected_outputs_amount_len": len(expectedOutputsAmount),
 			"input_amounts_len":           len(outputsAmounts),
-- 
2.43.0


From 582840115fcffc90f2c31dc34531838dd354ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 34/52] fix: height of the blockchain that is not initialized
 yet

---
 cryptonote/chain.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 002abce..c5d5ba8 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -81,7 +81,12 @@ func (bc *BlockChain) Init() error {
 
 // Height returns current blockchain height
 func (bc *BlockChain) Height() uint32 {
-	return bc.TopBlock().Index() + 1
+	topBlock := bc.TopBlock()
+	if topBlock == nil {
+		return 0
+	}
+
+	return topBlock.Index() + 1
 }
 
 // TopBlock returns current best block
-- 
2.43.0


From 03ff5c3639cf6264d3b7c787fcf24b6cd3da8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 35/52] fix: recognize transactions and key images that are
 already in the blockchain

---
 cryptonote/chain.go          |  8 +++-----
 cryptonote/storage.go        |  6 ++++++
 cryptonote/storage_memory.go | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index c5d5ba8..117ccdc 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -639,10 +639,9 @@ func (bc *BlockChain) checkProofOfWork(block *Block, difficulty uint64) error {
 	return nil
 }
 
-// IsSpent
-// TODO: Implement
+// IsSpent check if key image is spent by the blockchain block not higher than height
 func (bc *BlockChain) IsSpent(image crypto.KeyImage, height uint32) bool {
-	return false
+	return bc.storage.isSpent(image, height)
 }
 
 // ExtractKeyOutputKeys
@@ -664,9 +663,8 @@ func (bc *BlockChain) ExtractKeyOutputKeys(amount uint64, height uint32, globalI
 }
 
 // hasTransaction check if transaction is stored in blockchain already
-// TODO: Implement
 func (bc *BlockChain) hasTransaction(txHash *crypto.Hash) bool {
-	return false
+	return bc.storage.haveTransaction(txHash)
 }
 
 // IsMultiSignatureOutputExists check if multisig output exists
diff --git a/cryptonote/storage.go b/cryptonote/storage.go
index 5749025..5c89528 100644
--- a/cryptonote/storage.go
+++ b/cryptonote/storage.go
@@ -64,6 +64,12 @@ type Storage interface {
 
 	// getBlockInfoAtIndex return block info at specified index
 	getBlockInfoAtIndex(index uint32) *blockInfo
+
+	// haveTransaction verifies that transaction is included in some saved block
+	haveTransaction(hash *crypto.Hash) bool
+
+	// isSpent verifies that key image is spent by some saved block not higher than height
+	isSpent(image crypto.KeyImage, height uint32) bool
 }
 
 type MultisigAmountGlobalOutputIndexPair struct {
diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 289495a..e0223f5 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -25,6 +25,12 @@ type memoryStorage struct {
 
 	spentMultisignatureGlobalIndexesIndex map[uint32]*[]MultisigAmountGlobalOutputIndexPair
 
+	// transactionsHashIndex keeps index of the block where the transaction is included
+	transactionsHashIndex map[crypto.Hash]uint32
+
+	// spentKeyImages keeps index of the block where the key image is spent first time
+	spentKeyImages map[crypto.KeyImage]uint32
+
 	topBlock *Block
 
 	sync.RWMutex
@@ -38,6 +44,8 @@ func NewMemoryStorage() Storage {
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
+		transactionsHashIndex:                 map[crypto.Hash]uint32{},
+		spentKeyImages:                        map[crypto.KeyImage]uint32{},
 	}
 }
 
@@ -104,6 +112,16 @@ func (s *memoryStorage) appendBlock(block *Block, info *blockInfo, details Trans
 	s.spentKeysImagesIndex[index] = &details.spentKeyImages
 	s.spentMultisignatureGlobalIndexesIndex[index] = &details.spentMultisignatureGlobalIndexes
 
+	for i := range details.transactions {
+		s.transactionsHashIndex[*details.transactions[i].Hash()] = index
+	}
+
+	for _, keyImage := range details.spentKeyImages {
+		if spentIndex, ok := s.spentKeyImages[keyImage]; !ok || index < spentIndex {
+			s.spentKeyImages[keyImage] = index
+		}
+	}
+
 	if s.topBlock == nil || index > s.topBlock.Index() {
 		s.topBlock = block
 	}
@@ -156,6 +174,20 @@ func (s *memoryStorage) getBlockInfoAtIndex(index uint32) *blockInfo {
 	return info
 }
 
+func (s *memoryStorage) haveTransaction(hash *crypto.Hash) bool {
+	s.RLock()
+	_, ok := s.transactionsHashIndex[*hash]
+	s.RUnlock()
+	return ok
+}
+
+func (s *memoryStorage) isSpent(image crypto.KeyImage, height uint32) bool {
+	s.RLock()
+	index, ok := s.spentKeyImages[image]
+	s.RUnlock()
+	return ok && index <= height
+}
+
 func (s *memoryStorage) Close() error {
 	return nil
 }
-- 
2.43.0


From e18e444364b6614f7ff9c3e80d8fd8fdbea55759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 36/52] fix: handshake rejects older peers instead of newer

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From 24415297e914f9b973321819dc59f4ee828d9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 37/52] fix: concurrent access to the peer store

---
 p2p/peerstore.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/p2p/peerstore.go b/p2p/peerstore.go
index 154e162..6d19d37 100644
--- a/p2p/peerstore.go
+++ b/p2p/peerstore.go
@@ -3,11 +3,14 @@ package p2p
 import (
 	"errors"
 	"fmt"
+	"sync"
 )
 
 type peerStore struct {
 	white *peerList
 	grey  *peerList
+
+	sync.RWMutex
 }
 
 type peerList struct {
@@ -22,6 +25,9 @@ func NewPeerStore() *peerStore {
 }
 
 func (ps *peerStore) toPeerEntries() []PeerEntry {
+	ps.RLock()
+	defer ps.RUnlock()
+
 	var peers []PeerEntry
 
 	for _, p := range ps.white.peers {
@@ -36,6 +42,9 @@ func (ps *peerStore) toPeerEntries() []PeerEntry {
 }
 
 func (ps *peerStore) toWhite(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.grey.Remove(p)
 
 	if err := ps.white.Add(p); err != nil {
@@ -46,6 +55,9 @@ func (ps *peerStore) toWhite(p *Peer) error {
 }
 
 func (ps *peerStore) toGrey(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.white.Remove(p)
 
 	if err := ps.grey.Add(p); err != nil {
-- 
2.43.0


From f83f670358ab6d1247041d18237fb5bc24a7537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 38/52] fix: listener survives failed accept and waits for all
 accepted connections

---
 p2p/node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/node.go b/p2p/node.go
index 049bae6..d024196 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -109,8 +109,11 @@ func (n *Node) runListener() {
 					continue
 				}
 				n.logger.Errorf("failed to accept connection: %s", err)
+				time.Sleep(time.Second)
+				continue
 			}
 
+			n.wg.Add(1)
 			go n.handleIncomingConnection(conn)
 		}
 	}
@@ -124,7 +127,6 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 
 	//// TODO: Add peer to peerstore. Make sure it is not exists.
 	//
-	n.wg.Add(1)
 	defer n.wg.Done()
 
 	n.connectionHandler(peer)
-- 
2.43.0


From 2afff5f71f9c5a974151ad6eb621e57cd8846ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 39/52] fix: release connection when the peer is gone, dropped
 or the node is stopped

---
 p2p/node.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index d024196..fcc7a15 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -139,6 +139,19 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 }
 
 func (n *Node) connectionHandler(p *Peer) {
+	closed := make(chan struct{})
+	defer close(closed)
+
+	// Connection is closed when the handler is done or the node is stopped, so blocked read returns too.
+	go func() {
+		select {
+		case <-closed:
+		case <-n.context.Done():
+		}
+
+		_ = p.protocol.Conn.Close()
+	}()
+
 	for {
 		// Peer state changes asynchronously after handling some commands.
 		// Here we are taking care of handle different peer statuses.
@@ -169,9 +182,9 @@ func (n *Node) connectionHandler(p *Peer) {
 		// Read a next command from the connection
 		cmd, err := p.protocol.read()
 
-		// No command received continue to next loop cycle
+		// Connection closed by the remote side
 		if err == io.EOF {
-			continue
+			return
 		}
 
 		// On any error we move the peer to the grey list
-- 
2.43.0


From 000c93ac093534830908b339bcc2879324b7130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 40/52] fix: do not write blocks of remote peers to the working
 directory

---
 p2p/notification_response_get_objects.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..ac6e92b 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -49,13 +48,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 		rawBlockReader := bytes.NewReader(rawBlock.Block)
 		if err := block.Deserialize(rawBlockReader); err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
-			height := n.Blockchain.Height()
-			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
-			return errors.New(
-				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
-			)
+			return errors.New(fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err))
 		}
 
 		hash := block.Hash()
-- 
2.43.0


From 40d3598ca642538621a061aed962b28961f8ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 41/52] fix: reject raw blocks with extra bytes after the block

---
 p2p/notification.go                      | 4 ++++
 p2p/notification_response_get_objects.go | 8 +++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/p2p/notification.go b/p2p/notification.go
index a0412d5..69066cf 100644
--- a/p2p/notification.go
+++ b/p2p/notification.go
@@ -93,5 +93,9 @@ func (rb *RawBlock) ToBlock() (*cryptonote.Block, error) {
 		return nil, err
 	}
 
+	if rawBlockReader.Len() != 0 {
+		return nil, errors.New("unexpected bytes after the block")
+	}
+
 	return block, nil
 }
diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index ac6e92b..7f77ce7 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -1,7 +1,6 @@
 package p2p
 
 import (
-	"bytes"
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
@@ -44,9 +43,8 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 	orderedBlocks := make([]*cryptonote.Block, len(nt.Blocks))
 	transactions := map[crypto.Hash][][]byte{}
 	for i, rawBlock := range nt.Blocks {
-		block := cryptonote.Block{}
-		rawBlockReader := bytes.NewReader(rawBlock.Block)
-		if err := block.Deserialize(rawBlockReader); err != nil {
+		block, err := rawBlock.ToBlock()
+		if err != nil {
 			p.Shutdown()
 			return errors.New(fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err))
 		}
@@ -67,7 +65,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 
 		p.requestedBlocks.Remove(hash)
 		transactions[*hash] = rawBlock.Transactions
-		orderedBlocks[i] = &block
+		orderedBlocks[i] = block
 	}
 
 	if len(p.requestedBlocks) > 0 {
-- 
2.43.0


From 54889f88aa5254162d318db782a9e5295d6da52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 42/52] fix: underflow of the empty remote blockchain height

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf31084..383fcaf 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -220,7 +220,7 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 		}
 
 		p.neededBlocks = neededBlocks
-	} else if p.lastResponseHeight < (p.remoteHeight - 1) {
+	} else if p.lastResponseHeight+1 < p.remoteHeight {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
-- 
2.43.0


From 0de490e12934a3c156ff4e0ca5c095c50fcf86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 43/52] fix: drop the peer that sent invalid blocks instead of
 waiting for it forever

---
 p2p/notification_response_get_objects.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 7f77ce7..941e339 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -76,6 +76,15 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 	}
 
 	if err := n.processNewObjects(orderedBlocks, transactions); err != nil {
+		// Peer that sent block that we have already stays connected, other blocks must not be sent by honest peers.
+		if err == cryptonote.ErrAddBlockAlreadyExists {
+			p.state = PeerStateIdle
+			p.neededBlocks = nil
+			p.requestedBlocks = nil
+		} else {
+			p.Shutdown()
+		}
+
 		return err
 	}
 
-- 
2.43.0


From 62cf0e825d176cd564dc4055aab7c287f1b63653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 44/52] fix: synchronization stuck when other peers already
 provided all the needed blocks

---
 p2p/peer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 383fcaf..e2eff6a 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -220,6 +220,11 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 		}
 
 		p.neededBlocks = neededBlocks
+
+		// All the blocks are known already, nothing is requested so no response will continue the synchronization.
+		if len(requestBlocks) == 0 {
+			return p.requestMissingBlocks(n, checkHavingBlocks)
+		}
 	} else if p.lastResponseHeight+1 < p.remoteHeight {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
-- 
2.43.0


From 3e0765ab10ef71296729758750b25d64003195f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 45/52] fix: reject KV arrays with items of unknown type

---
 encoding/binary/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 87d964e..b2dd699 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -130,6 +130,9 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 		}
 
 		itemTypeByte := typeByte & ^flagArray
+		if itemTypeByte == 0 {
+			return errors.New("unknown type of array items")
+		}
 
 		switch value.Kind() {
 		case reflect.Slice:
-- 
2.43.0


From 0fc9c365129cd6c4ddd2bd4f95d493e7115ab858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 46/52] fix: reject merge mining tag that takes more bytes than
 its size

---
 cryptonote/transaction_extra.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 4200949..1142e92 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -106,6 +106,8 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 				return nil, ErrMergeMiningTagMax
 			}
 
+			before := r.Len()
+
 			depth, err := binary.ReadUvarint(r)
 			if err != nil {
 				return nil, err
@@ -116,6 +118,10 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 				return nil, err
 			}
 
+			if uint64(before-r.Len()) != size {
+				return nil, ErrMergeMiningTagMax
+			}
+
 			tef.MiningTag = &TransactionExtraMergeMiningTag{depth, h}
 		default:
 			return nil, errors.New(fmt.Sprintf("Unknown extra tag: %x", tag))
-- 
2.43.0


From 3479b365aecbd0568272dfb255c94eaddcdb3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 47/52] fix: do not allocate levin payload before it is
 received

---
 p2p/levin.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/p2p/levin.go b/p2p/levin.go
index 12edd19..8f843bb 100644
--- a/p2p/levin.go
+++ b/p2p/levin.go
@@ -1,6 +1,7 @@
 package p2p
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -129,15 +130,19 @@ func (p *LevinProtocol) read() (*LevinCommand, error) {
 		return nil, errors.New("levin packet size is too big")
 	}
 
-	payload := make([]byte, head.BodySize)
+	// Size is provided by remote side, so the buffer grows only with the data that was really received.
+	var payload bytes.Buffer
+	if _, err := io.CopyN(&payload, p.Conn, int64(head.BodySize)); err != nil {
+		if err == io.EOF {
+			return nil, io.ErrUnexpectedEOF
+		}
 
-	if _, err := io.ReadFull(p.Conn, payload); err != nil {
 		return nil, err
 	}
 
 	return &LevinCommand{
 		Command:    head.Command,
-		Payload:    payload,
+		Payload:    payload.Bytes(),
 		IsNotify:   !head.HaveToReturnData,
 		IsResponse: (head.Flags & LevinPacketResponse) == LevinPacketResponse,
 	}, nil
-- 
2.43.0


From 835cdd9228f980151d7341683a76b1731c81f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 48/52] fix: reject block whose fees overflow

---
 cryptonote/transaction_validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index e9839e8..2b55413 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -336,6 +336,12 @@ func (validator *blockTransactionsValidator) validateTransactionFee(transaction
 		}
 	}
 
+	if math.MaxUint64-fee < validator.cumulativeFee {
+		err = ErrTransactionInvalidFee
+		logger.Error(err)
+		return
+	}
+
 	validator.cumulativeFee += fee
 
 	return
-- 
2.43.0


From ba0c27e4e709a0a84d0de33613064dbc1867389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 49/52] fix: close outgoing connection when the handshake fails
 or the node is stopped

---
 p2p/node.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index fcc7a15..a8f9ee7 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -514,6 +514,13 @@ func (n *Node) syncWithAddr(addr string) {
 		return
 	}
 
+	// Connection is closed when the handshake fails or the node is stopped, so blocked handshake returns too.
+	go func() {
+		<-ctx.Done()
+
+		_ = peer.protocol.Conn.Close()
+	}()
+
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
 	if err != nil {
-- 
2.43.0


From 7ce3ef8e65465793306ba71e4b85d21a1ffcb922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 50/52] fix: send IP addresses of peers in network byte order

---
 p2p/peer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index e2eff6a..c37b146 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -8,6 +8,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/cryptonote"
 	"github.com/signalsciences/ipv4"
 	"go.uber.org/zap"
+	"math/bits"
 	"net"
 	"strconv"
 	"sync"
@@ -25,6 +26,7 @@ const (
 )
 
 type NetworkAddress struct {
+	// IP has the first octet of the address in the lowest byte, so it goes to the wire in network byte order.
 	IP   uint32
 	Port uint32
 }
@@ -63,7 +65,7 @@ func NetworkAddressFromTCPAddr(addr *net.TCPAddr) NetworkAddress {
 	IP, _ := ipv4.FromNetIP(addr.IP)
 
 	return NetworkAddress{
-		IP:   IP,
+		IP:   bits.ReverseBytes32(IP),
 		Port: uint32(addr.Port),
 	}
 }
@@ -258,5 +260,5 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 }
 
 func (na *NetworkAddress) String() string {
-	return fmt.Sprintf("%s:%d", ipv4.ToDots(na.IP), na.Port)
+	return fmt.Sprintf("%s:%d", ipv4.ToDots(bits.ReverseBytes32(na.IP)), na.Port)
 }
-- 
2.43.0


From 7acf2e5e23e5d83d8ccc70a56f331cb596a0388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 51/52] fix: parse into a used block or transaction keeps
 nothing of the old one

Signatures were appended to those of the transaction parsed before, a zero
timestamp or nonce, the parent and the cached ids stayed as well.
---
 cryptonote/block.go       | 3 +++
 cryptonote/transaction.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index bdc0054..dce1dc8 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -118,6 +118,9 @@ func (b *Block) Index() uint32 {
 }
 
 func (b *Block) Deserialize(r *bytes.Reader) error {
+	// Nothing of the block that was here before stays, like its parent, timestamp and hash.
+	*b = Block{}
+
 	if err := b.BlockHeader.deserialize(r); err != nil {
 		return err
 	}
diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 89dd633..1a00fb4 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -104,6 +104,9 @@ func (t *Transaction) Serialize() []byte {
 }
 
 func (t *Transaction) Deserialize(r *bytes.Reader) error {
+	// Nothing of the transaction that was here before stays, like its signatures and hash.
+	*t = Transaction{}
+
 	if err := t.TransactionPrefix.deserialize(r); err != nil {
 		return err
 	}
-- 
2.43.0


From aba5fb520351c07ab41bf3e339e3c72630142d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 52/52] fix: refuse chain entries that were not requested

---
 p2p/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index a8f9ee7..c7d517e 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -280,6 +280,12 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 			notification.StartHeight, len(notification.BlocksHashes), notification.TotalHeight,
 		)
 
+		// Chain is requested only when there are no more blocks to request and wait for.
+		if len(p.neededBlocks) > 0 || len(p.requestedBlocks) > 0 {
+			p.Shutdown()
+			return errors.New(fmt.Sprintf("[%s] received not requested response chain entry", p))
+		}
+
 		if len(notification.BlocksHashes) == 0 {
 			p.Shutdown()
 			// TODO: Create new error instance
-- 
2.43.0

