From 9cf7cc3c544b0de9cb2aacc7f3aa938f5c0ec64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 01/25] fix: refuse truncated inputs, outputs, counts and
 VarInts instead of panicking

---
 transaction/Transaction.go   | 6 ++++++
 transaction/input/Input.go   | 5 +++++
 transaction/output/Output.go | 5 +++++
 utils/VarInt.go              | 8 ++++++++
 4 files changed, 24 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..740ecdc 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -76,6 +76,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	offset += 4
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("input count is incomplete")
+	}
 	offset += size
 
 	// create inputs
@@ -92,6 +95,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("output count is incomplete")
+	}
 	offset += size
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..6a0dcd1 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -58,6 +58,11 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 	l, size := utils.DecodeVarInt(bytes[offset:])
 	offset += size
 
+	// size is 0 if the VarInt is incomplete, l can be any 64 bit value
+	if size == 0 || l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
+	}
+
 	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
 
 	if len(bytes) < totalLength {
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..6c8fa31 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -41,6 +41,11 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 	l, size := utils.DecodeVarInt(bytes[offset:])
 	offset += size
 
+	// size is 0 if the VarInt is incomplete, l can be any 64 bit value
+	if size == 0 || l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script")
+	}
+
 	totalLength := offset + int(l)
 
 	if len(bytes) < totalLength {
diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..40b255f 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -28,7 +28,15 @@ func VarInt(i uint64) []byte {
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
 // See http://learnmeabitcoin.com/glossary/varint
+// If the bytes end before the VarInt does, the size returned is 0.
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 ||
+		b[0] == 0xff && len(b) < 9 ||
+		b[0] == 0xfe && len(b) < 5 ||
+		b[0] == 0xfd && len(b) < 3 {
+		return 0, 0
+	}
+
 	switch b[0] {
 	case 0xff:
 		result = binary.LittleEndian.Uint64(b[1:9])
-- 
2.43.0


From d3ec5b47c1556a66eb8508595dcc1054be97e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 02/25] fix: copy scripts out of the bytes inputs and outputs
 are parsed from

---
 transaction/input/Input.go   | 3 ++-
 transaction/output/Output.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 6a0dcd1..1884c9a 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -69,7 +69,8 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
 	}
 
-	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
+	// copy the script, so that it does not share the memory of the bytes provided
+	i.UnlockingScript = script.NewFromBytes(append([]byte{}, bytes[offset:offset+int(l)]...))
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index 6c8fa31..3b241c6 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -52,7 +52,8 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 		return nil, 0, fmt.Errorf("output length too short < 8 + script")
 	}
 
-	s := script.Script(bytes[offset:totalLength])
+	// copy the script, so that it does not share the memory of the bytes provided
+	s := script.Script(append([]byte{}, bytes[offset:totalLength]...))
 	o.LockingScript = &s
 
 	return &o, totalLength, nil
-- 
2.43.0


From 2b07e905228c9db08b8c4c7ef8e6ebffc2444434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 03/25] fix: do not overflow the length of a push of almost 64
 KiB or 4 GiB in DecodeParts

---
 script/OpPushdata.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..1f84935 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -102,8 +102,8 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 3 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint16(b[1:])
-			if len(b) < int(3+l) {
+			l := int(binary.LittleEndian.Uint16(b[1:]))
+			if len(b) < 3+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[3 : 3+l]
@@ -114,8 +114,8 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint32(b[1:])
-			if len(b) < int(5+l) {
+			l := uint64(binary.LittleEndian.Uint32(b[1:]))
+			if uint64(len(b)) < 5+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[5 : 5+l]
-- 
2.43.0


From dc842f6976e3f8301df6807e825e571790bdf312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 04/25] fix: do not panic when classifying empty or cut scripts

---
 script/Script.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 9504ad5..da0911a 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -222,6 +222,7 @@ func (s *Script) IsP2PK() bool {
 
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
+		len(parts[1]) > 0 &&
 		parts[1][0] == OpCHECKSIG {
 
 		pubkey := parts[0]
@@ -251,8 +252,8 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
-	return b[0] == 0x6a ||
-		b[0] == 0x00 && b[1] == 0x6a
+	return len(b) > 0 && b[0] == 0x6a ||
+		len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a
 }
 
 // IsMultisigOut returns true if this is a multisig output script.
@@ -266,16 +267,16 @@ func (s *Script) IsMultisigOut() bool {
 		return false
 	}
 
-	if isSmallIntOp(parts[0][0]) == false {
-		return false
-	}
-
-	for i := 1; i < len(parts)-2; i++ {
+	for i := 0; i < len(parts); i++ {
 		if len(parts[i]) < 1 {
 			return false
 		}
 	}
 
+	if isSmallIntOp(parts[0][0]) == false {
+		return false
+	}
+
 	return isSmallIntOp(parts[len(parts)-2][0]) &&
 		parts[len(parts)-1][0] == OpCHECKMULTISIG
 }
-- 
2.43.0


From 1694a6a3c63ad10bb64b1b79e2920be2bfe0fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 05/25] fix: only return a public key hash for
 pay-to-public-key-hash scripts

---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index da0911a..861138c 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -291,7 +291,7 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if !s.IsP2PKH() {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-- 
2.43.0


From 6c244e2a7ef6608f6cfb241fedb1d497b990b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 06/25] fix: report an error for input indexes out of range

---
 transaction/SignatureHash.go | 5 +++++
 transaction/Transaction.go   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..08dab83 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/transaction/signature/sighash"
@@ -15,6 +16,10 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) {
+		return nil, fmt.Errorf("no input at index %d", inputNumber)
+	}
+
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 740ecdc..2618aa1 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -294,7 +294,7 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
-	if bt.Inputs[index] != nil {
+	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
 	}
-- 
2.43.0


From 64625eae538c2485960a2d735efbb8c62161a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 07/25] fix: do not reorder the public keys of a redeem script
 when reading it

---
 script/RedeemScript.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..5875098 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -165,8 +165,9 @@ func (rs *RedeemScript) GetRedeemScript() []byte {
 	var b []byte
 
 	b = append(b, OpBASE+byte(rs.SignaturesRequired))
-	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
-	for _, pk := range rs.PublicKeys {
+	// sort a copy, since SortByteArrays sorts in place
+	publicKeys := utils.SortByteArrays(append([][]byte{}, rs.PublicKeys...))
+	for _, pk := range publicKeys {
 		b = append(b, byte(len(pk)))
 		b = append(b, pk...)
 	}
-- 
2.43.0


From 2a9aa0fb2193df76c2b423282241d063ded7adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 08/25] fix: do not write to the InternalSigner while signing

---
 transaction/signature/InternalSigner.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index a83e38a..2618dd6 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -22,11 +22,12 @@ type InternalSigner struct {
 // Sign a transaction at a given input index using the PrivateKey passed in through the
 // InternalSigner struct.
 func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
+	sigHashFlag := is.SigHashFlag
+	if sigHashFlag == 0 {
+		sigHashFlag = sighash.AllForkID
 	}
 
-	sh, err := unsignedTx.GetInputSignatureHash(index, is.SigHashFlag)
+	sh, err := unsignedTx.GetInputSignatureHash(index, sigHashFlag)
 	if err != nil {
 		return nil, err
 	}
@@ -36,7 +37,7 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 		return nil, err
 	}
 
-	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), is.SigHashFlag)
+	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), sigHashFlag)
 
 	err = unsignedTx.ApplyUnlockingScript(index, s)
 	if err != nil {
@@ -50,10 +51,6 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 // signs the P2PKH inputs that it is able to sign using the specific
 // PrivateKey passed in through the InternalSigner struct.
 func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
-	}
-
 	for i, in := range unsignedTx.Inputs {
 
 		pubKeyHash, _ := in.PreviousTxScript.GetPublicKeyHash() // doesn't matter if returns error (not p2pkh)
-- 
2.43.0


From f569bff36a920296ff27f5a55126576d6e5a1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 09/25] fix: report inputs SignAuto could not sign and leave
 the transaction as it was

---
 transaction/signature/InternalSigner.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index 2618dd6..5966911 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -51,6 +51,11 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 // signs the P2PKH inputs that it is able to sign using the specific
 // PrivateKey passed in through the InternalSigner struct.
 func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
+	var before []*script.Script
+	for _, in := range unsignedTx.Inputs {
+		before = append(before, in.UnlockingScript)
+	}
+
 	for i, in := range unsignedTx.Inputs {
 
 		pubKeyHash, _ := in.PreviousTxScript.GetPublicKeyHash() // doesn't matter if returns error (not p2pkh)
@@ -60,7 +65,13 @@ func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transa
 
 		// check if able to sign (public key matches pubKeyHash in script)
 		if pubKeyHashStr == pubKeyHashStrFromPriv {
-			is.Sign(uint32(i), unsignedTx)
+			if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
+				// leave the transaction as it was
+				for j, s := range before {
+					unsignedTx.Inputs[j].UnlockingScript = s
+				}
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From cbb247ef7c66d18c72992c77fdc71ecc045d8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 10/25] fix: verify the checksum of addresses in NewFromString

---
 script/address/Address.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..9c62631 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -24,6 +24,9 @@ func NewFromString(addr string) (*Address, error) {
 	if err != nil {
 		return nil, err
 	}
+	if _, err = validA58([]byte(addr)); err != nil {
+		return nil, err
+	}
 	a := Address{
 		AddressString: addr,
 		PublicKeyHash: pkh,
-- 
2.43.0


From 5e8fea360f64e24b529f44864fb4de356d8c2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 11/25] fix: refuse addresses with missing or extra leading 1s

---
 script/address/AddressValidation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..9220b23 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -69,6 +69,14 @@ func validA58(a58 []byte) (bool, error) {
 	if err := a.set58(a58); err != nil {
 		return false, err
 	}
+
+	// each leading zero byte is encoded as exactly one leading '1'
+	zeros := len(a) - len(bytes.TrimLeft(a[:], "\x00"))
+	ones := len(a58) - len(bytes.TrimLeft(a58, "1"))
+	if zeros != ones {
+		return false, errors.New("wrong number of leading 1s")
+	}
+
 	if a[0] != 0 && a[0] != 0x6f {
 		return false, errors.New("not version 0 or 6f")
 	}
-- 
2.43.0


From 2015ff3360f5684ff219670bf7aa19f8360d9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 12/25] fix: decode BIP276 fields as EncodeBIP276 writes them
 and refuse other texts

---
 script/address/BIP276.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..a04d7a6 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -53,20 +53,29 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
 
+	if res == nil {
+		err = errors.New("Invalid BIP276 text")
+		return
+	}
+
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	// EncodeBIP276 writes the network first, then the version, both in hex
+	var n, v uint64
+	if n, err = strconv.ParseUint(res[2], 16, 8); err != nil {
 		return
 	}
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	if v, err = strconv.ParseUint(res[3], 16, 8); err != nil {
 		return
 	}
 
+	network, version = int(n), int(v)
+
 	if data, err = hex.DecodeString(res[4]); err != nil {
 		return
 	}
-- 
2.43.0


From 927acd28d167273b2f74ef16c9a9012c0897b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 13/25] fix: do not decrypt in place, overwriting the
 ciphertext

---
 crypto/Encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..7c04c13 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -29,8 +29,8 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	}
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
-	text := ciphertext[aes.BlockSize:]
-	cfb.XORKeyStream(text, text)
+	text := make([]byte, len(ciphertext)-aes.BlockSize)
+	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ae4023e397183d757b7d7aca6612c77be3ad79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 14/25] fix: do not write into the spare capacity of the
 coinbase hash

---
 block/BuildMerkleRootFromCoinbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..f4e3a85 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -13,7 +13,8 @@ func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) [
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-		concat := append(acc, branch...)
+		// never append in place: acc may have spare capacity owned by the caller
+		concat := append(acc[:len(acc):len(acc)], branch...)
 		hash := crypto.Sha256d(concat)
 		acc = hash[:]
 	}
-- 
2.43.0


From 0ae7c84c8c3c0fe0dbdac95b34069dd161484897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 15/25] fix: refuse target bits of the wrong length, negative
 or out of range

---
 block/Difficulty.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..30738a3 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if bn.Sign() < 0 || len(b) > len(dst) {
+		return "", fmt.Errorf("target %s is negative or longer than 32 bytes", bits)
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,9 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, fmt.Errorf("bits must be 4 bytes long, got %d", len(binaryBits))
+	}
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
@@ -97,7 +104,13 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
+	b, err := hex.DecodeString(bits)
+	if err != nil {
+		return 0.0, err
+	}
+	if len(b) != 4 {
+		return 0.0, fmt.Errorf("bits must be 4 bytes long, got %d", len(b))
+	}
 	ib := binary.BigEndian.Uint32(b)
 	return targetToDifficulty(toCompactSize(ib))
 }
-- 
2.43.0


From e0a949f129249e76112cebf0761be421f37efa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 16/25] fix: refuse malformed Electrum redeem scripts instead
 of panicking

---
 script/RedeemScript.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 5875098..6afe2e7 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -43,10 +43,16 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 		return nil, err
 	}
 
-	if len(parts) == 0 {
+	if len(parts) < 3 {
 		return nil, errors.New("There should be 5 parts in this redeemScript")
 	}
 
+	for _, part := range parts {
+		if len(part) == 0 {
+			return nil, errors.New("There should be no empty parts in this redeemScript")
+		}
+	}
+
 	signaturesRequired := int(parts[0][0] - OpBASE)
 	if signaturesRequired < 2 {
 		return nil, errors.New("Must have 2 or more required signatures for multisig")
@@ -72,6 +78,10 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 		}
 
 		pubkey = pubkey[1:]
+		if len(pubkey) != 78+4 {
+			return nil, errors.New("All Electrum pubkeys should have 78 bytes and a derivation path with exactly 2 items")
+		}
+
 		xpub := address.Base58EncodeMissingChecksum(pubkey[0:78])
 
 		derivationPath := pubkey[78:]
-- 
2.43.0


From fb5cf46fd0ef6b8b4553c043f864f0ec07b963ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 17/25] fix: refuse previous transaction ids that are not 32
 bytes

---
 transaction/Transaction.go | 4 ++++
 transaction/input/Input.go | 4 ++++
 utils/ByteManipulation.go  | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 2618aa1..471f888 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -139,6 +139,10 @@ func (bt *Transaction) From(txID string, vout uint32, scriptSig string, satoshis
 		SequenceNumber:     0xffffffff,
 	}
 
+	if _, err = utils.Decode32Byte(txID); err != nil {
+		return err
+	}
+
 	i.PreviousTxID = txID
 
 	bt.AddInput(i)
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 1884c9a..7abbf05 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -84,6 +84,10 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 		return nil, err
 	}
 
+	if _, err = utils.Decode32Byte(prevTxID); err != nil {
+		return nil, err
+	}
+
 	i := &Input{
 		PreviousTxID:       prevTxID,
 		PreviousTxOutIndex: prevTxIndex,
diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..d2a96ba 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,10 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) != 32 {
+		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
+	}
+
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From a5c5850f1d63a968d9ba3bbe97b6a429bc8845b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 18/25] fix: refuse negative positions in Merkle proofs

---
 block/GetMerkleBranches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index a92da53..8892d2a 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -85,7 +85,7 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 		txIndex >>= 1
 	}
 
-	if txIndex > 0 {
+	if txIndex != 0 {
 		return "", fmt.Errorf("index %d out of range for proof of length %d", txIndex, len(branches))
 	}
 
-- 
2.43.0


From d1f3c518b6f3310fdfeb951082b877f424cd624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 19/25] fix: refuse public key hashes that are not 20 bytes

---
 script/Script.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 861138c..7b6bf9a 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -85,6 +85,10 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 		return nil, err
 	}
 
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes long, got %d", len(hash))
+	}
+
 	b := []byte{
 		OpDUP,
 		OpHASH160,
-- 
2.43.0


From dfa979438d7983270ebf712c7cd1a37c01cef8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 20/25] fix: do not take data scripts for multisig scripts

---
 script/Script.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 7b6bf9a..cf829fa 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -262,6 +262,11 @@ func (s *Script) IsData() bool {
 
 // IsMultisigOut returns true if this is a multisig output script.
 func (s *Script) IsMultisigOut() bool {
+	// OP_FALSE OP_RETURN also starts with a small integer, whatever data follows
+	if s.IsData() {
+		return false
+	}
+
 	parts, err := DecodeParts(*s)
 	if err != nil {
 		return false
-- 
2.43.0


From 2c907a68244455fa696289ec581a8b29ebcdd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 21/25] fix: refuse Merkle proof hashes that are not 32 bytes

---
 block/GetMerkleBranches.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index 8892d2a..4c166b2 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -66,6 +66,10 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 		return "", err
 	}
 
+	if len(hash) != 32 {
+		return "", fmt.Errorf("transaction hash must be 32 bytes long, got %d", len(hash))
+	}
+
 	hash = utils.ReverseBytes(hash)
 
 	for _, b := range branches {
@@ -74,6 +78,10 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 			return "", err
 		}
 
+		if len(h) != 32 {
+			return "", fmt.Errorf("branch must be 32 bytes long, got %d", len(h))
+		}
+
 		h = utils.ReverseBytes(h)
 
 		if txIndex&1 > 0 {
-- 
2.43.0


From 0952320ad9d43fe0040c7b07c6e73c10fe0a1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 22/25] fix: refuse malformed Merkle branches in
 BuildMerkleRootFromCoinbase

---
 block/BuildMerkleRootFromCoinbase.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index f4e3a85..64b128f 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -8,11 +8,18 @@ import (
 
 // BuildMerkleRootFromCoinbase builds the merkle root of the block from the coinbase transaction hash (txid)
 // and the merkle branches needed to work up the merkle tree and returns the merkle root byte array.
+// It returns nil if the hash or a branch is not 32 bytes.
 func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
 	acc := coinbaseHash
+	if len(acc) != 32 {
+		return nil
+	}
 
 	for i := 0; i < len(merkleBranches); i++ {
-		branch, _ := hex.DecodeString(merkleBranches[i])
+		branch, err := hex.DecodeString(merkleBranches[i])
+		if err != nil || len(branch) != 32 {
+			return nil
+		}
 		// never append in place: acc may have spare capacity owned by the caller
 		concat := append(acc[:len(acc):len(acc)], branch...)
 		hash := crypto.Sha256d(concat)
-- 
2.43.0


From 3591697c30d81893ae172fbdbd080e51b77abf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 23/25] fix: refuse public key hashes that are not 20 bytes in
 hash puzzles

---
 transaction/output/Output.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index 3b241c6..602412a 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -95,6 +95,10 @@ func NewHashPuzzle(secret string, publicKeyHash string, satoshis uint64) (*Outpu
 		return nil, err
 	}
 
+	if len(publicKeyHashBytes) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes long, got %d", len(publicKeyHashBytes))
+	}
+
 	s := &script.Script{}
 
 	s.AppendOpCode(script.OpHASH160)
-- 
2.43.0


From 0333210898517a1d9607b64e4986862ab4481052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 24/25] fix: tell opcodes from pushed data when recognising
 P2PK and multisig scripts

---
 script/Script.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index cf829fa..e20953a 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -226,7 +226,7 @@ func (s *Script) IsP2PK() bool {
 
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
-		len(parts[1]) > 0 &&
+		endsWithOpcode(*s) &&
 		parts[1][0] == OpCHECKSIG {
 
 		pubkey := parts[0]
@@ -282,7 +282,11 @@ func (s *Script) IsMultisigOut() bool {
 		}
 	}
 
-	if isSmallIntOp(parts[0][0]) == false {
+	if isSmallIntOp((*s)[0]) == false {
+		return false
+	}
+
+	if !endsWithOpcode(*s) || !endsWithOpcode((*s)[:len(*s)-1]) {
 		return false
 	}
 
@@ -290,6 +294,17 @@ func (s *Script) IsMultisigOut() bool {
 		parts[len(parts)-1][0] == OpCHECKMULTISIG
 }
 
+// endsWithOpcode returns true if the last byte of a script is an opcode by itself,
+// not the end of pushed data.
+func endsWithOpcode(b []byte) bool {
+	if len(b) == 0 {
+		return false
+	}
+
+	_, err := DecodeParts(b[:len(b)-1])
+	return err == nil
+}
+
 func isSmallIntOp(opcode byte) bool {
 	return opcode == OpZERO || (opcode >= OpONE && opcode <= Op16)
 }
-- 
2.43.0


From a3f93b005cc10b22e056b181d005f3f4c89e84a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:11 +0000
Subject: [PATCH 25/25] fix: report a signer that returns no transaction
 instead of dereferencing nil

---
 transaction/Transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 471f888..8320978 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -3,6 +3,7 @@ package transaction
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"errors"
 	"fmt"
 
 	"github.com/libsv/libsv/crypto"
@@ -277,6 +278,9 @@ func (bt *Transaction) Sign(index uint32, s Signer) error {
 	if err != nil {
 		return err
 	}
+	if signedTx == nil {
+		return errors.New("the signer returned no transaction")
+	}
 	*bt = *signedTx
 	return nil
 }
@@ -291,6 +295,9 @@ func (bt *Transaction) SignAuto(s Signer) error {
 	if err != nil {
 		return err
 	}
+	if signedTx == nil {
+		return errors.New("the signer returned no transaction")
+	}
 	*bt = *signedTx
 	return nil
 }
-- 
2.43.0

