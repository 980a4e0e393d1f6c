From 1daa2b30889153cb536f91695b7bd582ac4b1530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 01/20] fix: reject path components that do not fit in 32 bits

Components were parsed as 64-bit ints and then truncated, so for example
m/4294967296 and m/4294967340' were accepted and silently derived m/0 and
m/44'.
---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..69a58b9 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -55,7 +55,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 		isHardened := strings.Contains(s, "'")
 		if isHardened {
 			fmtStr := strings.ReplaceAll(s, "'", "")
-			val, err := strconv.Atoi(fmtStr)
+			val, err := strconv.ParseUint(fmtStr, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
@@ -64,7 +64,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
 		} else {
-			val, err := strconv.Atoi(s)
+			val, err := strconv.ParseUint(s, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
-- 
2.43.0


From e489af85f2c50619eb9ae19e323ffb15e1765d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 02/20] fix: look up path depths without wrapping the length

The number of values was converted to a byte, so for a path of 255
components (256 values) every depth, even 0, was reported out of range.
---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 69a58b9..bf34600 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -83,7 +83,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -94,7 +94,7 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From 4ca98af07e4ab2404db8035919571d8efa6fc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 03/20] fix: never return an invalid path from
 ReplaceValueAtDepth

Replacing depth 0 turned "m/44'" into "7/44'", and replacing a plain
component by a hardened one behind another plain one produced for example
m/44'/0/0'; both were returned without an error although no other
function accepts such a path.
---
 bip32/path.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bip32/path.go b/bip32/path.go
index bf34600..a4fe824 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -97,11 +97,19 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
+	// depth 0 is the root (m) and has no value to replace
+	if b == 0 {
+		return newPath, ErrUnSupportedOrInvalidPath
+	}
 	valsArr := strings.Split(newPath.String(), "/")
 	if val >= FirstHardenedChild {
 		valsArr[b] = fmt.Sprintf("%d'", val%FirstHardenedChild)
 	} else {
 		valsArr[b] = fmt.Sprintf("%d", val)
 	}
-	return Path(strings.Join(valsArr, "/")), nil
+	replaced := Path(strings.Join(valsArr, "/"))
+	if !replaced.IsValid() {
+		return newPath, ErrUnSupportedOrInvalidPath
+	}
+	return replaced, nil
 }
-- 
2.43.0


From f6101863ee77722cffc664c0c9c0521357844d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 04/20] fix: refuse to derive children of keys of depth 255

The one-byte depth wrapped around, so the child of a depth-255 key had
depth 0 and passed for a master key.
---
 bip32/bip32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..4af70ed 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -72,6 +72,10 @@ var (
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
 	ErrEmptyKey = errors.New("key is empty")
+
+	// ErrDepthExceeded is returned when trying to derive a child of a key that
+	// already has the maximum depth
+	ErrDepthExceeded = errors.New("key has the maximum depth, can't create child")
 )
 
 // NewMasterKey creates a new master extended key from a seed
@@ -111,6 +115,10 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	// Depth is a single byte, it must not wrap around to 0
+	if key[DepthStartIndex] == 0xff {
+		return childKey, ErrDepthExceeded
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
-- 
2.43.0


From 277abf7f3941d660afbf19ec99e459dc3f13204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 05/20] fix: report derivation errors from DeriveBIP32Result

The error of each derivation step was dropped and the all-zero key that
comes with it was returned as a derived key, for example for every path
below a root key with unregistered version bytes.
---
 util/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 4e31e0f..838c200 100644
--- a/util/util.go
+++ b/util/util.go
@@ -116,7 +116,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0


From 528083f0e8744edba8358ba1864ed1ff3cfd64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 06/20] fix: report derivation errors from GenerateRange

As in DeriveBIP32Result, a failing step (a hardened index below a public
key, an unregistered version) was ignored and all-zero keys were listed.
---
 util/key_path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..e4cedd3 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -95,7 +95,11 @@ func (k *KeyPathRange) GenerateRange() error {
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		var err error
+		currentKey, err = currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
-- 
2.43.0


From 5487500c350e356404c59b448cb0a0f07534ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 07/20] fix: reject inverted ranges in GenerateRange

The unsigned difference of an inverted range wraps around and passed the
check, so the call succeeded with an empty list.
---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index e4cedd3..5ce310f 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -77,7 +77,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if endIndex <= startIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
-- 
2.43.0


From 33ffa9c25f94e592149ed41cdb415bc49809605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 08/20] fix: pad public key coordinates before hashing them
 into an address

big.Int.Bytes drops leading zero bytes, so AddrHex returned a wrong
address for the one key in 128 that has a coordinate starting with a zero
byte.
---
 util/key_path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 5ce310f..87c4256 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,10 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	// both coordinates are hashed with their full width
+	addrBs := make([]byte, 64)
+	x.FillBytes(addrBs[:32])
+	y.FillBytes(addrBs[32:])
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From 140821f4602a8b9d2a676b82c0e21cb75c7711a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 09/20] fix: size the mnemonic byte array by its words

EntropyFromMnemonic accepts any whitespace between and around the words,
but MnemonicToByteArray counted the words by single spaces, so the same
mnemonic written with tabs, newlines or extra spaces gave an array of
another length.
---
 bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..be35dd8 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -216,7 +216,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
+		mnemonicSlice   = strings.Fields(mnemonic)
 		entropyBitSize  = len(mnemonicSlice) * 11
 		checksumBitSize = entropyBitSize % 32
 		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From f7fc9d8a23a4ada2745494e06a651f1fdfd034d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 10/20] fix: report failures of the random source from
 NewEntropy

The error was ignored and the zeroed (or partly filled) buffer was
returned as entropy.
---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index be35dd8..188bf11 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0


From 4e2fe23bf15d02ef3e24b1ecbf894276a21c4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 11/20] fix: don't write to the caller's buffer in Deserialize

Short input was extended with append, which zeroes the bytes behind the
slice when its backing array has room.
---
 bip32/bip32.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4af70ed..1e50f27 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -301,8 +301,9 @@ func (key *Key) IsValid() bool {
 func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
 		if len(data) < 82 {
-			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
+			padded := make([]byte, 82)
+			copy(padded, data)
+			data = padded
 		}
 		return Key(data[:78]), ErrSerializedKeyWrongSize
 	}
-- 
2.43.0


From 6464f341b2fc601221b5d763024f51141bb3468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 12/20] fix: list P2PKT for Nexa Testnet as SLIP-0132 does

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 036d09f..fa709ce 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -361,7 +361,7 @@ var (
 		PvKeyPrefix:   "xprv",
 		PubKeyFlag:    0x043587cf,
 		PubKeyPrefix:  "xpub",
-		AddrEncodings: []AddrEncoding{P2PKH, P2SH},
+		AddrEncodings: []AddrEncoding{P2PKT, P2PKH, P2SH},
 		Path:          "m/44'/1'",
 	}
 	Polispprvppub = VersionBytes{
-- 
2.43.0


From 915f07e2c2c2dd822d2eb3c088b9eefb1aa27e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 13/20] fix: reject deserialized keys that BIP-32 declares
 invalid

Only length and checksum were checked, so keys with a zero or too large
scalar, with public key data that is no curve point, with a version of
the other kind (an "xpub" text holding a private key) or of depth 0 with
a parent (BIP-32 test vector 5) were accepted and derived from.
---
 bip32/bip32.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 1e50f27..226b81d 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/btcsuite/btcutil/base58"
+	"github.com/decred/dcrd/dcrec/secp256k1/v4"
 )
 
 type Version [4]byte
@@ -71,6 +72,10 @@ var (
 	// ErrInvalidPublicKey is returned when a derived public key is invalid
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
+	// ErrInvalidMasterKey is returned when deserializing a key of depth 0 that has
+	// a parent fingerprint or a child number
+	ErrInvalidMasterKey = errors.New("invalid master key")
+
 	ErrEmptyKey = errors.New("key is empty")
 
 	// ErrDepthExceeded is returned when trying to derive a child of a key that
@@ -318,7 +323,34 @@ func Deserialize(data []byte) (Key, error) {
 			return Key(data[:78]), ErrInvalidChecksum
 		}
 	}
-	return Key(data[:78]), nil
+	key := Key(data[:78])
+	return key, key.validate()
+}
+
+// validate checks the content of an imported key as bip32 demands
+func (key *Key) validate() error {
+	_, isPvtVersion := PvtFlagToHDBytesSlice[key.GetVersion()]
+	_, isPubVersion := PubFlagToHDBytesSlice[key.GetVersion()]
+	if key.IsPrivate() {
+		if isPubVersion {
+			return ErrUnSupportedHDVersionBytes
+		}
+		if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
+			return err
+		}
+	} else {
+		if isPvtVersion {
+			return ErrUnSupportedHDVersionBytes
+		}
+		if _, err := secp256k1.ParsePubKey(key[PubKeyStartIndex:PubKeyEndIndex]); err != nil {
+			return ErrInvalidPublicKey
+		}
+	}
+	isMaster := key[DepthStartIndex] == 0
+	if isMaster && (key.GetFingerPrint() != FingerPrint{} || key.GetChildNumber() != ChildNumber{}) {
+		return ErrInvalidMasterKey
+	}
+	return nil
 }
 
 func (key *Key) SetVersionUint32(v uint32) {
-- 
2.43.0


From eb0ef4da833f22e16e556dd35348a76afbc0b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 14/20] fix: clear the output when the root key becomes invalid

The tabs kept showing the keys of the previous root key.
---
 examples/ui/one/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/ui/one/main.go b/examples/ui/one/main.go
index c11aad3..f1d71c1 100644
--- a/examples/ui/one/main.go
+++ b/examples/ui/one/main.go
@@ -153,6 +153,7 @@ var onRootKeyStrChange = func() {
 		bip32RootKeyField.SetText(rootKeyStr)
 	} else {
 		bps.SetRootKey(bip32.Key{})
+		onKeyPathChange()
 	}
 }
 var OnDerivationPathChange = func() {
-- 
2.43.0


From bf647d75e3213c096c2c591c9aff3789f595281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 15/20] fix: select a tab again after the output was empty

With no tabs the selection became -1 and stayed there, so typing a
mnemonic word by word ended with tabs but without any details shown.
---
 examples/ui/one/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/ui/one/main.go b/examples/ui/one/main.go
index f1d71c1..2b1f372 100644
--- a/examples/ui/one/main.go
+++ b/examples/ui/one/main.go
@@ -86,6 +86,9 @@ var onKeyPathChange = func() {
 	if keyPathTabs.selected >= len(keyPathTabs.tabs) {
 		keyPathTabs.selected = len(keyPathTabs.tabs) - 1
 	}
+	if keyPathTabs.selected < 0 {
+		keyPathTabs.selected = 0
+	}
 }
 
 var onAutoCreateMnemonicClicked = func() {
-- 
2.43.0


From ea5c41589d5c8b1d5c3d0bfe48931147b11e5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 16/20] Revert "fix: select a tab again after the output was
 empty"

This reverts commit bf647d75e3213c096c2c591c9aff3789f595281a.
---
 examples/ui/one/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/examples/ui/one/main.go b/examples/ui/one/main.go
index 2b1f372..f1d71c1 100644
--- a/examples/ui/one/main.go
+++ b/examples/ui/one/main.go
@@ -86,9 +86,6 @@ var onKeyPathChange = func() {
 	if keyPathTabs.selected >= len(keyPathTabs.tabs) {
 		keyPathTabs.selected = len(keyPathTabs.tabs) - 1
 	}
-	if keyPathTabs.selected < 0 {
-		keyPathTabs.selected = 0
-	}
 }
 
 var onAutoCreateMnemonicClicked = func() {
-- 
2.43.0


From 0de3688d0912a4c53bc9242a9ec1fe0c37fd7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 17/20] Revert "fix: clear the output when the root key becomes
 invalid"

This reverts commit eb0ef4da833f22e16e556dd35348a76afbc0b741.
---
 examples/ui/one/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/examples/ui/one/main.go b/examples/ui/one/main.go
index f1d71c1..c11aad3 100644
--- a/examples/ui/one/main.go
+++ b/examples/ui/one/main.go
@@ -153,7 +153,6 @@ var onRootKeyStrChange = func() {
 		bip32RootKeyField.SetText(rootKeyStr)
 	} else {
 		bps.SetRootKey(bip32.Key{})
-		onKeyPathChange()
 	}
 }
 var OnDerivationPathChange = func() {
-- 
2.43.0


From 1e35f15cfacd833934a084245e1f2d4d7b1691f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 18/20] fix: accept exactly two hardened numbers as the path of
 version bytes

Paths without digits (m/'/0') were valid and had a coin number; numbers of nine and ten digits were refused.
---
 bip32/reg_ver_bytes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index fa709ce..7b46e09 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -72,8 +72,8 @@ func (h VersionBytes) PubKeyFlagBytes() [4]byte {
 }
 
 func (h VersionBytes) IsValid() bool {
-	regex := regexp.MustCompile(`^m/\d{0,8}'/\d{0,8}'$`)
-	return regex.MatchString(h.Path.String())
+	regex := regexp.MustCompile(`^m/\d{1,10}'/\d{1,10}'$`)
+	return regex.MatchString(h.Path.String()) && h.Path.IsValid()
 }
 
 func (h VersionBytes) IsRegistered() bool {
-- 
2.43.0


From 90a38d73b36e75fdaac4c1d3665f2209ef68b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 19/20] fix: return no partly random seed when the random
 source fails

---
 bip32/bip32.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 226b81d..786b2b3 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -429,6 +429,8 @@ func B58Deserialize(data string) (Key, error) {
 func NewSeed() ([]byte, error) {
 	// Well that easy, just make go read 256 random bytes into a slice
 	s := make([]byte, 256)
-	_, err := rand.Read(s)
-	return s, err
+	if _, err := rand.Read(s); err != nil {
+		return nil, err
+	}
+	return s, nil
 }
-- 
2.43.0


From 427c166c0c2a9166f7fe58cadf3c4f0b796fbd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 20/20] fix: don't write the checksum into the caller's buffer

---
 bip32/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..7bcf019 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,8 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	// a copy, as data may have room for the checksum that belongs to the caller
+	return append(data[:len(data):len(data)], checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0

