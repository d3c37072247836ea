From 29440f3a6fb5161131f13fa0477b9befa7cc522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 01/35] fix: event: Feed unsubscribe must remove the selected
 case, not truncate the list

---
 event/feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feed.go b/event/feed.go
index 28e5a8f..9e48d87 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -205,7 +205,7 @@ func (cs caseList) find(channel interface{}) int {
 
 // delete 从 cs 中移除给定的 case。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[:index+1]...)
+	return append(cs[:index], cs[index+1:]...)
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0


From 712013e473b9751eedac803a3ecffe9a98ffbcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 02/35] fix: event: Unsubscribe of an already ended Resubscribe
 subscription must not block

---
 event/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 2ea9897..cc24bf9 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -103,7 +103,7 @@ func ResubscribeErr(backoffMax time.Duration, fn ResubscribeErrFunc) Subscriptio
 		backoffMax: backoffMax,
 		fn:         fn,
 		err:        make(chan error),
-		unsub:      make(chan struct{}),
+		unsub:      make(chan struct{}, 1),
 	}
 	go s.loop()
 	return s
-- 
2.43.0


From 46be5a46cc3f6c09570a3c8ad3d8d54aa2dcbce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 03/35] fix: event: Resubscribe must release a subscription
 established while being unsubscribed

---
 event/subscription.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index cc24bf9..dbf5adc 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -174,7 +174,10 @@ func (s *resubscribeSub) subscribe() Subscription {
 			}
 		case <-s.unsub:
 			cancel()
-			<-subscribed// 避免泄露 s.fn goroutine。
+			// 避免泄露 s.fn goroutine，并释放它可能已经建立的订阅。
+			if err := <-subscribed; err == nil && sub != nil {
+				sub.Unsubscribe()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 0d81403437b8f5048cdc497120c49dc4e6fb7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 04/35] fix: common/math: PaddedBigBytes must pad to the
 requested length

---
 common/math/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 4d7df93..2d78daf 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -138,10 +138,10 @@ func FirstBitSet(v *big.Int) int {
 // PaddedBigBytes 将大整数编码为大端字节切片。长度
 // 切片至少有 n 个字节。
 func PaddedBigBytes(bigint *big.Int, n int) []byte {
-	if bigint.BitLen()/8 >= 8 {
+	if bigint.BitLen()/8 >= n {
 		return bigint.Bytes()
 	}
-	ret := make([]byte, 8)
+	ret := make([]byte, n)
 	ReadBits(bigint, ret)
 	return ret
 }
-- 
2.43.0


From f46ec8250d927be7ddea1d02fe00f7d7fc1c3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 05/35] fix: common/math: Exp must not modify its base argument

---
 common/math/big.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 2d78daf..410cc10 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -218,14 +218,15 @@ func S256(x *big.Int) *big.Int {
 //
 // 由@karalabe 和@chfast 提供
 func Exp(base, exponent *big.Int) *big.Int {
+	copyBase := new(big.Int).Set(base)
 	result := big.NewInt(1)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
 			if word&1 == 1 {
-				U256(result.Mul(result, base))
+				U256(result.Mul(result, copyBase))
 			}
-			U256(base.Mul(base, base))
+			U256(copyBase.Mul(copyBase, copyBase))
 			word >>= 1
 		}
 	}
-- 
2.43.0


From 1dfb0b5fa088f3a8cbd4d082b9521c3127635910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 06/35] fix: common: MixedcaseAddress.MarshalJSON must strip an
 upper-case 0X prefix

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index cc36bd3..6ff3a9a 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,7 +385,7 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
-	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0x") {
+	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
 	return json.Marshal(fmt.Sprintf("0x%s", ma.original))
-- 
2.43.0


From 7f6a62cc1a502ef71cd0306395b2cab54fa49840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 07/35] fix: common: close the bracket in
 MixedcaseAddress.String for invalid checksums

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index 6ff3a9a..fa914b1 100644
--- a/common/types.go
+++ b/common/types.go
@@ -401,7 +401,7 @@ func (ma *MixedcaseAddress) String() string {
 	if ma.ValidChecksum() {
 		return fmt.Sprintf("%s [chksum ok]", ma.original)
 	}
-	return fmt.Sprintf("%s [chksum INVALID", ma.original)
+	return fmt.Sprintf("%s [chksum INVALID]", ma.original)
 }
 
 // 如果地址具有有效校验和，则 ValidChecksum 返回 true
-- 
2.43.0


From b66970c2f3867f9ed14a079d0569bc4759d2d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 08/35] fix: crypto/sha3: minInt must return the smaller
 argument

---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 36b90a7..c9eba64 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -29,7 +29,7 @@ type digest struct {
 }
 
 func minInt(v1, v2 int) int {
-	if v1 <= v1 {
+	if v1 <= v2 {
 		return v1
 	}
 	return v2
-- 
2.43.0


From 9e972587f8356ca4c6a6ddbe6d81add5953b43a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 09/35] fix: crypto/sha3: the Keccak-f[1600] state is 25 lanes
 of 8 bytes

---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index c9eba64..f8b5ac3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -18,7 +18,7 @@ const sliceSize = 5
 const numLanes = sliceSize * sliceSize
 
 // stateSize 是 SHA3 内部状态的字节大小 (5 * 5 * WSize)
-const stateSize = laneSize * laneSize
+const stateSize = laneSize * numLanes
 
 // 摘要表示校验和的部分评估
 type digest struct {
-- 
2.43.0


From d98bf9b6f810063e8db93ad2ac8c622d66cf7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 10/35] fix: log: logfmt must print the key, not the value, on
 the left-hand side

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 6e49762..bca50e1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -169,7 +169,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		if !ok {
 			k, v = errorKey, formatLogfmtValue(k, term)
 		} else {
-			k = escapeString(v)
+			k = escapeString(k)
 		}
 
 		// XXX: 我们可能应该检查你所有的关键字节是否无效
-- 
2.43.0


From 4749f37f11bc9478302e34279e0b51a6f1418d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 11/35] fix: log: terminal format must print the origin without
 colour too

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index bca50e1..e6c545b 100644
--- a/log/format.go
+++ b/log/format.go
@@ -125,7 +125,7 @@ func TerminalFormat(usecolor bool) Format {
 			if color > 0 {
 				fmt.Fprintf(b, "\x1b[%dm%s\x1b[0m[%s|%s]%s %s ", color, lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			} else {
-				fmt.Fprintf(b, "%s[%s] %s ", lvl, r.Time.Format(termTimeFormat), msg)
+				fmt.Fprintf(b, "%s[%s|%s]%s %s ", lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			}
 		} else {
 			if color > 0 {
-- 
2.43.0


From c4db78c42341b618e0c9f9462a09a554769108fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 12/35] fix: log: logging before a handler is installed must
 not panic

---
 log/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/root.go b/log/root.go
index eeaab79..ac3bc5b 100644
--- a/log/root.go
+++ b/log/root.go
@@ -10,6 +10,10 @@ var (
 	stderrHandler = StreamHandler(os.Stderr, LogfmtFormat())
 )
 
+func init() {
+	root.SetHandler(DiscardHandler())
+}
+
 // New 返回具有给定上下文的新记录器。
 // New 是 Root().New 的一个方便的别名
 func New(ctx ...interface{}) Logger {
-- 
2.43.0


From 2ab5cd8313e409696070813e1976ef46423ad395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 13/35] fix: log: normalizing an odd context must not write
 into the caller's slice

---
 log/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log/logger.go b/log/logger.go
index 809fb06..f2e3ce8 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -207,7 +207,8 @@ func normalize(ctx []interface{}) []interface{} {
 	// that things are the right length and users can fix bugs
 	// when they see the output looks wrong
 	if len(ctx)%2 != 0 {
-		ctx = append(ctx, nil, errorKey, "Normalized odd number of arguments by adding nil")
+		// never append into spare capacity of a slice owned by the caller
+		ctx = append(ctx[:len(ctx):len(ctx)], nil, errorKey, "Normalized odd number of arguments by adding nil")
 	}
 
 	return ctx
-- 
2.43.0


From 7a042bf99fc76611f55912831ab76c6b6edbe7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 14/35] fix: rlp: only fields after an optional field must be
 optional

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 12a7185..9c76c52 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -135,7 +135,7 @@ func ProcessFields(allFields []Field) ([]Field, []Tags, error) {
 			}
 			anyOptional = true
 		} else {
-			if !anyOptional {
+			if anyOptional {
 				msg := fmt.Sprintf("must be optional because preceding field %q is optional", firstOptionalName)
 				return nil, nil, TagError{Field: name, Err: msg}
 			}
-- 
2.43.0


From 41a24d9663615cd0b8188a25e5fb6a96d2b1246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 15/35] fix: rlp: accept the documented "tail" struct tag

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 9c76c52..91d74d6 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -172,7 +172,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			if ts.Tail {
 				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
 			}
-		case "tali":
+		case "tail":
 			ts.Tail = true
 			if field.Index != lastPublic {
 				return ts, TagError{Field: name, Tag: t, Err: "must be on last field"}
-- 
2.43.0


From 0253e20720edd330ac5c16511c44aee7eef72cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 16/35] fix: rlp: the "nil" tag takes its kind from the
 pointed-to type

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 91d74d6..cb43dbf 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -161,7 +161,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			}
 			switch t {
 			case "nil":
-				ts.NilKind = field.Type.DefaultNilValue()
+				ts.NilKind = field.Type.Elem.DefaultNilValue()
 			case "nilString":
 				ts.NilKind = NilKindString
 			case "nilList":
-- 
2.43.0


From 5dedddf3c6811bfde6f8b56c22ef138bc987e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 17/35] fix: rlp: separate "field" from the field name in
 TagError

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index cb43dbf..807aeef 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -92,7 +92,7 @@ type TagError struct {
 }
 
 func (e TagError) Error() string {
-	field := "field" + e.Field
+	field := "field " + e.Field
 	if e.StructType != "" {
 		field = e.StructType + "." + e.Field
 	}
-- 
2.43.0


From 4b339f01e3d62ad5a6e4e3a046accec598e88175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 18/35] fix: common/hexutil: an empty number string is
 ErrEmptyString

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 35ced3d..43cba21 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -174,7 +174,7 @@ func EncodeBig(bigint *big.Int) string {
  
 func checkNumber(input string) (raw string, err error) {
 	if len(input) == 0 {
-		return "", ErrEmptyNumber
+		return "", ErrEmptyString
 	}
 	if !has0xPrefix(input) {
 		return "", ErrMissingPrefix
-- 
2.43.0


From c1f273684a38dbc5948a878ff4adc428641a6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 19/35] fix: common/hexutil: out-of-range uint64 input is
 ErrUint64Range

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 43cba21..3bcd891 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -212,7 +212,7 @@ func mapError(err error) error {
 	if err, ok := err.(*strconv.NumError); ok {
 		switch err.Err {
 		case strconv.ErrRange:
-			return ErrUintRange
+			return ErrUint64Range
 		case strconv.ErrSyntax:
 			return ErrSyntax
 		}
-- 
2.43.0


From be7a517276c47f72f09fcd55bc6cadf46a862d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 20/35] fix: crypto: curve addition must handle equal points
 and the point at infinity

---
 crypto/curve.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crypto/curve.go b/crypto/curve.go
index cc5c239..31aa690 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -51,6 +51,10 @@ func (BitCurve *BitCurve) IsOnCurve(x, y *big.Int) bool {
 
 //反转雅可比变换
 func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.Int) {
+	if z.Sign() == 0 {
+		// the point at infinity is represented by (0, 0)
+		return new(big.Int), new(big.Int)
+	}
 	zinv := new(big.Int).ModInverse(z, BitCurve.P)
 	zinvsq := new(big.Int).Mul(zinv, zinv)
 
@@ -64,6 +68,13 @@ func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.
 
 //返回 (x1,y1) 和 (x2,y2) 的总和
 func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
+	// adding the point at infinity preserves the other point
+	if x1.Sign() == 0 && y1.Sign() == 0 {
+		return new(big.Int).Set(x2), new(big.Int).Set(y2)
+	}
+	if x2.Sign() == 0 && y2.Sign() == 0 {
+		return new(big.Int).Set(x1), new(big.Int).Set(y1)
+	}
 	z := new(big.Int).SetInt64(1)
 	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z, x2, y2, z))
 }
@@ -72,6 +83,12 @@ func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
 // (x2, y2, z2) 并返回它们的总和，也是雅可比形式。
 func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int, *big.Int, *big.Int) {
 	// See http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
+	if z1.Sign() == 0 {
+		return x2, y2, z2
+	}
+	if z2.Sign() == 0 {
+		return x1, y1, z1
+	}
 	z1z1 := new(big.Int).Mul(z1, z1)
 	z1z1.Mod(z1z1, BitCurve.P)
 	z2z2 := new(big.Int).Mul(z2, z2)
@@ -99,6 +116,10 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if r.Sign() == -1 {
 		r.Add(r, BitCurve.P)
 	}
+	if h.Sign() == 0 && r.Sign() == 0 {
+		// the addition formula does not cover equal points
+		return BitCurve.doubleJacobian(x1, y1, z1)
+	}
 	r.Lsh(r, 1)
 	v := new(big.Int).Mul(u1, i)
 
-- 
2.43.0


From 946ceb83ff464fb4f63c767ec67baedeeed4c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 21/35] fix: crypto: GenerateKey must not return the point at
 infinity

---
 crypto/curve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/curve.go b/crypto/curve.go
index 31aa690..fac661e 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -238,7 +238,7 @@ func (BitCurve *BitCurve) GenerateKey(rand io.Reader) (priv []byte, x, y *big.In
 	byteLen := (BitCurve.BitSize + 7) >> 3
 	priv = make([]byte, byteLen)
 
-	for x == nil {
+	for x == nil || (x.Sign() == 0 && y.Sign() == 0) {
 		_, err = io.ReadFull(rand, priv)
 		if err != nil {
 			return
-- 
2.43.0


From fd98f166f38b63c17f8ca27d89abbc183ee075db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 22/35] fix: crypto/sha3: round 1 of the permutation loaded its
 last plane into the wrong registers

---
 crypto/sha3/keccakf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/sha3/keccakf.go b/crypto/sha3/keccakf.go
index ad56f08..72f243e 100644
--- a/crypto/sha3/keccakf.go
+++ b/crypto/sha3/keccakf.go
@@ -115,15 +115,15 @@ func keccakF1600(a *[25]uint64) {
 		a[4] = bc4 ^ (bc1 &^ bc0)
 
 		t = a[15] ^ d0
-		bc2 = t<<41 | t>>(64-41)
+		bc3 = t<<41 | t>>(64-41)
 		t = a[21] ^ d1
-		bc3 = t<<2 | t>>(64-2)
+		bc4 = t<<2 | t>>(64-2)
 		t = a[2] ^ d2
-		bc4 = t<<62 | t>>(64-62)
+		bc0 = t<<62 | t>>(64-62)
 		t = a[8] ^ d3
-		bc0 = t<<55 | t>>(64-55)
+		bc1 = t<<55 | t>>(64-55)
 		t = a[14] ^ d4
-		bc1 = t<<39 | t>>(64-39)
+		bc2 = t<<39 | t>>(64-39)
 		a[15] = bc0 ^ (bc2 &^ bc1)
 		a[21] = bc1 ^ (bc3 &^ bc2)
 		a[2] = bc2 ^ (bc4 &^ bc3)
-- 
2.43.0


From fc6d85d5ae20d3e3595356a2897b14156868c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 23/35] fix: event: sending an untyped nil must not leave the
 feed locked

---
 event/feed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/event/feed.go b/event/feed.go
index 9e48d87..2d4b81a 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -111,6 +111,7 @@ func (f *Feed) remove(sub *feedSub) {
 // 它返回值被发送到的订阅者的数量。
 func (f *Feed) Send(value interface{}) (nsent int) {
 	rvalue := reflect.ValueOf(value)
+	rtype := rvalue.Type() // panics on an untyped nil, so before taking the send lock
 
 	f.once.Do(f.init)
 	<-f.sendLock
@@ -120,10 +121,10 @@ func (f *Feed) Send(value interface{}) (nsent int) {
 	f.sendCases = append(f.sendCases, f.inbox...)
 	f.inbox = nil
 
-	if !f.typecheck(rvalue.Type()) {
+	if !f.typecheck(rtype) {
 		f.sendLock <- struct{}{}
 		f.mu.Unlock()
-		panic(feedTypeError{op: "Send", got: rvalue.Type(), want: f.etype})
+		panic(feedTypeError{op: "Send", got: rtype, want: f.etype})
 	}
 	f.mu.Unlock()
 
-- 
2.43.0


From ff765ab8598b13a19eb608f36fcb4f2b7de2c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 24/35] fix: event: FeedOf must deliver nil values of interface
 types

---
 event/feedof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feedof.go b/event/feedof.go
index 1d001a8..8f86e5d 100644
--- a/event/feedof.go
+++ b/event/feedof.go
@@ -72,7 +72,7 @@ func (f *FeedOf[T]) remove(sub *feedOfSub[T]) {
 // Send 同时传送到所有订阅的频道。
 // 它返回值被发送到的订阅者的数量。
 func (f *FeedOf[T]) Send(value T) (nsent int) {
-	rvalue := reflect.ValueOf(value)
+	rvalue := reflect.ValueOf(&value).Elem() // valid also for a nil interface value
 
 	f.once.Do(f.init)
 	<-f.sendLock
-- 
2.43.0


From 396c44141d94e55d6b32d9272bb8d602cfdc7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 25/35] fix: event: TypeMux.Unsubscribe must not hide an open
 subscription from a concurrent Stop

---
 event/event.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/event/event.go b/event/event.go
index fcc6824..3992d0c 100644
--- a/event/event.go
+++ b/event/event.go
@@ -160,8 +160,10 @@ func (s *TypeMuxSubscription) Chan() <-chan *TypeMuxEvent {
 }
 
 func (s *TypeMuxSubscription) Unsubscribe() {
-	s.mux.del(s)
+	// close before leaving the mux: a concurrent Stop must find the
+	// subscription and wait for its deliveries.
 	s.closewait()
+	s.mux.del(s)
 }
 
 func (s *TypeMuxSubscription) Closed() bool {
-- 
2.43.0


From e03b028f3a331d5aa060918073bd6916b39174b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 26/35] fix: common/mclock: do not lose a due alarm deadline
 when rescheduling

Schedule stopped the pending timer of a deadline that had been reached but
whose timer had not fired yet, and armed the new, later one instead, so the
first notification was lost.
---
 common/mclock/alarm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/mclock/alarm.go b/common/mclock/alarm.go
index aada3fb..e33f6ea 100644
--- a/common/mclock/alarm.go
+++ b/common/mclock/alarm.go
@@ -66,7 +66,10 @@ func (e *Alarm) schedule(now, newDeadline AbsTime) {
 			// 重新安排。
 			return
 		}
-		e.timer.Stop()
+		if e.timer.Stop() && e.deadline <= now {
+			// The old deadline is due, but its timer had not fired yet.
+			e.send()
+		}
 	}
 
 	// 设置定时器。
-- 
2.43.0


From 49d89ab8fb4e008fe2503b3f16cdbbf656b9dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 27/35] fix: log: LazyHandler must not panic on a nil lazy
 function

Like every other lazy value that cannot be evaluated it becomes an error note.
---
 log/handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/log/handler.go b/log/handler.go
index 82a60f6..a4ae5ea 100644
--- a/log/handler.go
+++ b/log/handler.go
@@ -281,10 +281,14 @@ func LazyHandler(h Handler) Handler {
 func evaluateLazy(lz Lazy) (interface{}, error) {
 	t := reflect.TypeOf(lz.Fn)
 
-	if t.Kind() != reflect.Func {
+	if t == nil || t.Kind() != reflect.Func {
 		return nil, fmt.Errorf("INVALID_LAZY, not func: %+v", lz.Fn)
 	}
 
+	if reflect.ValueOf(lz.Fn).IsNil() {
+		return nil, fmt.Errorf("INVALID_LAZY, nil func: %T", lz.Fn)
+	}
+
 	if t.NumIn() > 0 {
 		return nil, fmt.Errorf("INVALID_LAZY, func takes args: %+v", lz.Fn)
 	}
-- 
2.43.0


From b4caa06aa1e8252c04d2c12fbd2f8692dee85a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 28/35] fix: log: end the JSON error record with a newline too
 when lines are separated

---
 log/format.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/log/format.go b/log/format.go
index e6c545b..e4557c1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -238,7 +238,6 @@ func JSONFormatOrderedEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 		if lineSeparated {
 			b = append(b, '\n')
@@ -278,7 +277,6 @@ func JSONFormatEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 
 		if lineSeparated {
-- 
2.43.0


From 12ff52af61ad651a69635888c945f6b342ce8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 29/35] fix: rlpgen: zero check of optional big.Int and
 non-comparable struct fields must compile; accept predeclared named types in
 isBigInt

---
 rlp/rlpgen/types.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index f24e4fb..2db7ec2 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/types"
 	"reflect"
+	"strings"
 )
 
 // typeReflectKind 给出代表 typ 的 reflect.Kind。
@@ -47,6 +48,12 @@ func typeReflectKind(typ types.Type) reflect.Kind {
 func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 	// Resolve type name.
 	typ := resolveUnderlying(vtyp)
+	if isBigInt(vtyp) {
+		return fmt.Sprintf("%s.Sign() != 0", v)
+	}
+	if st, ok := typ.(*types.Struct); ok && !types.Comparable(st) {
+		return nonZeroFieldsCheck(v, st, qualify)
+	}
 	switch typ := typ.(type) {
 	case *types.Basic:
 		k := typ.Kind()
@@ -71,6 +78,22 @@ func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 	}
 }
 
+// nonZeroFieldsCheck 返回逐字段检查不可比较的结构体“v”是否非零的表达式。
+func nonZeroFieldsCheck(v string, typ *types.Struct, qualify types.Qualifier) string {
+	var checks []string
+	for i := 0; i < typ.NumFields(); i++ {
+		f := typ.Field(i)
+		if !f.Exported() || reflect.StructTag(typ.Tag(i)).Get("rlp") == "-" {
+			continue // not part of the encoding
+		}
+		checks = append(checks, nonZeroCheck(v+"."+f.Name(), f.Type(), qualify))
+	}
+	if len(checks) == 0 {
+		return "false"
+	}
+	return "(" + strings.Join(checks, " || ") + ")"
+}
+
 // isBigInt 检查 'typ' 是否为 "math/big".Int。
 func isBigInt(typ types.Type) bool {
 	named, ok := typ.(*types.Named)
@@ -78,7 +101,7 @@ func isBigInt(typ types.Type) bool {
 		return false
 	}
 	name := named.Obj()
-	return name.Pkg().Path() == "math/big" && name.Name() == "Int"
+	return name.Pkg() != nil && name.Pkg().Path() == "math/big" && name.Name() == "Int"
 }
 
 // isByte 检查 'typ' 的底层类型是否为 uint8。
-- 
2.43.0


From b9defb284f93e0cd5027e90feb2c2ec486da29e9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 30/35] fix: rpc: pass the arguments of a call to the callback

---
 rpc/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpc/service.go b/rpc/service.go
index 83e80c0..427c04b 100644
--- a/rpc/service.go
+++ b/rpc/service.go
@@ -172,6 +172,7 @@ func (c *callback) call(ctx context.Context, method string, args []reflect.Value
 	if c.hasCtx {
 		fullargs = append(fullargs, reflect.ValueOf(ctx))
 	}
+	fullargs = append(fullargs, args...)
 
 	// 在运行回调时捕获 panic。
 	defer func() {
-- 
2.43.0


From a0db81dc9ec81de8483ef1fb6fde32ceb857c058 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 31/35] fix: rpc: leave the empty method out of responses

---
 rpc/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/json.go b/rpc/json.go
index ccd364e..f6d434c 100644
--- a/rpc/json.go
+++ b/rpc/json.go
@@ -31,7 +31,7 @@ type subscriptionResult struct {
 type jsonrpcMessage struct {
 	Version string          `json:"jsonrpc,omitempty"`
 	ID      json.RawMessage `json:"id,omitempty"`
-	Method  string          `json:"method, omitempty"`
+	Method  string          `json:"method,omitempty"`
 	Params  json.RawMessage `json:"params,omitempty"`
 	Error   *jsonError      `json:"error,omitempty"`
 	Result  json.RawMessage `json:"result,omitempty"`
-- 
2.43.0


From ea04a71d572f4af2207157cbf281b91148afca1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 32/35] fix: rpc: use the whole random seed for subscription
 IDs

---
 rpc/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index 8c5a61d..ad10b12 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -37,7 +37,7 @@ func randomIDGenerator() func() ID {
 	var buf = make([]byte, 8)
 	var seed int64
 	if _, err := crand.Read(buf); err == nil {
-		seed = int64(binary.BigEndian.Uint16(buf))
+		seed = int64(binary.BigEndian.Uint64(buf))
 	} else {
 		seed = int64(time.Now().Nanosecond())
 	}
-- 
2.43.0


From cb37671b615513d6f689d664f18c581a34648a66 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 33/35] fix: rpc: the end of a client subscription must not
 wait for a reader of its error

---
 rpc/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/subscription.go b/rpc/subscription.go
index ad10b12..4969070 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -220,7 +220,7 @@ func newClientSubscription(c *Client, namespace string, channel reflect.Value) *
 		quit:        make(chan error),
 		forwardDone: make(chan struct{}),
 		unsubDone:   make(chan struct{}),
-		err:         make(chan error),
+		err:         make(chan error, 1),
 	}
 	return sub
 }
-- 
2.43.0


From 3388be5b4ac1cc194748a63d66ab8c92c49c307c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 34/35] fix: rpc: type errors in the handler, the request and
 the notifier

---
 rpc/client.go       | 2 +-
 rpc/handler.go      | 5 ++---
 rpc/subscription.go | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/rpc/client.go b/rpc/client.go
index b53d6b7..d4c3d0f 100644
--- a/rpc/client.go
+++ b/rpc/client.go
@@ -100,5 +100,5 @@ type requestOp struct {
 	ids []json.RawMessage
 	err error
 	resp chan *jsonrpcMessage // 最多接收 len(ids) 个响应
-	sub *ClientSub
+	sub *ClientSubscription
 }
diff --git a/rpc/handler.go b/rpc/handler.go
index 5577a11..f697ed2 100644
--- a/rpc/handler.go
+++ b/rpc/handler.go
@@ -3,7 +3,7 @@ package rpc
 import (
 	"context"
 	"encoding/json"
-	"log"
+	"flychain/log"
 	"reflect"
 	"strconv"
 	"strings"
@@ -243,9 +243,8 @@ func (h *handler) handlerImmediate(msg *jsonrpcMessage) bool {
 		h.handleResponse(msg)
 		h.log.Trace("Handled RPC response", "reqid", idForLog{msg.ID}, "duration", time.Since(start))
 		return true
-	default:
-		return false
 	}
+	return false
 }
 
 // handleSubscriptionResult 处理订阅通知。
diff --git a/rpc/subscription.go b/rpc/subscription.go
index 4969070..e2461ff 100644
--- a/rpc/subscription.go
+++ b/rpc/subscription.go
@@ -125,7 +125,7 @@ func (n *Notifier) Notify(id ID, data interface{}) error {
 // Closed 返回一个在 RPC 连接关闭时关闭的通道。
 // 弃用：使用订阅错误通道
 func (n *Notifier) Closed() <-chan interface{} {
-	return n.h.conn.closed
+	return n.h.conn.closed()
 }
 
 // takeSubscription 返回订阅（如果已经创建）。没有订阅可以
-- 
2.43.0


From 2dc0f423716d2d742aa9f070a4a03f4004ee0d66 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 35/35] fix: rpc: start a client subscription on success, not
 on failure

---
 rpc/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpc/handler.go b/rpc/handler.go
index f697ed2..4db06cc 100644
--- a/rpc/handler.go
+++ b/rpc/handler.go
@@ -278,8 +278,9 @@ func (h *handler) handleResponse(msg *jsonrpcMessage) {
 	defer close(op.resp)
 	if msg.Error != nil {
 		op.err = msg.Error
+		return
 	}
-	if op.err = json.Unmarshal(msg.Result, &op.sub.subid); op.err != nil {
+	if op.err = json.Unmarshal(msg.Result, &op.sub.subid); op.err == nil {
 		go op.sub.run()
 		h.clientSubs[op.sub.subid] = op.sub
 	}
-- 
2.43.0

