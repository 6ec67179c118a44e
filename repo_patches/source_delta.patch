From d2cd87e6147bff5ad2239c1f65830aaf7f723aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 01/61] fix: insert a key smaller than all others at the front
 of an ordered tuple map

---
 funcs/funcs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..49a2edb 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -683,7 +683,12 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
 
 	default:
-		// index of tuple that a new tuple should be inserted after
+		// index of tuple that a new tuple should be inserted after, unless the key is less than the first key, where the
+		// search also returns index 0
+		if key < (*mp)[index].T {
+			index--
+		}
+
 		// due to pointer used for original slice, we have to start building from an empty slice
 		*mp = append(append(append([]tuple.Two[K, []V]{}, (*mp)[:index+1]...), tuple.Of2(key, []V{value})), (*mp)[index+1:]...)
 	}
-- 
2.43.0


From 78ee52fa8a3c97da0e1c36f14263fee38b76874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 02/61] fix: iterate maps that contain nil interface keys or
 values

---
 iter/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..4333410 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -67,7 +67,10 @@ func MapIterGen[K comparable, V any](m map[K]V) func() (tuple.Two[K, V], error)
 			return zv, EOI
 		}
 
-		return tuple.Of2(mi.Key().Interface().(K), mi.Value().Interface().(V)), nil
+		// If K or V is an interface type, a nil key or value cannot be type asserted
+		k, _ := mi.Key().Interface().(K)
+		v, _ := mi.Value().Interface().(V)
+		return tuple.Of2(k, v), nil
 	}
 }
 
-- 
2.43.0


From c8bcc3f7ae0d31cb9451bfb9ec4ec7bceb8e319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 03/61] fix: byte iterator repeats its error, and copes with
 every legal way an io.Reader can end

---
 iter/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 4333410..6dc1273 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -192,12 +192,13 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		// A read may return no byte without an error, or the last byte together with an error
+		if _, err = goio.ReadFull(src, buf); err != nil {
 			done = true
 			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
 					}
 				}
 			}
-- 
2.43.0


From 45a983ad8f216579d761b97d1c1e3b30e1ece1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 04/61] fix: rune iterator decodes runes whose bytes arrive in
 several reads

---
 iter/gen.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 6dc1273..b52d927 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -236,12 +236,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 	// See https://en.wikipedia.org/wiki/UTF-8 for further details
 
 	var (
-		done  = src == nil
-		err   = EOI
-		n, eb int
-		buf   = make([]byte, 3)
-		b     byte
-		r     rune
+		done = src == nil
+		err  = EOI
+		eb   int
+		buf  = make([]byte, 3)
+		b    byte
+		r    rune
 	)
 
 	return func() (rune, error) {
@@ -251,12 +251,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		// A reader may return fewer bytes than asked for, or the last byte together with an error, so use ReadFull
+		if _, err = goio.ReadFull(src, buf[0:1]); err != nil {
 			done = true
 
-			// Should be a non-nil error if 0 bytes were returned, but don't assume
 			// Translate EOF to EOI
-			if ((n == 0) && (err == nil)) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = EOI
 			}
 
@@ -288,9 +288,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
+		if _, err = goio.ReadFull(src, buf[0:eb]); err != nil {
+			done = true
+
 			// Not enough extra bytes exist or some other error
-			if (err == nil) || (err == goio.EOF) {
+			if (err == goio.ErrUnexpectedEOF) || (err == goio.EOF) {
 				err = InvalidUTF8EncodingError
 			}
 
-- 
2.43.0


From 55e628c79aafb296fb2838bdfde8cd824c70cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 05/61] fix: rune iterator rejects surrogates and overlong
 encodings, and repeats a decoding error

---
 iter/gen.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index b52d927..ef71bf0 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -304,6 +304,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -326,11 +327,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 				(rune(buf[1]&0b00_111111) << 6) |
 				(rune(buf[2] & 0b00_111111))
 
-			// Cannot exceed maximum value
-			if r > utf8.MaxRune {
-				err = InvalidUTF8EncodingError
-				return 0, err
-			}
+		}
+
+		// Cannot exceed maximum value, be a surrogate, or use more bytes than necessary
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
 		}
 
 		// Valid multiple bytes
-- 
2.43.0


From 0e933d3afa41f75664c50525c2250dc38d5c219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 06/61] fix: line iterator only skips a line feed directly
 after a carriage return

---
 iter/gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iter/gen.go b/iter/gen.go
index ef71bf0..56cc47d 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -397,6 +397,7 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From b15e23c8f44f0e6d4d36c00c4c36592514eb04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 07/61] fix: expand maps that contain nil interface keys or
 values

---
 stream/stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..f15e407 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -589,9 +589,11 @@ func ExpandMaps[K comparable, V any](it iter.Iter[map[K]V]) iter.Iter[tuple.Two[
 			}
 		}
 
-		val := tuple.Of2(mr.Key().Interface().(K), mr.Value().Interface().(V))
+		// If K or V is an interface type, a nil key or value cannot be type asserted
+		k, _ := mr.Key().Interface().(K)
+		v, _ := mr.Value().Interface().(V)
 
-		return val, nil
+		return tuple.Of2(k, v), nil
 	})
 }
 
-- 
2.43.0


From 71b871e26cbc6bd030793df70c7b401b35869623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 08/61] fix: AbsBigOps does not modify the elements of the
 source

---
 stream/stream.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index f15e407..9796c43 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -5,6 +5,7 @@ package stream
 import (
 	"fmt"
 	gomath "math"
+	"math/big"
 	"math/bits"
 	"reflect"
 	"sync"
@@ -900,10 +901,23 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 	})(it)
 }
 
+// zeroBigOps returns a new zero value of one of the big types.
+// A *big.Float zero has precision zero, so that it takes on the precision of the first operation it is the result of.
+func zeroBigOps[T constraint.BigOps[T]]() T {
+	var zero T
+	conv.ToBigOps(0, &zero)
+	if bf, isa := any(zero).(*big.Float); isa {
+		bf.SetPrec(0)
+	}
+
+	return zero
+}
+
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
-		return v.Abs(v)
+		// Do not modify the element of the source
+		return zeroBigOps[T]().Abs(v)
 	})(it)
 }
 
-- 
2.43.0


From c3fa61b300d730f210c9ba9bd3bc54c946934ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 09/61] fix: sum and average of *big.Float values are not
 rounded to 4 bits

---
 stream/stream.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 9796c43..589a43c 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1016,30 +1016,28 @@ func AvgBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return iter.OfIter(
 		func() (T, error) {
 			var (
-				sum   T
+				sum   = zeroBigOps[T]()
+				items int
 				count T
-				one   T
 				val   T
 				avg   T
 				zv    T
 				err   error
 			)
-			conv.ToBigOps(0, &sum)
-			conv.ToBigOps(0, &count)
-			conv.ToBigOps(1, &one)
 
 			for {
 				if val, err = it.Next(); err == nil {
 					// Sum all values and count them
-					sum.Add(sum, val)
-					count.Add(count, one)
+					sum = zeroBigOps[T]().Add(sum, val)
+					items++
 				} else if err == iter.EOI {
-					if count.Sign() == 0 {
+					if items == 0 {
 						// Empty result
 						return zv, err
 					}
 
 					// Non-empty result - divisor = zero handled above, so Div will never fail
+					conv.ToBigOps(items, &count)
 					math.DivBigOps(sum, count, &avg)
 					break
 				} else {
@@ -1101,12 +1099,9 @@ func Sum[T constraint.IntegerAndFloat](it iter.Iter[T]) iter.Iter[T] {
 
 // SumBigOps is the *big.Int, *big.Float, *big.Rat specialization of Sum
 func SumBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
-	var sum T
-	conv.ToBigOps(0, &sum)
-
 	return Reduce(
 		func(a, b T) T {
-			return sum.Add(a, b)
+			return zeroBigOps[T]().Add(a, b)
 		},
 	)(it)
 }
-- 
2.43.0


From 47b92552517054f028af52b7be7a7c6a4855697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 10/61] fix: Parallel returns exactly the results of the
 transforms, even if there are fewer or more than items

---
 stream/stream.go | 49 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 589a43c..ca919a2 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1189,8 +1189,8 @@ func generateRanges(numItems uint, info []PInfo) [][]uint {
 // If the input has one item, the transforms are performed in the same thread.
 // If the input has two or more items, the above algorithm is used to perform transforms in two or more threads.
 //
-// If types T and U are the same, then a single slice is allocated to contain the input and modified in place to produce
-// the output. Otherwise, two slices are allocated, one for input and one for output.
+// The transforms may produce fewer or more results than there are items. The results of all threads are combined in the
+// order of the items they were produced from.
 func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInfo) func(iter.Iter[T]) iter.Iter[U] {
 	return func(source iter.Iter[T]) iter.Iter[U] {
 		// Get values into a slice
@@ -1216,42 +1216,27 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		// At least two items, as required by generateRanges. Get slice ranges.
 		sliceRanges := generateRanges(numItems, info)
 
-		// Determine a slice to use for the output
-		var (
-			zt     T
-			zu     U
-			output []U
-		)
-		if reflect.TypeOf(zt) == reflect.TypeOf(zu) {
-			// T and U are the same type, modify input slice in place
-			output = any(input).([]U)
-		} else {
-			// Create a separate output slice
-			output = make([]U, numItems)
-		}
-
 		// Create a WaitGroup that can wait for all threads to complete
 		var (
-			wg   sync.WaitGroup
-			errs = make([]error, len(sliceRanges))
+			wg      sync.WaitGroup
+			outputs = make([][]U, len(sliceRanges))
+			errs    = make([]error, len(sliceRanges))
 		)
 
-		// The function to execute in each thread, accepting source and target subslices
-		threadFn := func(threadNum int, in []T, out []U) {
+		// The function to execute in each thread, accepting source subslice
+		threadFn := func(threadNum int, in []T) {
 			// Decrement number of threads remaining once transforms are complete
 			defer wg.Done()
 
-			// Perform transforms and copy to output
-			_, threadErr := ReduceIntoSlice(out)(transforms(iter.OfSlice(in))).Next()
-
-			// In case an error occurs, populate the appropriate errs slot
-			errs[threadNum] = threadErr
+			// Perform transforms and collect the results, there may be fewer or more of them than there are items.
+			// In case an error occurs, populate the appropriate errs slot.
+			outputs[threadNum], errs[threadNum] = ReduceToSlice(transforms(iter.OfSlice(in))).Next()
 		}
 
 		// Create the threads, passing a subslice of input to each thread for processing
 		for threadNum, sliceRange := range sliceRanges {
 			wg.Add(1)
-			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]], output[sliceRange[0]:sliceRange[1]])
+			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]])
 		}
 
 		// Wait for threads to complete
@@ -1266,6 +1251,16 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 			}
 		}
 
-		return funcs.Ternary(err == nil, iter.OfSlice(output), iter.SetError(iter.OfEmpty[U](), err))
+		if err != nil {
+			return iter.SetError(iter.OfEmpty[U](), err)
+		}
+
+		// Combine the results in the order of the source items they were made of
+		output := make([]U, 0, numItems)
+		for _, o := range outputs {
+			output = append(output, o...)
+		}
+
+		return iter.OfSlice(output)
 	}
 }
-- 
2.43.0


From 488a4759aa5ed25e554365f1cd755c4d987b3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 11/61] fix: rounding a quotient of magnitude less than one
 away from zero keeps its sign

---
 math/math.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..bac0fee 100755
--- a/math/math.go
+++ b/math/math.go
@@ -29,7 +29,8 @@ func divSInt(de, dv int64, q *int64) {
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		// The sign of a zero quotient is lost, so the sign has to be determined from the operands
+		if (de < 0) == (dv < 0) {
 			*q++
 		} else {
 			*q--
@@ -314,9 +315,8 @@ var (
 				return DivByZeroErr
 			}
 
-			r := big.NewInt(0)
-			qbi.QuoRem(debi, dvbi, r)
-			r.Abs(r)
+			// The quotient may be the same *big.Int as the dividend or divisor, so use them before setting it
+			deSign, dvSign := debi.Sign(), dvbi.Sign()
 
 			halfdv := big.NewInt(0).SetBytes(dvbi.Bytes())
 			halfdv.Abs(halfdv)
@@ -324,8 +324,14 @@ var (
 
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
+
+			r := big.NewInt(0)
+			qbi.QuoRem(debi, dvbi, r)
+			r.Abs(r)
+
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
+				// The sign of a zero quotient is lost, so the sign has to be determined from the operands
+				if deSign == dvSign {
 					qbi.Add(qbi, big.NewInt(1))
 				} else {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From 0d549e8253a29bb87ead301a365eb6311b25874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 12/61] fix: an escaped double quote written as \u0022 does not
 end a JSON string

---
 encoding/json/parse/lex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..8fb7c6e 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -203,9 +203,13 @@ func lexString(it iter.Iter[rune]) (token, error) {
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
 			}
+
+			// val is an escaped char or escaped surrogate pair, which could be a double quote that does not end the string
+			str = append(str, val)
+			continue
 		}
 
-		// val is the next char to add, whether a plain or escaped char, or escaped surrogate pair
+		// val is the next char to add, which is a plain char
 		// Discard closing quote
 		if val == '"' {
 			break
-- 
2.43.0


From 2459b29ccfc53aa18a69e32f4c8713dba7f3e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 13/61] fix: a negative JSON number cannot have leading zeros

---
 encoding/json/parse/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 8fb7c6e..a3d3e0b 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -264,11 +264,12 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		}
 
 		if (val >= '0') && (val <= '9') {
-			haveDigit = true
 			str = append(str, val)
 			if leadingZero {
 				return die()
 			}
+			leadingZero = (!haveDigit) && (val == '0')
+			haveDigit = true
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
-- 
2.43.0


From 3c7ba9dd269b00b679dba868b772ce67a417ed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 14/61] fix: JSON array elements and object key values cannot
 be missing

---
 encoding/json/parse/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..e00ab47 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -134,6 +134,9 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			// A problem
 			return zv, err // Case 10
 		}
+		if value.Type() == json.Invalid {
+			return zv, fmt.Errorf(errObjectKeyRequiresValueMsg, key.value)
+		}
 		object[key.value] = value
 
 		// Expect a comma or closing brace
@@ -202,6 +205,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValueOrBracket
+			}
 
 			// Return first value
 			first = false
@@ -233,6 +239,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValue
+			}
 
 			return value, nil
 		}
-- 
2.43.0


From c05e1500978f33b6b024de1fc8bbdcb726346d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 15/61] fix: a JSON object cannot have a comma before the
 closing brace

---
 encoding/json/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index e00ab47..1655a16 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -92,8 +92,8 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			return zv, err // Case 2
 		}
 
-		// If closing brace, valid empty object
-		if key.typ == tCBrace {
+		// If closing brace, valid empty object, unless it follows a comma
+		if (key.typ == tCBrace) && (len(object) == 0) {
 			return json.MapToValue(object)
 		}
 
-- 
2.43.0


From 4a9037ded2a2a94dbf2b3c0ff1948df437b8acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 16/61] fix: a JSON document can only be followed by whitespace

---
 encoding/json/parse/parse.go | 39 ++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 1655a16..7cf8e55 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -24,6 +24,7 @@ var (
 	errArrayRequiresCommaOrBracket           = fmt.Errorf("A JSON array element must be followed by a comma or closing bracket")
 	errEmptyDocument                         = fmt.Errorf("A JSON document cannot be empty")
 	errObjectOrArrayRequired                 = fmt.Errorf("A JSON document must begin with a brace or bracket")
+	errExtraAfterDocument                    = fmt.Errorf("A JSON document cannot be followed by anything except whitespace")
 )
 
 // parseValue detects the type of value (object, array, string, number,  boolean, or null).
@@ -255,9 +256,20 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 	})
 }
 
+// endOfDocument reads past the end of a complete document, returning EOI if only whitespace follows it, else an error
+func endOfDocument(it iter.Iter[token]) error {
+	if _, err := it.Next(); err != nil {
+		// EOI or a problem
+		return err
+	}
+
+	return errExtraAfterDocument
+}
+
 // Iterate parses a JSON document into an iter[json.Value].
 // If the document is an object, the object is parsed completely before returning it as an iter of one element.
 // If the document is an array, the array top level elements are parsed as the returnd iter is iterated.
+// If anything except whitespace follows the document, the iter returns an error after the last element instead of EOI.
 //
 // Useful for cases like writing JSON data to a database, where the JSON input could contain a large number of records,
 // and it is preferable to store each record one at a time, or perhaps in batches of some fixed maximum size.
@@ -289,13 +301,31 @@ func Iterate(src io.Reader) iter.Iter[json.Value] {
 			return iter.SetError(iter.OfEmpty[json.Value](), err) // Case 3
 		}
 
-		return iter.OfOne(val)
+		var done bool
+		return iter.OfIter(func() (json.Value, error) {
+			if done {
+				var zv json.Value
+				return zv, endOfDocument(it)
+			}
+
+			done = true
+			return val, nil
+		})
 	}
 
 	// If array, return iter of array elements, which are parsed later as the iter is iterated
 	if firstTok.typ == tOBracket {
 		it.Unread(firstTok)
-		return parseArray(it)
+
+		arr := parseArray(it)
+		return iter.OfIter(func() (json.Value, error) {
+			val, err := arr.Next()
+			if err == iter.EOI {
+				err = endOfDocument(it)
+			}
+
+			return val, err
+		})
 	}
 
 	// Die if some other token exists that is not a brace or bracket
@@ -333,6 +363,11 @@ func Parse(src io.Reader) (json.Value, error) {
 			return zv, err // Case 3
 		}
 
+		// Only whitespace can follow the document
+		if err = endOfDocument(it); err != iter.EOI {
+			return zv, err
+		}
+
 		return doc, nil
 	}
 
-- 
2.43.0


From cf774119a72f2d18329d6ab7eca726fcba91b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 17/61] fix: a JSON number value has to be a JSON number as a
 whole

---
 encoding/json/value.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..5118298 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][-+]?[0-9]+)?$")
 
 // Error constants
 var (
@@ -227,8 +227,9 @@ func numberToValue(val any) (nval Value, err error) {
 			return
 		}
 
-		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A NumberString could be the empty string, or "foo" or some other value that is not a number.
+		// A float could be an infinity or NaN, which are not JSON numbers.
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From 56a21c617c36f782bf05b3493ea1f3c76573df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 18/61] fix: ToValue converts map[string]Value and []Value as
 its signature says

---
 encoding/json/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 5118298..27a31f4 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -86,7 +86,13 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+	} else if mp, isa := val.(map[string]Value); isa {
+		res, err = MapToValue(mp)
+
 		// Array
+	} else if slc, isa := val.([]Value); isa {
+		res, err = SliceToValue(slc)
+
 	} else if arr, isa := val.([]any); isa {
 		// recursive call
 		if res, err = SliceToValue(arr); err != nil {
-- 
2.43.0


From 037e45e92705505d22307b4ec26b56da22e63d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 19/61] fix: a subtype of string converts to a JSON string
 instead of panicking

---
 encoding/json/value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 27a31f4..c7da0c7 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -116,7 +116,8 @@ func toValue(val any) (res Value, err error) {
 			if typ.AssignableTo(goreflect.TypeOf(NumberString(""))) {
 				res, err = numberToValue(val.(NumberString))
 			} else {
-				res = StringToValue(val.(string))
+				// Could be a subtype of string
+				res = StringToValue(goreflect.ValueOf(val).String())
 			}
 
 			return
-- 
2.43.0


From bba76524d34df6031fe984c4f29ff37899b9b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 20/61] fix: quotes, backslashes and control characters are
 escaped in written JSON strings and keys

---
 encoding/json/write/write.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..30eabdb 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -3,11 +3,41 @@ package write
 // SPDX-License-Identifier: Apache-2.0
 
 import (
+	"fmt"
+
 	"github.com/bantling/micro/encoding/json"
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/io/writer"
 )
 
+// escapes are the characters of a string that have a short escape sequence
+var escapes = map[rune]rune{
+	'"':  '"',
+	'\\': '\\',
+	'\b': 'b',
+	'\f': 'f',
+	'\n': 'n',
+	'\r': 'r',
+	'\t': 't',
+}
+
+// quote converts a string into the runes of a JSON string, escaping quotes, backslashes, and ascii control characters
+func quote(str string) []rune {
+	data := []rune{'"'}
+
+	for _, val := range str {
+		if esc, haveIt := escapes[val]; haveIt {
+			data = append(data, '\\', esc)
+		} else if val < ' ' {
+			data = append(data, []rune(fmt.Sprintf("\\u%04x", val))...)
+		} else {
+			data = append(data, val)
+		}
+	}
+
+	return append(data, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +46,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(quote(jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +76,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(append(data, quote(k)...), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0


From dd54d526a05e2e6b2a3b23c8560f1439105705ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 21/61] fix: the string of a big.Float has all the digits of
 the value, not just 10

---
 conv/string.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conv/string.go b/conv/string.go
index e6f846d..d3d25fa 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -31,9 +31,16 @@ func BigIntToString(val *big.Int) string {
 	return val.String()
 }
 
-// BigFloatToString converts a *big.Float to a string
+// BigFloatToString converts a *big.Float to a string.
+// The string has as many digits as are needed to get the same value when it is converted to the same precision.
 func BigFloatToString(val *big.Float) string {
-	return val.String()
+	// String only provides up to 10 significant digits
+	str := val.String()
+	if inter, ok := new(big.Float).SetPrec(val.Prec()).SetString(str); ok && (inter.Cmp(val) == 0) {
+		return str
+	}
+
+	return val.Text('g', -1)
 }
 
 // BigRatToString converts a *big.Rat to a string.
-- 
2.43.0


From eceb26c3342a58b021b3d7f8d87eea6c6163652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 22/61] fix: a float converts to the big.Rat of exactly the
 same value

---
 conv/bigrat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 6a997c8..a6029c6 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -49,7 +49,7 @@ func BigFloatToBigRat(ival *big.Float, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Rat")
 	}
 
-	*oval, _ = big.NewRat(1, 1).SetString(BigFloatToString(ival))
+	*oval, _ = ival.Rat(nil)
 	return nil
 }
 
-- 
2.43.0


From 85e17d68e552e07a077ca61f721fc8d59ec1484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 23/61] fix: a small big.Rat converts to the nearest big.Float

---
 conv/bigfloat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 709b853..12e77cd 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -47,8 +47,8 @@ func BigIntToBigFloat(ival *big.Int, oval **big.Float) {
 // BigRatToBigFloat converts a *big.Rat to a *big.Float
 func BigRatToBigFloat(ival *big.Rat, oval **big.Float) {
 	// Use numerator to calculate the precision, shd be accurate since denominator is basically the exponent
-	prec := int(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
-	*oval, _, _ = big.ParseFloat(ival.FloatString(prec), 10, uint(prec), big.ToNearestEven)
+	prec := uint(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
+	*oval = new(big.Float).SetPrec(prec).SetRat(ival)
 
 	// Set accuracy to exact
 	(*oval).SetMode((*oval).Mode())
-- 
2.43.0


From b7859372af64ab0d91b9c71e0676c51c149322a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 24/61] fix: the normalized string of a big.Rat that is a
 decimal fraction is exact

---
 conv/string.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/conv/string.go b/conv/string.go
index d3d25fa..ccd30bd 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -5,6 +5,7 @@ package conv
 import (
 	"math/big"
 	"strconv"
+	"strings"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -51,12 +52,19 @@ func BigRatToString(val *big.Rat) string {
 
 // BigRatToNormalizedString converts a *big.Rat to a string.
 // The string will be formatted like an integer if the ratio is an int, else formatted like a float if it is not an int.
+// If the ratio is a decimal fraction the string is exact, else it is rounded (eg 1/3).
 func BigRatToNormalizedString(val *big.Rat) string {
 	if val.IsInt() {
 		return val.Num().String()
 	}
 
+	// A decimal fraction has at most as many decimals as the denominator has bits
+	str := val.FloatString(val.Denom().BitLen())
+	if inter, ok := new(big.Rat).SetString(str); ok && (inter.Cmp(val) == 0) {
+		return strings.TrimRight(str, "0")
+	}
+
 	var inter *big.Float
 	BigRatToBigFloat(val, &inter)
-	return inter.String()
+	return BigFloatToString(inter)
 }
-- 
2.43.0


From eb8aa1c33fcad4168229d75a365252d7e63519fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 25/61] fix: ErrorReader.Read reads no further than the bytes
 that remain

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From 9adb8c852b83fe1fd2d9784f097f4e08a9879bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 26/61] fix: ServeMux.Handle can be called while requests are
 being served

---
 rest/rest.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rest/rest.go b/rest/rest.go
index 060d1c2..041eca9 100755
--- a/rest/rest.go
+++ b/rest/rest.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"regexp"
+	"sync"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -46,6 +47,9 @@ type ServeMux struct {
 	// [](method, regexp, handler)
 	// A flat structure is used to disambiguate a 404 not found error from a 405 method not allowed error
 	handlers []tuple.Three[string, *regexp.Regexp, Handler]
+
+	// guards handlers, as Handle can be called while requests are being served
+	mu sync.RWMutex
 }
 
 // Handle maps the given method and regex string to the given handler.
@@ -74,6 +78,8 @@ func (sm *ServeMux) Handle(method, pattern string, handler Handler) error {
 	}
 
 	// Add method, pattern, and handler triple
+	sm.mu.Lock()
+	defer sm.mu.Unlock()
 	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
 
 	return nil
@@ -85,14 +91,20 @@ func (sm *ServeMux) MustHandle(method, pattern string, handler Handler) {
 }
 
 // ServeHTTP is http.Handler interface method
-func (sm ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+func (sm *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	// Get the method and url
 	method, url := r.Method, r.URL.Path
 
+	// The handlers registered so far. Handle only ever appends, so they can be iterated without holding the lock,
+	// which also allows handlers to call Handle.
+	sm.mu.RLock()
+	handlers := sm.handlers
+	sm.mu.RUnlock()
+
 	// Iterate the method, regexp, and handler triples to find the first method match and regexp url matches, if any
 	var urlMatched bool
 
-	for _, methodPatternHandler := range sm.handlers {
+	for _, methodPatternHandler := range handlers {
 		mMethod, mPattern, mHandler := methodPatternHandler.Values()
 		parts := mPattern.FindStringSubmatch(url)
 
-- 
2.43.0


From e5ed939df6551617a1fd7df35c26b99e863948b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 27/61] fix: OfRange panics if the initial value is outside of
 the range, or a bound is NaN

---
 math/range.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/math/range.go b/math/range.go
index 6b8eee4..fed10a2 100755
--- a/math/range.go
+++ b/math/range.go
@@ -46,14 +46,17 @@ func OfRange[T constraint.IntegerAndFloat](
 	maxMode RangeMode,
 	initial T,
 ) Range[T] {
-	if (min >= max) || (max <= min) {
+	// Also applies if either one is NaN
+	if !(min < max) {
 		var minStr, maxStr string
 		conv.To(min, &minStr)
 		conv.To(max, &maxStr)
 		panic(fmt.Errorf(errMinMaxMsg, minStr, maxStr))
 	}
 
-	return Range[T]{min, minMode, max, maxMode, initial}
+	r := Range[T]{min: min, minMode: minMode, max: max, maxMode: maxMode}
+	funcs.Must(r.SetValue(initial))
+	return r
 }
 
 // GetMin returns the minimum value and mode
-- 
2.43.0


From 4321f1f057dae724fa11dca8a5a18a38e48282df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 28/61] fix: SubInt handles the smallest value of a type

---
 math/math.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index bac0fee..83dbda3 100755
--- a/math/math.go
+++ b/math/math.go
@@ -459,10 +459,23 @@ func CmpComplex[T constraint.Complex](val1, val2 T) (res int) {
 // SubInt subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if over/underflow occurs.
 // See AddInt.
 func SubInt[T constraint.SignedInteger](me T, sed *T) error {
-	// Instead of actually subtracting, just add the additive inverse
-	*sed = -*sed
+	sign1, sign2 := me >= 0, *sed >= 0
+	*sed = me - *sed
+	newSign := *sed >= 0
+
+	// Only subtracting numbers of different signs can over/underflow, in which case the sign of the result is not the sign of me.
+	// Note that adding the additive inverse would not do, since the smallest number does not have one.
+	if (sign1 != sign2) && (sign1 != newSign) {
+		if sign1 {
+			// Positive wrapped around to negative
+			return OverflowErr
+		}
 
-	return AddInt(me, sed)
+		// Negative wrapped around to positive
+		return UnderflowErr
+	}
+
+	return nil
 }
 
 // SubUint subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if underflow occurs.
-- 
2.43.0


From b4eb32be67276d54d94cee2d2e9fb73826cd051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 29/61] fix: StringToDecimal rejects text around the number,
 and returns a normalized value

---
 math/decimal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index c6c1b16..d647855 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -16,7 +16,7 @@ import (
 
 var (
 	// optional minus sign, zero or more digits, optional dot and zero or more digits.
-	decimalRegex = regexp.MustCompile("(-?)([0-9]*)[.]?([0-9]*)")
+	decimalRegex = regexp.MustCompile("^(-?)([0-9]*)[.]?([0-9]*)$")
 
 	// Powers of 10 constants from 10^0 thru 10^18 (scale can be 0 - 18)
 	powersOf10 = []int64{
@@ -184,6 +184,8 @@ func StringToDecimal(value string) (d Decimal, err error) {
 		d.value = -d.value
 	}
 
+	// The result returns normalized values, so it is normalized itself
+	d.applyNormalization()
 	return
 }
 
-- 
2.43.0


From bccee0e197cdc7fc67f66c59cb6f148e1378a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 30/61] fix: AdjustDecimalScale can round a decimal that has no
 integer digits

---
 math/decimal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index d647855..2f9ea98 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -293,7 +293,8 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 	)
 
 	// Does d2 have enough remaining capacity for the required trailing zeroes to increase the scale?
-	if d2Capacity >= scaleDiff {
+	// Zero can have any scale
+	if (d2.value == 0) || (d2Capacity >= scaleDiff) {
 		// Easy solution - multiply d2 by 10 ^ scaleDiff, and set scale to match d1
 		for i := 0; i < scaleDiff; i++ {
 			d2.value *= 10
@@ -312,6 +313,12 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 			return fmt.Errorf(errValueTooSmallToRoundMsg, d2.String())
 		}
 
+		// Ensure d1 has at least one integer digit
+		if len1 <= scaleDiff {
+			str1 = strings.Repeat("0", scaleDiff-len1+1) + str1
+			len1 = len(str1)
+		}
+
 		// Round by manipulating digits directly in string as a []byte
 		dig1 := []byte(str1)
 
-- 
2.43.0


From ce3ab2cc112680fac02d7f8a53e8b0a1a1672d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 31/61] fix: Decimal.Mul rounds the exact result once

---
 math/decimal.go | 157 ++++++++++++------------------------------------
 1 file changed, 37 insertions(+), 120 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 2f9ea98..0c8d667 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -7,7 +7,6 @@ import (
     "math/big"
 	"regexp"
 	"slices"
-	"strconv"
 	"strings"
 
 	"github.com/bantling/micro/conv"
@@ -594,142 +593,60 @@ func (d Decimal) MustSub(o Decimal) Decimal {
 	return funcs.MustValue(d.Sub(o))
 }
 
-// Mul calculates d * o using one of two methods:
+// Mul calculates d * o exactly as a 128-bit result, and if the result has more than 18 digits, or a scale larger than 18,
+// rounds off as many decimal digits as needed, once, half away from zero.
 //
-// r = d * o is tried first
-// If r = 0, then return 0 scale 0.
-// If r / d = o, then if r > max value or < min value, we have a valid result 19 digits in length.
-//	- Round it to 18 with single divide by 10, and add 1 if remainder >= 5.
-//	- Given max int64 value starts with 92, divide by 10 and add 1 cannot go back up 19 digits.
+// Returns an overflow or underflow error if the result has more than 18 integer digits.
 //
-// Otherwise If r / d != o, it is a 64-bit overflow, use BigInt to multiply the two numbers, and get the base 10 string.
-// The resulting scale rs is d scale + o scale, and we need to round (length - 18) times:
-//  - Check that resulting scale >= length - 18. If not, the integer portion is too large, it is an overflow.
-//  - Otherwise, round length - 18 times to bring the result down to max of 18 digits.
-//
-// If the result is 0, return 0 scale 0, else return r scale rs.
+// If the result is 0, return 0 scale 0.
 func (d Decimal) Mul(o Decimal) (Decimal, error) {
-    // Ensure both values are non-negative
 	var (
-		dval = d.value
-		dpos = dval >= 0
+		err = fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
 
-		oval = o.value
-		opos = oval >= 0
+		// Exact result as a magnitude, scale, and sign
+		bi     = new(big.Int).Mul(big.NewInt(d.value), big.NewInt(o.value))
+		rscale = int(d.scale + o.scale)
+		rneg   = bi.Sign() < 0
 
-		rscale = d.scale + o.scale
+		// Number of decimal digits that have to be rounded off to have no more than 18 digits, and a scale of no more than 18
+		round = MaxOrdered(0, MaxOrdered(len(bi.Abs(bi).Text(10)), rscale)-decimalMaxScale)
 	)
 
-	if !dpos {
-		dval = -dval
-	}
-	if !opos {
-		oval = -oval
+	// The integer portion is too large if we have to round off more than just the decimals
+	if round > rscale {
+		return Decimal{}, err
 	}
 
-	// Try just multiplying the two 64-bit values together, and see if the result fits in 64 bits
-	var (
-		rval = dval * oval
-		rpos = dpos == opos
-	)
+	if round > 0 {
+		var (
+			power10 = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(round)), nil)
+			rmdr    = new(big.Int)
+		)
 
-    // Flag to track if we have a 19 digit number that could possibly round to 18, if scale > 0
-    var round19 bool
-
-	// If result is 0, nothing more to do
-	if dval != 0 {
-		// If rval / dval != oval, the binary result overflowed, and we have to use a different technique
-		// Otherwise, it is possible we have a 19 digit value that we can try and round down to 18
-		// Since we already checked dval != 0, we cannot get division by zero
-		if round19 = rval / dval == oval; !round19 {
-		    // If the scale is 0, it is an integer value that must overflow
-            if rscale == 0 {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-			// We need a 128-bit result, so use BigInt
-            bi := big.NewInt(dval)
-            bi = bi.Mul(bi, big.NewInt(oval))
-
-            // Get result as a decimal string, converted to a slice of ascii bytes
-            base10 := []byte(bi.Text(10))
-
-            // Normalize by removing insignificant 0s at the end, as long as they are after the decimal
-            for (rscale > 0) && (base10[len(base10)-1] - '0' == 0) {
-                rscale--
-                base10 = base10[:len(base10)-1]
-            }
-
-            // The length of the string - result scale = number of integer digits
-            // It is an overflow if the number of integer digits > 18
-            if (len(base10) - int(rscale) > 18) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-            // While the total length > 18, round off decimal digits until it isn't
-            // This may round to an integer, or may still have some decimals
-            var digit, carry byte
-            for ; len(base10) > 18; base10 = base10[:len(base10) - 1] {
-                digit = base10[len(base10) - 1] - '0' + carry
-                carry = 0
-                if digit >= 5 {
-                    carry = 1
-                }
-                rscale--
-            }
-
-            // Get final digit
-            digit = base10[len(base10) - 1] - '0'
-
-            // Convert byte slice back to a 64 bit int (cannot fail, as it is <= 18 digits in length)
-            rval, _ = strconv.ParseInt(string(base10), 10, 64)
-
-            // Add 1 if the final carry is 1 and final digit >= 5
-            // Let the binary add ripple the carry as needed
-            if (carry == 1) && (digit >= 5) {
-                rval++
-
-                // It is possible we just added 1 to an 18 digit value that became a 19 digit value
-                round19 = true
-            }
+		bi.QuoRem(bi, power10, rmdr)
+		if rmdr.Lsh(rmdr, 1).Cmp(power10) >= 0 {
+			bi.Add(bi, big.NewInt(1))
 		}
+
+		rscale -= round
+	}
+
+	rval := bi.Int64()
+	if rval > decimalMaxValue {
+		// Rounding up 18 9s is a 1 followed by 18 0s, we have to drop a 0 after the decimal
+		if rscale == 0 {
+			return Decimal{}, err
+		}
+
+		rval /= 10
+		rscale--
 	}
 
-    if round19 && (rval > decimalMaxValue) {
-        // If we have no decimal digits, we cannot round
-        if rscale == 0 {
-            return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-        }
-
-        // Round one digit
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-
-            // If we have 18 9's, then adding 1 would make it 19 digits again
-            if (rval > decimalMaxValue) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-        }
-    }
-
-    // If rscale > 18, then we need to round off digits until it is down to 18
-    for rscale > 18 {
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-        }
-        rscale--
-    }
-
-	// Perform common final operations, regardless of which technique was used to get the result
-	if !rpos {
+	if rneg {
 		rval = -rval
 	}
 
-	r := Decimal{value: rval, scale: rscale, denormalized: d.denormalized}
+	r := Decimal{value: rval, scale: uint(rscale), denormalized: d.denormalized}
 	r.applyNormalization()
 
 	return r, nil
-- 
2.43.0


From b96c1e569b3dc866a95472da4599dd22b03897e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 32/61] fix: Decimal.Div returns an error for a zero divisor,
 and generates no more digits than a Decimal has

---
 math/decimal.go | 109 +++++++++++++++++++++++-------------------------
 1 file changed, 53 insertions(+), 56 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 0c8d667..26c8980 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -845,8 +845,14 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 	// 	fmt.Printf("%s / %s\n", d, o)
 	dpos, opos := d.value >= 0, o.value >= 0
 
+	// If o is 0, return division by zero error
+	if o.value == 0 {
+		return Decimal{}, fmt.Errorf(errDecimalDivisionByZeroMsg, d)
+	}
+
 	// Make both values positive, for simplicity
-	dval, oval := d.value, o.value
+	// Use unsigned values, which can store any valid decimal value multiplied by 10
+	dval, oval := uint64(d.value), uint64(o.value)
 	if !dpos {
 		dval = -dval
 	}
@@ -854,85 +860,76 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 		oval = -oval
 	}
 
-	// Start with plain old division
-	q := dval / oval
-	r := dval % oval
+	var (
+		maxValue = uint64(decimalMaxValue)
+		err      = fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 
-	// Scale is dividend - divisor, could be negative
-	s := int(d.scale - o.scale)
+		// Start with plain old division
+		q = dval / oval
+		r = dval % oval
+
+		// Scale is dividend - divisor, could be negative
+		s = int(d.scale) - int(o.scale)
+	)
 
 	// If scale is negative, multiply q,r by 10^(-scale), set scale = 0
 	// If the multiplications go beyond the limit of digits, we have to error out
 	for s < 0 {
-		q *= 10
 		r *= 10
-		s += 1
+		q = q*10 + r/oval
+		r %= oval
+		s++
 
-		if q > decimalMaxValue {
+		if q > maxValue {
 			// Return over/underflow
-			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+			return Decimal{}, err
 		}
 	}
 
-	// If r != 0, perform successive multiply/divides until r = 0
-main_loop:
+	// If r != 0, generate one more decimal digit at a time, until r = 0 or there is no room for another digit
 	for r != 0 {
-		// Multiply q,r by 10 until r >= o
-		for r < oval {
-			nq, nr, ns := q*10, r*10, s+1
-			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
-
-			// If quotient exceeds max value, fall back on previous quotient, as most accurate result we can get
-			if nq > decimalMaxValue {
-				// fmt.Println("ran out of digits")
-
-				// Get next generated digit, so we know if we should round up the existing quotient
-				// Remainder may be < oval, multiply by 10 until it isn't
-				for nr < oval {
-					nr *= 10
-				}
-				nr /= oval
-				// fmt.Printf("next digit remainder = %d\n", nr)
-
-				// New remainder may be > 10
-				// If so, divide by 10 until remainder < 10, to get most significant digit of it
-				for nr > 10 {
-					nr /= 10
-				}
-				// fmt.Printf("next digit = %d\n", nr)
-
-				// Is next digit >= 5?
-				if nr >= 5 {
-					// fmt.Printf("Rounding up")
-					q++
-				}
-
-				break main_loop
-			}
+		nr := r * 10
+		nq := q*10 + nr/oval
 
-			// If remainder exceeds max value, over/underflow occurs
-			if nr > decimalMaxValue {
-				// fmt.Println("exceeded max")
-				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+		if (s == decimalMaxScale) || (nq > maxValue) {
+			// Most accurate result is existing quotient, rounded up if next digit >= 5
+			if nr/oval >= 5 {
+				q++
 			}
 
-			// Copy new quotient, remainder, scale into current
-			q = nq
-			r = nr
-			s = ns
+			break
 		}
 
-		// Add r / oval to q, set r to r mod oval
-		q, r = q+r/oval, r%oval
+		// If remainder exceeds max value, over/underflow occurs
+		if nr > maxValue {
+			return Decimal{}, err
+		}
+
+		q = nq
+		r = nr % oval
+		s++
+	}
+
+	// Rounding up 18 9s is a 1 followed by 18 0s, we have to drop a 0 after the decimal
+	if q > maxValue {
+		if s == 0 {
+			return Decimal{}, err
+		}
+
+		q /= 10
+		s--
 	}
 
 	// If original signs differed, then result is negative
+	qval := int64(q)
 	if dpos != opos {
-		q = -q
+		qval = -qval
 	}
 
 	// Return result
-	return Decimal{value: q, scale: uint(s), denormalized: d.denormalized}, nil
+	res := Decimal{value: qval, scale: uint(s), denormalized: d.denormalized}
+	res.applyNormalization()
+	return res, nil
 }
 
 // MustDiv is a must version of Div
-- 
2.43.0


From bfa8a966aefbf23c03658fb247dff332c94c3e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 33/61] fix: Decimal.DivIntAdd spreads remainders that are
 negative or normalized

---
 math/decimal.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 26c8980..a29d3b4 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -677,7 +677,7 @@ func (d Decimal) DivIntQuoRem(o uint) (Decimal, Decimal, error) {
 	for i := uint(0); i < d.scale; i++ {
 		intPartOfD /= 10
 	}
-	if int64(o) > intPartOfD {
+	if uint64(o) > uint64(intPartOfD) {
 		return Decimal{}, Decimal{}, fmt.Errorf(errDecimalDivisorTooLargeMsg, d, o)
 	}
 
@@ -700,20 +700,29 @@ func (d Decimal) MustDivIntQuoRem(o uint) (Decimal, Decimal) {
 // EG, 100.00 / 3 = [33.34, 33.33, 33.33].
 // This method just calls DivIntQuoRem and spreads the remainder across the first remainder values returned.
 func (d Decimal) DivIntAdd(o uint) ([]Decimal, error) {
-	// Get the quotient and remainder, returning (nil, error) if an error is returned
-	q, r, e := d.DivIntQuoRem(o)
+	// Get the quotient, returning (nil, error) if an error is returned
+	q, _, e := d.DivIntQuoRem(o)
 	if e != nil {
 		return nil, e
 	}
 
-	// Remainder is just a count of how many values need to be increased by 1
+	// Remainder at the scale of d is just a count of how many values need to be increased by 1 if it is positive,
+	// or decreased by 1 if it is negative
 	var (
-		rc  = r.value
+		rc  = d.value - q.value*int64(o)
 		res = make([]Decimal, o)
 	)
-	for i := int64(0); i < int64(o); i++ {
-		res[i] = Decimal{scale: d.scale, value: q.value + int64(funcs.Ternary(rc > 0, 1, 0)), denormalized: d.denormalized}
-		rc--
+	for i := range res {
+		res[i] = q
+
+		switch {
+		case rc > 0:
+			res[i].value++
+			rc--
+		case rc < 0:
+			res[i].value--
+			rc++
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 65e6e428dc92dfa17a677a96126e591ce87aceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 34/61] fix: Div returns an error when dividing the smallest
 value of a type by -1

---
 math/math.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/math/math.go b/math/math.go
index 83dbda3..25d4aa5 100755
--- a/math/math.go
+++ b/math/math.go
@@ -15,8 +15,12 @@ import (
 )
 
 // Signed integer division, for toDiv map above
-func divSInt(de, dv int64, q *int64) {
+// The only overflow is dividing the smallest value by -1
+func divSInt(de, dv int64, q *int64) error {
 	*q = de / dv
+	if (de < 0) && (*q < 0) && (dv == -1) {
+		return OverflowErr
+	}
 
 	// Calc abs of remainder and of half divisor
 	r, halfdv := de%dv, dv/2
@@ -36,6 +40,8 @@ func divSInt(de, dv int64, q *int64) {
 			*q--
 		}
 	}
+
+	return nil
 }
 
 // Unsigned division, for toDiv map above
@@ -162,10 +168,12 @@ var (
 
 			qi := any(q).(*int)
 			qi64 := int64(*qi)
-			divSInt(int64(de.(int)), int64(dvi), &qi64)
-			*qi = int(qi64)
+			err := divSInt(int64(de.(int)), int64(dvi), &qi64)
+			if *qi = int(qi64); (err == nil) && (int64(*qi) != qi64) {
+				err = OverflowErr
+			}
 
-			return nil
+			return err
 		},
 
 		"int8": func(de, dv, q any) error {
@@ -177,7 +185,9 @@ var (
 			qi := any(q).(*int8)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int8)), int64(dvi), &qi64)
-			*qi = int8(qi64)
+			if *qi = int8(qi64); int64(*qi) != qi64 {
+				return OverflowErr
+			}
 
 			return nil
 		},
@@ -191,7 +201,9 @@ var (
 			qi := any(q).(*int16)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int16)), int64(dvi), &qi64)
-			*qi = int16(qi64)
+			if *qi = int16(qi64); int64(*qi) != qi64 {
+				return OverflowErr
+			}
 
 			return nil
 		},
@@ -205,7 +217,9 @@ var (
 			qi := any(q).(*int32)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int32)), int64(dvi), &qi64)
-			*qi = int32(qi64)
+			if *qi = int32(qi64); int64(*qi) != qi64 {
+				return OverflowErr
+			}
 
 			return nil
 		},
@@ -216,10 +230,7 @@ var (
 				return DivByZeroErr
 			}
 
-			qi := any(q).(*int64)
-			divSInt(de.(int64), dvi, qi)
-
-			return nil
+			return divSInt(de.(int64), dvi, any(q).(*int64))
 		},
 
 		"uint": func(de, dv, q any) error {
@@ -519,6 +530,9 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // Floats are not used since 32 and 64 bit integer values can have a magnitude too large to be expressed accurately
 // in a float.
 //
+// Returns an OverflowErr if the smallest value of a signed integer type is divided by -1, since there is no corresponding
+// positive value.
+//
 // Integer Examples:
 // 18 / 4 = 4 remainder 2. Since divisor 4 is even and remainder 2 is     >= (4 / 2 = 2), increment quotient to 5 (round 4.5 up).
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
-- 
2.43.0


From 0be8d4f5b2b506edcbe0831a243213e5d4da0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 35/61] fix: Abs and Div accept subtypes of the numeric types

---
 math/math.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/math/math.go b/math/math.go
index 25d4aa5..fb5371f 100755
--- a/math/math.go
+++ b/math/math.go
@@ -7,11 +7,12 @@ import (
 	"math"
 	"math/big"
 	"math/cmplx"
-	"reflect"
+	goreflect "reflect"
 	"strings"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/conv"
+	"github.com/bantling/micro/reflect"
 )
 
 // Signed integer division, for toDiv map above
@@ -394,14 +395,16 @@ var (
 // In this special case, an error is returned, otherwise nil is returned.
 // Note that while the constraint allows unsigned ints for completeness, no operation is performed.
 func Abs[T constraint.Numeric](val *T) error {
-	typval := reflect.TypeOf(val).Elem().String()
+	// The type may be a subtype of one of the types in the map
+	baseVal := reflect.ValueToBaseType(goreflect.ValueOf(val))
+	typval := baseVal.Type().Elem().String()
 
 	// No need to calculate absolute value of an unsigned int
 	if strings.HasPrefix(typval, "uint") {
 		return nil
 	}
 
-	return toAbs[typval](val)
+	return toAbs[typval](baseVal.Interface())
 }
 
 // AddInt adds two signed integers overwriting the second value, and returns an error if over/underflow occurs.
@@ -537,15 +540,19 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // 18 / 4 = 4 remainder 2. Since divisor 4 is even and remainder 2 is     >= (4 / 2 = 2), increment quotient to 5 (round 4.5 up).
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
 func Div[T constraint.Numeric](dividend T, divisor T, quotient *T) error {
-	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
-	return toDiv[typ](ade, adv, aq)
+	// The type may be a subtype of one of the types in the map
+	var (
+		ade = reflect.ValueToBaseType(goreflect.ValueOf(dividend))
+		adv = reflect.ValueToBaseType(goreflect.ValueOf(divisor))
+		aq  = reflect.ValueToBaseType(goreflect.ValueOf(quotient))
+	)
+	return toDiv[ade.Type().String()](ade.Interface(), adv.Interface(), aq.Interface())
 }
 
 // DivBigOps is the BigOps version of Div
 func DivBigOps[T constraint.BigOps[T]](dividend T, divisor T, quotient *T) error {
 	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
+	var typ, ade, adv, aq = goreflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
 	return toDiv[typ](ade, adv, aq)
 }
 
-- 
2.43.0


From 9b3496391b0f3fe42fe14d3b4704569111083e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 36/61] fix: To and ToBigOps copy a big value into a new
 pointer that shares nothing with the original

---
 conv/conv.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..b313989 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1009,6 +1009,18 @@ var (
 	}
 )
 
+// copyBig copies a non-nil *big.Int, *big.Float, or *big.Rat into a new pointer that does not share any memory with the original
+func copyBig(val goreflect.Value) goreflect.Value {
+	switch v := val.Interface().(type) {
+	case *big.Int:
+		return goreflect.ValueOf(new(big.Int).Set(v))
+	case *big.Float:
+		return goreflect.ValueOf(new(big.Float).Copy(v))
+	default:
+		return goreflect.ValueOf(new(big.Rat).Set(v.(*big.Rat)))
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1038,14 +1050,8 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 			if ival.IsNil() {
 				oval.Elem().Set(ival)
 			} else {
-				// If the oval is the same pointer as ival or nil, allocate it
-				if (ival.Interface() == oval.Elem().Interface()) || oval.Elem().IsNil() {
-					oval.Elem().Set(goreflect.New(otyp.Elem()))
-				}
-
-				// ival is non-nil, oval is non-nil and not the same pointer as ival
-				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				// Construct a new pointer, with a copy of the value
+				oval.Elem().Set(copyBig(ival))
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1133,14 +1139,8 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		if ival.IsNil() {
 			oval.Elem().Set(ival)
 		} else {
-			// If the oval is the same pointer as ival or nil, allocate it
-			if (ival.Interface() == oval.Elem().Interface()) || oval.Elem().IsNil() {
-				oval.Elem().Set(goreflect.New(otyp.Elem()))
-			}
-
-			// ival is non-nil, oval is non-nil and not the same pointer as ival
-			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			// Construct a new pointer, with a copy of the value
+			oval.Elem().Set(copyBig(ival))
 		}
 
 		return nil
-- 
2.43.0


From 0d18c2092c283512be9e8a2d46724f71c0f574f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 37/61] fix: the big.Int of a big.Rat does not share memory
 with the big.Rat

---
 conv/bigint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..7c5affb 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Num returns a reference to the numerator, copy it
+	*oval = new(big.Int).Set(ival.Num())
 	return nil
 }
 
-- 
2.43.0


From 3221e885c54e2a845e9e2f3d7aa0c4ebad4182c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 38/61] fix: FloatStringToBigRat returns an error for
 infinities written as Inf

---
 conv/bigrat.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index a6029c6..120844e 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -86,8 +86,11 @@ func FloatStringToBigRat(ival string, oval **big.Rat) error {
 		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
 	}
 
-	// If it is a float string, cannot fail to be parsed by StringToBigRat
-	StringToBigRat(ival, oval)
+	// A float string may still not be a *big.Rat (eg Inf)
+	if StringToBigRat(ival, oval) != nil {
+		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 878ad78b4683662ff4caa6a4746fbac7a5b26fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 39/61] fix: ToBigOps and ReflectTo accept subtypes of the base
 types as input

---
 conv/conv.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index b313989..cea145a 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1126,8 +1126,9 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		return fmt.Errorf(errONonNilMsg, o)
 	}
 
+	// If i is a subtype, convert it to the base type, so we can find a conversion function
 	var (
-		ival = goreflect.ValueOf(i)
+		ival = reflect.ValueToBaseType(goreflect.ValueOf(i))
 		ityp = ival.Type()
 		oval = goreflect.ValueOf(o) // o cannot be nil, but o.Elem() can be nil
 		otyp = oval.Type().Elem()   // o.Type().Elem() cannot be nil
@@ -1189,16 +1190,17 @@ func ReflectTo(i, o goreflect.Value) error {
 		return fmt.Errorf(errReflectToTgtBigTypeMsg, o.Interface())
 	}
 
-	// Convert output to a base type
+	// Convert input and output to a base type
+	ib := reflect.ValueToBaseType(i)
 	ob := reflect.ValueToBaseType(o)
 
 	// Locate a conversion function in convertFromTo map
-	convFn := convertFromTo[(ityp.String() + ob.Type().Elem().String())]
+	convFn := convertFromTo[(ib.Type().String() + ob.Type().Elem().String())]
 	if convFn == nil {
 		return fmt.Errorf(errReflectToLookupMsg, ityp, otyp.Elem())
 	}
 
-	return convFn(i.Interface(), ob.Interface())
+	return convFn(ib.Interface(), ob.Interface())
 }
 
 // MustReflectTo is a Must version of ReflectTo
-- 
2.43.0


From 035796a9067efaf9e4441349e7def82c11976595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 40/61] fix: AnyTo returns an error for a nil input instead of
 a panic

---
 conv/conv.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index cea145a..6abec78 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1074,10 +1074,13 @@ func MustTo[I, O constraint.Numeric | string](i I, o *O) {
 // AnyTo is a version of To that accepts input values of type any
 // The output value must still satisfy constraint.Numeric | string
 func AnyTo[O constraint.Numeric | string](i any, o *O) error {
-	var (
-		iv   = goreflect.ValueOf(i)
-		ival = reflect.ValueToBaseType(iv).Interface()
-	)
+	iv := goreflect.ValueOf(i)
+	if !iv.IsValid() {
+		// i is nil, which has no type
+		return fmt.Errorf(errAnyToInvalidIMsg, "nil")
+	}
+
+	ival := reflect.ValueToBaseType(iv).Interface()
 
 	switch iv.Kind() {
 	case goreflect.Int:
-- 
2.43.0


From b116257a4851ba962a186e07a8bd31c5fc8b488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 41/61] fix: FloatToFloat checks the range of subtypes of
 float32

---
 conv/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/float.go b/conv/float.go
index 219fd77..0997bb9 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -43,7 +43,7 @@ func FloatToFloat[I constraint.Float, O constraint.Float](ival I, oval *O) error
 		return nil
 	}
 
-	if _, isa := any(oval).(*float32); isa && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
+	if (NumBits(*oval) == 32) && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
 		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%g", ival64), "float32")
 	}
 
-- 
2.43.0


From a7a27271e22cdb2fd5745dc1b3652d2891453893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 42/61] fix: FloatToString writes subtypes of float32 with 32
 bit precision

---
 conv/string.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/conv/string.go b/conv/string.go
index ccd30bd..67d1c0c 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -8,7 +8,6 @@ import (
 	"strings"
 
 	"github.com/bantling/micro/constraint"
-	"github.com/bantling/micro/funcs"
 )
 
 // IntToString converts any signed int type into a string
@@ -23,8 +22,7 @@ func UintToString[T constraint.UnsignedInteger](val T) string {
 
 // FloatToString converts any float type into a string
 func FloatToString[T constraint.Float](val T) string {
-	_, is32 := any(val).(float32)
-	return strconv.FormatFloat(float64(val), 'f', -1, funcs.Ternary(is32, 32, 64))
+	return strconv.FormatFloat(float64(val), 'f', -1, NumBits(val))
 }
 
 // BigIntToString converts a *big.Int to a string
-- 
2.43.0


From c659de2ae99defcf4c1e54bc61f3eac9619c3232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 43/61] fix: an unsigned integer of more than 53 bits converts
 to the big.Float of exactly the same value

---
 conv/bigfloat.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 12e77cd..b14f3dc 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"math/bits"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -21,7 +22,9 @@ func IntToBigFloat[T constraint.SignedInteger](ival T, oval **big.Float) {
 
 // UintToBigFloat converts any unsigned int type into a *big.Float
 func UintToBigFloat[T constraint.UnsignedInteger](ival T, oval **big.Float) {
-	*oval = big.NewFloat(0).SetUint64(uint64(ival))
+	// A value that has more bits than a float64 needs more precision
+	prec := uint(math.Max(53, float64(bits.Len64(uint64(ival)))))
+	*oval = new(big.Float).SetPrec(prec).SetUint64(uint64(ival))
 }
 
 // FloatToBigFloat converts any float type into a *big.Float
-- 
2.43.0


From dc2ad0f1b951ee3b56bde7a534b06a13ff8e70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 44/61] fix: a big value that float32 cannot represent does not
 convert to float32, instead of being rounded

---
 conv/conv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 6abec78..e5a2cd3 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -697,21 +697,21 @@ var (
 			if err := BigIntToFloat64(t.(*big.Int), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigIntToFloat32(t.(*big.Int), u.(*float32))
 		},
 		"*big.Floatfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigFloatToFloat64(t.(*big.Float), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigFloatToFloat32(t.(*big.Float), u.(*float32))
 		},
 		"*big.Ratfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigRatToFloat64(t.(*big.Rat), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigRatToFloat32(t.(*big.Rat), u.(*float32))
 		},
 		"stringfloat32": func(t any, u any) error {
 			return StringToFloat32(t.(string), u.(*float32))
-- 
2.43.0


From 46f53b8e7b72c1efca848c8b7945e7164fea17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 45/61] fix: a big.Rat that is too small for a float does not
 convert to zero

---
 conv/float.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conv/float.go b/conv/float.go
index 0997bb9..0c34784 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -97,8 +97,9 @@ func MustBigFloatToFloat32(ival *big.Float, oval *float32) {
 // BigRatToFloat32 converts a *big.Rat to a float32
 // Returns an error if the *big.Rat cannot be represented as a float32
 func BigRatToFloat32(ival *big.Rat, oval *float32) error {
+	// The Rat method says that an underflow to zero is exact
 	var exact bool
-	if *oval, exact = ival.Float32(); !exact {
+	if *oval, exact = ival.Float32(); (!exact) || ((*oval == 0) && (ival.Sign() != 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float32")
 	}
 
@@ -174,8 +175,9 @@ func MustBigFloatToFloat64(ival *big.Float, oval *float64) {
 // BigRatToFloat64 converts a *big.Rat to a float64
 // Returns an error if the *big.Rat cannot be represented as a float64
 func BigRatToFloat64(ival *big.Rat, oval *float64) error {
+	// The Rat method says that an underflow to zero is exact
 	var exact bool
-	if *oval, exact = ival.Float64(); !exact {
+	if *oval, exact = ival.Float64(); (!exact) || ((*oval == 0) && (ival.Sign() != 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float64")
 	}
 
-- 
2.43.0


From a002a4925566fc9e1de4dd031248f07bd02b5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 46/61] fix: OfResultError of an interface type accepts a nil
 value with an error

---
 union/union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union/union.go b/union/union.go
index 8b40b5d..47cb535 100755
--- a/union/union.go
+++ b/union/union.go
@@ -177,7 +177,7 @@ func OfError[R any](err error) Result[R] {
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
 		// R is not comparable
-		if !goreflect.ValueOf(r).IsZero() {
+		if !goreflect.ValueOf(&r).Elem().IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From bc4eb88d74f98b2b515d386e20ff4c4b7faf773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 47/61] fix: a pointer to a nil pointer to a Maybe is not a
 Maybe that can be accessed

---
 union/reflect/reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 0d0e0ec..522eb67 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -36,11 +36,11 @@ func GetMaybeType(typ goreflect.Type) goreflect.Type {
 // safeMaybeAccess returns true if the given reflect.Value can safely be accessed as a Maybe value, which is true if:
 // - The reflect.Value is valid
 // - GetMaybeType(val.Type()) returns a non-nil reflect.Type
-// - The reflect.Value is a non-nil pointer or a value
+// - The reflect.Value is one or more non-nil pointers or a value
 func safeMaybeAccess(val goreflect.Value) bool {
 	return val.IsValid() &&
 		(GetMaybeType(val.Type()) != nil) &&
-		((val.Kind() != goreflect.Pointer) || !val.IsNil())
+		reflect.DerefValue(val).IsValid()
 }
 
 // MaybeValueIsPresent indicates if the given reflect.Value wraps a present Maybe. which is true if:
-- 
2.43.0


From ab3e13c6b7a721b4be73d8064a8b91c5b10a1c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 48/61] fix: SetMaybeValue returns an error for a value of the
 wrong type

---
 union/reflect/reflect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 522eb67..4120d05 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -18,6 +18,7 @@ var (
 	errGetMaybeValueEmptyMsg         = "Cannot get the Maybe value of an empty %s"
 	errSetMaybeValueUnsafeMsg        = "Cannot set the Maybe value of type %s"
 	errSetMaybeValueUnaddressableMsg = "Cannot set the Maybe value of type %s as it is not a pointer and not addressable"
+	errSetMaybeValueTypeMsg          = "Cannot set the Maybe value of type %s to a value of type %s"
 )
 
 // GetMaybeType gets the generic type of the value wrapped in a union.Maybe (which may have pointers to it).
@@ -76,6 +77,10 @@ func SetMaybeValue(dst, val goreflect.Value) error {
 		return fmt.Errorf(errSetMaybeValueUnaddressableMsg, reflect.TypeOf(dst))
 	}
 
+	if mtyp := GetMaybeType(dst.Type()); (!val.IsValid()) || (!val.Type().AssignableTo(mtyp)) {
+		return fmt.Errorf(errSetMaybeValueTypeMsg, mtyp, reflect.TypeOf(val))
+	}
+
 	reflect.DerefValue(dst).Addr().MethodByName("Set").Call([]goreflect.Value{val})
 	return nil
 }
-- 
2.43.0


From e364ded53943649bb737fdf3bd468ad65fd8d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 49/61] fix: SliceFlatten accepts a one dimensional slice of a
 named slice type

---
 funcs/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 49a2edb..57c4eb3 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -113,7 +113,7 @@ func SliceFlatten[T any](value any) []T {
 
 	// If original value is already one dimenion return it by reference
 	if numDims == 1 {
-		return value.([]T)
+		return vslc.Convert(reflect.TypeOf(rslc)).Interface().([]T)
 	}
 
 	// Recursively iterate all dimensions of the given slice, some dimensions might be empty
-- 
2.43.0


From 8de50ce29404cb95da4bf4fc05682153a37f9b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 50/61] fix: SliceFlatten keeps nil elements of an interface
 type

---
 funcs/funcs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 57c4eb3..9671274 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -127,7 +127,9 @@ func SliceFlatten[T any](value any) []T {
 			if val.Kind() == reflect.Slice {
 				f(val)
 			} else {
-				rslc = append(rslc, val.Interface().(T))
+				// A nil value of an interface type T cannot be type asserted to T
+				elem, _ := val.Interface().(T)
+				rslc = append(rslc, elem)
 			}
 		}
 	}
-- 
2.43.0


From bb8cfb0b1c557908b8a54a704872e9b922cdf02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 51/61] fix: SupplierCached invokes the supplier at most once
 when called concurrently

---
 funcs/funcs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 9671274..13d93e8 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -1273,11 +1274,15 @@ func SupplierOf[T any](value T) func() T {
 // Any subseqquent calls return the cached value, guaranteeing the provided supplier is invoked at most once.
 func SupplierCached[T any](supplier func() T) func() T {
 	var (
+		mutex     sync.Mutex
 		isCached  bool
 		cachedVal T
 	)
 
 	return func() T {
+		mutex.Lock()
+		defer mutex.Unlock()
+
 		if !isCached {
 			isCached, cachedVal = true, supplier()
 		}
-- 
2.43.0


From c4ffceceea3dc4e243945ff4193cb4997316cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 52/61] fix: SnakeToCamelCase accepts empty words and words
 that do not start with an ASCII letter

---
 funcs/funcs.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 13d93e8..b9c7a53 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -10,6 +10,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -1379,8 +1381,12 @@ func TryTo(tryFn func(), panicFn func(any), closers ...func()) {
 func SnakeToCamelCase(snake string) string {
 	var sb strings.Builder
 	for _, word := range strings.Split(snake, "_") {
-		sb.WriteString(strings.ToUpper(string(word[0])))
-		sb.WriteString(string(word[1:]))
+		// A word is empty if the input is empty, or it has leading, trailing, or consecutive underscores
+		first, size := utf8.DecodeRuneInString(word)
+		if size > 0 {
+			sb.WriteRune(unicode.ToUpper(first))
+			sb.WriteString(word[size:])
+		}
 	}
 
 	return sb.String()
-- 
2.43.0


From c9e8596447e98dc415bde42074a09c8d663fd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 53/61] fix: CamelCaseToSnakeCase accepts an empty string and
 keeps characters that are not ASCII letters

---
 funcs/funcs.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index b9c7a53..9d815f8 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -38,8 +38,8 @@ const (
 )
 
 var (
-	// ucaseRegexp is a regexp for uppercase chars
-	camelWordsRegexp = regexp.MustCompile("[A-Z][a-z]*")
+	// camelWordsRegexp is a regexp for words, which are the first char or an uppercase char followed by other chars
+	camelWordsRegexp = regexp.MustCompile("(?s).[^A-Z]*")
 )
 
 // ==== Slices
@@ -1396,13 +1396,14 @@ func SnakeToCamelCase(snake string) string {
 func CamelCaseToSnakeCase(camel string) string {
 	var (
 		sb       strings.Builder
-		words    = camelWordsRegexp.FindAllString(strings.ToUpper(string(camel[0]))+camel[1:], -1)
+		words    = camelWordsRegexp.FindAllString(camel, -1)
 		lastWord = len(words) - 1
 	)
 
 	for i, word := range words {
-		sb.WriteString(strings.ToLower(string(word[0])))
-		sb.WriteString(word[1:])
+		first, size := utf8.DecodeRuneInString(word)
+		sb.WriteRune(unicode.ToLower(first))
+		sb.WriteString(word[size:])
 		if i < lastWord {
 			sb.WriteRune('_')
 		}
-- 
2.43.0


From 8a4198d23cd56c8d1ff11a265da2db9c8b9d2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 54/61] fix: TypeAssert returns an error for an invalid value
 and for a nil interface

---
 reflect/reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 85043e2..61a3fbf 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -241,9 +241,10 @@ func ResolveValueType(val goreflect.Value) goreflect.Value {
 // Unlike Go's type assertion syntax, this function can be called with any kind of value and any type.
 // If desired, an optional message can be provided that is placed at the beginning of the error message, followed by a colon and space.
 func TypeAssert(val goreflect.Value, typ goreflect.Type, msg ...string) error {
-	if rt := ResolveValueType(val).Type(); rt != typ {
+	rv := ResolveValueType(val)
+	if (!rv.IsValid()) || (rv.Type() != typ) {
 		prefix := funcs.SliceIndex(msg, 0)
-		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), val.Type(), rt, typ)
+		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), TypeOf(val), TypeOf(rv), typ)
 	}
 
 	return nil
-- 
2.43.0


From c4c5b524dde6eac698c41de69c5391f2e4bce29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 55/61] fix: ValueToBaseType converts a nil pointer to a
 primitive subtype

---
 reflect/reflect.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 61a3fbf..3ec57bf 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -288,9 +288,11 @@ func ValueToBaseType(val goreflect.Value) goreflect.Value {
 		// If so, then convert the value to the base type
 		return val.Convert(pt)
 	} else if k == goreflect.Ptr {
-		k = val.Elem().Kind()
+		// Use the type, as the pointer may be nil
+		etyp := val.Type().Elem()
+		k = etyp.Kind()
 		pt = kindToType[k]
-		if (pt != nil) && (k.String() != val.Elem().Type().String()) {
+		if (pt != nil) && (k.String() != etyp.String()) {
 			return val.Convert(goreflect.PtrTo(pt))
 		}
 	}
-- 
2.43.0


From bdd05946ce0a7c5f49c097737f59b10dc9283731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 56/61] fix: setting the base path of a generator again panics,
 instead of wiping out another directory

---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 458a9be..4a3bfe7 100755
--- a/code/api.go
+++ b/code/api.go
@@ -68,7 +68,7 @@ func (bg BaseGenerator) GetBasePath() string {
 // SetBasePath panics if the base path has already been set
 func (bg *BaseGenerator) SetBasePath(bp string) {
 	// Die if base path has already been set
-	bg.basePath.SetOrError(bp)
+	funcs.Must(bg.basePath.SetOrError(bp))
 
 	// Use clean path
 	cleanPath := path.Clean(bp)
-- 
2.43.0


From b38df2f941d97032d427cfe21fa25490ffc4fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 57/61] fix: creating the first directory of a generator
 panicked

---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 4a3bfe7..d97faed 100755
--- a/code/api.go
+++ b/code/api.go
@@ -115,7 +115,7 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
 
-	bg.dirs[dirPath] = true
+	funcs.MapSet(&bg.dirs, dirPath, true)
 }
 
 // Src panics if the file already exists
-- 
2.43.0


From 89311f1eec77647ae0c47c9dcd852f04a782ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 58/61] fix: source files of a generator are created in the
 current directory, not in the root directory

---
 code/api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index d97faed..9bd2334 100755
--- a/code/api.go
+++ b/code/api.go
@@ -19,6 +19,7 @@ const (
 	errBasePathDeleteMsg      = "The base path %s could not be deleted: %s"
 	errDirExistsInBasePathMsg = "The dir %s already exists in base path %s"
 	errCreateDirInBasePathMsg = "The dir %s could not be created in base path %s: it already exists"
+	errNoCurrentDirMsg        = "The file %s could not be created: no dir has been created to contain it"
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
 )
 
@@ -116,10 +117,16 @@ func (bg *BaseGenerator) Dir(name string) {
 	}
 
 	funcs.MapSet(&bg.dirs, dirPath, true)
+	bg.currentDir = dirPath
 }
 
-// Src panics if the file already exists
+// Src panics if there is no current dir, or if the file already exists
 func (bg *BaseGenerator) Src(name string) {
+	if bg.currentDir == "" {
+		// Die if there is no current dir
+		panic(fmt.Errorf(errNoCurrentDirMsg, name))
+	}
+
 	if funcs.Map2Test(bg.srcs, bg.currentDir, name) {
 		// Die if src already exists
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, error(nil)))
-- 
2.43.0


From b5fc61cebaf5673897573eccb59d01f18e04b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 59/61] fix: directories of a generator are accessible for
 users other than root

---
 code/api.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/api.go b/code/api.go
index 9bd2334..2cdb5b2 100755
--- a/code/api.go
+++ b/code/api.go
@@ -23,6 +23,9 @@ const (
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
 )
 
+// dirMode is the mode of directories created
+const dirMode fs.FileMode = 0o755
+
 // Generator is the interface describing an easy to use fluent API for generating packages of code.
 // If anything goes wrong, the generator panics.
 type Generator interface {
@@ -79,7 +82,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 	if err != nil {
 		if os.IsNotExist(err) {
 			// Doesn't exist is ok, we'll just create all the parts that are missing for it
-			if err = os.MkdirAll(cleanPath, fs.ModeDir); err != nil {
+			if err = os.MkdirAll(cleanPath, dirMode); err != nil {
 				// Could not create some part
 				panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 			}
@@ -94,7 +97,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 			panic(fmt.Errorf(errBasePathDeleteMsg, cleanPath, err))
 		}
 
-		if err = os.Mkdir(cleanPath, fs.ModeDir); err != nil {
+		if err = os.Mkdir(cleanPath, dirMode); err != nil {
 			// Could not recreate path
 			panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 		}
@@ -111,7 +114,7 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errDirExistsInBasePathMsg, dirPath, bg.basePath))
 	}
 
-	if err := os.MkdirAll(dirPath, fs.ModeDir); err != nil {
+	if err := os.MkdirAll(dirPath, dirMode); err != nil {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
-- 
2.43.0


From 9ac4804b1a45b08bcc3caba4cca448c5fcc699b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 60/61] fix: Src never truncates a source file that exists
 under another spelling of its name

---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 2cdb5b2..3ac641b 100755
--- a/code/api.go
+++ b/code/api.go
@@ -136,7 +136,7 @@ func (bg *BaseGenerator) Src(name string) {
 	}
 
 	path := bg.currentDir + "/" + name
-	f, err := os.Create(path)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o666)
 	if err != nil {
 		// Could not create src file under dir
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, err))
-- 
2.43.0


From efbc7d5c27b41cf42e414d73621ea12b5e0e6b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 61/61] fix: removing a key of an ordered tuple map does not
 disturb who iterates it

A receiver that removed its id while an event was sent made the send skip
the next id and deliver to the last one twice.
---
 funcs/funcs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 9d815f8..35568c6 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -699,10 +699,11 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 	}
 }
 
-// OrderedTuple2SliceRemoveKey removes a key from the []Tuple.Two[K, V], if the key exists
+// OrderedTuple2SliceRemoveKey removes a key from the []Tuple.Two[K, V], if the key exists.
+// A new slice is built, so that a caller iterating the original slice is not affected.
 func OrderedTuple2SliceRemoveKey[K constraint.Ordered, V any](mp *[]tuple.Two[K, V], key K) {
 	if index, matches := OrderedTuple2Search(*mp, key); matches {
-		*mp = append((*mp)[:index], (*mp)[index+1:]...)
+		*mp = append(append([]tuple.Two[K, V]{}, (*mp)[:index]...), (*mp)[index+1:]...)
 	}
 }
 
-- 
2.43.0

