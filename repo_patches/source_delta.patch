From bb9415ea9afce89d9cbcfa98890b44c9f85ab02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 01/72] fix: Math::Abs of the smallest Int32/Int64 returned a
 negative value

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..01e9ab3 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 		return abs(v1);
 	}
 	Double Math::Abs(Int32 v1) {
-		return abs(v1);
+		return fabs((Double) v1);
 	}
 	Double Math::Abs(Int64 v1) {
-		return abs(v1);
+		return fabs((Double) v1);
 	}
 	Double Math::Abs(SByte v1) {
 		return abs(v1);
-- 
2.43.0


From 7ef86977aabe487d5a10bb13d99f6a1431095458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 02/72] fix: integer Divide/DivRem truncated 64-bit quotients
 and trapped on MinValue / -1

---
 DotNetLibrary/src/DotNetMath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 01e9ab3..0c00966 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -256,6 +256,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v2 == -1 && v1 == Int64Value::MinValue)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -269,6 +271,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == Int32Value::MinValue)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -276,7 +280,9 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
-		Int32 div = a / b;
+		if (b == -1 && a == Int64Value::MinValue)
+			throw new OverflowException();
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From f395bf6d63217c4f4086090ab68490f24e9a558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 03/72] fix: Math::Divide(Double) by zero ignored the signs and
 NaN dividends

---
 DotNetLibrary/src/DotNetMath.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 0c00966..95c04c8 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -261,11 +261,6 @@ namespace DotnetLibrary
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
-		if (v2 == 0) {
-			if (v1 == 0)
-				return (DoubleValue::NaN);
-			return (DoubleValue::PositiveInfinity);
-		}
 		return v1 / v2;
 	}
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
-- 
2.43.0


From 566c5f9c7e356a9356ed73d7abb6bc41758eb532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 04/72] fix: Math::FusedMultiplyAdd rounded the product

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 95c04c8..0274558 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -294,7 +294,7 @@ namespace DotnetLibrary
 		return floor(v1);
 	}
 	Double Math::FusedMultiplyAdd(Double x, Double y, Double z) {
-		return (x * y) + z;
+		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
 		return remainder(x, y);
-- 
2.43.0


From edd3ef7d64e5ab893d7f4b8ecb40df96f85ea32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 05/72] fix: Math::ILogB converted NaN and infinity to Int32

---
 DotNetLibrary/src/DotNetMath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 0274558..ab96e9e 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -300,7 +300,9 @@ namespace DotnetLibrary
 		return remainder(x, y);
 	}
 	Int32 Math::ILogB(Double x) {
-		return logb(x);
+		if (DoubleValue::IsNaN(x))
+			return Int32Value::MaxValue;
+		return ilogb(x);
 	}
 	Double Math::Log(Double v1) {
 		return log(v1);
-- 
2.43.0


From 89ee8280edd0491bc4ae0a162bdb0d75e365828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 06/72] fix: DoubleValue MaxValue/MinValue lost the last digit

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..26f845e 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -22,8 +22,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double DoubleValue::MaxValue = 1.797693134862315E+308;
-	DLL_EXPORT Double DoubleValue::MinValue = -1.797693134862315E+308;
+	DLL_EXPORT Double DoubleValue::MaxValue = 1.7976931348623157E+308;
+	DLL_EXPORT Double DoubleValue::MinValue = -1.7976931348623157E+308;
 	DLL_EXPORT Double DoubleValue::Epsilon = 4.94065645841247E-324;
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
-- 
2.43.0


From c2244bcdd9fe4c1e11e0e5a33715b20073954fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 07/72] fix: Array range check created its exceptions without
 throwing them

---
 DotNetLibrary/src/Array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..d5ad591 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -338,13 +338,13 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
 		if (amountOfElements < 0)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
 		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+			throw new ArgumentOutOfRangeException();
+		if (startingIndex > array->dimension1Size - amountOfElements)
+			throw new ArgumentException();
 	}
 }
-- 
2.43.0


From 67e99e409cd6878e554c56975d345d1e15fd1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 08/72] fix: Array::Copy bound check overflowed for large
 indexes

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index d5ad591..9831364 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -94,7 +94,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (sourceIndex > sourceArray->totalElementCount - length || destinationIndex > destinationArray->totalElementCount - length)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
-- 
2.43.0


From 1e2eab469ae8821824b855384dbfbd1fbef6ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 09/72] fix: Array::Copy used memcpy for overlapping ranges

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 9831364..3a31ecf 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -103,7 +103,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From 938e1d206626c49d7fec65f52fda07a91f84d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 10/72] fix: Array accepted negative dimensions and sizes that
 overflow

---
 DotNetLibrary/src/Array.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 3a31ecf..a689793 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -49,6 +49,16 @@ namespace DotnetLibrary
 		data = new char[totalElementCount * DataTypeSize[dataType]];
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
+			throw new OverflowException();
+		Int64 maximumCount = Int32Value::MaxValue / (DataTypeSize[dataType] > 0 ? DataTypeSize[dataType] : 1);
+		Int64 count = dimension1Size;
+		if (dimension2Size != -1 && count <= maximumCount)
+			count *= dimension2Size;
+		if (dimension3Size != -1 && count <= maximumCount)
+			count *= dimension3Size;
+		if (count > maximumCount)
+			throw new OverflowException();
 		this->dataType = dataType;
 		this->dimension1Size = dimension1Size;
 		this->dimension2Size = dimension2Size;
-- 
2.43.0


From d293565f5d1a6b9fd78080a35d798fa140278ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 11/72] fix: String::IndexOf(Char) accepted negative start and
 count

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..3a6ab6f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -275,6 +275,8 @@ namespace DotnetLibrary
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
-- 
2.43.0


From 4ab24e47d1847fc3d33013a1509c677c436783b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 12/72] fix: String::IndexOf(String) reported matches that
 leave the searched range

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 3a6ab6f..8316dbd 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -308,7 +308,7 @@ namespace DotnetLibrary
 			return (-1);
 		Int32 delta = found - get_Buffer();
 		Int32 endIndex = startIndex + count;
-		return (delta > endIndex ? -1 : delta);
+		return (delta > endIndex - value->get_Length() ? -1 : delta);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
-- 
2.43.0


From ba08c469f7ba4f529f2426d18bee7b90fe3b533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 13/72] fix: String::LastIndexOf(String) read outside the
 string and reported matches past the start index

---
 DotNetLibrary/src/StringDotNet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 8316dbd..82ead65 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -435,12 +435,14 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex > length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 i = startIndex; i > endIndex; --i) {
 			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
 			if (found != nullptr) {
 				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
+				if (delta + value->get_Length() <= startIndex + 1)
 					return (delta);
 			}
 		}
-- 
2.43.0


From 36c2a352ef67ca994c6f4aa2d602581adf6e6ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 14/72] fix: String::Compare reported a string equal to every
 string it is a prefix of

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 82ead65..c442a03 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -132,14 +132,14 @@ namespace DotnetLibrary
 		return 0;
 	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
-- 
2.43.0


From 81253f0c50e00ebe413aaca998cb4d4c9e7ef373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 15/72] fix: String::CompareTo(Object) always returned 0

---
 DotNetLibrary/src/StringDotNet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index c442a03..f1fc698 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -149,8 +149,7 @@ namespace DotnetLibrary
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return CompareTo((String*) value);
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
-- 
2.43.0


From a6b306177e996abacd1843a1b73e26c09608fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 16/72] fix: StringBuilder of an empty string threw

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..2b47113 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
+		Char* sourcePtr = value->get_Buffer() + startIndex;
 		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
 		currentLength = length;
 	}
-- 
2.43.0


From 5d6bab4773513a3bc4dd96eb56668cce7869f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 17/72] fix: String::Contains never returned for an empty
 argument

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index f1fc698..9e407c3 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -187,6 +187,10 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
+		if (substring == nullptr)
+			throw new ArgumentNullException();
+		if (substring->length == 0)
+			return (true);
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(substring, 0, length) != 0);
 	}
-- 
2.43.0


From 505ae528a33c067b478f873803209110067b2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 18/72] fix: String StartsWith/EndsWith read outside the string
 for longer arguments

---
 DotNetLibrary/src/StringDotNet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 9e407c3..5428cde 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -229,6 +229,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
 	}
@@ -523,6 +526,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
 	}
-- 
2.43.0


From 463e410400be7f058e4c08b78a3f3c9d11c1dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 19/72] fix: String of characters from an index read past the
 terminator

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 5428cde..e420adc 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
-		if (length < 0)
-			length = (Int32) wcslen(string);
 		if (startIndex < 0 || startIndex > wcslen(string))
 			throw new ArgumentOutOfRangeException();
+		if (length < 0)
+			length = (Int32) wcslen(string) - startIndex;
 
 		allocate = true;
 		this->length = length;
-- 
2.43.0


From ea0aba7328b10a6f34f0d96c6b17be3e0c2cd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 20/72] fix: String of a null character array crashed

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index e420adc..6f7a509 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 	}
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
-		if (length < 0) {
+		if (values != nullptr && length < 0) {
 			length = values->get_Length();
 		}
 		if (values == nullptr || length == 0) {
-- 
2.43.0


From 9f3810158f6ffacde90d68714af56ab85fcccc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 21/72] fix: String Concat/Join treated arrays of any element
 type as objects

---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 6f7a509..17e230a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -160,7 +160,7 @@ namespace DotnetLibrary
 		if (nullptr == values)
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
@@ -376,7 +376,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
@@ -403,7 +403,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
-- 
2.43.0


From 2240d09e86ffa919f5c4c226d7d1cdd47a84733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 22/72] fix: FormatString wrote the terminator one past the
 buffer

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 2b47113..0a73c63 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -180,7 +180,7 @@ namespace DotnetLibrary
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < currentLength)
+		if (whereSize <= currentLength)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, chunkChars, this->currentLength);
 		return currentLength;
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 17e230a..d2a933e 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -663,13 +663,13 @@ namespace DotnetLibrary
 		return (false);
 	}
 	Int32 String::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < this->length)
+		if (whereSize <= this->length)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, this->characterData, length);
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
-		if (sourceSize > whereSize)
+		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
 		where[sourceSize] = 0;
-- 
2.43.0


From 688244ab57aba1e8491936f50f41d766b1c420d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 23/72] fix: StringBuilder::Append(Char, count) overflowed the
 buffer

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 0a73c63..f341402 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,7 +262,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
-- 
2.43.0


From c63a9b53dd03aa4eda8c048561bf5c3808504944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 24/72] fix: StringBuilder Append/Insert accepted negative
 positions and counts

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index f341402..d655527 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -189,9 +189,12 @@ namespace DotnetLibrary
 		if (where == -1) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
+		if (charCount < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureRoomFor(charCount);
 		if (where != currentLength) {
 			memmove(&chunkChars[where + charCount], &chunkChars[where], (currentLength - where) * sizeof(Char));
-- 
2.43.0


From f532ff5d38f8589c1d0c916cc3592ebdb3031832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 25/72] fix: StringBuilder::Remove used memcpy for overlapping
 ranges

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d655527..182ba81 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -343,7 +343,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From 132c81a22c83ec9627187f9c1d6a585040f57157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 26/72] fix: growing StringBuilder length exposed characters
 removed earlier

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 182ba81..9395cc5 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -108,6 +108,9 @@ namespace DotnetLibrary
 		if (delta < 0) {
 			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
 		}
+		else {
+			memset(chunkChars + currentLength, 0, (delta + 1) * sizeof(Char));
+		}
 		currentLength = newLength;
 	}
 	Int32 StringBuilder::get_Capacity() {
-- 
2.43.0


From 7c30c5ba32fe5bafbe673802207f75b7398f0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 27/72] fix: StringBuilder capacity could fall below the length
 or exceed the maximum

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 9395cc5..9fc76a2 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -123,6 +123,9 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (capacity < currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (chunkChars != internalMemory && capacity < currentCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
@@ -135,7 +138,7 @@ namespace DotnetLibrary
 			Int32 partial = capacity % DefaultCapacity;
 			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
-				capacity += DefaultCapacity;
+				capacity = capacity > maxCapacity - DefaultCapacity ? maxCapacity : capacity + DefaultCapacity;
 			newArray = new Char[capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
-- 
2.43.0


From 29a3d00342745fca6390edf452f7c2791f8f29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 28/72] fix: StringBuilder::ToString range check overflowed and
 ignored negative lengths

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 9fc76a2..fbc7886 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -181,7 +181,7 @@ namespace DotnetLibrary
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
 		if (startIndex < 0 || startIndex >= currentLength)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
-- 
2.43.0


From 19a9b49e68b52a8c992be03cc41283d296a7132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 29/72] fix: StringBuilder::Insert of an empty string threw

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index fbc7886..023f30f 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -409,7 +409,7 @@ namespace DotnetLibrary
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
 		for (int i = 0; i < count; ++i) {
-			Append((Char*) value->Address(0), value->get_Length(), index);
+			Append(value->get_Buffer(), value->get_Length(), index);
 		}
 		return (this);
 	}
-- 
2.43.0


From 1ba4db1b942186d2164377e15b8e13e7cdf904b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 30/72] fix: StringBuilder::Append of a null object or string
 crashed

---
 DotNetLibrary/src/StringBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 023f30f..fb46d95 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,6 +262,9 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::Append(Object* value) {
+		if (value == nullptr) {
+			return (this);
+		}
 		return (Append(value->ToString()));
 	}
 	StringBuilder* StringBuilder::Append(Char value) {
@@ -279,6 +282,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Append(String* value, Int32 startIndex, Int32 charCount) {
+		if (value == nullptr) {
+			return (this);
+		}
 		if (charCount < 0)
 			charCount = value->get_Length();
 		if (startIndex < 0) {
-- 
2.43.0


From 52f8ea0e0b0127dbb42500c6069f1a2332a87764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 31/72] fix: Array refused empty arrays whose other dimensions
 are large

---
 DotNetLibrary/src/Array.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index a689793..f6af0fe 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -53,9 +53,11 @@ namespace DotnetLibrary
 			throw new OverflowException();
 		Int64 maximumCount = Int32Value::MaxValue / (DataTypeSize[dataType] > 0 ? DataTypeSize[dataType] : 1);
 		Int64 count = dimension1Size;
-		if (dimension2Size != -1 && count <= maximumCount)
+		if (dimension2Size != -1)
 			count *= dimension2Size;
-		if (dimension3Size != -1 && count <= maximumCount)
+		if (dimension3Size == 0)
+			count = 0;
+		else if (dimension3Size != -1 && count <= maximumCount)
 			count *= dimension3Size;
 		if (count > maximumCount)
 			throw new OverflowException();
@@ -64,15 +66,11 @@ namespace DotnetLibrary
 		this->dimension2Size = dimension2Size;
 		this->dimension3Size = dimension3Size;
 		dimensionCount = 1;
-		totalElementCount = dimension1Size;
-		if (dimension2Size != -1) {
+		totalElementCount = (Int32) count;
+		if (dimension2Size != -1)
 			++dimensionCount;
-			totalElementCount *= dimension2Size;
-		}
-		if (dimension3Size != -1) {
+		if (dimension3Size != -1)
 			++dimensionCount;
-			totalElementCount *= dimension3Size;
-		}
 	}
 	Array::~Array() {
 		if (data != nullptr)
-- 
2.43.0


From 0bac85b8053f13e1a508798ee2c3df4a823612df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 32/72] fix: CompareTo of 32 and 64 bit values overflowed for
 far-apart values

---
 DotNetLibrary/src/CharValue.cpp   | 4 ++--
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..4516794 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -56,7 +56,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	Int32 CharValue::CompareTo(Char valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 CharValue::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -65,7 +65,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != CharType) {
 			throw new ArgumentException();
 		}
-		return value - ((CharValue*) valueToCompare)->value;
+		return CompareTo(((CharValue*) valueToCompare)->value);
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != CharType) {
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..d1edfdb 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int32Value::CompareTo(Int32 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 Int32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int32Value*) valueToCompare)->value;
+		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int32Type) {
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..5daecd6 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int64Value::CompareTo(Int64 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 Int64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int64Value*) valueToCompare)->value;
+		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int64Type) {
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..9b76ae2 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt32Value::CompareTo(UInt32 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 UInt32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt32Value*) valueToCompare)->value;
+		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..53fecfb 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt64Value::CompareTo(UInt64 valueToCompare) {
-		return value - valueToCompare;
+		return (value > valueToCompare) - (value < valueToCompare);
 	}
 	Int32 UInt64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt64Value*) valueToCompare)->value;
+		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
-- 
2.43.0


From c4f15880e55309a37a7c0b106e1a400759cc8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 33/72] fix: Equals of a boxed value with null crashed

---
 DotNetLibrary/src/ByteValue.cpp   | 2 +-
 DotNetLibrary/src/CharValue.cpp   | 2 +-
 DotNetLibrary/src/Int16Value.cpp  | 2 +-
 DotNetLibrary/src/Int32Value.cpp  | 2 +-
 DotNetLibrary/src/Int64Value.cpp  | 2 +-
 DotNetLibrary/src/SByteValue.cpp  | 2 +-
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..f4a13ba 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,7 +70,7 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != ByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
 		return value == ((ByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 4516794..59c671b 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,7 +68,7 @@ namespace DotnetLibrary
 		return CompareTo(((CharValue*) valueToCompare)->value);
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != CharType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
 		return value == ((CharValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..fdea7b4 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
 		return value == ((Int16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index d1edfdb..567c2c5 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
 		return value == ((Int32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 5daecd6..2c74473 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
 		return value == ((Int64Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..c983f7f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != SByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
 		return value == ((SByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..31819dc 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
 		return value == ((UInt16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 9b76ae2..28d498f 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
 		return value == ((UInt32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 53fecfb..3802bb5 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
 		return value == ((UInt64Value*) valueToCompare)->value;
-- 
2.43.0


From 7f79f4a3d11c77dff6a21409892537a2281fba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 34/72] fix: Buffer GetByte and SetByte accepted negative
 indexes

---
 DotNetLibrary/src/Buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..770a6da 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -57,13 +57,13 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From 01634a6376823c4e5509c566281f95822e60b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 35/72] fix: Buffer::BlockCopy of nothing from or to an empty
 array threw

---
 DotNetLibrary/src/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 770a6da..f0b3081 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -40,6 +40,8 @@ namespace DotnetLibrary
 		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
 		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-- 
2.43.0


From 364999f62f8273131f584d823cd7f94aba8bd086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 36/72] fix: BitConverter::ToChar sign-extended characters from
 0x8000

---
 DotNetLibrary/src/BitConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..6e9e6b1 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,7 +88,7 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
+		UInt16 ret;
 		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
 		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
 		return (Char) ret;
-- 
2.43.0


From 932e78befab61e3c06c39f8647385889d7f83171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 37/72] fix: the platform allocator truncated sizes to 32 bits
 and overflowed its fill level

---
 PlatformSupport/PlatformSupport.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..9ccd70e 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -38,9 +38,11 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 		memset(mem, 0, size);
 		return(mem);
 	}
+	if (size > memorySize)
+		return(nullptr);
 	uint32_t required = (uint32_t)size;
 	required = Align(required, sizeof(double));
-	if (memoryUsed + required > memorySize)
+	if (required > memorySize - memoryUsed)
 		return(nullptr);
 	memoryUsed += required;
 	char* ret = currentMemory;
-- 
2.43.0


From 9ed74440e4cb142d1fa99831b450abf2fec4b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 38/72] fix: the platform allocator cleared a null pointer when
 malloc failed

---
 PlatformSupport/PlatformSupport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 9ccd70e..2cc7d50 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,7 +35,8 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
 	if (size > memorySize)
-- 
2.43.0


From 17c2c9da5328e1fc7d77e1fe2c5bd5405cbdbf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 39/72] fix: CharValue classification at a negative position
 raised the wrong exception

---
 DotNetLibrary/src/CharValue.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 59c671b..e1c918c 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -85,7 +85,7 @@ namespace DotnetLibrary
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (GetNumericValue(v->get_Chars(index)));
 	}
@@ -100,7 +100,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsControl(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsControl(v->get_Chars(index)));
 	}
@@ -110,7 +110,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsDigit(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsDigit(v->get_Chars(index)));
 	}
@@ -120,7 +120,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLetter(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLetter(v->get_Chars(index)));
 	}
@@ -130,7 +130,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLetterOrDigit(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLetterOrDigit(v->get_Chars(index)));
 	}
@@ -140,7 +140,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLower(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLower(v->get_Chars(index)));
 	}
@@ -156,7 +156,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsPunctuation(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsPunctuation(v->get_Chars(index)));
 	}
@@ -166,7 +166,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsSeparator(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsSeparator(v->get_Chars(index)));
 	}
@@ -176,7 +176,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsUpper(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsUpper(v->get_Chars(index)));
 	}
@@ -186,7 +186,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsWhiteSpace(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsWhiteSpace(v->get_Chars(index)));
 	}
-- 
2.43.0


From 2f0d2692ef1e31a1a7ad49c50946d386003b7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 40/72] fix: StringBuilder of a null string crashed

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index fb46d95..6225f84 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
-- 
2.43.0


From 3d6dc3119d1697deca006602cbb1718d5fe54ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 41/72] fix: StringBuilder::Insert of a null object or string
 crashed

---
 DotNetLibrary/src/StringBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 6225f84..75961f6 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -411,9 +411,15 @@ namespace DotnetLibrary
 		return (Append(data, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
+		if (value == nullptr) {
+			return (this);
+		}
 		return (Insert(index, value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		if (value == nullptr) {
+			return (this);
+		}
 		for (int i = 0; i < count; ++i) {
 			Append(value->get_Buffer(), value->get_Length(), index);
 		}
-- 
2.43.0


From 219a9de9746aee15a1412168fb8ab2869d109efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 42/72] fix: StringBuilder::Insert of repeated text that does
 not fit left part of it behind

---
 DotNetLibrary/src/StringBuilder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 75961f6..6b80879 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -420,6 +420,14 @@ namespace DotnetLibrary
 		if (value == nullptr) {
 			return (this);
 		}
+		if (count > 0) {
+			if (index < 0 || index > currentLength) {
+				throw new IndexOutOfRangeException();
+			}
+			if ((Int64) value->get_Length() * count > maxCapacity - currentLength) {
+				throw new ArgumentOutOfRangeException();
+			}
+		}
 		for (int i = 0; i < count; ++i) {
 			Append(value->get_Buffer(), value->get_Length(), index);
 		}
-- 
2.43.0


From a6fdb482c1abdbf9923144fc520baadac5a10020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 43/72] fix: StringBuilder::Replace overflowed the buffer when
 the growth exceeds Int32

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 6b80879..5d8b077 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -498,6 +498,9 @@ namespace DotnetLibrary
 		}
 		Int32 delta = replace->get_Length() - search->get_Length();
 		if (delta > 0) {
+			if ((Int64) delta * howMany > maxCapacity - currentLength) {
+				throw new ArgumentOutOfRangeException();
+			}
 			EnsureRoomFor(delta * howMany);
 		}
 		ReplaceSubString(search, replace, startIndex, count);
-- 
2.43.0


From ced996716d3bace63c4a4979737e3f5dd89208ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 44/72] fix: StringBuilder capacity of Int32.MaxValue
 overflowed the allocation size

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 5d8b077..98374e0 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -109,7 +109,7 @@ namespace DotnetLibrary
 			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
 		}
 		else {
-			memset(chunkChars + currentLength, 0, (delta + 1) * sizeof(Char));
+			memset(chunkChars + currentLength, 0, ((size_t) delta + 1) * sizeof(Char));
 		}
 		currentLength = newLength;
 	}
@@ -139,7 +139,7 @@ namespace DotnetLibrary
 			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
 				capacity = capacity > maxCapacity - DefaultCapacity ? maxCapacity : capacity + DefaultCapacity;
-			newArray = new Char[capacity + 1];
+			newArray = new Char[(size_t) capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
 				delete chunkChars;
-- 
2.43.0


From 8d7683cec72ae2d8de0fdf95503af48109ca72ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 45/72] fix: CharValue::FormatString did not terminate the text

---
 DotNetLibrary/src/CharValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index e1c918c..e1fd2d7 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -80,6 +80,7 @@ namespace DotnetLibrary
 		if (whereSize < 2)
 			throw new IndexOutOfRangeException();
 		*where = value;
+		where[1] = 0;
 		return 1;
 	}
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
-- 
2.43.0


From 5f8250d0cb69c3d38a44f8125f2a318b75cf8ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 46/72] fix: CopyChars into a buffer without room copied a
 negative number of characters

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index d2a933e..bc4bfa0 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -669,6 +669,8 @@ namespace DotnetLibrary
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
+		if (whereSize <= 0)
+			return;
 		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
-- 
2.43.0


From 07c9a45f948a1cbd12644e49ffe24dd2343220d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 47/72] fix: String::Substring and Trim failed behind an
 embedded zero character

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index bc4bfa0..8755d4c 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -551,7 +551,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (new String(this->characterData + startIndex, 0, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -653,7 +653,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (new String(get_Buffer() + start, 0, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From 8e8b0113d74249e77ba6317ca6b4420de5839001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 48/72] fix: String of Int32.MaxValue characters overflowed the
 allocation size

---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 8755d4c..9b5d416 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -44,7 +44,7 @@ namespace DotnetLibrary
 
 		allocate = true;
 		this->length = length;
-		characterData = new Char[length + 1];
+		characterData = new Char[(size_t) length + 1];
 		for (size_t i = 0; i < length; ++i) {
 			characterData[i] = string[i + startIndex];
 		}
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		}
 		values->EnsureSingleDimension();
 		this->length = length;
-		characterData = new Char[length + 1];
+		characterData = new Char[(size_t) length + 1];
 		for (size_t i = 0; i < length; ++i) {
 			characterData[i] = *(Char*) values->Address((Int32) i + startIndex);
 		}
@@ -83,7 +83,7 @@ namespace DotnetLibrary
 		}
 		allocate = true;
 		this->length = amount;
-		characterData = new Char[length + 1];
+		characterData = new Char[(size_t) length + 1];
 		if (chr == 0)
 			return;
 		for (size_t i = 0; i < amount; ++i) {
-- 
2.43.0


From bc43e7a07a5bf01c6e323b8e799502e5577115f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 49/72] fix: String::PadLeft and PadRight overflowed the
 capacity

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 9b5d416..f6dbd58 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -482,7 +482,7 @@ namespace DotnetLibrary
 		int count = width - oldLength;
 		if (count <= 0)
 			return this;
-		StringBuilder sb(length + width);
+		StringBuilder sb(width);
 		sb.Append(chr, count);
 		sb.Append(this);
 		return (sb.ToString());
@@ -494,7 +494,7 @@ namespace DotnetLibrary
 		int count = width - oldLength;
 		if (count <= 0)
 			return this;
-		StringBuilder sb(length + width);
+		StringBuilder sb(width);
 		sb.Append(this);
 		sb.Append(chr, count);
 		return (sb.ToString());
-- 
2.43.0


From 2ad1a6b7fab3d1c89cca49bb1174c0079cce3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 50/72] fix: String::CopyTo of no characters at the end of the
 string failed

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index f6dbd58..717fae0 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -213,6 +213,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
-- 
2.43.0


From c301743166acd2dccd4f821b5d6c9988cfd9d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 51/72] fix: String::ToCharArray behind the end raised
 OverflowException

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 717fae0..0e20afd 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -556,7 +556,7 @@ namespace DotnetLibrary
 		return (new String(this->characterData + startIndex, 0, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
-		if (startIndex < 0) {
+		if (startIndex < 0 || startIndex > get_Length()) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (length < 0) {
-- 
2.43.0


From 7b171e0dbd4ec727d25e3de7008f4c053cef9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 52/72] fix: TimeSpan::Subtract raised OverflowException for
 the wrong operands

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..d55d790 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -241,8 +241,8 @@ namespace DotnetLibrary
 		return (results);
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
-		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		Int64 result = (Int64) ((UInt64) value.value - (UInt64) ts.value);
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From c26cd17a8d023e460b25d8fc25c9b0d6038ce288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 53/72] fix: TimeSpan MaxValue and MinValue were -1 and 0

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index d55d790..beb3508 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(Int64Value::MaxValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(Int64Value::MinValue);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From 21e203ffca08ca7944cd4d10b1cc543c2730b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 54/72] fix: TimeSpan from doubles converted NaN and 2^63 ticks
 to Int64

---
 DotNetLibrary/src/TimeSpanValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index beb3508..05f8661 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -129,7 +129,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value / divisor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
+		if (!(ticks >= -9223372036854775808.0 && ticks < 9223372036854775808.0)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
@@ -212,7 +212,7 @@ namespace DotnetLibrary
 		if (DoubleValue::IsNaN(value))
 			throw new ArgumentException();
 		Double ticks = value * scale;
-		if ((ticks > Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
+		if (!(ticks >= -9223372036854775808.0 && ticks < 9223372036854775808.0))
 			throw new OverflowException();
 		return (Int64) ticks;
 	}
@@ -221,7 +221,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value * factor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue) {
+		if (!(ticks >= -9223372036854775808.0 && ticks < 9223372036854775808.0)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
-- 
2.43.0


From 47eb2471d2765041af5fa15a402709f9c2fed021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:25 +0000
Subject: [PATCH 55/72] fix: DateTime accepted 1000 milliseconds

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..823e702 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 		Int64 totalSeconds = (Int64) days * 3600 * 24 + (Int64) hour * 3600 + (Int64) minute * 60 + (Int64) second;
 		if (totalSeconds > MaxSeconds || totalSeconds < MinSeconds)
 			throw new ArgumentOutOfRangeException();
-		if (milliseconds < 0 || milliseconds > 1000)
+		if (milliseconds < 0 || milliseconds >= 1000)
 			throw new ArgumentOutOfRangeException();
 		return ((totalSeconds * TicksPerSecond) + (milliseconds * TicksPerMillisecond));
 	}
-- 
2.43.0


From 2584448ec772c6b97744ef6fd299f94da0ae52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 56/72] fix: DateTime ignored the time of day for a negative
 hour

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 823e702..2f01fc4 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -74,8 +74,7 @@ namespace DotnetLibrary
 	}
 	DateTime::DateTime(Int32 year, Int32 month, Int32 day, Int32 hour, Int32 minute, Int32 second, Int32 millisecond) {
 		value = DateToTicks(year, month, day);
-		if (hour >= 0)
-			value += TimeToTicks(hour, minute, second, millisecond);
+		value += TimeToTicks(hour, minute, second, millisecond);
 	}
 
 	DateTime DateTimeValue::get_UtcNow() {
-- 
2.43.0


From 4beb8bb9d387bf88e778d33a4ccc112e30e932ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 57/72] fix: DateTime Add of NaN converted NaN to Int64

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 2f01fc4..f576826 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 	}
 	DateTime DateTimeValue::Add(Double value, Int32 scale) {
 		Double millis_double = value * (Double) scale + (value >= 0 ? 0.5 : -0.5);
-		if (millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
+		if (!(millis_double > (Double) -MaxMillis && millis_double < (Double) MaxMillis))
 			throw new ArgumentOutOfRangeException();
 		return AddTicks((Int64) millis_double * TicksPerMillisecond);
 	}
-- 
2.43.0


From 3b1523288677e48f0eb37aa38b38e6587cb726cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:57 +0000
Subject: [PATCH 58/72] fix: integer parsing accepted text after trailing white
 space

---
 DotNetLibrary/src/UInt64Value.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 3802bb5..215dcf2 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -141,7 +141,11 @@ namespace DotnetLibrary
 			--sourceLength;
 			gotNumber = true;
 		}
-		if (sourceLength > 0 && !CharValue::IsWhiteSpace(*source))
+		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
 			gotNumber = false;
 		return (gotNumber);
 	}
-- 
2.43.0


From ff3cb042f7386211bf31853ba469f746d66c48a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:08 +0000
Subject: [PATCH 59/72] fix: UInt64 parsing wrapped numbers that do not fit

---
 DotNetLibrary/include/UInt64Value.h | 10 ++++++----
 DotNetLibrary/src/UInt64Value.cpp   | 27 +++++++++++++++++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/DotNetLibrary/include/UInt64Value.h b/DotNetLibrary/include/UInt64Value.h
index 4460209..505fef1 100644
--- a/DotNetLibrary/include/UInt64Value.h
+++ b/DotNetLibrary/include/UInt64Value.h
@@ -154,20 +154,22 @@ namespace DotnetLibrary
 		/*!
 		 * Try parse internal
 		 * @param source of text
-		 * @param result of parse
+		 * @param result of parse, the largest value if the number does not fit
 		 * @param sign sign of value
+		 * @param overflow set if the number does not fit
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Try parse internal
 		 * @param source of text
 		 * @param sourceLength length of text
-		 * @param result of parse
+		 * @param result of parse, the largest value if the number does not fit
 		 * @param sign sign of value
+		 * @param overflow set if the number does not fit
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Max value
 		 */
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 215dcf2..42cd9ea 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -90,9 +90,10 @@ namespace DotnetLibrary
 	UInt64 UInt64Value::Parse(String* stringToParse) {
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (overflow)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -100,22 +101,24 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if (sign < 0 || overflow)
 			goodNumber = false;
 		result = (UInt64) value;
 		return (goodNumber);
 	}
-	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow) {
 		if (source == nullptr)
 			throw new ArgumentNullException();
-		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign));
+		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign, overflow));
 	}
-	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow) {
 		result = 0;
 		sign = 1;
 		Boolean gotNumber = false;
+		Boolean tooLarge = false;
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
@@ -136,7 +139,13 @@ namespace DotnetLibrary
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
-			result = 10 * result + *source - '0';
+			UInt64 digit = (UInt64) (*source - L'0');
+			if (tooLarge || result > (MaxValue - digit) / 10) {
+				tooLarge = true;
+				result = MaxValue;
+			}
+			else
+				result = 10 * result + digit;
 			++source;
 			--sourceLength;
 			gotNumber = true;
@@ -147,6 +156,8 @@ namespace DotnetLibrary
 		}
 		if (sourceLength > 0)
 			gotNumber = false;
+		if (overflow != nullptr)
+			*overflow = tooLarge;
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 37bbca7a34ad89708f3e75fcc9a4c3deb4230507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:09 +0000
Subject: [PATCH 60/72] fix: integer parsing accepted numbers outside the range
 of the type

---
 DotNetLibrary/src/ByteValue.cpp   |  4 ++--
 DotNetLibrary/src/Int16Value.cpp  |  4 ++--
 DotNetLibrary/src/Int32Value.cpp  |  8 ++++----
 DotNetLibrary/src/Int64Value.cpp  | 12 ++++++++++--
 DotNetLibrary/src/SByteValue.cpp  |  4 ++--
 DotNetLibrary/src/UInt16Value.cpp |  6 +++---
 DotNetLibrary/src/UInt32Value.cpp |  6 +++---
 DotNetLibrary/src/UInt64Value.cpp |  4 ++--
 8 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index f4a13ba..841ae04 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -90,7 +90,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
 		return (value);
 	}
@@ -100,7 +100,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		result = (Byte) value;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index fdea7b4..1e5bc3b 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -93,7 +93,7 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
 		return ((Int16) value * sign);
 	}
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
 		result = (Int16) value * sign;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 567c2c5..7cc80de 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -94,9 +94,9 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int32) value * sign);
+		return ((Int32) ((Int64) value * sign));
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
 		Boolean goodNumber = true;
@@ -106,9 +106,9 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int32) value * sign;
+		result = (Int32) ((Int64) value * sign);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 2c74473..9a10329 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -92,7 +92,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		return ((Int64) value * sign);
+		if (sign > 0 && value > (UInt64) MaxValue)
+			throw new OverflowException();
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
+			throw new OverflowException();
+		return ((Int64) (sign < 0 ? 0 - value : value));
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
 		Boolean goodNumber = true;
@@ -100,7 +104,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		result = (Int64) value * sign;
+		if (sign > 0 && value > (UInt64) MaxValue)
+			goodNumber = false;
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
+			goodNumber = false;
+		result = (Int64) (sign < 0 ? 0 - value : value);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index c983f7f..246ccb5 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -94,7 +94,7 @@ namespace DotnetLibrary
 			throw new FormatException();
 		if (sign > 0 && value > MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
 		return ((SByte) value * sign);
 	}
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
 		result = (SByte) value * sign;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index 31819dc..fa2046a 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -92,9 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt16) value * sign);
+		return ((UInt16) value);
 	}
 	bool UInt16Value::TryParse(String* stringToParse, UInt16& result) {
 		Boolean goodNumber = true;
@@ -102,7 +102,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		result = (UInt16) value;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index 28d498f..f8963f1 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -92,9 +92,9 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			throw new OverflowException();
-		return ((UInt32) value * sign);
+		return ((UInt32) value);
 	}
 	bool UInt32Value::TryParse(String* stringToParse, UInt32& result) {
 		Boolean goodNumber = true;
@@ -102,7 +102,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
 		result = (UInt32) value;
 		return (goodNumber);
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 42cd9ea..76fefd8 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -93,7 +93,7 @@ namespace DotnetLibrary
 		Boolean overflow = false;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			throw new FormatException();
-		if (overflow)
+		if ((sign < 0 && value != 0) || overflow)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -104,7 +104,7 @@ namespace DotnetLibrary
 		Boolean overflow = false;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
-		if (sign < 0 || overflow)
+		if ((sign < 0 && value != 0) || overflow)
 			goodNumber = false;
 		result = (UInt64) value;
 		return (goodNumber);
-- 
2.43.0


From bb67b52705d137ff45e1e22346f44303c262e49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:10 +0000
Subject: [PATCH 61/72] fix: TryParse of integers threw for null and left a
 value on failure

---
 DotNetLibrary/src/ByteValue.cpp   | 4 ++--
 DotNetLibrary/src/Int16Value.cpp  | 4 ++--
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/SByteValue.cpp  | 4 ++--
 DotNetLibrary/src/UInt16Value.cpp | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 841ae04..556f2d0 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -98,11 +98,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
-		result = (Byte) value;
+		result = goodNumber ? (Byte) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 1e5bc3b..f6f9ae4 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -101,13 +101,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int16) value * sign;
+		result = goodNumber ? (Int16) value * sign : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 7cc80de..bd3c869 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -102,13 +102,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int32) ((Int64) value * sign);
+		result = goodNumber ? (Int32) ((Int64) value * sign) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 9a10329..5681e5d 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -102,13 +102,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int64) (sign < 0 ? 0 - value : value);
+		result = goodNumber ? (Int64) (sign < 0 ? 0 - value : value) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index 246ccb5..12412d2 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -102,13 +102,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (SByte) value * sign;
+		result = goodNumber ? (SByte) value * sign : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index fa2046a..ed1e272 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -100,11 +100,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
-		result = (UInt16) value;
+		result = goodNumber ? (UInt16) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index f8963f1..6e3a27e 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -100,11 +100,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if ((sign < 0 && value != 0) || value > MaxValue)
 			goodNumber = false;
-		result = (UInt32) value;
+		result = goodNumber ? (UInt32) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 76fefd8..c42385c 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -102,11 +102,11 @@ namespace DotnetLibrary
 		UInt64 value = 0;
 		Int32 sign = 0;
 		Boolean overflow = false;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
 		if ((sign < 0 && value != 0) || overflow)
 			goodNumber = false;
-		result = (UInt64) value;
+		result = goodNumber ? (UInt64) value : 0;
 		return (goodNumber);
 	}
 	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow) {
-- 
2.43.0


From 8b9193a1f58619a08cb30cdb8aea7f18e91d546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:31 +0000
Subject: [PATCH 62/72] fix: DateTime formatted noon as AM

---
 DotNetLibrary/src/DateTimeValue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index f576826..55a3a9e 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -271,9 +271,10 @@ namespace DotnetLibrary
 		Int32 minute = this->get_Minute();
 		Int32 second = this->get_Second();
 		Boolean isPm = false;
-		if (hour > 12) {
-			hour -= 12;
+		if (hour >= 12) {
 			isPm = true;
+			if (hour > 12)
+				hour -= 12;
 		}
 		Char dateTime[128];
 #ifdef __MINGW32__
-- 
2.43.0


From 2572f425f58d9c2b5470d570f8be63e306c64ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:32 +0000
Subject: [PATCH 63/72] fix: DateTime FormatString used the size of another
 buffer

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 55a3a9e..51b3380 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -280,7 +280,7 @@ namespace DotnetLibrary
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From 1828121688ff0baed0013c334b8f7b574cfe63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:33 +0000
Subject: [PATCH 64/72] fix: TimeSpan fraction lost its leading zeros

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 05f8661..5078e8e 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -185,8 +185,8 @@ namespace DotnetLibrary
 			Char frac[32];
 			Int32Value factValue(fractional);
 			Int32 fracLength = factValue.FormatString(frac, 32);
-			stringBuilder.Append(frac, fracLength);
 			stringBuilder.Append(L'0', 7 - fracLength);
+			stringBuilder.Append(frac, fracLength);
 		}
 		return (stringBuilder.FormatString(where, whereSize));
 	}
-- 
2.43.0


From 5e409442351916a1a6e7b98295ff0ee6f92616b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 65/72] fix: TimeSpan TryParse misread short fractions, long
 day counts and malformed text

---
 DotNetLibrary/src/TimeSpanValue.cpp | 85 +++++++++++++++++------------
 1 file changed, 49 insertions(+), 36 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 5078e8e..0a4f6c3 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -247,58 +247,71 @@ namespace DotnetLibrary
 		return TimeSpan(result);
 	}
 	Boolean TimeSpanValue::TryParse(String* s, TimeSpan& result) {
+		result = TimeSpan((Int64) 0);
+		if (s == nullptr)
+			return false;
 		Int64 numbers[] = { 0, 0, 0, 0 };
 		Int32 amount = 0;
 		Int64 fractional = 0;
 		Char* chars = s->get_Buffer();
 		Int32 length = s->get_Length();
-		Int32 sign;
 		Boolean negate = false;
-		if (*chars == L'-') {
+		Boolean hasDays = false;
+		if (length > 0 && *chars == L'-') {
 			negate = true;
 			++chars;
 			--length;
 		}
-		while (length > 0) {
-			UInt64 number;
-			Int32 digits = 1;
-			if (!CharValue::IsDigit(*chars))
-				break;
-			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
+		while (true) {
+			if (amount == 4 || length == 0 || !CharValue::IsDigit(*chars))
+				return false;
+			Int64 number = 0;
+			while (length > 0 && CharValue::IsDigit(*chars)) {
+				number = 10 * number + (*chars - L'0');
+				if (number > MaxValue.value / TicksPerDay)
+					return false;
+				++chars;
+				--length;
+			}
+			numbers[amount++] = number;
+			if (length == 0)
 				break;
-			if (CharValue::IsDigit(chars[1]))
-				digits = 2;
-			UInt64Value::TryParseInternal(chars, digits, number, sign);
-			numbers[amount++] = (Int64) number;
-			chars += digits + 1;
-			length -= digits + 1;
+			if (*chars == L'.') {
+				if (amount > 1)
+					break;
+				hasDays = true;
+			}
+			else if (*chars != L':')
+				return false;
+			++chars;
+			--length;
 		}
-		Int64 frac = TicksPerSecond;
-		while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
-			frac /= 10;
-			fractional += (Int64) (*chars - L'0') * frac;
+		if (length > 0) {
 			++chars;
 			--length;
+			Int64 frac = TicksPerSecond;
+			while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
+				frac /= 10;
+				fractional += (Int64) (*chars - L'0') * frac;
+				++chars;
+				--length;
+			}
+			if (length > 0 || frac == TicksPerSecond)
+				return false;
 		}
-		//for (; length > 0; --length) {
-		//	if (chars[length - 1] != L'0')
-		//		break;
-		//}
-		//if (length > 0)
-		//	if (!UInt64Value::TryParseInternal(chars, length, fractional, sign))
-		//		return(false);
-		//}
 		Int64 days = 0;
-		Int64 index = 0;
-		if (amount > 3 || amount == 1)
-			days += numbers[index++] * TicksPerDay;
-		Int64 hours = numbers[index++] * TicksPerHour;
-		Int64 minutes = numbers[index++] * TicksPerMinute;
-		Int64 seconds = numbers[index++] * TicksPerSecond;
-		Int64 ticks = fractional + days + hours + minutes + seconds;
-		if (negate)
-			ticks = -ticks;
-		result = ticks;
+		Int32 index = 0;
+		if (hasDays || amount > 3 || amount == 1)
+			days = numbers[index++];
+		Int64 hours = numbers[index++];
+		Int64 minutes = numbers[index++];
+		Int64 seconds = numbers[index++];
+		if (hours > 23 || minutes > 59 || seconds > 59)
+			return false;
+		UInt64 ticks = (UInt64) (days * TicksPerDay) + (UInt64) (hours * TicksPerHour + minutes * TicksPerMinute + seconds * TicksPerSecond + fractional);
+		if (ticks > (UInt64) MaxValue.value + (negate ? 1 : 0))
+			return false;
+		result = TimeSpan((Int64) (negate ? 0 - ticks : ticks));
 		return true;
 	}
 	TimeSpan TimeSpanValue::op_Addition(const TimeSpan& ts1, const TimeSpan& ts2) {
-- 
2.43.0


From a4ab2f86838505c6799227e548a2e819b42c98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:21 +0000
Subject: [PATCH 66/72] fix: floating-point parsing returned garbage for text
 that is no number

---
 DotNetLibrary/src/DoubleValue.cpp | 20 ++++++++++++++++----
 DotNetLibrary/src/SingleValue.cpp | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 26f845e..bee2c04 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -137,12 +137,14 @@ namespace DotnetLibrary
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
 		Double rtn;
-		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
 		Boolean goodNumber = true;
 		Double value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -163,9 +165,19 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Double rtn;
-		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
-		result = rtn;
+		Double rtn = 0;
+		Int32 used = 0;
+		gotNumber = swscanf(source, L"%lG%n", &rtn, &used) == 1;
+		source += used;
+		sourceLength -= used;
+		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
+			gotNumber = false;
+		if (gotNumber)
+			result = rtn;
 		return (gotNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..0e4a6e6 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -144,12 +144,14 @@ namespace DotnetLibrary
 	}
 	Single SingleValue::Parse(String* stringToParse) {
 		Single rtn;
-		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean SingleValue::TryParse(String* source, Single& result) {
 		Boolean goodNumber = true;
 		Single value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -170,9 +172,19 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Single rtn;
-		gotNumber = swscanf(source, L"%G", &rtn) == 1;
-		result = rtn;
+		Single rtn = 0;
+		Int32 used = 0;
+		gotNumber = swscanf(source, L"%G%n", &rtn, &used) == 1;
+		source += used;
+		sourceLength -= used;
+		while (sourceLength > 0 && CharValue::IsWhiteSpace(*source)) {
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
+			gotNumber = false;
+		if (gotNumber)
+			result = rtn;
 		return (gotNumber);
 	}
 	Single SingleValue::ToSingle(UInt32 v) {
-- 
2.43.0


From 8a4b867cbcd709b6caa0a2e940a0c53d4d727855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:37 +0000
Subject: [PATCH 67/72] fix: Array destructor freed memory that was only lent
 to the array

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..ba7e818 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		bool ownsData;					// data storage was allocated by array
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index f6af0fe..1f8feda 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
@@ -73,7 +75,7 @@ namespace DotnetLibrary
 			++dimensionCount;
 	}
 	Array::~Array() {
-		if (data != nullptr)
+		if (ownsData && data != nullptr)
 			delete data;
 		data = nullptr;
 	}
-- 
2.43.0


From 65ac38a420b4bafc43af499ab2f0c8ee843ad0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:31 +0000
Subject: [PATCH 68/72] fix: DateTime::IsDaylightSavingTime read an
 uninitialised daylight flag

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 51b3380..3486e15 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -253,8 +253,9 @@ namespace DotnetLibrary
 		timeinfo.tm_mon = get_Month() - 1;
 		timeinfo.tm_sec = get_Second();
 		timeinfo.tm_year = get_Year() - 1900;
+		timeinfo.tm_isdst = -1;
 		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		return (timeinfo.tm_isdst > 0);
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From 110e4042ba37ca7cb396f62a76b45b45758ddf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:32 +0000
Subject: [PATCH 69/72] fix: DateTime time zone offset ignored the day and the
 minutes

---
 DotNetLibrary/src/DateTimeValue.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 3486e15..8c410b7 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -313,10 +313,14 @@ namespace DotnetLibrary
 #endif
 		time_t rawTime = time(nullptr);
 		struct tm* utcInfo = gmtime(&rawTime);
+		int gmYear = utcInfo->tm_year;
+		int gmDay = utcInfo->tm_yday;
 		int gmHour = utcInfo->tm_hour;
+		int gmMinute = utcInfo->tm_min;
 		struct tm* localInfo = localtime(&rawTime);
-		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
+		// the two clocks can stand on neighbouring days
+		int days = localInfo->tm_year != gmYear ? localInfo->tm_year - gmYear : localInfo->tm_yday - gmDay;
+		TimeSpan ts = TimeSpan(days * 24 + localInfo->tm_hour - gmHour, localInfo->tm_min - gmMinute, 0);
 		return ts;
 	}
 
-- 
2.43.0


From ec6b0b459e4c908428e711a822a8ae0f5065f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:05 +0000
Subject: [PATCH 70/72] fix: String::Compare crashed on null and read outside
 the strings

---
 DotNetLibrary/src/StringDotNet.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 0e20afd..43e77b9 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -131,17 +131,35 @@ namespace DotnetLibrary
 		}
 		return 0;
 	}
+	// null comes before every string
+	static Int32 CompareNull(String* s1, String* s2) {
+		return s1 == s2 ? 0 : (s1 == nullptr ? -1 : 1);
+	}
+	static void CheckCompare(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length) {
+		if (length < 0 || index1 < 0 || index2 < 0 || index1 > s1->get_Length() || index2 > s2->get_Length())
+			throw new ArgumentOutOfRangeException();
+	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
+		if (s1 == nullptr || s2 == nullptr)
+			return (CompareNull(s1, s2));
 		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
+		if (s1 == nullptr || s2 == nullptr)
+			return (CompareNull(s1, s2));
+		CheckCompare(s1, index1, s2, index2, length);
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
+		if (s1 == nullptr || s2 == nullptr)
+			return (CompareNull(s1, s2));
 		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
+		if (s1 == nullptr || s2 == nullptr)
+			return (CompareNull(s1, s2));
+		CheckCompare(s1, index1, s2, index2, length);
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
-- 
2.43.0


From 27f096e8e5b04de2bfef8a388015c0506be95fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:06 +0000
Subject: [PATCH 71/72] fix: LastIndexOf of a character raised the wrong
 exception for an invalid window

---
 DotNetLibrary/src/StringDotNet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 43e77b9..66d8dce 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -447,6 +447,10 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (length == 0)
+			return (-1);
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -484,6 +488,10 @@ namespace DotnetLibrary
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
+		if (length == 0)
+			return (-1);
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
-- 
2.43.0


From 7743a8eb0053bfee0c04f9c611e735a9571f994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:07 +0000
Subject: [PATCH 72/72] fix: Array::GetLength accepted dimensions that do not
 exist

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1f8feda..70a6d10 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -155,7 +155,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -166,12 +166,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0

