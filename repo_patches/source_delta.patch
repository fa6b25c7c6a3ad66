From 5529a0325a0c77c8f898da550897e4727f7036fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 001/102] fix: Long bit operations shift in zeros, so negative
 values work

---
 library/Java/Lang/Long/Long.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..067094a 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -258,13 +258,14 @@ int Long::hashCode() {
  * @return long
  */
 long Long::highestOneBit(long i) {
-	i |= ( i >> 1 );
-	i |= ( i >> 2 );
-	i |= ( i >> 4 );
-	i |= ( i >> 8 );
-	i |= ( i >> 16 );
-	i |= ( i >> 32 );
-	return ( i - ( i >> 1 ));
+	unsigned long u = (unsigned long) i;
+	u |= ( u >> 1 );
+	u |= ( u >> 2 );
+	u |= ( u >> 4 );
+	u |= ( u >> 8 );
+	u |= ( u >> 16 );
+	u |= ( u >> 32 );
+	return (long) ( u - ( u >> 1 ));
 }
 
 /**
@@ -456,7 +457,8 @@ long Long::reverseBytes(long i) {
  * @return long
  */
 long Long::rotateLeft(long i, int distance) {
-	return (( i << distance ) | ( i >> -distance ));
+	unsigned long u = (unsigned long) i;
+	return (long) (( u << ( distance & 63 )) | ( u >> ( -distance & 63 )));
 }
 
 /**
@@ -468,7 +470,8 @@ long Long::rotateLeft(long i, int distance) {
  * @return long
  */
 long Long::rotateRight(long i, int distance) {
-	return (( i >> distance ) | ( i << -distance ));
+	unsigned long u = (unsigned long) i;
+	return (long) (( u >> ( distance & 63 )) | ( u << ( -distance & 63 )));
 }
 
 /**
@@ -487,7 +490,7 @@ short Long::shortValue() const {
  * @return int
  */
 int Long::signum(long i) {
-	return (int) (( i >> 63 ) | ( -i >> 63 ));
+	return (int) (( i >> 63 ) | (long) ( -(unsigned long) i >> 63 ));
 }
 
 /**
-- 
2.43.0


From 0a3d012820b72c7a7697307b40da1eb264b9dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 002/102] fix: Long::toString(long) returns the text of its own
 argument every time

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 067094a..47d8d0e 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -542,7 +542,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
+	Long result = i;
 	return result.toString();
 }
 
-- 
2.43.0


From d2883903a4c37c8f6ce5db72ceb381b7efcea018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 003/102] fix: Long octal, hex and binary text of negative
 values shift in zeros

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 47d8d0e..056553c 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -608,7 +608,7 @@ int Long::formatUnsignedLong(long val, int shift, Array<char> &buf, int offset,
 	
 	do {
 		buf[ offset + --charPos ] = digits[ ((int) val ) & mask ];
-		val >>= shift;
+		val = (long) ( (unsigned long) val >> shift );
 	} while (val != 0 && charPos > 0);
 	
 	return charPos;
-- 
2.43.0


From a23433398d7309bddf41d03e63f3ac60a4b7d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 004/102] fix: Long compound assignment keeps toString() in
 step with the value

---
 library/Java/Lang/Long/Long.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 056553c..130ecff 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -797,7 +797,7 @@ boolean Long::operator>=(const Long &target) const {
  * @param target
  */
 void Long::operator-=(const Long &target) {
-	this->original -= target.original;
+	*this = *this - target;
 }
 
 /**
@@ -806,7 +806,7 @@ void Long::operator-=(const Long &target) {
  * @param target
  */
 void Long::operator+=(const Long &target) {
-	this->original += target.original;
+	*this = *this + target;
 }
 
 /**
@@ -815,7 +815,7 @@ void Long::operator+=(const Long &target) {
  * @param target
  */
 void Long::operator*=(const Long &target) {
-	this->original *= target.original;
+	*this = *this * target;
 }
 
 /**
@@ -824,7 +824,7 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
-	this->original /= target.original;
+	*this = *this / target;
 }
 
 /**
@@ -833,5 +833,5 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
-	this->original %= target.original;
+	*this = *this % target;
 }
\ No newline at end of file
-- 
2.43.0


From eef1d30f7d4226b7fdfcc48a5fab421afdac8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 005/102] fix: Bytes::valueOf(byte) no longer deletes the
 shared cache it will use again

---
 library/Java/Lang/Bytes/Bytes.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 719a98b..808bd0f 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -145,9 +145,7 @@ long Bytes::toUnsignedLong(byte byteValue) {
 
 Bytes Bytes::valueOf(byte byteValue) {
     auto byteInstance = ByteCache::getInstance();
-    auto value = byteInstance->getByteAtIndex((int) byteValue);
-    delete byteInstance;
-    return value;
+    return byteInstance->getByteAtIndex((int) byteValue);
 }
 
 Bytes Bytes::valueOf(String stringValue) {
-- 
2.43.0


From 2293b4ca97cc55d0c704a534e8582e807609ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 006/102] fix: Float::compare and equals order all values, not
 only those whose bit text is exact

---
 library/Java/Lang/Float/Float.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3ee56b9..1177018 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -556,6 +556,16 @@ String Float::intBitsToBinary32StringType(int intBitsInput) {
 }
 
 int Float::compare(float float1, float float2) {
+    if (float1 < float2) {
+        return -1;
+    }
+    if (float1 > float2) {
+        return 1;
+    }
+    if (float1 == float2) {
+        return 0;
+    }
+
     int thisBits = Float::floatToIntBits(float1);
     int anotherBits = Float::floatToIntBits(float2);
 
@@ -577,9 +587,7 @@ int Float::compareTo(const Float &anotherFloat) const {
 boolean Float::equals(const Float &object) const {
     boolean isFloat = typeid(object).name() == typeid(float).name();
     auto castObjectToFloat = (Float*)&object;
-    int floatToIntBitsObject = floatToIntBits(castObjectToFloat->original);
-    int floatToIntBitsThis = floatToIntBits(this->original);
-    boolean isEqual = (floatToIntBitsObject == floatToIntBitsThis);
+    boolean isEqual = (compare(castObjectToFloat->original, this->original) == 0);
     return isEqual;
     // return (isFloat && isEqual);
 }
-- 
2.43.0


From 6b6f0b5bf0e093456aae0165229d34e5d05b0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 007/102] fix: Double::compare and equals order all values, not
 only those whose bit text is exact

---
 library/Java/Lang/Double/Double.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 37740cf..16a5d65 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -201,6 +201,16 @@ Double Double::operator/=(const Double &target) const {
 }
 
 int Double::compare(double double1, double double2) {
+    if (double1 < double2) {
+        return -1;
+    }
+    if (double1 > double2) {
+        return 1;
+    }
+    if (double1 == double2) {
+        return 0;
+    }
+
     long thisBits = Double::doubleToLongBits(double1);
     long anotherBits = Double::doubleToLongBits(double2);
 
@@ -259,9 +269,7 @@ long Double::doubleToRawLongBits(double doubleInput) {
 boolean Double::equals(const Double &object) const {
     boolean isDouble = (typeid(object).name() == typeid(double).name());
     auto castObjectToDouble = (Double *) &object;
-    long doubleToLongBitsObject = doubleToLongBits(castObjectToDouble->original);
-    long doubleToLongBitsThis = doubleToLongBits(this->original);
-    boolean isEqual = (doubleToLongBitsObject == doubleToLongBitsThis);
+    boolean isEqual = (compare(castObjectToDouble->original, this->original) == 0);
     return isEqual;
     // return (isDouble && isEqual);
 }
-- 
2.43.0


From 22477979fc9ffb77585320c5c572d32a876b0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 008/102] fix: Math::multiplyExact(int) and toIntExact report
 negative overflow

---
 library/Java/Lang/Math/Math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3d488fd..66c557e 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -290,7 +290,7 @@ double Math::min(double valueA, double valueB) {
 
 int Math::multiplyExact(int valueA, int valueB) {
 	long result = (long) valueA * (long) valueB;
-	if (result -  (int) result > 0) {
+	if (result != (int) result) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) result;
@@ -484,7 +484,7 @@ double Math::toDegrees(double angleRadian) {
 }
 
 int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
+	if (value != (int) value) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) value;
-- 
2.43.0


From 7816ef4a4c232141974da223efe0888c22006167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 009/102] fix: Math::multiplyExact(long) checks all 64 bits of
 its operands

---
 library/Java/Lang/Math/Math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 66c557e..7d3ab17 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -303,8 +303,8 @@ long Math::multiplyExact(long valueA, long valueB) {
 	}
 	
 	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
+	unsigned long absA = (unsigned long) abs(valueA);
+	unsigned long absB = (unsigned long) abs(valueB);
 	
 	if (((absA | absB) >> 31) != 0) {
 		if ((valueB != 0) && (result / valueB != valueA)) {
-- 
2.43.0


From acd5ed0392679eec5b305ac13789839e15489563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 010/102] fix: Float::floatToIntBits gives the IEEE bits of
 every value

---
 library/Java/Lang/Float/Float.cpp | 211 ++----------------------------
 1 file changed, 9 insertions(+), 202 deletions(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 1177018..f516031 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -197,217 +197,24 @@ Float Float::valueOf(float inputFloat) {
 }
 
 String Float::floatToBinary32StringType(float floatInput) {
-    string integerPartNormalizeForm = (string) calloc (280, sizeof(char));
-    string fractionPartNormalizeForm = (string) calloc (25, sizeof(char));
-    string floatInputNormalizeForm = (string) calloc (280, sizeof(char));
-    string resultFloatToBinary32StringType
-            = (string) calloc (33, sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartFloatInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfFloatInputNormalizeForm;
-
-    int sizeOfExponentPartBinary32 = 8;
-
-    int indexOfFor;
+    char resultFloatToBinary32StringType[33] = {0};
+    unsigned int bits = 0;
     int index;
-    int indexOfDotFloatInputNormalizeForm;
-    int indexFirstBit1FloatInputNormalizeForm;
-    int indexBeginFractionPartResultFloatToBinary32StringType = 0;
-
-    int exponentBiasBinary32 = 127;
-    int exponentFloatInput;
-
-    float fractionPartFloatInput;
-
-    for (indexOfFor = 0 ; indexOfFor <= 31; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = '0';
-        resultFloatToBinary32StringType[indexOfFor] = '0';
-    }
-
-    for (indexOfFor = 0 ; indexOfFor <= 23; indexOfFor++) {
-        integerPartNormalizeForm[indexOfFor] = '0';
-        fractionPartNormalizeForm[indexOfFor] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[279] = '\0';
-    fractionPartNormalizeForm[24] = '\0';
-    floatInputNormalizeForm[279] = '\0';
-    resultFloatToBinary32StringType[32] = '\0';
-
-    if (floatInput >= 0) {
-        resultFloatToBinary32StringType[0] = '0';
-    }
-
-    if (floatInput < 0) {
-        resultFloatToBinary32StringType[0] = '1';
-    }
-
-    if (floatInput == 0) {
-        goto outPut;
-    }
-
-    if (floatInput == Float::POSITIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "01111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (floatInput == Float::NEGATIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "11111111100000000000000000000000");
-        goto outPut;
-    }
 
     if (isNaN(floatInput)) {
-        strcpy(resultFloatToBinary32StringType, "01111111111111111111111111111111");
-
-        goto outPut;
+        return "01111111111111111111111111111111";
     }
 
-    /** Get |floatInput| */
-    floatInput = fabs(floatInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartFloatInput = (int) floor(floatInput);
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartFloatInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
+    /** Both zeros have the same form */
+    if (floatInput != 0) {
+        memcpy(&bits, &floatInput, sizeof(bits));
     }
 
-    if (integerPartFloatInput != 0) {
-        while (integerPartFloatInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartFloatInput = integerPartFloatInput >> 1;
-        }
+    for (index = 0; index <= 31; index++) {
+        resultFloatToBinary32StringType[index] = ((bits >> (31 - index)) & 1) != 0 ? '1' : '0';
     }
 
-    integerPartFloatInput = (int) floor(floatInput);
-    index = sizeOfIntegerPartNormalizeForm -1;
-    while (integerPartFloatInput != 0) {
-        if ((integerPartFloatInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartFloatInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartFloatInput = integerPartFloatInput >> 1;
-    }
-
-    fractionPartFloatInput = floatInput - integerPartFloatInput;
-    index = 0;
-
-    while ((fractionPartFloatInput != 0) && (index < 24)) {
-        fractionPartFloatInput = fractionPartFloatInput * 2;
-
-        int integerPart = (int) floor(fractionPartFloatInput);
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartFloatInput = fractionPartFloatInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to floatInputNormalizeForm */
-    for (indexOfFor = 0; indexOfFor < sizeOfIntegerPartNormalizeForm; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = integerPartNormalizeForm[indexOfFor];
-    }
-
-    indexOfDotFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    floatInputNormalizeForm[indexOfDotFloatInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to floatInputNormalizeForm
-     */
-    index = indexOfDotFloatInputNormalizeForm +1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFractionPartNormalizeForm; indexOfFor++, index++) {
-        floatInputNormalizeForm[index]
-                = fractionPartNormalizeForm[indexOfFor];
-    }
-
-    sizeOfFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                    + sizeOfFractionPartNormalizeForm;
-
-    indexFirstBit1FloatInputNormalizeForm = 1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFloatInputNormalizeForm; indexOfFor++) {
-        if (floatInputNormalizeForm[indexOfFor] == '1') {
-            indexFirstBit1FloatInputNormalizeForm = indexOfFor;
-            break;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    if (integerPartFloatInput != 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm -1;
-    }
-
-    if (integerPartFloatInput == 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm;
-    }
-
-    exponentFloatInput = powerExponentBase2 + exponentBiasBinary32;
-
-    index = sizeOfExponentPartBinary32;
-
-    while (exponentFloatInput != 0) {
-        if ((exponentFloatInput & 1) == 1) {
-            resultFloatToBinary32StringType[index] = '1';
-        }
-
-        if ((exponentFloatInput & 1) == 0) {
-            resultFloatToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        exponentFloatInput = exponentFloatInput >> 1;
-    }
-
-    indexBeginFractionPartResultFloatToBinary32StringType
-            = sizeOfExponentPartBinary32 + 1;
-
-    index = indexBeginFractionPartResultFloatToBinary32StringType;
-    indexOfFor = indexFirstBit1FloatInputNormalizeForm + 1;
-
-    for (index ; index <= 31; index++) {
-        if (indexOfFor == sizeOfFloatInputNormalizeForm) {
-            break;
-        }
-
-        if (indexOfFor == indexOfDotFloatInputNormalizeForm) {
-            indexOfFor++;
-        }
-
-        resultFloatToBinary32StringType[index]
-                = floatInputNormalizeForm[indexOfFor];
-        indexOfFor++;
-    }
-
-    outPut:
-    /** Return resultFloatToBinary32StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(floatInputNormalizeForm);
-    String result = resultFloatToBinary32StringType;
-    free(resultFloatToBinary32StringType);
-
-    return  result;
+    return resultFloatToBinary32StringType;
 }
 
 float Float::binary32StringTypeToFloat(String binary32StringTypeInput) {
-- 
2.43.0


From 074b52f36575041eb2f67d17d14dcf716be76d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 011/102] fix: Double::doubleToLongBits gives the IEEE bits of
 every value

---
 library/Java/Lang/Double/Double.cpp | 220 ++--------------------------
 1 file changed, 9 insertions(+), 211 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 16a5d65..e5bf1df 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -381,226 +381,24 @@ double Double::min(double doubleA, double doubleB) {
 //}
 
 String Double::doubleToBinary64StringType(double doubleInput) {
-    auto integerPartNormalizeForm = (string) allocateMemory(2048 * sizeof(char));
-    auto fractionPartNormalizeForm = (string) allocateMemory(54 * sizeof(char));
-    auto doubleInputNormalizeForm = (string) allocateMemory(2102 * sizeof(char));
-    auto resultDoubleToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartDoubleInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfDoubleInputNormalizeForm;
-
-    int sizeOfExponentPartBinary64 = 11;
-
-    int i;
+    char resultDoubleToBinary64StringType[65] = {0};
+    unsigned long bits = 0;
     int index;
-    int indexOfDotDoubleInputNormalizeForm;
-    int indexFirstBit1DoubleInputNormalizeForm;
-    int indexBeginFractionPartResultDoubleToBinary64StringType = 0;
-
-    int exponentBiasBinary64 = 1023;
-    int exponentDoubleInput;
-
-    double fractionPartDoubleInput;
-
-    for (i = 0; i <= 63; i++) {
-        doubleInputNormalizeForm[i] = '0';
-        resultDoubleToBinary64StringType[i] = '0';
-    }
-
-    for (i = 0; i <= 52; i++) {
-        integerPartNormalizeForm[i] = '0';
-        fractionPartNormalizeForm[i] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[2047] = '\0';
-    fractionPartNormalizeForm[53] = '\0';
-    doubleInputNormalizeForm[2101] = '\0';
-    resultDoubleToBinary64StringType[64] = '\0';
-
-    if (doubleInput >= 0) {
-        resultDoubleToBinary64StringType[0] = '0';
-    }
-
-    if (doubleInput < 0) {
-        resultDoubleToBinary64StringType[0] = '1';
-    }
-
-    if (doubleInput == 0) {
-        goto outPut;
-    }
-
-    if (doubleInput == POSITIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (doubleInput == NEGATIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "1111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
 
     if (isNaN(doubleInput)) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111111111111111111111111111111111111111111111111111111111");
-
-        goto outPut;
+        return "0111111111111111111111111111111111111111111111111111111111111111";
     }
 
-    /** Get |doubleInput| */
-    doubleInput = fabs(doubleInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartDoubleInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
+    /** Both zeros have the same form */
+    if (doubleInput != 0) {
+        memcpy(&bits, &doubleInput, sizeof(bits));
     }
 
-    if (integerPartDoubleInput != 0) {
-        while (integerPartDoubleInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartDoubleInput = integerPartDoubleInput >> 1;
-        }
+    for (index = 0; index <= 63; index++) {
+        resultDoubleToBinary64StringType[index] = ((bits >> (63 - index)) & 1) != 0 ? '1' : '0';
     }
 
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    index = sizeOfIntegerPartNormalizeForm - 1;
-
-    while (integerPartDoubleInput != 0) {
-
-        if ((integerPartDoubleInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartDoubleInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartDoubleInput = integerPartDoubleInput >> 1;
-    }
-
-    fractionPartDoubleInput = doubleInput - integerPartDoubleInput;
-    index = 0;
-
-    while ((fractionPartDoubleInput != 0) && (index < 53)) {
-        fractionPartDoubleInput = fractionPartDoubleInput * 2;
-
-        int integerPart = static_cast<int> (floor(fractionPartDoubleInput));
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartDoubleInput = fractionPartDoubleInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to doubleInputNormalizeForm */
-    for (i = 0; i < sizeOfIntegerPartNormalizeForm; i++) {
-        doubleInputNormalizeForm[i] = integerPartNormalizeForm[i];
-    }
-
-    indexOfDotDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    doubleInputNormalizeForm[indexOfDotDoubleInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to doubleInputNormalizeForm
-     */
-    index = indexOfDotDoubleInputNormalizeForm + 1;
-    for (i = 0; i <= sizeOfFractionPartNormalizeForm; i++, index++) {
-        doubleInputNormalizeForm[index]
-                = fractionPartNormalizeForm[i];
-    }
-
-    sizeOfDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                     + sizeOfFractionPartNormalizeForm;
-
-    /** Assign value to indexFirstBit1DoubleInputNormalizeForm */
-    indexFirstBit1DoubleInputNormalizeForm = 1;
-    for (i = 0; i <= sizeOfDoubleInputNormalizeForm; i++) {
-        if (doubleInputNormalizeForm[i] == '1') {
-            indexFirstBit1DoubleInputNormalizeForm = i;
-            break;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    if (integerPartDoubleInput != 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm - 1;
-    }
-
-    if (integerPartDoubleInput == 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm;
-    }
-
-    exponentDoubleInput = powerExponentBase2 + exponentBiasBinary64;
-
-    index = sizeOfExponentPartBinary64;
-
-    while (exponentDoubleInput != 0) {
-
-        if ((exponentDoubleInput & 1) == 1) {
-            resultDoubleToBinary64StringType[index] = '1';
-        }
-
-        if ((exponentDoubleInput & 1) == 0) {
-            resultDoubleToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        exponentDoubleInput = exponentDoubleInput >> 1;
-    }
-
-    indexBeginFractionPartResultDoubleToBinary64StringType
-            = sizeOfExponentPartBinary64 + 1;
-
-    index = indexBeginFractionPartResultDoubleToBinary64StringType;
-    i = indexFirstBit1DoubleInputNormalizeForm + 1;
-
-    for (index; index <= 63; index++) {
-        if (i == sizeOfDoubleInputNormalizeForm) {
-            break;
-        }
-
-        if (i == indexOfDotDoubleInputNormalizeForm) {
-            i++;
-        }
-
-        resultDoubleToBinary64StringType[index]
-                = doubleInputNormalizeForm[i];
-        i++;
-    }
-
-    outPut:
-    /** Return resultDoubleToBinary64StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(doubleInputNormalizeForm);
-
-    String result = resultDoubleToBinary64StringType;
-    free(resultDoubleToBinary64StringType);
-
-    return result;
+    return resultDoubleToBinary64StringType;
 }
 
 double Double::binary64StringTypeToDouble(String binary64StringTypeInput) {
-- 
2.43.0


From f0031b263d3c5e9787a5d69dd1c3fc9180dba443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 012/102] fix: String::charAt and getStringFromIndex accepted
 any index of an empty string

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..bd53f0d 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -155,7 +155,7 @@ String String::clone() {
 }
 
 char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->getSize()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
 	}
 	return (this->original[index]);
@@ -201,7 +201,7 @@ Array<byte> String::getBytes() const {
 }
 
 String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->getSize()) {
 		throw StringIndexOutOfBoundsException(index);
 	}
 	return this->original.substr(index);
-- 
2.43.0


From a5d9b2d5d4c65f67315adcbd805dddeb44675521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 013/102] fix: String::lastIndexOf(character, fromIndex)
 skipped the character at fromIndex

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index bd53f0d..7b29cff 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -309,12 +309,12 @@ int String::lastIndexOf(int character, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex > this->getSize() - 1) {
 		return this->lastIndexOf(character);
 	}
 
 	int index = 0;
-	for (index = fromIndex - 1; index >= 0; index--) {
+	for (index = fromIndex; index >= 0; index--) {
 		if (this->charAt(index) == (char) character) {
 			return index;
 		}
-- 
2.43.0


From e38eff18137c1530ef00557ab241c2410f33149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 014/102] fix: String::split with an empty separator never
 returned

---
 library/Java/Lang/String/String.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 7b29cff..426c01d 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -386,6 +386,16 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
+	if (targetString.empty() && !this->original.empty()) {
+		for (char character : this->original) {
+			strings.push(std::string(1, character));
+		}
+		return strings;
+	}
+	if (targetString.empty()) {
+		strings.push(result);
+		return strings;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
 		for (; pre < pos; pre++) {
-- 
2.43.0


From fbc267a41a3436493b88446ca0ffeb0e8c6c4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 015/102] fix: String::replace with an empty target never
 returned

---
 library/Java/Lang/String/String.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 426c01d..f4c4d4d 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -660,6 +660,14 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+	if (targetString.empty()) {
+		result = replaceString;
+		for (char character : this->original) {
+			result += character;
+			result += replaceString;
+		}
+		return result;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
-- 
2.43.0


From 61a4c3e2979c0964d4b918831d7ea049d0f411ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 016/102] fix: String::replaceFirst threw or cut the text when
 the target was missing or at the end

---
 library/Java/Lang/String/String.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index f4c4d4d..2fe7979 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -684,11 +684,13 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 
 String String::replaceFirst(const String &regex, const String &replacement) const {
 	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
+	std::size_t found = this->original.find(regex.original);
+	if (found == std::string::npos) {
+		return *this;
+	}
+	std::string result = this->original;
+	result.replace(found, regex.original.size(), replacement.original);
+	return result;
 }
 
 Array<String> String::split(const String &regex, int limit) const {
-- 
2.43.0


From bd7c7d8560c3e3cd7c00b25edfac9a6a10cd199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 017/102] fix: String kept the cached hash code of its old
 contents after assignment, += and element writes

---
 library/Java/Lang/String/String.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2cae6e0..784350f 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -301,6 +301,7 @@ namespace Java {
             * @return char
             */
             inline char &operator[](const int index) {
+                this->hash = 0;
                 return this->original[index];
             }
 
@@ -1032,6 +1033,7 @@ namespace Java {
              */
             inline String &operator+=(const String &target) {
                 this->original += target.original;
+                this->hash = 0;
                 return *this;
             }
 
@@ -1043,6 +1045,7 @@ namespace Java {
              */
             inline String &operator+=(const_string target) {
                 this->original.append(target);
+                this->hash = 0;
                 return *this;
             }
 
@@ -1054,6 +1057,7 @@ namespace Java {
             */
             inline String &operator+=(const char &target) {
                 this->original += target;
+                this->hash = 0;
                 return *this;
             }
 
@@ -1075,6 +1079,7 @@ namespace Java {
             */
             inline String &operator=(const String &target) {
                 this->original = target.original;
+                this->hash = target.hash;
                 return *this;
             }
 
-- 
2.43.0


From d2be083a362f994622bec72286b2bed2fc7d84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 018/102] fix: String::print read beyond its buffer for numbers
 printed to more than 255 characters and lost the end of longer texts

---
 library/Java/Lang/String/String.cpp | 111 ++++++----------------------
 1 file changed, 22 insertions(+), 89 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 2fe7979..eaf0670 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -716,6 +716,17 @@ Array<String> String::split(const String &regex, int limit) const {
 	return strings;
 }
 
+template<typename T>
+static String printValue(const String &format, T value) {
+	const int length = snprintf(nullptr, 0, format.toCharPointer(), value);
+	if (length <= 0) {
+		return "";
+	}
+	std::string buffer((size_t) length + 1, '\0');
+	snprintf(&buffer[0], buffer.size(), format.toCharPointer(), value);
+	return String(buffer.c_str(), length);
+}
+
 String String::print(const String &format, bool value) {
 	if (format.original == "%b") {
 		return (value ? "true" : "false");
@@ -727,125 +738,47 @@ String String::print(const String &format, bool value) {
 }
 
 String String::print(const String &format, short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, long long value) {
-    String result;
-    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-    if (length > 0) {
-        result = String(buffer, length);
-    }
-    return result;
+    return printValue(format, value);
 }
 
 String String::print(const String &format, unsigned short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, unsigned int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, unsigned long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, double value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, float value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, const_string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, Boolean value) {
-- 
2.43.0


From 525f3a069fc933ec251d8af33949843e8a80e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 019/102] fix: StringBuilder assignment shared the buffer of
 the source (double free)

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 13 +++++++++++++
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..96a5a9e 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -77,6 +77,19 @@ StringBuilder::~StringBuilder() {
 	free(original);
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	if (this != &target) {
+		this->currentLength = 0;
+		this->ensureCapacity(target.currentLength);
+		int index;
+		for (index = 0; index < target.currentLength; index++) {
+			this->original[ index ] = target.original[ index ];
+		}
+		this->currentLength = target.currentLength;
+	}
+	return *this;
+}
+
 StringBuilder &StringBuilder::append(Boolean target) {
 	return this->append(target.toString());
 }
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..76f5158 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -102,6 +102,14 @@ namespace Java {
 						 * StringBuilder Destructor
 						 */
                         virtual ~StringBuilder();
+                        
+						/**
+						 * Assigns the characters of another StringBuilder
+						 *
+						 * @param target
+						 * @return StringBuilder
+						 */
+                        StringBuilder &operator=(const StringBuilder &target);
                 
                 public:
                         /**
-- 
2.43.0


From 1cd7f8dd8baffc388c688001ff61c18fa70e0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 020/102] fix: StringBuilder::indexOf used the failure table of
 the searched text and missed overlapping matches

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 96a5a9e..08f2c03 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -748,7 +748,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 	}
 	
 	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(target);
+	int *nextTable = this->initializeNextTable(pattern);
 	if (nextTable == nullptr) {
 		return -1;
 	}
@@ -763,7 +763,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 			position = position + 1;
 		} else {
 			if (nextTable[ position ] > -1) {
-				startIndex = startIndex + position;
+				startIndex = startIndex + position - nextTable[ position ];
 				position = nextTable[ position ];
 			} else {
 				startIndex = startIndex + 1;
-- 
2.43.0


From 4f14dee5be6b58a20a3fb9678e0679450e43fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 021/102] fix: StringBuilder::lastIndexOf read beyond the text
 and missed matches

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 08f2c03..5223bce 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -784,9 +784,8 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return -1;
 	}
 	
-	int rightIndex = lengthOfTarget - lengthOfPattern;
-	if (startIndex < rightIndex) {
-		startIndex = rightIndex;
+	if (startIndex > lengthOfTarget) {
+		startIndex = lengthOfTarget;
 	}
 	
 	// Empty string always matches.
@@ -794,8 +793,15 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return startIndex;
 	}
 	
-	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(pattern);
+	// The search starts at the last character of the text at the latest.
+	if (startIndex == lengthOfTarget) {
+		startIndex = lengthOfTarget - 1;
+	}
+	
+	// KMP algorithm, from right to left.
+	std::string reversedPattern(pattern.toCharPointer(), (size_t) lengthOfPattern);
+	std::reverse(reversedPattern.begin(), reversedPattern.end());
+	int *nextTable = this->initializeNextTable(String(reversedPattern));
 	if (nextTable == nullptr) {
 		return -1;
 	}
@@ -810,7 +816,7 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 			position = position + 1;
 		} else {
 			if (nextTable[ position ] > -1) {
-				startIndex = startIndex - position;
+				startIndex = startIndex - position + nextTable[ position ];
 				position = nextTable[ position ];
 			} else {
 				startIndex = startIndex - 1;
-- 
2.43.0


From 3e7aa2177b44a38a960a64470258f5ef5443d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 022/102] fix: StringBuilder::insert accepted a length that
 overflows offset + length

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 5223bce..d122b52 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -393,10 +393,10 @@ StringBuilder &StringBuilder::insert(int index, const Array<char> &target, int o
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || offset > target.length - length) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
+	int stopIndexOfTarget = offset + length;
 	
 	int newLength = this->currentLength + length;
 	this->ensureCapacity(newLength);
@@ -421,10 +421,10 @@ StringBuilder &StringBuilder::insert(int index, const Array<Character> &target,
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || offset > target.length - length) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
+	int stopIndexOfTarget = offset + length;
 	
 	int newLength = this->currentLength + length;
 	this->ensureCapacity(newLength);
-- 
2.43.0


From 18a001689a5117c947cbd4015de37ee8173cc163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 023/102] fix: StringBuffer did not terminate its buffer
 although toString, getValue, indexOf and lastIndexOf read it as a C string

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 27 ++++++++++++-------
 .../Java/Lang/StringBuffer/StringBuffer.hpp   |  6 +++++
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index db6cdf7..35189ff 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -39,13 +39,13 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
     }
 
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
     this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(originalString);
 }
@@ -57,11 +57,15 @@ StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
         this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
     }
 
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(sequence);
 }
 
+void StringBufferUnSafe::terminate() {
+    this->original[this->currentLength] = '\0';
+}
+
 int StringBufferUnSafe::capacity() const {
     return this->currentCapacity;
 }
@@ -103,7 +107,7 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         this->currentCapacity = newCapacity;
     } while (newCapacity < minimumCapacity);
 
-    int newSize = newCapacity * sizeof(char);
+    int newSize = (newCapacity + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
 }
 
@@ -127,6 +131,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
     int memorySizeToMove = len * sizeof(char);
     memmove(appendPosition, startIndex, (size_t) memorySizeToMove);
     this->currentLength += len;
+    this->terminate();
     return *this;
 }
 
@@ -147,11 +152,12 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
     int memorySizeToInsert = len * sizeof(char);
     memmove(insertPosition, startIndex, (size_t) memorySizeToInsert);
     this->currentLength += len;
+    this->terminate();
     return *this;
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -331,6 +337,7 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
 
     string toPosition = this->original + start;
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    this->terminate();
     return *this;
 }
 
@@ -349,6 +356,7 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
+    this->terminate();
     return *this;
 }
 
@@ -525,6 +533,7 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
     string insertPosition = this->original + start;
     memcpy(insertPosition, stringToReplace.toCharPointer(),
            (size_t) memorySizeToMove);
+    this->terminate();
 
     return *this;
 }
@@ -641,7 +650,7 @@ void StringBufferUnSafe::trimToSize() {
     if (this->currentCapacity <= this->currentLength) {
         return;
     }
-    int newSize = this->currentLength * sizeof(char);
+    int newSize = (this->currentLength + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
     this->currentCapacity = this->currentLength;
 }
@@ -649,7 +658,7 @@ void StringBufferUnSafe::trimToSize() {
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -679,7 +688,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -973,7 +982,7 @@ void StringBuffer::trimToSize() {
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
diff --git a/library/Java/Lang/StringBuffer/StringBuffer.hpp b/library/Java/Lang/StringBuffer/StringBuffer.hpp
index 2477246..8df4551 100644
--- a/library/Java/Lang/StringBuffer/StringBuffer.hpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.hpp
@@ -39,6 +39,12 @@ namespace Java {
             int currentLength = 0;
             int currentCapacity = 0;
 
+            /**
+             * Writes the null terminator behind the last character, the buffer always has room for it
+             *
+             */
+            void terminate();
+
         private:
             // TODO need ObjectInputStream
             // void readObject(ObjectInputStream);
-- 
2.43.0


From f131027b541bca0aca2cbde602f39613f4ad286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 024/102] fix: StringBuffer::deletes and deleteCharAt moved
 bytes from beyond the buffer

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 35189ff..7484b47 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -327,11 +327,11 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
 
     if (end > this->currentLength) {
         fromPosition = this->original + this->currentLength;
-        memorySizeToMove = this->currentLength * sizeof(char);
+        memorySizeToMove = 0;
         this->currentLength = start;
     } else {
         fromPosition = this->original + end;
-        memorySizeToMove = (this->currentLength - start) * sizeof(char);
+        memorySizeToMove = (this->currentLength - end) * sizeof(char);
         this->currentLength -= (end - start);
     }
 
@@ -353,7 +353,7 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
     // move block of memory from index + 1 to index
     string fromPosition = this->original + index + 1;
     string toPosition = this->original + index;
-    int memorySizeToMove = (this->currentLength - index) * sizeof(char);
+    int memorySizeToMove = (this->currentLength - index - 1) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
     this->terminate();
-- 
2.43.0


From cc7f9385ee477a2d2dbfe092c0b2a37a50da645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 025/102] fix: StringBuffer::setLength wrote beyond the new
 length

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 7484b47..83660df 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -594,15 +594,12 @@ void StringBufferUnSafe::setLength(int newLength) {
     int oldLength = this->currentLength;
     if (newLength > this->currentLength) {
         this->ensureCapacity(newLength);
-        for (oldLength; oldLength <= newLength; oldLength++) {
-            this->original[oldLength] = '\0';
-        }
-    } else {
-        for (oldLength; oldLength >= newLength; oldLength--) {
+        for (; oldLength < newLength; oldLength++) {
             this->original[oldLength] = '\0';
         }
     }
     this->currentLength = newLength;
+    this->terminate();
 }
 
 /*CharSequence *StringBufferUnSafe::subSequence(int start, int end) {
-- 
2.43.0


From 3a6541f7d02aba8c73db1e608dd14b7f60a646ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 026/102] fix: StringBuffer::replace moved a wrong number of
 characters behind the replaced range

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 83660df..ff1df5b 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -522,13 +522,14 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
 
     int newLength =
             this->currentLength + stringToReplace.length() - end + start;
+    int memorySizeOfTail = (this->currentLength - end) * sizeof(char);
     this->ensureCapacity(newLength);
     this->currentLength = newLength;
 
     string fromPosition = this->original + end;
     string toPosition = this->original + start + stringToReplace.length();
     int memorySizeToMove = stringToReplace.length() * sizeof(char);
-    memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    memmove(toPosition, fromPosition, (size_t) memorySizeOfTail);
 
     string insertPosition = this->original + start;
     memcpy(insertPosition, stringToReplace.toCharPointer(),
-- 
2.43.0


From 5d2a649e9c31e647014bb17ac393fab158ed3d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 027/102] fix: StringBuffer::subString threw for the empty
 range at the end

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index ff1df5b..b8d377f 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -625,7 +625,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
         throw StringIndexOutOfBoundsException("start and end must be positive");
     }
 
-    if (start >= this->currentLength || end > this->currentLength ||
+    if (start > this->currentLength || end > this->currentLength ||
         start > end) {
         throw StringIndexOutOfBoundsException();
     }
-- 
2.43.0


From efeb74f2ae4ac339ea96872c4ef745bdb588c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 028/102] fix: StringBuffer::append and insert accepted a
 length that overflows offset + length

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index b8d377f..556dd48 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -121,7 +121,7 @@ int StringBufferUnSafe::length() const {
 
 StringBufferUnSafe &
 StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
-    if (offset < 0 || len < 0 || (offset + len) > stringToAppend.length()) {
+    if (offset < 0 || len < 0 || offset > stringToAppend.length() - len) {
         throw IndexOutOfBoundsException();
     }
 
@@ -139,7 +139,7 @@ StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
     if (index < 0 || index > length() || offset < 0
-        || len < 0 || (offset + len) > stringToInsert.length()) {
+        || len < 0 || offset > stringToInsert.length() - len) {
         throw StringIndexOutOfBoundsException();
     }
 
-- 
2.43.0


From 3f60d230e3fc7ffd53554cb62899489a9e69c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 029/102] fix: StringBuffer::lastIndexOf with a start index
 threw or missed occurrences

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 556dd48..7f58f92 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -483,19 +483,15 @@ int StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex) const {
 
 int
 StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex, int fromIndex) const {
-    String reversedString = StringBuilder(stringToGetIndex).reverse();
-    String reversedOriginalString = StringBuilder(this->original).reverse();
-
-    int substringIndex = this->length() - fromIndex - stringToGetIndex.length();
-    reversedOriginalString = reversedOriginalString.getStringFromIndex(substringIndex);
-    int result = reversedOriginalString.indexOf(reversedString);
-
-    // Calculate result with original
-    if (result == -1) {
-        return result;
+    if (fromIndex < 0) {
+        return -1;
     }
-    result = reversedOriginalString.length() - stringToGetIndex.length() - result;
-    return result;
+    std::string originalString = this->original;
+    std::size_t found = originalString.rfind(stringToGetIndex.toCharPointer(), (std::size_t) fromIndex);
+    if (found == std::string::npos) {
+        return -1;
+    }
+    return (int) found;
 }
 
 int
-- 
2.43.0


From a1859da1e7d430a9c8209393dc398a523c9e8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 030/102] fix: StringBuffer::insert of a CharSequence inserted
 the text "true"

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 7f58f92..5b50e14 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -900,7 +900,7 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(offset, &charSequence);
+    StringBufferUnSafe::insert(offset, const_cast<CharSequence *>(&charSequence));
     return *this;
 }
 
-- 
2.43.0


From cfb9aa531924bd2fb15d5764623cfc607d1c7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 031/102] fix: StringBuffer assignment to itself used freed
 memory

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 5b50e14..5ad8170 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -651,6 +651,9 @@ void StringBufferUnSafe::trimToSize() {
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
+    if (this == &other) {
+        return *this;
+    }
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -974,6 +977,9 @@ void StringBuffer::trimToSize() {
 }
 
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
+    if (this == &other) {
+        return *this;
+    }
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
-- 
2.43.0


From 211e368042316658622e5cbcfce0261d99ef5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 032/102] fix: StringBuffer::length, ensureCapacity and
 getValue did not take the lock

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 5ad8170..da62d15 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -125,7 +125,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
         throw IndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    StringBufferUnSafe::ensureCapacity(this->currentLength + len);
     string appendPosition = this->original + this->currentLength;
     string startIndex = stringToAppend.toCharPointer() + offset;
     int memorySizeToMove = len * sizeof(char);
@@ -138,12 +138,12 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
 StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
-    if (index < 0 || index > length() || offset < 0
+    if (index < 0 || index > this->currentLength || offset < 0
         || len < 0 || offset > stringToInsert.length() - len) {
         throw StringIndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    StringBufferUnSafe::ensureCapacity(this->currentLength + len);
     string insertPosition = this->original + index;
     string newTailStart = this->original + index + len;
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
@@ -805,10 +805,12 @@ StringBuffer &StringBuffer::deletes(int start, int end) {
 }
 
 void StringBuffer::ensureCapacity(int minimumCapacity) {
+    std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::ensureCapacity(minimumCapacity);
 }
 
 String StringBuffer::getValue() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::getValue();
 }
 
@@ -825,6 +827,7 @@ StringBuffer &StringBuffer::deleteCharAt(int index) {
 }
 
 int StringBuffer::length() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::length();
 }
 
-- 
2.43.0


From f6ce34aa600a7fa62a99ffd8ab13154e52cbeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 033/102] fix: StringBuffer copies and append read the other
 buffer without its lock

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp    | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index da62d15..0b23b39 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -683,7 +683,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 }
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -768,8 +768,9 @@ StringBuffer &StringBuffer::appendCodePoint(int codePoint) {
 }
 
 StringBuffer &StringBuffer::append(const StringBuffer &stringBuffer) {
+    String text = stringBuffer.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(stringBuffer);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -983,15 +984,10 @@ StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     if (this == &other) {
         return *this;
     }
+    StringBuffer copy(other);
     std::lock_guard<std::mutex> guard(this->mutex);
-    free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity + 1,
-                                     sizeof(char));
-    int index;
-    for (index = 0; index < other.currentLength; index++) {
-        this->original[index] = other.original[index];
-    }
-    this->currentLength = other.currentLength;
-    this->currentCapacity = other.currentCapacity;
+    std::swap(this->original, copy.original);
+    std::swap(this->currentLength, copy.currentLength);
+    std::swap(this->currentCapacity, copy.currentCapacity);
     return *this;
 }
\ No newline at end of file
-- 
2.43.0


From e15662bd4db26c9a9b88b9d431036d9db6a29ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 034/102] fix: ArrayList::add(index) accepted any index on an
 empty list and refused the end of the list

---
 library/Java/Util/ArrayList/ArrayList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..fb20e6a 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -154,7 +154,7 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
+				if (index < 0 || index > this->size()) {
 					return;
 				}
 				this->original.insert(this->original.begin() + index, element);
-- 
2.43.0


From be53d0540f5b7ed558915f14f1790ee301ceab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 035/102] fix: ArrayList::set returned the new element instead
 of the previous one

---
 library/Java/Util/ArrayList/ArrayList.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index fb20e6a..afdb578 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -438,8 +438,9 @@ namespace Java {
 					message += Integer(index).stringValue();
 					throw IndexOutOfBoundsException(message);
 				}
+				E previousElement = this->original[index];
 				this->original[index] = element;
-				return this->original[index];
+				return previousElement;
 			}
 
 			/**
-- 
2.43.0


From 1c7be77748fc25cb80ddbe9f6827e224e9db8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 036/102] fix: Vector copied or built from a list used an
 uninitialised capacity increment

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..ec7d3a3 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -47,7 +47,7 @@ namespace Java {
         {
         protected:
             std::vector<E> original;
-            int capacityIncrement;
+            int capacityIncrement = 0;
 
         public:
             /**
-- 
2.43.0


From 948058dddd95841ed547b593e57dbaa76f95847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 037/102] fix: Vector::addAll(list) inserted at the front
 instead of appending

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index ec7d3a3..41e1f97 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -154,7 +154,7 @@ namespace Java {
              * @return boolean
              */
             boolean addAll(const std::initializer_list<E> &list) {
-                return this->addAll(0, list);
+                return this->addAll(this->size(), list);
             }
 
             /**
-- 
2.43.0


From d91e0f614f377cf72990f75cc99f95d3fe630faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 038/102] fix: Vector::lastIndexOf threw on an empty vector

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 41e1f97..c8e84df 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -441,6 +441,9 @@ namespace Java {
              * @return int
              */
             int lastIndexOf(const E &element) const {
+                if (this->original.empty()) {
+                    return -1;
+                }
                 int maxIndex = (int) this->original.size() - 1;
                 return this->lastIndexOf(element, maxIndex);
             }
-- 
2.43.0


From 4a1042c3a02853da4602d833459b20a4da4cda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 039/102] fix: Vector assigned to itself lost its elements

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index c8e84df..6b5ff4a 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -890,6 +890,9 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const Vector<E> &target) {
+                if (this == &target) {
+                    return *this;
+                }
                 this->clear();
                 this->ensureCapacity(target.size());
                 const E *targetData = target.original.data();
-- 
2.43.0


From 4f295bf4b8e15650bd9667b1a3f0a00d03dac805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 040/102] fix: Vector::remove of an object of another type
 dereferenced a null pointer

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 6b5ff4a..60aa9df 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -514,6 +514,9 @@ namespace Java {
              */
             boolean remove(const Object &element) {
                 const E *referenceToElement = dynamic_cast<const E *>(&element);
+                if (referenceToElement == nullptr) {
+                    return false;
+                }
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     if ((*referenceToElement) == this->original[index]) {
-- 
2.43.0


From 61fd0fcc921406f45d54a98a90aed4ee562aa603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 041/102] fix: LinkedList copies shared their nodes with the
 source (double free)

---
 library/Java/Util/LinkedList/LinkedList.hpp | 27 +++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b1c6490..93f7006 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -80,6 +80,33 @@ namespace Java {
                         }
                     }
 
+                    /**
+                     * Copies the elements of another LinkedList
+                     *
+                     * @param target
+                     */
+                    LinkedList(const LinkedList<E> &target) {
+                        for (const Node<E> *node : target.original) {
+                            this->add(node->element);
+                        }
+                    }
+
+                    /**
+                     * Replaces the elements of this list by those of another LinkedList
+                     *
+                     * @param target
+                     * @return LinkedList
+                     */
+                    LinkedList<E> &operator=(const LinkedList<E> &target) {
+                        if (this != &target) {
+                            this->clear();
+                            for (const Node<E> *node : target.original) {
+                                this->add(node->element);
+                            }
+                        }
+                        return *this;
+                    }
+
                     ~LinkedList() {
                         this->clear();
                     }
-- 
2.43.0


From 9ff7f5f2e2572e17e7d71f9211b2ec294341907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 042/102] fix: LinkedList::begin() const did not compile when
 used

---
 library/Java/Util/LinkedList/LinkedList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 93f7006..2146d6b 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -116,7 +116,7 @@ namespace Java {
                         return this->original.begin();
                     }
 
-                    IteratorType begin() const {
+                    ConstIteratorType begin() const {
                         return this->original.begin();
                     }
 
-- 
2.43.0


From cd566ce19f2b5435d6303e6134eb68c4453aeb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 043/102] fix: LinkedList access to an end of an empty list was
 undefined

---
 library/Java/Util/LinkedList/LinkedList.hpp | 28 +++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 2146d6b..a5d162c 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -192,7 +192,7 @@ namespace Java {
                      * @return E
                      */
                     E element() {
-                        this->original.front()->element;
+                        return getFirst();
                     }
 
                     /**
@@ -215,6 +215,9 @@ namespace Java {
                      * @return E
                      */
                     E getFirst() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         return original.front()->element;
                     }
 
@@ -224,6 +227,9 @@ namespace Java {
                      * @return E
                      */
                     E getLast() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         var node = this->original.back();
                         return node->element;
                     }
@@ -267,7 +273,7 @@ namespace Java {
                      * @return E
                      */
                     E peek() {
-                        return getFirst();
+                        return peekFirst();
                     }
 
                     /**
@@ -275,6 +281,9 @@ namespace Java {
                      * @return E
                      */
                     E peekFirst() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getFirst();
                     }
 
@@ -284,6 +293,9 @@ namespace Java {
                      * @return E
                      */
                     E peekLast() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getLast();
                     }
 
@@ -302,6 +314,9 @@ namespace Java {
                      * @return E
                      */
                     E pollFirst() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         var  node = this->original.front();
                         this->original.pop_front();
                         var element = node->element;
@@ -315,6 +330,9 @@ namespace Java {
                      * @return E
                      */
                     E pollLast() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         var node = this->original.back();
                         this->original.pop_back();
                         var element = node->element;
@@ -388,11 +406,7 @@ namespace Java {
                     }
 
                     E removeLast() {
-                        var node = this->original.back();
-                         this->original.pop_back();
-                         var element = node->element;
-                         delete node;
-                         return element;
+                        return pollLast();
                     }
 
                     /**
-- 
2.43.0


From 9fccf8360d0f9305de60eabb20b372b13eecb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 044/102] fix: LinkedList::offer did not add the element

---
 library/Java/Util/LinkedList/LinkedList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index a5d162c..9bfb825 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -241,7 +241,7 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offer(const E &element) {
-                        this->original.push_back();
+                        this->original.push_back(new Node<E>(element));
                         return true;
                     }
 
-- 
2.43.0


From dfe12f0a77b9f17b73d65294ee75f102082a99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 045/102] fix: LinkedList::get on an empty list read past the
 end

---
 library/Java/Util/LinkedList/LinkedList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 9bfb825..9f5ad22 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -202,7 +202,7 @@ namespace Java {
                      * @return E
                      */
                     E get(int index) {
-                        if (index < 0 || index > this->original.size() - 1) {
+                        if (index < 0 || index >= (long) this->original.size()) {
                             throw IndexOutOfBoundsException("Index is out of bounds!");
                         }
                         typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);
-- 
2.43.0


From 481cb3d093c7793e7725c9234bb436824c79255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 046/102] fix: LinkedList::set did not replace the element

---
 library/Java/Util/LinkedList/LinkedList.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 9f5ad22..3f92736 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -416,10 +416,11 @@ namespace Java {
                      * @param element
                      * @return E
                      */
-                    E set(int index, E &element) {
-                        var value = get(index);
-                        *value = element;
-                        return element;
+                    E set(int index, const E &element) {
+                        E previous = get(index);
+                        typename std::list<Node<E>*>::iterator it = std::next(this->original.begin(), index);
+                        (*it)->element = element;
+                        return previous;
                     }
 
                     /**
-- 
2.43.0


From 2ba9ccecaa06a6b6abcc1342fc309eda767c39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 047/102] fix: LinkedList::remove reported success when nothing
 was removed

---
 library/Java/Util/LinkedList/LinkedList.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 3f92736..5a1a535 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -380,11 +380,11 @@ namespace Java {
                                 var node = *it;
                                 this->original.erase(it);
                                 delete node;
-                                break;
+                                return true;
                             }
                             ++pos;
                         }
-                        return true;
+                        return false;
                     }
 
                     /**
@@ -399,10 +399,10 @@ namespace Java {
                                 var node2 = *it;
                                 this->original.erase(it);
                                 delete node2;
-                                break;
+                                return true;
                             }
                         }
-                        return true;
+                        return false;
                     }
 
                     E removeLast() {
-- 
2.43.0


From 1efb0d7067d5cc92c3a3cb44af48699b19b1268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 048/102] fix: HashMap::put kept the old value of a key that is
 already present

---
 library/Java/Util/HashMap/HashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 16e5450..599e7fe 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -400,7 +400,7 @@ namespace Java {
 			 * @param value
 			 */
 			void put(const K &key, const V &value) {
-				this->original.insert(std::pair<K, V>(key, value));
+				this->original[key] = value;
 			}
 
 			/**
-- 
2.43.0


From 4df9e2ef4aca305e21afcee359b21bbe80b4b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 049/102] fix: HashMap::equals ignored keys missing in the
 other map

---
 library/Java/Util/HashMap/HashMap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 599e7fe..a30f213 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -123,8 +123,8 @@ namespace Java {
 				}
 
 				for (var const &thisElement : this->original) {
-					V anotherValue = anotherHashMap.get(thisElement.first);
-					if (thisElement.second != anotherValue) {
+					auto const another = anotherHashMap.original.find(thisElement.first);
+					if (another == anotherHashMap.original.end() || thisElement.second != another->second) {
 						return false;
 					}
 				}
-- 
2.43.0


From 82d2472140308c74303a2a7aa1995d65c36dc3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 050/102] fix: HashMap returned an uninitialised value of a
 primitive type for an absent key

---
 library/Java/Util/HashMap/HashMap.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index a30f213..17ce02c 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -351,8 +351,7 @@ namespace Java {
 				if (iteratorToString == this->original.end()) {
 					// Default value if could not found
 					// Prevent null pointer reference
-					V value;
-				    return value;
+				    return V();
 				}
 				return iteratorToString->second;
 			}
@@ -370,7 +369,7 @@ namespace Java {
 			 * 							for the key
 			 */
 			V getOrDefault(const K &key, const V &defaultValue) const {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -429,7 +428,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V putIfAbsent(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
@@ -453,7 +452,7 @@ namespace Java {
 			 * 					previously associated null with key.)
 			 */
 			V remove(const K &key) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -503,7 +502,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V replace(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -531,7 +530,7 @@ namespace Java {
 			boolean replace(const K &key,
 			                const V &oldValue,
 			                const V &newValue) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()
-- 
2.43.0


From 70a2d35ff557d766454e45b4bef1a641749104eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 051/102] fix: Map::Entry::setValue returned nothing

---
 library/Java/Util/Map/Map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Util/Map/Map.hpp b/library/Java/Util/Map/Map.hpp
index f5da57b..c8679c7 100755
--- a/library/Java/Util/Map/Map.hpp
+++ b/library/Java/Util/Map/Map.hpp
@@ -164,7 +164,9 @@ namespace Java {
 								 * @return V
 								 */
 								V setValue(V value) {
+									V previous = this->value;
 									this->value = value;
+									return previous;
 								}
 								
 								boolean operator<(const Map<K, V>::Entry &target) const {
-- 
2.43.0


From 17301093ce0fba76288e02f3ac3e390e5dac5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 052/102] fix: Set::add claimed to add an element that was
 present

---
 library/Java/Util/Set/Set.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/library/Java/Util/Set/Set.hpp b/library/Java/Util/Set/Set.hpp
index ee73525..9e10407 100755
--- a/library/Java/Util/Set/Set.hpp
+++ b/library/Java/Util/Set/Set.hpp
@@ -77,10 +77,7 @@ namespace Java {
 						 */
 						boolean add(const E &e) {
 							auto insertResult = this->original.insert(e);
-							if (insertResult.first != this->original.end()) {
-								return true;
-							}
-							return false;
+							return insertResult.second;
 						}
 						
 						/**
-- 
2.43.0


From 3f9a68b1cfeca28f3559716f44acfb381adeaf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 053/102] fix: PriorityQueue::poll on an empty queue was
 undefined

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 1a5757b..b8b09cf 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -210,6 +210,9 @@ namespace Java {
 						 */
 						E poll() {
 							E result = this->peek();
+							if (this->original.empty()) {
+								return result;
+							}
 							std::pop_heap(this->original.begin(), this->original.end());
 							this->original.pop_back();
 							return result;
-- 
2.43.0


From 783b832f95be5004eae94b8486bf531e2ae6d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 054/102] fix: PriorityQueue::remove broke the order of the
 queue

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index b8b09cf..77427f0 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -229,6 +229,7 @@ namespace Java {
 							targetIterator = std::find(this->original.begin(), this->original.end(), target);
 							if (targetIterator != this->original.end()) {
 								this->original.erase(targetIterator);
+								std::make_heap(this->original.begin(), this->original.end());
 								return true;
 							}
 							return false;
-- 
2.43.0


From 7eb5501e3a7c377602325b30ea2086363cfeb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 055/102] fix: PriorityQueue gave an uninitialised value of a
 primitive type on an empty queue

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 77427f0..d62cdc2 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -196,7 +196,7 @@ namespace Java {
 						 * @return E
 						 */
 						E peek() const {
-							E defaultOfE;
+							E defaultOfE = E();
 							if (this->original.empty()) {
 								return defaultOfE;
 							}
@@ -288,7 +288,7 @@ namespace Java {
 							}
 							// Add "null" terminator (but must use default value).
 							if (anArray.length > originalSize) {
-								E defaultOfE;
+								E defaultOfE = E();
 								anArray[ indexOfArray ] = defaultOfE;
 							}
 							return anArray;
-- 
2.43.0


From 84d8abffc27d2a454af047968bd50fa3a09a1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 056/102] fix: BitSet assignment freed the text of toString
 twice

---
 library/Java/Util/BitSet/BitSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..296bcf3 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -771,7 +771,11 @@ boolean BitSet::operator==(const BitSet &target) const {
 }
 
 BitSet& BitSet::operator=(const BitSet &target) {
+    if (this == &target) {
+        return *this;
+    }
     this->cleanUp();
+    this->backupForToString = nullptr;
     this->words = Arrays::copyOf(target.words, target.words.length);
     this->wordsInUse = target.wordsInUse;
     this->sizeIsSticky = target.sizeIsSticky;
-- 
2.43.0


From 6679f4ab1001cbbb07d7f90b8283969a62515a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 057/102] fix: BitSet::flip(range) touched a word beyond the
 range

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 296bcf3..11abfd2 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -333,7 +333,7 @@ void BitSet::flip(int fromIndex, int toIndex) {
     }
 
     int startWordIndex = this->wordIndex(fromIndex);
-    int endWordIndex = this->wordIndex(toIndex);
+    int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
     long firstWordMask = WORD_MASK << fromIndex;
-- 
2.43.0


From 35ecf73d990fbb4a11a7e1fa1da31123ddd14f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 058/102] fix: BitSet::intersects read beyond the words in use

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 11abfd2..7a096ea 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -437,7 +437,7 @@ int BitSet::hashCode() const {
 boolean BitSet::intersects(const BitSet &set) {
     int endWordIndex = Math::min(this->wordsInUse, set.wordsInUse);
     int index;
-    for (index = 0; index <= endWordIndex; ++index) {
+    for (index = 0; index < endWordIndex; ++index) {
         if ((this->words[index] & set.words[index]) != 0) {
             return true;
         }
-- 
2.43.0


From eb6e236d3f04385f1177a4294c9339fae45d8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 059/102] fix: Arrays::binarySearch missed elements

---
 library/Java/Util/Arrays/Arrays.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index e8e1184..2fb7195 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -431,20 +431,10 @@ namespace Java {
                     } else {
                         left = mid + 1;
                     }
-
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
                 }
 
-                return -1;
+                /// Get very first left postition in array
+                return array[left] == key ? left : -1;
             }
 
             // Support Array<E>
@@ -470,20 +460,10 @@ namespace Java {
                     } else {
                         left = mid + 1;
                     }
-
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
                 }
 
-                return -1;
+                /// Get very first left postition in array
+                return array[left] == key ? left : -1;
             }
 
             /// Quick sort
-- 
2.43.0


From 922409bf32e80c21cedcc7160c50f85b7d06c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 060/102] fix: Arrays::binarySearch ignored fromIndex

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 2fb7195..8a2513b 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -175,7 +175,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             template<typename Type>
@@ -190,7 +190,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             COPY_OF(boolean);
-- 
2.43.0


From b45d210c968ae71ef58eb62f071711b6ffc888f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 061/102] fix: Arrays::copyOfRange could not reach the end of
 the array

---
 library/Java/Util/Arrays/Arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 8a2513b..786d760 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -584,7 +584,7 @@ namespace Java {
                 if (fromIndex < 0
                     || toIndex < 0
                     || toIndex < fromIndex
-                    || toIndex > original.length - 1) {
+                    || toIndex > original.length) {
                     return result;
                 }
 
-- 
2.43.0


From b69d1a90a9f76bcaa9022c59ad176e36bb8271ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 062/102] fix: MIME decoder computed the result length from the
 wrong table

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index f6aa555..a322707 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -323,7 +323,7 @@ int Base64::Decoder::outLength(const Array<byte> &source,
 				length -= sourceEndPosition - sourcePosition + 1;
 				break;
 			}
-			currentByteDecoded = source[ currentByte ];
+			currentByteDecoded = fromBase64Table[ currentByte ];
 			if (currentByteDecoded == -1) {
 				++nonAlphabet;
 			}
-- 
2.43.0


From d2463d5c6ca22ba0856200deba42e4b3f9d80057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 063/102] fix: MIME encoder with a line length below 4
 overflowed its buffer

---
 library/Java/Util/Base64/Base64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index a322707..f9798b7 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -449,11 +449,11 @@ Base64::Encoder Base64::getMimeEncoder(int lineLength,
 			throw InterruptedException("Illegal base64 line separator character");
 		}
 	}
-	if (lineLength < 0) {
-		return Encoder::RFC4648;
-	}
 	// Rounded down to nearest multiple of 4.
 	int roundedLineLength = lineLength >> 2 << 2;
+	if (roundedLineLength <= 0) {
+		return Encoder::RFC4648;
+	}
 	return Encoder(false, lineSeparator, roundedLineLength, true);
 }
 
-- 
2.43.0


From 5fafb8e93a69ed0f8e434b39cdd7b0a08791f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 064/102] fix: Base64 decoder built its error message from a
 pointer out of range

---
 library/Java/Util/Base64/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index f9798b7..02d8c69 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -416,8 +416,8 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 			continue;
 		}
 		throw InterruptedException(
-			"Input byte array has incorrect ending byte at " +
-			sourcePosition);
+			String("Input byte array has incorrect ending byte at ") +
+			String::valueOf(sourcePosition));
 	}
 	
 	return destinationPosition;
-- 
2.43.0


From 41e1bedfb4227ad9d529c1eede18ccd1c7794900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 065/102] fix: UUID::variant sign-extended the bits it reads

---
 library/Java/Util/UUID/UUID.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d904e20..d3957f8 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -215,7 +215,13 @@ String UUID::toString() const {
  * @return int
  */
 int UUID::variant() const {
-	return (int) (( this->leastSigBits >> ( 64 - ( this->leastSigBits >> 62 ))) & ( this->leastSigBits >> 63 ));
+	unsigned long bits = (unsigned long) this->leastSigBits;
+	
+	if ((bits >> 63) == 0) {
+		return 0;
+	}
+	
+	return (int) (bits >> ( 64 - ( bits >> 62 )));
 }
 
 /**
-- 
2.43.0


From 66ef9932d5ec350a82d563953019c36f0ef0c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 066/102] fix: the default UUID left its timestamp
 uninitialised

---
 library/Java/Util/UUID/UUID.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d3957f8..4270346 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -34,6 +34,7 @@
 UUID::UUID() {
 	this->mostSigBits = 0;
 	this->leastSigBits = 0;
+	this->timestamp = time(0);
 }
 
 /**
-- 
2.43.0


From 4f5ad152531d0b62c0a878cd398458c0f8d6e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 067/102] fix: eleven time-based UUIDs in one microsecond ran
 into the next one

---
 library/Java/Util/UUID/libuuid/gen_uuid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/libuuid/gen_uuid.c b/library/Java/Util/UUID/libuuid/gen_uuid.c
index 3c519f2..cdfd694 100755
--- a/library/Java/Util/UUID/libuuid/gen_uuid.c
+++ b/library/Java/Util/UUID/libuuid/gen_uuid.c
@@ -255,7 +255,8 @@ static int get_node_id(unsigned char *node_id)
 }
 
 /* Assume that the gettimeofday() has microsecond granularity */
-#define MAX_ADJUSTMENT 10
+/* ten 100 ns clock values (adjustment 0 to 9) fit in a microsecond */
+#define MAX_ADJUSTMENT 9
 
 /*
  * Get clock from global sequence clock counter.
-- 
2.43.0


From 9a91e488c32903591e9b2922d23d5729295c8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 068/102] fix: Random::nextBytes appended to the array instead
 of filling it

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..61fe747 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -191,7 +191,7 @@ void Random::nextBytes(Array<byte> *bytes) {
 		int randomNumber = nextInt();
 		//TODO change to BYTE::SIZE
 		randomNumber >>= 8;
-		bytes->push((byte) randomNumber);
+		(*bytes)[ index ] = (byte) randomNumber;
 	}
 }
 
-- 
2.43.0


From 94c2dc2a8828dc19f8feab45f5cbc1c2183b3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 069/102] fix: Random::nextString wrote its terminator past the
 array

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 61fe747..a204588 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -265,7 +265,7 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	char charArray[length + 1];
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
-- 
2.43.0


From bca9a5de1824bf428f8a59f4b92e279c7634002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 070/102] fix: MD5 digest left its padding in the state of the
 next message

---
 library/Java/Security/MessageDigest/MD5MessageDigest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 0ed6720..e984381 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -43,6 +43,7 @@ int MD5MessageDigest::engineDigest(byte *buffer, int len) {
 
     if (!this->isFinished) {
         md5_finish(&this->state, this->hash);
+        md5_init(&this->state);
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
-- 
2.43.0


From 7c31ac3bad6659e5b1ef293149b67aa317f2e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 071/102] fix: two Date objects shared the static buffer of
 localtime

---
 library/Java/Util/Date/Date.cpp | 6 ++++--
 library/Java/Util/Date/Date.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 93b28b2..f1b35b4 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -524,13 +524,15 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_sec = second;
 
     this->timer = mktime(&localTimer);
-    this->localTimer = localtime(&this->timer);
+    tzset();
+    this->localTimer = localtime_r(&this->timer, &this->localTime);
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
     time_t ts = timestamp;
-    this->localTimer = localtime(&ts);
+    tzset();
+    this->localTimer = localtime_r(&ts, &this->localTime);
     this->updateDateStatus();
 }
 
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index d79abbe..d012634 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -41,6 +41,7 @@ namespace Java {
 				{
 				private:
 						long timer;
+						struct tm localTime;
 						struct tm *localTimer;
 						string backUp = nullptr;
 				private:
-- 
2.43.0


From 9f5e35f6dbb51cd14b3ca1b7a9d45b7285655a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 072/102] fix: SimpleDateFormat lost texts of 80 characters or
 more

---
 library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 5cd8a26..14dc530 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -47,10 +47,12 @@ String SimpleDateFormat::format(const Date &date) {
     std::time(&current_time);
     struct std::tm *timeinfo = std::gmtime(&current_time);
     long offset = timeinfo->tm_gmtoff;
-    size_t bufferLength = 80;
+    size_t bufferLength = 80 + 64 * this->datePattern.length();
     string buffer = (string) calloc(bufferLength, sizeof(char));
     time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
-    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
+    if (std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp)) == 0) {
+        buffer[0] = '\0';
+    }
     unsetenv("TZ");
     String formattedDate = buffer;
     free(buffer);
-- 
2.43.0


From 3b0db5ebb621773f24f41195cec8095102f50993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 073/102] fix: String::getChars missed a destination range
 beyond the int range

---
 library/Java/Lang/String/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index eaf0670..190f2e6 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -633,7 +633,7 @@ void String::getChars(int sourceBegin, int sourceEnd, Array<char> &destination,
 	if (destinationBegin < 0) {
 		throw StringIndexOutOfBoundsException(destinationBegin);
 	}
-	if (destinationBegin + (sourceEnd - sourceBegin) > destination.length) {
+	if (destinationBegin > destination.length - (sourceEnd - sourceBegin)) {
 		throw StringIndexOutOfBoundsException(destinationBegin
 		                                      + (sourceEnd - sourceBegin));
 	}
-- 
2.43.0


From d188ae1ae6acbbcbfa6220fa69fc92f3fa80defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 074/102] fix: MediaType::isCompatible gave different answers
 in the two directions

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 43748a5..26d017d 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -117,7 +117,7 @@ boolean MediaType::isCompatible(MediaType other) {
         return false;
     }
 
-    if (this->isWildcardType() || other.isWildcardSubtype()) {
+    if (this->isWildcardType() || other.isWildcardType()) {
         return true;
     }
 
@@ -125,6 +125,11 @@ boolean MediaType::isCompatible(MediaType other) {
         return true;
     }
 
+    // a plain wildcard matches every subtype, with or without a suffix
+    if (this->subtype.equals(MEDIA_TYPE_WILDCARD) || other.getSubtype().equals(MEDIA_TYPE_WILDCARD)) {
+        return true;
+    }
+
     // wildcard with suffix? e.g. application/*+xml
     if (this->isWildcardSubtype() || other.isWildcardSubtype()) {
         int thisPlusIndex = this->subtype.indexOf('+');
-- 
2.43.0


From dc0421637f61bd278154d740767ce6be3600a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 075/102] fix: Throwable without a cause returned an arbitrary
 pointer from getCause

---
 library/Java/Lang/Throwable/Throwable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Lang/Throwable/Throwable.cpp b/library/Java/Lang/Throwable/Throwable.cpp
index 93b5263..10af6bc 100644
--- a/library/Java/Lang/Throwable/Throwable.cpp
+++ b/library/Java/Lang/Throwable/Throwable.cpp
@@ -31,10 +31,12 @@ using namespace Java::Lang;
 
 Throwable::Throwable() {
 	this->message = "";
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message) {
 	this->message = message;
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message, Throwable *cause) {
-- 
2.43.0


From 0e91610c6f12864454aa3dec516da656e14e6955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 076/102] fix: Vector::add read an element of the vector itself
 after growing freed it

---
 library/Java/Util/Vector/Vector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 60aa9df..cd7a918 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -127,8 +127,10 @@ namespace Java {
              */
             boolean add(const E &element) {
                 int oldSize = (int) this->original.size();
+                // element may be one of ours, which growing moves
+                E target(element);
                 this->ensureCapacity(oldSize + 1);
-                this->original.push_back(element);
+                this->original.push_back(target);
                 return (oldSize != this->original.size());
             }
 
@@ -143,8 +145,9 @@ namespace Java {
                 if (index < 0 || index > size) {
                     throw IllegalArgumentException("index is out of range");
                 }
+                E target(element);
                 this->ensureCapacity(size + 1);
-                this->original.insert(this->original.begin() + index, element);
+                this->original.insert(this->original.begin() + index, target);
             }
 
             /**
-- 
2.43.0


From ab4da32f810060eb5d8099c78779e8f0d9892c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:47 +0000
Subject: [PATCH 077/102] fix: Semaphore: wait for permits under the lock that
 release holds

---
 .../Util/Concurrent/Semaphore/Semaphore.cpp   | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index f124ded..6bc2709 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -74,7 +74,7 @@ void Concurrent::Semaphore::release(int permits) {
     permitMutexObject.lock();
     permitCounter += permits;
     permitMutexObject.unlock();
-    conditionObject.notify_one();
+    conditionObject.notify_all();
 }
 
 boolean Concurrent::Semaphore::tryAcquire() {
@@ -86,23 +86,18 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
-    int currentPermits = 0;
+    std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
     if (timeout < 0) {
-        for (int i = 0; i < permits; ++i) {
-            permitMutexObject.lock();
-            currentPermits = permitCounter;
-            permitMutexObject.unlock();
-
-            if (currentPermits == 0) {
-                std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-                conditionObject.wait(conditionLocker);
+        while (true) {
+            {
+                std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
+                if (permits <= permitCounter) {
+                    permitCounter -= permits;
+                    return true;
+                }
             }
-
-            permitMutexObject.lock();
-            --permitCounter;
-            permitMutexObject.unlock();
+            conditionObject.wait(conditionLocker);
         }
-        return true;
     } else {
         {
             std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
@@ -114,7 +109,6 @@ boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
 
         long waitTime = timeout;
         while (true) {
-            std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
             const long startTime = duration_cast<milliseconds>(
                     steady_clock::now().time_since_epoch()).count();
             std::cv_status waitStatus = conditionObject.wait_for(
-- 
2.43.0


From 60f0226201fb8292dedafed5c84f00b9fb8b0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 078/102] fix: Thread: alive from start until the function
 ends, join returns once it has ended

---
 library/Java/Lang/Thread/Thread.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index a79a1e5..7a2657f 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -55,26 +55,25 @@ Thread::~Thread() {
 }
 
 void Thread::run() {
-    // set thread id
-    this->tid = (unsigned long)pthread_self();
-
     // set tls
     if (currentThreadPtr == nullptr) {
         currentThreadPtr = this;
     }
 
     mutexObject.lock();
+    this->tid = (unsigned long)pthread_self();
     alive = true;
     mutexObject.unlock();
 
     if (this->func) {
         this->func();
     }
-    semaphoreObject.release(1);
 
     mutexObject.lock();
     alive = false;
     mutexObject.unlock();
+
+    semaphoreObject.release(1);
 }
 
 void Thread::setName(String name) {
@@ -97,12 +96,16 @@ boolean Thread::isAlive() {
 }
 
 unsigned long Thread::getId() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->tid;
 }
 
 void Thread::start() {
-    if (this->func && !isAlive()) {
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (this->func && !alive) {
+        alive = true;
         threadObject = std::move(std::thread(&Thread::run, this));
+        this->tid = (unsigned long)threadObject.native_handle();
     }
 }
 
@@ -111,10 +114,18 @@ void Thread::join() {
 }
 
 void Thread::join(long millis) {
+    if (!isAlive()) {
+        return;
+    }
+
+    // The permit goes back for every other thread that joins
     if (millis > 0) {
-        semaphoreObject.tryAcquire(1, millis);
+        if (semaphoreObject.tryAcquire(1, millis)) {
+            semaphoreObject.release(1);
+        }
     } else {
         semaphoreObject.acquire();
+        semaphoreObject.release(1);
     }
 }
 
-- 
2.43.0


From c30851e5052d253522ff4ed56831e226de4d6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 079/102] fix: Thread without a target runs nothing

---
 library/Java/Lang/Thread/Thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index 7a2657f..9a72426 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -83,7 +83,11 @@ void Thread::setName(String name) {
 void Thread::init(Runnable *target, String name) {
     this->target = target;
     this->name = name;
-    this->func = std::bind(&Runnable::run, target);
+    if (target != nullptr) {
+        this->func = std::bind(&Runnable::run, target);
+    } else {
+        this->func = []() {};
+    }
 }
 
 String Thread::getName() {
-- 
2.43.0


From 665327d3a28bf77d2abfc25bab2178e7ee9f5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 080/102] fix: ConcurrentHashMap::remove finds and removes in
 one step

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c6d99ec..911e1e1 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -420,13 +420,11 @@ namespace Java {
                  * 					previously associated null with key.)
                  */
                 V remove(const K &key) {
-                    V v;
-                    try {
-                        v = original.find(key);
-                        original.erase(key);
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
+                    V v = V();
+                    original.erase_fn(key, [&v](V &current) {
+                        v = current;
+                        return true;
+                    });
                     return v;
                 }
 
@@ -441,16 +439,12 @@ namespace Java {
                  * 			false 		if otherwise
                  */
                 boolean remove(const K &key, const V &value) {
-                    try {
-                        var v = original.find(key);
-                        if (v == value) {
-                            original.erase(key);
-                            return true;
-                        }
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return false;
+                    boolean removed = false;
+                    original.erase_fn(key, [&removed, &value](V &current) {
+                        removed = current == value;
+                        return removed;
+                    });
+                    return removed;
                 }
 
                 /**
-- 
2.43.0


From 6662f4a5e4b4de0e39cf1dce57772d3e24d8f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 081/102] fix: ConcurrentHashMap::putIfAbsent and replace
 compile and are one step

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 39 +++++++++----------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 911e1e1..c5e4499 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -401,12 +401,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V putIfAbsent(const K &key, const V &value) {
-                    try {
-                        value = original.find(key);
-                    } catch (std::out_of_range &e) {
-                        this->put(key, value);
-                    }
-                    return value;
+                    V result = V();
+                    original.upsert(key, [&result](V &current) {
+                        result = current;
+                    }, value);
+                    return result;
                 }
 
                 /**
@@ -461,13 +460,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V replace(const K &key, const V &value) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()) {
-                        return result;
-                    }
-                    result = iteratorToString->second;
-                    this->put(key, value);
+                    V result = V();
+                    original.update_fn(key, [&result, &value](V &current) {
+                        result = current;
+                        current = value;
+                    });
                     return result;
                 }
 
@@ -486,14 +483,14 @@ namespace Java {
                 boolean replace(const K &key,
                                 const V &oldValue,
                                 const V &newValue) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()
-                        || iteratorToString->second != oldValue) {
-                        return false;
-                    }
-                    this->put(key, newValue);
-                    return true;
+                    boolean replaced = false;
+                    original.update_fn(key, [&replaced, &oldValue, &newValue](V &current) {
+                        if (current == oldValue) {
+                            current = newValue;
+                            replaced = true;
+                        }
+                    });
+                    return replaced;
                 }
 
                 /**
-- 
2.43.0


From 48066ea6cf26fc8cc4556efefb982eac8511dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 082/102] fix: ConcurrentHashMap::equals and clone compile

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c5e4499..0442be2 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -90,16 +90,18 @@ namespace Java {
                  *          false if not equal
                  */
                 boolean equals(const ConcurrentHashMap <K, V> &anotherHashMap) {
-                    if (original.size() != anotherHashMap.size()) {
-                        return false;
+                    if (this == &anotherHashMap) {
+                        return true;
                     }
-                    for (var const &thisElement : this) {
-                        V anotherValue = anotherHashMap.get(thisElement.first);
-                        if (thisElement.second != anotherValue) {
-                            return false;
-                        }
+                    if (this->size() != anotherHashMap.size()) {
+                        return false;
                     }
-                    return true;
+                    boolean same = true;
+                    forEach([&anotherHashMap, &same](K key, V value) {
+                        same = anotherHashMap.containsKey(key) && anotherHashMap.get(key) == value;
+                        return same;
+                    });
+                    return same;
                 }
 
                 /**
@@ -131,11 +133,7 @@ namespace Java {
                  * @return ConcurrentHashMap<K, V>
                  */
                 ConcurrentHashMap <K, V> clone() const {
-                    ConcurrentHashMap < K, V > result;
-                    for (auto const &element : this) {
-                        result.put(element.first, element.second);
-                    }
-                    return result;
+                    return ConcurrentHashMap<K, V>(*this);
                 }
 
                 /**
-- 
2.43.0


From 39fb6382b83a7e811fb4835ac043064919117c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 083/102] fix: ConcurrentHashMap::get of a missing key returns
 the default value of a primitive type

---
 .../Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 0442be2..835e904 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -338,8 +338,7 @@ namespace Java {
                         var value = original.find(key);
                         return value;
                     } catch (std::out_of_range &exception) {
-                        V v;
-                        return v;
+                        return V();
                     }
                 }
 
-- 
2.43.0


From 06765799c8d07640e2124c21e633be9cbd7629d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:01 +0000
Subject: [PATCH 084/102] hook: NATIVE_VERIF_SMALL_TABLE makes the default
 table of ConcurrentHashMap small

---
 .../ConcurrentHashMap/libcuckoo/cuckoohash_config.hh          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
index 48aa0e9..657a77f 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
@@ -15,8 +15,12 @@ namespace libcuckoo {
     constexpr size_t DEFAULT_SLOT_PER_BUCKET = 4;
 
 //! The default number of elements in an empty hash table
+#ifdef NATIVE_VERIF_SMALL_TABLE
+    constexpr size_t DEFAULT_SIZE = 2 * DEFAULT_SLOT_PER_BUCKET;
+#else
     constexpr size_t DEFAULT_SIZE =
             (1U << 16) * DEFAULT_SLOT_PER_BUCKET;
+#endif
 
 //! The default minimum load factor that the table allows for automatic
 //! expansion. It must be a number between 0.0 and 1.0. The table will throw
-- 
2.43.0


From 65f8973240c1bb09e191d353f13825c974fb22e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 085/102] fix: ConcurrentHashMap::clear holds the locks while
 it empties the table

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 6b4b0db..c2e5d8e 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -678,7 +678,7 @@ namespace libcuckoo {
          * Removes all elements in the table, calling their destructors.
          */
         void clear() {
-            lock_all(normal_mode());
+            auto all_locks_manager = lock_all(normal_mode());
             cuckoo_clear();
         }
 
-- 
2.43.0


From 7ac0aaa9c1db68a84e82f35d53d12a9eaf542944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:45 +0000
Subject: [PATCH 086/102] fix: ConcurrentHashMap finds the current locks
 through an atomic pointer while another thread adds locks

---
 .../libcuckoo/cuckoohash_map.hh               | 62 ++++++++++++++++++-
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index c2e5d8e..db878f6 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -844,7 +844,65 @@ namespace libcuckoo {
         typename std::allocator_traits<allocator_type>::template rebind_alloc<U>;
 
         using locks_t = std::vector<spinlock, rebind_alloc<spinlock>>;
-        using all_locks_t = std::list<locks_t, rebind_alloc<locks_t>>;
+        // A list of lock containers. Other threads may look for the last one while
+        // the thread that holds all of its locks adds another.
+        class all_locks_t : public std::list<locks_t, rebind_alloc<locks_t>> {
+            using list_t = std::list<locks_t, rebind_alloc<locks_t>>;
+
+        public:
+            explicit all_locks_t(const Allocator &alloc)
+                    : list_t(typename list_t::allocator_type(alloc)),
+                      back_(nullptr) {}
+
+            all_locks_t(const all_locks_t &other) : list_t(other) { publish(); }
+
+            all_locks_t(all_locks_t &&other) : list_t(std::move(other)) {
+                publish();
+                other.publish();
+            }
+
+            all_locks_t &operator=(const all_locks_t &other) {
+                list_t::operator=(other);
+                publish();
+                return *this;
+            }
+
+            all_locks_t &operator=(all_locks_t &&other) {
+                list_t::operator=(std::move(other));
+                publish();
+                other.publish();
+                return *this;
+            }
+
+            void swap(all_locks_t &other) noexcept {
+                list_t::swap(other);
+                publish();
+                other.publish();
+            }
+
+            template <typename... Args> void emplace_back(Args &&... args) {
+                list_t::emplace_back(std::forward<Args>(args)...);
+                publish();
+            }
+
+            locks_t &back() const { return *back_.load(std::memory_order_acquire); }
+
+            typename list_t::iterator last() {
+                auto it = this->begin();
+                while (&*it != &back()) {
+                    ++it;
+                }
+                return it;
+            }
+
+        private:
+            void publish() {
+                back_.store(this->empty() ? nullptr : &list_t::back(),
+                            std::memory_order_release);
+            }
+
+            std::atomic<locks_t *> back_;
+        };
 
         // Classes for managing locked buckets. By storing and moving around sets of
         // locked buckets in these classes, we can ensure that they are unlocked
@@ -1077,7 +1135,7 @@ namespace libcuckoo {
             // all_locks_ should never decrease in size, so if it is non-empty now, it
             // will remain non-empty
             assert(!all_locks_.empty());
-            const auto first_locked = std::prev(all_locks_.end());
+            const auto first_locked = all_locks_.last();
             auto current_locks = first_locked;
             while (current_locks != all_locks_.end()) {
                 locks_t &locks = *current_locks;
-- 
2.43.0


From b482b0b12a912c41bc2b6cca1a33b857561252c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 087/102] fix: longBitsToDouble decodes zero, denormal and NaN
 patterns and Long::MIN_VALUE

---
 library/Java/Lang/Double/Double.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index e5bf1df..f6aee00 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -458,6 +458,16 @@ double Double::binary64StringTypeToDouble(String binary64StringTypeInput) {
         tempExponent--;
     }
 
+    if (exponent == 2047 && mantisaBase10 != 0) {
+        return NaN;
+    }
+
+    if (exponent == 0) {
+        // zero and denormal numbers have no implicit leading 1
+        return signOfResultbinary64StringTypeToDouble * mantisaBase10
+               * Math::pow(2, -1022);
+    }
+
     // 5. Find the Double precision floating point decimal value
     resultBinary64StringTypeToDouble
             = signOfResultbinary64StringTypeToDouble * (1 + mantisaBase10)
@@ -470,6 +480,7 @@ String Double::longBitsToBinary64StringType(long longBitsInput) {
     auto resultLongBitsToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
     int index;
     int i;
+    unsigned long magnitude = longBitsInput;
 
     for (i = 0; i <= 63; i++) {
         resultLongBitsToBinary64StringType[i] = '0';
@@ -479,21 +490,21 @@ String Double::longBitsToBinary64StringType(long longBitsInput) {
 
     if (longBitsInput < 0) {
         resultLongBitsToBinary64StringType[0] = '1';
-        longBitsInput = -longBitsInput;
+        magnitude = -magnitude;
     }
 
     index = 63;
-    while ((longBitsInput != 0) || (index > 1)) {
-        if ((longBitsInput & 1) == 1) {
+    while ((magnitude != 0) || (index > 1)) {
+        if ((magnitude & 1) == 1) {
             resultLongBitsToBinary64StringType[index] = '1';
         }
 
-        if ((longBitsInput & 1) == 0) {
+        if ((magnitude & 1) == 0) {
             resultLongBitsToBinary64StringType[index] = '0';
         }
 
         index--;
-        longBitsInput = longBitsInput >> 1;
+        magnitude = magnitude >> 1;
     }
 
     String result = resultLongBitsToBinary64StringType;
-- 
2.43.0


From 52509a87c9036a228f769095dc9f4b753b06d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 088/102] fix: Double.parseDouble throws NumberFormatException
 when there is no number

---
 library/Java/Lang/Double/Double.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index f6aee00..61d1455 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Double.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -64,7 +65,9 @@ Double::~Double() {
 
 Double Double::parseDouble(String target) {
     double result;
-    sscanf(target.toCharPointer(), "%lg", &result);
+    if (sscanf(target.toCharPointer(), "%lg", &result) != 1) {
+        throw NumberFormatException("Not a number");
+    }
     return result;
 }
 
-- 
2.43.0


From b0f61144bfd17dac9a0549cdbaa9fd2fa7eaf0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 089/102] fix: Float.parseFloat throws NumberFormatException
 when there is no number

---
 library/Java/Lang/Float/Float.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index f516031..0299d1a 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Float.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 #include "../Math/Math.hpp"
 
 using namespace Java::Lang;
@@ -162,7 +163,9 @@ String Float::toString() const {
 
 Float Float::parseFloat(String inputString) {
     float result;
-    sscanf(inputString.toCharPointer(), "%g", &result);
+    if (sscanf(inputString.toCharPointer(), "%g", &result) != 1) {
+        throw NumberFormatException("Not a number");
+    }
     return (Float)result;
 }
 
-- 
2.43.0


From 3b28be5ec72639b7a0832b0ef394e0fa9de69b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 090/102] fix: Short.parseShort reads decimal text and throws
 NumberFormatException for anything else

---
 library/Java/Lang/Short/Short.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..9b9226d 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,8 @@
  */
 
 #include "Short.hpp"
+#include "../Integer/Integer.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -71,9 +73,11 @@ Short::~Short() {
  * @return short
  */
 Short Short::parseShort(String target) {
-    short result;
-    sscanf(target.toCharPointer(), "%hi", &result);
-	return (Short) result;
+    int result = Integer::parseInt(target);
+    if (result < -32768 || result > 32767) {
+        throw NumberFormatException("Short out of range");
+    }
+	return (Short) (short) result;
 }
 
 /**
-- 
2.43.0


From cde180ef500c5f79d99f988af3a9951cd3861a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 091/102] fix: Integer.parseInt and parseUnsignedInt reject
 trailing characters and out-of-range 20-digit texts

---
 library/Java/Lang/Integer/Integer.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..b8cf50e 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -373,8 +373,9 @@ int Integer::parseInt(String inputString, int radix) {
 	}
 	
 	unsigned long unsignedResult = 0;
+	size_t parsedLength = 0;
 	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
+		unsignedResult = std::stoul(inputString.toCharPointer(), &parsedLength, radix);
 	}
 	catch (const std::invalid_argument &e) {
 		throw NumberFormatException("Not a number");
@@ -383,6 +384,14 @@ int Integer::parseInt(String inputString, int radix) {
 		throw NumberFormatException("Integer out of range");
 	}
 	
+	if (parsedLength != (size_t) inputString.length()) {
+		throw NumberFormatException("Not a number");
+	}
+	
+	if (unsignedResult > 2147483648UL) {
+		throw NumberFormatException("Integer out of range");
+	}
+	
 	long result = unsignedResult;
 	
 	if (isNegative) {
@@ -427,15 +436,20 @@ int Integer::parseUnsignedInt(String inputString, int radix) {
 	}
 	
 	unsigned long unsignedResult = 0;
+	size_t parsedLength = 0;
 	
 	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
+		unsignedResult = std::stoul(inputString.toCharPointer(), &parsedLength, radix);
 	} catch (const std::invalid_argument &e) {
 		throw NumberFormatException("Not a number");
 	} catch (const std::out_of_range &e) {
 		throw NumberFormatException("Unsigned integer out of range");
 	}
 	
+	if (parsedLength != (size_t) inputString.length()) {
+		throw NumberFormatException("Not a number");
+	}
+	
 	long result = unsignedResult;
 	
 	if (result > UNSIGNED_INT_MAX || result < UNSIGNED_INT_MIN) {
-- 
2.43.0


From c316c7bdf579c3e8562a6eb87de955f491195329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 092/102] fix: dividing Integer MIN_VALUE by -1 wraps instead
 of trapping

---
 library/Java/Lang/Integer/Integer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index b8cf50e..5f19c1b 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -140,7 +140,7 @@ Integer Integer::operator/(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original / target.original;
+	return (int) ((long) this->original / target.original);
 }
 
 Integer Integer::operator*(const Integer &target) {
@@ -151,7 +151,7 @@ Integer Integer::operator%(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original % target.original;
+	return (int) ((long) this->original % target.original);
 }
 
 Integer &Integer::operator+=(const Integer &target) {
@@ -172,7 +172,7 @@ Integer &Integer::operator/=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original /= target.original;
+	this->original = (int) ((long) this->original / target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
@@ -189,7 +189,7 @@ Integer &Integer::operator%=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original %= target.original;
+	this->original = (int) ((long) this->original % target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
-- 
2.43.0


From 761ffdae24127c88b2520874b7c3f39199f11690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 093/102] fix: Long division throws ArithmeticException for
 zero and wraps for MIN_VALUE / -1

---
 library/Java/Lang/Long/Long.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 130ecff..d79015f 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Long.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 #include "../Math/Math.hpp"
 
 using namespace Java::Lang;
@@ -683,6 +684,12 @@ Long Long::operator-(const Long &target) const {
  * @return
  */
 Long Long::operator/(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		return (long) (0UL - (unsigned long) this->original);
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -694,6 +701,12 @@ Long Long::operator/(const Long &target) const {
  * @return
  */
 Long Long::operator%(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		return 0L;
+	}
 	Long result = this->original % target.original;
 	return result;
 }
-- 
2.43.0


From 1302c04d5275bcf152dee4284201275b0981a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 094/102] fix: Long.reverse and Long.reverseBytes are
 implemented

---
 library/Java/Lang/Long/Long.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index d79015f..8ca67d4 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -424,16 +424,11 @@ long Long::parseLong(String s, int radix) {
  * @return long
  */
 long Long::reverse(long i) {
-	return i;
-	/*
-	i = ( i & 0x5555555555555555L ) << 1 | ( i >> 1 ) & 0x5555555555555555L;
-	i = ( i & 0x3333333333333333L ) << 2 | ( i >> 2 ) & 0x3333333333333333L;
-	i = ( i & 0x0f0f0f0f0f0f0f0fL ) << 4 | ( i >> 4 ) & 0x0f0f0f0f0f0f0f0fL;
-	i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	i = ( i << 48 ) | (( i & 0xffff0000L ) << 16 ) |
-	    (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 );
-	return i;
-	 */
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x5555555555555555UL ) << 1 | (( bits >> 1 ) & 0x5555555555555555UL );
+	bits = ( bits & 0x3333333333333333UL ) << 2 | (( bits >> 2 ) & 0x3333333333333333UL );
+	bits = ( bits & 0x0f0f0f0f0f0f0f0fUL ) << 4 | (( bits >> 4 ) & 0x0f0f0f0f0f0f0f0fUL );
+	return reverseBytes((long) bits);
 }
 
 /**
@@ -444,9 +439,10 @@ long Long::reverse(long i) {
  * @return long
  */
 long Long::reverseBytes(long i) {
-	return i;
-	//i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	//return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 ));
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x00ff00ff00ff00ffUL ) << 8 | (( bits >> 8 ) & 0x00ff00ff00ff00ffUL );
+	return (long) (( bits << 48 ) | (( bits & 0xffff0000UL ) << 16 ) |
+	               (( bits >> 16 ) & 0xffff0000UL ) | ( bits >> 48 ));
 }
 
 /**
-- 
2.43.0


From 7dd84e1b1ed1b8a9c02d5b067f80139e163cb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 095/102] fix: Character.digit reads every radix from 2 to 36
 and both letter cases

---
 library/Java/Lang/Character/Character.cpp | 73 ++++-------------------
 1 file changed, 10 insertions(+), 63 deletions(-)

diff --git a/library/Java/Lang/Character/Character.cpp b/library/Java/Lang/Character/Character.cpp
index 7744625..caeecf6 100755
--- a/library/Java/Lang/Character/Character.cpp
+++ b/library/Java/Lang/Character/Character.cpp
@@ -515,69 +515,16 @@ int Character::toCodePoint(unicode high, unicode low) {
 }
 
 int Character::digit(int codePoint, int radix) {
-	if (radix == 10) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			default:
-				return -1;
-		}
+	int value = -1;
+	if (radix < 2 || radix > 36) {
+		return -1;
 	}
-	if (radix == 16) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			case (int) 'a':
-				return 10;
-			case (int) 'b':
-				return 11;
-			case (int) 'c':
-				return 12;
-			case (int) 'd':
-				return 13;
-			case (int) 'e':
-				return 14;
-			case (int) 'f':
-				return 15;
-			default:
-				return -1;
-		}
+	if (codePoint >= '0' && codePoint <= '9') {
+		value = codePoint - '0';
+	} else if (codePoint >= 'a' && codePoint <= 'z') {
+		value = codePoint - 'a' + 10;
+	} else if (codePoint >= 'A' && codePoint <= 'Z') {
+		value = codePoint - 'A' + 10;
 	}
-	return -1;
+	return value < radix ? value : -1;
 }
-- 
2.43.0


From a11626226f8c9f7dc49292e72e1a8330397febf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 096/102] fix: Math.floorDiv of MIN_VALUE by -1 wraps instead
 of trapping

---
 library/Java/Lang/Math/Math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 7d3ab17..a4405f4 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -142,7 +142,7 @@ int Math::floorDiv(int dividend, int divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
-	int result = dividend / divisor;
+	int result = (int) ((long) dividend / divisor);
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
 		result--;
@@ -154,6 +154,9 @@ long Math::floorDiv(long dividend, long divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		return (long) (0UL - (unsigned long) dividend);
+	}
 	long result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-- 
2.43.0


From 9c0c498ef78ba03e3e0eddbae2a2b5a7dae27212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 097/102] fix: Integer.parseInt and parseUnsignedInt reject
 white space and a second sign before the digits

---
 library/Java/Lang/Integer/Integer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 5f19c1b..8b67c25 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -370,6 +370,12 @@ int Integer::parseInt(String inputString, int radix) {
 	if (sign == '-' && (( isdigit(sign)) == 0 )) {
 		isNegative = true;
 		inputString = inputString.getStringFromIndex(1);
+	} else if (sign == '+') {
+		inputString = inputString.getStringFromIndex(1);
+	}
+	
+	if (inputString.length() == 0 || isalnum((unsigned char) inputString.charAt(0)) == 0) {
+		throw NumberFormatException("Not a number");
 	}
 	
 	unsigned long unsignedResult = 0;
@@ -435,6 +441,10 @@ int Integer::parseUnsignedInt(String inputString, int radix) {
 		}
 	}
 	
+	if (inputString.length() == 0 || isalnum((unsigned char) inputString.charAt(0)) == 0) {
+		throw NumberFormatException("Not a number");
+	}
+	
 	unsigned long unsignedResult = 0;
 	size_t parsedLength = 0;
 	
-- 
2.43.0


From c068ec542ad402ab8557059b6607ee0596fa7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 098/102] fix: Integer parse and decode report a lone sign as
 NumberFormatException

---
 library/Java/Lang/Integer/Integer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 8b67c25..fe4f193 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -244,6 +244,10 @@ Integer Integer::decode(String inputString) {
 	boolean isNegative = false;
 	int base = 10;
 	char sign = inputString.charAt(0);
+	if (inputString.length() == 1 && isalnum((unsigned char) sign) == 0) {
+		throw NumberFormatException("Not a number");
+	}
+	
 	if (sign == '-' && (( isdigit(sign)) == 0 )) {
 		isNegative = true;
 		inputString = inputString.getStringFromIndex(1);
@@ -367,6 +371,10 @@ int Integer::parseInt(String inputString, int radix) {
 	
 	boolean isNegative = false;
 	char sign = inputString.charAt(0);
+	if (inputString.length() == 1 && isalnum((unsigned char) sign) == 0) {
+		throw NumberFormatException("Not a number");
+	}
+	
 	if (sign == '-' && (( isdigit(sign)) == 0 )) {
 		isNegative = true;
 		inputString = inputString.getStringFromIndex(1);
@@ -429,7 +437,9 @@ int Integer::parseUnsignedInt(String inputString, int radix) {
 	}
 	
 	char sign = inputString.charAt(0);
-	
+	if (inputString.length() == 1 && isalnum((unsigned char) sign) == 0) {
+		throw NumberFormatException("Not a number");
+	}
 	
 	if (( isdigit(sign)) == 0) {
 		if (sign == '-') {
-- 
2.43.0


From 95f4f7aa2ef0ae29d1181ea80d3494503a4673d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:24 +0000
Subject: [PATCH 099/102] fix: Integer.decode reads "-0" and MIN_VALUE and
 rejects a second sign

---
 library/Java/Lang/Integer/Integer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index fe4f193..f633332 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -253,7 +253,7 @@ Integer Integer::decode(String inputString) {
 		inputString = inputString.getStringFromIndex(1);
 	}
 	
-	if (inputString.charAt(0) == '0') {
+	if (inputString.charAt(0) == '0' && inputString.length() > 1) {
 		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
 			base = 16;
 		} else {
@@ -261,10 +261,10 @@ Integer Integer::decode(String inputString) {
 		}
 	}
 	
-	int result = parseInt(inputString, base);
 	if (isNegative) {
-		return static_cast<Integer>(-result);
+		inputString = String("-") + inputString;
 	}
+	int result = parseInt(inputString, base);
 	return static_cast<Integer>(result);
 }
 
-- 
2.43.0


From 7b2636e6882ed08b4194b49c7707cdcbfa1dbfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:13 +0000
Subject: [PATCH 100/102] fix: ConcurrentLinkedQueue.offer adds the element

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b2103dc..8107e8e 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -61,7 +61,7 @@ namespace Java {
                 }
 
                 boolean offer(const E &e) {
-                    return true;
+                    return original.enqueue(e);
                 }
 
                 E peek() const {
-- 
2.43.0


From c1d8c782f839df9f614b615087eb5f093d2cec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:13 +0000
Subject: [PATCH 101/102] fix: ConcurrentLinkedQueue.clear removes the elements

---
 .../ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index 8107e8e..b638087 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -79,6 +79,10 @@ namespace Java {
                 }
 
                 void clear() {
+                    E e = E();
+
+                    while (original.try_dequeue(e)) {
+                    }
                 }
 
                 boolean contains(const E &e) {
-- 
2.43.0


From a541da7417f261b12fe2ee579282bc81105ff0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:13 +0000
Subject: [PATCH 102/102] fix: ConcurrentLinkedQueue.poll on an empty queue
 returns a default value

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b638087..8398ab3 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -69,7 +69,7 @@ namespace Java {
                 }
 
                 E poll() {
-                    E e;
+                    E e = E();
                     original.try_dequeue(e);
                     return e;
                 }
-- 
2.43.0

