From db074e5606b2d9e1fc6209b8e39dfbb129115743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 001/141] fix: BitSet.flip(from, to) used the word of toIndex,
 not of the last bit

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..b40b4df 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -333,7 +333,7 @@ void BitSet::flip(int fromIndex, int toIndex) {
     }
 
     int startWordIndex = this->wordIndex(fromIndex);
-    int endWordIndex = this->wordIndex(toIndex);
+    int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
     long firstWordMask = WORD_MASK << fromIndex;
-- 
2.43.0


From d0b30354433c5f1e372a9fdc428ec7093fd60144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 002/141] fix: BitSet.intersects read one word past the end

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index b40b4df..6d203db 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -437,7 +437,7 @@ int BitSet::hashCode() const {
 boolean BitSet::intersects(const BitSet &set) {
     int endWordIndex = Math::min(this->wordsInUse, set.wordsInUse);
     int index;
-    for (index = 0; index <= endWordIndex; ++index) {
+    for (index = 0; index < endWordIndex; ++index) {
         if ((this->words[index] & set.words[index]) != 0) {
             return true;
         }
-- 
2.43.0


From 03cc5fd5bc1388dc15055d4dbf6cebaa2f963edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 003/141] fix: BitSet assignment left a dangling text buffer

---
 library/Java/Util/BitSet/BitSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 6d203db..aa4721f 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -114,6 +114,7 @@ void BitSet::trimToSize() {
 void BitSet::cleanUp() {
     if (this->backupForToString != nullptr) {
         free(this->backupForToString);
+        this->backupForToString = nullptr;
     }
 }
 
-- 
2.43.0


From 9f4fa93cfb68b22aa72d12eaa66ac0fd332517e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 004/141] fix: String.hashCode returned the hash of an earlier
 content

---
 library/Java/Lang/String/String.cpp | 12 +++++-------
 library/Java/Lang/String/String.hpp |  1 -
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..8fea2e0 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -585,14 +585,12 @@ boolean String::equalsIgnoreCase(const String &anotherString) const {
 }
 
 long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
+	// The content may change through operator=, += and [], so the value is not cached
+	unsigned int hashCode = 0;
+	for (int i = 0; i < this->original.size(); i++) {
+		hashCode = 31 * hashCode + this->original[i];
 	}
-	return hashCode;
+	return (int) hashCode;
 }
 
 boolean String::regionMatches(int thisOffset,
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2cae6e0..91da0b6 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -96,7 +96,6 @@ namespace Java {
 
         private:
             std::string original;
-            mutable int hash = 0;
 
         public:
             /**
-- 
2.43.0


From 9d7eca575feb24d4d6dc41ef5f94705cc31dc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 005/141] fix: String comparison ignored everything after a NUL
 character

---
 library/Java/Lang/String/String.cpp | 16 ++++++++++++----
 library/Java/Lang/String/String.hpp |  8 ++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 8fea2e0..f6e604e 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -162,11 +162,19 @@ char String::charAt(int index) const {
 }
 
 int String::compareTo(const String &anotherString) const {
-	return strcmp(this->original.c_str(), anotherString.original.c_str());
+	return this->original.compare(anotherString.original);
 }
 
 int String::compareToIgnoreCase(const String &anotherString) const {
-	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
+	const std::size_t length = std::min(this->original.size(), anotherString.original.size());
+	for (std::size_t index = 0; index < length; ++index) {
+		const int left = tolower((unsigned char) this->original[index]);
+		const int right = tolower((unsigned char) anotherString.original[index]);
+		if (left != right) {
+			return left - right;
+		}
+	}
+	return (int) this->original.size() - (int) anotherString.original.size();
 }
 
 String String::concat(const String &target) const {
@@ -174,7 +182,7 @@ String String::concat(const String &target) const {
 }
 
 boolean String::contains(const CharSequence &charSequence) const {
-	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
+	std::size_t found = this->original.find(charSequence.toString().original);
 	if (found != std::string::npos) {
 		return true;
 	} else {
@@ -565,7 +573,7 @@ String String::subString(int beginIndex, int endIndex) const {
 }
 
 boolean String::contentEquals(const CharSequence &charSequence) const {
-	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
+	return this->original == charSequence.toString().original;
 }
 
 String String::copyValueOf(const Array<char> &charArray) {
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 91da0b6..69c8461 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -1094,7 +1094,7 @@ namespace Java {
             * @return true if this String is smaller than target; false otherwise
             */
             inline boolean operator<(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) < 0;
+                return this->original < target.original;
             }
 
             /**
@@ -1104,7 +1104,7 @@ namespace Java {
              * @return true if this String is greater than target; false otherwise
              */
             inline boolean operator>(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) > 0;
+                return this->original > target.original;
             }
 
             /**
@@ -1114,7 +1114,7 @@ namespace Java {
             * @return true if this String is smaller than or equal to target; false otherwise
             */
             inline boolean operator<=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) <= 0;
+                return this->original <= target.original;
             }
 
             /**
@@ -1124,7 +1124,7 @@ namespace Java {
              * @return true if this String is greater than or equal to target; false otherwise
              */
             inline boolean operator>=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) >= 0;
+                return this->original >= target.original;
             }
 
             /**
-- 
2.43.0


From 936ca389447d1f1a3742a86425a3262d5885959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 006/141] fix: String.charAt and getStringFromIndex accepted
 any index on an empty string

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index f6e604e..acce9ca 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -155,7 +155,7 @@ String String::clone() {
 }
 
 char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= (int) this->original.size()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
 	}
 	return (this->original[index]);
@@ -209,7 +209,7 @@ Array<byte> String::getBytes() const {
 }
 
 String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= (int) this->original.size()) {
 		throw StringIndexOutOfBoundsException(index);
 	}
 	return this->original.substr(index);
-- 
2.43.0


From 08ec09ac44130a078b3b02e57dc32edb126b5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 007/141] fix: String.indexOf missed the NUL character and the
 empty string

---
 library/Java/Lang/String/String.cpp | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index acce9ca..de82e99 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -235,18 +235,7 @@ String String::fromCharArray(const Array<char> &charArray) {
 }
 
 int String::indexOf(int character) const {
-	string pointerHolder;
-	char target = (char) character;
-	if (target == '\0') {
-		pointerHolder = strdup("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = target;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	std::size_t found = this->original.find(pointerHolder);
-	free(pointerHolder);
+	std::size_t found = this->original.find((char) character);
 	if (found != std::string::npos) {
 		return (int) found;
 	}
@@ -271,9 +260,6 @@ int String::indexOf(int character, int fromIndex) const {
 }
 
 int String::indexOf(const String &subString) const {
-	if (this->original.size() == 0 || subString == "") {
-		return -1;
-	}
 	std::size_t found = this->original.find(subString.original);
 	if (found != std::string::npos) {
 		return (int) found;
@@ -285,16 +271,12 @@ int String::indexOf(const String &subString, int fromIndex) const {
 	if (fromIndex < 0) {
 		return this->indexOf(subString);
 	}
-	if (this->original.size() == 0 || subString == "") {
-		return -1;
-	}
-	if (fromIndex > (this->original.size() - 1) || (this->original.size()) < (subString.original.size())) {
-		return -1;
+	if (fromIndex > (int) this->original.size()) {
+		fromIndex = (int) this->original.size();
 	}
-	std::string stringFromIndex = (this)->original.substr(fromIndex);
-	std::size_t found = stringFromIndex.find(subString.original);
+	std::size_t found = this->original.find(subString.original, (std::size_t) fromIndex);
 	if (found != std::string::npos) {
-		return (int) (found + fromIndex);
+		return (int) found;
 	}
 	return -1;
 }
-- 
2.43.0


From 816f87d4a959179040639070141f64d39b75e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 008/141] fix: String.lastIndexOf(character, from) skipped the
 start index itself

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index de82e99..6cce5e5 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -299,12 +299,12 @@ int String::lastIndexOf(int character, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= (int) this->original.size()) {
 		return this->lastIndexOf(character);
 	}
 
 	int index = 0;
-	for (index = fromIndex - 1; index >= 0; index--) {
+	for (index = fromIndex; index >= 0; index--) {
 		if (this->charAt(index) == (char) character) {
 			return index;
 		}
-- 
2.43.0


From 2566286d2282de83da2f4f15505fb4e2c8f473a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 009/141] fix: String.lastIndexOf(string, from) misjudged empty
 strings and embedded NUL

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 6cce5e5..4a773c4 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -329,7 +329,7 @@ int String::lastIndexOf(const String &subString, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= (int) this->original.size()) {
 		return this->lastIndexOf(subString);
 	}
 	std::string thisStringReversed = this->original;
@@ -339,7 +339,7 @@ int String::lastIndexOf(const String &subString, int fromIndex) const {
 		return -1;
 	}
 	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
-	std::string reversedString = subString.toCharPointer();
+	std::string reversedString = subString.original;
 	std::reverse(reversedString.begin(), reversedString.end());
 	auto result = (int) subStringFromIndex.find(reversedString);
 	if (result == -1) {
-- 
2.43.0


From de63aed8186610dda1fbcd563c98572cb210a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 010/141] fix: String.regionMatches reported a match for a
 range outside one of the strings

---
 library/Java/Lang/String/String.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 4a773c4..5bee12a 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -590,6 +590,13 @@ boolean String::regionMatches(int thisOffset,
 
 boolean String::regionMatches(boolean ignoreCase, int thisOffset,
                               const String &otherString, int otherOffset, int len) const {
+	if (len > 0) {
+		const boolean insideThis = thisOffset >= 0 && thisOffset <= this->length() - len;
+		const boolean insideOther = otherOffset >= 0 && otherOffset <= otherString.length() - len;
+		if (insideThis != insideOther) {
+			return false;
+		}
+	}
 	String thisString = this->subString(thisOffset, thisOffset + len);
 	var subString = otherString.subString(otherOffset, otherOffset + len);
 	if (ignoreCase) {
-- 
2.43.0


From 47c62f8c7786745f5e830c14705a3b3795a9eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 011/141] fix: String.replace and split looped forever on an
 empty target

---
 library/Java/Lang/String/String.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 5bee12a..23a3298 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -376,6 +376,16 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
+	if (targetString.empty() && !this->original.empty()) {
+		for (char character : this->original) {
+			strings.push(String(&character, 1));
+		}
+		return strings;
+	}
+	if (targetString.empty()) {
+		strings.push(*this);
+		return strings;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
 		for (; pre < pos; pre++) {
@@ -645,6 +655,14 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+	if (targetString.empty()) {
+		// The empty text occurs before each character and at the end
+		for (char character : this->original) {
+			result += replaceString;
+			result += character;
+		}
+		return result + replaceString;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
-- 
2.43.0


From 5219d7513ae71aedfde8feeee63506f94613e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 012/141] fix: String.replaceFirst failed when the target is
 absent or at the very end

---
 library/Java/Lang/String/String.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 23a3298..1c2ddf6 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -679,11 +679,13 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 
 String String::replaceFirst(const String &regex, const String &replacement) const {
 	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
+	int indexOfFirstRegex = this->indexOf(regex);
+	if (indexOfFirstRegex == -1) {
+		return *this;
+	}
+	String head = this->subString(0, indexOfFirstRegex);
+	String tail = this->subString(indexOfFirstRegex + regex.length());
+	return head + replacement + tail;
 }
 
 Array<String> String::split(const String &regex, int limit) const {
-- 
2.43.0


From 85a3a69beeeab2bb33d9f28895b27db13ec3949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 013/141] fix: String.trim kept whitespace other than the space
 character

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 1c2ddf6..8eccd75 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -469,11 +469,11 @@ String String::toUpperCase() const {
 }
 
 String String::trim() const {
-	size_t first = this->original.find_first_not_of(' ');
+	size_t first = this->original.find_first_not_of(" \t\n\v\f\r");
 	if (std::string::npos == first) {
 		return "";
 	}
-	size_t last = this->original.find_last_not_of(' ');
+	size_t last = this->original.find_last_not_of(" \t\n\v\f\r");
 	return this->original.substr(first, (last - first + 1));
 }
 
-- 
2.43.0


From e1e8e63d11bef40c40982420da46c6f7fa93414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 014/141] fix: String.toUpperCase and toLowerCase dropped text

---
 library/Java/Lang/String/String.cpp | 36 +++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 8eccd75..0863dbe 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -32,14 +32,16 @@
 
 using namespace Java::Lang;
 
-std::wstring multiByteStringToWideString(const std::string &input) {
+std::wstring multiByteStringToWideString(const std::string &input, bool &isValid) {
+    isValid = true;
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
-        return convertToWstring.from_bytes(input.c_str());
+        return convertToWstring.from_bytes(input);
     } catch (std::exception &exception) {
-        std::wstring emptyString;
-        return emptyString;
+        // Not UTF-8: keep every byte, only ASCII letters are mapped
+        isValid = false;
+        return std::wstring();
     }
 }
 
@@ -47,7 +49,7 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
-        return convertToString.to_bytes(input.c_str());
+        return convertToString.to_bytes(input);
     } catch (std::exception &exception) {
         std::string emptyString;
         return emptyString;
@@ -55,13 +57,33 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
 }
 
 std::string toUpper(const std::string &input) {
-	std::wstring wideString = multiByteStringToWideString(input);
+	bool isValid = true;
+	std::wstring wideString = multiByteStringToWideString(input, isValid);
+    if (!isValid) {
+        std::string result = input;
+        for (char &character : result) {
+            if (character >= 'a' && character <= 'z') {
+                character = (char) (character - 'a' + 'A');
+            }
+        }
+        return result;
+    }
     std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
 	return wideStringToMultiByteString(wideString);
 }
 
 std::string toLower(const std::string &input) {
-    std::wstring wideString = multiByteStringToWideString(input);
+    bool isValid = true;
+    std::wstring wideString = multiByteStringToWideString(input, isValid);
+    if (!isValid) {
+        std::string result = input;
+        for (char &character : result) {
+            if (character >= 'A' && character <= 'Z') {
+                character = (char) (character - 'A' + 'a');
+            }
+        }
+        return result;
+    }
     std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
     return wideStringToMultiByteString(wideString);
 }
-- 
2.43.0


From bb1c13017b2641c0eddc4e6fed939314fffce90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 015/141] fix: String.valueOf(const_string) crashed on a null
 pointer

---
 library/Java/Lang/String/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 0863dbe..d729443 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -933,7 +933,7 @@ String String::format(const String &format) {
 }
 
 String String::valueOf(const_string constStringValue) {
-	if (std::string(constStringValue).empty()) {
+	if (constStringValue == nullptr) {
 		return (string) "";
 	}
 	return constStringValue;
-- 
2.43.0


From 5daaba3d1027145155753cb0721d37da8e1d000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 016/141] fix: String.format read past its buffer on long
 results

---
 library/Java/Lang/String/String.cpp | 114 ++++++----------------------
 1 file changed, 24 insertions(+), 90 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index d729443..00be89c 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -32,7 +32,7 @@
 
 using namespace Java::Lang;
 
-std::wstring multiByteStringToWideString(const std::string &input, bool &isValid) {
+std::wstring multiByteStringToWideString(const std::string &input, bool &isValid) {
     isValid = true;
     setlocale(LC_CTYPE, "");
     try {
@@ -733,6 +733,18 @@ Array<String> String::split(const String &regex, int limit) const {
 	return strings;
 }
 
+template<typename T>
+static std::string formatValue(const_string format, T value) {
+	const int length = snprintf(nullptr, 0, format, value);
+	if (length <= 0) {
+		return std::string();
+	}
+	std::string result((std::size_t) length + 1, '\0');
+	snprintf(&result[0], result.size(), format, value);
+	result.resize((std::size_t) length);
+	return result;
+}
+
 String String::print(const String &format, bool value) {
 	if (format.original == "%b") {
 		return (value ? "true" : "false");
@@ -744,125 +756,47 @@ String String::print(const String &format, bool value) {
 }
 
 String String::print(const String &format, short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, long long value) {
-    String result;
-    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-    if (length > 0) {
-        result = String(buffer, length);
-    }
-    return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, double value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, float value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, const_string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return formatValue(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, Boolean value) {
-- 
2.43.0


From dfec61869ea2f5aef7d3b353cff6d5d23bc08f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 017/141] fix: String.format trusted the pattern about the type
 of its argument

---
 library/Java/Lang/String/String.cpp | 37 +++++++++++++++++++++--------
 library/Java/Lang/String/String.hpp |  6 ++++-
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 00be89c..b49c9c4 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -745,6 +745,21 @@ static std::string formatValue(const_string format, T value) {
 	return result;
 }
 
+template<typename T>
+static std::string formatNumber(std::string format, const_string lengthModifier, T value) {
+	const char conversion = format[format.size() - 1];
+	format.erase(format.find_last_not_of('l', format.size() - 2) + 1);
+	if (conversion == 's') {
+		// Any value has a text
+		return formatValue((format + conversion).c_str(), std::to_string(value).c_str());
+	}
+	if (conversion == 'c') {
+		return formatValue((format + conversion).c_str(), (int) value);
+	}
+	// The length modifier has to describe the type of the value
+	return formatValue((format + lengthModifier + conversion).c_str(), value);
+}
+
 String String::print(const String &format, bool value) {
 	if (format.original == "%b") {
 		return (value ? "true" : "false");
@@ -756,39 +771,39 @@ String String::print(const String &format, bool value) {
 }
 
 String String::print(const String &format, short value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "", value);
 }
 
 String String::print(const String &format, int value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "", value);
 }
 
 String String::print(const String &format, long value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "l", value);
 }
 
 String String::print(const String &format, long long value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "ll", value);
 }
 
 String String::print(const String &format, unsigned short value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "", value);
 }
 
 String String::print(const String &format, unsigned int value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "", value);
 }
 
 String String::print(const String &format, unsigned long value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "l", value);
 }
 
 String String::print(const String &format, double value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "", value);
 }
 
 String String::print(const String &format, float value) {
-	return formatValue(format.toCharPointer(), value);
+	return formatNumber(format.toSTLString(), "", value);
 }
 
 String String::print(const String &format, string value) {
@@ -851,7 +866,9 @@ String String::format(const String &format) {
 		}
 		if (matchedStringLength > 0) {
 			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);
-			if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
+			if (matchedString.charAt(matchedString.getSize() - 1) == 'n') {
+				result += "\n";
+			} else if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
 				regfree(&regex);
 				throw InterruptedException("Missing arguments.");
 			} else {
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 69c8461..e2c959d 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -1190,7 +1190,8 @@ namespace Java {
                         String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);
                         result += printObject(matchedString, value);
 
-                        if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
+                        if (matchedString.charAt(matchedString.getSize() - 1) != '%' &&
+                            matchedString.charAt(matchedString.getSize() - 1) != 'n') {
                             String remainString(inputStringPtr + matchedResult[0].rm_eo,
                                                 inputStringLength - matchedResult[0].rm_eo);
                             try {
@@ -1261,6 +1262,9 @@ namespace Java {
                     case '%':
                         result += lastChar;
                         break;
+                    case 'n':
+                        result += '\n';
+                        break;
                     default:
                         result = print(format, value);
                         break;
-- 
2.43.0


From 3fc47ea24ee196b7f50c80fd968ed7c43d1b2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 018/141] fix: String.format dropped booleans formatted with a
 width or %s

---
 library/Java/Lang/String/String.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b49c9c4..0a3a66f 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -761,11 +761,13 @@ static std::string formatNumber(std::string format, const_string lengthModifier,
 }
 
 String String::print(const String &format, bool value) {
-	if (format.original == "%b") {
-		return (value ? "true" : "false");
+	const char conversion = format.charAt(format.length() - 1);
+	const std::string prefix = format.original.substr(0, format.original.size() - 1);
+	if (conversion == 'b' || conversion == 's') {
+		return formatValue((prefix + 's').c_str(), value ? "true" : "false");
 	}
-	if (format.original == "%B") {
-		return (value ? "TRUE" : "FALSE");
+	if (conversion == 'B') {
+		return formatValue((prefix + 's').c_str(), value ? "TRUE" : "FALSE");
 	}
 	return "";
 }
-- 
2.43.0


From 790b2ca137aebbcc877c2371b52e0bbac41d3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 019/141] fix: case mapping dropped an incomplete UTF-8
 sequence at the end

---
 library/Java/Lang/String/String.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 0a3a66f..141da65 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -37,7 +37,9 @@ std::wstring multiByteStringToWideString(const std::string &input, bool &isValid
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
-        return convertToWstring.from_bytes(input);
+        std::wstring result = convertToWstring.from_bytes(input);
+        isValid = (convertToWstring.converted() == input.size());
+        return result;
     } catch (std::exception &exception) {
         // Not UTF-8: keep every byte, only ASCII letters are mapped
         isValid = false;
-- 
2.43.0


From 24c7a5e72f17035b2a7a03402897042b2659cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 020/141] fix: StringBuilder.indexOf and lastIndexOf missed
 occurrences

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp | 34 ++++++-------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..60e5a85 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -735,7 +735,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 	}
 	
 	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(target);
+	int *nextTable = this->initializeNextTable(pattern);
 	if (nextTable == nullptr) {
 		return -1;
 	}
@@ -750,7 +750,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 			position = position + 1;
 		} else {
 			if (nextTable[ position ] > -1) {
-				startIndex = startIndex + position;
+				startIndex = startIndex + position - nextTable[ position ];
 				position = nextTable[ position ];
 			} else {
 				startIndex = startIndex + 1;
@@ -771,42 +771,28 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return -1;
 	}
 	
-	int rightIndex = lengthOfTarget - lengthOfPattern;
-	if (startIndex < rightIndex) {
-		startIndex = rightIndex;
-	}
-	
 	// Empty string always matches.
 	if (lengthOfPattern == 0) {
-		return startIndex;
+		return startIndex < lengthOfTarget ? startIndex : lengthOfTarget;
 	}
-	
-	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(pattern);
-	if (nextTable == nullptr) {
-		return -1;
+
+	if (startIndex > lengthOfTarget - 1) {
+		startIndex = lengthOfTarget - 1;
 	}
-	
+
 	int position = 0;
 	while (startIndex - position >= 0) {
 		if (pattern[ lengthOfPattern - position - 1 ] == target[ startIndex - position ]) {
 			if (position == lengthOfPattern - 1) {
-				free(nextTable);
 				return startIndex - lengthOfPattern + 1;
 			}
 			position = position + 1;
 		} else {
-			if (nextTable[ position ] > -1) {
-				startIndex = startIndex - position;
-				position = nextTable[ position ];
-			} else {
-				startIndex = startIndex - 1;
-				position = 0;
-			}
+			startIndex = startIndex - 1;
+			position = 0;
 		}
 	}
-	
-	free(nextTable);
+
 	return -1;
 }
 
-- 
2.43.0


From db5bbf00b6fce1dff630f2b442a1802e2a0a868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 021/141] fix: StringBuilder.substring, indexOf and lastIndexOf
 stopped at a NUL character

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 60e5a85..559587a 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -329,11 +329,11 @@ void StringBuilder::ensureCapacity(int minimumCapacity) {
 //}
 
 int StringBuilder::indexOf(const String target) const {
-	return this->stringMatches(this->toString(), target, 0);
+	return this->stringMatches(this->substring(0), target, 0);
 }
 
 int StringBuilder::indexOf(const String target, int fromIndex) const {
-	return this->stringMatches(this->toString(), target, fromIndex);
+	return this->stringMatches(this->substring(0), target, fromIndex);
 }
 
 StringBuilder &StringBuilder::insert(int offset, boolean target) {
@@ -524,11 +524,11 @@ StringBuilder &StringBuilder::insert(int offset, const String target) {
 }
 
 int StringBuilder::lastIndexOf(String target) const {
-	return this->stringMatchesReverse(this->toString(), target, this->currentLength);
+	return this->stringMatchesReverse(this->substring(0), target, this->currentLength);
 }
 
 int StringBuilder::lastIndexOf(String target, int fromIndex) const {
-	return this->stringMatchesReverse(this->toString(), target, fromIndex);
+	return this->stringMatchesReverse(this->substring(0), target, fromIndex);
 }
 
 int StringBuilder::length() const {
@@ -648,7 +648,7 @@ String StringBuilder::substring(int start, int end) const {
 		indexOfSubString = indexOfSubString + 1;
 	}
 	copyOfSubString[ indexOfSubString ] = '\0';
-	String result(copyOfSubString);
+	String result(copyOfSubString, lengthOfSubString - 1);
 	free(copyOfSubString);
 	return result;
 }
-- 
2.43.0


From d4b2d179f717fbe09d99aa67049f558e3be37892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 022/141] fix: StringBuilder.codePointCount counted from the
 start of the text

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 559587a..f1ecc42 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -257,7 +257,7 @@ int StringBuilder::codePointCount(int beginIndex, int endIndex) {
 	int numberOfCharacters = endIndex - beginIndex;
 	int index;
 	int stopIndex = beginIndex + numberOfCharacters;
-	for (index = 0; index < stopIndex; index++) {
+	for (index = beginIndex; index < stopIndex; index++) {
 		originalArray.push(this->original[ index ]);
 	}
 	int result = Character::codePointCount(originalArray, 0, numberOfCharacters);
-- 
2.43.0


From 666027d91aab5f9bb0f0533fd2cc44341d13f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 023/141] fix: StringBuilder had no assignment operator

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 13 +++++++++++++
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index f1ecc42..ca140ca 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -77,6 +77,19 @@ StringBuilder::~StringBuilder() {
 	free(original);
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	if (this != &target) {
+		this->currentLength = 0;
+		this->ensureCapacity(target.currentLength);
+		int index;
+		for (index = 0; index < target.currentLength; index++) {
+			this->original[ index ] = target.original[ index ];
+		}
+		this->currentLength = target.currentLength;
+	}
+	return *this;
+}
+
 StringBuilder &StringBuilder::append(Boolean target) {
 	return this->append(target.toString());
 }
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..210bb9d 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -102,6 +102,14 @@ namespace Java {
 						 * StringBuilder Destructor
 						 */
                         virtual ~StringBuilder();
+
+                        /**
+						 * Assign the content of another StringBuilder.
+						 *
+						 * @param target
+						 * @return StringBuilder
+						 */
+                        StringBuilder &operator=(const StringBuilder &target);
                 
                 public:
                         /**
-- 
2.43.0


From bfaeec781d894f99307509cd98a04e406060294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 024/141] fix: StringBuilder.insert of an array range accepted
 an overflowing range

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index ca140ca..b86095e 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -394,7 +394,7 @@ StringBuilder &StringBuilder::insert(int index, const Array<char> &target, int o
 	}
 	
 	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || offset > target.length - length) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
@@ -422,7 +422,7 @@ StringBuilder &StringBuilder::insert(int index, const Array<Character> &target,
 	}
 	
 	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || offset > target.length - length) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-- 
2.43.0


From 38cabfd33e2385bae4f6712bdd8cecd652b2df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 025/141] fix: StringBuilder.deleteRange, deleteCharAt, replace
 and reverse returned copies

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 8 ++++----
 library/Java/Lang/StringBuilder/StringBuilder.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index b86095e..e40b8a0 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -277,7 +277,7 @@ int StringBuilder::codePointCount(int beginIndex, int endIndex) {
 	return result;
 }
 
-StringBuilder StringBuilder::deleteRange(int start, int end) {
+StringBuilder &StringBuilder::deleteRange(int start, int end) {
 	if (start < 0) {
 		throw StringIndexOutOfBoundsException(start);
 	}
@@ -298,7 +298,7 @@ StringBuilder StringBuilder::deleteRange(int start, int end) {
 	return *this;
 }
 
-StringBuilder StringBuilder::deleteCharAt(int index) {
+StringBuilder &StringBuilder::deleteCharAt(int index) {
 	if (index < 0 || index >= this->currentLength) {
 		throw StringIndexOutOfBoundsException(index);
 	}
@@ -556,7 +556,7 @@ int StringBuilder::length() const {
 //	throw UnsupportedOperationException();
 //}
 
-StringBuilder StringBuilder::replace(int start, int end, const String target) {
+StringBuilder &StringBuilder::replace(int start, int end, const String target) {
 	if (start < 0) {
 		throw StringIndexOutOfBoundsException(start);
 	}
@@ -588,7 +588,7 @@ StringBuilder StringBuilder::replace(int start, int end, const String target) {
 	return *this;
 }
 
-StringBuilder StringBuilder::reverse() {
+StringBuilder &StringBuilder::reverse() {
 	boolean hasSurrogates = false;
 	int index;
 	int oppositeIndex;
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 210bb9d..430ffa3 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -394,7 +394,7 @@ namespace Java {
 						 * @return StringBuilder
 						 * @throw StringIndexOutOfBoundsException - if start is negative, greater than length(), or greater than end.
 						 */
-                        StringBuilder deleteRange(int start, int end);
+                        StringBuilder &deleteRange(int start, int end);
                         
                         /**
 						 * Removes the char at the specified position in this sequence.
@@ -404,7 +404,7 @@ namespace Java {
 						 * @return StringBuilder
 						 * @throw StringIndexOutOfBoundsException - if the index is negative or greater than or equal to length().
 						 */
-                        StringBuilder deleteCharAt(int index);
+                        StringBuilder &deleteCharAt(int index);
                         
                         /**
 						 * Ensures that the capacity is at least equal to the specified minimum.
@@ -726,7 +726,7 @@ namespace Java {
 						 * @param target
 						 * @return StringBuilder
 						 */
-                        StringBuilder replace(int start, int end, const String target);
+                        StringBuilder &replace(int start, int end, const String target);
                         
                         /**
 						 * Causes this character sequence to be replaced by the reverse of the sequence.
@@ -734,7 +734,7 @@ namespace Java {
 						 *
 						 * @return StringBuilder
 						 */
-                        StringBuilder reverse();
+                        StringBuilder &reverse();
                         
                         /**
 						 * The character at the specified index is set to target.
-- 
2.43.0


From 82bf279b7500cd65af8d6ac31b0c859d1ad5a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 026/141] fix: StringBuilder appended and inserted string
 literals as "true"

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp  |  8 ++++++++
 .../Java/Lang/StringBuilder/StringBuilder.hpp  | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index e40b8a0..4a6e173 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -194,6 +194,10 @@ StringBuilder &StringBuilder::append(String target) {
 	return *this;
 }
 
+StringBuilder &StringBuilder::append(const_string target) {
+	return this->append(String(target));
+}
+
 StringBuilder &StringBuilder::append(const Double target) {
 	return this->append(target.toString());
 }
@@ -510,6 +514,10 @@ StringBuilder &StringBuilder::insert(int offset, long target) {
 	return this->insert(offset, Long(target));
 };
 
+StringBuilder &StringBuilder::insert(int offset, const_string target) {
+	return this->insert(offset, String(target));
+}
+
 StringBuilder &StringBuilder::insert(int offset, const String target) {
 	if (offset < 0 || offset > this->currentLength) {
 		throw StringIndexOutOfBoundsException(offset);
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 430ffa3..14c5b00 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -226,6 +226,14 @@ namespace Java {
 						 * @return
 						 */
                         StringBuilder &append(String target);
+
+                        /**
+						 * Appends a null-terminated string to this sequence.
+						 *
+						 * @param target
+						 * @return StringBuilder
+						 */
+                        StringBuilder &append(const_string target);
                         
                         /**
 						 * Appends the string representation of the Double argument to this sequence.
@@ -672,6 +680,16 @@ namespace Java {
 						 * @throw StringIndexOutOfBoundsException - if the offset is invalid.
 						 */
                         StringBuilder &insert(int offset, const String target);
+
+                        /**
+						 * Inserts a null-terminated string into this sequence.
+						 *
+						 * @param offset
+						 * @param target
+						 * @return StringBuilder
+						 * @throw StringIndexOutOfBoundsException - if the offset is invalid.
+						 */
+                        StringBuilder &insert(int offset, const_string target);
                         
                         /**
 						 * This method accepts a String as an argument, if the string argument occurs one or more times as a substring within this object,
-- 
2.43.0


From 71309bfe63226ccecf8ee6e001ff5b5b13c4cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 027/141] fix: StringBuffer text was not terminated

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index db6cdf7..1cc0970 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -39,13 +39,13 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
     }
 
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
     this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(originalString);
 }
@@ -57,7 +57,7 @@ StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
         this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
     }
 
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(sequence);
 }
@@ -67,6 +67,7 @@ int StringBufferUnSafe::capacity() const {
 }
 
 string StringBufferUnSafe::getValue() const {
+    this->original[this->currentLength] = '\0';
     return this->original;
 }
 
@@ -103,7 +104,7 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         this->currentCapacity = newCapacity;
     } while (newCapacity < minimumCapacity);
 
-    int newSize = newCapacity * sizeof(char);
+    int newSize = (newCapacity + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
 }
 
@@ -151,7 +152,7 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -203,7 +204,7 @@ StringBufferUnSafe &StringBufferUnSafe::append(char charValue) {
 
 StringBufferUnSafe &
 StringBufferUnSafe::append(const StringBufferUnSafe &stringBufferUnSafe) {
-    return this->append(stringBufferUnSafe.getValue());
+    return this->append(stringBufferUnSafe.toString());
 }
 
 StringBufferUnSafe &StringBufferUnSafe::appendCodePoint(int codePoint) {
@@ -634,14 +635,14 @@ String StringBufferUnSafe::subString(int start, int end) const {
 }
 
 String StringBufferUnSafe::toString() const {
-    return this->original;
+    return String(this->original, this->currentLength);
 }
 
 void StringBufferUnSafe::trimToSize() {
     if (this->currentCapacity <= this->currentLength) {
         return;
     }
-    int newSize = this->currentLength * sizeof(char);
+    int newSize = (this->currentLength + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
     this->currentCapacity = this->currentLength;
 }
@@ -649,7 +650,7 @@ void StringBufferUnSafe::trimToSize() {
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -679,7 +680,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -973,7 +974,7 @@ void StringBuffer::trimToSize() {
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
-- 
2.43.0


From 1c7f7f7f79a24a957696a35ce4f78227dbd08cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 028/141] fix: StringBuffer.deletes, deleteCharAt and replace
 moved the wrong number of characters

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 1cc0970..31aacaf 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -322,11 +322,11 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
 
     if (end > this->currentLength) {
         fromPosition = this->original + this->currentLength;
-        memorySizeToMove = this->currentLength * sizeof(char);
+        memorySizeToMove = 0;
         this->currentLength = start;
     } else {
         fromPosition = this->original + end;
-        memorySizeToMove = (this->currentLength - start) * sizeof(char);
+        memorySizeToMove = (this->currentLength - end) * sizeof(char);
         this->currentLength -= (end - start);
     }
 
@@ -347,7 +347,7 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
     // move block of memory from index + 1 to index
     string fromPosition = this->original + index + 1;
     string toPosition = this->original + index;
-    int memorySizeToMove = (this->currentLength - index) * sizeof(char);
+    int memorySizeToMove = (this->currentLength - index - 1) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
     return *this;
@@ -516,16 +516,16 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
     int newLength =
             this->currentLength + stringToReplace.length() - end + start;
     this->ensureCapacity(newLength);
-    this->currentLength = newLength;
 
     string fromPosition = this->original + end;
     string toPosition = this->original + start + stringToReplace.length();
-    int memorySizeToMove = stringToReplace.length() * sizeof(char);
+    int memorySizeToMove = (this->currentLength - end) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
 
     string insertPosition = this->original + start;
     memcpy(insertPosition, stringToReplace.toCharPointer(),
-           (size_t) memorySizeToMove);
+           stringToReplace.length() * sizeof(char));
+    this->currentLength = newLength;
 
     return *this;
 }
-- 
2.43.0


From b8d2f667949f1095185040d4b53c53e8ddc059a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 029/141] fix: StringBuffer.setLength wrote one character too
 many

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 31aacaf..d4c0a8f 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -586,11 +586,7 @@ void StringBufferUnSafe::setLength(int newLength) {
     int oldLength = this->currentLength;
     if (newLength > this->currentLength) {
         this->ensureCapacity(newLength);
-        for (oldLength; oldLength <= newLength; oldLength++) {
-            this->original[oldLength] = '\0';
-        }
-    } else {
-        for (oldLength; oldLength >= newLength; oldLength--) {
+        for (oldLength; oldLength < newLength; oldLength++) {
             this->original[oldLength] = '\0';
         }
     }
-- 
2.43.0


From 77f283bcc37ba04297c171b62d82d4cc187f4040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 030/141] fix: StringBuffer.indexOf and lastIndexOf misjudged
 boundaries

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 44 +++++++------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index d4c0a8f..ef90ab2 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -368,27 +368,20 @@ StringBufferUnSafe::~StringBufferUnSafe() {
 }*/
 
 int StringBufferUnSafe::indexOf(const String &stringToGetIndex) const {
-    return indexOf(stringToGetIndex.toCharPointer(), 0);
+    return indexOf(stringToGetIndex, 0);
 }
 
 int StringBufferUnSafe::indexOf(const String &stringToGetIndex, int fromIndex) const {
-    std::string originalString = this->original;
+    std::string originalString(this->original, (size_t) this->currentLength);
+    std::string target(stringToGetIndex.toCharPointer(), (size_t) stringToGetIndex.length());
     if (fromIndex < 0) {
-        return this->indexOf(stringToGetIndex);
+        fromIndex = 0;
     }
-    if (originalString.size() == 0 || stringToGetIndex == "") {
-        return -1;
-    }
-    if (fromIndex > (originalString.size() - 1)||(originalString.size()) < (stringToGetIndex.length())){
-        return -1;
-    }
-    std::string stringFromIndex=originalString.substr(fromIndex);
-    std::size_t found = stringFromIndex.find(stringToGetIndex.toString().toCharPointer());
-    if (found != std::string::npos) {
-        return (found + fromIndex);
-    } else {
-        return -1;
+    if (fromIndex > this->currentLength) {
+        fromIndex = this->currentLength;
     }
+    std::size_t found = originalString.find(target, (size_t) fromIndex);
+    return found != std::string::npos ? (int) found : -1;
 }
 
 StringBufferUnSafe &StringBufferUnSafe::insert(int offset, float floatValue) {
@@ -470,25 +463,18 @@ StringBufferUnSafe::insert(int destinationOffset, const CharSequence &sequence,
 }
 
 int StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex) const {
-    String originalString = this->original;
-    return originalString.lastIndexOf(stringToGetIndex);
+    return this->lastIndexOf(stringToGetIndex, this->currentLength);
 }
 
 int
 StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex, int fromIndex) const {
-    String reversedString = StringBuilder(stringToGetIndex).reverse();
-    String reversedOriginalString = StringBuilder(this->original).reverse();
-
-    int substringIndex = this->length() - fromIndex - stringToGetIndex.length();
-    reversedOriginalString = reversedOriginalString.getStringFromIndex(substringIndex);
-    int result = reversedOriginalString.indexOf(reversedString);
-
-    // Calculate result with original
-    if (result == -1) {
-        return result;
+    if (fromIndex < 0) {
+        return -1;
     }
-    result = reversedOriginalString.length() - stringToGetIndex.length() - result;
-    return result;
+    std::string originalString(this->original, (size_t) this->currentLength);
+    std::string target(stringToGetIndex.toCharPointer(), (size_t) stringToGetIndex.length());
+    std::size_t found = originalString.rfind(target, (size_t) fromIndex);
+    return found != std::string::npos ? (int) found : -1;
 }
 
 int
-- 
2.43.0


From 62e3e12115abb39697e9f4df41020979155619c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 031/141] fix: StringBuffer.subString rejected the empty range
 at the end and stopped at a NUL

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index ef90ab2..d288ed2 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -601,7 +601,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
         throw StringIndexOutOfBoundsException("start and end must be positive");
     }
 
-    if (start >= this->currentLength || end > this->currentLength ||
+    if (start > this->currentLength || end > this->currentLength ||
         start > end) {
         throw StringIndexOutOfBoundsException();
     }
@@ -611,7 +611,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
                                           sizeof(char));
     int memorySizeToCopy = resultStringLength * sizeof(char);
     memcpy(resultString, this->original + start, (size_t) memorySizeToCopy);
-    String result = String(resultString);
+    String result = String(resultString, resultStringLength);
     free(resultString);
     return result;
 }
-- 
2.43.0


From 381d5f2020316335f43b385277fa34262e647cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 032/141] fix: StringBuffer inserted a CharSequence or string
 literal as "true"

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp |  6 +++++-
 library/Java/Lang/StringBuffer/StringBuffer.hpp | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index d288ed2..2afacff 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -840,6 +840,10 @@ StringBuffer &StringBuffer::insert(int offset, const String &stringToInsert) {
     return *this;
 }
 
+StringBuffer &StringBuffer::insert(int offset, const_string stringToInsert) {
+    return this->insert(offset, String(stringToInsert));
+}
+
 StringBuffer &StringBuffer::insert(int offset, char charValue) {
     std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::insert(offset, charValue);
@@ -880,7 +884,7 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(offset, &charSequence);
+    StringBufferUnSafe::insert(offset, charSequence.toString());
     return *this;
 }
 
diff --git a/library/Java/Lang/StringBuffer/StringBuffer.hpp b/library/Java/Lang/StringBuffer/StringBuffer.hpp
index 2477246..a71cb7f 100644
--- a/library/Java/Lang/StringBuffer/StringBuffer.hpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.hpp
@@ -999,6 +999,16 @@ namespace Java {
              */
             StringBuffer &insert(int offset, const String &stringToInsert);
 
+            /**
+             * Inserts a null-terminated string into this character sequence
+             *
+             * @param offset
+             * @param stringToInsert
+             * @throw StringIndexOutOfBoundsException if the offset is invalid.
+             * @return a reference to this StringBuffer.
+             */
+            StringBuffer &insert(int offset, const_string stringToInsert);
+
             /**
              * Inserts the string representation of the char argument into this sequence.
              * The offset argument must be greater than or equal to 0,
-- 
2.43.0


From cea626bb2c76c4ad301610e96d224bcaeace97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 033/141] fix: StringBuffer range checks overflowed

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 2afacff..4f52348 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -118,7 +118,7 @@ int StringBufferUnSafe::length() const {
 
 StringBufferUnSafe &
 StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
-    if (offset < 0 || len < 0 || (offset + len) > stringToAppend.length()) {
+    if (offset < 0 || len < 0 || offset > stringToAppend.length() - len) {
         throw IndexOutOfBoundsException();
     }
 
@@ -135,7 +135,7 @@ StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
     if (index < 0 || index > length() || offset < 0
-        || len < 0 || (offset + len) > stringToInsert.length()) {
+        || len < 0 || offset > stringToInsert.length() - len) {
         throw StringIndexOutOfBoundsException();
     }
 
-- 
2.43.0


From b92c759581f6d468205b550f2f3bcabf9185d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 034/141] fix: StringBuffer.codePointCount read the character
 behind the range

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 4f52348..3f46ad6 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -293,9 +293,9 @@ int StringBufferUnSafe::codePointCount(int beginIndex, int endIndex) const {
 
     int codePointCount = endIndex - beginIndex;
     for (beginIndex; beginIndex < endIndex; beginIndex++) {
-        if (Character::isHighSurrogate(this->original[beginIndex + 1]) &&
-            beginIndex < endIndex
-            && Character::isLowSurrogate(this->original[beginIndex])) {
+        if (Character::isHighSurrogate(this->original[beginIndex]) &&
+            beginIndex + 1 < endIndex
+            && Character::isLowSurrogate(this->original[beginIndex + 1])) {
             codePointCount--;
             beginIndex++;
         }
-- 
2.43.0


From 2c9a59e272c97968a136126316f6069190caebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 035/141] fix: StringBuffer read shared state without its lock

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 3f46ad6..10bd583 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -122,7 +122,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
         throw IndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string appendPosition = this->original + this->currentLength;
     string startIndex = stringToAppend.toCharPointer() + offset;
     int memorySizeToMove = len * sizeof(char);
@@ -134,12 +134,12 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
 StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
-    if (index < 0 || index > length() || offset < 0
+    if (index < 0 || index > this->currentLength || offset < 0
         || len < 0 || offset > stringToInsert.length() - len) {
         throw StringIndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string insertPosition = this->original + index;
     string newTailStart = this->original + index + len;
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
@@ -631,6 +631,9 @@ void StringBufferUnSafe::trimToSize() {
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
+    if (this == &other) {
+        return *this;
+    }
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -660,7 +663,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 }
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -745,8 +748,9 @@ StringBuffer &StringBuffer::appendCodePoint(int codePoint) {
 }
 
 StringBuffer &StringBuffer::append(const StringBuffer &stringBuffer) {
+    String text = stringBuffer.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(stringBuffer);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -782,10 +786,12 @@ StringBuffer &StringBuffer::deletes(int start, int end) {
 }
 
 void StringBuffer::ensureCapacity(int minimumCapacity) {
+    std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::ensureCapacity(minimumCapacity);
 }
 
 String StringBuffer::getValue() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::getValue();
 }
 
@@ -802,6 +808,7 @@ StringBuffer &StringBuffer::deleteCharAt(int index) {
 }
 
 int StringBuffer::length() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::length();
 }
 
@@ -958,7 +965,12 @@ void StringBuffer::trimToSize() {
 }
 
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    if (this == &other) {
+        return *this;
+    }
+    std::lock(this->mutex, other.mutex);
+    std::lock_guard<std::mutex> guard(this->mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> otherGuard(other.mutex, std::adopt_lock);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
-- 
2.43.0


From 05f6d3f8ea7366f94981bca63e40a81986c84b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 036/141] fix: StringBuffer deadlocked when given itself as a
 CharSequence

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 10bd583..0a12fe5 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -700,8 +700,9 @@ StringBuffer &StringBuffer::append(boolean boolValue) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence) {
+    String text = &sequence == nullptr ? String("null") : sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -736,8 +737,9 @@ StringBuffer &StringBuffer::append(string stringToAppend, int offset, int len) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence, int start, int end) {
+    String text = &sequence == nullptr ? String("null") : sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence, start, end);
+    StringBufferUnSafe::append((const CharSequence &) text, start, end);
     return *this;
 }
 
@@ -872,8 +874,9 @@ StringBuffer &StringBuffer::insert(int offset, double doubleValue) {
 StringBuffer &
 StringBuffer::insert(int destinationOffset, const CharSequence &sequence, int start,
                      int end) {
+    String text = &sequence == nullptr ? String("null") : sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(destinationOffset, sequence, start, end);
+    StringBufferUnSafe::insert(destinationOffset, (const CharSequence &) text, start, end);
     return *this;
 }
 
@@ -890,8 +893,9 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 }
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
+    String text = charSequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(offset, charSequence.toString());
+    StringBufferUnSafe::insert(offset, text);
     return *this;
 }
 
-- 
2.43.0


From 2cd229c691f725b53d193c5ab45e3bd942fe511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 037/141] fix: StringBuffer ignored an appended NUL character
 and cut texts at it

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 0a12fe5..e746045 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -199,7 +199,7 @@ StringBufferUnSafe &StringBufferUnSafe::append(boolean boolValue) {
 }
 
 StringBufferUnSafe &StringBufferUnSafe::append(char charValue) {
-    return this->append(String::valueOf(charValue).toString());
+    return this->append(String(&charValue, 1));
 }
 
 StringBufferUnSafe &
@@ -417,7 +417,7 @@ StringBufferUnSafe::insert(int offset, string stringToInsert) {
 }
 
 StringBufferUnSafe &StringBufferUnSafe::insert(int offset, char charValue) {
-    String value = String::valueOf(charValue);
+    String value(&charValue, 1);
     return this->insert(offset, value.toString(), 0, value.length());
 }
 
-- 
2.43.0


From 9dd28580dac54ce4d7808050e0eefe7b698830fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 038/141] fix: String(StringBuffer) dropped the text behind a
 NUL

---
 library/Java/Lang/String/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 141da65..9598736 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -129,7 +129,7 @@ String::String(const StringBuilder &stringBuilder) {
 }
 
 String::String(const StringBuffer &stringBuffer) {
-	this->original = std::string(stringBuffer.getValue().toCharPointer());
+	this->original = stringBuffer.toString().original;
 }
 
 String::String(const Array<char> &array, int offset, int length) {
-- 
2.43.0


From c33bcffa62b85addef485decc2f597a14088abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 039/141] fix: Character.digit knew only decimal and lower-case
 hexadecimal digits

---
 library/Java/Lang/Character/Character.cpp | 75 ++++-------------------
 1 file changed, 12 insertions(+), 63 deletions(-)

diff --git a/library/Java/Lang/Character/Character.cpp b/library/Java/Lang/Character/Character.cpp
index 7744625..a151460 100755
--- a/library/Java/Lang/Character/Character.cpp
+++ b/library/Java/Lang/Character/Character.cpp
@@ -515,69 +515,18 @@ int Character::toCodePoint(unicode high, unicode low) {
 }
 
 int Character::digit(int codePoint, int radix) {
-	if (radix == 10) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			default:
-				return -1;
-		}
+	if (radix < MIN_RADIX || radix > MAX_RADIX) {
+		return -1;
 	}
-	if (radix == 16) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			case (int) 'a':
-				return 10;
-			case (int) 'b':
-				return 11;
-			case (int) 'c':
-				return 12;
-			case (int) 'd':
-				return 13;
-			case (int) 'e':
-				return 14;
-			case (int) 'f':
-				return 15;
-			default:
-				return -1;
-		}
+	
+	int value = -1;
+	if (codePoint >= '0' && codePoint <= '9') {
+		value = codePoint - '0';
+	} else if (codePoint >= 'a' && codePoint <= 'z') {
+		value = codePoint - 'a' + 10;
+	} else if (codePoint >= 'A' && codePoint <= 'Z') {
+		value = codePoint - 'A' + 10;
 	}
-	return -1;
+	
+	return value < radix ? value : -1;
 }
-- 
2.43.0


From f60b0f23783d31a9f22912711cd7bec1095bb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 040/141] fix: Long.toString(long) always printed its first
 argument

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..c8c2bca 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -539,7 +539,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
+	Long result = i;
 	return result.toString();
 }
 
-- 
2.43.0


From 5385b107575a70fdcf2227532ae1c7d1427fc43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 041/141] fix: Long printed negative numbers in octal and
 hexadecimal with an arithmetic shift

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index c8c2bca..754cef6 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -605,7 +605,7 @@ int Long::formatUnsignedLong(long val, int shift, Array<char> &buf, int offset,
 	
 	do {
 		buf[ offset + --charPos ] = digits[ ((int) val ) & mask ];
-		val >>= shift;
+		val = (long) ((unsigned long) val >> shift);
 	} while (val != 0 && charPos > 0);
 	
 	return charPos;
-- 
2.43.0


From 58a4da4aceb925dbebfccfd67e8a9c0f0b1ea49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 042/141] fix: Long.decode negated the error value of the
 digits

---
 library/Java/Lang/Long/Long.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 754cef6..7e1d8a1 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -169,10 +169,8 @@ Long Long::decode(String target) {
 		return -1;
 	}
 	
-	result = Long::parseLong(target.getStringFromIndex(index), radix);
-	if (negative) {
-		result = -result.longValue();
-	}
+	String digits = target.subString(index);
+	result = Long::parseLong(negative ? String("-") + digits : digits, radix);
 	
 	return result;
 }
-- 
2.43.0


From 6d2fd01e4511bd0a4174943d4198146981d9e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 043/141] fix: Long.parseLong divided by a zero radix

---
 library/Java/Lang/Long/Long.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 7e1d8a1..5196249 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -386,6 +386,11 @@ long Long::parseLong(String s, int radix) {
 			index++;
 		}
 		
+		if (radix < 2 || radix > 36) {
+			//FIXME: exception
+			return -1;
+		}
+		
 		multmin = limit / radix;
 		while (index < length) {
 			// Accumulating negatively avoids surprises near MAX_VALUE
-- 
2.43.0


From dacf5d0975e190b6dd5638e8fc4589bced78e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 044/141] fix: Integer parsing accepted text that is not a
 numeral

---
 library/Java/Lang/Integer/Integer.cpp | 85 ++++++++++++++++-----------
 1 file changed, 51 insertions(+), 34 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..0d9e46d 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -28,12 +28,42 @@
 #include <string>
 #include "Integer.hpp"
 #include "../Math/Math.hpp"
+#include "../Character/Character.hpp"
 #include "../NumberFormatException/NumberFormatException.hpp"
 #include "../UnsupportedOperationException/UnsupportedOperationException.hpp"
 #include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
+// The value of a text that consists of digits of the radix only
+static unsigned long parseDigits(const String &digits, int radix, const_string outOfRangeMessage) {
+	int length = digits.length();
+	if (length == 0) {
+		throw NumberFormatException("Not a number");
+	}
+	
+	unsigned long result = 0;
+	boolean isOutOfRange = false;
+	int index;
+	for (index = 0; index < length; index++) {
+		int digit = Character::digit(digits.charAt(index), radix);
+		if (digit < 0) {
+			throw NumberFormatException("Not a number");
+		}
+		
+		result = result * radix + digit;
+		if (result > 0xffffffffUL) {
+			isOutOfRange = true;
+			result = 0;
+		}
+	}
+	
+	if (isOutOfRange) {
+		throw NumberFormatException(outOfRangeMessage);
+	}
+	return result;
+}
+
 Integer::Integer() {
 	this->original = 0;
 	asprintf(&this->originalString, "%d", this->original);
@@ -244,24 +274,26 @@ Integer Integer::decode(String inputString) {
 	boolean isNegative = false;
 	int base = 10;
 	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
+	if (sign == '-') {
 		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
+	}
+	if (sign == '-' || sign == '+') {
+		inputString = inputString.subString(1);
 	}
 	
-	if (inputString.charAt(0) == '0') {
-		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
-			base = 16;
-		} else {
-			base = 8;
-		}
+	if (inputString.startsWith("0x") || inputString.startsWith("0X")) {
+		base = 16;
+		inputString = inputString.subString(2);
+	} else if (inputString.startsWith("0") && inputString.length() > 1) {
+		base = 8;
+		inputString = inputString.subString(1);
 	}
 	
-	int result = parseInt(inputString, base);
-	if (isNegative) {
-		return static_cast<Integer>(-result);
+	if (inputString.length() == 0 || inputString.charAt(0) == '-' || inputString.charAt(0) == '+') {
+		throw NumberFormatException("Not a number");
 	}
-	return static_cast<Integer>(result);
+	
+	return parseInt(isNegative ? String("-") + inputString : inputString, base);
 }
 
 int Integer::divideUnsigned(int dividend, int divisor) {
@@ -367,22 +399,15 @@ int Integer::parseInt(String inputString, int radix) {
 	
 	boolean isNegative = false;
 	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
+	if (sign == '-') {
 		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	unsigned long unsignedResult = 0;
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	}
-	catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
 	}
-	catch (const std::out_of_range &e) {
-		throw NumberFormatException("Integer out of range");
+	if (sign == '-' || sign == '+') {
+		inputString = inputString.subString(1);
 	}
 	
+	unsigned long unsignedResult = parseDigits(inputString, radix, "Integer out of range");
+	
 	long result = unsignedResult;
 	
 	if (isNegative) {
@@ -422,19 +447,11 @@ int Integer::parseUnsignedInt(String inputString, int radix) {
 		}
 		
 		if (sign == '+') {
-			inputString = inputString.getStringFromIndex(1);
+			inputString = inputString.subString(1);
 		}
 	}
 	
-	unsigned long unsignedResult = 0;
-	
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	} catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
-	} catch (const std::out_of_range &e) {
-		throw NumberFormatException("Unsigned integer out of range");
-	}
+	unsigned long unsignedResult = parseDigits(inputString, radix, "Unsigned integer out of range");
 	
 	long result = unsignedResult;
 	
-- 
2.43.0


From f6202add4b85d5b306e0b3c628ce0ee5276a8b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 045/141] fix: Short.parseShort returned an indeterminate value
 for bad text

---
 library/Java/Lang/Short/Short.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..9b9226d 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,8 @@
  */
 
 #include "Short.hpp"
+#include "../Integer/Integer.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -71,9 +73,11 @@ Short::~Short() {
  * @return short
  */
 Short Short::parseShort(String target) {
-    short result;
-    sscanf(target.toCharPointer(), "%hi", &result);
-	return (Short) result;
+    int result = Integer::parseInt(target);
+    if (result < -32768 || result > 32767) {
+        throw NumberFormatException("Short out of range");
+    }
+	return (Short) (short) result;
 }
 
 /**
-- 
2.43.0


From f610b867de120459a2fa5100a714b279c3c42076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 046/141] fix: Bytes.valueOf used its cache after deleting it

---
 library/Java/Lang/Bytes/Bytes.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 719a98b..808bd0f 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -145,9 +145,7 @@ long Bytes::toUnsignedLong(byte byteValue) {
 
 Bytes Bytes::valueOf(byte byteValue) {
     auto byteInstance = ByteCache::getInstance();
-    auto value = byteInstance->getByteAtIndex((int) byteValue);
-    delete byteInstance;
-    return value;
+    return byteInstance->getByteAtIndex((int) byteValue);
 }
 
 Bytes Bytes::valueOf(String stringValue) {
-- 
2.43.0


From 82d28aa1bcf17c2b5ccc332a3498c76110348d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 047/141] fix: Long.highestOneBit and rotations used arithmetic
 shifts

---
 library/Java/Lang/Long/Long.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5196249..9e58b4e 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -256,13 +256,14 @@ int Long::hashCode() {
  * @return long
  */
 long Long::highestOneBit(long i) {
-	i |= ( i >> 1 );
-	i |= ( i >> 2 );
-	i |= ( i >> 4 );
-	i |= ( i >> 8 );
-	i |= ( i >> 16 );
-	i |= ( i >> 32 );
-	return ( i - ( i >> 1 ));
+	unsigned long bits = (unsigned long) i;
+	bits |= ( bits >> 1 );
+	bits |= ( bits >> 2 );
+	bits |= ( bits >> 4 );
+	bits |= ( bits >> 8 );
+	bits |= ( bits >> 16 );
+	bits |= ( bits >> 32 );
+	return (long) ( bits - ( bits >> 1 ));
 }
 
 /**
@@ -459,7 +460,8 @@ long Long::reverseBytes(long i) {
  * @return long
  */
 long Long::rotateLeft(long i, int distance) {
-	return (( i << distance ) | ( i >> -distance ));
+	unsigned long bits = (unsigned long) i;
+	return (long) (( bits << ( distance & 63 )) | ( bits >> ( -distance & 63 )));
 }
 
 /**
@@ -471,7 +473,8 @@ long Long::rotateLeft(long i, int distance) {
  * @return long
  */
 long Long::rotateRight(long i, int distance) {
-	return (( i >> distance ) | ( i << -distance ));
+	unsigned long bits = (unsigned long) i;
+	return (long) (( bits >> ( distance & 63 )) | ( bits << ( -distance & 63 )));
 }
 
 /**
-- 
2.43.0


From 6a000ac2db20b8f2c20e49d4ec610b11666cd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 048/141] fix: Long.reverse and reverseBytes returned their
 argument

---
 library/Java/Lang/Long/Long.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 9e58b4e..d3803a8 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -426,16 +426,11 @@ long Long::parseLong(String s, int radix) {
  * @return long
  */
 long Long::reverse(long i) {
-	return i;
-	/*
-	i = ( i & 0x5555555555555555L ) << 1 | ( i >> 1 ) & 0x5555555555555555L;
-	i = ( i & 0x3333333333333333L ) << 2 | ( i >> 2 ) & 0x3333333333333333L;
-	i = ( i & 0x0f0f0f0f0f0f0f0fL ) << 4 | ( i >> 4 ) & 0x0f0f0f0f0f0f0f0fL;
-	i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	i = ( i << 48 ) | (( i & 0xffff0000L ) << 16 ) |
-	    (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 );
-	return i;
-	 */
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x5555555555555555UL ) << 1 | (( bits >> 1 ) & 0x5555555555555555UL );
+	bits = ( bits & 0x3333333333333333UL ) << 2 | (( bits >> 2 ) & 0x3333333333333333UL );
+	bits = ( bits & 0x0f0f0f0f0f0f0f0fUL ) << 4 | (( bits >> 4 ) & 0x0f0f0f0f0f0f0f0fUL );
+	return reverseBytes((long) bits);
 }
 
 /**
@@ -446,9 +441,10 @@ long Long::reverse(long i) {
  * @return long
  */
 long Long::reverseBytes(long i) {
-	return i;
-	//i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	//return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 ));
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x00ff00ff00ff00ffUL ) << 8 | (( bits >> 8 ) & 0x00ff00ff00ff00ffUL );
+	return (long) (( bits << 48 ) | (( bits & 0xffff0000UL ) << 16 ) |
+	               (( bits >> 16 ) & 0xffff0000UL ) | ( bits >> 48 ));
 }
 
 /**
-- 
2.43.0


From ae17e7877cb5616dd29cc5ee76766187bcc07340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 049/141] fix: Long.signum of a positive number was -1

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index d3803a8..e778e22 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -489,7 +489,7 @@ short Long::shortValue() const {
  * @return int
  */
 int Long::signum(long i) {
-	return (int) (( i >> 63 ) | ( -i >> 63 ));
+	return (int) (( i >> 63 ) | ( -(unsigned long) i >> 63 ));
 }
 
 /**
-- 
2.43.0


From b676450a45febadd935ebca9ae6ae38b1fbccca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 050/141] fix: Math.multiplyExact and toIntExact missed
 overflows

---
 library/Java/Lang/Math/Math.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3d488fd..637714c 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -290,21 +290,21 @@ double Math::min(double valueA, double valueB) {
 
 int Math::multiplyExact(int valueA, int valueB) {
 	long result = (long) valueA * (long) valueB;
-	if (result -  (int) result > 0) {
+	if (result != (int) result) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) result;
 }
 
 long Math::multiplyExact(long valueA, long valueB) {
-	if (valueA == Long::MIN_VALUE && valueB == -1) {
+	if ((valueA == Long::MIN_VALUE && valueB == -1) || (valueB == Long::MIN_VALUE && valueA == -1)) {
 		throw ArithmeticException("long overflow");
 		
 	}
 	
 	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
+	unsigned long absA = (unsigned long) abs(valueA);
+	unsigned long absB = (unsigned long) abs(valueB);
 	
 	if (((absA | absB) >> 31) != 0) {
 		if ((valueB != 0) && (result / valueB != valueA)) {
@@ -484,7 +484,7 @@ double Math::toDegrees(double angleRadian) {
 }
 
 int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
+	if (value != (int) value) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) value;
-- 
2.43.0


From 41e67c3e929ec66613ef2742c406489685466df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 051/141] fix: Math.floorDiv and floorMod died on MIN_VALUE /
 -1

---
 library/Java/Lang/Math/Math.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 637714c..fa3d01c 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -142,6 +142,9 @@ int Math::floorDiv(int dividend, int divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		return (int) (0U - (unsigned int) dividend);
+	}
 	int result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
@@ -154,6 +157,9 @@ long Math::floorDiv(long dividend, long divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		return (long) (0UL - (unsigned long) dividend);
+	}
 	long result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
@@ -163,10 +169,16 @@ long Math::floorDiv(long dividend, long divisor) {
 }
 
 int Math::floorMod(int dividend, int divisor) {
+	if (divisor == -1) {
+		return 0;
+	}
 	return dividend - (floorDiv(dividend, divisor) * divisor);
 }
 
 long Math::floorMod(long dividend, long divisor) {
+	if (divisor == -1) {
+		return 0;
+	}
 	return dividend - (floorDiv(dividend, divisor) * divisor);
 }
 
-- 
2.43.0


From 88d6c832afe4ce8524764d17cee3857e8e0a71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 052/141] fix: Math.IEEERemainder rounded the quotient the
 wrong way

---
 library/Java/Lang/Math/Math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index fa3d01c..5cd9601 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -225,7 +225,10 @@ double Math::hypot(double valueA, double valueB) {
 }
 
 inline double math_ieeeremainder(double dividend, double divisor) {
-	return dividend - ( round(dividend / divisor) * divisor );
+	if (std::isinf(divisor)) {
+		return Double::NaN;
+	}
+	return ::remainder(dividend, divisor);
 }
 
 double Math::IEEERemainder(double dividend, double divisor) {
-- 
2.43.0


From 05b3aa2f1a3d68d3783d0a7cbec39e056c0bcb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 053/141] fix: Math.getExponent of a negative subnormal was
 wrong

---
 library/Java/Lang/Math/Math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 5cd9601..1d4a4f2 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -194,7 +194,7 @@ int Math::getExponent(double value) {
 	double mantissas;
 	int exponent;
 	mantissas = std::frexp(value, &exponent);
-	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
+	if (exponent - 1 < Double::MIN_EXPONENT) {
 		return Double::MIN_EXPONENT - 1;
 	}
 	
@@ -213,7 +213,7 @@ int Math::getExponent(float value) {
 	double mantissas;
 	int exponent;
 	mantissas = std::frexp(value, &exponent);
-	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
+	if ((exponent - 1) < Float::MIN_EXPONENT) {
 		return Float::MIN_EXPONENT - 1;
 	}
 	
-- 
2.43.0


From 4fa5bf3fc02b6d87e97112cd86f27e441e7cb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 054/141] fix: Double.MIN_VALUE and MIN_NORMAL were swapped

---
 library/Java/Lang/Double/Double.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index 2291882..229cb73 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -101,12 +101,12 @@ namespace Java {
             /**
              * A constant holding the smallest positive normal value of type
              */
-            static constexpr double MIN_NORMAL = std::numeric_limits<double>::denorm_min();  // 2.225073858507201e-308
+            static constexpr double MIN_NORMAL = std::numeric_limits<double>::min();  // 2.225073858507201e-308
 
             /**
              * A constant holding the smallest positive nonzero value of type
              */
-            static constexpr double MIN_VALUE = std::numeric_limits<double>::min();  // 4.940656458412465e-324
+            static constexpr double MIN_VALUE = std::numeric_limits<double>::denorm_min();  // 4.940656458412465e-324
 
         public:
             Double();
-- 
2.43.0


From de23f6720b82f320b08837eb479a0eed8288a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 055/141] fix: Math.ulp was wrong for floats and tiny doubles

---
 library/Java/Lang/Math/Math.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 1d4a4f2..1187ee4 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -398,9 +398,7 @@ double Math::powerOfTwoD(int exponent) {
 	if (exponent < Double::MIN_EXPONENT || exponent > Double::MAX_EXPONENT) {
 		throw AssertionError(exponent);
 	}
-	long oneLong = 1;
-	return Double::longBitsToDouble(((exponent + Double::EXP_BIAS)
-		<< (Double::SIGNIFICAND_WIDTH - oneLong)) & Double::EXP_BIT_MASK);
+	return ::ldexp(1.0, exponent);
 }
 
 // TODO need Float::intBitsToFloat
@@ -408,10 +406,7 @@ float Math::powerOfTwoF(int exponent) {
 	if (exponent < Float::MIN_EXPONENT || exponent > Float::MAX_EXPONENT) {
 		throw AssertionError(exponent);
 	}
-	
-	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
-			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
-	return 0;
+	return ::ldexpf(1.0f, exponent);
 }
 
 double Math::random() {
@@ -529,10 +524,8 @@ float Math::ulp(float value) {
 			if (exp >= Float::MIN_EXPONENT) {
 				return powerOfTwoF(exp);
 			}
-			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
-														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
+			return ::ldexpf(1.0f, exp);
 	}
-	return 0.0;
 }
 
 double Math::ulp(double value) {
@@ -555,7 +548,6 @@ double Math::ulp(double value) {
 				return powerOfTwoD(exp);
 			}
 			
-			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
-			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
+			return ::ldexp(1.0, exp);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 178e3eb4629c3d6f10b9b36d3a97fa43e00affd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 056/141] fix: Math.round of NaN and huge values was arbitrary

---
 library/Java/Lang/Math/Math.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 1187ee4..c8691e0 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -419,10 +419,28 @@ double Math::rint(double value) {
 }
 
 int Math::round(float value) {
+	if (Float::isNaN(value)) {
+		return 0;
+	}
+	if (value >= 2147483648.0f) {
+		return Integer::MAX_VALUE;
+	}
+	if (value <= -2147483648.0f) {
+		return Integer::MIN_VALUE;
+	}
 	return (int) ::roundf(value);
 }
 
 long Math::round(double value) {
+	if (Double::isNaN(value)) {
+		return 0;
+	}
+	if (value >= 9223372036854775808.0) {
+		return Long::MAX_VALUE;
+	}
+	if (value <= -9223372036854775808.0) {
+		return Long::MIN_VALUE;
+	}
 	return (long) ::round(value);
 }
 
-- 
2.43.0


From 63af45209200e04ab77b8a582b32fa4eb2e0d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 057/141] fix: Double.doubleToLongBits was wrong for huge and
 tiny values

---
 library/Java/Lang/Double/Double.cpp | 217 ++--------------------------
 1 file changed, 9 insertions(+), 208 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 37740cf..e457ea1 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -373,221 +373,22 @@ double Double::min(double doubleA, double doubleB) {
 //}
 
 String Double::doubleToBinary64StringType(double doubleInput) {
-    auto integerPartNormalizeForm = (string) allocateMemory(2048 * sizeof(char));
-    auto fractionPartNormalizeForm = (string) allocateMemory(54 * sizeof(char));
-    auto doubleInputNormalizeForm = (string) allocateMemory(2102 * sizeof(char));
     auto resultDoubleToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartDoubleInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfDoubleInputNormalizeForm;
-
-    int sizeOfExponentPartBinary64 = 11;
-
+    unsigned long bits = 0;
     int i;
-    int index;
-    int indexOfDotDoubleInputNormalizeForm;
-    int indexFirstBit1DoubleInputNormalizeForm;
-    int indexBeginFractionPartResultDoubleToBinary64StringType = 0;
-
-    int exponentBiasBinary64 = 1023;
-    int exponentDoubleInput;
-
-    double fractionPartDoubleInput;
-
-    for (i = 0; i <= 63; i++) {
-        doubleInputNormalizeForm[i] = '0';
-        resultDoubleToBinary64StringType[i] = '0';
-    }
-
-    for (i = 0; i <= 52; i++) {
-        integerPartNormalizeForm[i] = '0';
-        fractionPartNormalizeForm[i] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[2047] = '\0';
-    fractionPartNormalizeForm[53] = '\0';
-    doubleInputNormalizeForm[2101] = '\0';
-    resultDoubleToBinary64StringType[64] = '\0';
-
-    if (doubleInput >= 0) {
-        resultDoubleToBinary64StringType[0] = '0';
-    }
-
-    if (doubleInput < 0) {
-        resultDoubleToBinary64StringType[0] = '1';
-    }
-
-    if (doubleInput == 0) {
-        goto outPut;
-    }
-
-    if (doubleInput == POSITIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (doubleInput == NEGATIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "1111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
 
+    // Zero has no sign here, NaN has the canonical pattern
     if (isNaN(doubleInput)) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111111111111111111111111111111111111111111111111111111111");
-
-        goto outPut;
+        bits = 0x7fffffffffffffffUL;
+    } else if (doubleInput != 0) {
+        memcpy(&bits, &doubleInput, sizeof(bits));
     }
 
-    /** Get |doubleInput| */
-    doubleInput = fabs(doubleInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartDoubleInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
+    for (i = 63; i >= 0; i--) {
+        resultDoubleToBinary64StringType[i] = (char) ('0' + (bits & 1));
+        bits = bits >> 1;
     }
-
-    if (integerPartDoubleInput != 0) {
-        while (integerPartDoubleInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartDoubleInput = integerPartDoubleInput >> 1;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    index = sizeOfIntegerPartNormalizeForm - 1;
-
-    while (integerPartDoubleInput != 0) {
-
-        if ((integerPartDoubleInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartDoubleInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartDoubleInput = integerPartDoubleInput >> 1;
-    }
-
-    fractionPartDoubleInput = doubleInput - integerPartDoubleInput;
-    index = 0;
-
-    while ((fractionPartDoubleInput != 0) && (index < 53)) {
-        fractionPartDoubleInput = fractionPartDoubleInput * 2;
-
-        int integerPart = static_cast<int> (floor(fractionPartDoubleInput));
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartDoubleInput = fractionPartDoubleInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to doubleInputNormalizeForm */
-    for (i = 0; i < sizeOfIntegerPartNormalizeForm; i++) {
-        doubleInputNormalizeForm[i] = integerPartNormalizeForm[i];
-    }
-
-    indexOfDotDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    doubleInputNormalizeForm[indexOfDotDoubleInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to doubleInputNormalizeForm
-     */
-    index = indexOfDotDoubleInputNormalizeForm + 1;
-    for (i = 0; i <= sizeOfFractionPartNormalizeForm; i++, index++) {
-        doubleInputNormalizeForm[index]
-                = fractionPartNormalizeForm[i];
-    }
-
-    sizeOfDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                     + sizeOfFractionPartNormalizeForm;
-
-    /** Assign value to indexFirstBit1DoubleInputNormalizeForm */
-    indexFirstBit1DoubleInputNormalizeForm = 1;
-    for (i = 0; i <= sizeOfDoubleInputNormalizeForm; i++) {
-        if (doubleInputNormalizeForm[i] == '1') {
-            indexFirstBit1DoubleInputNormalizeForm = i;
-            break;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    if (integerPartDoubleInput != 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm - 1;
-    }
-
-    if (integerPartDoubleInput == 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm;
-    }
-
-    exponentDoubleInput = powerExponentBase2 + exponentBiasBinary64;
-
-    index = sizeOfExponentPartBinary64;
-
-    while (exponentDoubleInput != 0) {
-
-        if ((exponentDoubleInput & 1) == 1) {
-            resultDoubleToBinary64StringType[index] = '1';
-        }
-
-        if ((exponentDoubleInput & 1) == 0) {
-            resultDoubleToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        exponentDoubleInput = exponentDoubleInput >> 1;
-    }
-
-    indexBeginFractionPartResultDoubleToBinary64StringType
-            = sizeOfExponentPartBinary64 + 1;
-
-    index = indexBeginFractionPartResultDoubleToBinary64StringType;
-    i = indexFirstBit1DoubleInputNormalizeForm + 1;
-
-    for (index; index <= 63; index++) {
-        if (i == sizeOfDoubleInputNormalizeForm) {
-            break;
-        }
-
-        if (i == indexOfDotDoubleInputNormalizeForm) {
-            i++;
-        }
-
-        resultDoubleToBinary64StringType[index]
-                = doubleInputNormalizeForm[i];
-        i++;
-    }
-
-    outPut:
-    /** Return resultDoubleToBinary64StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(doubleInputNormalizeForm);
+    resultDoubleToBinary64StringType[64] = '\0';
 
     String result = resultDoubleToBinary64StringType;
     free(resultDoubleToBinary64StringType);
-- 
2.43.0


From f7c74b62a389925c81d2d6533aa995c32915c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 058/141] fix: Float.floatToIntBits was wrong for huge and tiny
 values

---
 library/Java/Lang/Float/Float.cpp | 206 ++----------------------------
 1 file changed, 8 insertions(+), 198 deletions(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3ee56b9..0dbc887 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -197,213 +197,23 @@ Float Float::valueOf(float inputFloat) {
 }
 
 String Float::floatToBinary32StringType(float floatInput) {
-    string integerPartNormalizeForm = (string) calloc (280, sizeof(char));
-    string fractionPartNormalizeForm = (string) calloc (25, sizeof(char));
-    string floatInputNormalizeForm = (string) calloc (280, sizeof(char));
     string resultFloatToBinary32StringType
             = (string) calloc (33, sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartFloatInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfFloatInputNormalizeForm;
-
-    int sizeOfExponentPartBinary32 = 8;
-
+    unsigned int bits = 0;
     int indexOfFor;
-    int index;
-    int indexOfDotFloatInputNormalizeForm;
-    int indexFirstBit1FloatInputNormalizeForm;
-    int indexBeginFractionPartResultFloatToBinary32StringType = 0;
-
-    int exponentBiasBinary32 = 127;
-    int exponentFloatInput;
-
-    float fractionPartFloatInput;
-
-    for (indexOfFor = 0 ; indexOfFor <= 31; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = '0';
-        resultFloatToBinary32StringType[indexOfFor] = '0';
-    }
-
-    for (indexOfFor = 0 ; indexOfFor <= 23; indexOfFor++) {
-        integerPartNormalizeForm[indexOfFor] = '0';
-        fractionPartNormalizeForm[indexOfFor] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[279] = '\0';
-    fractionPartNormalizeForm[24] = '\0';
-    floatInputNormalizeForm[279] = '\0';
-    resultFloatToBinary32StringType[32] = '\0';
-
-    if (floatInput >= 0) {
-        resultFloatToBinary32StringType[0] = '0';
-    }
-
-    if (floatInput < 0) {
-        resultFloatToBinary32StringType[0] = '1';
-    }
-
-    if (floatInput == 0) {
-        goto outPut;
-    }
-
-    if (floatInput == Float::POSITIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "01111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (floatInput == Float::NEGATIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "11111111100000000000000000000000");
-        goto outPut;
-    }
 
+    // Zero has no sign here, NaN has the canonical pattern
     if (isNaN(floatInput)) {
-        strcpy(resultFloatToBinary32StringType, "01111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |floatInput| */
-    floatInput = fabs(floatInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartFloatInput = (int) floor(floatInput);
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartFloatInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartFloatInput != 0) {
-        while (integerPartFloatInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartFloatInput = integerPartFloatInput >> 1;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    index = sizeOfIntegerPartNormalizeForm -1;
-    while (integerPartFloatInput != 0) {
-        if ((integerPartFloatInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartFloatInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartFloatInput = integerPartFloatInput >> 1;
-    }
-
-    fractionPartFloatInput = floatInput - integerPartFloatInput;
-    index = 0;
-
-    while ((fractionPartFloatInput != 0) && (index < 24)) {
-        fractionPartFloatInput = fractionPartFloatInput * 2;
-
-        int integerPart = (int) floor(fractionPartFloatInput);
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartFloatInput = fractionPartFloatInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to floatInputNormalizeForm */
-    for (indexOfFor = 0; indexOfFor < sizeOfIntegerPartNormalizeForm; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = integerPartNormalizeForm[indexOfFor];
-    }
-
-    indexOfDotFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    floatInputNormalizeForm[indexOfDotFloatInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to floatInputNormalizeForm
-     */
-    index = indexOfDotFloatInputNormalizeForm +1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFractionPartNormalizeForm; indexOfFor++, index++) {
-        floatInputNormalizeForm[index]
-                = fractionPartNormalizeForm[indexOfFor];
-    }
-
-    sizeOfFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                    + sizeOfFractionPartNormalizeForm;
-
-    indexFirstBit1FloatInputNormalizeForm = 1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFloatInputNormalizeForm; indexOfFor++) {
-        if (floatInputNormalizeForm[indexOfFor] == '1') {
-            indexFirstBit1FloatInputNormalizeForm = indexOfFor;
-            break;
-        }
+        bits = 0x7fffffffU;
+    } else if (floatInput != 0) {
+        memcpy(&bits, &floatInput, sizeof(bits));
     }
 
-    integerPartFloatInput = (int) floor(floatInput);
-    if (integerPartFloatInput != 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm -1;
-    }
-
-    if (integerPartFloatInput == 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm;
-    }
-
-    exponentFloatInput = powerExponentBase2 + exponentBiasBinary32;
-
-    index = sizeOfExponentPartBinary32;
-
-    while (exponentFloatInput != 0) {
-        if ((exponentFloatInput & 1) == 1) {
-            resultFloatToBinary32StringType[index] = '1';
-        }
-
-        if ((exponentFloatInput & 1) == 0) {
-            resultFloatToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        exponentFloatInput = exponentFloatInput >> 1;
-    }
-
-    indexBeginFractionPartResultFloatToBinary32StringType
-            = sizeOfExponentPartBinary32 + 1;
-
-    index = indexBeginFractionPartResultFloatToBinary32StringType;
-    indexOfFor = indexFirstBit1FloatInputNormalizeForm + 1;
-
-    for (index ; index <= 31; index++) {
-        if (indexOfFor == sizeOfFloatInputNormalizeForm) {
-            break;
-        }
-
-        if (indexOfFor == indexOfDotFloatInputNormalizeForm) {
-            indexOfFor++;
-        }
-
-        resultFloatToBinary32StringType[index]
-                = floatInputNormalizeForm[indexOfFor];
-        indexOfFor++;
+    for (indexOfFor = 31; indexOfFor >= 0; indexOfFor--) {
+        resultFloatToBinary32StringType[indexOfFor] = (char) ('0' + (bits & 1));
+        bits = bits >> 1;
     }
 
-    outPut:
-    /** Return resultFloatToBinary32StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(floatInputNormalizeForm);
     String result = resultFloatToBinary32StringType;
     free(resultFloatToBinary32StringType);
 
-- 
2.43.0


From 30deb3640f6bf720ac0966d3226f99113853fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 059/141] fix: Double.longBitsToDouble was wrong for zero and
 subnormal numbers

---
 library/Java/Lang/Double/Double.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index e457ea1..ce7aca8 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -299,16 +299,19 @@ boolean Double::isNaN() {
 }
 
 double Double::longBitsToDouble(long longBitsInput) {
-    if (Double::isNaN(longBitsInput)) {
-        return NaN;
+    // Inverse of doubleToLongBits: the magnitude bits carry the sign of the value
+    unsigned long bits = (unsigned long) longBitsInput;
+    if (longBitsInput < 0) {
+        bits = -bits;
     }
+    bits = bits & 0x7fffffffffffffffUL;
 
     double resultLongBitsToDouble;
-    String convertLongBitsToBinary64StringType;
-
-    convertLongBitsToBinary64StringType = longBitsToBinary64StringType(longBitsInput);
+    memcpy(&resultLongBitsToDouble, &bits, sizeof(bits));
 
-    resultLongBitsToDouble = binary64StringTypeToDouble(convertLongBitsToBinary64StringType);
+    if (longBitsInput < 0) {
+        return -resultLongBitsToDouble;
+    }
 
     return resultLongBitsToDouble;
 }
-- 
2.43.0


From 318e1e9916532902370594c9298d52486fc7f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 060/141] fix: Long compound assignment left the old text
 behind

---
 library/Java/Lang/Long/Long.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index e778e22..08de3e6 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -796,7 +796,7 @@ boolean Long::operator>=(const Long &target) const {
  * @param target
  */
 void Long::operator-=(const Long &target) {
-	this->original -= target.original;
+	*this = *this - target;
 }
 
 /**
@@ -805,7 +805,7 @@ void Long::operator-=(const Long &target) {
  * @param target
  */
 void Long::operator+=(const Long &target) {
-	this->original += target.original;
+	*this = *this + target;
 }
 
 /**
@@ -814,7 +814,7 @@ void Long::operator+=(const Long &target) {
  * @param target
  */
 void Long::operator*=(const Long &target) {
-	this->original *= target.original;
+	*this = *this * target;
 }
 
 /**
@@ -823,7 +823,7 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
-	this->original /= target.original;
+	*this = *this / target;
 }
 
 /**
@@ -832,5 +832,5 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
-	this->original %= target.original;
+	*this = *this % target;
 }
\ No newline at end of file
-- 
2.43.0


From 8f7cb45c03ecc1c2ff53ba33d8b49095b93cad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 061/141] fix: Long and Short division by zero killed the
 process

---
 library/Java/Lang/Long/Long.cpp   | 7 +++++++
 library/Java/Lang/Short/Short.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 08de3e6..d142493 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Long.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 #include "../Math/Math.hpp"
 
 using namespace Java::Lang;
@@ -682,6 +683,9 @@ Long Long::operator-(const Long &target) const {
  * @return
  */
 Long Long::operator/(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -693,6 +697,9 @@ Long Long::operator/(const Long &target) const {
  * @return
  */
 Long Long::operator%(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	Long result = this->original % target.original;
 	return result;
 }
diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 9b9226d..be53e2c 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Short.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 #include "../Integer/Integer.hpp"
 #include "../NumberFormatException/NumberFormatException.hpp"
 
@@ -198,6 +199,9 @@ Short Short::operator*(const Short &target) {
  * @return Short
  */
 Short Short::operator/(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original / target.original);
 }
 
@@ -207,6 +211,9 @@ Short Short::operator/(const Short &target) {
  * @return Short
  */
 Short Short::operator%(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original % target.original);
 }
 
-- 
2.43.0


From 0bf05eacaa124eb73fdf2d1a290a45efe9cb0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 062/141] fix: dividing MIN_VALUE by -1 killed the process

---
 library/Java/Lang/Integer/Integer.cpp | 22 ++++++++--------------
 library/Java/Lang/Long/Long.cpp       |  6 ++++++
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 0d9e46d..ed0760a 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -170,6 +170,9 @@ Integer Integer::operator/(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		return (int) -(unsigned int) this->original;
+	}
 	return this->original / target.original;
 }
 
@@ -181,6 +184,9 @@ Integer Integer::operator%(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		return 0;
+	}
 	return this->original % target.original;
 }
 
@@ -199,13 +205,7 @@ Integer &Integer::operator-=(const Integer &target) {
 }
 
 Integer &Integer::operator/=(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	this->original /= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
+	return *this = *this / target;
 }
 
 Integer &Integer::operator*=(const Integer &target) {
@@ -216,13 +216,7 @@ Integer &Integer::operator*=(const Integer &target) {
 }
 
 Integer &Integer::operator%=(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	this->original %= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
+	return *this = *this % target;
 }
 
 int Integer::bitCount(int inputInt) {
diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index d142493..b34ac2b 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -686,6 +686,9 @@ Long Long::operator/(const Long &target) const {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		return (long) -(unsigned long) this->original;
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -700,6 +703,9 @@ Long Long::operator%(const Long &target) const {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		return 0L;
+	}
 	Long result = this->original % target.original;
 	return result;
 }
-- 
2.43.0


From 4ea65ab4f5f638676f3ddbbc80d85574b4087d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 063/141] fix: the compound assignments of Short were declared
 but never defined

---
 library/Java/Lang/Short/Short.cpp | 45 +++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index be53e2c..11a4ea7 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -271,3 +271,48 @@ boolean Short::operator>=(const Short &target) const {
 	return this->original >= target.original;
 }
 
+
+/**
+ * Sum this with target
+ *
+ * @param target
+ */
+void Short::operator+=(const Short &target) {
+	*this = *this + target;
+}
+
+/**
+ * Subtract target from this
+ *
+ * @param target
+ */
+void Short::operator-=(const Short &target) {
+	*this = *this - target;
+}
+
+/**
+ * Multiply this with target
+ *
+ * @param target
+ */
+void Short::operator*=(const Short &target) {
+	*this = *this * target;
+}
+
+/**
+ * Divide this by target
+ *
+ * @param target
+ */
+void Short::operator/=(const Short &target) {
+	*this = *this / target;
+}
+
+/**
+ * Modulo this by target
+ *
+ * @param target
+ */
+void Short::operator%=(const Short &target) {
+	*this = *this % target;
+}
-- 
2.43.0


From 3f1511e1cb8dc95418226e5421f8b9b2132f247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 064/141] fix: printing an Integer to a stream wrote to
 standard output instead

---
 library/Java/Lang/Integer/Integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Integer/Integer.hpp b/library/Java/Lang/Integer/Integer.hpp
index 2e2a454..2836f6d 100755
--- a/library/Java/Lang/Integer/Integer.hpp
+++ b/library/Java/Lang/Integer/Integer.hpp
@@ -731,7 +731,7 @@ namespace Java {
 						 * @return ostream
 						 */
 						friend std::ostream &operator<<(std::ostream &os, const Integer &target) {
-							std::cout << target.original;
+							os << target.original;
 							return os;
 						}
 						
-- 
2.43.0


From 5e5d8cb868f1e9d6b7f9eecf0db4df2c52144b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 065/141] fix: compound assignment of Double and Float assigned
 nothing

---
 library/Java/Lang/Double/Double.cpp | 16 ++++++++--------
 library/Java/Lang/Double/Double.hpp |  8 ++++----
 library/Java/Lang/Float/Float.cpp   | 16 ++++++++--------
 library/Java/Lang/Float/Float.hpp   |  8 ++++----
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index ce7aca8..edf4812 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -184,20 +184,20 @@ Double &Double::operator=(const Double &target) {
     return *this;
 }
 
-Double Double::operator+=(const Double &target) const {
-    return (Double) (this->original + target.original);
+Double Double::operator+=(const Double &target) {
+    return *this = *this + target;
 }
 
-Double Double::operator-=(const Double &target) const {
-    return (Double) (this->original - target.original);
+Double Double::operator-=(const Double &target) {
+    return *this = *this - target;
 }
 
-Double Double::operator*=(const Double &target) const {
-    return (Double) (this->original * target.original);
+Double Double::operator*=(const Double &target) {
+    return *this = *this * target;
 }
 
-Double Double::operator/=(const Double &target) const {
-    return (Double) (this->original / target.original);
+Double Double::operator/=(const Double &target) {
+    return *this = *this / target;
 }
 
 int Double::compare(double double1, double double2) {
diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index 229cb73..f7b137b 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -228,7 +228,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator+=(const Double &target) const;
+            Double operator+=(const Double &target);
 
             /**
              * Subtract AND assignment operator,
@@ -238,7 +238,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator-=(const Double &target) const;
+            Double operator-=(const Double &target);
 
             /**
              * Multiply AND assignment operator,
@@ -248,7 +248,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator*=(const Double &target) const;
+            Double operator*=(const Double &target);
 
             /**
              * Divide AND assignment operator,
@@ -258,7 +258,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator/=(const Double &target) const;
+            Double operator/=(const Double &target);
 
             /**
              * Double to Char
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 0dbc887..1698b82 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -116,20 +116,20 @@ Float& Float::operator=(const Float &target) {
     return *this;
 }
 
-Float Float::operator+=(const Float &target) const {
-    return (Float) (this->original + target.original);
+Float Float::operator+=(const Float &target) {
+    return *this = *this + target;
 }
 
-Float Float::operator-=(const Float &target) const {
-    return (Float) (this->original - target.original);
+Float Float::operator-=(const Float &target) {
+    return *this = *this - target;
 }
 
-Float Float::operator*=(const Float &target) const {
-    return (Float) (this->original * target.original);
+Float Float::operator*=(const Float &target) {
+    return *this = *this * target;
 }
 
-Float Float::operator/=(const Float &target) const {
-    return (Float) (this->original / target.original);
+Float Float::operator/=(const Float &target) {
+    return *this = *this / target;
 }
 
 float Float::floatValue() const {
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index e1cc7ec..5f7845d 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -271,7 +271,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator+=(const Float &target) const;
+						Float operator+=(const Float &target);
 						
 						/**
 						 * Subtract AND assignment operator,
@@ -281,7 +281,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator-=(const Float &target) const;
+						Float operator-=(const Float &target);
 						
 						/**
 						 * Multiply AND assignment operator,
@@ -291,7 +291,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator*=(const Float &target) const;
+						Float operator*=(const Float &target);
 						
 						/**
 						 * Divide AND assignment operator,
@@ -301,7 +301,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator/=(const Float &target) const;
+						Float operator/=(const Float &target);
 						
 						/**
 						 * Short value of Float
-- 
2.43.0


From 5a4027dde6b5331e8923a86b4dc651c2625e82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 066/141] fix: an assigned Float printed in another format

---
 library/Java/Lang/Float/Float.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 1698b82..ddbc702 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -112,7 +112,7 @@ boolean Float::operator||(const Float &target) const {
 Float& Float::operator=(const Float &target) {
     this->original = target.original;
     free(this->originalString);
-    asprintf(&this->originalString, "%f", this->original);
+    asprintf(&this->originalString, "%g", this->original);
     return *this;
 }
 
-- 
2.43.0


From 407c594451e6a87b870a52357b6ca7dcfdebfc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 067/141] fix: equal Booleans had different hash codes

---
 library/Java/Lang/Boolean/Boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 7f01107..075098c 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -118,7 +118,7 @@ boolean Boolean::getBoolean(const_string target) {
  * @return long
  */
 int Boolean::hashCode() const {
-	return Object::hashCode();
+	return this->original ? 1231 : 1237;
 }
 
 /**
-- 
2.43.0


From e0a3a8e49a6f53e5de9e8981e84bc30ed9567d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 068/141] fix: parsing text that is no number gave an arbitrary
 value

---
 library/Java/Lang/Double/Double.cpp | 7 ++++++-
 library/Java/Lang/Float/Float.cpp   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index edf4812..2200080 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Double.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -64,7 +65,11 @@ Double::~Double() {
 
 Double Double::parseDouble(String target) {
     double result;
-    sscanf(target.toCharPointer(), "%lg", &result);
+    int parsedLength = -1;
+    sscanf(target.toCharPointer(), "%lg %n", &result, &parsedLength);
+    if (parsedLength != target.length()) {
+        throw NumberFormatException("Not a number");
+    }
     return result;
 }
 
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index ddbc702..a290bae 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Float.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 #include "../Math/Math.hpp"
 
 using namespace Java::Lang;
@@ -162,7 +163,11 @@ String Float::toString() const {
 
 Float Float::parseFloat(String inputString) {
     float result;
-    sscanf(inputString.toCharPointer(), "%g", &result);
+    int parsedLength = -1;
+    sscanf(inputString.toCharPointer(), "%g %n", &result, &parsedLength);
+    if (parsedLength != inputString.length()) {
+        throw NumberFormatException("Not a number");
+    }
     return (Float)result;
 }
 
-- 
2.43.0


From 99cc9ad526313a1775bba6dceca6009391cbd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 069/141] fix: equal zeros of Double and Float hashed
 differently as hash keys

---
 library/Java/Lang/Double/Double.hpp | 2 +-
 library/Java/Lang/Float/Float.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index f7b137b..2640257 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -548,7 +548,7 @@ namespace Java {
 				
 				public:
 						inline size_t operator()(const Double &target) const {
-							return std::hash<std::string>{}(target.toString().toCharPointer());
+							return std::hash<long>{}(Double::hashCode(target.original));
 						}
 				};
 		}  // namespace Lang
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index 5f7845d..f33f667 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -585,7 +585,7 @@ namespace Java {
 				
 				public:
 						inline size_t operator()(const Float &target) const {
-							return std::hash<std::string>{}(target.toString().toCharPointer());
+							return std::hash<int>{}(Float::hashCode(target.original));
 						}
 				};
 		}  // namespace Lang
-- 
2.43.0


From e408057aec2eb153c6d161d85c5eb97572e7931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 070/141] fix: ArrayList.add(index, element) dropped the
 element when the index was the size

---
 library/Java/Util/ArrayList/ArrayList.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..e504235 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -154,8 +154,10 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
-					return;
+				if (index < 0 || index > this->size()) {
+					String message = "Index out of range: ";
+					message += Integer(index).stringValue();
+					throw IndexOutOfBoundsException(message);
 				}
 				this->original.insert(this->original.begin() + index, element);
 			}
-- 
2.43.0


From f7b98355c4ffcd29fdabbed649ad68288b2e6b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 071/141] fix: ArrayList.set returned the new element

---
 library/Java/Util/ArrayList/ArrayList.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index e504235..15476d3 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -440,8 +440,9 @@ namespace Java {
 					message += Integer(index).stringValue();
 					throw IndexOutOfBoundsException(message);
 				}
+				E holder = this->original[index];
 				this->original[index] = element;
-				return this->original[index];
+				return holder;
 			}
 
 			/**
-- 
2.43.0


From 71f67f2714da7dbca5e5d9cc3169eb6f3f34783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 072/141] fix: ArrayList element access by [] was unchecked

---
 library/Java/Util/ArrayList/ArrayList.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 15476d3..000db5d 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -69,19 +69,19 @@ namespace Java {
 
 		public:
 			_iterator begin() {
-				return &this->original[0];
+				return this->original.data();
 			}
 
 			_const_iterator begin() const {
-				return &this->original[0];
+				return this->original.data();
 			}
 
 			_iterator end() {
-				return &this->original[this->original.size()];
+				return this->original.data() + this->original.size();
 			}
 
 			_const_iterator end() const {
-				return &this->original[this->original.size()];
+				return this->original.data() + this->original.size();
 			}
 
 			/**
@@ -238,7 +238,7 @@ namespace Java {
 			 *
 			 * @param minCapacity
 			 */
-			void ensureCapacity(int minCapacity) const {
+			void ensureCapacity(int minCapacity) {
 				this->original.reserve(minCapacity);
 			}
 
@@ -598,6 +598,11 @@ namespace Java {
 			 * @return E
 			 */
 			E &operator[](int index) {
+				if (index < 0 || index >= this->size()) {
+					String message = "Index out of range: ";
+					message += Integer(index).stringValue();
+					throw IndexOutOfBoundsException(message);
+				}
 				return this->original[index];
 			}
 
@@ -611,6 +616,9 @@ namespace Java {
 			 * @param toIndex
 			 */
 			void removeRange(int fromIndex, int toIndex) {
+				if (fromIndex < 0 || toIndex > this->size() || fromIndex > toIndex) {
+					throw IndexOutOfBoundsException("Range out of list");
+				}
 				this->original.erase(this->original.begin() + fromIndex,
 				                     this->original.begin() + toIndex);
 			}
-- 
2.43.0


From 377e7e33707eadc829c7bfdb2b6572df46a05c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 073/141] fix: LinkedList access on an empty list was undefined

---
 library/Java/Util/LinkedList/LinkedList.hpp | 25 +++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b1c6490..de61a79 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -65,6 +65,16 @@ namespace Java {
                     std::list<Node<E>*> original;
                     typedef typename std::list<Node<E>*>::iterator IteratorType;
                     typedef typename std::list<Node<E>*>::const_iterator ConstIteratorType;
+
+                    /**
+                     * Reject access to an element of an empty list
+                     */
+                    void requireElement() const {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
+                    }
+
                 public:
 
                     LinkedList() = default;
@@ -175,7 +185,7 @@ namespace Java {
                      * @return E
                      */
                     E get(int index) {
-                        if (index < 0 || index > this->original.size() - 1) {
+                        if (index < 0 || index >= this->size()) {
                             throw IndexOutOfBoundsException("Index is out of bounds!");
                         }
                         typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);
@@ -188,6 +198,7 @@ namespace Java {
                      * @return E
                      */
                     E getFirst() {
+                        this->requireElement();
                         return original.front()->element;
                     }
 
@@ -197,6 +208,7 @@ namespace Java {
                      * @return E
                      */
                     E getLast() {
+                        this->requireElement();
                         var node = this->original.back();
                         return node->element;
                     }
@@ -240,7 +252,7 @@ namespace Java {
                      * @return E
                      */
                     E peek() {
-                        return getFirst();
+                        return peekFirst();
                     }
 
                     /**
@@ -248,6 +260,9 @@ namespace Java {
                      * @return E
                      */
                     E peekFirst() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getFirst();
                     }
 
@@ -257,6 +272,9 @@ namespace Java {
                      * @return E
                      */
                     E peekLast() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getLast();
                     }
 
@@ -275,6 +293,7 @@ namespace Java {
                      * @return E
                      */
                     E pollFirst() {
+                        this->requireElement();
                         var  node = this->original.front();
                         this->original.pop_front();
                         var element = node->element;
@@ -288,6 +307,7 @@ namespace Java {
                      * @return E
                      */
                     E pollLast() {
+                        this->requireElement();
                         var node = this->original.back();
                         this->original.pop_back();
                         var element = node->element;
@@ -361,6 +381,7 @@ namespace Java {
                     }
 
                     E removeLast() {
+                        this->requireElement();
                         var node = this->original.back();
                          this->original.pop_back();
                          var element = node->element;
-- 
2.43.0


From 3b8d055ac15f4d983364d49f145b31946b6ad3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 074/141] fix: LinkedList.element, offer and set were broken

---
 library/Java/Util/LinkedList/LinkedList.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index de61a79..de99056 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -99,7 +99,7 @@ namespace Java {
                         return this->original.begin();
                     }
 
-                    IteratorType begin() const {
+                    ConstIteratorType begin() const {
                         return this->original.begin();
                     }
 
@@ -175,7 +175,7 @@ namespace Java {
                      * @return E
                      */
                     E element() {
-                        this->original.front()->element;
+                        return getFirst();
                     }
 
                     /**
@@ -220,7 +220,7 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offer(const E &element) {
-                        this->original.push_back();
+                        this->original.push_back(new Node<E>(element));
                         return true;
                     }
 
@@ -396,10 +396,10 @@ namespace Java {
                      * @param element
                      * @return E
                      */
-                    E set(int index, E &element) {
-                        var value = get(index);
-                        *value = element;
-                        return element;
+                    E set(int index, const E &element) {
+                        E value = get(index);
+                        (*std::next(this->original.begin(), index))->element = element;
+                        return value;
                     }
 
                     /**
-- 
2.43.0


From f6985e40b6538b85f3510092efaa6d7513a99a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 075/141] fix: copying a LinkedList freed its elements twice

---
 library/Java/Util/LinkedList/LinkedList.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index de99056..5d12200 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -90,6 +90,18 @@ namespace Java {
                         }
                     }
 
+                    LinkedList(const LinkedList<E> &target) {
+                        for (const Node<E> *node : target) {
+                            this->add(node->element);
+                        }
+                    }
+
+                    LinkedList<E> &operator=(const LinkedList<E> &target) {
+                        LinkedList<E> copy(target);
+                        this->original.swap(copy.original);
+                        return *this;
+                    }
+
                     ~LinkedList() {
                         this->clear();
                     }
-- 
2.43.0


From 0040fae0a4f0bc88306bd3aec1e9b7b3e25abf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 076/141] fix: LinkedList.remove reported success when nothing
 was removed

---
 library/Java/Util/LinkedList/LinkedList.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 5d12200..5386c67 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -367,11 +367,11 @@ namespace Java {
                                 var node = *it;
                                 this->original.erase(it);
                                 delete node;
-                                break;
+                                return true;
                             }
                             ++pos;
                         }
-                        return true;
+                        return false;
                     }
 
                     /**
@@ -386,10 +386,10 @@ namespace Java {
                                 var node2 = *it;
                                 this->original.erase(it);
                                 delete node2;
-                                break;
+                                return true;
                             }
                         }
-                        return true;
+                        return false;
                     }
 
                     E removeLast() {
-- 
2.43.0


From bb69cff7b5909d04cd8194941611ba3c2d364be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 077/141] fix: copied and list-initialised vectors grew by an
 indeterminate amount

---
 library/Java/Util/Vector/Vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..71a4e20 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -91,6 +91,7 @@ namespace Java {
              */
             Vector(const std::initializer_list<E> &list) {
                 this->original.reserve(list.size());
+                this->capacityIncrement = 0;
                 typename std::initializer_list<E>::iterator listIterator;
                 for (listIterator = list.begin();
                      listIterator != list.end(); listIterator++) {
@@ -105,6 +106,7 @@ namespace Java {
              * @param target
              */
             Vector(const Vector<E> &target) {
+                this->capacityIncrement = target.capacityIncrement;
                 const E *targetData = target.original.data();
                 int index;
                 for (index = 0; index < target.original.size(); index++) {
@@ -207,7 +209,7 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> clone() const {
-                Vector<E> clonedVector;
+                Vector<E> clonedVector(10, this->capacityIncrement);
                 const E *vectorData = this->original.data();
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
-- 
2.43.0


From 9536a570250ade5f53b6106020df9b3b985883de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 078/141] fix: assigning a Vector to itself emptied it

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 71a4e20..fcc07a9 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -889,6 +889,9 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const Vector<E> &target) {
+                if (this == &target) {
+                    return *this;
+                }
                 this->clear();
                 this->ensureCapacity(target.size());
                 const E *targetData = target.original.data();
-- 
2.43.0


From 80e408c4d136fc793dd5f6fd154f976a68b8c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 079/141] fix: adding an element of the vector to itself read
 freed memory

---
 library/Java/Util/Vector/Vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index fcc07a9..52b314c 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -129,8 +129,9 @@ namespace Java {
              */
             boolean add(const E &element) {
                 int oldSize = (int) this->original.size();
+                const E value(element); // element may live in the storage being replaced
                 this->ensureCapacity(oldSize + 1);
-                this->original.push_back(element);
+                this->original.push_back(value);
                 return (oldSize != this->original.size());
             }
 
@@ -145,8 +146,9 @@ namespace Java {
                 if (index < 0 || index > size) {
                     throw IllegalArgumentException("index is out of range");
                 }
+                const E value(element); // element may live in the storage being replaced
                 this->ensureCapacity(size + 1);
-                this->original.insert(this->original.begin() + index, element);
+                this->original.insert(this->original.begin() + index, value);
             }
 
             /**
-- 
2.43.0


From 29dbd4a36d975fc88e9782f152381ae9febbb29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 080/141] fix: lastIndexOf on an empty vector threw instead of
 returning -1

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 52b314c..dccba5b 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -446,6 +446,9 @@ namespace Java {
              */
             int lastIndexOf(const E &element) const {
                 int maxIndex = (int) this->original.size() - 1;
+                if (maxIndex < 0) {
+                    return -1;
+                }
                 return this->lastIndexOf(element, maxIndex);
             }
 
-- 
2.43.0


From 607d72fb859f66b2da67c2ec5e0e92bafa252c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 081/141] fix: removing an object of another type crashed

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index dccba5b..9f6b7df 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -518,6 +518,9 @@ namespace Java {
              */
             boolean remove(const Object &element) {
                 const E *referenceToElement = dynamic_cast<const E *>(&element);
+                if (referenceToElement == nullptr) {
+                    return false;
+                }
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     if ((*referenceToElement) == this->original[index]) {
-- 
2.43.0


From f507688d84a5f23a094d2b05ea7c497ea9de472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 082/141] fix: const access outside a vector threw another
 exception than all other accesses

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 9f6b7df..c465a17 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -883,7 +883,7 @@ namespace Java {
 
             const E &operator[](const int index) const {
                 if (index < 0 || index >= this->original.size()) {
-                    throw std::invalid_argument("index is out of range");
+                    throw IllegalArgumentException("index is out of range");
                 }
                 const E *vectorData = this->original.data();
                 return *(vectorData + index);
-- 
2.43.0


From 00029378c184793c6db2f33923440c41e3c7c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 083/141] fix: removeRange could not remove up to the end

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index c465a17..6449a65 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -603,7 +603,7 @@ namespace Java {
                 if (fromIndex < 0
                     || fromIndex >= currentSize
                     || toIndex < 0
-                    || toIndex >= currentSize) {
+                    || toIndex > currentSize) {
                     throw IllegalArgumentException("index is out of range");
                 }
 
-- 
2.43.0


From 320e94954f95de6b91d4aff5724991443f70b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 084/141] fix: removing an element broke the heap order of a
 PriorityQueue

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 1a5757b..c81bcd5 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -226,6 +226,7 @@ namespace Java {
 							targetIterator = std::find(this->original.begin(), this->original.end(), target);
 							if (targetIterator != this->original.end()) {
 								this->original.erase(targetIterator);
+								std::make_heap(this->original.begin(), this->original.end());
 								return true;
 							}
 							return false;
-- 
2.43.0


From b153a9c64cfd32a65fbda0e5af19b4b006f12a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 085/141] fix: polling an empty PriorityQueue corrupted memory

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index c81bcd5..6a0547e 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -196,7 +196,7 @@ namespace Java {
 						 * @return E
 						 */
 						E peek() const {
-							E defaultOfE;
+							E defaultOfE = E();
 							if (this->original.empty()) {
 								return defaultOfE;
 							}
@@ -210,6 +210,9 @@ namespace Java {
 						 */
 						E poll() {
 							E result = this->peek();
+							if (this->original.empty()) {
+								return result;
+							}
 							std::pop_heap(this->original.begin(), this->original.end());
 							this->original.pop_back();
 							return result;
-- 
2.43.0


From 52983c2d37fa6afc74658e3d62a6ae7c71df0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 086/141] fix: the element after the last of a long array was
 indeterminate

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 6a0547e..d62cdc2 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -288,7 +288,7 @@ namespace Java {
 							}
 							// Add "null" terminator (but must use default value).
 							if (anArray.length > originalSize) {
-								E defaultOfE;
+								E defaultOfE = E();
 								anArray[ indexOfArray ] = defaultOfE;
 							}
 							return anArray;
-- 
2.43.0


From b7f025be794bcc0c70e4ab7e3cbc47b6182bc922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 087/141] fix: HashMap.put ignored a key that is already
 present

---
 library/Java/Util/HashMap/HashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 16e5450..599e7fe 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -400,7 +400,7 @@ namespace Java {
 			 * @param value
 			 */
 			void put(const K &key, const V &value) {
-				this->original.insert(std::pair<K, V>(key, value));
+				this->original[key] = value;
 			}
 
 			/**
-- 
2.43.0


From 63fc14429b7d80690efcae3b98f21c2906fecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 088/141] fix: HashMap.equals took a missing key for one mapped
 to the default value

---
 library/Java/Util/HashMap/HashMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 599e7fe..60ea7eb 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -123,8 +123,9 @@ namespace Java {
 				}
 
 				for (var const &thisElement : this->original) {
-					V anotherValue = anotherHashMap.get(thisElement.first);
-					if (thisElement.second != anotherValue) {
+					auto const anotherElement = anotherHashMap.original.find(thisElement.first);
+					if (anotherElement == anotherHashMap.original.end()
+						|| thisElement.second != anotherElement->second) {
 						return false;
 					}
 				}
-- 
2.43.0


From 2c3cdcbe9cf15294721488cbfb5f6561e113eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 089/141] fix: HashMap answered with an indeterminate value for
 an absent primitive

---
 library/Java/Util/HashMap/HashMap.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 60ea7eb..f0b6205 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -352,7 +352,7 @@ namespace Java {
 				if (iteratorToString == this->original.end()) {
 					// Default value if could not found
 					// Prevent null pointer reference
-					V value;
+					V value = V();
 				    return value;
 				}
 				return iteratorToString->second;
@@ -371,7 +371,7 @@ namespace Java {
 			 * 							for the key
 			 */
 			V getOrDefault(const K &key, const V &defaultValue) const {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -430,7 +430,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V putIfAbsent(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
@@ -454,7 +454,7 @@ namespace Java {
 			 * 					previously associated null with key.)
 			 */
 			V remove(const K &key) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -504,7 +504,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V replace(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -532,7 +532,7 @@ namespace Java {
 			boolean replace(const K &key,
 			                const V &oldValue,
 			                const V &newValue) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()
-- 
2.43.0


From 69285d296fbd6ec2c96f912392f4fe79693bc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 090/141] fix: Map.Entry.setValue returned nothing

---
 library/Java/Util/Map/Map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Util/Map/Map.hpp b/library/Java/Util/Map/Map.hpp
index f5da57b..1d67d12 100755
--- a/library/Java/Util/Map/Map.hpp
+++ b/library/Java/Util/Map/Map.hpp
@@ -164,7 +164,9 @@ namespace Java {
 								 * @return V
 								 */
 								V setValue(V value) {
+									V previousValue = this->value;
 									this->value = value;
+									return previousValue;
 								}
 								
 								boolean operator<(const Map<K, V>::Entry &target) const {
-- 
2.43.0


From 3cd2050d553aef6c884bcd66f23da9b38b944fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 091/141] fix: binary search missed elements that are present

---
 library/Java/Util/Arrays/Arrays.hpp | 30 ++++++++---------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index e8e1184..8eb25e3 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -424,24 +424,17 @@ namespace Java {
                 int right = toIndex;
 
                 while (left < right) {
-                    int mid = (left + right) / 2;
+                    int mid = left + (right - left) / 2;
 
                     if (array[mid] >= key) {
                         right = mid;
                     } else {
                         left = mid + 1;
                     }
+                }
 
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
+                if (array[left] == key) { /// Get very first left postition in array
+                    return left;
                 }
 
                 return -1;
@@ -463,24 +456,17 @@ namespace Java {
                 int right = toIndex;
 
                 while (left < right) {
-                    int mid = (left + right) / 2;
+                    int mid = left + (right - left) / 2;
 
                     if (array[mid] >= key) {
                         right = mid;
                     } else {
                         left = mid + 1;
                     }
+                }
 
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
+                if (array[left] == key) { /// Get very first left postition in array
+                    return left;
                 }
 
                 return -1;
-- 
2.43.0


From 7ddb2f381d8220aaf05ca0802083c4db9cc1d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 092/141] fix: binary search over a range ignored where the
 range begins

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 8eb25e3..024fe3a 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -175,7 +175,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             template<typename Type>
@@ -190,7 +190,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             COPY_OF(boolean);
-- 
2.43.0


From a4d540d49d9ec97ffa9d00c0ae5cf4cb4371f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 093/141] fix: copyOfRange could not copy up to the end of the
 array

---
 library/Java/Util/Arrays/Arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 024fe3a..f8eee57 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -590,7 +590,7 @@ namespace Java {
                 if (fromIndex < 0
                     || toIndex < 0
                     || toIndex < fromIndex
-                    || toIndex > original.length - 1) {
+                    || toIndex > original.length) {
                     return result;
                 }
 
-- 
2.43.0


From dac84325c9aaee200bb571912e6b8af9d05bde19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 094/141] fix: the MIME decoder read outside its input

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index f6aa555..a322707 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -323,7 +323,7 @@ int Base64::Decoder::outLength(const Array<byte> &source,
 				length -= sourceEndPosition - sourcePosition + 1;
 				break;
 			}
-			currentByteDecoded = source[ currentByte ];
+			currentByteDecoded = fromBase64Table[ currentByte ];
 			if (currentByteDecoded == -1) {
 				++nonAlphabet;
 			}
-- 
2.43.0


From efdea5818279fdb694834aedb52ea28b2132b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 095/141] fix: the message about a wrong ending byte was read
 from outside the text

---
 library/Java/Util/Base64/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index a322707..8501f9b 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -416,8 +416,8 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 			continue;
 		}
 		throw InterruptedException(
-			"Input byte array has incorrect ending byte at " +
-			sourcePosition);
+			String("Input byte array has incorrect ending byte at ") +
+			String::valueOf(sourcePosition));
 	}
 	
 	return destinationPosition;
-- 
2.43.0


From 3b5d098efa31616a4dd9c6e1b342e7b34f396c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 096/141] fix: a MIME encoder for lines shorter than four
 characters failed

---
 library/Java/Util/Base64/Base64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index 8501f9b..02d8c69 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -449,11 +449,11 @@ Base64::Encoder Base64::getMimeEncoder(int lineLength,
 			throw InterruptedException("Illegal base64 line separator character");
 		}
 	}
-	if (lineLength < 0) {
-		return Encoder::RFC4648;
-	}
 	// Rounded down to nearest multiple of 4.
 	int roundedLineLength = lineLength >> 2 << 2;
+	if (roundedLineLength <= 0) {
+		return Encoder::RFC4648;
+	}
 	return Encoder(false, lineSeparator, roundedLineLength, true);
 }
 
-- 
2.43.0


From b6117a8cf970d495b13a652c132ffb272ae5832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 097/141] fix: URL encoding and decoding cut the text at a zero
 byte

---
 library/Java/Net/URLDecoder/URLDecoder.cpp | 2 +-
 library/Java/Net/URLEncoder/URLEncoder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Net/URLDecoder/URLDecoder.cpp b/library/Java/Net/URLDecoder/URLDecoder.cpp
index 798a240..d7c59ec 100755
--- a/library/Java/Net/URLDecoder/URLDecoder.cpp
+++ b/library/Java/Net/URLDecoder/URLDecoder.cpp
@@ -61,7 +61,7 @@ String URLDecoder::decode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String decodedString = urlDecode(source.toCharPointer());
+        String decodedString = urlDecode(source);
         return decodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
diff --git a/library/Java/Net/URLEncoder/URLEncoder.cpp b/library/Java/Net/URLEncoder/URLEncoder.cpp
index 879a19a..cdd8dd2 100755
--- a/library/Java/Net/URLEncoder/URLEncoder.cpp
+++ b/library/Java/Net/URLEncoder/URLEncoder.cpp
@@ -63,7 +63,7 @@ String URLEncoder::encode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String encodedString = urlEncode(source.toCharPointer());
+        String encodedString = urlEncode(source);
         return encodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
-- 
2.43.0


From 875c9db8dba19fd3a80c5dcfc6fd7b9b343e8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 098/141] fix: an MD5 digest could not be used again after
 digest()

---
 library/Java/Security/MessageDigest/MD5MessageDigest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 0ed6720..e984381 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -43,6 +43,7 @@ int MD5MessageDigest::engineDigest(byte *buffer, int len) {
 
     if (!this->isFinished) {
         md5_finish(&this->state, this->hash);
+        md5_init(&this->state);
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
-- 
2.43.0


From 6ebafde74f497ea44118963f80704ed368888a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 099/141] fix: copying a MessageDigest freed its engine twice

---
 .../Java/Security/MessageDigest/MessageDigest.cpp    | 12 ++++++++++++
 .../Java/Security/MessageDigest/MessageDigest.hpp    |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/library/Java/Security/MessageDigest/MessageDigest.cpp b/library/Java/Security/MessageDigest/MessageDigest.cpp
index ef3f712..4c28c24 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.cpp
@@ -44,6 +44,18 @@ MessageDigest MessageDigest::getInstance(const String &algorithm) {
     throw NoSuchAlgorithmException(algorithm + (string) " not found");
 }
 
+MessageDigest::MessageDigest(MessageDigest &&target) {
+    this->spi = target.spi;
+    this->algorithm = target.algorithm;
+    target.spi = nullptr;
+}
+
+MessageDigest &MessageDigest::operator=(MessageDigest &&target) {
+    std::swap(this->spi, target.spi);
+    std::swap(this->algorithm, target.algorithm);
+    return *this;
+}
+
 MessageDigest::~MessageDigest() {
     if (spi) {
         delete spi;
diff --git a/library/Java/Security/MessageDigest/MessageDigest.hpp b/library/Java/Security/MessageDigest/MessageDigest.hpp
index 6d27ca5..be7c6d0 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.hpp
@@ -38,8 +38,12 @@ namespace Java {
         public:
             static MessageDigest getInstance(const String &algorithm);
 
+            MessageDigest(MessageDigest &&target);
+
             ~MessageDigest();
 
+            MessageDigest &operator=(MessageDigest &&target);
+
             String getAlgorithm();
 
             int getDigestLength();
-- 
2.43.0


From 7ad49216622e8413b2510c335cc2c22d6fca9417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 100/141] fix: UUID::variant shifts the bits as unsigned

---
 library/Java/Util/UUID/UUID.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d904e20..915ad73 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -215,7 +215,11 @@ String UUID::toString() const {
  * @return int
  */
 int UUID::variant() const {
-	return (int) (( this->leastSigBits >> ( 64 - ( this->leastSigBits >> 62 ))) & ( this->leastSigBits >> 63 ));
+	unsigned long bits = (unsigned long) this->leastSigBits;
+	if (( bits >> 63 ) == 0) {
+		return 0;
+	}
+	return (int) ( bits >> ( 64 - ( bits >> 62 )));
 }
 
 /**
-- 
2.43.0


From 8428721cb1c977f67642321bebdd443c0acfbcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 101/141] fix: UUID::fromString treats components that are not
 hexadecimal as malformed

---
 library/Java/Util/UUID/UUID.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index 915ad73..015204c 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -267,6 +267,11 @@ UUID UUID::fromString(String name) {
 	
 	int index;
 	for (index = 0; index < 5; ++index) {
+		const char *digits = components[ index ].toCharPointer();
+		if (strlen(digits) == 0 || strspn(digits, "0123456789abcdefABCDEF") != (size_t) components[ index ].length()) {
+			//FIXME: an exception
+			return UUID();
+		}
 		components[ index ] = "0x" + components[ index ];
 	}
 	
-- 
2.43.0


From f1a149b8e27777d3e7c943b0812e9c6fbb33ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 102/141] fix: time UUIDs stay within the ten ticks of their
 microsecond

---
 library/Java/Util/UUID/libuuid/gen_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/libuuid/gen_uuid.c b/library/Java/Util/UUID/libuuid/gen_uuid.c
index 3c519f2..899f5f0 100755
--- a/library/Java/Util/UUID/libuuid/gen_uuid.c
+++ b/library/Java/Util/UUID/libuuid/gen_uuid.c
@@ -335,7 +335,7 @@ try_again:
 		last = tv;
 	} else if ((tv.tv_sec == last.tv_sec) &&
 	    (tv.tv_usec == last.tv_usec)) {
-		if (adjustment >= MAX_ADJUSTMENT)
+		if (adjustment >= MAX_ADJUSTMENT - 1)
 			goto try_again;
 		adjustment++;
 	} else {
-- 
2.43.0


From 61837c77c54dc3de4f8b4486f9889cccd7236ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 103/141] fix: Random::nextBytes fills the given array

---
 library/Java/Util/Random/Random.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..341b0e9 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -187,11 +187,14 @@ int Random::nextInt(int bound) {
 void Random::nextBytes(Array<byte> *bytes) {
 	int len = bytes->length;
 	int index = 0;
-	for (index; index < len; index++) {
+	while (index < len) {
 		int randomNumber = nextInt();
-		//TODO change to BYTE::SIZE
-		randomNumber >>= 8;
-		bytes->push((byte) randomNumber);
+		int remaining;
+		for (remaining = 4; remaining > 0 && index < len; remaining--) {
+			(*bytes)[ index++ ] = (byte) randomNumber;
+			//TODO change to BYTE::SIZE
+			randomNumber >>= 8;
+		}
 	}
 }
 
-- 
2.43.0


From 341dfc14dfb765e66cd4c43637ed9213eaa120ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 104/141] fix: Random::nextString writes inside its buffer

---
 library/Java/Util/Random/Random.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 341b0e9..6645c71 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -268,14 +268,12 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	std::string charArray;
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
-		charArray[ index ] = CHAR_LIST[ nextInt(charListLength) ];
+		charArray += CHAR_LIST[ nextInt(charListLength) ];
 	}
-	charArray[ length ] = 0;
-	String result = &charArray[ 0 ];
-	return result;
+	return String(charArray);
 }
 
-- 
2.43.0


From 3542b95cc997ce7d0d8bd5dc36f57bbdee4907e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 105/141] fix: a copied Random continues with the pending
 Gaussian

---
 library/Java/Util/Random/Random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 6645c71..9b97af4 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -115,6 +115,8 @@ void Random::resetSeed(long seedVal) {
  */
 Random::Random(const Random &other) {
 	this->seed.store(other.seed.load());
+	this->haveNextGaussianNumber = other.haveNextGaussianNumber;
+	this->nextGaussianNumber = other.nextGaussianNumber;
 }
 
 /**
-- 
2.43.0


From d608874a8655ef7b1688841fb84cffceaddb7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 106/141] fix: every Date keeps its own calendar fields

---
 library/Java/Util/Date/Date.cpp | 6 ++++--
 library/Java/Util/Date/Date.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 93b28b2..287c544 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -524,13 +524,15 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_sec = second;
 
     this->timer = mktime(&localTimer);
-    this->localTimer = localtime(&this->timer);
+    tzset();
+    this->localTimer = localtime_r(&this->timer, &this->localTimerStorage);
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
     time_t ts = timestamp;
-    this->localTimer = localtime(&ts);
+    tzset();
+    this->localTimer = localtime_r(&ts, &this->localTimerStorage);
     this->updateDateStatus();
 }
 
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index d79abbe..0e9398f 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -42,6 +42,7 @@ namespace Java {
 				private:
 						long timer;
 						struct tm *localTimer;
+						struct tm localTimerStorage;
 						string backUp = nullptr;
 				private:
 						/**
-- 
2.43.0


From 5a95558b61d4f76e061bb7b2c415378f20991b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 107/141] fix: Date::UTC interprets its fields as UTC

---
 library/Java/Util/Date/Date.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 287c544..4996eac 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -164,8 +164,14 @@ String Date::toString() const{
 }
 
 long Date::UTC(int year, int month, int date, int hour, int minute, int second) {
-    Date tempDate = Date(year, month, date, hour, minute, second);
-    return Date::getUTCTime(tempDate.getTime());
+    tm utcTimer = { 0 };
+    utcTimer.tm_year = year;
+    utcTimer.tm_mon = month;
+    utcTimer.tm_mday = date;
+    utcTimer.tm_hour = hour;
+    utcTimer.tm_min = minute;
+    utcTimer.tm_sec = second;
+    return timegm(&utcTimer) * 1000;
 }
 
 Date Date::clone() {
-- 
2.43.0


From e607c9f054a1206b65e3d25b0e99eea854c4e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 108/141] fix: Date fields are local time in summer too

---
 library/Java/Util/Date/Date.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 4996eac..b4e0724 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -68,26 +68,31 @@ Date::~Date() {
 
 void Date::setDate(int date) {
     this->localTimer->tm_mday = date;
+    this->localTimer->tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setHours(int hours) {
     this->localTimer->tm_hour = hours;
+    this->localTimer->tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setMinutes(int minutes) {
     this->localTimer->tm_min = minutes;
+    this->localTimer->tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setMonth(int month) {
     this->localTimer->tm_mon = month;
+    this->localTimer->tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setSeconds(int seconds) {
     this->localTimer->tm_sec = seconds;
+    this->localTimer->tm_isdst = -1;
     this->updateDateStatus();
 }
 
@@ -98,6 +103,7 @@ void Date::setTime(long time) {
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
     this->localTimer->tm_year = year;
+    this->localTimer->tm_isdst = -1;
     this->updateDateStatus();
 }
 
@@ -528,6 +534,7 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_hour = hour;
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
+    localTimer.tm_isdst = -1;
 
     this->timer = mktime(&localTimer);
     tzset();
-- 
2.43.0


From e589257496f8dc4f8dd9c7080ece893821b1c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 109/141] fix: Date::toGMTString prints the UTC fields

---
 library/Java/Util/Date/Date.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index b4e0724..507deda 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -193,10 +193,10 @@ String Date::toLocaleString() const {
 String Date::toGMTString() const {
     string pattern = (string) "%d %b %Y %T GMT";
 
-    long utcTime = getUTCTime(this->timer);
-    tm *utcTimer = localtime(&utcTime);
+    tm utcTimer = {0};
+    gmtime_r(&this->timer, &utcTimer);
 
-    return this->timeToString(pattern, utcTimer);
+    return this->timeToString(pattern, &utcTimer);
 }
 
 int Date::hashCode() const {
-- 
2.43.0


From 174c463c3c1ca388bebb8990f11ee92871eb6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 110/141] fix: SimpleDateFormat::format restores the zone of
 the process

---
 library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 5cd8a26..d961278 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -41,6 +41,8 @@ void SimpleDateFormat::setTimeZone(const TimeZone &timeZone) {
 }
 
 String SimpleDateFormat::format(const Date &date) {
+    const char *processZone = getenv("TZ");
+    String savedZone = processZone == nullptr ? "" : processZone;
     String tz = String("TZ=") + this->timeZone.getID();
     putenv(tz.toCharPointer());
     std::time_t current_time;
@@ -51,7 +53,12 @@ String SimpleDateFormat::format(const Date &date) {
     string buffer = (string) calloc(bufferLength, sizeof(char));
     time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
     std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
-    unsetenv("TZ");
+    if (processZone == nullptr) {
+        unsetenv("TZ");
+    } else {
+        setenv("TZ", savedZone.toCharPointer(), 1);
+    }
+    tzset();
     String formattedDate = buffer;
     free(buffer);
     return formattedDate.trim();
-- 
2.43.0


From c0cdf99d62ad0c817ae6f75155d4692a203d915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 111/141] fix: Date::parse honours summer time and the given
 zone

---
 library/Java/Util/Date/Date.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 507deda..62f21a6 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -424,16 +424,14 @@ long Date::parse(String inputString) {
     localTimer.tm_hour = hour;
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
-
-    long result = mktime(&localTimer);
+    localTimer.tm_isdst = -1;
 
     // Add timeZoneOffset to result
     if (timeZoneOffset == -1) {
-        return result * 1000;
+        return mktime(&localTimer) * 1000;
     }
 
-    long offsetFromUTC = Date::getOffsetFromUTC();
-    result = (result + (timeZoneOffset * 60) - offsetFromUTC) ;
+    long result = timegm(&localTimer) + (timeZoneOffset * 60);
     return result * 1000;
 }
 
-- 
2.43.0


From d4039fa9568c160cde406bb6776ca6b2c9466563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 112/141] fix: SimpleDateFormat::format returns results of any
 length

---
 library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index d961278..06abb54 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -52,7 +52,12 @@ String SimpleDateFormat::format(const Date &date) {
     size_t bufferLength = 80;
     string buffer = (string) calloc(bufferLength, sizeof(char));
     time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
-    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
+    while (std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp)) == 0
+        && bufferLength < (1 << 20)) {
+        bufferLength *= 2;
+        free(buffer);
+        buffer = (string) calloc(bufferLength, sizeof(char));
+    }
     if (processZone == nullptr) {
         unsetenv("TZ");
     } else {
-- 
2.43.0


From 64942ab634fd9dfd31ecb4016ef7d5802d31a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 113/141] fix: MediaType.isCompatible is symmetric

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 43748a5..b6e8670 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -117,7 +117,11 @@ boolean MediaType::isCompatible(MediaType other) {
         return false;
     }
 
-    if (this->isWildcardType() || other.isWildcardSubtype()) {
+    if (this->isWildcardType() || other.isWildcardType()) {
+        return true;
+    }
+
+    if (this->subtype.equals(MEDIA_TYPE_WILDCARD) || other.getSubtype().equals(MEDIA_TYPE_WILDCARD)) {
         return true;
     }
 
-- 
2.43.0


From b7fe31ab885eeca7c6dd2f89066033943745ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 114/141] fix: Semaphore waits with a predicate

---
 .../Util/Concurrent/Semaphore/Semaphore.cpp   | 65 +++++--------------
 .../Util/Concurrent/Semaphore/Semaphore.hpp   |  1 -
 2 files changed, 15 insertions(+), 51 deletions(-)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index f124ded..0aa929c 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -27,6 +27,8 @@
 #include "Semaphore.hpp"
 #include "../../../Lang/IllegalArgumentException/IllegalArgumentException.hpp"
 
+#include <algorithm>
+
 using namespace std::chrono;
 using namespace Java::Util;
 
@@ -70,11 +72,9 @@ void Concurrent::Semaphore::release() {
 }
 
 void Concurrent::Semaphore::release(int permits) {
-    std::unique_lock<std::mutex> locker(conditionMutexObject);
-    permitMutexObject.lock();
+    std::unique_lock<std::mutex> locker(permitMutexObject);
     permitCounter += permits;
-    permitMutexObject.unlock();
-    conditionObject.notify_one();
+    conditionObject.notify_all();
 }
 
 boolean Concurrent::Semaphore::tryAcquire() {
@@ -86,55 +86,20 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
-    int currentPermits = 0;
+    std::unique_lock<std::mutex> locker(permitMutexObject);
+    auto enough = [this, permits] { return permits <= permitCounter; };
+
     if (timeout < 0) {
-        for (int i = 0; i < permits; ++i) {
-            permitMutexObject.lock();
-            currentPermits = permitCounter;
-            permitMutexObject.unlock();
-
-            if (currentPermits == 0) {
-                std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-                conditionObject.wait(conditionLocker);
-            }
-
-            permitMutexObject.lock();
-            --permitCounter;
-            permitMutexObject.unlock();
-        }
-        return true;
+        conditionObject.wait(locker, enough);
     } else {
-        {
-            std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-            if (permits <= permitCounter) {
-                permitCounter -= permits;
-                return true;
-            }
-        }
-
-        long waitTime = timeout;
-        while (true) {
-            std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-            const long startTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count();
-            std::cv_status waitStatus = conditionObject.wait_for(
-                    conditionLocker, std::chrono::milliseconds(waitTime));
-            if (waitStatus == std::cv_status::timeout) {
-                return false;
-            }
-
-            const long elapsedTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count() - startTime;
-            waitTime -= elapsedTime;
-
-            {
-                std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-                if (permits <= permitCounter) {
-                    permitCounter -= permits;
-                    return true;
-                }
-            }
+        // a longer wait would overflow the clock
+        const long longestWait = 1000L * 60 * 60 * 24 * 365 * 100;
+        if (!conditionObject.wait_for(locker, milliseconds(std::min(timeout, longestWait)), enough)) {
+            return false;
         }
     }
+
+    permitCounter -= permits;
+    return true;
 }
 
diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
index 6faba4c..bb73eea 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
@@ -128,7 +128,6 @@ namespace Java {
 
             private:
                 std::mutex permitMutexObject;
-                std::mutex conditionMutexObject;
                 std::condition_variable conditionObject;
                 int permitCounter;
             };
-- 
2.43.0


From fc96bd70e9e2fd581ee4e54b3d287377093faa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 115/141] fix: Thread.join returns at once for a thread that
 was not started and every time after the end

---
 library/Java/Lang/Thread/Thread.cpp | 27 ++++++++++++++++-----------
 library/Java/Lang/Thread/Thread.hpp |  1 +
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index a79a1e5..8e76cb0 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -63,18 +63,14 @@ void Thread::run() {
         currentThreadPtr = this;
     }
 
-    mutexObject.lock();
-    alive = true;
-    mutexObject.unlock();
-
     if (this->func) {
         this->func();
     }
-    semaphoreObject.release(1);
-
     mutexObject.lock();
     alive = false;
     mutexObject.unlock();
+
+    semaphoreObject.release(1);
 }
 
 void Thread::setName(String name) {
@@ -101,7 +97,10 @@ unsigned long Thread::getId() {
 }
 
 void Thread::start() {
-    if (this->func && !isAlive()) {
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (this->func && !started) {
+        started = true;
+        alive = true;
         threadObject = std::move(std::thread(&Thread::run, this));
     }
 }
@@ -111,10 +110,16 @@ void Thread::join() {
 }
 
 void Thread::join(long millis) {
-    if (millis > 0) {
-        semaphoreObject.tryAcquire(1, millis);
-    } else {
-        semaphoreObject.acquire();
+    {
+        std::unique_lock<std::mutex> locker(mutexObject);
+        if (!started) {
+            return;
+        }
+    }
+
+    // the permit is given back, it tells every other join that the thread has ended
+    if (semaphoreObject.tryAcquire(1, millis > 0 ? millis : -1)) {
+        semaphoreObject.release(1);
     }
 }
 
diff --git a/library/Java/Lang/Thread/Thread.hpp b/library/Java/Lang/Thread/Thread.hpp
index 5dc85b7..1196c00 100755
--- a/library/Java/Lang/Thread/Thread.hpp
+++ b/library/Java/Lang/Thread/Thread.hpp
@@ -39,6 +39,7 @@ namespace Java {
             class Thread : public Object, public virtual Runnable {
                 private:
                     boolean alive = false;
+                    boolean started = false;
                     boolean detached = false;
                     String name;
                     unsigned long tid = 0;
-- 
2.43.0


From b0f5f3170c7592b9afdfdc2edf4122921640c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 116/141] fix: a Thread subclass overriding run can be joined

---
 library/Java/Lang/Thread/Thread.cpp | 19 +++++++++++++------
 library/Java/Lang/Thread/Thread.hpp |  5 +++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index 8e76cb0..cd5bec9 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -55,6 +55,12 @@ Thread::~Thread() {
 }
 
 void Thread::run() {
+    if (this->func) {
+        this->func();
+    }
+}
+
+void Thread::launch() {
     // set thread id
     this->tid = (unsigned long)pthread_self();
 
@@ -63,9 +69,8 @@ void Thread::run() {
         currentThreadPtr = this;
     }
 
-    if (this->func) {
-        this->func();
-    }
+    this->run();
+
     mutexObject.lock();
     alive = false;
     mutexObject.unlock();
@@ -80,7 +85,9 @@ void Thread::setName(String name) {
 void Thread::init(Runnable *target, String name) {
     this->target = target;
     this->name = name;
-    this->func = std::bind(&Runnable::run, target);
+    if (target != nullptr) {
+        this->func = std::bind(&Runnable::run, target);
+    }
 }
 
 String Thread::getName() {
@@ -98,10 +105,10 @@ unsigned long Thread::getId() {
 
 void Thread::start() {
     std::unique_lock<std::mutex> locker(mutexObject);
-    if (this->func && !started) {
+    if (!started) {
         started = true;
         alive = true;
-        threadObject = std::move(std::thread(&Thread::run, this));
+        threadObject = std::move(std::thread(&Thread::launch, this));
     }
 }
 
diff --git a/library/Java/Lang/Thread/Thread.hpp b/library/Java/Lang/Thread/Thread.hpp
index 1196c00..2b5bd8b 100755
--- a/library/Java/Lang/Thread/Thread.hpp
+++ b/library/Java/Lang/Thread/Thread.hpp
@@ -60,6 +60,11 @@ namespace Java {
                      */
                     void init(Runnable *target, String name);
 
+                    /**
+                     * Body of the started thread: runs this object and records its end.
+                     */
+                    void launch();
+
 				 public:
                     Thread();
                     Thread(Runnable* target);
-- 
2.43.0


From b43c3ef38f61033a9db8c13cf630135721c261c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 117/141] fix: Throwable without a cause has a null cause

---
 library/Java/Lang/Throwable/Throwable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Throwable/Throwable.hpp b/library/Java/Lang/Throwable/Throwable.hpp
index 3254dd0..3a675d9 100755
--- a/library/Java/Lang/Throwable/Throwable.hpp
+++ b/library/Java/Lang/Throwable/Throwable.hpp
@@ -33,7 +33,7 @@ namespace Java {
 		namespace Lang {
 				class Throwable : std::exception {
 				private:
-						Throwable *cause;
+						Throwable *cause = nullptr;
 						String message;
 				
 				public:
-- 
2.43.0


From 0bca439ca2f3bbfce2607c1aecb954edf8b8f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 118/141] fix: Application passes the arguments it counted

---
 library/Java/Lang/Object/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Object/Object.cpp b/library/Java/Lang/Object/Object.cpp
index c117039..64baa92 100755
--- a/library/Java/Lang/Object/Object.cpp
+++ b/library/Java/Lang/Object/Object.cpp
@@ -46,7 +46,7 @@ int Application(void (*program)(Array <String>), int argc, string *argv) {
 		for (argumentIndex = 0; argumentIndex < argc; argumentIndex++) {
 			args.push(argv[ argumentIndex ]);
 		}
-		program(argv);
+		program(args);
 		return 0;
 	} catch (Exception &e) {
 		System::out::println("Application Exception: " + e.getMessage());
-- 
2.43.0


From d322b80ce6cfa53070d752a6b069db1dfbd0be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 119/141] fix: ConcurrentHashMap.get and remove return the
 default value for an absent key

---
 .../Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c6d99ec..56d5ce2 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -340,8 +340,7 @@ namespace Java {
                         var value = original.find(key);
                         return value;
                     } catch (std::out_of_range &exception) {
-                        V v;
-                        return v;
+                        return V();
                     }
                 }
 
-- 
2.43.0


From d774b94c98e1e542ac17ccc7de8bd2deb78c734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 120/141] fix: ConcurrentHashMap.remove looks up and erases in
 one step

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 56d5ce2..5eca5ad 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -419,14 +419,12 @@ namespace Java {
                  * 					previously associated null with key.)
                  */
                 V remove(const K &key) {
-                    V v;
-                    try {
-                        v = original.find(key);
-                        original.erase(key);
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return v;
+                    V result = V();
+                    original.erase_fn(key, [&result](V &current) {
+                        result = current;
+                        return true;
+                    });
+                    return result;
                 }
 
                 /**
@@ -440,16 +438,12 @@ namespace Java {
                  * 			false 		if otherwise
                  */
                 boolean remove(const K &key, const V &value) {
-                    try {
-                        var v = original.find(key);
-                        if (v == value) {
-                            original.erase(key);
-                            return true;
-                        }
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return false;
+                    boolean removed = false;
+                    original.erase_fn(key, [&removed, &value](V &current) {
+                        removed = current == value;
+                        return removed;
+                    });
+                    return removed;
                 }
 
                 /**
-- 
2.43.0


From 6670b2085191c4991ddc7ca9a7d4513c2c7c2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 121/141] fix: ConcurrentHashMap.putIfAbsent and replace

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 39 +++++++++----------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 5eca5ad..c4001a5 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -400,12 +400,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V putIfAbsent(const K &key, const V &value) {
-                    try {
-                        value = original.find(key);
-                    } catch (std::out_of_range &e) {
-                        this->put(key, value);
-                    }
-                    return value;
+                    V result = V();
+                    original.upsert(key, [&result](V &current) {
+                        result = current;
+                    }, value);
+                    return result;
                 }
 
                 /**
@@ -460,13 +459,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V replace(const K &key, const V &value) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()) {
-                        return result;
-                    }
-                    result = iteratorToString->second;
-                    this->put(key, value);
+                    V result = V();
+                    original.update_fn(key, [&result, &value](V &current) {
+                        result = current;
+                        current = value;
+                    });
                     return result;
                 }
 
@@ -485,14 +482,14 @@ namespace Java {
                 boolean replace(const K &key,
                                 const V &oldValue,
                                 const V &newValue) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()
-                        || iteratorToString->second != oldValue) {
-                        return false;
-                    }
-                    this->put(key, newValue);
-                    return true;
+                    boolean replaced = false;
+                    original.update_fn(key, [&replaced, &oldValue, &newValue](V &current) {
+                        if (current == oldValue) {
+                            current = newValue;
+                            replaced = true;
+                        }
+                    });
+                    return replaced;
                 }
 
                 /**
-- 
2.43.0


From 94f01e21b239e72d683b60d42f9f15149d702652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 122/141] fix: ConcurrentHashMap.clone and equals

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c4001a5..96055c6 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -93,13 +93,14 @@ namespace Java {
                     if (original.size() != anotherHashMap.size()) {
                         return false;
                     }
-                    for (var const &thisElement : this) {
-                        V anotherValue = anotherHashMap.get(thisElement.first);
-                        if (thisElement.second != anotherValue) {
-                            return false;
-                        }
+                    boolean same = true;
+                    if (this != &anotherHashMap) {
+                        forEach([&same, &anotherHashMap](K key, V value) {
+                            same = anotherHashMap.containsKey(key) && anotherHashMap.get(key) == value;
+                            return same;
+                        });
                     }
-                    return true;
+                    return same;
                 }
 
                 /**
@@ -131,11 +132,7 @@ namespace Java {
                  * @return ConcurrentHashMap<K, V>
                  */
                 ConcurrentHashMap <K, V> clone() const {
-                    ConcurrentHashMap < K, V > result;
-                    for (auto const &element : this) {
-                        result.put(element.first, element.second);
-                    }
-                    return result;
+                    return ConcurrentHashMap<K, V>(*this);
                 }
 
                 /**
-- 
2.43.0


From 75dd3bab4d60f1edfbd066aca77dd4d84d3b52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 123/141] fix: ConcurrentLinkedQueue.offer adds the element and
 clear removes all

---
 .../ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b2103dc..2ba2e47 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -61,7 +61,7 @@ namespace Java {
                 }
 
                 boolean offer(const E &e) {
-                    return true;
+                    return add(e);
                 }
 
                 E peek() const {
@@ -69,7 +69,7 @@ namespace Java {
                 }
 
                 E poll() {
-                    E e;
+                    E e = E();
                     original.try_dequeue(e);
                     return e;
                 }
@@ -79,6 +79,9 @@ namespace Java {
                 }
 
                 void clear() {
+                    E e;
+                    while (original.try_dequeue(e)) {
+                    }
                 }
 
                 boolean contains(const E &e) {
-- 
2.43.0


From 1b5e986e72d326c19e7b96aad6ca84d8fdf783a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 124/141] fix: a ConcurrentHashMap can be copied after it was
 walked

---
 .../ConcurrentHashMap/libcuckoo/bucket_container.hh           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
index ec82613..01d010e 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
@@ -324,6 +324,10 @@ namespace libcuckoo {
                         const bucket_container &>::type src,
                 std::integral_constant<bool, B> move) {
             assert(dst_hp >= src.hashpower());
+            // A deallocated container has no buckets to take over
+            if (src.buckets_ == nullptr) {
+                return nullptr;
+            }
             bucket_container dst(dst_hp, get_allocator());
             // Move/copy all occupied slots of the source buckets
             for (size_t i = 0; i < src.size(); ++i) {
-- 
2.43.0


From 62aa84dac5cd10d343bfce93749803e098520306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 125/141] fix: the hash of a String covers the whole text

---
 library/Java/Lang/String/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index e2c959d..9598c92 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -1138,7 +1138,7 @@ namespace Java {
             }
         
             inline size_t operator()(const String &target) const {
-                return std::hash<std::string>{}(target.toCharPointer());
+                return std::hash<std::string>{}(target.original);
             }
 
             inline explicit operator const_string() const {
-- 
2.43.0


From db2e08ffbd26d4f7331acdd19977b7988bba7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 126/141] fix: compare UUIDs by their bits with == and through
 Object

---
 library/Java/Util/UUID/UUID.cpp | 5 +++++
 library/Java/Util/UUID/UUID.hpp | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index 015204c..6498de9 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -143,6 +143,11 @@ boolean UUID::equals(UUID target) const {
 	         this->leastSigBits == target.leastSigBits );
 }
 
+boolean UUID::equals(const Object &target) const {
+	const UUID *uuid = dynamic_cast<const UUID *>(&target);
+	return uuid != nullptr && this->equals(*uuid);
+}
+
 /**
  * Returns the least significant 64 bits of this UUID's 128 bit value.
  *
diff --git a/library/Java/Util/UUID/UUID.hpp b/library/Java/Util/UUID/UUID.hpp
index 6894931..2c33bc9 100755
--- a/library/Java/Util/UUID/UUID.hpp
+++ b/library/Java/Util/UUID/UUID.hpp
@@ -115,6 +115,15 @@ namespace Java {
 						 * false : otherwise
 						 */
 						boolean equals(UUID target) const;
+
+						/**
+						 * Compares this object to any object; only a UUID of the
+						 * same bits is equal.
+						 *
+						 * @param Object target
+						 * @return boolean
+						 */
+						boolean equals(const Object &target) const override;
 						
 						/**
 						 * Returns the least significant 64 bits of this UUID's 128 bit value.
-- 
2.43.0


From 8b0a2cc108ea67fe5a64178a50f833ebb01f4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 127/141] fix: compare dates by their instant with == and
 through Object

---
 library/Java/Util/Date/Date.cpp | 5 +++++
 library/Java/Util/Date/Date.hpp | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 62f21a6..f4982da 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -568,6 +568,11 @@ boolean Date::equals(Date obj) const {
     return this->getTime() == obj.getTime();
 }
 
+boolean Date::equals(const Object &obj) const {
+    const Date *date = dynamic_cast<const Date *>(&obj);
+    return date != nullptr && this->equals(*date);
+}
+
 Date::Date(const Date &anotherDate) {
     this->initializeDate(anotherDate.timer);
 }
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 0e9398f..3e1e91f 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -233,6 +233,14 @@ namespace Java {
 						 */
 						// TODO (anhnt) need instanceof, use Date instead of Object
 						boolean equals(Date obj) const;
+
+						/**
+						 * Compares this date to any object; only a date of the same instant is equal.
+						 *
+						 * @param Object obj
+						 * @return boolean
+						 */
+						boolean equals(const Object &obj) const override;
 						
 						/**
 						 * Get day of month
-- 
2.43.0


From e5b603d6af00024a8822756d544a9f52b0463d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 128/141] fix: Set.add tells whether the element was new

---
 library/Java/Util/Set/Set.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/library/Java/Util/Set/Set.hpp b/library/Java/Util/Set/Set.hpp
index ee73525..52419b5 100755
--- a/library/Java/Util/Set/Set.hpp
+++ b/library/Java/Util/Set/Set.hpp
@@ -76,11 +76,7 @@ namespace Java {
 						 * @return boolean
 						 */
 						boolean add(const E &e) {
-							auto insertResult = this->original.insert(e);
-							if (insertResult.first != this->original.end()) {
-								return true;
-							}
-							return false;
+							return this->original.insert(e).second;
 						}
 						
 						/**
-- 
2.43.0


From 9db60c3c6ca0c4f2326a1d513aadf3eb3bb23ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 129/141] fix: fix: a Boolean made from a text ignores the case

---
 library/Java/Lang/Boolean/Boolean.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 075098c..c5a3133 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -46,11 +46,7 @@ Boolean::Boolean(const boolean &target) {
  * @param target
  */
 Boolean::Boolean(const_string target) {
-	if (strcmp(target, "True") == 0) {
-		this->original = true;
-	} else {
-		this->original = false;
-	}
+	this->original = Boolean::parseBoolean(target);
 }
 
 /**
-- 
2.43.0


From 95f5c196cb1fbe48acdf3cfce6cbf743a47d31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 130/141] fix: fix: Boolean.valueOf compares the whole String

---
 library/Java/Lang/Boolean/Boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index c5a3133..0af1ab7 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -185,7 +185,7 @@ Boolean Boolean::valueOf(const_string target) {
  * @return boolean
  */
 Boolean Boolean::valueOf(const String &target) {
-	return Boolean::parseBoolean(target.toCharPointer());
+	return target.toLowerCase().equals(String("true"));
 }
 
 /**
-- 
2.43.0


From 714869d749d50b63968e369b6f4e97150e1fb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:01 +0000
Subject: [PATCH 131/141] fix: Vector.addAll appends at the end

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 6449a65..22005b7 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -158,7 +158,7 @@ namespace Java {
              * @return boolean
              */
             boolean addAll(const std::initializer_list<E> &list) {
-                return this->addAll(0, list);
+                return this->addAll(this->size(), list);
             }
 
             /**
-- 
2.43.0


From 861598e12d22e2822884dd96f8ec1e21c2ee1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:08 +0000
Subject: [PATCH 132/141] fix: Long.valueOf(String) reads a decimal numeral

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index b34ac2b..71b1cab 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -564,7 +564,7 @@ Long Long::valueOf(long l) {
  * @return Long
  */
 Long Long::valueOf(String s) {
-	Long result = decode(s);
+	Long result = parseLong(s, 10);
 	return result;
 }
 
-- 
2.43.0


From f48bec0f4da5864982e72cff030c95cbef0500d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 133/141] fix: Enum can be cloned

---
 library/Java/Lang/Enum/Enum.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/library/Java/Lang/Enum/Enum.hpp b/library/Java/Lang/Enum/Enum.hpp
index b1c68ee..3c0ad6d 100755
--- a/library/Java/Lang/Enum/Enum.hpp
+++ b/library/Java/Lang/Enum/Enum.hpp
@@ -55,10 +55,7 @@ namespace Java {
 
         public:
             Enum clone() {
-                Enum result;
-                result.enumName = this->enumName;
-                result.ordinalNumber = this->ordinalNumber;
-                return result;
+                return Enum(this->enumName, this->ordinalNumber);
             }
 
             /**
-- 
2.43.0


From 48594bd19478b72650bffd92019add546173fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 134/141] fix: Date.parse and getOffsetFromUTC do not share a
 buffer between threads

---
 library/Java/Util/Date/Date.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index f4982da..bd4cc92 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -391,10 +391,11 @@ long Date::parse(String inputString) {
     if (year < 100) {
         auto now = std::chrono::system_clock::now();
         std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-        struct tm *currentTime = std::localtime(&now_c);
+        struct tm currentTime = { 0 };
+        localtime_r(&now_c, &currentTime);
 
-        currentTime->tm_year += 1900;
-        int defaultCenturyStart = currentTime->tm_year - 80;
+        currentTime.tm_year += 1900;
+        int defaultCenturyStart = currentTime.tm_year - 80;
         year += (defaultCenturyStart / 100) * 100;
 
         if (year < defaultCenturyStart) {
@@ -437,12 +438,12 @@ long Date::parse(String inputString) {
 
 long Date::getOffsetFromUTC() {
     long currentTime;
-    struct tm * timeInfo;
+    struct tm timeInfo = { 0 };
     time(&currentTime);
-    timeInfo = gmtime (&currentTime);
-    time_t utc = mktime(timeInfo);
-    timeInfo = localtime(&currentTime);
-    time_t local = mktime(timeInfo);
+    gmtime_r(&currentTime, &timeInfo);
+    time_t utc = mktime(&timeInfo);
+    localtime_r(&currentTime, &timeInfo);
+    time_t local = mktime(&timeInfo);
 
     // Get offset in hours from UTC
     double offsetFromUTC = difftime(utc, local); // HOUR_IN_SECOND;
-- 
2.43.0


From 3a8972c8181ad25de489b6672feb01ec1f2ebd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 135/141] fix: case conversion sets the locale once

---
 library/Java/Lang/String/String.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 9598736..aeb76e6 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -32,9 +32,15 @@
 
 using namespace Java::Lang;
 
+// setlocale is not safe beside other threads: choose the environment's locale once
+static void useEnvironmentLocale() {
+    static const char *const locale = setlocale(LC_CTYPE, "");
+    (void) locale;
+}
+
 std::wstring multiByteStringToWideString(const std::string &input, bool &isValid) {
     isValid = true;
-    setlocale(LC_CTYPE, "");
+    useEnvironmentLocale();
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
         std::wstring result = convertToWstring.from_bytes(input);
@@ -48,7 +54,7 @@ std::wstring multiByteStringToWideString(const std::string &input, bool &isValid
 }
 
 std::string wideStringToMultiByteString(const std::wstring &input) {
-    setlocale(LC_CTYPE, "");
+    useEnvironmentLocale();
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
         return convertToString.to_bytes(input);
-- 
2.43.0


From 37ffab40ddeb22605133df22c8d6ce2e82dfd18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 136/141] fix: Stack.push of one of its own elements read freed
 memory

---
 library/Java/Util/Stack/Stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Stack/Stack.hpp b/library/Java/Util/Stack/Stack.hpp
index 5daaeef..c51ea74 100755
--- a/library/Java/Util/Stack/Stack.hpp
+++ b/library/Java/Util/Stack/Stack.hpp
@@ -88,7 +88,7 @@ namespace Java {
 						 */
 						E push(const E &element) {
 							this->addElement(element);
-							return element;
+							return this->lastElement();
 						}
 						
 						/**
-- 
2.43.0


From 2490327f9b1021708d72d0423933a857c63996c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 137/141] fix: the byte cache is created once when threads ask
 for it together

---
 library/Java/Lang/Bytes/Bytes.cpp | 1 -
 library/Java/Lang/Bytes/Bytes.hpp | 6 +-----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 808bd0f..e8cc251 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -30,7 +30,6 @@
 
 using namespace Java::Lang;
 
-ByteCache *ByteCache::instance = nullptr;
 
 Bytes::Bytes(byte byteValue) {
     this->original = byteValue;
diff --git a/library/Java/Lang/Bytes/Bytes.hpp b/library/Java/Lang/Bytes/Bytes.hpp
index d913df0..8dac333 100755
--- a/library/Java/Lang/Bytes/Bytes.hpp
+++ b/library/Java/Lang/Bytes/Bytes.hpp
@@ -426,8 +426,6 @@ namespace Java {
          */
         class ByteCache {
         private:
-            static ByteCache *instance;
-
             ByteCache() {
                 cache = this->cacheInit();
             };
@@ -446,9 +444,7 @@ namespace Java {
 
         public:
             static ByteCache *getInstance() {
-                if (instance == nullptr) {
-                    instance = new ByteCache();
-                }
+                static ByteCache *const instance = new ByteCache();
                 return instance;
             }
 
-- 
2.43.0


From 3d089790651c91048ffe623c58c64e63f183abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 138/141] fix: ConcurrentHashMap.clear keeps its locks while it
 empties the table

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 6b4b0db..c2e5d8e 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -678,7 +678,7 @@ namespace libcuckoo {
          * Removes all elements in the table, calling their destructors.
          */
         void clear() {
-            lock_all(normal_mode());
+            auto all_locks_manager = lock_all(normal_mode());
             cuckoo_clear();
         }
 
-- 
2.43.0


From 0b69b669692c42e6c67fdddf2350c94865a1a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 139/141] fix: copying a ConcurrentHashMap is safe while other
 threads change it

---
 .../Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 96055c6..d6f5b17 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -64,7 +64,11 @@ namespace Java {
                  * 					are to be placed in this map
                  */
                 ConcurrentHashMap(const ConcurrentHashMap <K, V> &target) {
-                    original = target.original;
+                    // other threads may be changing the target
+                    var entries = const_cast<ConcurrentHashMap<K, V> &>(target).original.lock_table();
+                    for (auto const &entry : entries) {
+                        original.insert(entry.first, entry.second);
+                    }
                 }
 
                 /**
-- 
2.43.0


From 620d22875eb17646008f2288d2ad68ef529f0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:59 +0000
Subject: [PATCH 140/141] fix: ConcurrentHashMap.forEach runs its action
 without holding the locks

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index d6f5b17..0d6f927 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -307,14 +307,16 @@ namespace Java {
                  * @param action
                  */
                 void forEach(const std::function<boolean(K, V)> &action) {
-                    var lockTable = original.lock_table();
-                    auto it = lockTable.begin();
-                    var tableSize = lockTable.size();
-                    for (size_t i = 0; i < tableSize; ++i) {
-                        if (!action((*it).first, (*it).second)) {
+                    // the action may use this map, so it runs after the locks are released
+                    std::vector<std::pair<K, V>> entries;
+                    {
+                        var lockTable = original.lock_table();
+                        entries.assign(lockTable.begin(), lockTable.end());
+                    }
+                    for (auto const &entry : entries) {
+                        if (!action(entry.first, entry.second)) {
                             break;
                         }
-                        it++;
                     }
                 }
 
-- 
2.43.0


From 48d774845c0b813a4b43d6f27b58b88b401ea128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 141/141] fix: ConcurrentHashMap.size may be asked while other
 threads change the map

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index c2e5d8e..0c19c83 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -827,7 +827,7 @@ namespace libcuckoo {
                 return !lock_.test_and_set(std::memory_order_acq_rel);
             }
 
-            counter_type &elem_counter() noexcept { return elem_counter_; }
+            std::atomic<counter_type> &elem_counter() noexcept { return elem_counter_; }
             counter_type elem_counter() const noexcept { return elem_counter_; }
 
             bool &is_migrated() noexcept { return is_migrated_; }
@@ -835,7 +835,7 @@ namespace libcuckoo {
 
         protected:
             std::atomic_flag lock_;
-            counter_type elem_counter_;
+            std::atomic<counter_type> elem_counter_;
             bool is_migrated_;
         };
 
-- 
2.43.0

