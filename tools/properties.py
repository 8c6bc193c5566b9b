#!/usr/bin/env python3
"""Single source of properties.jsonl (run it to rewrite the file)."""
import json, os
L = "library/Java/Lang/"
U = "library/Java/Util/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("T01", "String queries agree with the byte-sequence model",
 "For every string, every query (length, charAt, indexOf, lastIndexOf with and without a start index, contains, startsWith, endsWith, regionMatches with and without case folding, contentEquals, isEmpty, toCharArray, getBytes, getChars) returns exactly what the Java documentation prescribes for that sequence of bytes. An index outside the string is rejected with an exception or the documented 'not found'/false value, and no query ever reads outside the string, loops forever or changes the string.",
 ["inputs"], "All byte strings (empty, single, repetitive, UTF-8, long, equal up to the last byte), all patterns incl. empty, overlapping and longer than the text, all start indices incl. negative and past the end.",
 "StringTest.cpp checks a few dozen literal strings; overlap, start-index and boundary combinations are unbounded.",
 [L+"String/String.cpp", L+"String/String.hpp"],
 [("search by std::string find/rfind plus index arithmetic", L+"String/String.cpp indexOf/lastIndexOf"), ("region compare via sub-strings", L+"String/String.cpp regionMatches")],
 ["return values and exceptions of String's const methods"])

prop("T02", "String transformations produce the exact specified result",
 "subString, subSequence, concat and the + and += operators, replace, replaceAll, replaceFirst, split, trim, toLowerCase, toUpperCase, fromCharArray, copyValueOf and valueOf return exactly the text the Java documentation prescribes for the given content. The receiver and the arguments keep their value (except the left operand of +=), results are independent copies, and invalid ranges are rejected with an exception.",
 ["inputs"], "All contents, ranges, targets, replacements and delimiters, including adjacent, overlapping and empty occurrences and replacements that contain the target.",
 "Tests use single examples per method; adjacency/overlap/empty combinations and aliasing are not sampled.",
 [L+"String/String.cpp", L+"String/String.hpp", "library/Kernel/Common.hpp"],
 [("copying string algebra", L+"String/String.cpp subString/replace/split/trim")])

prop("T03", "String equality, ordering and hashing stay mutually consistent",
 "Two strings are equal exactly when their contents are equal, comparison is the total lexicographic order of the contents (sign antisymmetric, transitive, zero exactly on equality; ignoring case where asked), and every comparison operator agrees with it. Equal strings have equal hash codes, and a hash code is always the documented polynomial of the current content, whatever sequence of assignments, appends and in-place edits produced it.",
 ["inputs", "histories"], "All pairs and triples of contents, and all histories of hashCode calls interleaved with assignment, append and in-place edits.",
 "Tests compare literals once; stale caches only show after a specific history.",
 [L+"String/String.cpp", L+"String/String.hpp"],
 [("cached hash in the object", L+"String/String.hpp hash"), ("equals/compareTo", L+"String/String.cpp")])

prop("T04", "String formatting and number-to-text agree with the reference",
 "Formatting a pattern with any mix of documented conversions, flags, widths and precisions over string, character, boolean and numeric arguments yields the text the C/Java formatting rules prescribe, whatever the resulting length; literal text and escaped percent signs survive unchanged. String.valueOf of a number is its decimal text: exact for integers, up to 6 significant digits for a float, 15 decimals for a double. Too few or mismatched arguments never corrupt memory.",
 ["inputs"], "All patterns built from literals and %s %d %i %u %x %X %o %c %f %e %g %% with flags, widths 0..600 and precisions, all argument values and lengths.",
 "Tests format short fixed patterns; results longer than the internal buffer and flag/width combinations are not reached.",
 [L+"String/String.cpp", L+"String/String.hpp", L+"System/System.hpp"],
 [("regex driven pattern walk and fixed size buffers", L+"String/String.hpp format / print")])

prop("T05", "StringBuilder histories equal the model sequence",
 "After any sequence of append, insert, delete, replace, reverse, set-character, set-length, capacity, trim and copy/assign operations, a StringBuilder's length, characters, substrings, search results and text equal those of a plain character sequence edited in the same way. Operations whose arguments are out of range throw and leave the content unchanged; capacity is never below length; no operation reads or writes outside its storage.",
 ["histories", "inputs"], "All operation sequences with arguments of every supported type and all contents incl. lengths crossing every reallocation boundary.",
 "Tests run 1-3 operations on short literals.",
 [L+"StringBuilder/StringBuilder.cpp", L+"StringBuilder/StringBuilder.hpp"],
 [("hand-managed malloc/realloc buffer", L+"StringBuilder/StringBuilder.cpp")])

prop("T06", "StringBuffer histories equal the model, also when shared by threads",
 "After any sequence of edits a StringBuffer's length, characters, substrings, search results and text equal those of a plain character sequence edited in the same way; out-of-range arguments throw and change nothing, and nothing outside the storage is touched. When several threads append to one buffer, every appended piece appears exactly once, whole, and in the order its thread appended it; when several threads use any of its methods on one buffer, the results and the final text are those of some order of the calls that keeps each thread's own order.",
 ["histories", "schedules"], "All single-thread operation sequences and all interleavings of threads using one buffer.",
 "Tests run 1-3 operations on short literals and never share a buffer between threads.",
 [L+"StringBuffer/StringBuffer.cpp", L+"StringBuffer/StringBuffer.hpp"],
 [("hand-managed buffer guarded by a mutex", L+"StringBuffer/StringBuffer.cpp")])

prop("N01", "Integer text conversions round-trip in every radix",
 "For every value of every integer wrapper, printing it (decimal, binary, octal, hexadecimal, unsigned) gives the canonical numeral and parsing or decoding that numeral in the same radix returns the value. Text that is not a numeral of the radix, or whose value is out of range, is rejected with the documented number-format exception and never accepted as some other number.",
 ["inputs"], "All int/long/short/byte values (incl. MIN/MAX and powers of the radix), radices, signs, leading zeros, and all malformed texts.",
 "Tests use a handful of values; boundaries of each radix and malformed texts are unbounded.",
 [L+"Integer/Integer.cpp", L+"Long/Long.cpp", L+"Short/Short.cpp", L+"Bytes/Bytes.cpp", L+"Character/Character.cpp"],
 [("hand written digit loops", L+"Integer/Integer.cpp parseInt/toString/decode")])

prop("N02", "Bit-level integer operations equal two's-complement arithmetic",
 "bitCount, leading/trailing zero counts, highest/lowest one bit, rotations, bit and byte reversal, sign, unsigned compare, divide and remainder of the integer wrappers return, for every argument, the value defined by two's-complement arithmetic (documented in Java). Rotations accept any distance and are inverse to each other.",
 ["inputs"], "All 32-bit and 64-bit arguments and distances.",
 "Tests sample a few positive values.",
 [L+"Integer/Integer.cpp", L+"Long/Long.cpp", L+"Short/Short.cpp"],
 [("bit tricks", L+"Integer/Integer.cpp bitCount/rotate*/reverse*"), ("bit tricks", L+"Long/Long.cpp")])

prop("N03", "Exact arithmetic reports overflow exactly when it happens",
 "The exact add, subtract, multiply, increment, decrement, negate and narrowing operations return the mathematical result whenever it is representable and throw otherwise; floorDiv and floorMod satisfy their defining identities (quotient rounded toward minus infinity, remainder with the divisor's sign); abs, min, max and signum return the mathematically defined value for every argument pair (which of two zeros, or of a NaN and a number, max and min select is left open).",
 ["inputs"], "All argument pairs of int and long (and float/double where offered), in particular around the representable limits.",
 "Tests take two or three pairs each.",
 [L+"Math/Math.cpp", L+"Math/Math.hpp"],
 [("overflow predicates", L+"Math/Math.cpp *Exact")])

prop("N04", "Boxed numbers behave like the primitives they wrap",
 "For every boxed Integer, Long, Short, Bytes, Double, Float and Boolean, construction, copying, assignment, the arithmetic and compound-assignment operators, comparison operators, equals, compareTo, hashCode and the xxxValue conversions (within the target's range for floating point) give exactly what the wrapped primitives give (two's complement for integers), and the text form always describes the current value. Dividing an integer box by zero throws ArithmeticException and changes nothing. Comparison is a total order (NaN equals itself and comes last, zeros are equal) consistent with equals; equal boxes have equal hash codes. Boolean text is true exactly for 'true' in any case.",
 ["histories", "inputs"], "All values and all sequences of operators applied to boxes.",
 "Tests apply one operator to one small pair.",
 [L+"Integer/Integer.cpp", L+"Long/Long.cpp", L+"Short/Short.cpp", L+"Double/Double.cpp", L+"Float/Float.cpp", L+"Boolean/Boolean.cpp", L+"Bytes/Bytes.cpp", L+"Character/Character.cpp"],
 [("cached text kept beside the value", L+"Integer/Integer.cpp operator="), ("bit compare", L+"Double/Double.cpp compareTo")])

prop("N05", "Floating-point text and classification preserve the value",
 "Parsing the decimal text of a double or float gives the nearest value, text that is not entirely one number is rejected with NumberFormatException, and printing and parsing returns the value within the printed precision (15 decimals for Double, 6 significant digits for Float). NaN and infinities are classified as such, and comparison orders all values totally (numerically, zeros equal, NaN equal to itself and last) in agreement with equality. doubleToLongBits/floatToIntBits give the sign-and-magnitude IEEE bits, and longBitsToDouble is the inverse; the same holds for floats.",
 ["inputs"], "All float/double values incl. zeros, infinities, NaN, tiny and huge magnitudes.",
 "Tests use a few moderate decimal literals.",
 [L+"Double/Double.cpp", L+"Float/Float.cpp"],
 [("hand-written IEEE encoder", L+"Double/Double.cpp doubleToLongBits"), ("hand-written IEEE encoder", L+"Float/Float.cpp floatToIntBits")])

prop("N06", "Floating-point Math functions equal the reference",
 "Every floating-point function of Math (rounding family, powers, roots, logarithms, trigonometry, hypot, scalb, exponent, adjacent values, sign copying, unit conversion, remainder) returns, for every argument including zeros, infinities, NaN and values at rounding boundaries, the value defined by its documentation, within its documented error; round() of NaN is 0 and of huge values the nearest representable integer (the direction of exact ties in round() is left open).",
 ["inputs"], "All double/float arguments.",
 "Tests use a few friendly arguments.",
 [L+"Math/Math.cpp", L+"Math/Math.hpp"],
 [("libm wrappers and hand-written rounding", L+"Math/Math.cpp")])

prop("N07", "Character digit values, ordering and code-point access are exact",
 "digit() gives, for every code point and every radix 2..36, the value of the ASCII digit or letter in that radix and -1 for everything else (and for every other radix). Characters compare as one total order that agrees with compareTo and with ASCII, boxes keep their character through copy and assignment, and charCount is 2 exactly from U+10000. Reading or counting code points of an array by position returns the addressed elements, and a position outside the array or its given bounds is rejected without reading outside.",
 ["inputs"], "All code points, all radices, all character pairs, all arrays and all positions, limits and counts.",
 "Tests sample single characters and positions inside the array.",
 [L+"Character/Character.cpp", L+"Character/Character.hpp"],
 [("digit ranges", L+"Character/Character.cpp digit"), ("position checks", L+"Character/Character.cpp codePointAt/codePointBefore/codePointCount")])

prop("K01", "Array keeps exactly the pushed elements, with checked access",
 "An Array always reports as length exactly the number of elements it holds, iterates and indexes them in insertion order, and copies are independent; indexing outside throws. Building it from a null-terminated argument vector keeps every argument.",
 ["histories"], "All push/assign/copy/append sequences and all indices.",
 "Tests push a few elements.",
 ["library/Kernel/Java.hpp"], [("length mirrored beside a vector", "library/Kernel/Java.hpp Array")])

prop("U01", "ArrayList histories equal the list model",
 "After any sequence of adds, inserts, removals, replacements, range removals, clearing, copying and assignment, an ArrayList's size, elements, searches, arrays and iteration order equal those of a plain list edited in the same way; set returns the previous element. An index outside the list is rejected with an exception and changes nothing.",
 ["histories"], "All operation sequences over all element values and indices, on empty, single and large lists.",
 "Tests run fixed short sequences.",
 [U+"ArrayList/ArrayList.hpp"], [("index guarded vector edits", U+"ArrayList/ArrayList.hpp")])

prop("U02", "LinkedList histories equal the double-ended list model",
 "After any sequence of head, tail and positional insertions, removals, polls, pushes, pops and clears, a LinkedList's size, elements and visiting order equal those of a double-ended queue edited in the same way. Removed elements are released exactly once, and access on an empty list or outside it is rejected without touching invalid memory.",
 ["histories"], "All operation sequences.",
 "Tests run fixed short sequences and never drain a list through both ends.",
 [U+"LinkedList/LinkedList.hpp"], [("list of heap nodes", U+"LinkedList/LinkedList.hpp")])

prop("U03", "Vector and Stack histories equal the list and LIFO models",
 "After any sequence of Vector operations (add, insert, bulk add/remove/retain, replace, remove, resize, clone, assign) its size, elements, searches, equality and arrays equal those of a plain list; a Stack returns elements in exact reverse order of pushing, finds exactly the elements it holds and reports emptiness by EmptyStackException. Capacity obeys the documented growth rule (at least what is needed; by the increment if positive, else doubled) and is never below size; bad indices throw IllegalArgumentException and change nothing.",
 ["histories"], "All operation sequences, capacities and increments.",
 "Tests run fixed short sequences.",
 [U+"Vector/Vector.hpp", U+"Stack/Stack.hpp"], [("vector edits with explicit capacity rule", U+"Vector/Vector.hpp ensureCapacity")])

prop("U04", "PriorityQueue always yields the highest-priority element",
 "After any history of adds, polls, removals of arbitrary elements, clears and copies, peek and poll return the greatest remaining element (the default value when empty, as the library's tests fix it), polling everything yields exactly what was added and not removed in descending order, and size, contains and arrays describe that same multiset.",
 ["histories"], "All operation sequences over all values with duplicates.",
 "Tests remove only the top of a five element queue.",
 [U+"PriorityQueue/PriorityQueue.hpp"], [("binary heap maintained by the standard heap algorithms", U+"PriorityQueue/PriorityQueue.hpp")])

prop("U05", "HashMap histories equal the mapping model",
 "After any sequence of put, putIfAbsent, putAll, replace, remove, clear, clone and assignment, a HashMap holds exactly the last value put for each present key: lookups, defaults, containment, size, iteration, entry set, equality and text describe that mapping and nothing else, and every operation returns the documented previous value (the default value where there is none) or flag.",
 ["histories"], "All operation sequences over colliding and distinct keys (strings and boxed numbers), past several rehash thresholds.",
 "Tests put each key once or twice in tiny maps.",
 [U+"HashMap/HashMap.hpp", U+"Map/Map.hpp", U+"Set/Set.hpp"], [("wrapper over the standard hash map keyed by the library's hash", U+"HashMap/HashMap.hpp")])

prop("U06", "BitSet histories equal the set-of-indices model",
 "After any sequence of single-bit and range set, clear and flip, logical and/or/xor/and-not, copy, clone and conversion operations, a BitSet's members, length, cardinality, next/previous queries, sub-ranges, arrays, text, equality and hash equal those of a set of indices edited in the same way. Negative or reversed ranges throw and change nothing.",
 ["histories"], "All operation sequences with indices around every word boundary and sets of different lengths.",
 "Tests use few fixed ranges.",
 [U+"BitSet/BitSet.cpp", U+"BitSet/BitSet.hpp"], [("word masks and words-in-use bookkeeping", U+"BitSet/BitSet.cpp")])

prop("U07", "Arrays algorithms satisfy their specification on every array",
 "Sorting yields an ordered permutation (only within the given range, whose ends are both included), binary search finds an element exactly when present in the range and answers a negative number otherwise, copyOf pads or cuts, copyOfRange (also into another element type) and fill cover exactly the given range, equals and hashCode describe the elements, on every array and range without NaN; a bad range is rejected (by exception, empty result or no effect) without touching any element.",
 ["inputs"], "All arrays (empty, single, sorted, reversed, constant, duplicates, random; long) and all ranges.",
 "Tests use one small array per function.",
 [U+"Arrays/Arrays.hpp"], [("hand-written quick sort and binary search", U+"Arrays/Arrays.hpp")])

prop("U08", "Set holds each element once and says whether an add changed it",
 "After any history of adds, clears, copies and assignments a Set reports exactly the size, emptiness and elements of the mathematical set of what was added, iterates them once each in ascending order (also through a constant set), add answers true exactly when the element was not there yet, and copies are independent.",
 ["histories", "inputs"], "All histories over several sets of several element types, with few and with many distinct elements.",
 "No test creates a Set.",
 [U+"Set/Set.hpp"], [("std::set", U+"Set/Set.hpp add")])

prop("O01", "Plain objects are equal only to themselves",
 "An object whose class defines no equality of its own equals itself and no other object, also no copy of it, whichever of equals, == and != is asked; its hash code never changes while it lives, and objects whose addresses differ only in the lower 32 bits have different hash codes. A class that defines the hash code is compared by it. The text of an object is its class name, '@' and the hash code in hexadecimal, and waiting without a monitor throws InterruptedException.",
 ["inputs", "histories"], "All histories of creation, copying, comparison and destruction over several objects of classes with and without base classes before Object, at addresses near to and far from one another.",
 "Tests compare two neighbouring objects on the stack.",
 [L+"Object/Object.hpp"], [("hash code from the address", L+"Object/Object.hpp hashCode/equals")])

prop("L01", "System output, environment, clock and exit do exactly what they are asked",
 "System.out.print and println write exactly the text of the value (every byte of it, followed by one line feed for println) and flush it before they return; getenv answers exactly the current value of the variable and the empty text for one that is not set; currentTimeMillis is the wall clock in milliseconds; exit ends the process with the given status.",
 ["inputs", "histories"], "All texts and values of the printable types, all sequences of setting, unsetting and reading environment variables, all exit statuses.",
 "The tests of System's output are empty; the environment and exit are not tested.",
 [L+"System/System.hpp", L+"System/System.cpp", L+"String/String.hpp"], [("stream insertion", L+"System/System.hpp out"), ("C library environment and clock", L+"System/System.cpp")])

prop("L02", "Enum constants keep their name and ordinal and are ordered by ordinal",
 "An Enum constant answers, for as long as it lives, exactly the name (every byte of it, whatever happens to the text it was made from) and the ordinal it was made with; name and text are the same; compareTo has the sign of the ordinals' difference and equals holds exactly for equal ordinals; copies, clones and assignments have the name and ordinal of their source and are independent of it.",
 ["inputs", "histories"], "All names, all ordinals from zero up, all sequences of making, copying, assigning and dropping constants.",
 "The tests make one constant each and never copy, clone or order one.",
 [L+"Enum/Enum.hpp"], [("name and ordinal members", L+"Enum/Enum.hpp")])

prop("X01", "Base64 is a lossless codec and rejects malformed input",
 "For the basic, URL-safe and MIME codecs, with or without padding and with any line length and separator, encoding any byte array gives exactly the RFC 4648/2045 text and decoding that text gives the array back. Text that is not valid for the codec is rejected with an exception (unpadded text is accepted, unused trailing bits are ignored, MIME skips foreign bytes), and no input makes the codec touch memory outside its arrays.",
 ["inputs"], "All byte arrays (incl. empty, zero bytes, every length modulo 3 and around line length multiples) and all candidate encoded texts.",
 "Tests encode a few literals.",
 [U+"Base64/Base64.cpp", U+"Base64/Base64.hpp"], [("table driven encoder/decoder with precomputed output length", U+"Base64/Base64.cpp")])

prop("X02", "URL encoding is lossless, safe and standard",
 "URL-encoding any text yields only unreserved characters, plus signs and well-formed percent escapes, each byte encoded as form-encoding prescribes, and decoding returns the original text; escapes decode in either letter case. Malformed escapes never read outside the text and leave the text before them decoded correctly, and unsupported charset names are rejected.",
 ["inputs"], "All byte strings as text, and all candidate encoded strings incl. truncated escapes.",
 "Tests encode one phrase.",
 ["library/Java/Net/URLEncoder/URLEncoder.cpp", "library/Java/Net/URLDecoder/URLDecoder.cpp"],
 [("byte loop", "library/Java/Net/URLEncoder/URLEncoder.cpp urlEncode"), ("byte loop", "library/Java/Net/URLDecoder/URLDecoder.cpp urlDecode")])

prop("X03", "Message digests equal the standard, however the input is chunked",
 "For every message and every way of splitting it into updates, with resets, moves and reuse in between, the MD5 and SHA-1 digests equal the standard algorithm's result (also for messages longer than 2^32 bits). Digesting or resetting makes the object start afresh, several objects never influence each other, nothing is written past the digest, and requests with missing, empty or too small buffers or unknown algorithms are rejected with the documented exceptions and change nothing.",
 ["inputs", "histories"], "All messages (all lengths around the 64-byte block and padding boundary), all chunkings and reset points.",
 "Tests hash two messages.",
 ["library/Java/Security/MessageDigest/md5.cpp", "library/Java/Security/MessageDigest/sha1.cpp", "library/Java/Security/MessageDigest/MessageDigest.cpp", "library/Java/Security/MessageDigest/MD5MessageDigest.cpp", "library/Java/Security/MessageDigest/SHA1MessageDigest.cpp"],
 [("block buffering", "library/Java/Security/MessageDigest/md5.cpp md5_append"), ("padding", "library/Java/Security/MessageDigest/sha1.cpp SHA1_Final")])

prop("X04", "UUID text, fields and ordering are faithful to the 128 bits",
 "For every pair of 64-bit halves, the text form is the canonical 36-character lower-case form and parsing it (in either letter case, leading zeros of a part optional) gives the same UUID; version, variant, hash, ordering and equality (equals, == and !=, also through Object), and for time-based UUIDs clock sequence and node, are those of the 128 bits as documented. Text with a wrong number of parts or with characters that are not hexadecimal digits never yields any but the zero UUID. Generated random and time UUIDs are pairwise distinct, also when the clock stands still or steps back, carry the right version and variant, and time UUIDs carry the clock's time and one node.",
 ["inputs", "histories"], "All 128-bit values, and all sequences of generations.",
 "Tests check one literal.",
 [U+"UUID/UUID.cpp", U+"UUID/libuuid/gen_uuid.c", U+"UUID/libuuid/unparse.c"],
 [("hex assembly", U+"UUID/UUID.cpp digits/fromString"), ("generator", U+"UUID/libuuid/gen_uuid.c")])

prop("X05", "Random follows the documented generator and its bounds",
 "For every seed and call sequence the generated ints, bounded ints, longs, booleans, floats, doubles, Gaussians and bytes are exactly those of the documented linear congruential generator (Gaussians within rounding); bounded results always lie in range, two generators with the same seed and calls agree, a copy continues like its original, and re-seeding restarts the sequence. Random strings have the requested length over the documented alphabet, non-positive bounds are rejected, and a generator shared by threads hands out every value of its sequence exactly once.",
 ["histories", "inputs"], "All seeds, bounds and call sequences.",
 "Tests only check ranges of a hundred values from an unseeded generator.",
 [U+"Random/Random.cpp", U+"Random/Random.hpp"], [("48-bit LCG step", U+"Random/Random.cpp next")])

prop("X06", "Date fields, arithmetic and text describe one instant",
 "A Date built from fields, from milliseconds or from another date reports the calendar fields, weekday, zone offset, instant (to the second) and text of exactly that instant (proleptic Gregorian, in the process's zone, summer time included), out-of-range fields normalise, setters change exactly what they name, UTC() gives the instant of its fields in UTC, and comparison orders dates by instant: equals, == and != (also through Object) agree with it. Dates never influence one another, and copies are independent.",
 ["inputs", "histories"], "All instants over several centuries incl. leap days and year ends, negative instants, and all setter sequences over several live dates.",
 "Tests look at one date at a time with fixed fields.",
 [U+"Date/Date.cpp", U+"Date/Date.hpp"], [("C library calendar calls", U+"Date/Date.cpp initializeDate/updateDateStatus")])

prop("X07", "Date text is parsed and formatted faithfully",
 "Parsing any supported rendering of an instant (field order, names in full or abbreviated to three or more letters in any case, am/pm, two-digit years, zone names and offsets, parenthesised comments) gives that instant, in the process's zone where the text names none; text that names no complete date, repeats a part or holds unknown words is rejected. Formatting an instant with a pattern and zone gives exactly the fields of that instant in that zone whatever the length of the result, does not depend on earlier formatting calls and does not change the process's own zone.",
 ["inputs", "histories"], "All instants rendered in all supported textual forms, plus malformed texts; all sequences of format calls over several zones.",
 "Tests parse a few literals.",
 [U+"Date/Date.cpp", "library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp", U+"TimeZone/TimeZone.cpp"],
 [("hand-written scanner", U+"Date/Date.cpp parse"), ("TZ environment switch", "library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp format")])

prop("X08", "Media types parse, print and match consistently",
 "Every well-formed type/subtype text parses to a media type that prints back the same text and exposes the same parts (parameters after ';' and surrounding blanks ignored), and every malformed text is rejected with the documented exception. Compatibility is reflexive, symmetric and exactly the wildcard and suffix relation documented.",
 ["inputs"], "All type/subtype texts incl. wildcards and +suffix subtypes, and all pairs.",
 "Tests check a few literal pairs, mostly one direction.",
 ["library/Javax/Ws/Rs/Core/MediaType.cpp", "library/Javax/Ws/Rs/Core/MediaType.hpp"],
 [("split at '/' and ';'", "library/Javax/Ws/Rs/Core/MediaType.cpp valueOf"), ("wildcard rules", "library/Javax/Ws/Rs/Core/MediaType.cpp isCompatible")])

prop("C01", "ConcurrentHashMap equals a mapping under every interleaving",
 "Sequentially, a ConcurrentHashMap holds exactly the last value put for each key and answers lookups, defaults, containment, size, iteration, putIfAbsent, replace, removal, copies and equality accordingly, also while it grows past its initial size. With several threads, no update is lost, duplicated or torn: every history of put, get, remove, putIfAbsent, replace, containsKey and clear is linearizable per key, walking, copying and comparing maps meanwhile shows no torn or invented entry and always ends, and the final content is explained by the operations performed.",
 ["schedules", "histories"], "All operation sequences incl. growth through rehashing, and all interleavings of several threads.",
 "Tests are single-threaded on tiny maps.",
 [U+"Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp", U+"Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh"],
 [("bucket locks of the cuckoo table", U+"Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh")])

prop("C02", "ConcurrentLinkedQueue loses and invents nothing",
 "Every element added by any thread is delivered exactly once, elements of one producer are delivered in the order it added them, and once all producers have finished, draining yields precisely the elements not yet taken. Used by one thread it is a FIFO queue whose size and emptiness are exact, whose poll of an empty queue gives the default value and which clear empties.",
 ["schedules", "histories"], "All sequences of adds and polls, all numbers of producers and consumers and all their interleavings.",
 "The test adds and polls a couple of elements on one thread.",
 [U+"Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp", U+"Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp"],
 [("lock-free block queue", U+"Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp")])

prop("C03", "Semaphore conserves permits and never over-admits",
 "At every moment the permits handed out and not returned never exceed those made available, available permits equal initial plus released minus acquired, tryAcquire succeeds only by taking permits and never blocks past its timeout, and a thread waiting for permits proceeds once enough are released.",
 ["schedules", "histories"], "All sequences and interleavings of acquire, tryAcquire and release with any permit counts.",
 "The semaphore tests are timing dependent examples (excluded from the reliable baseline).",
 [U+"Concurrent/Semaphore/Semaphore.cpp", U+"Concurrent/Semaphore/Semaphore.hpp"],
 [("counter under mutex and condition variable", U+"Concurrent/Semaphore/Semaphore.cpp")])

prop("C04", "Thread runs its target exactly once and join waits for it",
 "A started thread executes its target exactly once, join returns only after the target has finished and its effects are visible, and names, ids and state queries describe the thread; starting, joining and destroying any number of threads in any order never crashes, deadlocks or leaks.",
 ["schedules", "histories"], "All numbers of threads, creation orders and join orders.",
 "The thread tests are timing dependent examples (excluded from the reliable baseline).",
 [L+"Thread/Thread.cpp", L+"Thread/Thread.hpp"], [("std::thread plus semaphore", L+"Thread/Thread.cpp")])

prop("C05", "Threads working on objects of their own do not disturb one another",
 "Whatever several threads do at the same time to objects that only they use (strings, builders, boxed numbers and number texts, arrays, collections, dates made, edited and parsed, media types, codecs, digests, random generators, UUIDs, exceptions), each of them gets exactly the results it would get alone, and no two of them touch the same memory without synchronisation, also when theirs is the first use of a part of the library in the process; constant strings, arrays and collections may be read by any number of threads, and random UUIDs made by different threads are distinct. SimpleDateFormat.format, which borrows the time zone of the whole process, is not part of this.",
 ["schedules", "histories", "inputs"], "All pairs of operations of separate objects, all interleavings.",
 "No test uses two objects from two threads; a shared buffer behind separate objects shows only under one particular overlap.",
 [L+"String/String.cpp", U+"Date/Date.cpp", L+"Integer/Integer.cpp", U+"HashMap/HashMap.hpp", "library/Java/Security/MessageDigest/MessageDigest.cpp", "library/Java/Net/URLEncoder/URLEncoder.cpp"], [("case conversion", L+"String/String.cpp"), ("parse", U+"Date/Date.cpp")])

prop("E01", "Every exception delivers its message and cause unchanged",
 "For every exception class of the library and every message text and cause chain, the caught object's message and cause are exactly those it was constructed with (no cause when none was given), also after copying, slicing into a base class handler, assignment and re-throwing; it is caught by a handler for each documented ancestor.",
 ["inputs", "histories"], "All exception classes, messages, cause chains and copy/rethrow histories.",
 "Tests construct one literal message per class.",
 [L+"Throwable/Throwable.cpp", L+"Exception/Exception.cpp", "library/Java/Io/IOException/IOException.cpp", "library/Javax/Ws/Rs/WebApplicationException/WebApplicationException.cpp"],
 [("message and cause members", L+"Throwable/Throwable.cpp")])

prop("M01", "Library objects release all memory they acquire",
 "Whatever sequence of operations is applied to strings, builders, buffers, boxed values, collections, codecs, dates and exceptions, once the objects are destroyed no memory they allocated stays allocated, and no object's storage is used or freed after it was released.",
 ["histories"], "All operation histories generated for the other properties.",
 "Tests are not run under a leak checker in the baseline, and leaks need particular histories (repeated text conversion, assignment, exceptions mid-operation).",
 [L+"StringBuilder/StringBuilder.cpp", L+"StringBuffer/StringBuffer.cpp", L+"Integer/Integer.cpp", U+"LinkedList/LinkedList.hpp", U+"Date/Date.cpp", U+"BitSet/BitSet.cpp"],
 [("manual free of cached texts and nodes", L+"StringBuilder/StringBuilder.cpp, "+U+"Date/Date.cpp")])

prop("A01", "A program started through Application receives its arguments intact",
 "A program launched through the application entry point runs exactly once, receives every one of its argc command-line arguments in order and byte for byte, and its normal completion yields exit status zero; an exception escaping it is reported on standard output with a non-zero status, without a crash.",
 ["inputs"], "All argument vectors incl. empty strings, long and non-ASCII arguments and many arguments.",
 "The test passes one or two fixed arguments.",
 [L+"Object/Object.cpp", "library/Kernel/Java.hpp"], [("argv to string array conversion", L+"Object/Object.cpp Application")])

here = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), (p["id"], f)
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
