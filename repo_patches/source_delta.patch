From e2156ec8bc83bca53c86c9aa7f28d158f316b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 001/107] fix: convert the most negative integer to text
 without signed overflow

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 ecl_converters/include/ecl/converters/string.hpp       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..72499fb 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -146,7 +146,7 @@ char* convertSignedIntegral(const Number &number, char* buffer_begin, char* buff
     if ( number >= 0 ) {
         s = convertUnsignedIntegral(static_cast<UnsignedNumber>(number),buffer_begin,buffer_end);
     } else {
-        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(-1*number),buffer_begin+1,buffer_end);
+        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(UnsignedNumber(0) - static_cast<UnsignedNumber>(number)),buffer_begin+1,buffer_end);
         if (s == NULL) {
           return NULL;
         }
diff --git a/ecl_converters/include/ecl/converters/string.hpp b/ecl_converters/include/ecl/converters/string.hpp
index eb9d79b..3531b4e 100644
--- a/ecl_converters/include/ecl/converters/string.hpp
+++ b/ecl_converters/include/ecl/converters/string.hpp
@@ -73,14 +73,14 @@ public:
 			char_string = buffer + 30;
 		#endif
 		*char_string = '\0';
-		int remaining = input;
+		unsigned int remaining = static_cast<unsigned int>(input);
 		unsigned int lsd;
 		/*********************
 		** Fix sign
 		**********************/
-		if (remaining < 0 ) {
+		if (input < 0 ) {
 			negative = true;
-			remaining *= -1;
+			remaining = 0u - remaining;
 		}
 		do
 		{
-- 
2.43.0


From bd35c821cc0a44863dc6530ccafc081127e4c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 002/107] fix: convert negative char values to text with a sign

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 72499fb..7cfd724 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -211,7 +211,7 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const char &input) {
-            return converters::convertUnsignedIntegral(input,this->buffer_begin,this->buffer_end);
+            return converters::convertSignedIntegral(input,this->buffer_begin,this->buffer_end);
         }
 };
 /*****************************************************************************
-- 
2.43.0


From b932ed2f3ba7b099d332f033276dd8956fc01663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 003/107] fix: do not write through a char string buffer that
 could not be allocated

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7cfd724..baf44cc 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -76,12 +76,14 @@ class CharStringBuffer : public ConverterBase {
          **/
         CharStringBuffer(int buffer_size = 250) : delete_buffer(true) {
            	buffer_begin = new (std::nothrow) char[buffer_size];
-            *(buffer_begin + buffer_size - 1) = '\0';
-            buffer_end = buffer_begin + buffer_size - 1;
            	if ( buffer_begin == NULL ) {
+           		buffer_end = NULL;
            		ecl_debug_throw(ecl::StandardException(LOC,ecl::MemoryError,"Failed to allocate memory for the char string buffer."));
            		error_handler = ecl::MemoryError;
+           		return;
            	}
+            *(buffer_begin + buffer_size - 1) = '\0';
+            buffer_end = buffer_begin + buffer_size - 1;
         }
         /**
          * Default destructor. If a buffer was initialised by this object, it is deleted.
-- 
2.43.0


From ece294119e180e81637eae72f19fc3cfa3a7d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 004/107] fix: decode byte arrays wider than an int

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 54cefbf..a2cab18 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -92,7 +92,7 @@ public:
     typename ecl::Unsigned<Integral>::type unsigned_value = 0;
     for (unsigned int i = 0; i < byte_array.size(); ++i)
     {
-      unsigned_value |= static_cast<unsigned char>(byte_array[i]) << 8 * i;
+      unsigned_value |= static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<unsigned char>(byte_array[i])) << 8 * i;
     }
     if (ecl::is_signed<Integral>::value)
     {
-- 
2.43.0


From 9857baf67692fc47ac713fccd2e9b3e7eaa2202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 005/107] fix: stop decoding a byte array that is too long for
 the integral type

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index a2cab18..9058ed0 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -85,6 +85,7 @@ public:
       ecl_debug_throw(
           StandardException(LOC,ConversionError,"The byte array is too long for the integral type specified."));
       error_handler = ConversionError;
+      return 0;
     }
     /*********************
      ** Method
-- 
2.43.0


From 35e805fa7cc16e720913d36e74f18a21132d9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 006/107] fix: flag hexadecimal text that ends in the middle of
 a byte

---
 ecl_converters/include/ecl/converters/to_byte_array.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 3cc8c40..3094718 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -385,6 +385,12 @@ public:
       }
       ++input;
     }
+    if (state != waiting_zero) // ran out of characters half way through a byte
+    {
+      ecl_debug_throw(StandardException(LOC,ConversionError));
+      error_handler = ConversionError;
+      bytes.clear();
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From 26f0b94397ca054b153d869c8e1d8bbaf31446f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:42 +0000
Subject: [PATCH 007/107] fix: return the documented failure values from the
 integer converters

---
 ecl_converters/include/ecl/converters/integers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index f8fc62d..c2ba698 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -18,6 +18,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <limits>
 #include <string>
 #include <sstream>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -61,6 +62,7 @@ public:
 		if ( !( stream >> i ) || (stream.get(c))) { // Second part checks that there isn't leftover characters
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return std::numeric_limits<int>::min();
 		}
 		return i;
 	}
@@ -89,6 +91,7 @@ public:
 		if ( ( c < '0' ) || (c > '9') ) {
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return -1;
 		}
 		return static_cast<int>(c - '0');
 	}
-- 
2.43.0


From 8e1dee921da18c384f0ed1117d0386e2a72327b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 008/107] fix: let comma initialisation of a stencil compile

---
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..7aad988 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -203,9 +203,9 @@ public:
    * @param value : the first value to enter , ElementType, ArraySizeinto the array.
    * @return BoundedListInitialiser : the comma initialiser mechanism.
    */
-  containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
+  containers::BoundedListInitialiser<value_type,iterator> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
-- 
2.43.0


From 61d3904f7c5321bf9d04151903e212ccc957bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 009/107] fix: correct the off by one range checks of stencil
 element access

---
 .../ecl/containers/stencil/specialisations.hpp   | 16 ++++++++--------
 .../include/ecl/containers/stencil/stencil.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..e37cba1 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -330,7 +330,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -347,7 +347,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -362,7 +362,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,7 +386,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -723,7 +723,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -740,7 +740,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -755,7 +755,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,7 +779,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( b_iter+i < array )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index 7aad988..b7c0dca 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -398,7 +398,7 @@ public:
   reference operator[](size_type i)
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -415,7 +415,7 @@ public:
   const_reference operator[](size_type i) const
   {
     ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -430,7 +430,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,7 +454,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( b_iter+i < array.begin() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From fc94549cdbe5014af5d447a69f794d5b4127660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:37 +0000
Subject: [PATCH 010/107] fix: keep the contents of a dynamic array assigned to
 itself

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp     | 1 +
 .../include/ecl/containers/array/array_dynamic_no_mem_check.hpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..6d5d4c2 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -255,6 +255,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..b7dd704 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -242,6 +242,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) { return; }
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-- 
2.43.0


From b1523c25de0a7c6a19f689a6ba3ffa245943f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 011/107] fix: leave a dynamic array empty when resizing it
 fails

---
 .../ecl/containers/array/array_dynamic_mem_check.hpp      | 8 +++-----
 .../ecl/containers/array/array_dynamic_no_mem_check.hpp   | 4 +---
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6d5d4c2..ae02d7f 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -495,12 +495,10 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n )  {
-        	if ( underrun != NULL ) {
-        		free(underrun);
-        	}
-            buffer_size = n;
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
+        	clear(); // leaves an empty array behind should the allocation fail
+        	underrun = (char*) malloc(n*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
         	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
+            buffer_size = n;
         	buffer = (Type*) (underrun+bufferUnderrunLength());
         	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
         	// Leave it uninitialised, just like eigen containers...faster
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index b7dd704..6d99756 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -482,9 +482,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n ) {
-            if ( buffer != NULL ) {
-                delete[] buffer;
-            }
+            clear(); // leaves an empty array behind should the allocation fail
             buffer = new Type[n];
             buffer_size = n;
         }
-- 
2.43.0


From db0d8c91ca28eb264eb33f42ab990704db574517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 012/107] fix: restart the index of a fifo when it is resized

---
 ecl_containers/include/ecl/containers/fifo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..9af57ec 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -165,9 +165,10 @@ public:
 	 * @exception StandardException : throws if a zero sized storage is specified.
 	 */
 	void resize( unsigned int length ) {
+		ecl_assert_throw( (length>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
+		data.resize( length );
 		size_fifo = length;
-		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
-		data.resize( size_fifo );
+		running_index = 0;
 	}
 
 private:
-- 
2.43.0


From 51ea84739bfe77ceb583f5cb3c4791984790643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 013/107] fix: empty a dynamic push and pop container when it
 is resized

---
 .../ecl/containers/push_and_pop/push_and_pop_dynamic.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..e5f7ce1 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -248,9 +248,10 @@ public:
 
   void resize( unsigned int length )
   {
+    ecl_assert_throw( (length+1>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
+    data.resize( length+1 );
     size_fifo = length+1;
-    ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
-    data.resize( size_fifo );
+    clear();
   }
 
   /**
-- 
2.43.0


From 471228b5eae7ce1f68d9cf654d9f7b3a328ef6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 014/107] fix: take over the size when copying a dynamic push
 and pop container

---
 .../ecl/containers/push_and_pop/push_and_pop_dynamic.hpp    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index e5f7ce1..53ede9e 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -207,12 +207,10 @@ public:
 
   void operator() (const PushAndPop<Type,0> & otherOne )
   {
+    data = otherOne.data;
+    size_fifo = otherOne.size_fifo;
     leader = otherOne.leader;
     follower = otherOne.follower;
-    for( int i=0; i<size_fifo; i++ )
-    {
-      data[i] = otherOne.data[i];
-    }
   }
 
   /**
-- 
2.43.0


From b338021651ad9926d6c181f63c1eff5d0eaff4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 015/107] fix: return the pointer from
 ReferenceWrapper::pointer

---
 ecl_utilities/include/ecl/utilities/references.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_utilities/include/ecl/utilities/references.hpp b/ecl_utilities/include/ecl/utilities/references.hpp
index 0bc6d13..417e3ed 100644
--- a/ecl_utilities/include/ecl/utilities/references.hpp
+++ b/ecl_utilities/include/ecl/utilities/references.hpp
@@ -124,7 +124,7 @@ public:
      *
      * @return T& : the returned pointer to the wrapped object.
      */
-    T* pointer() const { return *obj_ptr; }
+    T* pointer() const { return obj_ptr; }
 
 private:
     T* obj_ptr;
-- 
2.43.0


From 09194e2699cda41c556e9c1c357c87f15b376b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 016/107] fix: keep the return type in bound member function
 objects

---
 ecl_utilities/include/ecl/utilities/function_objects.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 28b0ed3..17ea352 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -710,7 +710,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
 };
 /**
  * @brief Nullary function object for bound unary member functions.
@@ -770,7 +770,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
     A argument;
 };
 
@@ -833,7 +833,7 @@ public:
         }
 private:
         C &member_class;
-        void (C::*member_function)(A, B);
+        R (C::*member_function)(A, B);
 };
 /*****************************************************************************
 ** Function Object Wrappers
-- 
2.43.0


From b6d072f023a6dec62d0ef7898b2c60093aa152c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 017/107] fix: keep track of the string device's buffer length

---
 ecl_devices/src/lib/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..a1691a1 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -49,10 +49,12 @@ void String::grow(int no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    unsigned long new_length = size()+no_bytes+1;
+    new_buffer = new char[new_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
+    buffer_length = new_length;
     buffer_cur_read = buffer+cur_pos;
     buffer_cur_write = buffer+cur_end;
 }
@@ -109,7 +111,7 @@ void String::clear()
 {
     delete [] buffer;
     buffer = new char[1];
-    buffer_length = 0;
+    buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From b8f877980d7a9590952875fc1cc5a8c548806f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 018/107] fix: keep the string device's buffer when clearing it
 runs out of memory

---
 ecl_devices/src/lib/string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index a1691a1..6a7ec6d 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -109,8 +109,9 @@ unsigned long String::remaining()
  **/
 void String::clear()
 {
+    char* new_buffer = new char[1];
     delete [] buffer;
-    buffer = new char[1];
+    buffer = new_buffer;
     buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
-- 
2.43.0


From 55275e7d2c067e99b649d94a75d1f919431e68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:10 +0000
Subject: [PATCH 019/107] fix: recognise EAGAIN, EWOULDBLOCK, EACCES and EPERM
 in the socket error handlers

---
 .../ecl/devices/detail/socket_error_handler_pos.hpp  | 12 +++++++++---
 .../src/lib/detail/socket_exception_handler_pos.cpp  | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..59d3a95 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,10 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+#if EAGAIN != EWOULDBLOCK
+              case ( EAGAIN ) :
+#endif
+              case ( EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +151,9 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
+#if EAGAIN != EWOULDBLOCK
+          case ( EAGAIN ) : return ecl::Error(ecl::BlockingError);
+#endif
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -188,7 +193,8 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES ) :
+      case ( EPERM )       : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..4b0450c 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,10 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+#if EAGAIN != EWOULDBLOCK
+		case ( EAGAIN ) :
+#endif
+		case ( EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,7 +122,9 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+#if EAGAIN != EWOULDBLOCK
+		case ( EAGAIN ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+#endif
 		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
@@ -179,7 +184,8 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES ) :
+        case ( EPERM )       : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-- 
2.43.0


From 870549a288442c2ee6e7bb9b0f2c9e103c57bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:10 +0000
Subject: [PATCH 020/107] fix: give device errors the same flag with and
 without exceptions

---
 .../include/ecl/devices/detail/socket_error_handler_pos.hpp | 6 ++++--
 ecl_devices/src/lib/detail/error_handler.cpp                | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index 59d3a95..c7a64b4 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -180,7 +180,8 @@ inline ecl::Error send_error() {
  */
 inline ecl::Error gethostbyname_error() {
   switch( h_errno ) {
-          case ( HOST_NOT_FOUND ) : return ecl::Error(ecl::ConnectionError);
+          case ( HOST_NOT_FOUND ) : return ecl::Error(ecl::OpenError);
+          case ( TRY_AGAIN )   : return ecl::Error(ecl::OpenError);
           case ( NO_ADDRESS )  : return ecl::Error(ecl::InvalidArgError);
           case ( NO_RECOVERY ) : return ecl::Error(ecl::UnknownError);
           default              : return ecl::Error(ecl::UnknownError);
@@ -205,7 +206,8 @@ inline ecl::Error connection_error() {
       case ( EINPROGRESS ) : return ecl::Error(ecl::BlockingError);
       case ( EINTR )       : return ecl::Error(ecl::InterruptedError);
       case ( EISCONN )     : return ecl::Error(ecl::ConnectionError);
-      case ( ENETUNREACH ) : return ecl::Error(ecl::ConfigurationError);
+      case ( ENETUNREACH ) :
+      case ( EHOSTUNREACH ): return ecl::Error(ecl::NotFoundError);
       case ( ENOTSOCK )    : return ecl::Error(ecl::InvalidObjectError);
       case ( ETIMEDOUT )   : return ecl::Error(ecl::TimeOutError);
               default              : return ecl::Error(ecl::UnknownError);
diff --git a/ecl_devices/src/lib/detail/error_handler.cpp b/ecl_devices/src/lib/detail/error_handler.cpp
index 8d0dd3a..756b2b1 100644
--- a/ecl_devices/src/lib/detail/error_handler.cpp
+++ b/ecl_devices/src/lib/detail/error_handler.cpp
@@ -34,6 +34,7 @@ namespace devices {
 ecl::Error open_error() {
 	int error_result = errno;
 	switch (error_result) {
+		case ( ENOENT ) : return ecl::Error(ecl::NotFoundError);
 		case ( EINVAL ) : return ecl::Error(ecl::InvalidArgError);
 		case ( EACCES ) : return ecl::Error(ecl::PermissionsError);
 		case ( EFBIG )  : case (EOVERFLOW)  :
-- 
2.43.0


From c3eae18ad07ceb80454572c26e9e5178eee80c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 021/107] fix: delete the existing contents when a file is
 opened as new

---
 ecl_devices/src/lib/ofile_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c1e2265..c207bed 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -66,7 +66,7 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
+        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
                 ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
-- 
2.43.0


From a4eee335c48b0d1842b32af52371e04ad9349894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 022/107] fix: do not close the stream of an output file a
 second time

---
 ecl_devices/src/lib/ofile_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c207bed..39a937b 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -99,12 +99,14 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 bool OFile::close() {
 	if ( open() ) {
 		// This flushes and closes the file descriptor.
-		if ( fclose(file) != 0 ) {
+		// (the stream is gone even if that failed)
+		int result = fclose(file);
+		file = NULL;
+		if ( result != 0 ) {
 			ecl_throw(devices::close_exception(LOC,name));
 			error_handler = devices::close_error();
 			return false;
 		}
-		file = NULL;
 	}
 	error_handler = NoError;
 	return true;
-- 
2.43.0


From 2bb11568d05d324d4daa04b123831ac2e1196f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 023/107] fix: close the file descriptor when its stream could
 not be opened

---
 ecl_devices/src/lib/ofile_pos.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 39a937b..5a3a0d1 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -19,6 +19,7 @@
 
 #include "../../include/ecl/devices/ofile_pos.hpp"
 #include "../../include/ecl/devices/detail/error_handler.hpp"
+#include <errno.h>
 #include <iostream>
 #include <ecl/exceptions/macros.hpp>
 
@@ -85,9 +86,15 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
             file = fdopen(file_descriptor,"a");
             break;
         }
-        default : break;
+        default :
+            file_descriptor = -1;
+            errno = EINVAL;
+            break;
     }
     if ( file == NULL ) {
+        int error_result = errno;
+        ::close(file_descriptor);
+        errno = error_result;
         ecl_throw(devices::open_exception(LOC,file_name));
         error_handler = devices::open_error();
         return false;
-- 
2.43.0


From 81b2f6c257bfbdff5c32f9e98c61e57544644e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 024/107] fix: close the previous file when an output file is
 opened again

---
 ecl_devices/src/lib/ofile_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 5a3a0d1..aea74e1 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -64,6 +64,10 @@ OFile::~OFile() {
 *****************************************************************************/
 
 bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
+	if ( open() ) {
+		fclose(file);
+		file = NULL;
+	}
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-- 
2.43.0


From 5cc77ff883e10e5b99ef0fab2e926421ebca5168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 025/107] fix: let writing nothing to an output file succeed

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp | 4 ++++
 ecl_devices/src/lib/ofile_pos.cpp             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index d24211e..7c88c64 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -313,6 +313,10 @@ long OFile::write(const ByteArray&byte_array) {
     	error_handler = OpenError;
     	return -1;
     }
+    if ( byte_array.size() == 0 ) { // nothing to write is not a failure
+    	error_handler = NoError;
+    	return 0;
+    }
     size_t written = fwrite(&byte_array[0],byte_array.size(),1,file);
     if ( written == 0) {
     	ecl_debug_throw(ecl::StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index aea74e1..d1f3332 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -151,6 +151,10 @@ long OFile::write(const char* s, unsigned long n)
 		error_handler = OpenError;
     	return -1;
 	}
+	if ( n == 0 ) { // nothing to write is not a failure
+		error_handler = NoError;
+		return 0;
+	}
 	size_t written = fwrite(s,n,1,file);
     if ( written <= 0 ) {
     	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
-- 
2.43.0


From c2e13bc1843d0a637c68ec15abf4537c04ba2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 026/107] fix: unlock the shared file registry when opening or
 closing fails

---
 ecl_devices/src/lib/shared_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a5c2e19..565f18a 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -90,6 +90,7 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
     		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
     	} ecl_catch ( StandardException &e ) {
     		shared_instance = NULL;
+    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
     }
@@ -107,6 +108,7 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
+		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
-- 
2.43.0


From e5cc8e66826b667df6599a53661d7ec8fa2b1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 027/107] fix: deregister a shared file whatever its last error
 was

---
 ecl_devices/include/ecl/devices/shared_file.hpp | 2 +-
 ecl_devices/src/lib/shared_file.cpp             | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 179c9a9..ac0d750 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -63,7 +63,7 @@ namespace devices {
  */
 class SharedFileCommon {
 public:
-    SharedFileCommon() : error_handler(NoError) {};
+    SharedFileCommon() : count(0), error_handler(NoError) {};
 	/**
 	 * @brief Automatically opens a file and initialises the count.
 	 *
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 565f18a..45c38c5 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -146,7 +146,8 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 
 SharedFile::~SharedFile() {
 	ecl_try {
-	        if (shared_instance->error_handler.flag() == NoError) {
+	        // an instance that never got registered has no users
+	        if (shared_instance->count > 0) {
 	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
 	        } else {
 	            delete shared_instance;
-- 
2.43.0


From e58ae2d8ef9f726e7adb5db1d4425b967819eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 028/107] fix: release the shared instance when a shared file
 is reopened or was never opened

---
 ecl_devices/include/ecl/devices/shared_file.hpp |  6 +++++-
 ecl_devices/src/lib/shared_file.cpp             | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index ac0d750..decf56a 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -127,7 +127,9 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() {};
+	SharedFile() : shared_instance(new devices::SharedFileCommon()) {
+		shared_instance->error_handler = OpenError;
+	};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
@@ -230,6 +232,8 @@ public:
 	const Error& error() const { return shared_instance->error_handler; }
 
 private:
+	void close();
+
 	devices::SharedFileCommon* shared_instance;
 	devices::CharBuffer buffer;
 };
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 45c38c5..67b5641 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -140,11 +140,19 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 	ecl_try {
 		open(name,mode);
 	} ecl_catch( StandardException &e ) {
+		delete shared_instance;
 		ecl_throw(StandardException(LOC,e));
 	}
 }
 
 SharedFile::~SharedFile() {
+	close();
+}
+
+void SharedFile::close() {
+	if ( shared_instance == NULL ) {
+		return;
+	}
 	ecl_try {
 	        // an instance that never got registered has no users
 	        if (shared_instance->count > 0) {
@@ -157,9 +165,11 @@ SharedFile::~SharedFile() {
 		// use some other mechanism!!!
 		// throw StandardException(LOC,e);
 	}
+	shared_instance = NULL;
 }
 
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	close();
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
-- 
2.43.0


From 616065720c0be667d5ae7d47e051c93ca0354c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:19 +0000
Subject: [PATCH 029/107] fix: let flushing a shared file with an empty buffer
 succeed

---
 ecl_devices/src/lib/shared_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 67b5641..ea2a78b 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -221,7 +221,7 @@ bool SharedFile::flush() {
 	buffer.clear();
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
-	if ( written > 0 ) {
+	if ( written >= 0 ) {
 		return true;
 	} else {
 		return false;
-- 
2.43.0


From cb25c73db654929aba32132749e0f4b42cd2b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:19 +0000
Subject: [PATCH 030/107] fix: write what is left in a shared file's buffer
 before letting go of it

---
 ecl_devices/src/lib/shared_file.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index ea2a78b..424db32 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -153,6 +153,14 @@ void SharedFile::close() {
 	if ( shared_instance == NULL ) {
 		return;
 	}
+	if ( ( shared_instance->count > 0 ) && ( buffer.size() > 0 ) ) {
+		ecl_try {
+			flush();
+		} ecl_catch( StandardException &e ) {
+			// same here, never throw from a destructor
+		}
+	}
+	buffer.clear();
 	ecl_try {
 	        // an instance that never got registered has no users
 	        if (shared_instance->count > 0) {
-- 
2.43.0


From 229a747142a2ff98f15b9334d005975fbd29ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 031/107] fix: write null characters to the console instead of
 dropping what follows them

---
 ecl_devices/include/ecl/devices/detail/character_buffer.hpp | 1 +
 ecl_devices/src/lib/console.cpp                             | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/character_buffer.hpp b/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
index 7891fcf..8a1aa7f 100644
--- a/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
+++ b/ecl_devices/include/ecl/devices/detail/character_buffer.hpp
@@ -93,6 +93,7 @@ public:
 	virtual ~CharStringBuffer() {}
 
 	unsigned int remaining() { return ( buffer_size - fill_point_marker); }
+	unsigned int size() const { return fill_point_marker; }
 	bool full() const;
 	long append(const char &c);
 	long append(const char* s, unsigned long n);
diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b3e1ad6..b71d50d 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -47,7 +47,7 @@ long OConsole::write(const char* s, unsigned long n)
 }
 
 void OConsole::flush() {
-    fputs(buffer.c_str(),stdout);
+    fwrite(buffer.c_str(),1,buffer.size(),stdout);
     buffer.clear();
 	int result = fflush(stdout);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
@@ -79,7 +79,7 @@ long EConsole::write(const char* s, unsigned long n)
 }
 
 void EConsole::flush() {
-    fputs(buffer.c_str(),stderr);
+    fwrite(buffer.c_str(),1,buffer.size(),stderr);
     buffer.clear();
 	int result = fflush(stderr);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
-- 
2.43.0


From 99d3feaad11ae4af99d7e4f0a4ed1f2ce4528a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 032/107] fix: do not take the character 0xff for the end of
 the standard input

---
 ecl_devices/src/lib/console.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b71d50d..5f018b3 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -93,9 +93,10 @@ long IConsole::read(char &c)
 {
 	// fgets is a problem, it doesn't read the newline with the character,
 	// which means the next read from stdin will catch that newline first.
-    c = static_cast<char>(fgetc(stdin));
-    if ( c == EOF ) {
-    	ecl_assert_throw( c != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
+    int result = fgetc(stdin);
+    c = static_cast<char>(result);
+    if ( result == EOF ) {
+    	ecl_assert_throw( result != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // fallover if not in debug mode.
     } else {
 //    	while ( fgetc(stdin) != '\n' ) {}
-- 
2.43.0


From 26074ce7c1f3c385361c69d3a2ef317f3621ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 033/107] fix: initialise the state of a serial device

---
 ecl_devices/include/ecl/devices/serial_pos.hpp | 4 ++--
 ecl_devices/src/lib/serial_pos.cpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a3c0dd5..c231560 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -141,7 +141,7 @@ namespace ecl
      * constructors. Use this with the open() command to do so. You can
      * check for open status with via the open accessor.
      */
-    Serial() : is_open(false), error_handler(NoError)
+    Serial() : file_descriptor(-1), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
     {};
     /**
      * @brief Constructs and opens the connection, RAII style.
@@ -449,7 +449,7 @@ namespace ecl
       error_handler = OpenError;
       return -1;
     }
-    ssize_t no_read;
+    ssize_t no_read = 0;
     if ( ( read_timeout_ms != NonBlocking ) && ( read_timeout_ms < 100 ) )
     {
       fake_snooze.initialise();
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 1103b6f..8a27d47 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -68,7 +68,7 @@ using ecl::StandardException;
 
 Serial::Serial(const std::string& port_name, const BaudRate &baud_rate, const DataBits &data_bits,
                const StopBits &stop_bits, const Parity &parity) :
-    port(port_name), read_timeout_ms(5000), error_handler(NoError)
+    file_descriptor(-1), port(port_name), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
 {
   ecl_try
   {
-- 
2.43.0


From e2c96a3a8a058ef9a683ed05de368a93515a190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 034/107] fix: close the file descriptor when configuring a
 serial device fails

---
 ecl_devices/src/lib/serial_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 8a27d47..a6c072a 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -124,6 +124,7 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
                                         B230400, B460800, B921600};
   if (baud_rate >= (sizeof(baud_rate_flags) / sizeof(B110)))
   {
+    ::close(file_descriptor);
     ecl_throw(StandardException(LOC,ConfigurationError,"Selected baudrate is not supported."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -152,8 +153,10 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   file_lock.l_pid = getpid();
   if (fcntl(file_descriptor, F_SETLK, &file_lock) != 0)
   {
+    int error_result = errno;
+    ::close(file_descriptor);
     ecl_throw(
-        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(errno))));
+        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(error_result))));
     error_handler = IsLockedError;
     is_open = false;
     return false;
@@ -172,6 +175,7 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    **********************/
   if (cfsetspeed(&options, baud_rate_flags[baud_rate]) < 0)
   {
+    ::close(file_descriptor);
     ecl_throw(StandardException(LOC,ConfigurationError,"Setting speed failed."));
     error_handler = InvalidArgError;
     is_open = false;
-- 
2.43.0


From b9148e14cd27921785d511aa28f0d8f949e44678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 035/107] fix: limit the serial read timeout to what the device
 can wait for

---
 ecl_devices/src/lib/serial_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index a6c072a..110d07c 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -351,7 +351,7 @@ void Serial::block(const unsigned long &timeout)
     }
     else
     {
-      options.c_cc[VTIME] = static_cast<unsigned char>(timeout / 100);
+      options.c_cc[VTIME] = static_cast<unsigned char>((timeout / 100 > 255) ? 255 : timeout / 100); // longest that fits
     }
     tcsetattr(file_descriptor, TCSAFLUSH, &options);
   }
-- 
2.43.0


From 95f16d0f1425f6605a5eb0d5fd7ff851b8b4d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 036/107] fix: close socket descriptors once, and only those
 that are open

---
 ecl_devices/include/ecl/devices/socket_client_pos.hpp |  2 +-
 ecl_devices/include/ecl/devices/socket_server_pos.hpp | 10 ++++++++--
 ecl_devices/src/lib/socket_client_pos.cpp             |  7 +++++--
 ecl_devices/src/lib/socket_server_pos.cpp             |  6 +++++-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_client_pos.hpp b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
index 6e957c4..83b83d1 100644
--- a/ecl_devices/include/ecl/devices/socket_client_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
@@ -66,7 +66,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketClient() : is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
+	SocketClient() : socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 4cddb84..7fedbea 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -62,7 +62,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketServer() : is_open(false) {}; /**< @brief Default constructor, use with open(). **/
+	SocketServer() : socket_fd(-1), client_socket_fd(-1), is_open(false) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
@@ -107,7 +107,13 @@ public:
 	 * from 20 seconds to 4 minutes to me.  The official standard says
 	 * that it should be 4 minutes.
 	 */
-	void close() { is_open = false; ::close(socket_fd); }
+	void close() {
+		if ( client_socket_fd != -1 ) { ::close(client_socket_fd); }
+		if ( socket_fd != -1 ) { ::close(socket_fd); }
+		client_socket_fd = -1;
+		socket_fd = -1;
+		is_open = false;
+	}
 
 	bool open() const { return is_open; }
 
diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 14d0cd3..ecb47a6 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -46,6 +46,7 @@ using std::string;
 SocketClient::SocketClient(const std::string &host_name, const unsigned int &port_number) :
 		hostname(host_name),
 		port(port_number),
+		socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -57,8 +58,10 @@ SocketClient::SocketClient(const std::string &host_name, const unsigned int &por
 }
 
 void SocketClient::close() {
-	 is_open = false;
-	 ::close(socket_fd); // should have error handling here
+	if ( is_open ) {
+		is_open = false;
+		::close(socket_fd); // should have error handling here
+	}
 }
 
 bool SocketClient::open( const std::string &host_name, const unsigned int& port_number ) {
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 8271b69..600f236 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -35,6 +35,8 @@ namespace ecl {
 
 SocketServer::SocketServer(const unsigned int &port_number) :
 		port(port_number),
+		socket_fd(-1),
+		client_socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -84,7 +86,9 @@ bool SocketServer::open( const unsigned int& port_number ) {
      ************************************************************************/
     int bind_result = bind(socket_fd, (struct sockaddr *) &server, sizeof(server));
     if ( bind_result == - 1 ) {
-    	is_open = true;
+    	int error_result = errno;
+    	this->close();
+    	errno = error_result;
     	ecl_throw(devices::bind_exception(LOC));
     	error_handler = devices::bind_error();
     	return false;
-- 
2.43.0


From 94e9fc2ab9fb7275a125399284d61d83cfa8606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 037/107] fix: report the number of bytes remaining in a
 socket, or the failure to find it

---
 ecl_devices/src/lib/socket_client_pos.cpp | 3 ++-
 ecl_devices/src/lib/socket_server_pos.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index ecb47a6..0dba5cb 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -194,11 +194,12 @@ long SocketClient::remaining() {
 
     if ( !open() ) { return ConnectionDisconnected; }
 
-    unsigned long bytes;
+    int bytes = 0; // what FIONREAD stores
     int result = ioctl(socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
     	error_handler =  devices::ioctl_error();
+    	return ConnectionProblem;
     }
     error_handler = NoError;
     return bytes;
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 600f236..20ac190 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -159,7 +159,7 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
-    unsigned long bytes;
+    int bytes = 0; // what FIONREAD stores
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw(devices::ioctl_exception(LOC));
-- 
2.43.0


From bf3811be8a803a720207e399f391a79c01030ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 038/107] fix: report a disconnected socket server instead of
 using an invalid descriptor

---
 ecl_devices/src/lib/socket_server_pos.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 20ac190..9fd6300 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -128,7 +128,7 @@ int SocketServer::listen() {
 
 long SocketServer::read(char *s, const unsigned long &n) {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+    if ( !open() || client_socket_fd == -1 ) { return ConnectionDisconnected; }
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
@@ -148,6 +148,8 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 long SocketServer::peek(char *s, const unsigned long &n) {
 
+    if ( !open() || client_socket_fd == -1 ) { return ConnectionDisconnected; }
+
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
@@ -159,6 +161,9 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
+
+    if ( !open() || client_socket_fd == -1 ) { return ConnectionDisconnected; }
+
     int bytes = 0; // what FIONREAD stores
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
@@ -176,6 +181,9 @@ long SocketServer::remaining() {
 *****************************************************************************/
 
 long SocketServer::write(const char *s, unsigned long n) {
+
+    if ( !open() || client_socket_fd == -1 ) { return ConnectionDisconnected; }
+
     #ifdef MSG_NOSIGNAL
         int bytes_written = ::send(client_socket_fd,s,n,0|MSG_NOSIGNAL);
     #else
-- 
2.43.0


From b22892209a2d810021bab4bb45f29c27dfd47a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 039/107] fix: reset the error of a socket client after a
 successful write

---
 ecl_devices/src/lib/socket_client_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 0dba5cb..435432c 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -236,6 +236,7 @@ long SocketClient::write(const char *s, unsigned long n) {
             }
         }
     }
+    error_handler = NoError;
     return bytes_written;
 }
 
-- 
2.43.0


From 96157d1a5f651e946faa2d61c5edae647a0c48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:00 +0000
Subject: [PATCH 040/107] fix: normalise the difference of timestamps of
 opposite sign

---
 ecl_time/src/lib/timestamp_base.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..afb28e4 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -172,6 +172,14 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    // Stamps of opposite sign add up.
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
@@ -187,6 +195,14 @@ TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    // Stamps of opposite sign add up.
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
-- 
2.43.0


From 82258c2308747b28c3c5ef40e984bd7408f50b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:00 +0000
Subject: [PATCH 041/107] fix: sleep for the seconds asked of MicroSleep and
 NanoSleep

---
 ecl_time/src/lib/sleep_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..f39bb90 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000;
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000;
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
-- 
2.43.0


From 3ee8485edcaa65bc455414fbaaeae061b635c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:00 +0000
Subject: [PATCH 042/107] fix: wrap the nanoseconds of a snooze that ends on a
 whole second

---
 ecl_time/src/lib/snooze_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..fbf2587 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
-- 
2.43.0


From f134eed2278915670e83b2db0f9b03c2520378eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:00 +0000
Subject: [PATCH 043/107] fix: use one clock in a frequency monitor

---
 ecl_time/src/lib/frequency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/frequency.cpp b/ecl_time/src/lib/frequency.cpp
index ab693e2..95c6b59 100644
--- a/ecl_time/src/lib/frequency.cpp
+++ b/ecl_time/src/lib/frequency.cpp
@@ -23,7 +23,11 @@ FrequencyMonitor::FrequencyMonitor(
 )
 : current_diagnostics()
 , incoming_counter(0)
+#if defined(ECL_HAS_RT_TIMERS)
+, last_anyalsed((use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp())
+#else
 , last_anyalsed()
+#endif
 , minimum_interval(100000.0) // something ridiculously large so the next interval will fall underneath it
 , maximum_interval(0.0)
 , period(window_period)
@@ -56,7 +60,7 @@ void FrequencyMonitor::update() {
 
 const FrequencyDiagnostics& FrequencyMonitor::analyse() {
 #if defined(ECL_HAS_RT_TIMERS)
-  ecl::TimeStamp now = ecl::TimeStamp::realtime_now();
+  ecl::TimeStamp now = (use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp();
 #else
   ecl::TimeStamp now = ecl::TimeStamp();
 #endif
-- 
2.43.0


From 6a2673bd30471e21c2c14caa96c2cb041a810807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 044/107] fix: wait for the duration given when trying to lock
 a mutex

---
 ecl_threads/src/lib/mutex_pos.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 6f81844..3101ee5 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -17,6 +17,7 @@
  *****************************************************************************/
 
 #include <errno.h>
+#include <time.h>
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/threads/mutex.hpp"
 
@@ -78,9 +79,19 @@ bool Mutex::trylock(Duration &duration)
 {
   #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
     timespec timeout;
-    timeout.tv_sec = duration.sec();
-    timeout.tv_nsec = duration.nsec();
-    int result = pthread_mutex_timedlock(&mutex, &timeout);
+    // pthread_mutex_timedlock expects a point in time, not an interval
+    int result = clock_gettime(CLOCK_REALTIME, &timeout);
+    ecl_assert_throw(result == 0, threads::throwMutexTimedLockException(LOC,errno));
+    timeout.tv_sec += duration.sec();
+    timeout.tv_nsec += duration.nsec();
+    if (timeout.tv_nsec >= 1000000000L) {
+      timeout.tv_nsec -= 1000000000L;
+      timeout.tv_sec += 1;
+    } else if (timeout.tv_nsec < 0) {
+      timeout.tv_nsec += 1000000000L;
+      timeout.tv_sec -= 1;
+    }
+    result = pthread_mutex_timedlock(&mutex, &timeout);
     if (result == ETIMEDOUT) {
       return false;
     }
-- 
2.43.0


From 09fe9e7baa5a2c8e5a1216c6a132823e3a494e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 045/107] fix: do not report a mutex as locked when trying to
 lock it failed

---
 ecl_threads/src/lib/mutex_pos.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 3101ee5..04bca85 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -96,6 +96,9 @@ bool Mutex::trylock(Duration &duration)
       return false;
     }
     ecl_assert_throw(result == 0, threads::throwMutexTimedLockException(LOC,result));
+    if (result != 0) {
+      return false;
+    }
     ++number_locks;
   #else
     (void) duration;
@@ -115,6 +118,10 @@ bool Mutex::trylock()
 
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
 
+  if (result != 0) {
+    return false;
+  }
+
   // If we made it here, it means the attempt locked the mutex.
   ++number_locks;
   return true;
-- 
2.43.0


From 7b90f286421cdbf4a5c4f6e43e1e77d3d7d49659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 046/107] fix: do not count the failed locks and unlocks of a
 mutex

---
 ecl_threads/src/lib/mutex_pos.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 04bca85..4be0a3a 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -71,6 +71,9 @@ void Mutex::lock()
 {
   ++number_locks;
   int result = pthread_mutex_lock(&mutex);
+  if (result != 0) {
+    --number_locks;
+  }
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
@@ -131,6 +134,9 @@ void Mutex::unlock()
 {
   --number_locks;
   int result = pthread_mutex_unlock(&mutex);
+  if (result != 0) {
+    ++number_locks;
+  }
   ecl_assert_throw(result == 0, threads::throwMutexUnLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
-- 
2.43.0


From c5de11718139f33315d72a6f7191ad98a4a4a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 047/107] fix: count the users of a mutex atomically

---
 ecl_threads/include/ecl/threads/mutex_pos.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_threads/include/ecl/threads/mutex_pos.hpp b/ecl_threads/include/ecl/threads/mutex_pos.hpp
index 99335dc..1bb2ad5 100644
--- a/ecl_threads/include/ecl/threads/mutex_pos.hpp
+++ b/ecl_threads/include/ecl/threads/mutex_pos.hpp
@@ -24,6 +24,7 @@
 *****************************************************************************/
 
 #include <errno.h>
+#include <atomic>
 #include <cstring> // strerror function
 #include <string>
 #include <pthread.h>
@@ -155,7 +156,7 @@ public:
 
 private:
 	RawMutex mutex;
-	unsigned int number_locks;
+	std::atomic<unsigned int> number_locks; // waiting threads count themselves without holding the lock
 
 };
 
-- 
2.43.0


From b4edb506401a2901a791cbd0e1301cd1a9daaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 048/107] fix: only take a thread as started when it could be
 created

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 6 ++----
 ecl_threads/src/lib/thread_pos.cpp             | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index fe01f7b..ce130fa 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -457,8 +457,6 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
@@ -470,6 +468,7 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
@@ -479,8 +478,6 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
@@ -492,6 +489,7 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8decbc2..27c4840 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -43,8 +43,6 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   if ( has_started ) {
     ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
     return Error(BusyError); // if in release mode, gracefully fall back to return values.
-  } else {
-    has_started = true;
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
@@ -57,6 +55,7 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
-- 
2.43.0


From ce7cfd631f766125eade2a1dadc83208ad7dd5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 049/107] fix: do not delete the task of a cancelled thread
 twice or while it is in use

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 15 +++++++--------
 ecl_threads/src/lib/thread_pos.cpp             |  9 ++-------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index ce130fa..f2de90d 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -23,6 +23,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <memory>
 #include <pthread.h>
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
@@ -92,12 +93,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, false > *ptr = static_cast< ThreadTask< F, false > * >(ptr_this);
+	    // owned here, so that it goes when the thread finishes and when it gets cancelled
+	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -140,12 +140,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, true > *ptr = static_cast< ThreadTask< F, true > * >(ptr_this);
+	    // owned here, so that it goes when the thread finishes and when it gets cancelled
+	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 27c4840..14bd258 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -78,13 +78,8 @@ Thread::~Thread() {
 }
 void Thread::cancel() {
   int result = pthread_cancel(thread_handle);
-  // Note - if we reach here, then entrypoint hasn't gone through to conclusion and
-  // subsequently the thread_task object on the heap hasn't been deleted. So...
-  // always delete it here!
-    if ( thread_task != NULL ) {
-      delete thread_task;
-      thread_task = NULL;
-    }
+  // The running thread owns its task and deletes it, be it on conclusion or on cancellation.
+  thread_task = NULL;
     if ( result != 0 ) {
         ecl_debug_throw(threads::throwPthreadJoinException(LOC,result));
     }
-- 
2.43.0


From 922c81ce18b772d6aa4ff181d5b884bd8ee2a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 050/107] fix: use the handle of a thread only from when it
 starts until it is joined

---
 ecl_threads/src/lib/thread_pos.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 14bd258..5fbe0ae 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -77,7 +77,8 @@ Thread::~Thread() {
   }
 }
 void Thread::cancel() {
-  int result = pthread_cancel(thread_handle);
+  // there is no handle to use if it never started or has already been joined
+  int result = ( has_started && !join_requested ) ? pthread_cancel(thread_handle) : ESRCH;
   // The running thread owns its task and deletes it, be it on conclusion or on cancellation.
   thread_task = NULL;
     if ( result != 0 ) {
@@ -86,11 +87,10 @@ void Thread::cancel() {
 }
 
 void Thread::join() {
-  join_requested = true;
-  if( thread_task != NULL ) {
+  if( has_started && !join_requested ) {
     int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
       ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
-      (void) result; // for unused variable warnings, in case the assert wasn't triggered
+      join_requested = (result == 0);
   }
 }
 
-- 
2.43.0


From 007f9aa7425ae2fbcc91adf3f01d9149155efd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 051/107] fix: report that a thread is no longer running once
 its function has finished

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 12 +++++++++---
 ecl_threads/src/lib/thread_pos.cpp             |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index f2de90d..397e083 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -23,6 +23,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
 #include <memory>
 #include <pthread.h>
 #include "thread_exceptions_pos.hpp"
@@ -51,10 +52,12 @@ namespace threads {
  */
 class ECL_LOCAL ThreadTaskBase {
 public:
-	virtual ~ThreadTaskBase() {};
+	virtual ~ThreadTaskBase() { *finished = true; };
+
+	std::shared_ptr< std::atomic<bool> > finished; /**< Outlives the task, so that the thread object can tell that it is gone. **/
 
 protected:
-	ThreadTaskBase(const Priority& priority) : priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+	ThreadTaskBase(const Priority& priority) : finished(new std::atomic<bool>(false)), priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
 	ecl::Priority priority_level;
 };
 /**
@@ -380,7 +383,7 @@ public:
 	 *
 	 * @return bool : true if the thread task is still running, false otherwise.
 	 */
-	bool isRunning() const { if ( thread_task == NULL ) { return false; } else { return true; } }
+	bool isRunning() const { return ( thread_task != NULL ) && !*thread_finished; }
 
 	/**
 	 * @brief Queue a cancel request for this thread to abort.
@@ -417,6 +420,7 @@ private:
     pthread_attr_t attrs;
     sched_param schedule_parameters;
     threads::ThreadTaskBase *thread_task;
+    std::shared_ptr< std::atomic<bool> > thread_finished;
     bool has_started;
     bool join_requested;
 
@@ -459,6 +463,7 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	thread_finished = thread_task->finished;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< BoundNullaryMemberFunction<C,void> >::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
@@ -480,6 +485,7 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	}
 	initialise(stack_size);
 	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	thread_finished = thread_task->finished;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask<F, is_reference_wrapper<F>::value>::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 5fbe0ae..badaa7d 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -47,6 +47,7 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
   thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  thread_finished = thread_task->finished;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< NullaryFreeFunction<void> >::EntryPoint, thread_task);
   pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
-- 
2.43.0


From 76ddfd0e9a5266257a7d7f9d40be2e3f1ac7988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:24 +0000
Subject: [PATCH 052/107] fix: do not report a threadable as running when its
 thread could not be created

---
 ecl_threads/include/ecl/threads/threadable.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/threadable.hpp b/ecl_threads/include/ecl/threads/threadable.hpp
index 1f90eb4..fd3e054 100644
--- a/ecl_threads/include/ecl/threads/threadable.hpp
+++ b/ecl_threads/include/ecl/threads/threadable.hpp
@@ -28,6 +28,8 @@
 
 #include <ecl/utilities/parameter.hpp>
 #include <ecl/config/macros.hpp>
+#include <ecl/exceptions/standard_exception.hpp>
+#include <ecl/exceptions/macros.hpp>
 #include "thread.hpp"
 #include "priority.hpp"
 
@@ -74,12 +76,23 @@ public:
 	 * Note that it makes a check first to see if a thread is already running and simply
 	 * returns if there is. There can be only one!
 	 *
-	 * @return bool : true if started, false if a worker thread is already running.
+	 * @return bool : true if started, false if a worker thread is already running or could not be created.
 	 */
 	bool start(const Priority &priority = DefaultPriority) {
 		if ( isRunning() ) { return false; }
 		isRunning(true); // This is not ideal, as it's not perfectly atomic (i.e. someone can query isRunning before this gets set).
-		Thread thread(&Threadable::executeThreadFunction,*this, priority);
+		Thread thread;
+		Error result(UnknownError);
+		ecl_try {
+			result = thread.start(&Threadable::executeThreadFunction,*this, priority);
+		} ecl_catch(const StandardException &e) {
+			isRunning(false);
+			ecl_throw(StandardException(LOC,e));
+		}
+		if ( result.flag() != NoError ) {
+			isRunning(false);
+			return false;
+		}
 		return true;
 	}
 	/**
-- 
2.43.0


From 8119be59125948bb290e963db42ae894679d3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:24 +0000
Subject: [PATCH 053/107] fix: report that a priority could not be set

---
 ecl_threads/src/lib/priority_pos.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 83d974e..9e0d50f 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -91,19 +91,19 @@ bool set_priority(Priority priority_level)
             break;
         }
         case HighPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case NormalPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
             break;
         }
         case LowPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case BackgroundPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MAX);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MAX);
             break;
         }
         default : {
-- 
2.43.0


From 4d3bec03f7799f54b76d5184863d7c45508dd9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:57 +0000
Subject: [PATCH 054/107] fix: recognise the background priority when reading
 it back

---
 ecl_threads/src/lib/priority_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 9e0d50f..9d162ab 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -176,6 +176,7 @@ Priority get_priority()
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4) : { return HighPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2) : { return NormalPriority; }
         case (PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4) : { return LowPriority; }
+        case (PRIO_MAX-1) : // where PRIO_MAX itself ends up on linux
         case (PRIO_MAX) : { return BackgroundPriority; }
         default : return NormalPriority;
     }
-- 
2.43.0


From d74a981f657c0eda12701e864eb0d4c2bddcba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:57 +0000
Subject: [PATCH 055/107] fix: leave real time scheduling when setting a
 priority that is not real time

---
 ecl_threads/src/lib/priority_pos.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 9d162ab..3fced97 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -84,6 +84,19 @@ bool set_priority(Priority priority_level)
     ** scheduling priority which can be seen when you do a 'top'.
     *************************************************************************/
     int return_value = 0;
+    #if _POSIX_PRIORITY_SCHEDULING > 0
+        // niceness has no effect on a process that is scheduled in real time
+        if ( priority_level >= BackgroundPriority ) {
+            sched_param schedule_parameters;
+            schedule_parameters.sched_priority = 0;
+            int scheduler = sched_getscheduler(0);
+            if ( ( scheduler == -1 ) ||
+                 ( ( scheduler == SCHED_RR ) && ( sched_setscheduler(0, SCHED_OTHER, &schedule_parameters) == -1 ) ) ) {
+                ecl_debug_throw(threads::throwPriorityException(LOC));
+                return false;
+            }
+        }
+    #endif
 
     switch (priority_level) {
         case CriticalPriority : {
-- 
2.43.0


From bacd910c0513fea6c6dc0157ee400358631df1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:57 +0000
Subject: [PATCH 056/107] fix: run a thread whose priority cannot be set
 instead of ending the process

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index 397e083..ffd3bfb 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -29,6 +29,7 @@
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
 #include <ecl/concepts/nullary_function.hpp>
+#include <ecl/exceptions/macros.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/utilities/void.hpp>
 #include <ecl/utilities/function_objects.hpp>
@@ -98,7 +99,11 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // owned here, so that it goes when the thread finishes and when it gets cancelled
 	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ecl_try {
+	        ecl::set_priority(ptr->priority_level);
+	    } ecl_catch(const StandardException &) {
+	        // not permitted, so it has to run with the priority it inherited (letting this out would end the process)
+	    }
 	    (ptr->function)();
 	    return NULL;
 	}
@@ -145,7 +150,11 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // owned here, so that it goes when the thread finishes and when it gets cancelled
 	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ecl_try {
+	        ecl::set_priority(ptr->priority_level);
+	    } ecl_catch(const StandardException &) {
+	        // not permitted, so it has to run with the priority it inherited (letting this out would end the process)
+	    }
 	    (ptr->function)();
 	    return NULL;
 	}
-- 
2.43.0


From 39712a4fcc980b7946218ed8c62c8257e80b5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 057/107] fix: keep waiting for a semaphore when interrupted by
 a signal

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 7a8291a..dcf1fad 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -103,7 +103,8 @@ Semaphore::~Semaphore()
 
 void Semaphore::lock()
 {
-	sem_wait(semaphore);
+	// a signal handler that interrupts the waiting must not let it through
+	while ( ( sem_wait(semaphore) == -1 ) && ( errno == EINTR ) ) {}
 }
 
 int Semaphore::count()
-- 
2.43.0


From 18de45a63bcfd570c2befe3cf32691a4f2e8337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 058/107] fix: do not wait a second too long for a semaphore at
 the end of a second

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index dcf1fad..4a3a257 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -149,8 +149,13 @@ bool Semaphore::trylock( const Duration &timeout ) {
 		ctime.tv_sec += timeout.sec();
 
 		tnsec = ctime.tv_nsec + timeout.nsec();
-		if(tnsec >=  999999999 ) { ctime.tv_sec += 1; }
-		tnsec %= 1000000000;
+		if ( tnsec >= 1000000000 ) {
+			ctime.tv_sec += 1;
+			tnsec -= 1000000000;
+		} else if ( tnsec < 0 ) {
+			ctime.tv_sec -= 1;
+			tnsec += 1000000000;
+		}
 		ctime.tv_nsec = tnsec;
 
 		// We already guarantee timeout is the right structure, so no
-- 
2.43.0


From 1366d99f88eaeb0f74ccb59a59d09badd62045b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 059/107] fix: do not remove the name of a semaphore that could
 not be opened

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 4a3a257..9274b00 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -95,6 +95,7 @@ Semaphore::Semaphore(const std::string& string_id):
 
 Semaphore::~Semaphore()
 {
+    if ( semaphore == SEM_FAILED ) { return; } // never got hold of anything (only seen in release mode)
 	// Should check the error, but only fails if the semaphore is invalid (checked by constructor).
     sem_close(semaphore);
 	// Should check the error, but only fails with noncritical errors.
-- 
2.43.0


From 0dd683ab7ab8cee4bc4e3449d58a1dfe433c10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 060/107] fix: only release what was acquired when shared
 memory cannot be initialised

---
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 88f8894..ecde51b 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -42,6 +42,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <errno.h>
 #include <sstream>
 #include <string>
 #include <sys/mman.h>        /* For shm_open() */
@@ -195,9 +196,13 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
     void * shm_address;
     if ( (shm_address = mmap(0,shared_memory_size,PROT_READ|PROT_WRITE,MAP_SHARED,shm_descriptor,(long) 0)) == MAP_FAILED )
     {
-        shared_memory_manager = false;
+        int error_result = errno;
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { // otherwise it belongs to someone else
+            unlink();
+        }
+        shared_memory_manager = false;
+        errno = error_result;
         ecl_throw( ipc::memoryMapException(LOC) );
     }
     /*
@@ -206,9 +211,12 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
      */
     if ( ftruncate(shm_descriptor,shared_memory_size) < 0 )
     {
-        shared_memory_manager = false;
+        munmap(shm_address,shared_memory_size);
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { // otherwise it belongs to someone else
+            unlink();
+        }
+        shared_memory_manager = false;
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
     }
 
-- 
2.43.0


From fe0018b20f84dcb8e9d90aad3f7ee5586d97e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:37 +0000
Subject: [PATCH 061/107] fix: measure the timeout of a semaphore with the
 clock the system uses for it

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 9274b00..e818874 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -15,6 +15,7 @@
 #ifdef ECL_HAS_POSIX_SEMAPHORES
 
 #include <errno.h>
+#include <time.h>
 #include <sstream>
 #include <ecl/errors/handlers.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -145,7 +146,8 @@ bool Semaphore::trylock( const Duration &timeout ) {
 		long tnsec;
 		timespec ctime;
 
-		if ( epoch_time(ctime).flag() != NoError ) { return false; }
+		// sem_timedwait looks at the real time clock (epoch_time is monotonic)
+		if ( clock_gettime(CLOCK_REALTIME, &ctime) != 0 ) { return false; }
 
 		ctime.tv_sec += timeout.sec();
 
-- 
2.43.0


From 4175b344bed06b5ba814a9faebb74f81a1ee1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 062/107] fix: temporary number formats start from the stored
 alignment

format(n,w,base) read an alignment that nothing had set, or the one left
over from the previous temporary format.
---
 ecl_formatters/include/ecl/formatters/number.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..8256b72 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -330,6 +330,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
     width_ = &tmp_width;
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
+    *alignment_ = prm_alignment;
     base(b);
     width(w);
     value_ = n;
@@ -345,6 +346,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::Al
     width_ = &tmp_width;
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
+    *alignment_ = prm_alignment;
     base(b);
     width(w);
     align(a);
-- 
2.43.0


From 3cb8e1514227af9c8fd504f6d7e362a59c50ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 063/107] fix: temporary float formats leave the stored
 alignment alone

The width was set while the alignment still referred to the stored one,
which a width turns from none to right.
---
 .../include/ecl/formatters/floats.hpp          | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index ace8dbe..590c61f 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -320,15 +320,12 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
     width_ = &tmp_width;
-    width(w);
-
     precision_ = &tmp_precision;
-    precision(p);
-
     alignment_ = &tmp_alignment;
-    align(prm_alignment);
-
     base_ = &tmp_base;
+    *alignment_ = prm_alignment;
+    width(w);
+    precision(p);
     base(prm_base);
 
     value_ = n;
@@ -340,15 +337,12 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
     width_ = &tmp_width;
-    width(w);
-
     precision_ = &tmp_precision;
-    precision(p);
-
     alignment_ = &tmp_alignment;
-    align(a);
-
     base_ = &tmp_base;
+    width(w);
+    precision(p);
+    align(a);
     base(b);
 
     value_ = n;
-- 
2.43.0


From 0c22dea36020e879401bd7c3e9eec4a143cbf445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 064/107] fix: formatted floats are not cut at 29 characters

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 590c61f..f7ba547 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -372,7 +372,7 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[3] = '0';
         format_specifier[4] = 'f';
     }
-    static const int buffer_size = 30;
+    static const int buffer_size = 350; // the largest double has 309 digits before the point
     static char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
-- 
2.43.0


From 152783e00cec277e08ce93db2b438a52cd41a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 065/107] fix: copies of number, float and float container
 formatters are independent

The copy's parameter pointers still pointed into the original.
---
 .../ecl/containers/common/formatters.hpp      | 23 ++++++++++++
 .../include/ecl/formatters/floats.hpp         | 36 +++++++++++++++++++
 .../include/ecl/formatters/number.hpp         | 33 +++++++++++++++++
 3 files changed, 92 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 9f07252..4e67892 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -87,6 +87,29 @@ class ECL_LOCAL FloatContainerFormatter {
             ready_to_format(false)
         {}
 
+        /**
+         * Copies the settings and any container readied for use by a stream. The copy
+         * works on its own parameters, not on those of the original.
+         **/
+        FloatContainerFormatter(const FloatContainerFormatter &other) :
+            old_precision(other.old_precision),
+            tmp_width(other.tmp_width),
+            prm_width(other.prm_width),
+            width_ptr( other.width_ptr == &other.prm_width ? &prm_width : &tmp_width ),
+            format(other.format),
+            container(other.container),
+            ready_to_format(other.ready_to_format)
+        {}
+        FloatContainerFormatter& operator=(const FloatContainerFormatter &other) {
+            old_precision = other.old_precision;
+            tmp_width = other.tmp_width;
+            prm_width = other.prm_width;
+            width_ptr = other.width_ptr == &other.prm_width ? &prm_width : &tmp_width;
+            format = other.format;
+            container = other.container;
+            ready_to_format = other.ready_to_format;
+            return *this;
+        }
 		virtual ~FloatContainerFormatter() {}
 
         /**
diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index f7ba547..2ba4d54 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -81,6 +81,13 @@ public:
 		base_(&prm_base),
 		ready_to_format(false) {}
 
+	/**
+	 * Copies the settings and any value readied for use by a stream. The copy
+	 * works on its own parameters, not on those of the original.
+	 **/
+	FormatFloat(const FormatFloat<Number> &other) { copy(other); }
+	FormatFloat<Number>& operator=(const FormatFloat<Number> &other) { copy(other); return *this; }
+
 	virtual ~FormatFloat() {}
 
 	/******************************************
@@ -222,6 +229,8 @@ protected:
 	bool ready_to_format;
 	Number value_;
 
+	void copy(const FormatFloat<Number> &other);
+
 	/******************************************
 	** Padding
 	*******************************************/
@@ -236,6 +245,33 @@ protected:
 	template <typename OutputStream> void formatSci(OutputStream &ostream) const;
 };
 
+/*****************************************************************************
+* FormatFloat Implementation  [copying]
+*****************************************************************************/
+template <typename Number>
+void FormatFloat<Number>::copy(const FormatFloat<Number> &other)
+{
+    bool permanent = ( other.width_ == &other.prm_width );
+    prm_width = other.prm_width;
+    prm_precision = other.prm_precision;
+    prm_alignment = other.prm_alignment;
+    prm_base = other.prm_base;
+    ready_to_format = other.ready_to_format;
+    if ( ready_to_format ) {
+        value_ = other.value_;
+    }
+    if ( !permanent ) {
+        tmp_width = other.tmp_width;
+        tmp_precision = other.tmp_precision;
+        tmp_alignment = other.tmp_alignment;
+        tmp_base = other.tmp_base;
+    }
+    width_ = permanent ? &prm_width : &tmp_width;
+    precision_ = permanent ? &prm_precision : &tmp_precision;
+    alignment_ = permanent ? &prm_alignment : &tmp_alignment;
+    base_ = permanent ? &prm_base : &tmp_base;
+}
+
 /*****************************************************************************
 * FormatFloat Implementation  [single parameter configuration]
 *****************************************************************************/
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 8256b72..af6ab09 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -67,6 +67,13 @@ class FormatNumber {
          **/
         FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
 
+        /**
+         * Copies the settings and any value readied for use by a stream. The copy
+         * works on its own parameters, not on those of the original.
+         **/
+        FormatNumber(const FormatNumber<Number> &other) { copy(other); }
+        FormatNumber<Number>& operator=(const FormatNumber<Number> &other) { copy(other); return *this; }
+
         virtual ~FormatNumber() {}
 
         /******************************************
@@ -163,6 +170,8 @@ class FormatNumber {
         bool ready_to_format;
         Number value_;
 
+        void copy(const FormatNumber<Number> &other);
+
         /******************************************
         ** Padding
         *******************************************/
@@ -179,6 +188,30 @@ class FormatNumber {
 
 }; // FormatNumber
 
+/*****************************************************************************
+* FormatNumber Implementation  [copying]
+*****************************************************************************/
+template <typename Number>
+void FormatNumber<Number>::copy(const FormatNumber<Number> &other)
+{
+    bool permanent = ( other.width_ == &other.prm_width );
+    prm_width = other.prm_width;
+    prm_alignment = other.prm_alignment;
+    prm_base = other.prm_base;
+    ready_to_format = other.ready_to_format;
+    if ( ready_to_format ) {
+        value_ = other.value_;
+    }
+    if ( !permanent ) {
+        tmp_width = other.tmp_width;
+        tmp_alignment = other.tmp_alignment;
+        tmp_base = other.tmp_base;
+    }
+    width_ = permanent ? &prm_width : &tmp_width;
+    alignment_ = permanent ? &prm_alignment : &tmp_alignment;
+    base_ = permanent ? &prm_base : &tmp_base;
+}
+
 /*****************************************************************************
 * FormatNumber Implementation  [configuration]
 *****************************************************************************/
-- 
2.43.0


From 708375ea0146f37130ec6ff90d15302f99006874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 066/107] fix: a float container formatter without a container
 prints nothing

In release builds it dereferenced a null pointer or printed again.
---
 ecl_containers/include/ecl/containers/common/formatters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 4e67892..57a479c 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -243,6 +243,8 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
+    if ( !formatter.ready_to_format ) { return ostream; } // nothing to print
+
     if ( *(formatter.width_ptr) == -1 ) {
         /******************************************
         ** Compute min,max coefficients
-- 
2.43.0


From 4549222d2735f54d1e56d0889f94fe40c8cb5b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 067/107] fix: temporary string formats are temporary and a new
 formatter has nothing to print

---
 .../include/ecl/formatters/strings.hpp        |  9 ++++++++-
 ecl_formatters/src/lib/strings.cpp            | 20 +++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index c4832c4..a206371 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),stored_width_(w),stored_alignment_(a),temporary_(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
@@ -131,9 +131,15 @@ class ecl_formatters_PUBLIC Format<std::string> {
         *******************************************/
         int width_;
         Alignment alignment_;
+        int stored_width_;
+        Alignment stored_alignment_;
+        bool temporary_;
         bool ready_to_format;
         std::string s;
 
+        void storeParameters();
+        void restoreParameters();
+
         /******************************************
         ** Padding
         *******************************************/
@@ -232,6 +238,7 @@ OutputStream& operator << (OutputStream &ostream, Format<std::string>& formatter
 
     if ( ready ) {
         formatter.format(ostream);
+        formatter.restoreParameters();
         formatter.ready_to_format = false;
     }
 
diff --git a/ecl_formatters/src/lib/strings.cpp b/ecl_formatters/src/lib/strings.cpp
index fe0a763..b195093 100644
--- a/ecl_formatters/src/lib/strings.cpp
+++ b/ecl_formatters/src/lib/strings.cpp
@@ -28,6 +28,24 @@ using std::string;
 ** Implementation [Format<string>]
 *****************************************************************************/
 
+void Format<std::string>::storeParameters()
+{
+    if ( !temporary_ ) {
+        stored_width_ = width_;
+        stored_alignment_ = alignment_;
+        temporary_ = true;
+    }
+}
+
+void Format<std::string>::restoreParameters()
+{
+    if ( temporary_ ) {
+        width_ = stored_width_;
+        alignment_ = stored_alignment_;
+        temporary_ = false;
+    }
+}
+
 Format<std::string>& Format<std::string>::operator () (int w, Alignment a)
 {
     width(w);
@@ -47,6 +65,7 @@ Format<std::string>& Format<std::string>::operator()(const std::string &input_st
 *****************************************************************************/
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w)
 {
+    storeParameters();
     width(w);
     s = input_string;
     ready_to_format = true;
@@ -54,6 +73,7 @@ Format<std::string>& Format<std::string>::operator() (const std::string &input_s
 }
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w, Alignment a)
 {
+    storeParameters();
     width(w);
     align(a);
     s = input_string;
-- 
2.43.0


From 8e1fe250f435235ced911acebe30991e8e7af9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 068/107] fix: streamed floats are not cut at 28 characters

---
 .../include/ecl/streams/text_streams/output_text_stream.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 2b64faf..dfc5f7c 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -91,7 +91,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          * @endcode
          **/
         OutputTextStream() :
-        	toCharString(30) // character buffer size
+        	toCharString(350) // character buffer size, the largest double needs 318
 		{
             ecl_compile_time_concept_check(OutputCharDeviceConcept<Device>);
 		};
-- 
2.43.0


From fa0f529ec2352eadbc273920c6ee47830baabaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 069/107] fix: output streams report failed writes

The result of the device's write was ignored, so that fail() was never
true after a failed streaming operation.
---
 .../text_streams/output_text_stream.hpp       | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index dfc5f7c..c824e21 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -142,6 +142,19 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
 
     private:
         ecl::Converter<char*> toCharString;
+
+        /**
+         * @brief Updates the stream's error status with the result of a write to the device.
+         * @param result : what the device's write returned.
+         * @param n : number of characters that should have been written.
+         */
+        void written(long result, unsigned long n) {
+            if ( result == static_cast<long>(n) ) {
+                this->error = NoError;
+            } else {
+                this->error = WriteError;
+            }
+        }
 };
 
 /*****************************************************************************
@@ -158,7 +171,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char& c ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-	this->io_device.write(c);
+	written(this->io_device.write(c),1);
     return *this;
 }
 /**
@@ -172,7 +185,8 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const char *s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(s,strlen(s));
+    unsigned long n = strlen(s);
+    written(this->io_device.write(s,n),n);
     return *this;
 }
 
@@ -187,7 +201,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const cha
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const std::string &s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(&s[0],s.size());
+    written(this->io_device.write(&s[0],s.size()),s.size());
     return *this;
 }
 /**
-- 
2.43.0


From a63247b6b4f98954783cc3f8e44f829a25adab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 070/107] fix: report when a socket server stream could not be
 opened

---
 ecl_streams/include/ecl/streams/socket_streams.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/socket_streams.hpp b/ecl_streams/include/ecl/streams/socket_streams.hpp
index 012e6b0..01ab7d9 100644
--- a/ecl_streams/include/ecl/streams/socket_streams.hpp
+++ b/ecl_streams/include/ecl/streams/socket_streams.hpp
@@ -110,10 +110,12 @@ public:
 	 * @exception StandardException : throws if the connection failed to open.
 	 */
 	SocketServerStream(const unsigned int &port_number) {
-		try {
-			this->device().open(port_number);
-		} catch(StandardException &e) {
-			throw StandardException(LOC,e);
+		ecl_try {
+			if ( !this->device().open(port_number) ) {
+				error = this->device().error();
+			}
+		} ecl_catch(StandardException &e) {
+			ecl_throw(StandardException(LOC,e));
 		}
 	}
 
-- 
2.43.0


From a6d7c46bf30cdfc31e4427225ae299d79c673880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 071/107] fix: default constructed log streams write headers
 and timestamps by default

---
 ecl_streams/include/ecl/streams/log_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/log_stream.hpp b/ecl_streams/include/ecl/streams/log_stream.hpp
index b35a29b..e678425 100644
--- a/ecl_streams/include/ecl/streams/log_stream.hpp
+++ b/ecl_streams/include/ecl/streams/log_stream.hpp
@@ -115,7 +115,7 @@ public:
 	 * This must open the underlying shared file device manually
 	 * via device().open() as you would do if using a TextStream.
 	 */
-	LogStream() {};
+	LogStream() : write_header(true), write_stamp(true) {};
 	/**
 	 * @brief Convenience constructor for logstreams.
 	 *
-- 
2.43.0


From 129fa60f6f82fa6bc379d021bdfe00e83d9ecedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:25 +0000
Subject: [PATCH 072/107] fix: enabling a log mode again associates it with the
 new header

---
 ecl_streams/src/lib/log_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 4fd972a..3b06243 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -34,7 +34,7 @@ void LogStream::disableHeader() { write_header = false; }
 void LogStream::enableTimeStamp() { write_stamp = true; }
 void LogStream::disableTimeStamp() { write_stamp = false; }
 
-void LogStream::enableMode(int mode, std::string header) { modes.insert( std::make_pair(mode,header) ); }
+void LogStream::enableMode(int mode, std::string header) { modes[mode] = header; }
 void LogStream::disableMode(int mode) { modes.erase(mode); }
 
 bool LogStream::isEnabled() {
-- 
2.43.0


From 6bcddc8e2848f53882c70453c2daf8d29034e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:38 +0000
Subject: [PATCH 073/107] fix: converted floats are not cut at 248 characters
 by default

The largest double takes 317.
---
 .../include/ecl/converters/char_strings.hpp   | 56 +++++++++----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index baf44cc..2a4b42a 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -71,10 +71,10 @@ class CharStringBuffer : public ConverterBase {
          * If allocation of the internal buffer fails, it will throw an exception (debug mode only) or set
          * the error handler with a MemoryError.
          *
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
          * @exception StandardException : throws if the allocation for the internal buffer failed (debug mode only).
          **/
-        CharStringBuffer(int buffer_size = 250) : delete_buffer(true) {
+        CharStringBuffer(int buffer_size = 350) : delete_buffer(true) {
            	buffer_begin = new (std::nothrow) char[buffer_size];
            	if ( buffer_begin == NULL ) {
            		buffer_end = NULL;
@@ -196,10 +196,10 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
          * @exception StandardException : throws if the allocation for the internal buffer failed (debug mode only).
          **/
-        Converter(int buffer_size = 250) :
+        Converter(int buffer_size = 350) :
         		converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
@@ -247,10 +247,10 @@ class Converter<char*,unsigned char> : public virtual converters::CharStringBuff
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
          * @exception StandardException : throws if the allocation for the internal buffer failed (debug mode only).
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -295,10 +295,10 @@ class Converter<char*,short> : public virtual converters::CharStringBuffer {
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -343,10 +343,10 @@ class Converter<char*,unsigned short> : public virtual converters::CharStringBuf
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -389,10 +389,10 @@ class Converter<char*,int> : public virtual converters::CharStringBuffer {
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -434,10 +434,10 @@ class Converter<char*,unsigned int> : public virtual converters::CharStringBuffe
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -483,10 +483,10 @@ class Converter<char*,long> : public virtual converters::CharStringBuffer {
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -528,10 +528,10 @@ class Converter<char*,unsigned long> : public virtual converters::CharStringBuff
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -570,10 +570,10 @@ class Converter<char*,long long> : public virtual converters::CharStringBuffer {
         Converter(char* begin, char* end) : converters::CharStringBuffer(begin,end) {}
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {}
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {}
 
         virtual ~Converter() {}
 
@@ -613,10 +613,10 @@ class Converter<char*,unsigned long long> : public virtual converters::CharStrin
         }
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {
         }
 
         virtual ~Converter() {}
@@ -661,10 +661,10 @@ class Converter<char*,float> : public virtual converters::CharStringBuffer {
         }
         /**
          * @brief Initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {
     		format_specifier[0] = '%';
     		format_specifier[1] = '.';
     		format_specifier[2] = 'x';
@@ -750,10 +750,10 @@ class Converter<char*,double> : public virtual converters::CharStringBuffer {
         }
         /**
          * @brief Initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {
     		format_specifier[0] = '%';
     		format_specifier[1] = '.';
     		format_specifier[2] = 'x';
@@ -882,11 +882,11 @@ class Converter<char*,void>  :
         }
         /**
          * Constructor that initialises with an internal buffer.
-         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 250.
+         * @param buffer_size : size of the buffer to create - if not supplied it initialises a buffer of size 350.
          *
 		 * @exception StandardException : throws if it failed to allocate memory for the internal buffer [debug mode only].
          **/
-        Converter(int buffer_size = 250) : converters::CharStringBuffer(buffer_size) {
+        Converter(int buffer_size = 350) : converters::CharStringBuffer(buffer_size) {
         }
 
         virtual ~Converter() {}
-- 
2.43.0


From 0386bdf228d8cdc6cf7202a3e7c674bfa545b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 074/107] fix: reading a string reports a failing device

---
 .../text_streams/input_text_stream.hpp        | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 932c9e2..fe5bfb6 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -201,23 +201,19 @@ InputTextStream<Device>& InputTextStream<Device,true>::operator >> ( std::string
 
     char c;
 	if ( skipLeadingWhiteSpace(c) ) {
-	    s.clear();
-	    do {
-	        s.push_back(c);
-	        if( this->io_device.read(c) < 1 ) {
-	        	this->error = ReadError;
-	        	break;
-			}
-	    } while ( ( c != ' ' ) && ( c != '\n' ) );
-	    this->error = NoError;
+    	s.clear();
+    	this->error = NoError;
+    	do {
+    		s.push_back(c);
+    		long n = this->io_device.read(c);
+    		if ( n < 1 ) {
+    			if ( n < 0 ) { this->error = ReadError; }
+    			break; // the end of the input also ends a word
+    		}
+    	} while ( ( c != ' ' ) && ( c != '\n' ) );
 	} else {
 		this->error = ReadError;
 	}
-
-    // Original method - reads a whole line (must be terminated by a \n)
-//    static char buffer[80];
-//    this->io_device.read(&buffer[0],80);
-//    s.assign(buffer);
     return *this;
 }
 
-- 
2.43.0


From fcfd5da64010b21e17b7e56028e0899313876c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 075/107] fix: read hexadecimal integers of every type in full

They were limited to less than 16 bits, wrapped around within those and
set the value to zero when they failed.
---
 .../text_streams/input_text_stream.hpp        | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index fe5bfb6..ac4a7bc 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -516,27 +516,33 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    static int digits[25];
-    static const short ceiling = numeric_limits<short>::maximum/10;
-
-    i = 0;
+    const unsigned long long limit = std::numeric_limits<Number>::max();
+    unsigned long long number = 0;
+    bool too_large = false;
     int j = 0;
-    while ( j < 25 ) {
+
+    while ( true ) {
     	long n = this->io_device.read(c);
     	if ( n < 0 ) {
         	this->error = ReadError;
         	return false;
 		} else if ( n == 0 ) {
-			break; // nothing more to read.
+			break;
 		}
+        unsigned int digit;
         if ( ( c >= '0' ) && ( c <= '9') ) {
-            digits[j] = c - '0';
+            digit = c - '0';
         } else if ( ( c >= 'a' ) && ( c <= 'f') ) {
-            digits[j] = 10 + c - 'a';
+            digit = 10 + c - 'a';
         } else if ( ( c >= 'A' ) && ( c <= 'F') ) {
-            digits[j] = 10 + c - 'A';
+            digit = 10 + c - 'A';
+        } else {
+            break;
+        }
+        if ( ( digit > limit ) || ( number > ( limit - digit )/16 ) ) {
+            too_large = true;
         } else {
-            break; // No more valid characters to read.
+            number = 16*number + digit;
         }
         ++j;
     }
@@ -544,17 +550,11 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
     	this->error = ReadError;
     	return false;
 	}
-
-    short number = 0;
-    for ( int k = 0; k < j; ++k ) {
-        if ( number < ceiling ) {
-            number = 16*number + (digits[k]);
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( too_large ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
-    i = number;
+    i = static_cast<Number>(number);
     return true;
 }
 
-- 
2.43.0


From f7a2ef5ce841ea7178d2c0f077f1d916d6bd7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 076/107] fix: read decimal integers up to the limits of their
 type

The last tenth of every type's range was refused, as was its minimum, and
zeros that were followed by anything but a space or newline.
---
 .../text_streams/input_text_stream.hpp        | 78 ++++++++++---------
 1 file changed, 40 insertions(+), 38 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index ac4a7bc..77fee5c 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -567,50 +567,61 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
-    static const Number ceiling = ecl::numeric_limits<Number>::maximum/10;
     char c = ' ';
-    Number sign_multiplier = 1;
-    Number number;
+    bool negative = false;
+    bool too_large = false;
+    int j = 0;
+    unsigned long long number = 0;
 
+    /******************************************
+    ** Whitespace
+    *******************************************/
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
-
-    if ( c == '-' ) { // Negative
-		if ( std::numeric_limits<Number>::min() != 0 ) {
-            sign_multiplier = -1;
+    /******************************************
+    ** Sign
+    *******************************************/
+    if ( c == '-' ) {
+		if ( std::numeric_limits<Number>::min() != 0 ) { // unsigned types do not take a sign
+            negative = true;
             if ( this->io_device.read(c) < 1 ) {
             	this->error = ReadError;
             	return false;
 			}
-        } // else do nothing and continue, an error will be found at the next step.
-    } else if ( c == '+' ) { // Positive
+        }
+    } else if ( c == '+' ) {
         if ( this->io_device.read(c) < 1 ) {
         	this->error = ReadError;
         	return false;
 		}
+    /******************************************
+    ** Hex prefix
+    *******************************************/
     } else if ( c == '0' ) {
     	long n = this->io_device.read(c);
-    	if ( ( n == 0 ) || ( c == ' ' ) || ( c == '\n' ) ) { // It's just a single zero.
-        	i = 0;
-        	return true;
-        } else if ( n < 0 ) {
+    	if ( n < 0 ) {
         	this->error = ReadError;
         	return false;
-		} else if ( c == 'x' ) {
+		} else if ( n == 0 ) {
+        	i = 0;
+        	return true;
+        } else if ( c == 'x' ) {
             return parseHexInteger(i);
-        } else {
-        	// its a regular integer, just continue
         }
+        ++j; // a leading zero
     } else if ( c == 'x' ) {
         return parseHexInteger(i);
     }
-
-    /*********************
-    ** Parse reg. integer
-    **********************/
-    int j = 0;
-    while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
-        digits[j] = c;
+    /******************************************
+    ** Digits
+    *******************************************/
+    const unsigned long long limit = static_cast<unsigned long long>(std::numeric_limits<Number>::max()) + ( negative ? 1 : 0 );
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        unsigned int digit = c - '0';
+        if ( number > ( limit - digit )/10 ) {
+            too_large = true;
+        } else {
+            number = 10*number + digit;
+        }
         j++;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
@@ -618,26 +629,17 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 			return false;
 		} else if ( n == 0 ) {
 			break;
-		} else { // n > 1
-        }
+		}
     }
     if ( j == 0 ) {
     	this->error = ConversionError;
     	return false;
 	}
-    number = 0;
-    for ( int k = 0; k < j; ++k )
-    {
-        if ( number < ceiling )
-        {
-            number = 10*number + (digits[k] - '0');
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( too_large ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
-    i = sign_multiplier*number;
-
+    i = static_cast<Number>( negative ? 0 - number : number );
     return true;
 }
 
-- 
2.43.0


From 8894027ad88486d2b0c76866983d46c618b0f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 077/107] fix: read floats in full and to their precision

The last digit before the end of the input was dropped, more than 25
digits were left for the next read and doubles were only as accurate as
the float 0.1.
---
 .../text_streams/input_text_stream.hpp        | 75 ++++++++-----------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 77fee5c..3a712bd 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -646,71 +646,56 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
-    static const int bufferSize = 25;
-    static char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
+
     char c = ' ';
-    int integral_length = 0;
-    int decimal_length = 0;
+    long n = 1;
+    int digits = 0;
     Number sign_multiplier = 1;
-    Number number;
+    Number number = 0;
 
+    /******************************************
+    ** Whitespace
+    *******************************************/
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
-
+    /******************************************
+    ** Sign
+    *******************************************/
     if ( c == '-' ) {
         sign_multiplier = -1;
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
     } else if ( c == '+' ) {
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
     }
-    number = 0;
     /******************************************
     ** Integral part
     *******************************************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
-        digits[integral_length] = c;
-        long n = this->io_device.read(c);
-		if ( n < 0 ) {
-			this->error = ReadError; return false;
-		} else if ( n == 0 ) {
-			break;
-		} else { // n > 1
-			integral_length++;
-        }
+    while ( ( n > 0 ) && ( c >= '0' ) && ( c <= '9') ) {
+        number = 10*number + (c - '0');
+        ++digits;
+        n = this->io_device.read(c);
     }
-    for ( int k = 0; k < integral_length; ++k ) {
-        number = 10*number + (digits[k] - '0');
-    }
-
-    if ( c == '.' ) {
-        float frac_multiplier = 1;
-        if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
-        /******************************************
-        ** Decimal part
-        *******************************************/
-        while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
-            digits[decimal_length] = c;
-            long n = this->io_device.read(c);
-    		if ( n < 0 ) {
-    			this->error = ReadError; return false;
-    		} else if ( n == 0 ) {
-    			break;
-    		} else { // n > 1
-                decimal_length++;
-            }
-        }
-        for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier *= 0.1f;
-            number = number + frac_multiplier*(digits[k] - '0');
+    /******************************************
+    ** Fractional part
+    *******************************************/
+    if ( ( n > 0 ) && ( c == '.' ) ) {
+        Number frac_multiplier = 1;
+        n = this->io_device.read(c);
+        while ( ( n > 0 ) && ( c >= '0' ) && ( c <= '9') ) {
+            frac_multiplier /= 10;
+            number = number + frac_multiplier*(c - '0');
+            ++digits;
+            n = this->io_device.read(c);
         }
     }
-
-    if ( (integral_length+decimal_length) == 0 ) {
+    if ( n < 0 ) {
+    	this->error = ReadError;
+    	return false;
+    }
+    if ( digits == 0 ) {
     	this->error = ConversionError;
     	return false;
 	}
-
     f = sign_multiplier*number;
-
     return true;
 }
 
-- 
2.43.0


From 9cd3a715b095787f07b0efe6cb89b6c93b9e2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 078/107] fix: an intersection that succeeds after a failed one
 has not failed

---
 ecl_geometry/src/lib/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc64d2e..6909a01 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -161,6 +161,7 @@ CartesianPoint2d Intersection< LinearFunction >::operator()(const LinearFunction
 		last_operation_failed = true;
 		ecl_throw(StandardException(LOC,OutOfRangeError,"Functions are collinear, no intersection possible."));
 	} else {
+		last_operation_failed = false;
 		point.x((a_0 - a_1)/(b_1 - b_0));
 		point.y(f(point.x()));
 	}
-- 
2.43.0


From fb6eaf6a59203ad86495465afabd9e7d2610a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:46 +0000
Subject: [PATCH 079/107] fix: roots of cubics without a cubic term or with a
 centred imaginary pair

---
 ecl_geometry/src/lib/polynomial.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 6909a01..3576bd9 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -97,6 +97,12 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	double c = polynomial.coefficients()[1];
 	double d = polynomial.coefficients()[0];
 
+	if ( a == 0 ) {
+		QuadraticPolynomial quadratic;
+		quadratic.coefficients() << d, c, b;
+		return Roots<QuadraticPolynomial>()(quadratic);
+	}
+
 //	form the companion matrix (http://stackoverflow.com/questions/2003465/fastest-numerical-solution-of-a-real-cubic-polynomial)
 //	ecl::linear_algebra::Matrix3d A;
 //	A << 0, 0, -d/a, 1, 0, -c/a, 0, 1, -b/a;
@@ -122,6 +128,10 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 //		std::cout << "Single root from cube root function" << std::endl;
 		intercepts.resize(1);
 		intercepts << ecl::cube_root(-q)+ shift;
+	} else if ( ( q == 0 ) && ( p > 0 ) ) {
+		// single real root, the others are imaginary
+		intercepts.resize(1);
+		intercepts << shift;
 	} else if ( q == 0 ) {
 //		std::cout << "Three real roots" << std::endl;
 		// three real roots
-- 
2.43.0


From 2d0c9586082754f38ce0bc6322f6cf16530ae0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:06 +0000
Subject: [PATCH 080/107] fix: roots of cubics are numbers when two of them
 coincide up to rounding

---
 ecl_geometry/src/lib/polynomial.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 3576bd9..7f7705a 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -152,9 +152,13 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 		// switch to transcendental solutions (only works for three real roots)
 		// http://en.wikipedia.org/wiki/Cubic_function#Trigonometric_.28and_hyperbolic.29_method
 //		std::cout << "Discriminant: " << discriminant << std::endl;
-		double t_1 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos( ((3.0*q)/(2.0*p)) * sqrt(-3.0/p)));
-		double t_2 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(( (3.0*q)/(2.0*p)) * sqrt(-3.0/p))-(2.0*ecl::pi)/3.0);
-		double t_3 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(( (3.0*q)/(2.0*p)) * sqrt(-3.0/p))-(4.0*ecl::pi)/3.0);
+		double cosine = ((3.0*q)/(2.0*p)) * sqrt(-3.0/p);
+		// rounding can push this just outside the domain of acos when two roots coincide
+		if ( cosine > 1.0 ) { cosine = 1.0; }
+		if ( cosine < -1.0 ) { cosine = -1.0; }
+		double t_1 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(cosine));
+		double t_2 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(cosine)-(2.0*ecl::pi)/3.0);
+		double t_3 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(cosine)-(4.0*ecl::pi)/3.0);
 		intercepts.resize(3);
 		intercepts << t_1+shift, t_2+shift, t_3+shift;
 	}
-- 
2.43.0


From 650fd4bceea3eed10b9da460aec19f5ee44fa222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:08 +0000
Subject: [PATCH 081/107] fix: the derivative heuristic refuses fewer than two
 points

---
 ecl_geometry/src/lib/cubic_spline_blueprints.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_geometry/src/lib/cubic_spline_blueprints.cpp b/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
index 19c6b04..b947334 100644
--- a/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
@@ -143,6 +143,10 @@ DerivativeHeuristicCubicSpline::DerivativeHeuristicCubicSpline(const ecl::Array<
         x_data(x_set),
         y_data(y_set)
 {
+    if (x_data.size() < 2 || y_data.size() < 2)
+    {
+      ecl_throw(StandardException(LOC,OutOfRangeError) );
+    }
     ecl_assert_throw( x_data.size() == y_data.size(), StandardException(LOC,OutOfRangeError) );
     /*********************
     ** Via Velocities
-- 
2.43.0


From 5784a26de2bd22972073dbd3e2d27e2f81ee4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 082/107] fix: tension splines of two points do not write past
 their workspace

---
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ed11de8..3983a79 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -43,6 +43,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
     x_data(x_set),
     y_data(y_set)
 {
+    if (x_data.size() < 2 || y_data.size() < 2)
+    {
+      ecl_throw(StandardException(LOC,OutOfRangeError) );
+    }
     ecl_assert_throw( x_data.size() == y_data.size(), StandardException(LOC,OutOfRangeError) );
 
     /*********************
@@ -79,8 +83,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
      *
      * etc
      */
-    u[1] = beta[1] + beta[0];
-    v[1] = gamma[1]-gamma[0];
+    if ( n > 1 ) { // there are no via points otherwise
+        u[1] = beta[1] + beta[0];
+        v[1] = gamma[1]-gamma[0];
+    }
     for ( unsigned int i = 2; i < n; ++i ) {
         u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];
         v[i] = gamma[i]-gamma[i-1] - a[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From a350572460f9b5d8ec26300767649959fd152526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:08 +0000
Subject: [PATCH 083/107] fix: Pose2D can be default constructed and
 multiplied, keeps its precision and returns no references to temporaries

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index dd4544c..7e65896 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -120,7 +120,7 @@ public:
    *
    * @param xyh: x, y, heading wrapped in an eigen vector3d type.
    */
-  Pose2D(): xyh(0.0) {}
+  Pose2D(): xyh(XYH::Zero()) {}
 
   /**
    * @brief Construction by element.
@@ -129,7 +129,7 @@ public:
    * @param y: y-translation
    * @param h: heading (radians)
    */
-  Pose2D(const float& x, const float& y, const float& h) {
+  Pose2D(const Float& x, const Float& y, const Float& h) {
     xyh << x, y, h;
   }
 
@@ -152,7 +152,7 @@ public:
    * @return Pose2D<Float> : the concatenated pose
    */
   Pose2D<Float> operator*(const Pose2D<Float> &pose) const {
-    return concatenate_poses(this->xyh, pose);
+    return concatenate_poses(this->xyh, pose.xyh);
   }
 
   /**
@@ -175,11 +175,11 @@ public:
   const Float& x() const { return xyh[0]; }        //!< @brief Get the x-coordinate.
   const Float& y() const { return xyh[1]; }        //!< @brief Get the y-coordinate.
   const Float& heading() const { return xyh[2]; }  //!< @brief Get the heading.
-  const Translation& translation() const { return xyh. template head<2>(); }
+  Translation translation() const { return xyh. template head<2>(); }
   /**
    * @brief Representation of the heading in matrix form.
    **/
-  const RotationMatrix& rotationMatrix() const {
+  RotationMatrix rotationMatrix() const {
     Float c = std::cos(xyh[2]);
     Float s = std::sin(xyh[2]);
     return (RotationMatrix() << c, -s, s, c).finished();
-- 
2.43.0


From a9f79b9f44360de784e8fb701994682fe0f7bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:18 +0000
Subject: [PATCH 084/107] fix: a pose can be extended with itself

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 7e65896..9610b7f 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -80,12 +80,8 @@ void extend_pose(
   typename enable_if<ecl::is_float<Float> >::type* dummy = 0)
 {
   (void) dummy;
-  Float c = std::cos(pose[2]);
-  Float s = std::sin(pose[2]);
-  pose <<
-    pose[0] + c*extending_pose[0] - s*extending_pose[1],
-    pose[1] + s*extending_pose[0] + c*extending_pose[1],
-    wrap_angle(pose[2] + extending_pose[2]);
+  // by way of a copy, the pose may be extended with itself
+  pose = concatenate_poses(pose, extending_pose);
 }
 
 /*****************************************************************************
-- 
2.43.0


From 1ea596c68bc4ccafde3fdb9360cdf73146dfd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:34 +0000
Subject: [PATCH 085/107] fix: poses of different rotation storage can be
 multiplied

---
 ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
index eb93e3b..73d5589 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
@@ -137,7 +137,7 @@ public:
         static Angle<Float> Rotation(const RotationMatrixType &rotation) { return Pose2DMath<Float,RotationMatrixStorage>::Heading(rotation); } /**< @brief Arbitrary rotation converter. **/
         static Angle<Float> Heading(const Angle<Float> &angle) { return angle; }  /**< @brief Arbitrary heading angle converter. **/
         static Angle<Float> Product(const Angle<Float> &angle1, const Angle<Float> &angle2) { return angle1+angle2; } /**< @brief Overloaded product calculater for poses. **/
-        static Angle<Float> Product(const Angle<Float> &angle, RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
+        static Angle<Float> Product(const Angle<Float> &angle, const RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
         static Angle<Float> Inverse(const Angle<Float> &angle) { return Angle<Float>(-1*angle); } /**< @brief Pose inverse, angle format. **/
 };
 
@@ -412,14 +412,15 @@ public:
      */
         template <enum Pose2DStorageType Storage_>
     LegacyPose2D<Float,Storage> operator*(const LegacyPose2D<Float,Storage_> &pose) const {
-                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rot),trans + rotationMatrix()*pose.trans);
+                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rotation()),trans + rotationMatrix()*pose.translation());
     }
     /**
      * @brief Transform this pose by the specified input pose.
      * @param pose : a pose differential (wrt this pose's frame).
      * @return Pose2D<Float>& : handle to the updated pose (wrt common/global frame).
      */
-    LegacyPose2D<Float>& operator*=(const LegacyPose2D<Float> &pose) {
+        template <enum Pose2DStorageType Storage_>
+    LegacyPose2D<Float,Storage>& operator*=(const LegacyPose2D<Float,Storage_> &pose) {
         // This probably needs checking...could also be (marginally) sped up.
         *this = (*this)*pose;
         return (*this);
-- 
2.43.0


From e2ff3c38bbc942f083062025fdd1a400ab225240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 086/107] fix: a pose made from an angle axis and a translation
 has them

---
 ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
index 6a1851f..bc9670d 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
@@ -121,13 +121,9 @@ public:
          */
         template<typename Trans>
         LegacyPose3D(const ecl::linear_algebra::AngleAxis<Float>& angle_axis, const ecl::linear_algebra::MatrixBase<Trans>& translation) :
-            rot(RotationMatrix::Identity()),
-            trans(Translation::Zero())
-        {
-                (void) angle_axis;
-                (void) translation;
-                /* TODO */
-        }
+            rot(angle_axis.toRotationMatrix()),
+            trans(translation)
+        {}
         /**
          * @brief Initialise from an eigen Quaternion and a translation.
          *
-- 
2.43.0


From 6906c3987a776a4ad908e8f443d51f2f8625c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:59 +0000
Subject: [PATCH 087/107] fix: a trajectory added at the end of another one
 extends it

---
 ecl_geometry/src/lib/odometry_helper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/odometry_helper.cpp b/ecl_geometry/src/lib/odometry_helper.cpp
index 25e39c4..fbd2e55 100644
--- a/ecl_geometry/src/lib/odometry_helper.cpp
+++ b/ecl_geometry/src/lib/odometry_helper.cpp
@@ -108,7 +108,10 @@ void addAtEnd(Trajectory2D& target, const Trajectory2D& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target);
+  const int addition_size = size(addition); // before resizing, the addition can be the target
+  resize(target, old_size + addition_size);
+  target.rightCols(addition_size) = addition.leftCols(addition_size);
 }
 
 void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
@@ -119,7 +122,10 @@ void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
     return;
   }
 
-  target << addition;
+  const int old_size = size(target);
+  const int addition_size = size(addition); // before resizing, the addition can be the target
+  resize(target, old_size + addition_size);
+  target.rightCols(addition_size) = addition.leftCols(addition_size);
 }
 
 Trajectory2D vectorToTrajectory(const std::vector<Pose2D>& vec)
-- 
2.43.0


From 03be2f109d77c4e5f9d214cdeb939a5198393388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:59 +0000
Subject: [PATCH 088/107] fix: the distance to an empty trajectory does not
 read its first pose

---
 ecl_geometry/src/lib/odometry_helper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_geometry/src/lib/odometry_helper.cpp b/ecl_geometry/src/lib/odometry_helper.cpp
index fbd2e55..7056941 100644
--- a/ecl_geometry/src/lib/odometry_helper.cpp
+++ b/ecl_geometry/src/lib/odometry_helper.cpp
@@ -5,6 +5,8 @@
 ** Includes
 *****************************************************************************/
 
+#include <cmath>
+#include <limits>
 #include <ecl/config/macros.hpp>
 #include "../../include/ecl/geometry/odometry_helper.hpp"
 #include "../../include/ecl/geometry/linear_segment.hpp"
@@ -27,6 +29,10 @@ double distance(const Pose2D& pose, const Trajectory2D& trajectory)
 
 double distance(const Position2D& position, const Trajectory2D& trajectory)
 {
+  if (empty(trajectory))
+  {
+    return std::numeric_limits<double>::infinity();
+  }
   Position2D segment_start = trajectory.topLeftCorner<2, 1>();
 
   if (size(trajectory) == 1)
-- 
2.43.0


From a5b194c9d4d4d5fbd8e32614b5ca9ea60060a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:11 +0000
Subject: [PATCH 089/107] fix: the y intercept of a covariance ellipse is on
 the y axis

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 81fdf9d..b820eb0 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -123,7 +123,7 @@ Vector2f CovarianceEllipsoid<float,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2f( (ellipse_lengths(0)/ellipse_lengths(1)), tanf(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*sinf(angle));
+	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*cosf(angle));
 
 	return intercept_magnitudes;
 }
@@ -219,7 +219,7 @@ Vector2d CovarianceEllipsoid<double,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2( (ellipse_lengths(0)/ellipse_lengths(1)), tan(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*sin(angle));
+	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*cos(angle));
 
 	return intercept_magnitudes;
 }
-- 
2.43.0


From 65af2a42109f421e5f448bd800766b5b947f29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:11 +0000
Subject: [PATCH 090/107] fix: nearly round or flat covariance ellipses have
 axis lengths

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index b820eb0..7076014 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -9,6 +9,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <algorithm>
 #include <ecl/linear_algebra.hpp>
 #include "../../include/ecl/statistics/covariance_ellipsoid.hpp"
 
@@ -55,8 +56,8 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	float c = M(1,0);
 	float d = M(1,1);
 
-	float tmp = sqrtf((a+d)*(a+d)/4 - a*d + b*c);
-    ellipse_lengths << sqrtf((a+d)/2 + tmp), sqrtf((a+d)/2 - tmp);
+	float tmp = sqrtf((a-d)*(a-d)/4 + b*c);
+    ellipse_lengths << sqrtf((a+d)/2 + tmp), sqrtf(std::max((a+d)/2 - tmp, 0.0f));
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
     // CHECK: ordered in decreasing order of magnitude
@@ -151,8 +152,8 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	double c = M(1,0);
 	double d = M(1,1);
 
-    double tmp = sqrt((a+d)*(a+d)/4 - a*d + b*c);
-    ellipse_lengths << sqrt((a+d)/2 + tmp), sqrt((a+d)/2 - tmp);
+    double tmp = sqrt((a-d)*(a-d)/4 + b*c);
+    ellipse_lengths << sqrt((a+d)/2 + tmp), sqrt(std::max((a+d)/2 - tmp, 0.0));
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
     // CHECK: ordered in decreasing order of magnitude
-- 
2.43.0


From ad4065f0e75b59e35cdbf0df2a76e84b0517157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:11 +0000
Subject: [PATCH 091/107] fix: the axes of nearly round covariance ellipses are
 perpendicular

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 7076014..cbf7765 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -66,15 +66,15 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
+        ellipse_axes(0,0) = (a-d)/2 + tmp;
         ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
+        ellipse_axes(0,1) = (a-d)/2 - tmp;
         ellipse_axes(1,1) = c;
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
-    	ellipse_axes(1,0) = ellipse_lengths(0)*ellipse_lengths(0)-a;
+    	ellipse_axes(1,0) = (d-a)/2 + tmp;
     	ellipse_axes(0,1) = b;
-    	ellipse_axes(1,1) = ellipse_lengths(1)*ellipse_lengths(1)-a;
+    	ellipse_axes(1,1) = (d-a)/2 - tmp;
     }
     else {
     	if ( a > d ) {
@@ -162,15 +162,15 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
+        ellipse_axes(0,0) = (a-d)/2 + tmp;
         ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
+        ellipse_axes(0,1) = (a-d)/2 - tmp;
         ellipse_axes(1,1) = c;
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
-    	ellipse_axes(1,0) = ellipse_lengths(0)*ellipse_lengths(0)-a;
+    	ellipse_axes(1,0) = (d-a)/2 + tmp;
     	ellipse_axes(0,1) = b;
-    	ellipse_axes(1,1) = ellipse_lengths(1)*ellipse_lengths(1)-a;
+    	ellipse_axes(1,1) = (d-a)/2 - tmp;
     }
     else {
     	if ( a > d ) {
-- 
2.43.0


From 5bf99c07fc96619b1db86a6e78112d6dde74fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:22 +0000
Subject: [PATCH 092/107] fix: assigning a signal or slot counts the handle and
 releases the old connection

---
 ecl_sigslots/include/ecl/sigslots/signal.hpp | 16 ++++++++++++----
 ecl_sigslots/include/ecl/sigslots/slot.hpp   | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/signal.hpp b/ecl_sigslots/include/ecl/sigslots/signal.hpp
index 843caa6..6e75115 100644
--- a/ecl_sigslots/include/ecl/sigslots/signal.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/signal.hpp
@@ -74,8 +74,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Data>& signal) {
-		*this = signal;
+	Signal(const Signal<Data>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -97,6 +96,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Data>& signal) {
+		signal.sigslot->incrHandles(); // first, in case of self assignment
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
@@ -182,8 +186,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Void>& signal) {
-		*this = signal;
+	Signal(const Signal<Void>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -191,6 +194,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Void>& signal) {
+		signal.sigslot->incrHandles(); // first, in case of self assignment
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/slot.hpp b/ecl_sigslots/include/ecl/sigslots/slot.hpp
index d6bed73..87dc2e6 100644
--- a/ecl_sigslots/include/ecl/sigslots/slot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/slot.hpp
@@ -116,8 +116,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Data>& slot) {
-		*this = slot;
+	Slot(const Slot<Data>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -138,6 +137,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Data>& slot) {
+		slot.sigslot->incrHandles(); // first, in case of self assignment
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
@@ -245,8 +249,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Void>& slot) {
-		*this = slot;
+	Slot(const Slot<Void>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 	/**
@@ -266,6 +269,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Void>& slot) {
+		slot.sigslot->incrHandles(); // first, in case of self assignment
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
-- 
2.43.0


From c21f4b5a11b189fd378127a4a4b3ea656f265b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:22 +0000
Subject: [PATCH 093/107] fix: disconnecting from a sigslots topic that no
 longer exists

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index f1c79a2..4930ce0 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -121,9 +121,9 @@ private:
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
 		if ( iter != topics().end() ) {
 			iter->second.disconnect(sigslot);
-		}
-		if ( iter->second.empty() ) {
-			topics().erase(iter);
+			if ( iter->second.empty() ) {
+				topics().erase(iter);
+			}
 		}
 	}
 
-- 
2.43.0


From 5449de46398a0f78a313a7af91c383af165242c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:22 +0000
Subject: [PATCH 094/107] fix: SigSlot::disconnect(topic) uses its own topics
 and ends the subscription

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 4e36dad..8692660 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -166,8 +166,9 @@ public:
 	 */
 	void disconnect(const std::string &topic) {
 		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
+		SigSlotsManager<Data>::disconnect(topic,this);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
-		SigSlotsManager<Void>::disconnect(topic,this);
+		subscriptions.erase(topic);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
@@ -328,8 +329,9 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void disconnect(const std::string &topic) {
-		publications.erase(topic); // Doesn't matter if it finds it or not.
 		SigSlotsManager<Void>::disconnect(topic,this);
+		publications.erase(topic); // Doesn't matter if it finds it or not.
+		subscriptions.erase(topic);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
-- 
2.43.0


From 0b8f982f6a0cc90718f21c488e1f928776cfbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:22 +0000
Subject: [PATCH 095/107] fix: a throwing slot function leaves its slot locked

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 48 +++++++++++++++----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 8692660..2aae9c6 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -121,12 +121,8 @@ public:
 	 * signals with their emit() methods.
 	 */
 	void process(Data data) {
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		Processing processing(*this); // finishes even if the function throws
 		(*function)(data);
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -191,6 +187,24 @@ public:
 	const std::set<std::string>& subscribedTopics() { return subscriptions; }
 
 private:
+	/**
+	 * Marks this sigslot as processing for as long as it lives.
+	 */
+	class Processing {
+	public:
+		Processing(SigSlot &s) : sigslot(s) {
+			sigslot.mutex.trylock(); // Only lock if its not already locked.
+			++sigslot.processing_count;
+		}
+		~Processing() {
+			if ( --sigslot.processing_count == 0 ) {
+				sigslot.mutex.unlock();
+			}
+		}
+	private:
+		SigSlot &sigslot;
+	};
+
 	Mutex mutex;
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
@@ -286,12 +300,8 @@ public:
 	 */
 	void process(Void void_arg = Void()) {
 		(void)void_arg;
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		Processing processing(*this); // finishes even if the function throws
 		(*function)();
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -352,6 +362,24 @@ public:
 	}
 
 private:
+	/**
+	 * Marks this sigslot as processing for as long as it lives.
+	 */
+	class Processing {
+	public:
+		Processing(SigSlot &s) : sigslot(s) {
+			sigslot.mutex.trylock(); // Only lock if its not already locked.
+			++sigslot.processing_count;
+		}
+		~Processing() {
+			if ( --sigslot.processing_count == 0 ) {
+				sigslot.mutex.unlock();
+			}
+		}
+	private:
+		SigSlot &sigslot;
+	};
+
 	Mutex mutex;
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
-- 
2.43.0


From d40f9d2c8f825ffeb8a7005fb24f216722da17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:22 +0000
Subject: [PATCH 096/107] fix: slots may be disconnected by the functions an
 emission calls

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 2aae9c6..7456a81 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -104,14 +104,22 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit(Data data) {
+		// The functions called may connect or disconnect signals and slots, so
+		// always look up what is to follow afresh.
 		typename PublicationMap::const_iterator topic_iter;
 		typename Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot<Data> *sigslot = *slots_iter;
+		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ) {
+			const std::string topic = topic_iter->first;
+			SigSlot<Data> *sigslot = NULL;
+			while ( ( topic_iter = publications.find(topic) ) != publications.end() ) {
+				slots_iter = topic_iter->second->upper_bound(sigslot);
+				if ( slots_iter == topic_iter->second->end() ) {
+					break;
+				}
+				sigslot = *slots_iter;
 				sigslot->process(data);
 			}
+			topic_iter = publications.upper_bound(topic);
 		}
 	}
 	/**
@@ -282,14 +290,22 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit() {
+		// The functions called may connect or disconnect signals and slots, so
+		// always look up what is to follow afresh.
 		PublicationMap::const_iterator topic_iter;
 		Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot *sigslot = *slots_iter;
+		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ) {
+			const std::string topic = topic_iter->first;
+			SigSlot *sigslot = NULL;
+			while ( ( topic_iter = publications.find(topic) ) != publications.end() ) {
+				slots_iter = topic_iter->second->upper_bound(sigslot);
+				if ( slots_iter == topic_iter->second->end() ) {
+					break;
+				}
+				sigslot = *slots_iter;
 				sigslot->process();
 			}
+			topic_iter = publications.upper_bound(topic);
 		}
 	}
 	/**
-- 
2.43.0


From d41d7767a8e724b434efa041ec1713c5407b07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:29 +0000
Subject: [PATCH 097/107] fix: slots destroy their mutex while it is locked

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 7456a81..a88d1f9 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -92,6 +92,7 @@ public:
 		disconnect(); // stop any new processing from connected signals
 		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
 		delete function;
+		mutex.unlock(); // a mutex must not be destroyed while locked
 	}
 
 	const unsigned int& handles() const { return number_of_handles; } /**< @brief Number of copies of this object. **/
@@ -278,6 +279,7 @@ public:
 		disconnect(); // stop any new processing from connected signals
 		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
 		delete function;
+		mutex.unlock(); // a mutex must not be destroyed while locked
 	}
 
 	const unsigned int& handles() const { return number_of_handles; } /**< @brief Number of copies of this object. **/
-- 
2.43.0


From 6b1bd2a9109e61c1f309916b27ded245f8332182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 098/107] fix: slots destroyed by another thread between being
 looked up and called

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp |  15 ++
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 134 +++++++++++++-----
 2 files changed, 111 insertions(+), 38 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index 4930ce0..f48fc9c 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -23,6 +23,7 @@
 #include <string>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/config/macros.hpp>
+#include <ecl/threads/mutex.hpp>
 #include <ecl/utilities/void.hpp>
 #include "topic.hpp"
 
@@ -65,6 +66,20 @@ public:
 	}
 
 private:
+	/**
+	 * @brief Holds off other threads while topics and connections are looked up or changed.
+	 */
+	class Lock {
+	public:
+		Lock() { mutex().lock(); }
+		~Lock() { mutex().unlock(); }
+	private:
+		static Mutex& mutex() {
+			static Mutex *lock = new Mutex(); // never destroyed, global signals and slots may outlive everything else
+			return *lock;
+		}
+	};
+
 	/**
 	 * @brief A list of subscribers (slots) to a given topic.
 	 */
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index a88d1f9..92d2dde 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -107,20 +107,11 @@ public:
 	void emit(Data data) {
 		// The functions called may connect or disconnect signals and slots, so
 		// always look up what is to follow afresh.
-		typename PublicationMap::const_iterator topic_iter;
-		typename Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ) {
-			const std::string topic = topic_iter->first;
-			SigSlot<Data> *sigslot = NULL;
-			while ( ( topic_iter = publications.find(topic) ) != publications.end() ) {
-				slots_iter = topic_iter->second->upper_bound(sigslot);
-				if ( slots_iter == topic_iter->second->end() ) {
-					break;
-				}
-				sigslot = *slots_iter;
-				sigslot->process(data);
-			}
-			topic_iter = publications.upper_bound(topic);
+		std::string topic;
+		SigSlot<Data> *sigslot = NULL;
+		while ( ( sigslot = next(topic,sigslot) ) != NULL ) {
+			Processing processing(*sigslot); // finishes even if the function throws
+			(*sigslot->function)(data);
 		}
 	}
 	/**
@@ -130,6 +121,10 @@ public:
 	 * signals with their emit() methods.
 	 */
 	void process(Data data) {
+		{
+			Lock lock;
+			start();
+		}
 		Processing processing(*this); // finishes even if the function throws
 		(*function)(data);
 	}
@@ -149,6 +144,7 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
+		Lock lock;
 		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Data>::connectSignal(topic,this)) );
 	}
 	/**
@@ -159,6 +155,7 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void connectSlot(const std::string& topic) {
+		Lock lock;
 		std::pair< std::set<std::string>::iterator,bool > ret;
 	//	std::cout << "Topic: " << topic << std::endl;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
@@ -171,6 +168,7 @@ public:
 	 */
 	void disconnect(const std::string &topic) {
 		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
+		Lock lock;
 		SigSlotsManager<Data>::disconnect(topic,this);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
 		subscriptions.erase(topic);
@@ -181,6 +179,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		Lock lock;
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Data>::disconnect(*iter, this);
@@ -196,16 +195,16 @@ public:
 	const std::set<std::string>& subscribedTopics() { return subscriptions; }
 
 private:
+	typedef typename SigSlotsManager<Data>::Lock Lock;
+
 	/**
-	 * Marks this sigslot as processing for as long as it lives.
+	 * Finishes what start() began.
 	 */
 	class Processing {
 	public:
-		Processing(SigSlot &s) : sigslot(s) {
-			sigslot.mutex.trylock(); // Only lock if its not already locked.
-			++sigslot.processing_count;
-		}
+		Processing(SigSlot &s) : sigslot(s) {}
 		~Processing() {
+			Lock lock;
 			if ( --sigslot.processing_count == 0 ) {
 				sigslot.mutex.unlock();
 			}
@@ -214,6 +213,36 @@ private:
 		SigSlot &sigslot;
 	};
 
+	/**
+	 * Holds up destruction while processing.
+	 */
+	void start() {
+		mutex.trylock(); // Only lock if its not already locked.
+		++processing_count;
+	}
+
+	/**
+	 * Finds and starts the next slot to call when emitting.
+	 *
+	 * @param topic : topic of the previous slot, updated to that of the next.
+	 * @param previous : the slot called before, NULL to begin with.
+	 * @return the next slot, NULL if there are no more.
+	 */
+	SigSlot<Data>* next(std::string &topic, SigSlot<Data> *previous) {
+		Lock lock;
+		typename PublicationMap::const_iterator topic_iter = publications.lower_bound(topic);
+		for ( ; topic_iter != publications.end(); ++topic_iter ) {
+			const bool same = ( topic_iter->first == topic );
+			typename Subscribers::const_iterator slots_iter = topic_iter->second->upper_bound(same ? previous : NULL);
+			if ( slots_iter != topic_iter->second->end() ) {
+				topic = topic_iter->first;
+				(*slots_iter)->start();
+				return *slots_iter;
+			}
+		}
+		return NULL;
+	}
+
 	Mutex mutex;
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
@@ -294,20 +323,11 @@ public:
 	void emit() {
 		// The functions called may connect or disconnect signals and slots, so
 		// always look up what is to follow afresh.
-		PublicationMap::const_iterator topic_iter;
-		Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ) {
-			const std::string topic = topic_iter->first;
-			SigSlot *sigslot = NULL;
-			while ( ( topic_iter = publications.find(topic) ) != publications.end() ) {
-				slots_iter = topic_iter->second->upper_bound(sigslot);
-				if ( slots_iter == topic_iter->second->end() ) {
-					break;
-				}
-				sigslot = *slots_iter;
-				sigslot->process();
-			}
-			topic_iter = publications.upper_bound(topic);
+		std::string topic;
+		SigSlot *sigslot = NULL;
+		while ( ( sigslot = next(topic,sigslot) ) != NULL ) {
+			Processing processing(*sigslot); // finishes even if the function throws
+			(*sigslot->function)();
 		}
 	}
 	/**
@@ -318,6 +338,10 @@ public:
 	 */
 	void process(Void void_arg = Void()) {
 		(void)void_arg;
+		{
+			Lock lock;
+			start();
+		}
 		Processing processing(*this); // finishes even if the function throws
 		(*function)();
 	}
@@ -337,12 +361,14 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
+		Lock lock;
 		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Void>::connectSignal(topic,this)) );
 	}
 	/**
 	 * @brief Connect a slot to the specified topic.
 	 */
 	void connectSlot(const std::string& topic){
+		Lock lock;
 		std::pair< std::set<std::string>::iterator,bool > ret;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
 		if ( ret.second ) {
@@ -357,6 +383,7 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void disconnect(const std::string &topic) {
+		Lock lock;
 		SigSlotsManager<Void>::disconnect(topic,this);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
 		subscriptions.erase(topic);
@@ -367,6 +394,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		Lock lock;
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Void>::disconnect(*iter, this);
@@ -380,16 +408,16 @@ public:
 	}
 
 private:
+	typedef SigSlotsManager<Void>::Lock Lock;
+
 	/**
-	 * Marks this sigslot as processing for as long as it lives.
+	 * Finishes what start() began.
 	 */
 	class Processing {
 	public:
-		Processing(SigSlot &s) : sigslot(s) {
-			sigslot.mutex.trylock(); // Only lock if its not already locked.
-			++sigslot.processing_count;
-		}
+		Processing(SigSlot &s) : sigslot(s) {}
 		~Processing() {
+			Lock lock;
 			if ( --sigslot.processing_count == 0 ) {
 				sigslot.mutex.unlock();
 			}
@@ -398,6 +426,36 @@ private:
 		SigSlot &sigslot;
 	};
 
+	/**
+	 * Holds up destruction while processing.
+	 */
+	void start() {
+		mutex.trylock(); // Only lock if its not already locked.
+		++processing_count;
+	}
+
+	/**
+	 * Finds and starts the next slot to call when emitting.
+	 *
+	 * @param topic : topic of the previous slot, updated to that of the next.
+	 * @param previous : the slot called before, NULL to begin with.
+	 * @return the next slot, NULL if there are no more.
+	 */
+	SigSlot* next(std::string &topic, SigSlot *previous) {
+		Lock lock;
+		PublicationMap::const_iterator topic_iter = publications.lower_bound(topic);
+		for ( ; topic_iter != publications.end(); ++topic_iter ) {
+			const bool same = ( topic_iter->first == topic );
+			Subscribers::const_iterator slots_iter = topic_iter->second->upper_bound(same ? previous : NULL);
+			if ( slots_iter != topic_iter->second->end() ) {
+				topic = topic_iter->first;
+				(*slots_iter)->start();
+				return *slots_iter;
+			}
+		}
+		return NULL;
+	}
+
 	Mutex mutex;
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
-- 
2.43.0


From 0f3e8a134a48d19f324d1f67c0bd141b0ab385d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:34 +0000
Subject: [PATCH 099/107] fix: command line arguments may contain a '*'

---
 ecl_command_line/include/ecl/command_line/arg.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index b401093..85acbca 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -176,10 +176,10 @@ class Arg
 
 		/**
 		 * The char used as a place holder when SwitchArgs are combined.
-		 * Currently set to '*', which shouldn't cause many problems since
-		 * *'s are expanded by most shells on the command line.
+		 * Currently set to the bell, which unlike '*' is not to be expected
+		 * in the text of an argument.
 		 */
-		static char blankChar() { return '*'; }
+		static char blankChar() { return '\a'; }
 
 		/**
 		 * The char that indicates the beginning of a flag.  Currently '-'.
-- 
2.43.0


From c6112d144a856b88eae496dedfee48f827fd814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:34 +0000
Subject: [PATCH 100/107] fix: characters of a delimited value are not combined
 switches

---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index 5fd6f99..cdac914 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -139,6 +139,10 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 		 Arg::nameStartString() )
 		return false;
 
+	// make sure it isn't a flag with its value
+	if ( combinedSwitches.find( Arg::delimiter() ) != std::string::npos )
+		return false;
+
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-- 
2.43.0


From c5a3f56d955072331380276e2d052e6bbb026e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:34 +0000
Subject: [PATCH 101/107] fix: an empty command line value is not a number

---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp | 2 +-
 ecl_command_line/include/ecl/command_line/value_arg.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index 82492af..bb346b3 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -98,7 +98,7 @@ class ValueExtractor
 				valuesRead++;
 			}
 
-			if ( is.fail() )
+			if ( is.fail() || valuesRead == 0 )
 				return EXTRACT_FAILURE;
 
 			if ( valuesRead > 1 )
diff --git a/ecl_command_line/include/ecl/command_line/value_arg.hpp b/ecl_command_line/include/ecl/command_line/value_arg.hpp
index 0aedd35..81f7f49 100644
--- a/ecl_command_line/include/ecl/command_line/value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/value_arg.hpp
@@ -95,7 +95,7 @@ template<class T> class ValueExtractor
                 valuesRead++;
             }
 
-            if ( is.fail() )
+            if ( is.fail() || valuesRead == 0 )
                 return EXTRACT_FAILURE;
 
             if ( valuesRead > 1 )
-- 
2.43.0


From a3a545eb01f4c11d9bb1c08428a2b2294c10523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:34 +0000
Subject: [PATCH 102/107] fix: setting a command line's output leaks the
 default one

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 67ae615..e051e58 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -441,6 +441,8 @@ inline CmdLineOutput* CmdLine::getOutput()
 
 inline void CmdLine::setOutput(CmdLineOutput* co)
 {
+	if ( !_userSetOutput )
+		delete _output;
 	_userSetOutput = true;
 	_output = co;
 }
-- 
2.43.0


From f37b959984777310457b2beba67aa66f18e707ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:10 +0000
Subject: [PATCH 103/107] fix: a linear trajectory that cannot reach its last
 point stretches the last segment

---
 ecl_manipulators/src/lib/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 93b36b7..a5db1c5 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -729,7 +729,7 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
   }
   if (acceleration_constraint_broken)
   {
-    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by pre pseudo point.", 0);
+    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by post pseudo point.", n + 2);
   }
   post_pseudo_waypoint.duration(t_pullforward - t_post_intersect_duration);
   for (unsigned int j = 0; j < dimension(); ++j)
-- 
2.43.0


From 8e2afb2172d75584f8413cf3821f29491d12bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:28 +0000
Subject: [PATCH 104/107] fix: linear trajectories arrive at their last point
 at its rate

---
 ecl_manipulators/src/lib/trajectory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index a5db1c5..81ef374 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -643,7 +643,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
-    t_pullback = t_pullback * 2; // takes 11 runs to get from 1ms to 1s; adjust, if this is too much
+    if (acceleration_constraint_broken)
+    {
+      t_pullback = t_pullback * 2; // takes 11 runs to get from 1ms to 1s; adjust, if this is too much
+    }
   }
   if (acceleration_constraint_broken)
   {
@@ -725,7 +728,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
-    t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    if (acceleration_constraint_broken)
+    {
+      t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    }
   }
   if (acceleration_constraint_broken)
   {
-- 
2.43.0


From 81601181a6fd6ae33b9b509a598f0f18da47a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:48 +0000
Subject: [PATCH 105/107] fix: roots of quadratics with a small leading
 coefficient

---
 ecl_geometry/src/lib/polynomial.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 7f7705a..99cd59d 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -80,7 +80,14 @@ Array<double> Roots< QuadraticPolynomial >::operator()(const QuadraticPolynomial
 		double discriminant = b*b - 4*a*c;
 		if ( discriminant > 0.0 ) {
 			intercepts.resize(2);
-			intercepts << (-b + sqrt(discriminant))/(2*a), (-b - sqrt(discriminant))/(2*a);
+			// adding terms of opposite sign would cancel every digit of a root when a is tiny
+			if ( b >= 0.0 ) {
+				double q = -0.5*(b + sqrt(discriminant));
+				intercepts << c/q, q/a;
+			} else {
+				double q = -0.5*(b - sqrt(discriminant));
+				intercepts << q/a, c/q;
+			}
 		} else if ( discriminant == 0.0 ) {
 			intercepts.resize(1);
 			intercepts << -b/(2*a);
-- 
2.43.0


From 61df54cf69333b4f84da28a040c4347736315b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:11 +0000
Subject: [PATCH 106/107] fix: comparing waypoints of different dimensions
 reads past the smaller

---
 ecl_manipulators/include/ecl/manipulators/waypoint.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_manipulators/include/ecl/manipulators/waypoint.hpp b/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
index 8fc2a11..cc29584 100644
--- a/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
@@ -306,6 +306,7 @@ class WayPoint<JointAngles>
          * @return bool : true if all angles are equal, false otherwise.
          */
         bool operator==(const WayPoint<JointAngles>& other) const {
+        	if ( dimension() != other.dimension() ) { return false; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( angle_positions[i] != other.angle_positions[i] ) {
         			return false;
@@ -324,6 +325,7 @@ class WayPoint<JointAngles>
          * @return bool : true if not all angles are equal, false otherwise.
          */
         bool operator!=(const WayPoint<JointAngles>& other) const {
+        	if ( dimension() != other.dimension() ) { return true; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( angle_positions[i] != other.angle_positions[i] ) {
         			return true;
@@ -344,6 +346,7 @@ class WayPoint<JointAngles>
          * @return bool : true if all angles are approximately equal, false otherwise.
          */
         bool approx(const WayPoint<JointAngles> &other, const double& epsilon = 0.01) {
+        	if ( dimension() != other.dimension() ) { return false; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( std::fabs(angle_positions[i] - other.angle_positions[i]) > epsilon ) {
         			return false;
-- 
2.43.0


From 82d08bae49fe4c7b67a38ab0fd951a2ff71dd054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:12 +0000
Subject: [PATCH 107/107] fix: the duration of a trajectory without an
 interpolation is not initialised

---
 ecl_manipulators/include/ecl/manipulators/trajectory.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
index a1814aa..e0f31df 100644
--- a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
@@ -91,7 +91,8 @@ class Trajectory<JointAngles> {
          * @param name_identifier : string identifier for the trajectory name.
          */
         Trajectory(const char* name_identifier = "") :
-            name(name_identifier)
+            name(name_identifier),
+            trajectory_duration(0.0)
         {}
         /**
          * @brief Configures the joint dimension, and also (optionally) the trajectory name.
@@ -102,7 +103,8 @@ class Trajectory<JointAngles> {
         Trajectory(const unsigned int& dimension, const char* name_identifier = "") :
             name(name_identifier),
             spline_functions(dimension),
-            max_accelerations(Array<double>::Constant(dimension,0.0))
+            max_accelerations(Array<double>::Constant(dimension,0.0)),
+            trajectory_duration(0.0)
         {}
 
         /**
-- 
2.43.0

