From b5686b22ff601c77751d50e1b1c9cab917c8c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 01/34] fix: byte-swap complex elements per component

Big-endian complex values were reversed as one 8/16 byte unit, which swaps
the real and imaginary parts relative to NumPy's >c8 and >c16 layouts.
---
 src/dtype.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..09e2b3b 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -416,14 +416,14 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
       output.put(start[3]);
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[7]);
+      output.put(start[6]);
+      output.put(start[5]);
+      output.put(start[4]);
     }
   }
 }
@@ -439,14 +439,14 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
       ptr[3] = GETC(input);
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[7] = GETC(input);
+      ptr[6] = GETC(input);
+      ptr[5] = GETC(input);
+      ptr[4] = GETC(input);
     }
   }
 }
@@ -460,14 +460,6 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
       output.put(start[7]);
       output.put(start[6]);
       output.put(start[5]);
@@ -476,6 +468,14 @@ void write_values<>(std::basic_ostream<char> &output,
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[15]);
+      output.put(start[14]);
+      output.put(start[13]);
+      output.put(start[12]);
+      output.put(start[11]);
+      output.put(start[10]);
+      output.put(start[9]);
+      output.put(start[8]);
     }
   }
 }
@@ -491,14 +491,6 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
       ptr[7] = GETC(input);
       ptr[6] = GETC(input);
       ptr[5] = GETC(input);
@@ -507,6 +499,14 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[15] = GETC(input);
+      ptr[14] = GETC(input);
+      ptr[13] = GETC(input);
+      ptr[12] = GETC(input);
+      ptr[11] = GETC(input);
+      ptr[10] = GETC(input);
+      ptr[9] = GETC(input);
+      ptr[8] = GETC(input);
     }
   }
 }
-- 
2.43.0


From 0cd7b8afe52092bdcde7428cb1c91814c3dc7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 02/34] fix: refuse unknown dtype strings

from_dtype inserted a default (int8) entry into the global table for any
unknown string, so unsupported files were silently read as int8.
---
 src/dtype.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 09e2b3b..ad7c626 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -61,7 +61,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto entry = DTYPE_MAP.find(dtype);
+  if (entry == DTYPE_MAP.end()) {
+    throw std::runtime_error("Unsupported dtype: " + dtype);
+  }
+
+  return entry->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From 111ab7ff64abaefee6fdb55c9401f1b85422ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 03/34] fix: do not parse headers through a global buffer

Two threads reading unrelated NPY files raced on the static buffer.
---
 src/npy.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..3a51607 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -7,9 +7,6 @@
 #include "npy/npy.h"
 
 namespace {
-const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
-
 void read(std::istream &input, char expected) {
   char actual;
   input.get(actual);
@@ -17,8 +14,8 @@ void read(std::istream &input, char expected) {
 }
 
 void read(std::istream &input, const std::string &expected) {
-  input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
+  std::string actual(expected.length(), '\0');
+  input.read(&actual[0], actual.length());
   assert(actual == expected);
 }
 
@@ -30,15 +27,13 @@ void skip_whitespace(std::istream &input) {
 }
 
 std::string read_to(std::istream &input, char delim) {
-  if (input.peek() == delim) {
-    return "";
+  std::string token;
+  while (input.peek() != delim &&
+         input.peek() != std::istream::traits_type::eof()) {
+    token.push_back(static_cast<char>(input.get()));
   }
 
-  input.get(BUFFER, BUFFER_SIZE, delim);
-  auto length = input.gcount();
-  assert(length < BUFFER_SIZE);
-
-  return std::string(BUFFER, BUFFER + length);
+  return token;
 }
 
 std::string read_string(std::istream &input) {
-- 
2.43.0


From 23545d19dd164eb93dd941bbee3966f35fc6abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 04/34] fix: validate NPY headers in release builds

Magic, punctuation and literals were only checked with assert, and short
headers, unknown versions, missing keys or garbage shapes were accepted with
uninitialised fields. They now throw, as other invalid files do.
---
 include/npy/npy.h | 21 +++++++++++++--------
 src/npy.cpp       | 39 ++++++++++++++++++++++++++++++++-------
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..2b5cad1 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -295,26 +295,31 @@ void save(const std::string &path, T &tensor,
 /// @return the header information
 template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
-  std::uint8_t header[STATIC_HEADER_LENGTH];
+  std::uint8_t header[STATIC_HEADER_LENGTH] = {};
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  const std::uint8_t magic[] = {0x93, 'N', 'U', 'M', 'P', 'Y'};
+  if (!input || !std::equal(std::begin(magic), std::end(magic), header)) {
+    throw std::runtime_error("Invalid magic string (Not a valid NPY file)");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
-    std::uint8_t extra[2];
+    std::uint8_t extra[2] = {};
     input.read(reinterpret_cast<CHAR *>(extra), 2);
     dict_length =
         header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (!input) {
+    throw std::runtime_error("Truncated NPY header");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
diff --git a/src/npy.cpp b/src/npy.cpp
index 3a51607..fcbf8d1 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -8,15 +8,18 @@
 
 namespace {
 void read(std::istream &input, char expected) {
-  char actual;
-  input.get(actual);
-  assert(actual == expected);
+  char actual = 0;
+  if (!input.get(actual) || actual != expected) {
+    throw std::runtime_error("Invalid NPY header");
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
   std::string actual(expected.length(), '\0');
   input.read(&actual[0], actual.length());
-  assert(actual == expected);
+  if (actual != expected) {
+    throw std::runtime_error("Invalid NPY header");
+  }
 }
 
 void skip_whitespace(std::istream &input) {
@@ -63,9 +66,15 @@ std::vector<size_t> read_shape(std::istream &input) {
   std::vector<size_t> shape;
   size_t size;
 
-  while (tuple >> size) {
+  skip_whitespace(tuple);
+  while (tuple.peek() != std::istream::traits_type::eof()) {
+    if (!std::isdigit(tuple.peek()) || !(tuple >> size)) {
+      throw std::runtime_error("Invalid shape in NPY header");
+    }
+
     shape.push_back(size);
-    if (tuple.peek() == ',') {
+    skip_whitespace(tuple);
+    if (tuple.peek() != std::istream::traits_type::eof()) {
       read(tuple, ',');
       skip_whitespace(tuple);
     }
@@ -77,6 +86,9 @@ std::vector<size_t> read_shape(std::istream &input) {
 
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
+  bool has_descr = false;
+  bool has_fortran_order = false;
+  bool has_shape = false;
   std::istringstream input(dictionary);
   read(input, '{');
   while (input.peek() != '}') {
@@ -87,7 +99,14 @@ header_info::header_info(const std::string &dictionary) {
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      has_descr = true;
+      if (dtype_code.size() > 1 && dtype_code[1] == 'U') {
+        if (dtype_code.find_first_not_of("0123456789", 2) !=
+                std::string::npos ||
+            (dtype_code[0] != '<' && dtype_code[0] != '>')) {
+          throw std::runtime_error("Unsupported dtype: " + dtype_code);
+        }
+
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
@@ -99,8 +118,10 @@ header_info::header_info(const std::string &dictionary) {
 
     } else if (key == "fortran_order") {
       fortran_order = read_bool(input);
+      has_fortran_order = true;
     } else if (key == "shape") {
       shape = read_shape(input);
+      has_shape = true;
     } else {
       throw std::runtime_error("Unsupported key: " + key);
     }
@@ -110,6 +131,9 @@ header_info::header_info(const std::string &dictionary) {
   }
 
   read(input, '}');
+  if (!has_descr || !has_fortran_order || !has_shape) {
+    throw std::runtime_error("Incomplete NPY header");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
@@ -118,6 +142,7 @@ header_info::header_info(data_type_t dtype, npy::endian_t endianness,
   this->endianness = endianness;
   this->fortran_order = fortran_order;
   this->shape = shape;
+  this->max_element_length = 0;
 }
 
 header_info peek(const std::string &path) {
-- 
2.43.0


From 11f592375c38656464d6bd90d724ae0a4e7a1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 05/34] fix: refuse truncated NPY data

A file cut off inside its elements was loaded as if complete, with zeros (or
0xFF bytes when byte swapping) in place of the missing values.
---
 include/npy/npy.h | 7 ++++++-
 src/dtype.cpp     | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 2b5cad1..b13b4cf 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -337,7 +337,12 @@ void read_values(std::basic_istream<CHAR> &input, T *data_ptr,
 
 template <typename T, typename CHAR> T load(std::basic_istream<CHAR> &input) {
   header_info info = read_npy_header(input);
-  return T::load(input, info);
+  T result = T::load(input, info);
+  if (!input) {
+    throw std::runtime_error("Truncated NPY data");
+  }
+
+  return result;
 }
 
 /// @brief Loads a tensor in NPY format from the specified location on the disk.
diff --git a/src/dtype.cpp b/src/dtype.cpp
index ad7c626..140dbd0 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -575,6 +575,10 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
+      if (!input) {
+        return;
+      }
+
       if (value == 0) {
         continue;
       }
-- 
2.43.0


From 012e0232548f7060881be89595ddc93605a29562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 06/34] fix: refuse tensor shapes whose element count overflows

Such a shape produced a tensor with too few values whose in-range indices
addressed memory outside the buffer.
---
 include/npy/npy.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index b13b4cf..3405d9b 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -23,6 +23,7 @@
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -1005,8 +1006,16 @@ private:
 
   /// @brief Gets the size of a tensor given its shape
   static size_t get_size(const std::vector<size_t> &shape) {
+    if (std::count(shape.begin(), shape.end(), 0) > 0) {
+      return 0;
+    }
+
     size_t size = 1;
     for (auto &dim : shape) {
+      if (dim > std::numeric_limits<size_t>::max() / size) {
+        throw std::invalid_argument("shape");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From 68520d045f2aa80448afe0a6da929732db48722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 07/34] fix: check the number of coordinates of unsigned
 multi-indices

A std::vector<std::size_t> index of the wrong length was read out of bounds
(or applied to the wrong dimensions) instead of being refused.
---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 3405d9b..6e9c3ea 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -987,6 +987,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From 10eac34feceb82f0c9a5ae43f4ddd6b9fd504fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 08/34] fix: keep NUL characters inside Unicode strings

Only trailing NULs are padding; embedded ones were dropped, shortening and
altering the string.
---
 src/dtype.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 140dbd0..c7e7fcf 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -560,6 +560,7 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
                    size_t num_elements, const header_info &info) {
   std::wstring *ptr = data_ptr;
   for (size_t i = 0; i < num_elements; ++i, ++ptr) {
+    size_t num_nulls = 0;
     std::int_least32_t value = 0;
     char *bytes = reinterpret_cast<char *>(&value);
     for (size_t j = 0; j < info.max_element_length; ++j) {
@@ -580,9 +581,12 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
       }
 
       if (value == 0) {
+        ++num_nulls;
         continue;
       }
 
+      ptr->append(num_nulls, L'\0');
+      num_nulls = 0;
       ptr->push_back(static_cast<wchar_t>(value));
     }
   }
-- 
2.43.0


From 495e0f92dfc640bc0f6f4d1ce65918c189989ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 09/34] fix: return the tensor from npzfilereader::read<T,
 TENSOR>

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 6e9c3ea..985082e 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -658,7 +658,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From 96dd87817ce4c36accb7e677399b06f11adad8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 10/34] fix: convert negative and NaN values to true in
 npy::boolean

The converting constructor tested v > 0, unlike the assignment operator and
the language's own conversion to bool.
---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 985082e..9cba568 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -108,7 +108,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0


From 1a126bf2b03061fc20a2cf5c5159fc9e99d717f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 11/34] fix: write the full NPY header length

The length was truncated to its low byte, so headers over 255 bytes (tensors
with many or large dimensions) could not be read back by any reader.
---
 include/npy/npy.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 9cba568..204ab8d 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -201,20 +201,33 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
 
   buff << "), }";
   std::string dictionary = buff.str();
+  // version 2.0 has a four byte header length, for very long dictionaries
+  const bool version2 = dictionary.size() + 64 > 0xFFFF;
+  const size_t static_length = STATIC_HEADER_LENGTH + (version2 ? 2 : 0);
   auto dict_length = dictionary.size() + 1;
   std::string end = "\n";
-  auto header_length = dict_length + STATIC_HEADER_LENGTH;
+  auto header_length = dict_length + static_length;
   if (header_length % 64 != 0) {
     header_length = ((header_length / 64) + 1) * 64;
-    dict_length = header_length - STATIC_HEADER_LENGTH;
+    dict_length = header_length - static_length;
     end = std::string(dict_length - dictionary.length(), ' ');
     end.back() = '\n';
   }
 
-  const char header[STATIC_HEADER_LENGTH] = {
-      static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
-  output.write(header, STATIC_HEADER_LENGTH);
+  const char header[STATIC_HEADER_LENGTH + 2] = {
+      static_cast<char>(0x93),
+      'N',
+      'U',
+      'M',
+      'P',
+      'Y',
+      static_cast<char>(version2 ? 0x02 : 0x01),
+      0x00,
+      static_cast<char>(dict_length),
+      static_cast<char>(dict_length >> 8),
+      static_cast<char>(dict_length >> 16),
+      static_cast<char>(dict_length >> 24)};
+  output.write(header, static_length);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
   output.write(reinterpret_cast<const CHAR *>(end.data()), end.length());
-- 
2.43.0


From 1915ad21322adec0d6391046e7b61d5bfb83133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 12/34] fix: format and parse NPY headers independently of the
 locale

With a global locale that groups digits, dimensions of four or more digits
were written as e.g. 2,000, and shapes could not be read.
---
 include/npy/npy.h | 2 ++
 src/npy.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 204ab8d..4693a17 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -24,6 +24,7 @@
 #include <filesystem>
 #include <fstream>
 #include <limits>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -185,6 +186,7 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
                       const std::string &dtype, bool fortran_order,
                       const std::vector<size_t> &shape) {
   std::ostringstream buff;
+  buff.imbue(std::locale::classic());
   buff << "{'descr': '" << dtype;
   buff << "', 'fortran_order': " << (fortran_order ? "True" : "False");
   buff << ", 'shape': (";
diff --git a/src/npy.cpp b/src/npy.cpp
index fcbf8d1..564da06 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -62,6 +62,7 @@ std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
   std::istringstream tuple(read_to(input, ')'));
   read(input, ')');
+  tuple.imbue(std::locale::classic());
 
   std::vector<size_t> shape;
   size_t size;
-- 
2.43.0


From d5d38aaa08c958339ea720de441c70dc6c088066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 13/34] fix: detect short reads in NPZ archives and recover
 from them

Header fields were compared uninitialised when the archive ended early, and
one failed read left the stream failed, so intact members could no longer be
read from the same reader.
---
 src/npz.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..adc2bcc 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -84,9 +84,9 @@ std::uint64_t read64(std::istream &stream) {
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
-  std::array<std::uint8_t, 4> actual;
+  std::array<std::uint8_t, 4> actual = {};
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
-  if (actual != expected) {
+  if (!stream || actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
     printf("actual: [%d, %d, %d, %d]\n", actual[0], actual[1], actual[2],
            actual[3]);
@@ -226,6 +226,10 @@ npy::file_entry read_local_header(std::istream &stream) {
     read_zip64_extra(stream, entry, false);
   }
 
+  if (!stream) {
+    throw std::runtime_error("Truncated local header");
+  }
+
   return entry;
 }
 
@@ -278,6 +282,10 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
     read_zip64_extra(stream, entry, true);
   }
 
+  if (!stream) {
+    throw std::runtime_error("Truncated central directory");
+  }
+
   return entry;
 }
 
@@ -391,6 +399,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear(); // an earlier read may have failed
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
@@ -402,6 +411,10 @@ std::string read_file(std::istream &input,
   uncompressed_bytes.resize(entry.compressed_size);
   input.read(reinterpret_cast<char *>(uncompressed_bytes.data()),
              uncompressed_bytes.size());
+  if (!input) {
+    throw std::runtime_error("Truncated file data");
+  }
+
   compression_method_t cmethod =
       static_cast<compression_method_t>(entry.compression_method);
   if (cmethod == compression_method_t::DEFLATED) {
-- 
2.43.0


From 9bd75dc633bdfd5a45ad14f822914332dc74fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 14/34] fix: let contains() use the same name lookup as read()
 and peek()

read("a") and peek("a") find the member a.npy, but contains("a") denied
that it exists.
---
 src/npz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index adc2bcc..f36369c 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -540,7 +540,7 @@ std::string npzstringreader::read_file(const std::string &filename) {
 }
 
 bool npzstringreader::contains(const std::string &filename) {
-  return m_entries.count(filename);
+  return m_entries.count(filename) || m_entries.count(filename + ".npy");
 }
 
 header_info npzstringreader::peek(const std::string &filename) {
@@ -578,7 +578,7 @@ std::string npzfilereader::read_file(const std::string &filename) {
 }
 
 bool npzfilereader::contains(const std::string &filename) {
-  return m_entries.count(filename);
+  return m_entries.count(filename) || m_entries.count(filename + ".npy");
 }
 
 header_info npzfilereader::peek(const std::string &filename) {
-- 
2.43.0


From c68f7274a6f9b264aec98d5c28e05effd8750d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 15/34] fix: refuse NPZ members with unsupported compression
 methods

Their compressed bytes were taken for stored data.
---
 src/npz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index f36369c..5bc7a92 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -419,6 +419,8 @@ std::string read_file(std::istream &input,
       static_cast<compression_method_t>(entry.compression_method);
   if (cmethod == compression_method_t::DEFLATED) {
     uncompressed_bytes = npy_inflate(std::move(uncompressed_bytes));
+  } else if (cmethod != compression_method_t::STORED) {
+    throw std::runtime_error("Unsupported compression method");
   }
 
   std::uint32_t actual_crc32 = npy_crc32(uncompressed_bytes);
-- 
2.43.0


From ab0b31d968bbcca343b7ceace737eeea0fe0e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 16/34] fix: read archives with foreign extra fields and
 comments

---
 src/npz.cpp | 73 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 5bc7a92..4b35fcc 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstdint>
@@ -18,6 +19,7 @@ const std::array<std::uint8_t, 4> CD_END_SIG = {0x50, 0x4B, 0x05, 0x06};
 const std::array<std::uint8_t, 4> EXTERNAL_ATTR = {0x00, 0x00, 0x80, 0x01};
 const std::array<std::uint8_t, 4> TIME = {0x00, 0x00, 0x21, 0x00};
 const int CD_END_SIZE = 22;
+const int CD_END_MAX_SIZE = CD_END_SIZE + 0xFFFF;
 const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
@@ -137,13 +139,7 @@ void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
 }
 
 void read_zip64_extra(std::istream &stream, npy::file_entry &header,
-                      bool include_offset) {
-  std::uint16_t tag = read16(stream);
-  if (tag != ZIP64_TAG) {
-    throw std::runtime_error("Invalid tag (expected ZIP64)");
-  }
-
-  std::uint16_t actual_size = read16(stream);
+                      std::uint16_t actual_size, bool include_offset) {
   std::uint16_t expected_size = 0;
 
   if (header.uncompressed_size == ZIP64_PLACEHOLDER) {
@@ -171,6 +167,28 @@ void read_zip64_extra(std::istream &stream, npy::file_entry &header,
   }
 }
 
+void read_extra_fields(std::istream &stream, npy::file_entry &header,
+                       std::uint16_t length, bool include_offset) {
+  while (length >= 4) {
+    std::uint16_t tag = read16(stream);
+    std::uint16_t size = read16(stream);
+    length -= 4;
+    if (size > length) {
+      throw std::runtime_error("Invalid extra field");
+    }
+
+    if (tag == ZIP64_TAG) {
+      read_zip64_extra(stream, header, size, include_offset);
+    } else {
+      stream.ignore(size);
+    }
+
+    length -= size;
+  }
+
+  stream.ignore(length);
+}
+
 void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
   std::uint16_t general_purpose_big_flag = 0;
   write(stream, general_purpose_big_flag);
@@ -222,9 +240,7 @@ npy::file_entry read_local_header(std::istream &stream) {
   stream.read(buffer.data(), filename_length);
   entry.filename = std::string(buffer.begin(), buffer.end());
 
-  if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, false);
-  }
+  read_extra_fields(stream, entry, extra_field_length, false);
 
   if (!stream) {
     throw std::runtime_error("Truncated local header");
@@ -268,7 +284,7 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   npy::file_entry entry;
   std::uint16_t filename_length = read_shared_header(stream, entry);
   std::uint16_t extra_field_length = read16(stream);
-  read16(stream); // file comment length
+  std::uint16_t file_comment_length = read16(stream);
   read16(stream); // disk number start
   read16(stream); // internal file attributes
   read32(stream); // external file attributes
@@ -278,9 +294,8 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   stream.read(buffer.data(), filename_length);
   entry.filename = std::string(buffer.begin(), buffer.end());
 
-  if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, true);
-  }
+  read_extra_fields(stream, entry, extra_field_length, true);
+  stream.ignore(file_comment_length);
 
   if (!stream) {
     throw std::runtime_error("Truncated central directory");
@@ -323,10 +338,38 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
   return result;
 }
 
+void seek_end_of_central_directory(std::istream &stream) {
+  // the record ends the file, but may itself end with an archive comment
+  stream.seekg(0, std::ios::end);
+  std::streamoff size = stream.tellg();
+  std::string tail(
+      static_cast<size_t>(std::clamp<std::streamoff>(size, 0, CD_END_MAX_SIZE)),
+      '\0');
+  stream.seekg(-static_cast<std::streamoff>(tail.size()), std::ios::end);
+  stream.read(&tail[0], tail.size());
+  std::string sig(CD_END_SIG.begin(), CD_END_SIG.end());
+  size_t pos = tail.rfind(sig);
+  while (pos != std::string::npos) {
+    if (pos + CD_END_SIZE <= tail.size()) {
+      size_t comment_length = static_cast<std::uint8_t>(tail[pos + 20]) |
+                              static_cast<std::uint8_t>(tail[pos + 21]) << 8;
+      if (pos + CD_END_SIZE + comment_length == tail.size()) {
+        break;
+      }
+    }
+
+    pos = pos == 0 ? std::string::npos : tail.rfind(sig, pos - 1);
+  }
+
+  // without a record, the signature check which follows reports the error
+  size_t distance = pos == std::string::npos ? 0 : tail.size() - pos;
+  stream.seekg(-static_cast<std::streamoff>(distance), std::ios::end);
+}
+
 void read_entries(std::istream &input,
                   std::map<std::string, file_entry> &entries,
                   std::vector<std::string> &keys) {
-  input.seekg(-CD_END_SIZE, std::ios::end);
+  seek_end_of_central_directory(input);
   CentralDirectory dir = read_end_of_central_directory(input);
 
   input.seekg(dir.offset, std::ios::beg);
-- 
2.43.0


From b33a2debb47c4079fbc27b016a42d68cef32d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 17/34] fix: read NPZ members which use data descriptors

---
 src/npz.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 4b35fcc..d405a55 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -24,6 +24,7 @@ const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 
+const std::uint16_t DATA_DESCRIPTOR_FLAG = 0x0008;
 const std::uint16_t ZIP64_TAG = 1;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
@@ -200,9 +201,9 @@ void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
   write(stream, static_cast<std::uint16_t>(header.filename.length()));
 }
 
-std::uint16_t read_shared_header(std::istream &stream,
-                                 npy::file_entry &header) {
-  read16(stream); // general purpose bit flag
+std::uint16_t read_shared_header(std::istream &stream, npy::file_entry &header,
+                                 std::uint16_t &general_purpose_bit_flag) {
+  general_purpose_bit_flag = read16(stream);
   header.compression_method = read16(stream);
   read32(stream); // time
   header.crc32 = read32(stream);
@@ -225,7 +226,8 @@ void write_local_header(std::ostream &stream, const npy::file_entry &header,
   }
 }
 
-npy::file_entry read_local_header(std::istream &stream) {
+npy::file_entry read_local_header(std::istream &stream,
+                                  const npy::file_entry &central) {
   assert_sig(stream, LOCAL_HEADER_SIG, "local_header");
   std::uint16_t version = read16(stream);
   if (version > ZIP64_VERSION) {
@@ -234,13 +236,20 @@ npy::file_entry read_local_header(std::istream &stream) {
 
   npy::file_entry entry;
 
-  std::uint16_t filename_length = read_shared_header(stream, entry);
+  std::uint16_t flags = 0;
+  std::uint16_t filename_length = read_shared_header(stream, entry, flags);
   std::uint16_t extra_field_length = read16(stream);
   std::vector<char> buffer(filename_length);
   stream.read(buffer.data(), filename_length);
   entry.filename = std::string(buffer.begin(), buffer.end());
 
   read_extra_fields(stream, entry, extra_field_length, false);
+  if (flags & DATA_DESCRIPTOR_FLAG) {
+    // these follow the data, and only the central directory has them up front
+    entry.crc32 = central.crc32;
+    entry.compressed_size = central.compressed_size;
+    entry.uncompressed_size = central.uncompressed_size;
+  }
 
   if (!stream) {
     throw std::runtime_error("Truncated local header");
@@ -282,7 +291,8 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   }
 
   npy::file_entry entry;
-  std::uint16_t filename_length = read_shared_header(stream, entry);
+  std::uint16_t flags = 0;
+  std::uint16_t filename_length = read_shared_header(stream, entry, flags);
   std::uint16_t extra_field_length = read16(stream);
   std::uint16_t file_comment_length = read16(stream);
   read16(stream); // disk number start
@@ -445,7 +455,7 @@ std::string read_file(std::istream &input,
   input.clear(); // an earlier read may have failed
   input.seekg(entry.offset, std::ios::beg);
 
-  file_entry local = read_local_header(input);
+  file_entry local = read_local_header(input, entry);
   if (!entry.check(local)) {
     throw std::runtime_error("Central directory and local headers disagree");
   }
-- 
2.43.0


From c34ff41a70b21afc0c382120c488487a2d2f3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 18/34] fix: write and read ZIP64 archives

---
 src/npz.cpp | 133 ++++++++++++++++++++++++++++++++++++++++------------
 src/zip.cpp |   3 +-
 2 files changed, 104 insertions(+), 32 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index d405a55..d7a24b5 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -15,6 +15,9 @@ using namespace npy;
 const std::array<std::uint8_t, 4> LOCAL_HEADER_SIG = {0x50, 0x4B, 0x03, 0x04};
 const std::array<std::uint8_t, 4> CD_HEADER_SIG = {0x50, 0x4B, 0x01, 0x02};
 const std::array<std::uint8_t, 4> CD_END_SIG = {0x50, 0x4B, 0x05, 0x06};
+const std::array<std::uint8_t, 4> ZIP64_CD_END_SIG = {0x50, 0x4B, 0x06, 0x06};
+const std::array<std::uint8_t, 4> ZIP64_CD_LOCATOR_SIG = {0x50, 0x4B, 0x06,
+                                                          0x07};
 
 const std::array<std::uint8_t, 4> EXTERNAL_ATTR = {0x00, 0x00, 0x80, 0x01};
 const std::array<std::uint8_t, 4> TIME = {0x00, 0x00, 0x21, 0x00};
@@ -28,6 +31,8 @@ const std::uint16_t DATA_DESCRIPTOR_FLAG = 0x0008;
 const std::uint16_t ZIP64_TAG = 1;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
+const std::uint16_t ZIP64_NUM_ENTRIES_PLACEHOLDER = 0xFFFF;
+const int ZIP64_CD_LOCATOR_SIZE = 20;
 
 void write(std::ostream &stream, std::uint16_t value) {
   stream.put(value & 0x00FF);
@@ -99,19 +104,25 @@ void assert_sig(std::istream &stream,
   }
 }
 
+bool has_zip64_sizes(const npy::file_entry &header) {
+  // a local header must have both sizes in its extra field, or neither
+  return header.compressed_size > ZIP64_LIMIT ||
+         header.uncompressed_size > ZIP64_LIMIT;
+}
+
 std::uint16_t determine_extra_length(const npy::file_entry &header,
                                      bool include_offset) {
   std::uint16_t length = 0;
-  if (header.compressed_size > ZIP64_LIMIT) {
-    length += 8;
+  if (has_zip64_sizes(header)) {
+    length += 16;
   }
 
-  if (header.uncompressed_size > ZIP64_LIMIT) {
+  if (include_offset && header.offset > ZIP64_LIMIT) {
     length += 8;
   }
 
-  if (include_offset && header.offset > ZIP64_LIMIT) {
-    length += 8;
+  if (length > 0) {
+    length += 4; // tag and size
   }
 
   return length;
@@ -120,11 +131,8 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
 void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
                        bool include_offset) {
   std::vector<std::uint64_t> extra;
-  if (header.uncompressed_size > ZIP64_LIMIT) {
+  if (has_zip64_sizes(header)) {
     extra.push_back(header.uncompressed_size);
-  }
-
-  if (header.compressed_size > ZIP64_LIMIT) {
     extra.push_back(header.compressed_size);
   }
 
@@ -196,8 +204,9 @@ void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
   write(stream, header.compression_method);
   stream.write(reinterpret_cast<const char *>(TIME.data()), TIME.size());
   write(stream, header.crc32);
-  write32(stream, header.compressed_size);
-  write32(stream, header.uncompressed_size);
+  bool zip64 = has_zip64_sizes(header);
+  write32(stream, zip64 ? ZIP64_PLACEHOLDER : header.compressed_size);
+  write32(stream, zip64 ? ZIP64_PLACEHOLDER : header.uncompressed_size);
   write(stream, static_cast<std::uint16_t>(header.filename.length()));
 }
 
@@ -315,27 +324,87 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
 }
 
 struct CentralDirectory {
-  std::uint16_t num_entries;
-  std::uint32_t size;
-  std::uint32_t offset;
+  std::uint64_t num_entries;
+  std::uint64_t size;
+  std::uint64_t offset;
 };
 
+void write_zip64_end_of_central_directory(std::ostream &stream,
+                                          const CentralDirectory &dir) {
+  stream.write(reinterpret_cast<const char *>(ZIP64_CD_END_SIG.data()),
+               ZIP64_CD_END_SIG.size());
+  std::uint64_t record_size = 44; // not including the signature and this field
+  write(stream, record_size);
+  write(stream, ZIP64_VERSION);
+  write(stream, ZIP64_VERSION);
+  std::uint32_t disk_number = 0;
+  write(stream, disk_number);
+  write(stream, disk_number);
+  write(stream, dir.num_entries);
+  write(stream, dir.num_entries);
+  write(stream, dir.size);
+  write(stream, dir.offset);
+
+  stream.write(reinterpret_cast<const char *>(ZIP64_CD_LOCATOR_SIG.data()),
+               ZIP64_CD_LOCATOR_SIG.size());
+  write(stream, disk_number);
+  write(stream, dir.offset + dir.size);
+  std::uint32_t num_disks = 1;
+  write(stream, num_disks);
+}
+
 void write_end_of_central_directory(std::ostream &stream,
                                     const CentralDirectory &dir) {
+  if (dir.num_entries >= ZIP64_NUM_ENTRIES_PLACEHOLDER ||
+      dir.size > ZIP64_LIMIT || dir.offset > ZIP64_LIMIT) {
+    write_zip64_end_of_central_directory(stream, dir);
+  }
+
   stream.write(reinterpret_cast<const char *>(CD_END_SIG.data()),
                CD_END_SIG.size());
   uint16_t disk_number = 0;
   write(stream, disk_number);
   write(stream, disk_number);
-  write(stream, dir.num_entries);
-  write(stream, dir.num_entries);
-  write(stream, dir.size);
-  write(stream, dir.offset);
+  std::uint16_t num_entries = static_cast<std::uint16_t>(
+      std::min<std::uint64_t>(dir.num_entries, ZIP64_NUM_ENTRIES_PLACEHOLDER));
+  write(stream, num_entries);
+  write(stream, num_entries);
+  write32(stream, dir.size);
+  write32(stream, dir.offset);
   std::uint16_t file_comment_length = 0;
   write(stream, file_comment_length);
 }
 
+void read_zip64_end_of_central_directory(std::istream &stream,
+                                         std::streamoff end_offset,
+                                         CentralDirectory &dir) {
+  if (end_offset < ZIP64_CD_LOCATOR_SIZE) {
+    return;
+  }
+
+  stream.seekg(end_offset - ZIP64_CD_LOCATOR_SIZE, std::ios::beg);
+  std::array<std::uint8_t, 4> sig = {};
+  stream.read(reinterpret_cast<char *>(sig.data()), sig.size());
+  if (sig != ZIP64_CD_LOCATOR_SIG) {
+    return;
+  }
+
+  read32(stream); // number of the disk with the ZIP64 record
+  std::uint64_t offset = read64(stream);
+  stream.seekg(static_cast<std::streamoff>(offset), std::ios::beg);
+  assert_sig(stream, ZIP64_CD_END_SIG, "zip64_end_of_central_directory");
+  read64(stream); // size of the record
+  read32(stream); // version made by, version needed
+  read32(stream); // number of this disk
+  read32(stream); // number of the disk with the start of the central directory
+  dir.num_entries = read64(stream);
+  read64(stream); // num_entries_on_disk
+  dir.size = read64(stream);
+  dir.offset = read64(stream);
+}
+
 CentralDirectory read_end_of_central_directory(std::istream &stream) {
+  std::streamoff end_offset = stream.tellg();
   assert_sig(stream, CD_END_SIG, "end_of_central_directory");
 
   CentralDirectory result;
@@ -345,6 +414,11 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
   read16(stream); // num_entries_on_disk
   result.size = read32(stream);
   result.offset = read32(stream);
+  if (result.num_entries == ZIP64_NUM_ENTRIES_PLACEHOLDER ||
+      result.size == ZIP64_PLACEHOLDER || result.offset == ZIP64_PLACEHOLDER) {
+    read_zip64_end_of_central_directory(stream, end_offset, result);
+  }
+
   return result;
 }
 
@@ -382,9 +456,9 @@ void read_entries(std::istream &input,
   seek_end_of_central_directory(input);
   CentralDirectory dir = read_end_of_central_directory(input);
 
-  input.seekg(dir.offset, std::ios::beg);
+  input.seekg(static_cast<std::streamoff>(dir.offset), std::ios::beg);
 
-  for (size_t i = 0; i < dir.num_entries; ++i) {
+  for (std::uint64_t i = 0; i < dir.num_entries; ++i) {
     file_entry entry = read_central_directory_header(input);
     entries[entry.filename] = entry;
     keys.push_back(entry.filename);
@@ -395,21 +469,21 @@ void read_entries(std::istream &input,
 
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint32_t>(output.tellp());
+  dir.offset = static_cast<std::uint64_t>(output.tellp());
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint32_t>(output.tellp()) - dir.offset;
-  dir.num_entries = static_cast<std::uint16_t>(entries.size());
+  dir.size = static_cast<std::uint64_t>(output.tellp()) - dir.offset;
+  dir.num_entries = entries.size();
   write_end_of_central_directory(output, dir);
 }
 
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
-  std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
-  std::uint32_t compressed_size = 0;
+  std::uint64_t uncompressed_size = bytes.size();
+  std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
   std::uint32_t checksum = npy_crc32(bytes);
   if (compression_method == compression_method_t::STORED) {
@@ -417,7 +491,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     compressed_size = uncompressed_size;
   } else if (compression_method == compression_method_t::DEFLATED) {
     compressed_bytes = npy_deflate(std::move(bytes));
-    compressed_size = static_cast<std::uint32_t>(compressed_bytes.size());
+    compressed_size = compressed_bytes.size();
   } else {
     throw std::invalid_argument("Unsupported compression method");
   }
@@ -427,10 +501,9 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(output.tellp())};
+                      static_cast<std::uint64_t>(output.tellp())};
 
-  bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
-  write_local_header(output, entry, zip64);
+  write_local_header(output, entry, has_zip64_sizes(entry));
   output.write(compressed_bytes.data(), compressed_size);
   entries.push_back(std::move(entry));
 }
@@ -453,7 +526,7 @@ std::string read_file(std::istream &input,
 
   const file_entry &entry = entries.at(filename);
   input.clear(); // an earlier read may have failed
-  input.seekg(entry.offset, std::ios::beg);
+  input.seekg(static_cast<std::streamoff>(entry.offset), std::ios::beg);
 
   file_entry local = read_local_header(input, entry);
   if (!entry.check(local)) {
diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..6b9bc70 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -21,8 +21,7 @@ namespace npy {
 std::uint32_t npy_crc32(const std::string &bytes) {
   uLong crc = ::crc32(0L, Z_NULL, 0);
   const Bytef *buf = reinterpret_cast<const Bytef *>(bytes.data());
-  uInt len = static_cast<uInt>(bytes.size());
-  return ::crc32(crc, buf, len);
+  return ::crc32(crc, buf, bytes.size());
 }
 
 std::string npy_deflate(std::string &&bytes) {
-- 
2.43.0


From 112e35a82c43b535b9daa435d057e892601f8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 19/34] fix: inflate the output still pending when the input
 runs out

---
 src/zip.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 6b9bc70..95a9637 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -123,7 +123,8 @@ std::string npy_inflate(std::string &&bytes) {
 
     strm.next_in = in.data();
 
-    /* run inflate() on input until output buffer not full */
+    /* run inflate() on input until there is no more output: it may return
+       before the output buffer is full while more is still pending */
     do {
       strm.avail_out = CHUNK;
       strm.next_out = out.data();
@@ -144,7 +145,7 @@ std::string npy_inflate(std::string &&bytes) {
         (void)inflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
-    } while (strm.avail_out == 0);
+    } while (ret != Z_STREAM_END && have > 0);
 
     /* done when inflate() says it's done */
   } while (ret != Z_STREAM_END);
-- 
2.43.0


From c2e30a89c84a8a250ee39828aeaf0f4d73a86471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 20/34] fix: do not leak the codec state when an allocation
 fails

---
 src/zip.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 95a9637..1965486 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -30,6 +30,9 @@ std::string npy_deflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
 
   /* allocate deflate state */
   strm.zalloc = Z_NULL;
@@ -41,10 +44,6 @@ std::string npy_deflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize deflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* compress until end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
@@ -93,6 +92,10 @@ std::string npy_inflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
+
   /* allocate inflate state */
   strm.zalloc = Z_NULL;
   strm.zfree = Z_NULL;
@@ -104,10 +107,6 @@ std::string npy_inflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize inflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* decompress until deflate stream ends or end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
-- 
2.43.0


From 12b3ef7c89840709a64d6b9418c0ed4427bfaf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 21/34] fix: refuse NPZ member names which do not fit the
 format

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index d7a24b5..8117a46 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -482,6 +482,10 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
+  if (filename.size() > 0xFFFF) {
+    throw std::invalid_argument("filename");
+  }
+
   std::uint64_t uncompressed_size = bytes.size();
   std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
-- 
2.43.0


From fddb847c94f3376d6f07d186454467652f05024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 22/34] fix: report failures to write NPY and NPZ files

---
 include/npy/npy.h | 14 ++++++++++++++
 src/npz.cpp       | 23 +++++++++++++++++++----
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4693a17..ca7e345 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -202,6 +202,10 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
   }
 
   buff << "), }";
+  if (!buff) {
+    throw std::runtime_error("Unable to write NPY header");
+  }
+
   std::string dictionary = buff.str();
   // version 2.0 has a four byte header length, for very long dictionaries
   const bool version2 = dictionary.size() + 64 > 0xFFFF;
@@ -292,6 +296,10 @@ void save(const std::string &path, T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (!output) {
+    throw std::runtime_error("Unable to write NPY file");
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
@@ -463,6 +471,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (!output) {
+      throw std::runtime_error("Unable to write NPY data");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
@@ -537,6 +548,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (!output) {
+      throw std::runtime_error("Unable to write NPY data");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
diff --git a/src/npz.cpp b/src/npz.cpp
index 8117a46..446de48 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -477,6 +477,10 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
   dir.size = static_cast<std::uint64_t>(output.tellp()) - dir.offset;
   dir.num_entries = entries.size();
   write_end_of_central_directory(output, dir);
+  output.flush();
+  if (!output) {
+    throw std::runtime_error("Unable to write NPZ file");
+  }
 }
 
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
@@ -509,6 +513,10 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
 
   write_local_header(output, entry, has_zip64_sizes(entry));
   output.write(compressed_bytes.data(), compressed_size);
+  if (!output) {
+    throw std::runtime_error("Unable to write NPZ file");
+  }
+
   entries.push_back(std::move(entry));
 }
 
@@ -585,8 +593,10 @@ npzstringwriter::npzstringwriter(compression_method_t compression,
       m_endianness(endianness) {}
 
 npzstringwriter::~npzstringwriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (const std::exception &) {
+    // call close() to learn of a failure
   }
 }
 
@@ -604,8 +614,8 @@ void npzstringwriter::write_file(const std::string &filename,
 
 void npzstringwriter::close() {
   if (!m_closed) {
-    ::close(m_output, m_entries);
     m_closed = true;
+    ::close(m_output, m_entries);
   }
 }
 
@@ -627,8 +637,10 @@ npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
       m_compression_method(compression), m_endianness(endianness) {}
 
 npzfilewriter::~npzfilewriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (const std::exception &) {
+    // call close() to learn of a failure
   }
 }
 
@@ -646,9 +658,12 @@ void npzfilewriter::write_file(const std::string &filename,
 
 void npzfilewriter::close() {
   if (!m_closed) {
-    ::close(m_output, m_entries);
     m_closed = true;
+    ::close(m_output, m_entries);
     m_output.close();
+    if (!m_output) {
+      throw std::runtime_error("Unable to write NPZ file");
+    }
   }
 }
 
-- 
2.43.0


From 454b537e320a8edf3f9df730f3e61e48254ecf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 23/34] fix: do not use misaligned loads and stores in miniz

tdefl_find_match and tinfl_decompress dereferenced misaligned 16, 32 and
64-bit pointers, which is undefined behaviour.
---
 src/miniz/miniz.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/miniz/miniz.h b/src/miniz/miniz.h
index 00a2bf1..deaeb98 100644
--- a/src/miniz/miniz.h
+++ b/src/miniz/miniz.h
@@ -194,7 +194,7 @@
 #ifndef MINIZ_HEADER_INCLUDED
 #define MINIZ_HEADER_INCLUDED
 
-#define MINIZ_USE_UNALIGNED_LOADS_AND_STORES 1
+#define MINIZ_USE_UNALIGNED_LOADS_AND_STORES 0
 #define MINIZ_LITTLE_ENDIAN 1
 #define MINIZ_HAS_64BIT_REGISTERS 1
 //#define MINIZ_NO_ZLIB_COMPATIBLE_NAMES
@@ -250,8 +250,8 @@
 #endif
 
 #if MINIZ_X86_OR_X64_CPU
-// Set MINIZ_USE_UNALIGNED_LOADS_AND_STORES to 1 on CPU's that permit efficient integer loads and stores from unaligned addresses.
-#define MINIZ_USE_UNALIGNED_LOADS_AND_STORES 1
+// Set MINIZ_USE_UNALIGNED_LOADS_AND_STORES to 1 only on compilers which define integer loads and stores from unaligned addresses: C++ does not.
+#define MINIZ_USE_UNALIGNED_LOADS_AND_STORES 0
 #endif
 
 #if defined(_M_X64) || defined(_WIN64) || defined(__MINGW64__) || defined(_LP64) || defined(__LP64__) || defined(__ia64__) || defined(__x86_64__)
-- 
2.43.0


From e11d899f192bf3df8f7c9b5d9364bcb5e30b99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 24/34] fix: refuse undefined Huffman codes when inflating

A code with fewer than two symbols leaves bit patterns undefined. They
were decoded as literal zeros without consuming input, so a small archive
member could inflate without end. Single codes of a length other than one
are refused as in zlib.
---
 src/miniz/miniz.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 91c1abe..750f21c 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -497,7 +497,8 @@ const char *mz_error(int err)
     code_len = temp >> 9, temp &= 511; \
   else { \
     code_len = TINFL_FAST_LOOKUP_BITS; do { temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; } while (temp < 0); \
-  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
+  } if (!code_len) { TINFL_CR_RETURN_FOREVER((state_index) + 100, TINFL_STATUS_FAILED); } \
+  sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -591,7 +592,8 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         for (i = 0; i < r->m_table_sizes[r->m_type]; ++i) total_syms[pTable->m_code_size[i]]++;
         used_syms = 0, total = 0; next_code[0] = next_code[1] = 0;
         for (i = 1; i <= 15; ++i) { used_syms += total_syms[i]; next_code[i + 1] = (total = ((total + total_syms[i]) << 1)); }
-        if ((65536 != total) && (used_syms > 1))
+        // A code may only be incomplete if it has no symbol, or a single one of length 1.
+        if ((65536 != total) && ((used_syms > 1) || (used_syms != total_syms[1])))
         {
           TINFL_CR_RETURN_FOREVER(35, TINFL_STATUS_FAILED);
         }
@@ -655,6 +657,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(101, TINFL_STATUS_FAILED); }
             counter = sym2; bit_buf >>= code_len; num_bits -= code_len;
             if (counter & 256)
               break;
@@ -668,6 +671,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(102, TINFL_STATUS_FAILED); }
             bit_buf >>= code_len; num_bits -= code_len;
 
             pOut_buf_cur[0] = (mz_uint8)counter;
-- 
2.43.0


From 6feebe88b99eaf1b69b3450c98801975f2af524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 25/34] fix: refuse invalid lengths and distances when
 inflating

A distance reaching before the first byte of the data, or one of the
invalid symbols 30-31, copied uninitialised memory into the result, and
the invalid length symbols 286-287 wrote three bytes unchecked.
---
 src/miniz/miniz.cpp | 10 +++++++---
 src/miniz/miniz.h   |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 750f21c..06740ff 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -243,7 +243,7 @@ mz_ulong mz_compressBound(mz_ulong source_len)
 typedef struct
 {
   tinfl_decompressor m_decomp;
-  mz_uint m_dict_ofs, m_dict_avail, m_first_call, m_has_flushed; int m_window_bits;
+  mz_uint m_dict_ofs, m_dict_avail, m_dict_filled, m_first_call, m_has_flushed; int m_window_bits;
   mz_uint8 m_dict[TINFL_LZ_DICT_SIZE];
   tinfl_status m_last_status;
 } inflate_state;
@@ -271,6 +271,7 @@ int mz_inflateInit2(mz_streamp pStream, int window_bits)
   tinfl_init(&pDecomp->m_decomp);
   pDecomp->m_dict_ofs = 0;
   pDecomp->m_dict_avail = 0;
+  pDecomp->m_dict_filled = 0;
   pDecomp->m_last_status = TINFL_STATUS_NEEDS_MORE_INPUT;
   pDecomp->m_first_call = 1;
   pDecomp->m_has_flushed = 0;
@@ -342,8 +343,10 @@ int mz_inflate(mz_streamp pStream, int flush)
     in_bytes = pStream->avail_in;
     out_bytes = TINFL_LZ_DICT_SIZE - pState->m_dict_ofs;
 
-    status = tinfl_decompress(&pState->m_decomp, pStream->next_in, &in_bytes, pState->m_dict, pState->m_dict + pState->m_dict_ofs, &out_bytes, decomp_flags);
+    status = tinfl_decompress(&pState->m_decomp, pStream->next_in, &in_bytes, pState->m_dict, pState->m_dict + pState->m_dict_ofs, &out_bytes,
+      decomp_flags | (pState->m_dict_filled ? 0 : TINFL_FLAG_FIRST_LAP));
     pState->m_last_status = status;
+    if (pState->m_dict_ofs + out_bytes == TINFL_LZ_DICT_SIZE) pState->m_dict_filled = 1;
 
     pStream->next_in += (mz_uint)in_bytes; pStream->avail_in -= (mz_uint)in_bytes;
     pStream->total_in += (mz_uint)in_bytes; pStream->adler = tinfl_get_adler32(&pState->m_decomp);
@@ -695,7 +698,8 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
 
         dist_from_out_buf_start = pOut_buf_cur - pOut_buf_start;
-        if ((dist > dist_from_out_buf_start) && (decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF))
+        // Length symbols 286-287 and distance symbols 30-31 are invalid, and so is a distance reaching before the first byte.
+        if ((!counter) || (!dist) || ((dist > dist_from_out_buf_start) && (decomp_flags & (TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF | TINFL_FLAG_FIRST_LAP))))
         {
           TINFL_CR_RETURN_FOREVER(37, TINFL_STATUS_FAILED);
         }
diff --git a/src/miniz/miniz.h b/src/miniz/miniz.h
index deaeb98..1f938d5 100644
--- a/src/miniz/miniz.h
+++ b/src/miniz/miniz.h
@@ -733,12 +733,14 @@ void *mz_zip_extract_archive_file_to_heap(const char *pZip_filename, const char
 // TINFL_FLAG_HAS_MORE_INPUT: If set, there are more input bytes available beyond the end of the supplied input buffer. If clear, the input buffer contains all remaining input.
 // TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF: If set, the output buffer is large enough to hold the entire decompressed stream. If clear, the output buffer is at least the size of the dictionary (typically 32KB).
 // TINFL_FLAG_COMPUTE_ADLER32: Force adler-32 checksum computation of the decompressed bytes.
+// TINFL_FLAG_FIRST_LAP: If set, the wrapping output buffer has not been filled since the beginning of the stream, so no data precede its first byte.
 enum
 {
   TINFL_FLAG_PARSE_ZLIB_HEADER = 1,
   TINFL_FLAG_HAS_MORE_INPUT = 2,
   TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF = 4,
-  TINFL_FLAG_COMPUTE_ADLER32 = 8
+  TINFL_FLAG_COMPUTE_ADLER32 = 8,
+  TINFL_FLAG_FIRST_LAP = 16
 };
 
 // High level decompression functions:
-- 
2.43.0


From b7e12387f4b6d05b1f11e2447349fd8b72de1156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 26/34] fix: keep the tensor consistent when copy assignment
 runs out of memory

The shape was replaced before the values, so an allocation failure left a
tensor whose indices reached outside of its buffer.
---
 include/npy/npy.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index ca7e345..942548d 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -943,11 +943,8 @@ public:
 
   /// @brief Copy assignment operator.
   tensor<T> &operator=(const tensor<T> &other) {
-    m_shape = other.m_shape;
-    m_ravel_strides = other.m_ravel_strides;
-    m_fortran_order = other.m_fortran_order;
-    m_dtype = other.m_dtype;
-    m_values = other.m_values;
+    tensor<T> copy(other); // may throw, and must then leave this unchanged
+    *this = std::move(copy);
     return *this;
   }
 
-- 
2.43.0


From e7d90f60102e5d45fd8c8ec4c7547a1d4acff885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 27/34] fix: overwrite strings when reading values

Reading Unicode values appended to whatever strings the destination
buffer held, where every other type replaces them.
---
 src/dtype.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index c7e7fcf..51090db 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -560,6 +560,7 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
                    size_t num_elements, const header_info &info) {
   std::wstring *ptr = data_ptr;
   for (size_t i = 0; i < num_elements; ++i, ++ptr) {
+    ptr->clear();
     size_t num_nulls = 0;
     std::int_least32_t value = 0;
     char *bytes = reinterpret_cast<char *>(&value);
-- 
2.43.0


From 867fe66ab89e7cb63e055144d0973493817101be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 28/34] fix: let the template form of save accept a tensor

---
 include/npy/npy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 942548d..d0c7e2b 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -309,9 +309,9 @@ void save(const std::string &path, T &tensor,
 /// @param tensor the tensor
 /// @param endianness the endianness to use in saving the tensor
 template <typename T, template <typename> class TENSOR>
-void save(const std::string &path, T &tensor,
+void save(const std::string &path, const TENSOR<T> &tensor,
           endian_t endianness = npy::endian_t::NATIVE) {
-  save<TENSOR<T>>(path, tensor, endianness);
+  save<const TENSOR<T>>(path, tensor, endianness);
 };
 
 /// @brief Read an NPY header from the provided stream.
-- 
2.43.0


From 3dd00f54b68fc2d923361ac02edafae4885adb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 29/34] fix: refuse headers with text after the dictionary

---
 src/npy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/npy.cpp b/src/npy.cpp
index 564da06..f203bbf 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -132,6 +132,11 @@ header_info::header_info(const std::string &dictionary) {
   }
 
   read(input, '}');
+  skip_whitespace(input);
+  if (input.peek() != std::istream::traits_type::eof()) {
+    throw std::runtime_error("Invalid NPY header");
+  }
+
   if (!has_descr || !has_fortran_order || !has_shape) {
     throw std::runtime_error("Incomplete NPY header");
   }
-- 
2.43.0


From 1f195b1f6a044e48dbaced7a72a3b39c0821005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 30/34] fix: report archives written to a stream without
 positions

---
 src/npz.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 446de48..d32a263 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -467,14 +467,24 @@ void read_entries(std::istream &input,
   std::sort(keys.begin(), keys.end());
 }
 
+std::uint64_t position(std::ostream &output) {
+  std::streamoff offset = output.tellp();
+  if (offset < 0) {
+    // a pipe, for example: the archive records where things are
+    throw std::runtime_error("Unable to write NPZ file");
+  }
+
+  return static_cast<std::uint64_t>(offset);
+}
+
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint64_t>(output.tellp());
+  dir.offset = position(output);
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint64_t>(output.tellp()) - dir.offset;
+  dir.size = position(output) - dir.offset;
   dir.num_entries = entries.size();
   write_end_of_central_directory(output, dir);
   output.flush();
@@ -509,7 +519,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint64_t>(output.tellp())};
+                      position(output)};
 
   write_local_header(output, entry, has_zip64_sizes(entry));
   output.write(compressed_bytes.data(), compressed_size);
-- 
2.43.0


From c7dab899be3ccf1b84024b5bf327c10b2cafc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:23 +0000
Subject: [PATCH 31/34] fix: dtype tables usable before main and after it

Tensors saved by initialisers of static objects got an empty dtype, and
loading them failed, as the tables were not constructed yet; used by
destructors of static objects they had been destroyed.
---
 src/dtype.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 51090db..cbd4300 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -9,15 +9,27 @@
 #define GETC(x) static_cast<char>((x).get())
 
 namespace {
-std::array<std::string, 13> BIG_ENDIAN_DTYPES = {
+// The tables are made at their first use and never destroyed, as tensors may
+// be loaded and saved by the initialisers and destructors of static objects.
+const std::array<std::string, 13> &big_endian_dtypes() {
+  static const auto &dtypes = *new std::array<std::string, 13>{
     "|i1", "|u1", ">i2", ">u2", ">i4",  ">u4", ">i8",
     ">u8", ">f4", ">f8", ">c8", ">c16", "|b1"};
+  return dtypes;
+}
 
-std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
+const std::array<std::string, 13> &little_endian_dtypes() {
+  static const auto &dtypes = *new std::array<std::string, 13>{
     "|i1", "|u1", "<i2", "<u2", "<i4",  "<u4", "<i8",
     "<u8", "<f4", "<f8", "<c8", "<c16", "|b1"};
+  return dtypes;
+}
 
-std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
+typedef std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>>
+    dtype_map_t;
+
+const dtype_map_t &dtype_map() {
+  static const auto &dtypes = *new dtype_map_t{
     {"|u1", {npy::data_type_t::UINT8, npy::endian_t::NATIVE}},
     {"|i1", {npy::data_type_t::INT8, npy::endian_t::NATIVE}},
     {"<u2", {npy::data_type_t::UINT16, npy::endian_t::LITTLE}},
@@ -41,6 +53,8 @@ std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
     {"<c16", {npy::data_type_t::COMPLEX128, npy::endian_t::LITTLE}},
     {">c16", {npy::data_type_t::COMPLEX128, npy::endian_t::BIG}},
     {"|b1", {npy::data_type_t::BOOL, npy::endian_t::NATIVE}}};
+  return dtypes;
+}
 } // namespace
 
 namespace npy {
@@ -54,15 +68,15 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
   }
 
   if (endianness == npy::endian_t::BIG) {
-    return BIG_ENDIAN_DTYPES[static_cast<size_t>(dtype)];
+    return big_endian_dtypes()[static_cast<size_t>(dtype)];
   }
 
-  return LITTLE_ENDIAN_DTYPES[static_cast<size_t>(dtype)];
+  return little_endian_dtypes()[static_cast<size_t>(dtype)];
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  auto entry = DTYPE_MAP.find(dtype);
-  if (entry == DTYPE_MAP.end()) {
+  auto entry = dtype_map().find(dtype);
+  if (entry == dtype_map().end()) {
     throw std::runtime_error("Unsupported dtype: " + dtype);
   }
 
-- 
2.43.0


From adf3a66303c62b832deb79114c7bf554c9fce1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 32/34] fix: read shapes of Python 2's long integers

NumPy under Python 2 wrote dimensions which were long integers with their
suffix, as in (3L, 4L). NumPy reads these files; they were refused here.
---
 src/npy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/npy.cpp b/src/npy.cpp
index f203bbf..bd493a4 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -73,6 +73,11 @@ std::vector<size_t> read_shape(std::istream &input) {
       throw std::runtime_error("Invalid shape in NPY header");
     }
 
+    if (tuple.peek() == 'L') {
+      // a long integer, as written by NumPy under Python 2
+      read(tuple, 'L');
+    }
+
     shape.push_back(size);
     skip_whitespace(tuple);
     if (tuple.peek() != std::istream::traits_type::eof()) {
-- 
2.43.0


From a7a5b28fced6fbbfdfca45bce43ac3baf3a47370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 33/34] fix: the header dictionary need not end with a comma

The comma after the last item of a Python dictionary is optional, and not
every writer of the format puts one there. NumPy reads such files; they
were refused here.
---
 src/npy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index bd493a4..26cf85e 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -132,8 +132,11 @@ header_info::header_info(const std::string &dictionary) {
       throw std::runtime_error("Unsupported key: " + key);
     }
 
-    read(input, ',');
     skip_whitespace(input);
+    if (input.peek() != '}') {
+      read(input, ',');
+      skip_whitespace(input);
+    }
   }
 
   read(input, '}');
-- 
2.43.0


From d4f217ab0b872290292fa2e0565c44ada0405b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:56 +0000
Subject: [PATCH 34/34] fix: read header dictionaries with double quotes

The header is a Python literal, whose strings can be in either kind of
quotes. NumPy reads such files; they were refused here.
---
 src/npy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index 26cf85e..7cafbd8 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -40,9 +40,10 @@ std::string read_to(std::istream &input, char delim) {
 }
 
 std::string read_string(std::istream &input) {
-  read(input, '\'');
-  std::string token = read_to(input, '\'');
-  read(input, '\'');
+  char quote = input.peek() == '"' ? '"' : '\'';
+  read(input, quote);
+  std::string token = read_to(input, quote);
+  read(input, quote);
   return token;
 }
 
-- 
2.43.0

