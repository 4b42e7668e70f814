From 475404accac2fd9844e00502c29b098dd9ef2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:28 +0000
Subject: [PATCH 01/69] fix: check that enough bits are left before reading
 bit-packed data

get_bits() and skip_bits() compared the cursor with the end of the buffer only
on entry, so a field longer than what was left was read past the end of the
buffer, and a field fully contained in the last byte could be refused.
---
 wreport/bufr/input.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..9e34c6d 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -123,7 +123,11 @@ public:
     unsigned offset() const { return s4_cursor; }
 
     /// Return the number of bits left in the message to be decoded
-    unsigned bits_left() const { return static_cast<unsigned>((data_len - s4_cursor) * 8 + pbyte_len); }
+    unsigned bits_left() const
+    {
+        if (s4_cursor > data_len) return 0;
+        return static_cast<unsigned>((data_len - s4_cursor) * 8 + pbyte_len);
+    }
 
     /// Read a byte value at offset \a pos
     inline unsigned read_byte(unsigned pos) const
@@ -166,7 +170,7 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
+        if (n > bits_left())
             parse_error("end of buffer while looking for %u bits of bit-packed data", n);
 
         // TODO: review and benchmark and possibly simplify
@@ -195,7 +199,7 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
+        if (n > bits_left())
             parse_error("end of buffer while looking for %u bits of bit-packed data", n);
 
         for (unsigned i = 0; i < n; i++)
-- 
2.43.0


From 5c20deef3759195e95e04950dcd9eb97451e1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:32 +0000
Subject: [PATCH 02/69] fix: initialise the whole value of a new Var

m_value{} initialises only the first member of the union, leaving half of the
pointer undefined when the first member is a 32 bit integer.
---
 wreport/var.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 46e1060..a6fdd32 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -42,8 +42,9 @@ protected:
      * bits are the binary value, and the rest is set to 0.
      */
     union {
-        int32_t i;
+        // The pointer comes first, so that m_value{} initialises all of it
         char* c;
+        int32_t i;
     } m_value;
 
     /// Attribute list (ordered by Varcode)
-- 
2.43.0


From 70b8c65a67bb4611528a9f3d3d11628d409a1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:32 +0000
Subject: [PATCH 03/69] fix: assign between variables with different types or
 lengths

Copy assignment reused the storage of the old value with the new length, and
move assignment did not change the variable definition.
---
 wreport/var.cc | 43 ++++++++++++++++++++++++-------------------
 wreport/var.h  |  3 +++
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..29e7428 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -150,20 +150,18 @@ Var& Var::operator=(const Var& var)
 {
     if (&var == this) return *this;
 
-    // Copy info
-    m_info = var.m_info;
-
-    // Copy value
-    copy_value(var);
-
-    // Copy attributes
-    setattrs(var);
-    return *this;
+    // var may be one of our attributes: copy it before changing anything
+    return operator=(Var(var));
 }
 
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
+
+    // The new value can have a different type or length: do not reuse the
+    // storage for the old one
+    deallocate();
+    m_info = var.m_info;
     move_value(var);
     delete m_attrs;
     m_attrs = var.m_attrs;
@@ -173,16 +171,7 @@ Var& Var::operator=(Var&& var)
 
 Var::~Var()
 {
-    switch (m_info->type)
-    {
-        case Vartype::Binary:
-        case Vartype::String:
-            delete[] m_value.c;
-            break;
-        case Vartype::Integer:
-        case Vartype::Decimal:
-            break;
-    }
+    deallocate();
     delete m_attrs;
 }
 
@@ -203,6 +192,22 @@ void Var::allocate()
         throw error_alloc("allocating space for Var value");
 }
 
+void Var::deallocate()
+{
+    switch (m_info->type)
+    {
+        case Vartype::Binary:
+        case Vartype::String:
+            delete[] m_value.c;
+            break;
+        case Vartype::Integer:
+        case Vartype::Decimal:
+            break;
+    }
+    m_value.c = nullptr;
+    m_isset = false;
+}
+
 void Var::copy_value(const Var& var)
 {
     m_isset = var.m_isset;
diff --git a/wreport/var.h b/wreport/var.h
index a6fdd32..5f25f3e 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -53,6 +53,9 @@ protected:
     /// Make sure that m_value is allocated. It does nothing if it already is.
     void allocate();
 
+    /// Free the storage allocated for m_value, and leave the variable unset.
+    void deallocate();
+
     /// Copy the value from var. var is assumed to have the same varinfo as us.
     void copy_value(const Var& var);
     /// Move the value from var. var is assumed to have the same varinfo as us. var is left unset.
-- 
2.43.0


From 9cec13cc57f3f988c4af7e8e094db313593b98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:32 +0000
Subject: [PATCH 04/69] fix: do not treat binary values as 0-terminated strings

---
 wreport/var.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 29e7428..af9d4a4 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -397,8 +397,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
@@ -833,13 +834,13 @@ unsigned Var::diff(const Var& var) const
     if (!isset())
     {
         notes::logf("[%d%02d%03d %s] first value is NULL, second value is %s\n",
-                WR_VAR_FXY(code()), m_info->desc, var.enqc());
+                WR_VAR_FXY(code()), m_info->desc, var.format().c_str());
         return 1;
     }
     if (!var.isset())
     {
         notes::logf("[%d%02d%03d %s] first value is %s, second value is NULL\n",
-                WR_VAR_FXY(code()), m_info->desc, enqc());
+                WR_VAR_FXY(code()), m_info->desc, format().c_str());
         return 1;
     }
     if (m_info->type != var.m_info->type)
-- 
2.43.0


From 73240f605c5d5951234a8742c9426c3bf73c61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:29 +0000
Subject: [PATCH 05/69] fix: detect overflows when setting numeric variables
 from strings

---
 wreport/var.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index af9d4a4..42a20c7 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -4,6 +4,8 @@
 #include "vartable.h"
 #include "conv.h"
 #include "config.h"
+#include <algorithm>
+#include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -74,13 +76,19 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
     return length;
 }
 
+// Convert a string for which isnumber is true to an integer.
+// Values that do not fit become the closest integer that does, so that they
+// are still seen as out of range
 // From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
+int32_t str_to_int32(const char *str)
 {
-    unsigned val = 0;
-    while (*str)
+    bool negative = *str == '-';
+    if (negative) ++str;
+    int64_t val = 0;
+    while (*str && val <= INT32_MAX)
         val = val * 10 + (*str++ - '0');
-    return val;
+    if (negative) val = -val;
+    return static_cast<int32_t>(std::min<int64_t>(std::max<int64_t>(val, INT32_MIN), INT32_MAX));
 }
 
 bool isnumber(const char *str)
@@ -555,10 +563,8 @@ void Var::setc(const char* val)
         case Vartype::Integer:
             if (!isnumber(val))
                 unset();
-            else if (*val == '-')
-                assign_i_checked(-str_to_unsigned(val + 1));
             else
-                assign_i_checked(str_to_unsigned(val));
+                assign_i_checked(str_to_int32(val));
             break;
     }
 }
@@ -588,10 +594,8 @@ void Var::sets(const std::string& val)
         case Vartype::Decimal:
             if (!isnumber(val.c_str()))
                 unset();
-            else if (val[0] == '-')
-                assign_i_checked(-str_to_unsigned(val.c_str() + 1));
             else
-                assign_i_checked(str_to_unsigned(val.c_str()));
+                assign_i_checked(str_to_int32(val.c_str()));
             break;
     }
 }
-- 
2.43.0


From 1b7ad95cb8874c5cd6e4887b29780c6da4ebb1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:29 +0000
Subject: [PATCH 06/69] fix: detect overflows and NaNs when setting integer
 variables from doubles

---
 wreport/var.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 42a20c7..7495f62 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -548,7 +548,13 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer:
+            if (val > INT32_MIN - 0.5 && val < INT32_MAX + 0.5)
+                assign_i_checked(static_cast<int>(lround(val)));
+            else
+                // NaN or outside the range of int: this is a domain error
+                assign_d_checked(val);
+            break;
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
-- 
2.43.0


From 030ea036aaa4654742d573163c7a478a3302e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:29 +0000
Subject: [PATCH 07/69] fix: do not read past the end of the source value in
 Var::setval, and move attributes when asked to

---
 wreport/var.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 7495f62..1e95133 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -653,7 +653,7 @@ void Var::seta(const Var& attr)
 
 void Var::seta(Var&& attr)
 {
-    seta(unique_ptr<Var>(new Var(attr)));
+    seta(unique_ptr<Var>(new Var(std::move(attr))));
 }
 
 void Var::seta(unique_ptr<Var>&& attr)
@@ -713,8 +713,9 @@ void Var::setval(const Var& src)
     }
     switch (m_info->type)
     {
-        case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        // The source value can be shorter than our length
+        case Vartype::String:
+        case Vartype::Binary: sets(src.enqs()); break;
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From 9dc6441cf5acfa78023614afd0b7a804b01eb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:50 +0000
Subject: [PATCH 08/69] fix: do not read past the end of the powers of 10 table

Table B has entries with scale -20
---
 wreport/varinfo.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..e4afd5e 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -236,12 +236,20 @@ static const double scales[] = {
 	10000000000000000.0,
 };
 
+// Compute 10^x
+static inline double dexp10(unsigned x)
+{
+    if (x < sizeof(scales) / sizeof(scales[0]))
+        return scales[x];
+    return pow(10.0, x);
+}
+
 double _Varinfo::decode_decimal(int val) const
 {
     if (scale > 0)
-        return val / scales[scale];
+        return val / dexp10(scale);
     else if (scale < 0)
-        return val * scales[-scale];
+        return val * dexp10(-scale);
     else
         return val;
 }
@@ -252,17 +260,17 @@ double _Varinfo::decode_binary(uint32_t ival) const
         error_consistency::throwf("cannot decode %01d%02d%03d from binary, because the information needed is missing from the B table in use",
                 WR_VAR_FXY(code));
     if (scale >= 0)
-        return ((double)ival + bit_ref) / scales[scale];
+        return ((double)ival + bit_ref) / dexp10(scale);
     else
-        return ((double)ival + bit_ref) * scales[-scale];
+        return ((double)ival + bit_ref) * dexp10(-scale);
 }
 
 int _Varinfo::encode_decimal(double fval) const
 {
     if (scale > 0)
-        return (int)rint(fval * scales[scale]);
+        return (int)rint(fval * dexp10(scale));
     else if (scale < 0)
-        return (int)rint(fval / scales[-scale]);
+        return (int)rint(fval / dexp10(-scale));
     else
         return (int)rint(fval);
 }
@@ -270,9 +278,9 @@ int _Varinfo::encode_decimal(double fval) const
 double _Varinfo::round_decimal(double val) const
 {
     if (scale > 0)
-        return round(val * scales[scale]) / scales[scale];
+        return round(val * dexp10(scale)) / dexp10(scale);
     else if (scale < 0)
-        return round(val / scales[-scale]) * scales[-scale];
+        return round(val / dexp10(-scale)) * dexp10(-scale);
     else
         return round(val);
 }
@@ -284,9 +292,9 @@ unsigned _Varinfo::encode_binary(double fval) const
                 WR_VAR_FXY(code));
     double res;
     if (scale > 0)
-        res = rint((fval * scales[scale]) - bit_ref);
+        res = rint((fval * dexp10(scale)) - bit_ref);
     else if (scale < 0)
-        res = rint((fval / scales[-scale] - bit_ref));
+        res = rint((fval / dexp10(-scale) - bit_ref));
     else
         res = rint(fval - bit_ref);
     if (res < 0)
-- 
2.43.0


From 8da742a318be3008826501329d37171372dfc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:12 +0000
Subject: [PATCH 09/69] fix: compute the right range for variables 31 bits long
 or more and for class 31

1 << bit_len overflows for 31 bits or more, and class 31 variables had a maximum
one higher than what fits in their bits.
---
 wreport/varinfo.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index e4afd5e..75e62d4 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -3,6 +3,8 @@
 #include <cstring>
 #include <cmath>
 #include <climits>
+#include <cstdint>
+#include <algorithm>
 #include <cctype>
 #include <iostream>
 #include "config.h"
@@ -191,8 +193,10 @@ void _Varinfo::compute_range()
                 imin =  static_cast<int>(-(intexp10(len) - 1.0));
                 imax = static_cast<int>((intexp10(len) - 2.0));
             } else {
-                int bit_min = bit_ref;
-                int bit_max = (1 << bit_len) + bit_ref;
+                // Use 64 bits, since values 31 bits long or more do not fit in
+                // an int
+                int64_t bit_min = bit_ref;
+                int64_t bit_max = (INT64_C(1) << min(bit_len, 62u)) + bit_ref;
                 // We subtract 2 because 2^bit_len-1 is the
                 // BUFR missing value.
                 // We cannot subtract 2 from the delayed replication
@@ -202,13 +206,15 @@ void _Varinfo::compute_range()
                 // disallow it here we cannot import radars anymore.
                 if (WR_VAR_X(code) != 31)
                     bit_max -= 2;
+                else
+                    bit_max -= 1;
                 // We subtract 2 because 10^len-1 is the
                 // CREX missing value
                 int dec_min = static_cast<int>(-(intexp10(len) - 1.0));
                 int dec_max = static_cast<int>((intexp10(len) - 2.0));
 
-                imin = max(bit_min, dec_min);
-                imax = min(bit_max, dec_max);
+                imin = static_cast<int>(max<int64_t>(bit_min, dec_min));
+                imax = static_cast<int>(min<int64_t>(bit_max, dec_max));
             }
             dmin = decode_decimal(imin);
             dmax = decode_decimal(imax);
-- 
2.43.0


From e978b0b1c6202c27caf05c7b49e9ce8e27547acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:12 +0000
Subject: [PATCH 10/69] fix: refuse to encode a value that does not fit in its
 bits

The excess bits were silently dropped.
---
 wreport/varinfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 75e62d4..0333b3d 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -306,6 +306,9 @@ unsigned _Varinfo::encode_binary(double fval) const
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
+    if (!(res <= (bit_len < 32 ? (UINT32_C(1) << bit_len) - 1 : UINT32_MAX)))
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives %f which does not fit",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
     return (unsigned)res;
 }
 
-- 
2.43.0


From a8f958526c0eaac8e38ad2cc1b479492a95c279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:22 +0000
Subject: [PATCH 11/69] fix: encode missing values longer than 32 bits as all
 ones

Only the last bits of the field were set, so missing strings were decoded as
garbage.
---
 wreport/buffers/bufr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..4b37723 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,6 +69,8 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
         add_bits(0xffffffff, len_bits);
     }
 
-- 
2.43.0


From e8bb2d67fcca245b4d09180c0d6b8079c05676b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:44 +0000
Subject: [PATCH 12/69] fix: detect overflows of 32 bit integers in strings as
 domain errors

---
 wreport/var.cc | 26 +++++++++++++-------------
 wreport/var.h  |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 1e95133..1b36377 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -77,18 +77,16 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
 }
 
 // Convert a string for which isnumber is true to an integer.
-// Values that do not fit become the closest integer that does, so that they
-// are still seen as out of range
+// The result saturates outside of the range of a 32bit integer
 // From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-int32_t str_to_int32(const char *str)
+int64_t str_to_int64(const char *str)
 {
     bool negative = *str == '-';
     if (negative) ++str;
     int64_t val = 0;
-    while (*str && val <= INT32_MAX)
+    while (*str && val <= -static_cast<int64_t>(INT32_MIN))
         val = val * 10 + (*str++ - '0');
-    if (negative) val = -val;
-    return static_cast<int32_t>(std::min<int64_t>(std::max<int64_t>(val, INT32_MIN), INT32_MAX));
+    return negative ? -val : val;
 }
 
 bool isnumber(const char *str)
@@ -415,7 +413,7 @@ std::string Var::enqs() const
     error_consistency::throwf("unknown variable type %d", (int)m_info->type);
 }
 
-void Var::assign_i_checked(int32_t val)
+void Var::assign_i_checked(int64_t val)
 {
     // Guard against overflows
     if (val < m_info->imin || val > m_info->imax)
@@ -431,15 +429,17 @@ void Var::assign_i_checked(int32_t val)
                 val = m_info->imax;
             // flow continues to setting value
         } else if (options::var_hook_domain_errors) {
-            options::var_hook_domain_errors->handle_domain_error_int(*this, val);
+            // Values that do not fit are passed as the closest that does
+            options::var_hook_domain_errors->handle_domain_error_int(*this,
+                    static_cast<int32_t>(std::min<int64_t>(std::max<int64_t>(val, INT32_MIN), INT32_MAX)));
             return;
         } else {
             unset();
-            error_domain::throwf("Value %i is outside the range [%i,%i] for %01d%02d%03d (%s)",
-                    (int)val, m_info->imin, m_info->imax, WR_VAR_FXY(m_info->code), m_info->desc);
+            error_domain::throwf("Value %lld is outside the range [%i,%i] for %01d%02d%03d (%s)",
+                    (long long)val, m_info->imin, m_info->imax, WR_VAR_FXY(m_info->code), m_info->desc);
         }
     }
-    m_value.i = val;
+    m_value.i = static_cast<int32_t>(val);
     m_isset = true;
 }
 
@@ -570,7 +570,7 @@ void Var::setc(const char* val)
             if (!isnumber(val))
                 unset();
             else
-                assign_i_checked(str_to_int32(val));
+                assign_i_checked(str_to_int64(val));
             break;
     }
 }
@@ -601,7 +601,7 @@ void Var::sets(const std::string& val)
             if (!isnumber(val.c_str()))
                 unset();
             else
-                assign_i_checked(str_to_int32(val.c_str()));
+                assign_i_checked(str_to_int64(val.c_str()));
             break;
     }
 }
diff --git a/wreport/var.h b/wreport/var.h
index 5f25f3e..6d45099 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -60,7 +60,7 @@ protected:
     void copy_value(const Var& var);
     /// Move the value from var. var is assumed to have the same varinfo as us. var is left unset.
     void move_value(Var& var);
-    void assign_i_checked(int32_t val);
+    void assign_i_checked(int64_t val);
     void assign_d_checked(double val);
     void assign_b_checked(const uint8_t* val, unsigned size);
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
-- 
2.43.0


From 3e66363d44104aa170040fdf94162baaf237337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:20 +0000
Subject: [PATCH 13/69] fix: do not truncate formatted values longer than 19
 characters

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 1b36377..0466853 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -751,8 +751,8 @@ std::string Var::format(const char* ifundef) const
         case Vartype::Integer:
         case Vartype::Decimal: {
             Varinfo i = info();
-            char buf[30];
-            snprintf(buf, 20, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
+            char buf[512];
+            snprintf(buf, sizeof(buf), "%.*f", i->scale > 0 ? i->scale : 0, enqd());
             return buf;
         }
     }
-- 
2.43.0


From 111e2952a27397bf0096822c6c7504b13409255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:46 +0000
Subject: [PATCH 14/69] fix: compare variables with the same code and different
 definitions

---
 wreport/var.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 0466853..e53a147 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -263,15 +263,22 @@ bool Var::value_equals(const Var& var) const
     if (!m_isset && !var.m_isset) return true;
     if (!m_isset || !var.m_isset) return false;
 
+    // The same code can have different definitions in different tables
+    if (m_info->type != var.m_info->type) return false;
+
     // Compare value
     switch (m_info->type)
     {
         case Vartype::Binary:
+            if (m_info->bit_len != var.m_info->bit_len) return false;
             return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
             return strcmp(m_value.c, var.m_value.c) == 0;
         case Vartype::Integer:
+            return m_value.i == var.m_value.i;
         case Vartype::Decimal:
+            if (m_info->scale != var.m_info->scale)
+                return enqd() == var.enqd();
             return m_value.i == var.m_value.i;
     }
     error_consistency::throwf("unknown variable type %d", (int)m_info->type);
@@ -896,12 +903,10 @@ unsigned Var::diff(const Var& var) const
             }
             break;
         case Vartype::Decimal:
-            if (m_value.i != var.m_value.i)
+            if (!value_equals(var))
             {
                 notes::logf("[%d%02d%03d %s] values differ: first is %f, second is %f\n",
-                        WR_VAR_FXY(code()), m_info->desc,
-                        m_info->decode_decimal(m_value.i),
-                        m_info->decode_decimal(var.m_value.i));
+                        WR_VAR_FXY(code()), m_info->desc, enqd(), var.enqd());
                 return 1;
             }
             break;
-- 
2.43.0


From 68832b94343a11bce080e58f0e78c3b76de881f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:56 +0000
Subject: [PATCH 15/69] fix: compare attributes when diffing unset variables

---
 wreport/var.cc | 7 ++++++-
 wreport/var.h  | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index e53a147..ba01b5b 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -848,7 +848,7 @@ unsigned Var::diff(const Var& var) const
         return 1;
     }
     if (!isset() && !var.isset())
-        return 0;
+        return diff_attrs(var);
     if (!isset())
     {
         notes::logf("[%d%02d%03d %s] first value is NULL, second value is %s\n",
@@ -912,6 +912,11 @@ unsigned Var::diff(const Var& var) const
             break;
     }
 
+    return diff_attrs(var);
+}
+
+unsigned Var::diff_attrs(const Var& var) const
+{
     if ((m_attrs != 0) != (var.m_attrs != 0))
     {
         if (m_attrs)
diff --git a/wreport/var.h b/wreport/var.h
index 6d45099..3ebab3c 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -66,6 +66,9 @@ protected:
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
     void assign_c_checked(const char* val, unsigned size);
 
+    /// Compare the attributes of two variables, logging what differs
+    unsigned diff_attrs(const Var& var) const;
+
 public:
     /// Create a new Var, with undefined value
     Var(Varinfo info);
-- 
2.43.0


From f5962b31fcfb6c525c4ff660403f307be1cdcc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:56 +0000
Subject: [PATCH 16/69] fix: do not lose attributes when copying a variable's
 attributes to itself

---
 wreport/var.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index ba01b5b..08f05a3 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -733,9 +733,10 @@ void Var::setval(const Var& src)
 
 void Var::setattrs(const Var& src)
 {
+    // src can be this variable, or one of its attributes
+    Var* attrs = src.m_attrs ? new Var(*src.m_attrs) : nullptr;
     clear_attrs();
-    if (src.m_attrs)
-        m_attrs = new Var(*src.m_attrs);
+    m_attrs = attrs;
 }
 
 std::string Var::format(const char* ifundef) const
-- 
2.43.0


From 514d398c591cf707294db823a2295ce4fa99823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:56 +0000
Subject: [PATCH 17/69] fix: avoid overflow formatting the smallest integer

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 08f05a3..dcfa5de 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -338,7 +338,7 @@ static inline void int32_to_str(int32_t val, char* buf, unsigned size)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         buf[0] = '-';
         ++dest;
         --size;
@@ -358,7 +358,7 @@ static inline std::string int32_to_stdstr(int32_t val)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         unsigned digits = count_digits(dec);
         res.resize(digits + 1);
         char* dest = res.data();
-- 
2.43.0


From dc059af8e52338deffc3cae459c8f04d5f0b24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:56 +0000
Subject: [PATCH 18/69] fix: a string without digits is not a number

---
 wreport/var.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index dcfa5de..096aa52 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -92,8 +92,10 @@ int64_t str_to_int64(const char *str)
 bool isnumber(const char *str)
 {
     if (*str == '-') ++str;
+    if (!*str)
+        return false;
     while (*str)
-        if (!isdigit(*str++))
+        if (!isdigit(static_cast<unsigned char>(*str++)))
             return false;
     return true;
 }
-- 
2.43.0


From 024a68a4df2374eabd5864ed7760775ddf5b0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:18 +0000
Subject: [PATCH 19/69] fix: decode hexadecimal escapes in C strings

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index beffd21..4df0410 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -389,7 +389,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From 67465760a0cefb27d894eb673a207653c43d003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:18 +0000
Subject: [PATCH 20/69] fix: ignore a partial escape in a one character url

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 4df0410..89aebf0 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -431,7 +431,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From 6ef8abb8999706a12fb2a43863ec5caf8ea97a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:18 +0000
Subject: [PATCH 21/69] fix: do not read past the end of the base64 table

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 89aebf0..62e1816 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -449,7 +449,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From 39d619d82408fb7df9ca99ceea4886eb43f356bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:18 +0000
Subject: [PATCH 22/69] fix: normalise paths that start with ..

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 62e1816..6c2a32c 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From d9c2f10bc57aa9f76ef2b58b45d85ee4c6e1058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:18 +0000
Subject: [PATCH 23/69] fix: invert unit conversions that both scale and shift

---
 wreport/conv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 1a9f309..956e26e 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -216,7 +216,7 @@ struct ConvertRepository
     void add_linear(const char* from, const char* to, double mul, double add)
     {
         repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add));
+        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
     }
 
     void add_function(const char* from, const char* to,
-- 
2.43.0


From 211ddc16233af2f4a8a5d94a5f33471c0cf48b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:18 +0000
Subject: [PATCH 24/69] fix: convert between Pascal and nanobar

---
 wreport/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 956e26e..4b68df7 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -136,8 +136,8 @@ struct ConvertRepository
         add_linear("hPa",         "PA", 100, 0);
         add_linear("PA",          "Bar", 0.00001, 0);
         add_linear("Bar",         "PA", 100000, 0);
-        add_linear("PA",          "NBAR", 0.0001, 0 );
-        add_linear("NBAR",        "PA", 10000, 0);
+        add_linear("PA",          "NBAR", 10000, 0 );
+        add_linear("NBAR",        "PA", 0.0001, 0);
         add_linear("hm",          "M", 100, 0);
         add_linear("M",           "hm", 0.01, 0);
         add_linear("mm",          "M", 0.001, 0);
-- 
2.43.0


From 7cb03bc7d718795da0f81ad52536960d21a86638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:32 +0000
Subject: [PATCH 25/69] fix: reject strings that are not descriptor codes

---
 wreport/varinfo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 0333b3d..0034dfe 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -81,12 +81,12 @@ Varcode varcode_parse(const char* entry)
         case '3':
             res = 3 << 14; break;
         default:
-            res = 0; break;
+            error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
     }
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (!isdigit(static_cast<unsigned char>(entry[i])))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From 53ee58058376c6bd903908deac756d059d1c3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:03 +0000
Subject: [PATCH 26/69] fix: encode the master table number in BUFR edition 4

---
 wreport/bufr_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..c465c54 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -241,7 +241,7 @@ void Encoder::encode_sec1ed4()
     // Length of section
     out.add_bits(22, 24);
     // Master table number
-    out.append_byte(0);
+    out.append_byte(in.master_table_number);
     // Originating/generating centre (Common Code tableC-1)
     out.append_short(in.originating_centre);
     // Originating/generating sub-centre (defined by Originating/generating centre)
-- 
2.43.0


From 56a2d208703bb1ecfc1ab4a4481cd721783486f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:03 +0000
Subject: [PATCH 27/69] fix: refuse to encode BUFR messages that do not fit in
 their length fields

---
 wreport/bufr_encoder.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c465c54..09bef41 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -315,6 +315,10 @@ void Encoder::encode_sec3()
     if (in.subsets.empty())
         throw error_consistency("message to encode has no data subsets");
 
+    if (in.subsets.size() > 0xffff)
+        error_consistency::throwf("message to encode has %zu data subsets, but only %d can be encoded",
+                in.subsets.size(), 0xffff);
+
     if (in.datadesc.empty())
         throw error_consistency("message to encode has no data descriptors");
 
@@ -397,6 +401,11 @@ string BufrBulletin::encode() const
     e.encode_sec4();
     e.encode_sec5();
 
+    // Section lengths are stored in 24 bits, and none is longer than the message
+    if (out.out.size() > 0xffffff)
+        error_consistency::throwf("BUFR message is %zu bytes long, but it cannot be longer than %d bytes",
+                out.out.size(), 0xffffff);
+
     // Write the length of the BUFR message in its header
     {
         uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
-- 
2.43.0


From eddd6a0c1f296cedef3d00b9e5b328edfba46810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:48 +0000
Subject: [PATCH 28/69] fix: refuse to encode a value as the missing value

---
 wreport/buffers/bufr.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index ba7a2f3..4a43836 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -134,6 +134,11 @@ void BufrOutput::append_var(Varinfo info, const Var& var)
         case Vartype::Integer:
         case Vartype::Decimal:
             unsigned ival = info->encode_binary(var.enqd());
+            // All ones is the missing value, except in class 31 (see
+            // _Varinfo::compute_range)
+            if (WR_VAR_X(info->code) != 31 && ival == UINT32_MAX >> (32 - info->bit_len))
+                error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits: it would be the same as the missing value",
+                        WR_VAR_FXY(info->code), var.enqd(), info->bit_len);
             add_bits(ival, info->bit_len);
             break;
     }
-- 
2.43.0


From 7c185e9a5808b2e913b9727171243cb21e738a1f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:28 +0000
Subject: [PATCH 29/69] fix: do not apply width and scale changes to strings,
 code tables and flag tables

---
 wreport/bulletin/interpreter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..19a74e2 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -85,8 +86,13 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // Changes of width, scale and reference value do not apply to character
+    // data, code tables and flag tables
+    bool is_number = (peek->type == Vartype::Integer || peek->type == Vartype::Decimal)
+        && strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (c_scale_change && is_number)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -98,14 +104,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (c_width_change && is_number)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (c_scale_ref_width_increase && is_number)
     {
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-- 
2.43.0


From bd2d362eb3dcea4a2b739bb15e06519e1397744e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:28 +0000
Subject: [PATCH 30/69] fix: refuse operators that give unusable widths and
 reference values

---
 wreport/bulletin/interpreter.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 19a74e2..4469273 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -117,9 +117,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
         };
         TRACE("get_varinfo:applying %d increase of scale, ref, width\n", c_scale_ref_width_increase);
+        if (c_scale_ref_width_increase > 9)
+            error_consistency::throwf("cannot increase scale, reference value and width of %01d%02d%03d by %d", WR_VAR_FXY(code), c_scale_ref_width_increase);
         scale += c_scale_ref_width_increase;
         bit_len += (10 * c_scale_ref_width_increase + 2) / 3;
-        bit_ref *= pow10[c_scale_ref_width_increase];
+        int64_t new_bit_ref = static_cast<int64_t>(bit_ref) * pow10[c_scale_ref_width_increase];
+        if (new_bit_ref < INT32_MIN || new_bit_ref > INT32_MAX)
+            error_consistency::throwf("reference value of %01d%02d%03d does not fit in 32 bits after increasing its scale by %d", WR_VAR_FXY(code), c_scale_ref_width_increase);
+        bit_ref = static_cast<int>(new_bit_ref);
     }
 
     auto refval = c03_refval_overrides.find(code);
@@ -129,6 +134,9 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         bit_ref = refval->second;
     }
 
+    if (bit_len <= 0)
+        error_consistency::throwf("cannot change the width of %01d%02d%03d to %d bits", WR_VAR_FXY(code), bit_len);
+
     TRACE("get_info:requesting alteration scale:%d, bit_len:%d, bit_ref: %d\n", scale, bit_len, bit_ref);
     return tables.btable->query_altered(code, scale, bit_len, bit_ref);
 }
-- 
2.43.0


From dc4f2bfdd25d4a76c46ccbddcfe208de39112b1b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:28 +0000
Subject: [PATCH 31/69] fix: make room for the reference value in altered
 variables

---
 wreport/vartable.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index affb634..18d5c15 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -68,6 +68,22 @@ unsigned digits_per_bits(unsigned bit_count)
     }
 }
 
+// Number of decimal digits needed to represent all the values of a binary
+// field with a reference value
+unsigned digits_per_field(unsigned bit_len, int bit_ref)
+{
+    unsigned res = digits_per_bits(bit_len);
+    int64_t first = bit_ref;
+    int64_t last = first + (INT64_C(1) << bit_len) - 1;
+    int64_t largest = max(llabs(first), llabs(last));
+    int64_t limit = 1;
+    for (unsigned i = 0; i < res; ++i)
+        limit *= 10;
+    for ( ; limit <= largest; limit *= 10)
+        ++res;
+    return res;
+}
+
 struct fd_closer
 {
     FILE* fd;
@@ -130,7 +146,7 @@ struct VartableEntry
         {
             case Vartype::Integer:
             case Vartype::Decimal:
-                varinfo.len = digits_per_bits(varinfo.bit_len);
+                varinfo.len = digits_per_field(varinfo.bit_len, new_bit_ref);
                 break;
             case Vartype::String:
                 varinfo.len = varinfo.bit_len / 8;
-- 
2.43.0


From 8c4df4cbc9c821268f2dd875669df09f1bc15e8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:28 +0000
Subject: [PATCH 32/69] fix: cancel redefined reference values, and refuse the
 ones that are too long

---
 wreport/bufr/decoder.cc         |  6 +++---
 wreport/bufr_encoder.cc         | 13 +++----------
 wreport/bulletin/interpreter.cc |  6 ++++++
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 325af80..4f220b1 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -375,10 +375,10 @@ void UncompressedDecoderTarget::decode_and_add_raw_character_data(Varinfo info)
 int UncompressedDecoderTarget::decode_c03_refval_override(unsigned bits)
 {
     uint32_t res = in.get_bits(bits);
-    uint32_t sign_bit = 1 << (bits - 1);
+    uint32_t sign_bit = UINT32_C(1) << (bits - 1);
 
-    if (res & (1 << (bits - 1)))
-        return -(res & ~sign_bit);
+    if (res & sign_bit)
+        return -static_cast<int>(res & ~sign_bit);
     else
         return res;
 }
diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 09bef41..4d50b1a 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -123,17 +123,10 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
 
         // Encode
-        uint32_t encoded;
-        unsigned nbits;
+        uint32_t encoded = bit_ref < 0 ? -static_cast<uint32_t>(bit_ref) : bit_ref;
+        unsigned nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         if (bit_ref < 0)
-        {
-            encoded = -bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
-            encoded |= 1 << (c03_refval_override_bits - 1);
-        } else {
-            encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
-        }
+            encoded |= UINT32_C(1) << (c03_refval_override_bits - 1);
 
         // Check if it fits (encoded bits plus 1 for the sign)
         if (nbits + 1 > c03_refval_override_bits)
diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 4469273..921a23f 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -219,6 +219,12 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
             {
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
+            } else if (bits == 0) {
+                TRACE("Cancel redefined reference values\n");
+                c03_refval_override_bits = 0;
+                c03_refval_overrides.clear();
+            } else if (bits > 32) {
+                error_unimplemented::throwf("C03 modifier wants %u bits but only at most 32 are supported", bits);
             } else {
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
-- 
2.43.0


From 76009ef0f3b05767dca27576de37fc84fb56c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:28 +0000
Subject: [PATCH 33/69] fix: allow bitmaps with the same contents, and unknown
 descriptors with the same length

---
 wreport/tables.cc | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..c11110b 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,13 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    // The same bitmap can be used with different codes
+    std::string key = varcode_format(code) + bitmap;
+    auto res = bitmap_table.find(key);
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
@@ -112,16 +109,13 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    // Different descriptors can have the same length
+    unsigned key = (static_cast<unsigned>(code) << 16) | bit_len;
+    auto res = unknown_table.find(key);
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
-- 
2.43.0


From d2c8c6beb0fde775f9e16ec94093c35e4bca514e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:28 +0000
Subject: [PATCH 34/69] fix: detect missing binary values with any length

---
 wreport/bufr/input.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..5532de6 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -305,8 +305,8 @@ void Input::decode_binary(Var& dest)
     {
         unsigned count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
-        /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff)
+        /* Check that the string is not all ones, meaning missing value */
+        if (bitval != all_ones(count))
             missing = false;
         buf[len++] = bitval;
         toread -= count;
-- 
2.43.0


From 197de184d025c00298b8517e9f088f5bcfbcc016 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:28 +0000
Subject: [PATCH 35/69] fix: keep the value of associated fields, and refuse
 the ones that do not fit

---
 wreport/bufr_encoder.cc               |  7 ++++++-
 wreport/bulletin/associated_fields.cc | 12 ++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 4d50b1a..0a35853 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -57,7 +57,12 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     {
         const Var* att = associated_field.get_attribute(var);
         if (att && att->isset())
-            ob.add_bits(att->enqi(), associated_field.bit_count);
+        {
+            unsigned value = att->enqi();
+            if (associated_field.bit_count < 32 && value >> associated_field.bit_count)
+                error_consistency::throwf("associated field value %d does not fit in %u bits", att->enqi(), associated_field.bit_count);
+            ob.add_bits(value, associated_field.bit_count);
+        }
         else
             ob.append_missing(associated_field.bit_count);
     }
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index b27427c..15934a8 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -72,10 +72,14 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 21:
             // Add attribute B33041=value
-            if (!skip_missing || !missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), 0));
-            else
-                return std::unique_ptr<Var>();
+            if (missing)
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41))));
+            } else
+                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), (int)value));
         case 63:
             /*
              * Ignore quality information if B31021 is missing.
-- 
2.43.0


From 6621d87b3691445969e9979025de56869f013f20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 36/69] fix: do not iterate past the end of bitmaps that select
 no data

---
 wreport/bulletin/bitmaps.cc | 13 +++++++++++--
 wreport/bulletin/bitmaps.h  |  3 +++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..d7451d7 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -78,13 +78,18 @@ unsigned Bitmaps::next()
     if (!current)
         throw error_consistency("bitmap iteration requested when no bitmap is currently active");
     unsigned res = current->next();
-    if (current->eob())
+    check_current();
+    return res;
+}
+
+void Bitmaps::check_current()
+{
+    if (current && current->eob())
     {
         delete last;
         last = current;
         current = nullptr;
     }
-    return res;
 }
 
 void Bitmaps::define(const Var& bitmap, const Subset& subset)
@@ -95,7 +100,10 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
     delete current;
+    current = nullptr;
     current = new Bitmap(bitmap, subset, anchor_point);
+    // A bitmap that selects no data is exhausted right away
+    check_current();
 }
 
 void Bitmaps::reuse_last()
@@ -107,6 +115,7 @@ void Bitmaps::reuse_last()
     current = last;
     last = nullptr;
     if (current) current->reuse();
+    check_current();
 }
 
 void Bitmaps::discard_last()
diff --git a/wreport/bulletin/bitmaps.h b/wreport/bulletin/bitmaps.h
index f7a9079..0519106 100644
--- a/wreport/bulletin/bitmaps.h
+++ b/wreport/bulletin/bitmaps.h
@@ -75,6 +75,9 @@ struct Bitmaps
     Bitmap* last = nullptr;
 
 
+    /// Retire the current bitmap if it has no more elements
+    void check_current();
+
     Bitmaps() {}
     Bitmaps(const Bitmaps&) = delete;
     ~Bitmaps();
-- 
2.43.0


From 6e7b5d0e6530b811ca557e4e3308a292458f58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 37/69] fix: refuse to decode messages that declare no subsets

---
 wreport/bufr/decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 4f220b1..1588dce 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -187,6 +187,8 @@ void Decoder::decode_header()
 
 void Decoder::decode_data()
 {
+    if (!expected_subsets)
+        in.parse_error(3, 4, "message declares no subsets");
     out.obtain_subset(expected_subsets - 1);
 
     /* Read BUFR section 4 (Data section) */
-- 
2.43.0


From 2ef7d06f26f5ff3db5479cf0c0c55ee204a565fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 38/69] fix: do not decode data past the end of the data
 section

---
 wreport/bufr/input.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 9e34c6d..8f6f2c9 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -125,8 +125,10 @@ public:
     /// Return the number of bits left in the message to be decoded
     unsigned bits_left() const
     {
-        if (s4_cursor > data_len) return 0;
-        return static_cast<unsigned>((data_len - s4_cursor) * 8 + pbyte_len);
+        // Do not read data past the end of the data section
+        size_t end = sec[5] ? sec[5] : data_len;
+        if (s4_cursor > end) return 0;
+        return static_cast<unsigned>((end - s4_cursor) * 8 + pbyte_len);
     }
 
     /// Read a byte value at offset \a pos
-- 
2.43.0


From 53fd1707bd8edafc2ab29d04409d912309ac6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 39/69] fix: initialise BufrBulletin::compression

---
 wreport/bulletin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.h b/wreport/bulletin.h
index 54fd024..28102f3 100644
--- a/wreport/bulletin.h
+++ b/wreport/bulletin.h
@@ -251,7 +251,7 @@ public:
     uint8_t master_table_version_number_local = 0;
 
     /// Whether the message is compressed
-    bool compression;
+    bool compression = false;
 
     /**
      * Raw optional section of the message.
-- 
2.43.0


From 3a88816490f703b022cf345282a20f8aa371cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 40/69] fix: do not read past the end of opcode lists

---
 wreport/opcodes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..7eb11c9 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (i >= size())
             return 0;
         else
             return begin[i];
@@ -97,7 +97,7 @@ struct Opcodes
     /// Return the opcodes from \a skip until the end
     Opcodes sub(unsigned skip) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
         else
             return Opcodes(begin + skip, end);
@@ -106,9 +106,9 @@ struct Opcodes
     /// Return \a len opcodes starting from \a skip
     Opcodes sub(unsigned skip, unsigned len) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
-        else if (begin + skip + len >= end)
+        else if (len >= size() - skip)
             return Opcodes(begin + skip, end);
         else
             return Opcodes(begin + skip, begin + skip + len);
-- 
2.43.0


From dcb59c1dff61e6a0f95af6fe724accfe5e6c005f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 41/69] fix: move the variables when moving a Subset

---
 wreport/subset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..914f837 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -21,7 +21,7 @@ Subset::~Subset() {}
 Subset& Subset::operator=(Subset&& s)
 {
     if (this == &s) return *this;
-    std::vector<Var>::operator=(s);
+    std::vector<Var>::operator=(std::move(s));
     tables = s.tables;
     return *this;
 }
-- 
2.43.0


From 606122b5f2ada636442b539afe0d1811eedad2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 42/69] fix: do not read past the end of the subset when
 computing bitmaps

---
 wreport/subset.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index 914f837..40648ec 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -88,12 +88,16 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
     size_t src, dst;
     size_t count = 0;
 
+    memset(bitmap, '-', size);
+
     // Scan first 'size' variables checking for the presence of 'attr'
     for (src = 0, dst = 0; src < this->size() && dst < size; ++dst, ++src)
     {
         // Skip extra, special vars
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
+        if (src == this->size())
+            break;
 
         // Check if the variable has the attribute we want
         if ((*this)[src].enqa(attr) == NULL)
-- 
2.43.0


From 1b46d26b79ccd99a6caa68a3057e10617e29c626 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 43/69] fix: check the size of difference values in compressed
 messages

---
 wreport/bufr/decoder.cc               |  2 +-
 wreport/bufr/input.cc                 | 55 +++++++++++++++++----------
 wreport/bufr/input.h                  |  6 +++
 wreport/bulletin/associated_fields.cc |  2 +-
 4 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 1588dce..72c7ab6 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -9,7 +9,7 @@ namespace bufr {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return bitlen ? UINT32_MAX >> (32 - bitlen) : 0;
 }
 
 
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5532de6..8619bf0 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -20,7 +20,24 @@ const char* bufr_sec_names[] = {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return bitlen ? UINT32_MAX >> (32 - bitlen) : 0;
+}
+
+// Check if a variable can have a missing value: delayed replication factors
+// can not
+static bool can_be_missing(wreport::Varinfo info)
+{
+    if (WR_VAR_X(info->code) == 31 && WR_VAR_F(info->code) == 0)
+        switch (WR_VAR_Y(info->code))
+        {
+            case 0:
+            case 1:
+            case 2:
+            case 11:
+            case 12:
+                return false;
+        }
+    return true;
 }
 
 }
@@ -328,21 +345,7 @@ void Input::decode_number(Var& dest)
 
     // Check if there are bits which are not 1 (that is, if the value is present)
     // In case of delayed replications, there is no missing value
-    bool missing = false;
-    if (WR_VAR_X(info->code) == 31 && WR_VAR_F(info->code) == 0)
-        switch (WR_VAR_Y(info->code))
-        {
-            case 0:
-            case 1:
-            case 2:
-            case 11:
-            case 12:
-                break;
-            default:
-                missing = (val == all_ones(info->bit_len));
-        }
-    else
-        missing = (val == all_ones(info->bit_len));
+    bool missing = can_be_missing(info) && val == all_ones(info->bit_len);
 
     // TRACE("datasec:decode_b_num:len %d val %d info-len %d info-desc %s\n", info->bit_len, val, info->bit_len, info->desc);
 
@@ -360,19 +363,27 @@ void Input::decode_number(Var& dest)
     }
 }
 
+uint32_t Input::read_diffbits()
+{
+    uint32_t res = get_bits(6);
+    if (res > 32)
+        parse_error("compressed data declares %u difference bits, but at most 32 are supported", res);
+    return res;
+}
+
 bool Input::decode_compressed_base(Varinfo info, uint32_t& base, uint32_t& diffbits)
 {
     // Data field base value
     base = get_bits(info->bit_len);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
-    bool missing = (base == all_ones(info->bit_len));
+    bool missing = can_be_missing(info) && base == all_ones(info->bit_len);
 
     // We just decoded the base value. Now we need to decode all the offsets
 
     // Decode the number of bits (encoded in 6 bits) that these difference
     // values occupy
-    diffbits = get_bits(6);
+    diffbits = read_diffbits();
     if (missing && diffbits != 0)
         error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the base value is missing", diffbits);
 
@@ -390,7 +401,7 @@ void Input::decode_compressed_number(Var& dest, uint32_t base, unsigned diffbits
     uint32_t diff = get_bits(diffbits);
 
     // Check if it's all 1s: in that case it's a missing value
-    if (base == all_ones(info->bit_len) || diff == all_ones(diffbits))
+    if (diffbits && diff == all_ones(diffbits))
     {
         /* Missing value */
         //TRACE("datasec:decode_b_num:decoded[%d] as missing\n", i);
@@ -398,7 +409,9 @@ void Input::decode_compressed_number(Var& dest, uint32_t base, unsigned diffbits
     } else {
         // Compute the value for this subset
         uint32_t newval = base + diff;
-        if (newval == all_ones(info->bit_len))
+        if (newval < base)
+            error_consistency::throwf("compressed value %u+%u of %01d%02d%03d does not fit in 32 bits", base, diff, WR_VAR_FXY(info->code));
+        if (can_be_missing(info) && newval == all_ones(info->bit_len))
             dest.unset();
         else
         {
@@ -469,7 +482,7 @@ void Input::decode_compressed_semantic_number(Var& dest, unsigned)
     //TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, base);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
-    bool missing = (base == all_ones(info->bit_len));
+    bool missing = can_be_missing(info) && base == all_ones(info->bit_len);
 
     //TRACE("datasec:decode_b_num:len %d base %d info-len %d info-desc %s\n", info->bit_len, base, info->bit_len, info->desc);
 
diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 8f6f2c9..29948d9 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -304,6 +304,12 @@ public:
      */
     void decode_number(Var& dest);
 
+    /**
+     * Read the number of bits of the difference values of a number in a
+     * compressed BUFR
+     */
+    uint32_t read_diffbits();
+
     /**
      * Decode the base value for a variable in a compressed BUFR
      */
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index 15934a8..b24ce95 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -11,7 +11,7 @@ namespace bulletin {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return bitlen ? UINT32_MAX >> (32 - bitlen) : 0;
 }
 
 AssociatedField::AssociatedField(const Vartable& btable)
-- 
2.43.0


From 6e5c86aec44b1a6ca11d43e8d584495d7e100ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 44/69] fix: decode missing associated fields, and associated
 fields of strings, in compressed messages

---
 wreport/bufr/decoder.cc |  4 +---
 wreport/bufr/input.cc   | 46 +++++++++++++++++++++++------------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 72c7ab6..7aed32c 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -506,11 +506,9 @@ void CompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Varin
     DispatchToSubsets dest(out, subset_count);
     switch (info->type)
     {
-        case Vartype::String:
-            in.decode_string(info, subset_count, dest);
-            break;
         case Vartype::Binary:
             throw error_unimplemented("decode_b_binary TODO");
+        case Vartype::String:
         case Vartype::Integer:
         case Vartype::Decimal:
             in.decode_compressed_number_af(info, field, subset_count, [&](unsigned subset_no, Var&& var) {
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 8619bf0..b44308c 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -447,30 +447,36 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
     /// Associated field base value
     uint32_t af_base = get_bits(associated_field.bit_count);
     /// Number of bits used to encode the associated field differences
-    uint32_t af_diffbits = get_bits(6);
+    uint32_t af_diffbits = read_diffbits();
+    /// Missing value of the associated field
+    uint32_t af_missing = all_ones(associated_field.bit_count);
 
-    if (af_base == all_ones(associated_field.bit_count))
+    if (af_base == af_missing && af_diffbits != 0)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the base value of the associated field is missing", af_diffbits);
+
+    std::vector<std::unique_ptr<Var>> associated_fields(subsets);
+    for (unsigned i = 0; i < subsets; ++i)
     {
-        // Associated field is missing
-        decode_compressed_number(info, subsets, dest);
-    } else {
-        Var var(info);
+        uint32_t diff = get_bits(af_diffbits);
+        uint32_t value = af_base + diff;
+        if (af_diffbits && diff == all_ones(af_diffbits))
+            value = af_missing;
+        else if (value < af_base || value > af_missing)
+            error_consistency::throwf("compressed associated field value %u+%u does not fit in %u bits", af_base, diff, associated_field.bit_count);
+        TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
+        associated_fields[i] = associated_field.make_attribute(value);
+    }
 
-        std::vector<std::unique_ptr<Var>> associated_fields(subsets);
-        for (unsigned i = 0; i < subsets; ++i)
-        {
-            uint32_t diff = get_bits(af_diffbits);
-            uint32_t value = af_base + diff;
-            TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
-            associated_fields[i] = associated_field.make_attribute(value);
-        }
+    auto add_attribute = [&](unsigned subset, Var&& var) {
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    };
 
-        decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
-            if (associated_fields[subset].get())
-                var.seta(std::move(associated_fields[subset]));
-            dest(subset, std::move(var));
-        });
-    }
+    if (info->type == Vartype::String)
+        decode_string(info, subsets, add_attribute);
+    else
+        decode_compressed_number(info, subsets, add_attribute);
 }
 
 void Input::decode_compressed_semantic_number(Var& dest, unsigned)
-- 
2.43.0


From c520be615930775cbdd8c46c42f9ed4a0f088f6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:31:59 +0000
Subject: [PATCH 45/69] fix: do not copy associated fields to the following
 subsets in compressed messages

---
 wreport/bufr/input.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 29948d9..df7ccb8 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -34,7 +34,7 @@ struct DispatchToSubsets
     }
     void add_var(unsigned subset, Var&& var)
     {
-        out.subsets[subset].store_variable(var);
+        out.subsets[subset].store_variable(std::move(var));
     }
 };
 
-- 
2.43.0


From f943f4c74f9dd5bb7f15eb7377978723e8bc922d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 46/69] fix: do not loop forever on malformed CREX data
 descriptor sections

---
 wreport/crex_decoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..3bdf60a 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -83,6 +83,7 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
     out.has_check_digit = false;
     while (1)
     {
+        in.check_eof("end of data descriptor section");
         if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')
         {
             in.check_available_data(6, "one data descriptor");
@@ -98,12 +99,14 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         }
         else if (*in.cur == '+')
         {
-            in.check_available_data(1, "end of data descriptor section");
+            in.check_available_data(2, "end of data descriptor section");
             if (*(in.cur+1) != '+')
                 in.parse_error("data descriptor section ends with only one '+'");
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+            in.parse_error("unexpected character in data descriptor section");
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
-- 
2.43.0


From 371fe1a5f76664477678cc93cb122b1d544a0441 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 47/69] fix: decode CREX messages with more than one subset

---
 wreport/crex_decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 3bdf60a..1ed51dc 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -202,6 +202,8 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+
+        in.skip_spaces();
     }
     in.skip_spaces();
 
-- 
2.43.0


From 0034077d1ff5aa6920cff5f36b53017ff576b02e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 48/69] fix: decode CREX messages with an optional section

---
 wreport/crex_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 1ed51dc..ab15752 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -214,7 +214,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     {
         for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
-- 
2.43.0


From fb982e6a3196cdf38f43c7bc185b2160c0704dbe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 49/69] fix: decode CREX values and replication counts from
 their own characters only

---
 wreport/crex_decoder.cc | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index ab15752..61235c6 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -132,17 +132,15 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    void read_variable(Varinfo info, unsigned len)
     {
-        uint32_t res = 0xffffffff;
-
         // Create the new Var
         Var var(info);
 
         // Parse value from the data section
         const char* d_start;
         const char* d_end;
-        in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
         if (*d_start != '/')
@@ -152,9 +150,10 @@ struct CrexParser : public bulletin::Interpreter
                 std::string buf(d_start, d_end - d_start);
                 var.setc(buf.c_str());
             } else {
-                int val = static_cast<int>(strtol(d_start, 0, 10));
+                // Do not parse past the end of this value
+                std::string buf(d_start, d_end - d_start);
+                int val = static_cast<int>(strtol(buf.c_str(), 0, 10));
                 var.seti(val);
-                res = val;
             }
         }
 
@@ -163,17 +162,33 @@ struct CrexParser : public bulletin::Interpreter
         IFTRACE{
             TRACE("define_variable: stored variable: "); var.print(stderr); TRACE("\n");
         }
-        return res;
     }
 
     void define_variable(Varinfo info) override
     {
-        read_variable(info);
+        read_variable(info, info->len);
     }
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        switch (info->code)
+        {
+            case WR_VAR(0, 31, 0):
+            case WR_VAR(0, 31, 1):
+            case WR_VAR(0, 31, 2):
+            case WR_VAR(0, 31, 11):
+            case WR_VAR(0, 31, 12):
+                // The repetition count always has 4 digits
+                read_variable(info, 4);
+                break;
+            default:
+                read_variable(info, info->len);
+                break;
+        }
+        const Var& var = output_subset.back();
+        if (!var.isset() || var.enqi() < 0)
+            in.parse_error("delayed replication factor is missing or negative");
+        return var.enqi();
     }
 };
 
-- 
2.43.0


From 010f3ba9f94ef26ec026bcaadb8d2ec45f2ecb50 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 50/69] fix: do not take CREX texts that start with a slash as
 missing, and detect overflows in CREX numbers

---
 wreport/crex_decoder.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 61235c6..cb81f1e 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -143,19 +143,15 @@ struct CrexParser : public bulletin::Interpreter
         in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
-        if (*d_start != '/')
+        std::string buf(d_start, d_end - d_start);
+        if (info->type == Vartype::String)
         {
-            if (info->type == Vartype::String)
-            {
-                std::string buf(d_start, d_end - d_start);
+            // A text can start with a slash
+            if (buf != std::string(len, '/'))
                 var.setc(buf.c_str());
-            } else {
-                // Do not parse past the end of this value
-                std::string buf(d_start, d_end - d_start);
-                int val = static_cast<int>(strtol(buf.c_str(), 0, 10));
-                var.seti(val);
-            }
         }
+        else if (*d_start != '/')
+            var.setc(buf.c_str());
 
         /* Store the variable that we found */
         output_subset.store_variable(var);
-- 
2.43.0


From 99eae59b0d7a5567313425fecd06d3adde58346f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 51/69] fix: encode CREX check digits, and separate missing
 values from the previous ones

---
 wreport/buffers/crex.cc | 2 ++
 wreport/crex_encoder.cc | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..fba7ffe 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -197,6 +197,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..678d5a7 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -77,7 +77,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
         out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
@@ -131,6 +131,7 @@ string CrexBulletin::encode() const
     std::string buf;
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
+    out.has_check_digit = has_check_digit;
 
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
-- 
2.43.0


From 731a6a7133a28106fb831f753f2659eeb3fe5106 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 52/69] fix: encode CREX texts longer than 254 characters

---
 wreport/buffers/crex.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index fba7ffe..d68b11e 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -1,6 +1,7 @@
 #include "crex.h"
 #include "wreport/var.h"
 #include <cstdarg>
+#include <vector>
 #include "config.h"
 
 /*
@@ -179,10 +180,20 @@ void CrexOutput::raw_appendf(const char* fmt, ...)
     char sbuf[256];
     va_list ap;
     va_start(ap, fmt);
-    int len = vsnprintf(sbuf, 255, fmt, ap);
+    int len = vsnprintf(sbuf, 256, fmt, ap);
     va_end(ap);
 
-    buf.append(sbuf, len);
+    if (len < 256)
+    {
+        buf.append(sbuf, len);
+        return;
+    }
+
+    std::vector<char> lbuf(len + 1);
+    va_start(ap, fmt);
+    vsnprintf(lbuf.data(), lbuf.size(), fmt, ap);
+    va_end(ap);
+    buf.append(lbuf.data(), len);
 }
 
 void CrexOutput::encode_check_digit()
-- 
2.43.0


From e63182f8bd98b34482b71fdd09050c3cc0b4c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 53/69] fix: encode all the CREX header values, and refuse the
 ones that do not fit

---
 wreport/crex_encoder.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 678d5a7..f416aa7 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -79,14 +79,19 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
+    // The edition and the table numbers are encoded with 2 digits
+    if (in.master_table_number > 99 || in.edition_number > 99 || in.master_table_version_number > 99)
+        error_consistency::throwf("cannot encode master table %hhu version %hhu, edition %hhu in a CREX message",
+                in.master_table_number, in.master_table_version_number, in.edition_number);
+
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
-- 
2.43.0


From 594a67daa891dc28bd3b0e23fcfb7d19ebc10c78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 54/69] fix: encode CREX replication counts with 4 digits, and
 refuse the missing and longer ones

---
 wreport/crex_encoder.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index f416aa7..8c7d3b8 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -53,12 +53,15 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         }
         switch (info->code)
         {
+            case WR_VAR(0, 31, 0):
             case WR_VAR(0, 31, 1):
             case WR_VAR(0, 31, 2):
             case WR_VAR(0, 31, 11):
             case WR_VAR(0, 31, 12):
             {
                 unsigned count = var.enqi();
+                if (count > 9999)
+                    error_domain::throwf("cannot encode a replication count of %u in a CREX message", count);
 
                 /* Encode the repetition count */
                 ob.raw_append(" ", 1);
@@ -69,10 +72,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             }
             default:
                 ob.append_var(info, var);
-                if (var.isset())
-                    return var.enqi();
-                else
-                    return 0xffffffff;
+                return var.enqi();
         }
     }
 };
-- 
2.43.0


From ccba4a6cdbc97bb1bda1a17447139c22542d8964 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:41:20 +0000
Subject: [PATCH 55/69] fix: refuse to encode as CREX values that would be
 decoded as something else

---
 wreport/buffers/crex.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index d68b11e..25f8cea 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -2,6 +2,7 @@
 #include "wreport/var.h"
 #include <cstdarg>
 #include <vector>
+#include <cstring>
 #include "config.h"
 
 /*
@@ -226,14 +227,33 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
     switch (info->type)
     {
         case Vartype::String:
-            raw_appendf("%-*.*s", len, len, var.enqc());
+        {
+            const char* val = var.enqc();
+            // Texts that look like missing values or like the separator
+            // between values cannot be represented
+            if (!has_check_digit && (!*val || isspace(*val)))
+                throw error_domain("cannot encode a text that is empty or starts with a space in a CREX message");
+            if (strlen(val) >= (size_t)len && strspn(val, "/") >= (size_t)len)
+                error_domain::throwf("cannot encode a text of %d slashes in a CREX message", len);
+            raw_appendf("%-*.*s", len, len, val);
             // TRACE("encode_b string len: %d val %-*.*s\n", len, len, len, var.value());
             break;
+        }
         case Vartype::Binary:
             throw error_unimplemented("cannot encode a binary variable into a CREX message");
         case Vartype::Integer:
         case Vartype::Decimal: {
             int val = var.enqi();
+            if (var.info()->scale != info->scale)
+            {
+                // Convert to the precision that is encoded
+                double dval = var.enqd();
+                if (dval < info->dmin || dval > info->dmax)
+                    error_domain::throwf("value %f does not fit in the %d digits of %01d%02d%03d", dval, len, WR_VAR_FXY(info->code));
+                val = info->encode_decimal(dval);
+            }
+            if (val < info->imin || val > info->imax)
+                error_domain::throwf("value %d does not fit in the %d digits of %01d%02d%03d", val, len, WR_VAR_FXY(info->code));
 
             /* FIXME: here goes handling of active C table modifiers */
 
-- 
2.43.0


From f19098a5f379fc1e50be52bbd1e79d32f578210e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 56/69] fix: find messages whose start or end marker follows
 part of a marker

---
 wreport/bulletin.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..c6c2bcc 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -27,6 +27,10 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
     {
         if (c == sig[got])
             got++;
+        else if (c == sig[0])
+            // The first character is not repeated in any signature, so this
+            // can only be the start of a new one
+            got = 1;
         else
             got = 0;
     }
@@ -643,6 +647,10 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // This can be part of the terminator: keep the last two '+' in
+                // a longer sequence of them
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
-- 
2.43.0


From e7b37773683efd8dd1e1e2d096844743f58a6079 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:22:48 +0000
Subject: [PATCH 57/69] fix: reject B table lines without a variable code, and
 terminate their descriptions and units

---
 wreport/vartable.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index 18d5c15..59a099c 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -329,6 +329,19 @@ struct VartableBase : public Vartable
     }
 };
 
+/// Parse the code at the beginning of a B table line
+static Varcode parse_code(const std::filesystem::path& pathname, int line_no, const char* line)
+{
+    for (unsigned i = 2; i < 7; ++i)
+        if (!isdigit(static_cast<unsigned char>(line[i])))
+            throw error_parse(pathname.c_str(), line_no, "line does not begin with a variable code");
+    unsigned x = (line[2] - '0') * 10 + (line[3] - '0');
+    unsigned y = (line[4] - '0') * 100 + (line[5] - '0') * 10 + (line[6] - '0');
+    if (x > 63 || y > 255)
+        throw error_parse(pathname.c_str(), line_no, "variable code out of range");
+    return WR_VAR(0, x, y);
+}
+
 static void normalise_unit(char* unit)
 {
     if (strncmp(unit, "CODE TABLE", 10) == 0
@@ -361,19 +374,21 @@ struct BufrVartable : public VartableBase
             /* FMT='(1x,A,1x,A64,47x,A24,I3,8x,I3)' */
 
             // Append a new entry;
-            _Varinfo* entry = obtain(line_no, WR_STRING_TO_VAR(line + 2));
+            _Varinfo* entry = obtain(line_no, parse_code(pathname, line_no, line));
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
             // Convert the description from space-padded to zero-padded
             for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
+            entry->desc[63] = 0;
 
             // Read the unit
             memcpy(entry->unit, line+73, 24);
             // Convert the unit from space-padded to zero-padded
             for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
+            entry->unit[23] = 0;
             normalise_unit(entry->unit);
 
             entry->scale = static_cast<int>(getnumber(line+98));
@@ -426,7 +441,9 @@ struct CrexVartable : public VartableBase
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
-            Varcode code = WR_STRING_TO_VAR(line + 2);
+            if (strlen(line) < 7)
+                throw error_parse(pathname.c_str(), line_no, "crex table line too short");
+            Varcode code = parse_code(pathname, line_no, line);
 
             if (strlen(line) < 157)
             {
@@ -449,12 +466,14 @@ struct CrexVartable : public VartableBase
             // Convert the description from space-padded to zero-padded
             for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
+            entry->desc[63] = 0;
 
             // Read the CREX unit
             memcpy(entry->unit, line+119, 24);
             // Convert the unit from space-padded to zero-padded
             for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
+            entry->unit[23] = 0;
             normalise_unit(entry->unit);
 
             entry->scale = static_cast<int>(getnumber(line+143));
-- 
2.43.0


From 1f5c6d11c2ab88874e9975e6462fceeca0790413 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:22:48 +0000
Subject: [PATCH 58/69] fix: find all the entries of D tables that are not
 sorted

---
 wreport/dtable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index ec183ce..b07d0e2 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -5,6 +5,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <algorithm>
 #include <map>
 
 using namespace std;
@@ -123,6 +124,10 @@ struct DTableBase : public DTable
         unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
         if (last_count != nentries_check)
             error_parse::throwf(pathname.c_str(), line_no, "advertised number of expansion items (%u) does not match the number of items found (%u)", nentries_check, last_count);
+
+        // Entries are looked up by binary search, but not all table files are
+        // sorted
+        std::stable_sort(entries.begin(), entries.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
     }
 
     ~DTableBase()
-- 
2.43.0


From d9d359f3aed9344c117a20f3c4305af077740114 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:51:55 +0000
Subject: [PATCH 59/69] fix: select the table without local changes when that
 is the one wanted

---
 wreport/tableinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/tableinfo.cc b/wreport/tableinfo.cc
index bd94ebc..eea49cf 100644
--- a/wreport/tableinfo.cc
+++ b/wreport/tableinfo.cc
@@ -158,7 +158,7 @@ struct Compare
 
     bool compare_mt_local()
     {
-        if (base.master_table_version_number_local != 0)
+        // If no local table is wanted, the candidate without one is the closest
         {
             if (first.master_table_version_number_local < base.master_table_version_number_local)
                 if (second.master_table_version_number_local < base.master_table_version_number_local)
-- 
2.43.0


From be5d1538ff5b16c4d37cdf18db4aa18131a82574 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:51:55 +0000
Subject: [PATCH 60/69] fix: select tables in the same order whatever the order
 of their files

---
 wreport/internals/tabledir.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index 8b17e9f..b0bf718 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -5,6 +5,7 @@
 #include "wreport/notes.h"
 #include "wreport/utils/sys.h"
 #include "config.h"
+#include <algorithm>
 #include <map>
 #include <cstddef>
 #include <cstring>
@@ -120,6 +121,10 @@ void Dir::refresh()
                 break;
         }
     }
+    // Do not depend on the order in which the files are listed
+    std::sort(tables.begin(), tables.end(), [](const Table* a, const Table* b) {
+        return a->btable_id < b->btable_id;
+    });
     mtime = st.st_mtime;
 }
 
-- 
2.43.0


From 7a6640be28a285a9eaaee30e52be8d920c336ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 61/69] fix: report differences in the BUFR table version of
 CREX bulletins

---
 wreport/bulletin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index c6c2bcc..3317e53 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -598,7 +598,7 @@ unsigned CrexBulletin::diff_details(const Bulletin& bulletin) const
                 master_table_version_number_local, msg.master_table_version_number_local);
         ++diffs;
     }
-    if (master_table_version_number != msg.master_table_version_number)
+    if (master_table_version_number_bufr != msg.master_table_version_number_bufr)
     {
         notes::logf("BUFR master table version numbers differ (first is %hhu, second is %hhu)\n",
                 master_table_version_number_bufr, msg.master_table_version_number_bufr);
-- 
2.43.0


From a0964b2a0549c42427b958d2b2b454e5d438741f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:30:20 +0000
Subject: [PATCH 62/69] fix: validate exactly the values that can be encoded

---
 wreport/bulletin/dds-validator.cc | 63 +++++++++++++++----------------
 wreport/bulletin/dds-validator.h  |  3 +-
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..b06cb47 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -1,4 +1,6 @@
 #include "wreport/bulletin/dds-validator.h"
+#include "wreport/buffers/bufr.h"
+#include "wreport/buffers/crex.h"
 #include "wreport/vartable.h"
 
 using namespace std;
@@ -19,29 +21,15 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
                 WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()),
                 WR_VAR_F(info->code), WR_VAR_X(info->code), WR_VAR_Y(info->code));
 
-    if (!var.isset())
-        ;
-    else switch (info->type)
+    // Encode it, to see if it can be encoded
+    std::string buf;
+    if (is_crex)
     {
-        case Vartype::String:
-            break;
-        case Vartype::Binary:
-            break;
-        case Vartype::Integer:
-        case Vartype::Decimal:
-        {
-            unsigned encoded;
-            if (is_crex)
-                encoded = info->encode_decimal(var.enqd());
-            else
-                encoded = info->encode_binary(var.enqd());
-            if (!is_crex)
-            {
-                if (encoded >= (1u<<info->bit_len))
-                    error_consistency::throwf("value %f (%u) does not fit in %u bits", var.enqd(), encoded, info->bit_len);
-            }
-        }
-        break;
+        buffers::CrexOutput out(buf);
+        out.append_var(info, var);
+    } else {
+        buffers::BufrOutput out(buf);
+        out.append_var(info, var);
     }
 }
 
@@ -52,6 +40,24 @@ void DDSValidator::check_attr(Varinfo info, unsigned var_pos)
         check_fits(info, *a);
 }
 
+void DDSValidator::define_bitmap(unsigned bitmap_size)
+{
+    const Var& var = peek_var();
+    if (var.info()->len != bitmap_size)
+        error_consistency::throwf("bitmap given is %u bits long, but we need to encode %u bits",
+                var.info()->len, bitmap_size);
+    UncompressedEncoder::define_bitmap(bitmap_size);
+}
+
+void DDSValidator::encode_associated_field(const Var& var)
+{
+    const Var* att = associated_field.get_attribute(var);
+    if (!att || !att->isset()) return;
+    unsigned value = att->enqi();
+    if (associated_field.bit_count < 32 && value >> associated_field.bit_count)
+        error_consistency::throwf("associated field value %d does not fit in %u bits", att->enqi(), associated_field.bit_count);
+}
+
 void DDSValidator::encode_var(Varinfo info, const Var& var)
 {
     check_fits(info, var);
@@ -103,17 +109,10 @@ void DDSValidator::define_c03_refval_override(Varcode code)
     }
 
     // Encode
-    uint32_t encoded;
-    unsigned nbits;
+    uint32_t encoded = bit_ref < 0 ? -static_cast<uint32_t>(bit_ref) : bit_ref;
+    unsigned nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
     if (bit_ref < 0)
-    {
-        encoded = -bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
-        encoded |= 1 << (c03_refval_override_bits - 1);
-    } else {
-        encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
-    }
+        encoded |= UINT32_C(1) << (c03_refval_override_bits - 1);
 
     // Check if it fits (encoded bits plus 1 for the sign)
     if (nbits + 1 > c03_refval_override_bits)
diff --git a/wreport/bulletin/dds-validator.h b/wreport/bulletin/dds-validator.h
index 27b7c99..c0c1ee0 100644
--- a/wreport/bulletin/dds-validator.h
+++ b/wreport/bulletin/dds-validator.h
@@ -50,7 +50,8 @@ public:
      */
     DDSValidator(const Bulletin& b, unsigned subset_idx);
 
-    //void define_bitmap(unsigned bitmap_size) override;
+    void define_bitmap(unsigned bitmap_size) override;
+    void encode_associated_field(const Var& var) override;
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
-- 
2.43.0


From 3482440ae0f77d8bf64fdd44dff806b10e182685 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 63/69] fix: do not dereference a missing bitmap when printing
 bitmaps that select no data

---
 wreport/bulletin/dds-printer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index dcf51cf..19154f5 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -71,6 +71,7 @@ void DDSPrinter::encode_var(Varinfo info, const Var& var)
 
 void DDSPrinter::define_bitmap(unsigned bitmap_size)
 {
+    const Var& bitmap = peek_var();
     UncompressedEncoder::define_bitmap(bitmap_size);
 #if 0
     if (delayed_code)
@@ -81,8 +82,9 @@ void DDSPrinter::define_bitmap(unsigned bitmap_size)
         var.print(out);
     }
 #endif
-    print_context(bitmaps.current->bitmap.info(), 0);
-    bitmaps.current->bitmap.print(out);
+    // If the bitmap selects no data, there is no bitmaps.current
+    print_context(bitmap.info(), 0);
+    bitmap.print(out);
 }
 
 void DDSPrinter::define_raw_character_data(Varcode code)
-- 
2.43.0


From 8865eb1d5f4d7c0767782ada3c6f64aac9f228b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 64/69] fix: print the structure of bulletins that change
 reference values

---
 wreport/bulletin/dds-printer.cc | 17 +++++++++++++++++
 wreport/bulletin/dds-printer.h  |  1 +
 2 files changed, 18 insertions(+)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index 19154f5..94b4721 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -95,6 +95,23 @@ void DDSPrinter::define_raw_character_data(Varcode code)
     var.print(out);
 }
 
+void DDSPrinter::define_c03_refval_override(Varcode code)
+{
+    print_context(code, current_var);
+
+    // The new reference value is not stored as a variable: it is found in the
+    // variables that follow
+    for (unsigned i = current_var; i < current_subset.size(); ++i)
+    {
+        Varinfo info = current_subset[i].info();
+        if (info->code != code) continue;
+        c03_refval_overrides[code] = info->bit_ref;
+        fprintf(out, "new reference value %d\n", info->bit_ref);
+        return;
+    }
+    fputs("new reference value, not used\n", out);
+}
+
 void DDSPrinter::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
diff --git a/wreport/bulletin/dds-printer.h b/wreport/bulletin/dds-printer.h
index 8c533d4..b1e307e 100644
--- a/wreport/bulletin/dds-printer.h
+++ b/wreport/bulletin/dds-printer.h
@@ -38,6 +38,7 @@ public:
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
+    void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
     void encode_associated_field(const Var& var) override;
 
-- 
2.43.0


From 0e956d714458258e3edd5ae5485bd90623d1f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 65/69] fix: print data descriptors with character data and
 substituted values

---
 wreport/bulletin/interpreter.cc | 8 +++++++-
 wreport/bulletin/interpreter.h  | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 921a23f..e06ac46 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -655,7 +655,9 @@ void Printer::c_modifier(Varcode code, Opcodes& next)
 {
     print_lead(code); putc(' ', out);
     Interpreter::print_c_modifier(out, code, next);
-    Interpreter::c_modifier(code, next);
+    // Substituted values need a bitmap, and there is no data to define one
+    if (code != WR_VAR(2, 23, 255))
+        Interpreter::c_modifier(code, next);
 }
 
 void Printer::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
@@ -693,6 +695,10 @@ void Printer::define_variable_with_associated_field(Varinfo info)
 {
 }
 
+void Printer::define_raw_character_data(Varcode code)
+{
+}
+
 void Printer::define_bitmap(unsigned bitmap_size)
 {
 }
diff --git a/wreport/bulletin/interpreter.h b/wreport/bulletin/interpreter.h
index b98019f..a70300b 100644
--- a/wreport/bulletin/interpreter.h
+++ b/wreport/bulletin/interpreter.h
@@ -258,6 +258,7 @@ public:
     void run_d_expansion(Varcode code) override;
     void define_variable(Varinfo info) override;
     void define_variable_with_associated_field(Varinfo info) override;
+    void define_raw_character_data(Varcode code) override;
     void define_bitmap(unsigned bitmap_size) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
     unsigned define_associated_field_significance(Varinfo info) override;
-- 
2.43.0


From 3c7ac53007467f1d2b37d42ae2a0e623eecf8704 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 66/69] fix: scan the features of bulletins with associated
 fields, character data, reference value changes and substituted values

---
 wreport/bulletin/dds-scanfeatures.cc | 12 +++++++++++-
 wreport/bulletin/dds-scanfeatures.h  |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-scanfeatures.cc b/wreport/bulletin/dds-scanfeatures.cc
index 09f269f..61f703c 100644
--- a/wreport/bulletin/dds-scanfeatures.cc
+++ b/wreport/bulletin/dds-scanfeatures.cc
@@ -22,7 +22,13 @@ void ScanFeatures::c_modifier(Varcode code, Opcodes& next)
             features.insert(varcode_format(code));
             break;
     }
-    Interpreter::c_modifier(code, next);
+    // Substituted values need a bitmap, and there is no data to define one
+    if (code != WR_VAR(2, 23, 255))
+        Interpreter::c_modifier(code, next);
+}
+
+void ScanFeatures::b_variable(Varcode code)
+{
 }
 
 void ScanFeatures::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
@@ -40,6 +46,10 @@ void ScanFeatures::define_variable(Varinfo info)
 {
 }
 
+void ScanFeatures::define_raw_character_data(Varcode code)
+{
+}
+
 void ScanFeatures::define_bitmap(unsigned bitmap_size)
 {
 }
diff --git a/wreport/bulletin/dds-scanfeatures.h b/wreport/bulletin/dds-scanfeatures.h
index 0de3adf..45ac948 100644
--- a/wreport/bulletin/dds-scanfeatures.h
+++ b/wreport/bulletin/dds-scanfeatures.h
@@ -18,9 +18,11 @@ public:
 
     ScanFeatures(const Tables& tables, const Opcodes& opcodes);
 
+    void b_variable(Varcode code) override;
     void c_modifier(Varcode code, Opcodes& next) override;
     void r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops) override;
     void define_variable(Varinfo info) override;
+    void define_raw_character_data(Varcode code) override;
     void define_bitmap(unsigned bitmap_size) override;
     unsigned define_associated_field_significance(Varinfo info) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
-- 
2.43.0


From 36eec54721d0255770562fe1058c0aeca09b3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:57:24 +0000
Subject: [PATCH 67/69] fix: encode the new reference value of the variables
 that follow, not of those before it

---
 wreport/bufr_encoder.cc           | 8 ++++----
 wreport/bulletin/dds-validator.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 0a35853..1d00a49 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -104,13 +104,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
     void define_c03_refval_override(Varcode code) override
     {
-        // Scan the subset looking for a variables with the given code, to see what
-        // is its bit_ref
+        // Scan the rest of the subset looking for a variables with the given
+        // code, to see what is its bit_ref
         bool found = false;
         int bit_ref = 0;
-        for (const auto& var: current_subset)
+        for (unsigned i = current_var; i < current_subset.size(); ++i)
         {
-            Varinfo info = var.info();
+            Varinfo info = current_subset[i].info();
             if (info->code == code)
             {
                 bit_ref = info->bit_ref;
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index b06cb47..0379449 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -86,13 +86,13 @@ void DDSValidator::define_raw_character_data(Varcode code)
 
 void DDSValidator::define_c03_refval_override(Varcode code)
 {
-    // Scan the subset looking for a variables with the given code, to see what
-    // is its bit_ref
+    // Scan the rest of the subset looking for a variables with the given code,
+    // to see what is its bit_ref
     bool found = false;
     int bit_ref = 0;
-    for (const auto& var: current_subset)
+    for (unsigned i = current_var; i < current_subset.size(); ++i)
     {
-        Varinfo info = var.info();
+        Varinfo info = current_subset[i].info();
         if (info->code == code)
         {
             bit_ref = info->bit_ref;
-- 
2.43.0


From 135ddac6a6eb263bd42ae1c6f728fc4d531585ca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:20:10 +0000
Subject: [PATCH 68/69] fix: do not split text made only of separators into one
 empty token when empty tokens are skipped

---
 wreport/utils/string.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 6c2a32c..d2131c3 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -213,7 +213,16 @@ Split::const_iterator::const_iterator(const Split& split_)
     else
     {
         // Ignore leading separators if skip_end is true
-        if (split_.skip_empty) skip_separators();
+        if (split_.skip_empty)
+        {
+            skip_separators();
+            // There is nothing but separators
+            if (end == split_.str.size())
+            {
+                this->split = nullptr;
+                return;
+            }
+        }
         ++*this;
     }
 }
-- 
2.43.0


From 68c76b8b83f5fa8f1b32e4c5cee9d609f4583421 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:20:10 +0000
Subject: [PATCH 69/69] fix: refuse to encode CREX messages without subsets or
 descriptors

---
 wreport/crex_encoder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 8c7d3b8..4d5ebcf 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -133,6 +133,12 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 
 string CrexBulletin::encode() const
 {
+    if (subsets.empty())
+        throw error_consistency("message to encode has no data subsets");
+
+    if (datadesc.empty())
+        throw error_consistency("message to encode has no data descriptors");
+
     std::string buf;
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
-- 
2.43.0

