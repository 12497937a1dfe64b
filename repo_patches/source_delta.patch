From 13d0d6183857fd68d9843f4db84994764a64017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 01/87] fix: return SUB for characters without an equivalent
 instead of a neighbour

---
 src/utils/encoding/character_encoding.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/encoding/character_encoding.cc b/src/utils/encoding/character_encoding.cc
index a9afe29..da4a6c8 100644
--- a/src/utils/encoding/character_encoding.cc
+++ b/src/utils/encoding/character_encoding.cc
@@ -185,7 +185,8 @@ unsigned char to_ASCII_from_EBCDIC(unsigned char ebcdic_char)
       std::begin(ebcdic_sorted_array), std::end(ebcdic_sorted_array),
       ebcdic_char, compare_ebcdic);
 
-    if (ebcdic_char_it == std::end(ebcdic_sorted_array)) {
+    if (ebcdic_char_it == std::end(ebcdic_sorted_array)
+        || ebcdic_char_it->ebcdic != ebcdic_char) {
         return char_sub.ascii;
     }
     return ebcdic_char_it->ascii;
@@ -203,7 +204,8 @@ unsigned char to_EBCDIC_from_ASCII(unsigned char ascii_char)
       std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
       compare_ascii);
 
-    if (ascii_char_it == std::end(ascii_sorted_array)) {
+    if (ascii_char_it == std::end(ascii_sorted_array)
+        || ascii_char_it->ascii != ascii_char) {
         return char_sub.ebcdic;
     }
     return ascii_char_it->ebcdic;
-- 
2.43.0


From d3499c1d7eb44076e5dc5fe06c970fde4a75acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 02/87] fix: convert IBM zero to 0 instead of 0.5

---
 src/utils/encoding/number_encoding.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 0eaee29..4a6aa24 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -169,6 +169,10 @@ float to_float(Float_components components)
     int32_t exp   = components.exponent;
     uint32_t frac = components.significand;
 
+    // A zero significand is zero, whatever the exponent.
+    if (frac == 0) {
+        return (sign != 0) ? -0.0f : 0.0f;
+    }
 
     // An IEEE number is of the form
     // SCCC CCCC CQQQ QQQQ QQQQ QQQQ QQQQ QQQQ
-- 
2.43.0


From 3a8ca7efae8d3ae4226e15672b976747f6aac9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 03/87] fix: convert IBM numbers below the denormal range to
 zero

---
 src/utils/encoding/number_encoding.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 4a6aa24..6065ad3 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -106,18 +106,23 @@ Float_components from_IBM(
 /// @returns The result of \c value >> \c shift, with round-half-even applied.
 static uint32_t rshift_with_rounding(uint32_t value, uint32_t shift)
 {
+    // Shifting by more than the width of `value` leaves less than a half,
+    // which rounds to zero (and is not a defined shift in C++).
+    if (shift > 32) {
+        return 0;
+    }
 
     // Get the part of the `value` that will be truncated. This will be the
     // last `shift` bits
 
     // mask is 0000 0000 ... 1111, where the 1s are `shift` bits wide
-    const uint32_t mask = (1UL << shift) - 1;
+    const uint32_t mask = (uint64_t(1) << shift) - 1;
 
     // trunc is the last `shift` bits of `value`
     const uint32_t trunc = value & mask;
 
     // Shift and truncate `value`.
-    uint32_t truncated_value = value >> shift;
+    uint32_t truncated_value = uint64_t(value) >> shift;
 
     // Apply rounding
 
-- 
2.43.0


From 979dafdba70ca53eaa99ebc5eef44d0818f6beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 04/87] fix: decode unnormalized IBM numbers exactly

---
 src/utils/encoding/number_encoding.cc | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 6065ad3..a864918 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -70,21 +70,13 @@ Float_components from_IBM(
     //
     // In the IBM format, the leading 1 of the fraction is moved as far right as
     // possible. However, since it is using a base 16 exponent, up to 3 leading
-    // bits of the fraction can be zero.
+    // bits of the fraction can be zero, and unnormalized numbers can have more.
     // We therefore, need to shift it left by 8 bits, plus those leading zeros.
     //
-    // We use a sneaky trick here: we use the 3 rightmost bits of the IBM
-    // fraction as a lookup for a table listing the offsets. Interpreted as an
-    // integer, these have the values:
-    //  000 -> 0  ---> needs offset of 3
-    //  001 -> 1  ---> needs offset of 2
-    //  010 -> 2  ---> needs offset of 1
-    //  011 -> 3  ---> needs offset of 1
-    // and so on.
-    //
-    const uint32_t offsets[]         = {3, 2, 1, 1, 0, 0, 0, 0};
-    const uint32_t leading_frac_bits = frac >> 21;
-    const int32_t shift              = offsets[leading_frac_bits];
+    int32_t shift = 0;
+    while (((frac << shift) & 0x00800000) == 0) {
+        shift++;
+    }
 
     const uint32_t shifted_frac = frac << (8 + shift);
 
-- 
2.43.0


From a201caf19875c88e05f984c00ae31894598fbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 05/87] fix: keep the carry when a denormal float rounds up to
 a normal one

---
 src/utils/encoding/number_encoding.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index a864918..7586851 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -221,7 +221,9 @@ float to_float(Float_components components)
         // form 0.bbbb... rather than 1.bbbb... for regular numbers.
 
         frac = rshift_with_rounding(frac, -exp + 1);
-        exp  = 0;
+
+        // Rounding up can carry into the smallest normal number.
+        exp = frac >> 23;
     }
 
     // Overflow
-- 
2.43.0


From 17c86379ad78174a63046f4448149714bdcac6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 06/87] fix: read nothing from a trace range which starts past
 the end of the file

---
 src/ReadSEGY.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 4a76b1d..b32e98f 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -216,7 +216,8 @@ void ReadSEGY::readTrace(
   Param* prm,
   const size_t skip) const
 {
-    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
+    // Only the traces which exist can be read.
+    const size_t ntz = (offset < nt ? std::min(sz, nt - offset) : 0LU);
     if (offset >= nt && sz != 0) {
         // Nothing to be read.
         piol->log->record(
-- 
2.43.0


From 63b9a9f261435ac9718f89acbb8e8c46307142a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 07/87] fix: decode the four bytes of each IBM sample, not
 those of a double

---
 src/ReadSEGY.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index b32e98f..aa5edf9 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -185,10 +185,8 @@ void readTraceT(
         // Convert trace values from SEGY floating point format to host format
         if (number_format == SEGYNumberFormat::IBM) {
             for (size_t i = 0; i < ns * sz; i++) {
-                const exseis::utils::Floating_point be_trc_i = trc[i];
-
                 const unsigned char* be_trc_i_bytes =
-                  reinterpret_cast<const unsigned char*>(&be_trc_i);
+                  &tbuf[i * sizeof(exseis::utils::Trace_value)];
 
                 std::array<unsigned char, 4> be_bytes_array = {
                   {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
-- 
2.43.0


From a1ceffd1d1812d5cd22dab72786b13bd40701e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 08/87] fix: accept empty lists and absent parameters in
 readTraceNonMonotonic

---
 src/ReadSEGY.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index aa5edf9..6a4f4fa 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -249,14 +249,15 @@ void ReadSEGY::readTraceNonMonotonic(
     // Sort the initial offset and make a new offset without duplicates
     auto idx = getSortIndex(sz, offset);
     std::vector<size_t> nodups;
-    nodups.push_back(offset[idx[0]]);
-    for (size_t j = 1; j < sz; j++) {
-        if (offset[idx[j - 1]] != offset[idx[j]]) {
+    for (size_t j = 0; j < sz; j++) {
+        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {
             nodups.push_back(offset[idx[j]]);
         }
     }
 
-    Param sprm(prm->r, (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
+    Param sprm(
+      (prm != PIOL_PARAM_NULL ? prm->r : std::make_shared<Rule>(true, false)),
+      (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
     std::vector<exseis::utils::Trace_value> strc(
       ns * (trc != TRACE_NULL ? nodups.size() : 0LU));
 
-- 
2.43.0


From 59341a1cb1ec492b5ebc1ada9eb1515e22f47a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 09/87] fix: an empty trace write does not extend the file

---
 src/WriteSEGY.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 4852eb7..e4da398 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -291,7 +291,9 @@ void WriteSEGY::writeTrace(
 
     writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
     state.stalent = true;
-    nt            = std::max(offset + sz, nt);
+    if (sz != 0) {
+        nt = std::max(offset + sz, nt);
+    }
 }
 
 void WriteSEGY::writeTraceNonContiguous(
-- 
2.43.0


From 4f30ef27c4638cc806261dd11595f80b950648bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 10/87] fix: writeNt always resizes the file, on every process

---
 src/WriteSEGY.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index e4da398..0018398 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -163,10 +163,9 @@ void WriteSEGY::writeNs(const size_t ns_)
 
 void WriteSEGY::writeNt(const size_t nt_)
 {
-    if (nt != nt_) {
-        nt           = nt_;
-        state.resize = true;
-    }
+    // The current nt may differ between processes, so every process must resize.
+    nt            = nt_;
+    state.resize  = true;
     state.stalent = false;
 }
 
-- 
2.43.0


From 508fd1c7029395bfed49749ac59be2761811f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 11/87] fix: report a failure to reset the view after strided
 I/O

---
 src/DataMPIIO.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 1730e95..49b636a 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -410,7 +410,14 @@ void DataMPIIO::readv(
     read(0LU, nb * bsz, d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
     MPI_Type_free(&view);
 }
 
@@ -579,7 +586,14 @@ void DataMPIIO::writev(
     write(0LU, nb * bsz, d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
     MPI_Type_free(&view);
 }
 
-- 
2.43.0


From 7923718f21643292f1022bbe3c9853dccec019db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 12/87] fix: report failures of list-based reads and writes

---
 src/DataMPIIO.cc | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 49b636a..2b13e42 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -154,24 +154,32 @@ int iol(
   MPI_Status* stat)
 {
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype type;
+    MPI_Datatype type = MPI_DATATYPE_NULL;
     int err = randBlockView(file, info, chunk, bsz, offset, &type);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
 
-    fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
-    if (err != MPI_SUCCESS) {
-        return err;
+    // Without the view no data can be moved, but the I/O function and the
+    // resetting of the view are collective so every process takes part.
+    const int fn_err = fn(
+      file, 0, d, (err == MPI_SUCCESS ? chunk * bsz : 0), MPI_CHAR, stat);
+    if (err == MPI_SUCCESS) {
+        err = fn_err;
     }
 
     // Reset the view.
-    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    if (err != MPI_SUCCESS) {
-        return err;
+    const int view_err =
+      MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err == MPI_SUCCESS) {
+        err = view_err;
     }
 
-    return MPI_Type_free(&type);
+    if (type != MPI_DATATYPE_NULL) {
+        const int free_err = MPI_Type_free(&type);
+        if (err == MPI_SUCCESS) {
+            err = free_err;
+        }
+    }
+
+    return err;
 }
 
 /////////////////////////////    Class functions    ////////////////////////////
@@ -514,14 +522,12 @@ void DataMPIIO::listIO(
           fn, file, info, bsz, chunk,
           reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);
 
-        // Log and break on failure
+        // Log the failure, the remaining calls are still collective
         if (err != MPI_SUCCESS) {
             log_->record(
               name_, Logger::Layer::Data, Logger::Status::Error,
               msg + exseis::utils::MPI_error_to_string(err, &stat),
               PIOL_VERBOSITY_NONE);
-
-            break;
         }
     }
 
-- 
2.43.0


From 14db162f5751c2de8bfaa4df75c0d257051d2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 13/87] fix: the samples-per-trace field of a file is a 16-bit
 count, not a signed number

---
 src/ReadSEGY.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 6a4f4fa..24748ba 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -53,7 +53,7 @@ ReadSEGY::ReadSEGY(
 
         // Parse the number of samples, traces, the increment and the format
         // from header_buffer.
-        ns = from_big_endian<int16_t>(
+        ns = from_big_endian<uint16_t>(
           header_buffer[SEGYFileHeaderByte::NumSample + 0],
           header_buffer[SEGYFileHeaderByte::NumSample + 1]);
 
-- 
2.43.0


From 034c73d300e5cb83b827515561489673bedbd2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 14/87] fix: looking up a parameter which is not in a rule does
 not add an empty entry

---
 src/Rule.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Rule.cc b/src/Rule.cc
index ad9ac23..04012d4 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -357,7 +357,8 @@ void Rule::rmRule(Meta m)
 
 RuleEntry* Rule::getEntry(Meta entry)
 {
-    return translate[entry];
+    const auto iter = translate.find(entry);
+    return (iter != translate.end() ? iter->second : nullptr);
 }
 
 size_t Rule::memUsage(void) const
-- 
2.43.0


From 6211f93430ae17ee2fd7cbb1739fc9ed38c53081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 15/87] fix: accessing a parameter which is not in a rule does
 not dereference a null entry

---
 include/ExSeisDat/PIOL/param_utils.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ExSeisDat/PIOL/param_utils.hh b/include/ExSeisDat/PIOL/param_utils.hh
index aa9a4cd..0b87a07 100644
--- a/include/ExSeisDat/PIOL/param_utils.hh
+++ b/include/ExSeisDat/PIOL/param_utils.hh
@@ -30,6 +30,11 @@ T getPrm(size_t i, Meta entry, const Param* prm)
 {
     Rule* r       = prm->r.get();
     RuleEntry* id = r->getEntry(entry);
+
+    if (id == nullptr) {
+        return T(0);
+    }
+
     switch (id->type()) {
         case RuleEntry::MdType::Float:
             return T(prm->f[r->numFloat * i + id->num]);
@@ -64,6 +69,10 @@ void setPrm(size_t i, Meta entry, T ret, Param* prm)
     Rule* r       = prm->r.get();
     RuleEntry* id = r->getEntry(entry);
 
+    if (id == nullptr) {
+        return;
+    }
+
     switch (id->type()) {
         case RuleEntry::MdType::Float:
             prm->f[r->numFloat * i + id->num] = ret;
-- 
2.43.0


From 4e2ae3ebd4de653df0e967ba01071b5f50e1d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 16/87] fix: transfer parameters at their header positions for
 rules with a partial extent

All headers passed to insertParam and extractParam are whole trace headers.
---
 src/segy_utils.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index a501e12..d9687c4 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -20,8 +20,7 @@ void insertParam(
         return;
     }
 
-    auto r       = prm->r;
-    size_t start = r->start;
+    auto r = prm->r;
 
     if (r->numCopy != 0) {
         if (stride == 0) {
@@ -40,7 +39,7 @@ void insertParam(
     }
 
     for (size_t i = 0; i < sz; i++) {
-        unsigned char* md = &buf[(r->extent() + stride) * i];
+        unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
 // Compiler defects
 #if defined(__INTEL_COMPILER) || __GNUC__ < 6
@@ -54,7 +53,7 @@ void insertParam(
         for (const auto v : r->translate) {
 
             const auto t     = v.second;
-            const size_t loc = t->loc - start - 1LU;
+            const size_t loc = t->loc - 1LU;
 
             switch (t->type()) {
 
@@ -108,7 +107,7 @@ void insertParam(
             const auto be = to_big_endian(s.second);
 
             std::copy(
-              std::begin(be), std::end(be), &md[size_t(s.first) - start - 1LU]);
+              std::begin(be), std::end(be), &md[size_t(s.first) - 1LU]);
         }
 
         for (size_t j = 0; j < rule.size(); j++) {
@@ -119,7 +118,7 @@ void insertParam(
               prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale)));
 
             std::copy(
-              std::begin(be), std::end(be), &md[rule[j]->loc - start - 1LU]);
+              std::begin(be), std::end(be), &md[rule[j]->loc - 1LU]);
         }
     }
 }
@@ -151,20 +150,19 @@ void extractParam(
 
     for (size_t i = 0; i < sz; i++) {
 
-        const unsigned char* md = &buf[(r->extent() + stride) * i];
+        const unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
         // Loop through each rule and extract data
         for (const auto v : r->translate) {
 
             const auto t = v.second;
-            size_t loc   = t->loc - r->start - 1LU;
+            size_t loc   = t->loc - 1LU;
 
             switch (t->type()) {
                 case RuleEntry::MdType::Float: {
 
                     const size_t scalar_offset =
-                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - r->start
-                      - 1LU;
+                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - 1LU;
 
                     const auto parsed_scalar =
                       parse_scalar(from_big_endian<int16_t>(
-- 
2.43.0


From a658dc3b6dd85d5cb72701453c88caca794eeeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 17/87] fix: extent of rules without header fields and of rules
 with a copy entry

---
 src/Rule.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Rule.cc b/src/Rule.cc
index 04012d4..bff948f 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -243,10 +243,20 @@ size_t Rule::extent(void)
         end   = 0LU;
 
         for (const auto r : translate) {
-            if (r.second->type() != RuleEntry::MdType::Index) {
-                start = std::min(start, r.second->min());
-                end   = std::max(end, r.second->max());
+            if (r.second->type() == RuleEntry::MdType::Copy) {
+                start = 0LU;
+                end   = SEGY_utils::getMDSz();
             }
+            else if (r.second->type() != RuleEntry::MdType::Index) {
+                // Entry locations are numbered from one.
+                start = std::min(start, r.second->min() - 1LU);
+                end   = std::max(end, r.second->max() - 1LU);
+            }
+        }
+
+        // There are no header fields.
+        if (start > end) {
+            start = end;
         }
 
         flag.badextent = false;
@@ -305,8 +315,11 @@ void Rule::addIndex(Meta m)
 void Rule::addCopy(void)
 {
     if (numCopy == 0) {
+        rmRule(PIOL_META_COPY);
         translate[PIOL_META_COPY] = new SEGYCopyRuleEntry();
         numCopy++;
+
+        flag.badextent = (!flag.fullextent);
     }
 }
 
-- 
2.43.0


From 593760ee65f8b1711f7b1f3fbc52f778ff36201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 18/87] fix: choose a scalar which all values sharing it fit,
 instead of overflowing the largest

---
 src/segy_utils.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index d9687c4..78a58b1 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -7,12 +7,24 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/encoding/number_encoding.hh"
 
+#include <cmath>
+#include <limits>
+
 using namespace exseis::utils;
 
 namespace exseis {
 namespace PIOL {
 namespace SEGY_utils {
 
+// Can the value be stored in a 4 byte integer field with the given scalar?
+static bool fits_field(exseis::utils::Floating_point val, int16_t segy_scalar)
+{
+    const auto unscaled = std::round(val / parse_scalar(segy_scalar));
+
+    return unscaled >= std::numeric_limits<int32_t>::min()
+           && unscaled <= std::numeric_limits<int32_t>::max();
+}
+
 void insertParam(
   size_t sz, const Param* prm, unsigned char* buf, size_t stride, size_t skip)
 {
@@ -102,6 +114,18 @@ void insertParam(
             }
         }
 
+        // The values sharing a scalar must all fit their field: drop as much
+        // precision as the largest of them requires.
+        for (const auto e : rule) {
+            auto& s = scal[static_cast<Tr>(e->scalLoc)];
+
+            const auto val = prm->f[(i + skip) * r->numFloat + e->num];
+
+            while (s < 10000 && !fits_field(val, s)) {
+                s = (s < -10 ? s / 10 : (s < 1 ? 1 : s * 10));
+            }
+        }
+
         // Finish off the floats. Floats are inherently annoying in SEG-Y
         for (const auto& s : scal) {
             const auto be = to_big_endian(s.second);
-- 
2.43.0


From c192edfecdf5f088e789441d4b64cd1cd34bbe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 19/87] fix: compare stored offsets as signed values when
 sorting

---
 src/sort.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index c9a3a02..9911721 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -148,7 +148,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_yRcv, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xRcv, prm);
@@ -156,7 +157,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_yRcv, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -208,7 +210,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_ySrc, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xSrc, prm);
@@ -216,7 +219,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_ySrc, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -279,10 +283,12 @@ static bool lessLineOff(const Param* prm, const size_t i, const size_t j)
 
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
             return (
               off1 < off2
               || (off1 == off2
@@ -319,7 +325,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       i, PIOL_META_yRcv, prm);
     auto off1 =
       (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                 param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
     auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
       j, PIOL_META_xSrc, prm);
@@ -331,7 +338,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       j, PIOL_META_yRcv, prm);
     auto off2 =
       (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                 param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
     if (off1 < off2) {
         return true;
-- 
2.43.0


From cbd3da6e2eeef4d899c26ead5cf4b9562585668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 20/87] fix: keep the order of equal traces in the parallel
 sort, so that it terminates and does not depend on the process count

---
 src/sort.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 9911721..fdfdd34 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -884,9 +884,10 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
 
     std::vector<size_t> t1(lnt);
     std::iota(t1.begin(), t1.end(), 0LU);
-    std::sort(t1.begin(), t1.end(), [prm, comp](size_t& a, size_t& b) -> bool {
-        return comp(prm, a, b);
-    });
+    std::stable_sort(
+      t1.begin(), t1.end(), [prm, comp](size_t a, size_t b) -> bool {
+          return comp(prm, a, b);
+      });
 
     Param temp1(prm->r, lnt + edge2);
     Param temp2(temp1.r, temp1.size());
@@ -904,9 +905,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge1);
             std::iota(t1.begin(), t1.end(), edge1);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](size_t a, size_t b) -> bool {
                   return comp(&temp1, a, b);
               });
 
@@ -924,9 +925,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge2);
             std::iota(t1.begin(), t1.end(), 0);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](size_t a, size_t b) -> bool {
                   return comp(&temp1, a, b);
               });
 
-- 
2.43.0


From 7a7d5f0eafc7817c108ab82bf262806200157d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:18 +0000
Subject: [PATCH 21/87] fix: sort across all processes when a process holds few
 or no traces

---
 src/sort.cc | 343 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 210 insertions(+), 133 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index fdfdd34..216022c 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -5,7 +5,9 @@
 ///          iteration the lowest valued metadata entries are moved to adjacent
 ///          processes with a lower rank and a sort is performed. After the sort
 ///          the highest entries are moved again to the process with a higher
-///          rank. If each process has the same traces it started off with, the
+///          rank. An iteration has two phases so that each process which holds
+///          traces exchanges with each of its neighbours in turn. If each
+///          process has the same traces it started off with, the
 ///          sort is complete.
 ////////////////////////////////////////////////////////////////////////////////
 
@@ -17,6 +19,7 @@
 #include "ExSeisDat/utils/typedefs.h"
 
 #include <algorithm>
+#include <array>
 #include <numeric>
 #include <string>
 #include <vector>
@@ -429,22 +432,76 @@ bool checkOrder(
 
 /**************************** Core Implementation *****************************/
 
-/*! Wait on two requests to finish. The largest and smallest rank only wait on
- *  one request.
+/*! The processes with which the current process exchanges traces in one phase
+ *  of the sort. A process is MPI_PROC_NULL if there is no exchange with it.
+ */
+struct Partners {
+    /// The process which holds the traces before those of this process
+    int left = MPI_PROC_NULL;
+    /// The process which holds the traces after those of this process
+    int right = MPI_PROC_NULL;
+};
+
+/*! How the processes of a sort exchange traces. Only the processes which hold
+ *  traces take part. Each phase has disjoint pairs of adjacent processes so any
+ *  region size up to the smallest number of traces is correct.
+ */
+struct Exchange {
+    /// The size of the region which will be shared
+    size_t regionSz = 0;
+    /// The processes for each of the two phases
+    std::array<Partners, 2> phase;
+
+    /*! Constructor. Collective.
+     *  @param[in] piol The PIOL object.
+     *  @param[in] lnt The local number of objects to sort.
+     */
+    Exchange(ExSeisPIOL* piol, size_t lnt)
+    {
+        const std::vector<size_t> lnts =
+          piol->comm->gather(std::vector<size_t>{lnt});
+        const size_t rank = piol->comm->getRank();
+
+        std::vector<size_t> active;
+        size_t pos   = 0;
+        size_t least = 0;
+        for (size_t i = 0; i < lnts.size(); i++) {
+            if (lnts[i] == 0) continue;
+            if (i == rank) pos = active.size();
+            least = active.empty() ? lnts[i] : std::min(least, lnts[i]);
+            active.push_back(i);
+        }
+
+        if (lnt == 0 || active.size() < 2) return;
+
+        regionSz = std::max<size_t>(1, least / 4LU);
+        for (size_t i = 0; i < phase.size(); i++) {
+            if (pos % 2 == i) {
+                if (pos + 1 < active.size()) phase[i].right = active[pos + 1];
+            }
+            else if (pos > 0) {
+                phase[i].left = active[pos - 1];
+            }
+        }
+    }
+};
+
+/*! Wait on two requests to finish.
  *  @param[in] piol The PIOL object.
- *  @param[in] req1 The request that all processes except rank of numRank-1 wait
- *                  on.
- *  @param[in] req2 The request that all processes except rank of 0 wait on..
+ *  @param[in] partners The processes the exchange is with.
+ *  @param[in] req1 The request for the process on the right, if any.
+ *  @param[in] req2 The request for the process on the left, if any.
  */
 void Wait(
   ExSeisPIOL* piol,
+  const Partners& partners,
   std::vector<MPI_Request> req1,
   std::vector<MPI_Request> req2)
 {
     MPI_Status stat;
     int err;
 
-    if (piol->comm->getRank() != piol->comm->getNumRank() - 1) {
+    if (partners.right != MPI_PROC_NULL) {
         for (size_t i = 0; i < req1.size(); i++) {
             err = MPI_Wait(&req1[i], &stat);
 
@@ -458,7 +515,7 @@ void Wait(
         }
     }
 
-    if (piol->comm->getRank() != 0) {
+    if (partners.left != MPI_PROC_NULL) {
         for (size_t i = 0; i < req2.size(); i++) {
             err = MPI_Wait(&req2[i], &stat);
 
@@ -473,27 +530,32 @@ void Wait(
     }
 }
 
-/*! Send objects from the current processes to the process one rank higher if
+/*! Send objects from the current processes to the process on the right if
  *  such a process exists. Objects are taken from the end of a vector.
  *  Receiving processes put the objects at the start of their vector.
  *  @tparam T Type of vector
  *  @param[in] piol The PIOL object.
+ *  @param[in] partners The processes the exchange is with.
  *  @param[in] regionSz The size of data to send/receive.
  *  @param[in,out] dat Vector to be accessed
  */
 template<class T>
-void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
+void sendRight(
+  ExSeisPIOL* piol,
+  const Partners& partners,
+  size_t regionSz,
+  std::vector<T>& dat)
 {
-    size_t rank = piol->comm->getRank();
     size_t cnt  = regionSz * sizeof(T);
 
     std::vector<MPI_Request> rsnd(1);
     std::vector<MPI_Request> rrcv(1);
 
     // TODO: Move to the communication layer?
-    if (rank) {
+    if (partners.left != MPI_PROC_NULL) {
         int err = MPI_Irecv(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          dat.data(), cnt, MPI_CHAR, partners.left, 1, MPI_COMM_WORLD,
+          &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -504,9 +566,9 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
         }
     }
 
-    if (rank != piol->comm->getNumRank() - 1) {
+    if (partners.right != MPI_PROC_NULL) {
         int err = MPI_Isend(
-          &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 1,
+          &dat[dat.size() - regionSz], cnt, MPI_CHAR, partners.right, 1,
           MPI_COMM_WORLD, &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
@@ -518,29 +580,34 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
         }
     }
 
-    Wait(piol, rsnd, rrcv);
+    Wait(piol, partners, rsnd, rrcv);
 }
 
-/*! Send objects from the current processes to the process one rank lower if
+/*! Send objects from the current processes to the process on the left if
  *  such a process exists. Objects are taken from the start of a vector.
  *  Receiving processes put the objects at the end of their vector.
  *  @tparam T Type of vector
  *  @param[in] piol The PIOL object.
+ *  @param[in] partners The processes the exchange is with.
  *  @param[in] regionSz The size of data to send/receive.
  *  @param[in,out] dat Vector to be accessed
  */
 template<class T>
-void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
+void sendLeft(
+  ExSeisPIOL* piol,
+  const Partners& partners,
+  size_t regionSz,
+  std::vector<T>& dat)
 {
-    size_t rank = piol->comm->getRank();
     size_t cnt  = regionSz * sizeof(T);
 
     std::vector<MPI_Request> rsnd(1);
     std::vector<MPI_Request> rrcv(1);
 
-    if (rank) {
+    if (partners.left != MPI_PROC_NULL) {
         int err = MPI_Isend(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          dat.data(), cnt, MPI_CHAR, partners.left, 0, MPI_COMM_WORLD,
+          &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -551,9 +618,9 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
         }
     }
 
-    if (rank != piol->comm->getNumRank() - 1) {
+    if (partners.right != MPI_PROC_NULL) {
         int err = MPI_Irecv(
-          &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 0,
+          &dat[dat.size() - regionSz], cnt, MPI_CHAR, partners.right, 0,
           MPI_COMM_WORLD, &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
@@ -565,13 +632,13 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
         }
     }
 
-    Wait(piol, rrcv, rsnd);
+    Wait(piol, partners, rrcv, rsnd);
 }
 
 /*! Function to sort a given vector by a nearest neighbour approach.
  *  @tparam T Type of vector
  *  @param[in] piol The PIOL object.
- *  @param[in] regionSz The size of the region which will be shared
+ *  @param[in] exchange How the processes exchange objects.
  *  @param[in, out] temp1 Temporary vector which is the dat.size()+regionSz.
  *  @param[in,out] dat The vector to sort
  *  @param[in] comp The function to use for less-than comparisons between
@@ -580,16 +647,14 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 template<class T>
 void sort(
   ExSeisPIOL* piol,
-  size_t regionSz,
+  const Exchange& exchange,
   std::vector<T>& temp1,
   std::vector<T>& dat,
   Compare<T> comp = nullptr)
 {
-    size_t lnt     = dat.size();
-    size_t numRank = piol->comm->getNumRank();
-    size_t rank    = piol->comm->getRank();
-    size_t edge1   = (rank ? regionSz : 0LU);
-    size_t edge2   = (rank != numRank - 1LU ? regionSz : 0LU);
+    const size_t lnt      = dat.size();
+    const size_t numRank  = piol->comm->getNumRank();
+    const size_t regionSz = exchange.regionSz;
 
     if (comp != nullptr) {
         std::sort(
@@ -605,27 +670,34 @@ void sort(
     // Infinite loop if there is more than one process, otherwise no loop
     while (numRank > 1) {
         temp2 = temp1;
-        sendLeft(piol, regionSz, temp1);
-
-        if (comp != nullptr) {
-            std::sort(
-              temp1.begin() + edge1, temp1.end(),
-              [comp](auto& a, auto& b) -> bool { return comp(a, b); });
-        }
-        else {
-            // default pair sorting is first then second
-            std::sort(temp1.begin() + edge1, temp1.end());
-        }
+        for (const Partners& partners : exchange.phase) {
+            const size_t edge1 =
+              (partners.left != MPI_PROC_NULL ? regionSz : 0LU);
+            const size_t end =
+              lnt + (partners.right != MPI_PROC_NULL ? regionSz : 0LU);
+
+            sendLeft(piol, partners, regionSz, temp1);
+
+            if (comp != nullptr) {
+                std::sort(
+                  temp1.begin() + edge1, temp1.begin() + end,
+                  [comp](auto& a, auto& b) -> bool { return comp(a, b); });
+            }
+            else {
+                // default pair sorting is first then second
+                std::sort(temp1.begin() + edge1, temp1.begin() + end);
+            }
 
-        sendRight(piol, regionSz, temp1);
+            sendRight(piol, partners, regionSz, temp1);
 
-        if (comp != nullptr) {
-            std::sort(
-              temp1.begin(), temp1.end() - edge2,
-              [comp](auto& a, auto& b) -> bool { return comp(a, b); });
-        }
-        else {
-            std::sort(temp1.begin(), temp1.end() - edge2);
+            if (comp != nullptr) {
+                std::sort(
+                  temp1.begin(), temp1.begin() + lnt,
+                  [comp](auto& a, auto& b) -> bool { return comp(a, b); });
+            }
+            else {
+                std::sort(temp1.begin(), temp1.begin() + lnt);
+            }
         }
 
         int reduced = 0;
@@ -662,10 +734,8 @@ void sort(
  */
 std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
 {
-    const size_t lnt      = list.size();
-    const size_t regionSz = piol->comm->min(lnt) / 4LU;
-    const size_t edge2 =
-      (piol->comm->getRank() != piol->comm->getNumRank() - 1 ? regionSz : 0LU);
+    const size_t lnt = list.size();
+    const Exchange exchange(piol, lnt);
     const size_t offset = piol->comm->offset(lnt);
 
     std::vector<std::pair<size_t, size_t>> plist(lnt);
@@ -675,7 +745,7 @@ std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
     }
 
     {
-        std::vector<std::pair<size_t, size_t>> temp1(lnt + edge2);
+        std::vector<std::pair<size_t, size_t>> temp1(lnt + exchange.regionSz);
 
 // Work-around for bug in the intel compiler (intel/2016-u3) on Fionn with
 // std::pair less-than operator
@@ -688,9 +758,9 @@ std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
               e1.first < e2.first
               || (e1.first == e2.first && e1.second < e2.second));
         };
-        sort(piol, regionSz, temp1, plist, check);
+        sort(piol, exchange, temp1, plist, check);
 #else
-        sort(piol, regionSz, temp1, plist);
+        sort(piol, exchange, temp1, plist);
 #endif
     }
 
@@ -701,19 +771,20 @@ std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
     return list;
 }
 
-/*! Send objects from the current processes to the process one rank higher if
+/*! Send objects from the current processes to the process on the right if
  *  such a process exists. Objects are taken from the end of a vector.
  *  Receiving processes put the objects at the start of their vector.
  *  @param[in]     piol     The PIOL object.
+ *  @param[in]     partners The processes the exchange is with.
  *  @param[in]     regionSz The size of data to send/receive.
  *  @param[in,out] prm      The parameter structure to send/receive
  */
-void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
+void sendRight(
+  ExSeisPIOL* piol, const Partners& partners, size_t regionSz, Param* prm)
 {
     Param sprm(prm->r, regionSz);
     Param rprm(prm->r, regionSz);
 
-    size_t rank = piol->comm->getRank();
     std::vector<MPI_Request> rsnd(4);
     std::vector<MPI_Request> rrcv(4);
 
@@ -732,28 +803,28 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         };
     };
 
-    if (rank != 0) {
+    if (partners.left != MPI_PROC_NULL) {
         /// @todo Replace this with type deducing implementation
 
         log_on_error(
           MPI_Irecv, "Sort right exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, partners.left, 0, MPI_COMM_WORLD, &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort right exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, partners.left, 0, MPI_COMM_WORLD, &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort right short MPI_Irecv")(
-          rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[2]);
+          rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, partners.left,
+          0, MPI_COMM_WORLD, &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
-          rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[3]);
+          rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR,
+          partners.left, 0, MPI_COMM_WORLD, &rrcv[3]);
     }
 
-    if (rank != piol->comm->getNumRank() - 1) {
+    if (partners.right != MPI_PROC_NULL) {
         for (size_t i = 0; i < regionSz; i++) {
             param_utils::cpyPrm(i + prm->size() - regionSz, prm, i, &sprm);
         }
@@ -763,43 +834,44 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort right exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, partners.right, 0, MPI_COMM_WORLD, &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort right exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, partners.right, 0, MPI_COMM_WORLD, &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort right short MPI_Isend")(
-          sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[2]);
+          sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR,
+          partners.right, 0, MPI_COMM_WORLD, &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
-          sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[3]);
+          sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR,
+          partners.right, 0, MPI_COMM_WORLD, &rsnd[3]);
     }
 
-    Wait(piol, rsnd, rrcv);
+    Wait(piol, partners, rsnd, rrcv);
 
-    if (rank != 0) {
+    if (partners.left != MPI_PROC_NULL) {
         for (size_t i = 0; i < regionSz; i++) {
             param_utils::cpyPrm(i, &rprm, i, prm);
         }
     }
 }
 
-/*! Send objects from the current processes to the process one rank lower if
+/*! Send objects from the current processes to the process on the left if
  *  such a process exists. Objects are taken from the start of a vector.
  *  Receiving processes put the objects at the end of their vector.
  *  @param[in]     piol     The PIOL object.
+ *  @param[in]     partners The processes the exchange is with.
  *  @param[in]     regionSz The size of data to send/receive.
  *  @param[in,out] prm      The parameter structure to send/receive
  */
-void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
+void sendLeft(
+  ExSeisPIOL* piol, const Partners& partners, size_t regionSz, Param* prm)
 {
     Param sprm(prm->r, regionSz);
     Param rprm(prm->r, regionSz);
 
-    size_t rank = piol->comm->getRank();
     std::vector<MPI_Request> rsnd(4);
     std::vector<MPI_Request> rrcv(4);
 
@@ -818,7 +890,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         };
     };
 
-    if (rank != 0) {
+    if (partners.left != MPI_PROC_NULL) {
         for (size_t i = 0; i < regionSz; i++) {
             param_utils::cpyPrm(i, prm, i, &sprm);
         }
@@ -826,43 +898,43 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort left exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, partners.left, 1, MPI_COMM_WORLD, &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort left exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, partners.left, 1, MPI_COMM_WORLD, &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort left short MPI_Isend")(
-          sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[2]);
+          sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, partners.left,
+          1, MPI_COMM_WORLD, &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
-          sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[3]);
+          sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR,
+          partners.left, 1, MPI_COMM_WORLD, &rsnd[3]);
     }
 
-    if (rank != piol->comm->getNumRank() - 1) {
+    if (partners.right != MPI_PROC_NULL) {
         log_on_error(
           MPI_Irecv, "Sort left exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, partners.right, 1, MPI_COMM_WORLD, &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort left exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, partners.right, 1, MPI_COMM_WORLD, &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort left short MPI_Irecv")(
-          rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[2]);
+          rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR,
+          partners.right, 1, MPI_COMM_WORLD, &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
-          rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[3]);
+          rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR,
+          partners.right, 1, MPI_COMM_WORLD, &rrcv[3]);
     }
 
-    Wait(piol, rrcv, rsnd);
+    Wait(piol, partners, rrcv, rsnd);
 
-    if (rank != piol->comm->getNumRank() - 1) {
+    if (partners.right != MPI_PROC_NULL) {
         for (size_t i = 0; i < regionSz; i++) {
             param_utils::cpyPrm(i, &rprm, i + prm->size() - regionSz, prm);
         }
@@ -875,12 +947,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
 /// @param[in] comp The comparison operator to sort the headers by.
 void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
 {
-    size_t lnt      = prm->size();
-    size_t numRank  = piol->comm->getNumRank();
-    size_t rank     = piol->comm->getRank();
-    size_t regionSz = piol->comm->min(lnt) / 4LU;
-    size_t edge1    = (rank != 0 ? regionSz : 0LU);
-    size_t edge2    = (rank != numRank - 1 ? regionSz : 0LU);
+    const size_t lnt     = prm->size();
+    const size_t numRank = piol->comm->getNumRank();
+    const Exchange exchange(piol, lnt);
+    const size_t regionSz = exchange.regionSz;
 
     std::vector<size_t> t1(lnt);
     std::iota(t1.begin(), t1.end(), 0LU);
@@ -889,7 +959,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
           return comp(prm, a, b);
       });
 
-    Param temp1(prm->r, lnt + edge2);
+    Param temp1(prm->r, lnt + regionSz);
     Param temp2(temp1.r, temp1.size());
     Param temp3(prm->r, temp1.size());
 
@@ -900,43 +970,50 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
     // Infinite loop if there is more than one process, otherwise no loop
     while (numRank > 1) {
         temp2 = temp1;
-        sendLeft(piol, regionSz, &temp1);
-
-        {
-            std::vector<size_t> t1(temp1.size() - edge1);
-            std::iota(t1.begin(), t1.end(), edge1);
-            std::stable_sort(
-              t1.begin(), t1.end(),
-              [&temp1, comp](size_t a, size_t b) -> bool {
-                  return comp(&temp1, a, b);
-              });
-
-            for (size_t i = 0; i < t1.size(); i++) {
-                param_utils::cpyPrm(t1[i], &temp1, i, &temp3);
-            }
+        for (const Partners& partners : exchange.phase) {
+            const size_t edge1 =
+              (partners.left != MPI_PROC_NULL ? regionSz : 0LU);
+            const size_t end =
+              lnt + (partners.right != MPI_PROC_NULL ? regionSz : 0LU);
+
+            sendLeft(piol, partners, regionSz, &temp1);
+
+            {
+                std::vector<size_t> t1(end - edge1);
+                std::iota(t1.begin(), t1.end(), edge1);
+                std::stable_sort(
+                  t1.begin(), t1.end(),
+                  [&temp1, comp](size_t a, size_t b) -> bool {
+                      return comp(&temp1, a, b);
+                  });
+
+                for (size_t i = 0; i < t1.size(); i++) {
+                    param_utils::cpyPrm(t1[i], &temp1, i, &temp3);
+                }
 
-            for (size_t i = 0; i < t1.size(); i++) {
-                param_utils::cpyPrm(i, &temp3, i + edge1, &temp1);
+                for (size_t i = 0; i < t1.size(); i++) {
+                    param_utils::cpyPrm(i, &temp3, i + edge1, &temp1);
+                }
             }
-        }
 
-        sendRight(piol, regionSz, &temp1);
+            sendRight(piol, partners, regionSz, &temp1);
 
-        {
-            std::vector<size_t> t1(temp1.size() - edge2);
-            std::iota(t1.begin(), t1.end(), 0);
-            std::stable_sort(
-              t1.begin(), t1.end(),
-              [&temp1, comp](size_t a, size_t b) -> bool {
-                  return comp(&temp1, a, b);
-              });
+            {
+                std::vector<size_t> t1(lnt);
+                std::iota(t1.begin(), t1.end(), 0);
+                std::stable_sort(
+                  t1.begin(), t1.end(),
+                  [&temp1, comp](size_t a, size_t b) -> bool {
+                      return comp(&temp1, a, b);
+                  });
 
-            for (size_t i = 0; i < t1.size(); i++) {
-                param_utils::cpyPrm(t1[i], &temp1, i, &temp3);
-            }
+                for (size_t i = 0; i < t1.size(); i++) {
+                    param_utils::cpyPrm(t1[i], &temp1, i, &temp3);
+                }
 
-            for (size_t i = 0; i < t1.size(); i++) {
-                param_utils::cpyPrm(i, &temp3, i, &temp1);
+                for (size_t i = 0; i < t1.size(); i++) {
+                    param_utils::cpyPrm(i, &temp3, i, &temp1);
+                }
             }
         }
 
-- 
2.43.0


From 0809b7d3fe3dc7b8e20f866a18ced63e61e8d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:35 +0000
Subject: [PATCH 22/87] fix: exchange the raw headers with the other parameters
 when sorting

---
 src/sort.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 216022c..e686403 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -785,8 +785,8 @@ void sendRight(
     Param sprm(prm->r, regionSz);
     Param rprm(prm->r, regionSz);
 
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -822,6 +822,10 @@ void sendRight(
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR,
           partners.left, 0, MPI_COMM_WORLD, &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort right raw header MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, partners.left, 0,
+          MPI_COMM_WORLD, &rrcv[4]);
     }
 
     if (partners.right != MPI_PROC_NULL) {
@@ -847,6 +851,10 @@ void sendRight(
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR,
           partners.right, 0, MPI_COMM_WORLD, &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort right raw header MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, partners.right, 0,
+          MPI_COMM_WORLD, &rsnd[4]);
     }
 
     Wait(piol, partners, rsnd, rrcv);
@@ -872,8 +880,8 @@ void sendLeft(
     Param sprm(prm->r, regionSz);
     Param rprm(prm->r, regionSz);
 
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -911,6 +919,10 @@ void sendLeft(
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR,
           partners.left, 1, MPI_COMM_WORLD, &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort left raw header MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, partners.left, 1,
+          MPI_COMM_WORLD, &rsnd[4]);
     }
 
     if (partners.right != MPI_PROC_NULL) {
@@ -930,6 +942,10 @@ void sendLeft(
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR,
           partners.right, 1, MPI_COMM_WORLD, &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort left raw header MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, partners.right, 1,
+          MPI_COMM_WORLD, &rrcv[4]);
     }
 
     Wait(piol, partners, rrcv, rsnd);
-- 
2.43.0


From 2b16192e979d4f923ca629bb0aa22633fb8db4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 23/87] fix: decide between equal minima and maxima of
 different processes by the second parameter

---
 include/ExSeisDat/PIOL/operations/minmax.h | 23 +++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/ExSeisDat/PIOL/operations/minmax.h b/include/ExSeisDat/PIOL/operations/minmax.h
index 307f492..f77fb53 100644
--- a/include/ExSeisDat/PIOL/operations/minmax.h
+++ b/include/ExSeisDat/PIOL/operations/minmax.h
@@ -96,10 +96,14 @@ std::vector<CoordElem> getCoordMinMax(
     std::vector<exseis::utils::Floating_point> lminmax = {elem1(*p.first),
                                                           elem1(*p.second)};
 
+    std::vector<exseis::utils::Floating_point> lother = {elem2(*p.first),
+                                                         elem2(*p.second)};
+
     std::vector<size_t> ltrace = {offset + std::distance(coord, p.first),
                                   offset + std::distance(coord, p.second)};
 
     auto tminmax = piol->comm->gather(lminmax);
+    auto tother  = piol->comm->gather(lother);
     auto ttrace  = piol->comm->gather(ltrace);
     auto tsz     = piol->comm->gather(std::vector<size_t>{sz});
 
@@ -108,20 +112,29 @@ std::vector<CoordElem> getCoordMinMax(
         if (!tsz[i]) {
             tminmax.erase(tminmax.begin() + 2U * i + 1U);
             tminmax.erase(tminmax.begin() + 2U * i);
+            tother.erase(tother.begin() + 2U * i + 1U);
+            tother.erase(tother.begin() + 2U * i);
             ttrace.erase(ttrace.begin() + 2U * i + 1U);
             ttrace.erase(ttrace.begin() + 2U * i);
         }
     }
 
     // Global
-    auto s = std::minmax_element(tminmax.begin(), tminmax.end());
+    std::vector<
+      std::pair<exseis::utils::Floating_point, exseis::utils::Floating_point>>
+      tpairs;
+    for (size_t i = 0; i < tminmax.size(); i++) {
+        tpairs.emplace_back(tminmax[i], tother[i]);
+    }
+
+    auto s = std::minmax_element(tpairs.begin(), tpairs.end());
     std::vector<CoordElem> minmax;
     if (s.first != s.second) {
-        const auto d_first  = std::distance(tminmax.begin(), s.first);
-        const auto d_second = std::distance(tminmax.begin(), s.second);
+        const auto d_first  = std::distance(tpairs.begin(), s.first);
+        const auto d_second = std::distance(tpairs.begin(), s.second);
 
-        minmax = {CoordElem{*s.first, ttrace[d_first]},
-                  CoordElem{*s.second, ttrace[d_second]}};
+        minmax = {CoordElem{s.first->first, ttrace[d_first]},
+                  CoordElem{s.second->first, ttrace[d_second]}};
     }
     else {
         minmax = {CoordElem{0, std::numeric_limits<size_t>::max()},
-- 
2.43.0


From 8908de1bbbbbf35b56814b8f817566d21c5b313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 24/87] fix: find negative maxima of a set

---
 src/Flow/Set.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 3681fb3..e3d1a1e 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -519,9 +519,11 @@ void Set::getMinMax(
 {
     // TODO: This needs to be changed to be compatible with ExSeisFlow
     minmax[0].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[1].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[1].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     minmax[2].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[3].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[3].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     for (size_t i = 0; i < 4; i++) {
         minmax[i].num = std::numeric_limits<size_t>::max();
     }
-- 
2.43.0


From dd75d18844d8ee8e57794a3435b23a5e39b0ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:25 +0000
Subject: [PATCH 25/87] fix: ignore files without traces when finding minima
 and maxima of a set

---
 src/Flow/Set.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index e3d1a1e..eb375a4 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -544,6 +544,12 @@ void Set::getMinMax(
         size_t offset = piol->comm->offset(f->ilst.size());
         PIOL::getMinMax(
           piol.get(), offset, f->ilst.size(), vprm.data(), xlam, ylam, tminmax);
+
+        // There are no values if the file has no traces
+        if (tminmax[0].num == std::numeric_limits<size_t>::max()) {
+            continue;
+        }
+
         for (size_t i = 0LU; i < 2LU; i++) {
 
             {
-- 
2.43.0


From bfb2659fb7b66adbbff8649c3a959002405cded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 26/87] fix: allocate the window of a distributed vector in
 bytes

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index f9b88c3..45a4ebd 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -88,7 +88,8 @@ MPI_Distributed_vector<T>::Model::Model(MPI_Aint global_size, MPI_Comm comm) :
       block_decomposition(global_size, num_ranks, rank);
     const size_t local_size = decomposition.local_size;
 
-    MPI_Win_allocate(local_size, sizeof(T), MPI_INFO_NULL, comm, &data, &win);
+    MPI_Win_allocate(
+      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);
 }
 
 template<typename T>
-- 
2.43.0


From 40afa06764b16c96c2143fbc25868ec192b286ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 27/87] fix: do not access the element after the last of a
 distributed vector

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 45a4ebd..228ca01 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -102,7 +102,7 @@ MPI_Distributed_vector<T>::Model::~Model()
 template<typename T>
 void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return;
     }
 
@@ -136,7 +136,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 template<typename T>
 T MPI_Distributed_vector<T>::Model::get(size_t i) const
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return T();
     }
 
-- 
2.43.0


From bb9461d604fdf3020bbdee4d3399e078f8da3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 28/87] fix: do not promise that no other process locks a part
 of a distributed vector

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 228ca01..40ee43b 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -122,7 +122,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
     }
     else {
         // Lock the window, set the remote data, and unlock.
-        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, MPI_MODE_NOCHECK, win);
+        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, 0, win);
 
         const size_t T_size = sizeof(T);
         MPI_Put(
@@ -156,7 +156,7 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     else {
         T val;
 
-        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, MPI_MODE_NOCHECK, win);
+        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, 0, win);
 
         const size_t T_size = sizeof(T);
         MPI_Get(
-- 
2.43.0


From 8e9a88cd4a1c0a6eaf26289e2182bd7920af7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 29/87] fix: allow process 0 to access a distributed vector in
 debug builds

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 40ee43b..5000667 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -116,7 +116,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
       block_decomposition_location(global_size, num_ranks, i);
 
     // Set the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         data[location.local_index] = val;
     }
@@ -149,7 +149,7 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     auto location = block_decomposition_location(global_size, num_ranks, i);
 
     // Get the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         return data[location.local_index];
     }
-- 
2.43.0


From 47f6a16960e8be9ec1b3cbf62d0faca33bc4c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 30/87] fix: detect gathers when processes have no traces, on
 the last process and when a gather ends inside a later process

---
 src/gather.cc | 57 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/gather.cc b/src/gather.cc
index 291a75c..f91b7db 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -31,19 +31,16 @@ static utils::Distributed_vector<Gather_info> getGathers(
     size_t numRank = piol->comm->getNumRank();
     std::vector<Gather_info> lline;
 
-    exseis::utils::Integer ill =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, prm);
-    exseis::utils::Integer xll =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, prm);
-    lline.push_back({1LU, ill, xll});
+    exseis::utils::Integer ill = 0;
+    exseis::utils::Integer xll = 0;
 
-    for (size_t i = 1; i < prm->size(); i++) {
+    for (size_t i = 0; i < prm->size(); i++) {
         exseis::utils::Integer il =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, prm);
         exseis::utils::Integer xl =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, prm);
 
-        if (il != ill || xl != xll) {
+        if (i == 0 || il != ill || xl != xll) {
             lline.push_back({0LU, il, xl});
             ill = il;
             xll = xl;
@@ -51,34 +48,50 @@ static utils::Distributed_vector<Gather_info> getGathers(
         lline.back().num_traces += 1;
     }
 
+    // A process without traces has no gathers
+    const size_t lnum = lline.size();
+    if (lnum == 0) {
+        lline.push_back({0LU, 0, 0});
+    }
+
+    auto lnums  = piol->comm->gather<size_t>(lnum);
     auto trcnum = piol->comm->gather<size_t>(lline.front().num_traces);
     auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);
     auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);
     auto ilf    = piol->comm->gather<size_t>(lline.front().inline_);
     auto xlf    = piol->comm->gather<size_t>(lline.front().crossline);
 
+    // The first gather is already known if a previous process has its start
     size_t start = 0;
-    if (
-      rank != 0 && ilb[rank - 1LU] == ilf[rank]
-      && xlb[rank - 1LU] == xlf[rank]) {
-
-        start = 1;
+    for (size_t i = rank; i > 0 && lnum != 0; i--) {
+        if (lnums[i - 1LU] != 0) {
+            if (ilb[i - 1LU] == ilf[rank] && xlb[i - 1LU] == xlf[rank]) {
+                start = 1;
+            }
+            break;
+        }
     }
 
-    if (start < lline.size()) {
-        if (ilf[rank + 1LU] == ilb[rank] && xlf[rank + 1LU] == xlb[rank]) {
-            for (size_t i = rank + 1LU; i < numRank; i++) {
-                if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {
-                    lline.back().num_traces += trcnum[i];
-                }
-                else {
-                    break;
-                }
+    // The last gather can continue on the next processes
+    if (start < lnum) {
+        for (size_t i = rank + 1LU; i < numRank; i++) {
+            if (lnums[i] == 0) {
+                continue;
+            }
+
+            if (ilb[rank] != ilf[i] || xlb[rank] != xlf[i]) {
+                break;
+            }
+
+            lline.back().num_traces += trcnum[i];
+
+            if (lnums[i] > 1) {
+                break;
             }
         }
     }
 
-    size_t sz     = lline.size() - start;
+    size_t sz     = lnum - start;
     size_t offset = piol->comm->offset(sz);
 
     utils::MPI_Distributed_vector<Gather_info> line(
-- 
2.43.0


From 66e2411ca62ee0e96864655b163b71d59865e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 31/87] fix: wait until every process has stored its gathers

---
 src/gather.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gather.cc b/src/gather.cc
index f91b7db..ada8047 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -101,6 +101,9 @@ static utils::Distributed_vector<Gather_info> getGathers(
         line.set(i + offset, lline[i + start]);
     }
 
+    // Every process can read any gather on return
+    piol->comm->barrier();
+
     return std::move(line);
 }
 
-- 
2.43.0


From 20272646101fd16cc28e8ef67ad4c7786dcc8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:15 +0000
Subject: [PATCH 32/87] fix: do not give the output of two single-file groups
 of a set the same name

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index eb375a4..920e646 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -183,7 +183,7 @@ std::vector<std::string> Set::startSingle(
         size_t ns                         = fQue[0]->ifc->readNs();
         exseis::utils::Floating_point inc = fQue[0]->ifc->readInc();
 
-        if (fQue.size() == 1) {
+        if (fmap.size() == 1 && fQue.size() == 1) {
             name = outfix + ".segy";
         }
         else {
-- 
2.43.0


From de7b33489ec7557dd8406c8c3555e510551ef042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 33/87] Let a model checker choose the memory limit of the set
 layer (EXSEISDAT_MODEL_CHECK)

---
 src/Flow/Set.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 920e646..226b22b 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -16,6 +16,11 @@
 
 #include <iostream>
 
+#ifdef EXSEISDAT_MODEL_CHECK
+/// The memory limit of a block of traces, set by the model checker.
+extern size_t exseisdat_model_check_memlim;
+#endif  // EXSEISDAT_MODEL_CHECK
+
 using namespace exseis::utils;
 using namespace exseis::PIOL;
 
@@ -200,7 +205,11 @@ std::vector<std::string> Set::startSingle(
         out->writeInc(inc);
         out->writeText(outmsg);
 
+#ifdef EXSEISDAT_MODEL_CHECK
+        const size_t memlim = exseisdat_model_check_memlim;
+#else
         const size_t memlim = 1024LU * 1024LU * 1024LU;
+#endif  // EXSEISDAT_MODEL_CHECK
         size_t max =
           memlim
           / (5LU * sizeof(size_t) + SEGY_utils::getDOSz(ns)
-- 
2.43.0


From 2b88d4cb055d55ff9bcc4da48943d6f4408dee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 34/87] fix: return the output names of a set when operations
 come before the output

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 226b22b..952dc6a 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -502,7 +502,7 @@ std::vector<std::string> Set::calcFunc(
             ++fCurr;
         }
 
-        calcFunc(fCurr, fEnd);
+        return calcFunc(fCurr, fEnd);
     }
 
     return std::vector<std::string>{};
-- 
2.43.0


From 04466cdd62be8e0c62773bb47fb0278d53d13407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 35/87] fix: do not overwrite the output of a set when it is
 destroyed

---
 src/Flow/Set.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 952dc6a..ff9fdb9 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -516,8 +516,10 @@ std::vector<std::string> Set::output(std::string oname)
           return std::vector<size_t>{};
       }));
 
-    outfix                       = oname;
+    // Keep the prefix which the destructor uses
+    std::swap(outfix, oname);
     std::vector<std::string> out = calcFunc(func.begin(), func.end());
+    std::swap(outfix, oname);
     func.clear();
 
     return out;
-- 
2.43.0


From 94a6341de0c12d1fa00262bafe1ea77337c1d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 36/87] fix: sort sets whose processes have few or no traces

---
 src/Flow/Set.cc | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index ff9fdb9..3f6e44f 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -445,17 +445,17 @@ Set::FuncLst::iterator Set::calcFuncS(
 Set::FuncLst::iterator Set::startSubset(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
-    std::vector<FuncLst::iterator> flist;
-
     // TODO: Parallelisable
     for (auto& o : fmap) {
         // Iterate across the full function list
-        flist.push_back(calcFuncS(fCurr, fEnd, o.second));
+        calcFuncS(fCurr, fEnd, o.second);
     }
 
-    assert(std::equal(flist.begin() + 1LU, flist.end(), flist.begin()));
+    while (fCurr != fEnd && (*fCurr)->opt.check(FuncOpt::SubSetOnly)) {
+        ++fCurr;
+    }
 
-    return flist.front();
+    return fCurr;
 }
 
 std::vector<std::string> Set::calcFunc(
@@ -608,17 +608,7 @@ void Set::sort(std::shared_ptr<Rule> r, CompareP sortFunc)
 
     func.push_back(std::make_shared<Op<InPlaceMod>>(
       opt, r, nullptr, [this, sortFunc](TraceBlock* in) -> std::vector<size_t> {
-          // TODO: It will eventually be necessary to support this use case.
-          if (piol->comm->min(in->prm->size()) < 3LU) {
-              piol->log->record(
-                "", Logger::Layer::Set, Logger::Status::Error,
-                "Email cathal@ichec.ie if you want to sort -very- small sets of files with multiple processes.",
-                PIOL_VERBOSITY_NONE);
-              return std::vector<size_t>{};
-          }
-          else {
-              return PIOL::sort(piol.get(), in->prm.get(), sortFunc);
-          }
+          return PIOL::sort(piol.get(), in->prm.get(), sortFunc);
       }));
 }
 
-- 
2.43.0


From 25ff2bb95bb86416fb844d0349bae1e85f62223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 37/87] fix: apply the trace operations after a gather
 operation once

---
 src/Flow/Set.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 3f6e44f..7c30c68 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -160,8 +160,7 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
                   ->func(bIn.get(), bOut.get());
                 bIn = std::move(bOut);
             }
-            ++fCurr;
-            // fallthrough
+            break;
         case FuncOpt::SingleTrace:
             if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
                 type = FuncOpt::SingleTrace;
-- 
2.43.0


From 2d7ffa90d80a3016da7179599ccf4a34fe7793ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:03 +0000
Subject: [PATCH 38/87] fix: number the traces of a set of files uniquely
 across files and processes

---
 src/Flow/Cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 7ea3d87..2897789 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -44,7 +44,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
               f->ilst.size(), f->ilst.data(), prm.get(), loff);
             for (size_t i = 0LU; i < f->ilst.size(); i++) {
                 param_utils::setPrm(
-                  loff + i, PIOL_META_gtn, off + loff + f->ilst[i], prm.get());
+                  loff + i, PIOL_META_gtn, off + loff + i, prm.get());
                 param_utils::setPrm(
                   loff + i, PIOL_META_ltn, f->ilst[i] * desc.size() + c,
                   prm.get());
-- 
2.43.0


From 1424204b42b7d400bfee51d355d4279efa17cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 39/87] fix: apply sorts and gather operations to the result of
 the operations before them

---
 include/ExSeisDat/Flow/Set.hh | 10 +++++
 src/Flow/Set.cc               | 72 +++++++++++++++++++++++------------
 2 files changed, 57 insertions(+), 25 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 8054b3f..30e6dcd 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -71,6 +71,9 @@ class Set {
     /// The number of ranks
     size_t numRank;
 
+    /// The number of times the set was stored in temporary files
+    size_t numTemp = 0;
+
     /*! Drop all file descriptors without output.
      */
     void drop(void)
@@ -80,6 +83,13 @@ class Set {
         offmap.clear();
     }
 
+    /*! Apply single-trace operations and store the result in temporary files,
+     *  which become the input of the following operations.
+     *  @param[in] fCurr The iterator for the first function to apply.
+     *  @param[in] fEnd The iterator after the last function to apply.
+     */
+    void storeTemp(FuncLst::iterator fCurr, FuncLst::iterator fEnd);
+
     /*! Start unwinding the function list for subset-only operations based on
      *  the given iterators.
      *  @param[in] fCurr The iterator for the current function to process.
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 7c30c68..73247d7 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -275,27 +275,31 @@ std::vector<std::string> Set::startSingle(
     return names;
 }
 
+void Set::storeTemp(FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
+{
+    std::string tOutfix = outfix;
+    outfix += ".temp" + std::to_string(numTemp++);
+    std::vector<std::string> names = startSingle(fCurr, fEnd);
+    outfix                         = tOutfix;
+
+    drop();
+    for (const std::string& n : names) {
+        // TODO: Open with delete on close?
+        add(makeFile<ReadSEGY>(piol, n));
+    }
+}
+
 std::string Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
-    if (file.size() > 1LU) {
-        OpOpt opt = {FuncOpt::NeedMeta, FuncOpt::NeedTrcVal,
-                     FuncOpt::SingleTrace};
-        FuncLst tFunc;
-        tFunc.push_back(std::make_shared<Op<InPlaceMod>>(
-          opt, nullptr, nullptr, [](TraceBlock*) -> std::vector<size_t> {
-              return std::vector<size_t>{};
-          }));
-
-        std::string tOutfix            = outfix;
-        outfix                         = "temp";
-        std::vector<std::string> names = calcFunc(tFunc.begin(), tFunc.end());
-        outfix                         = tOutfix;
-        drop();
-        for (std::string n : names) {
-            // TODO: Open with delete on close?
-            add(n);
-        }
+    // Gathers are located in the files, so each group of traces must be in one
+    // file and in order.
+    bool stored = (file.size() <= 1LU);
+    for (auto& f : file) {
+        stored = stored && (f->ilst == f->olst);
+    }
+    if (piol->comm->max(stored ? 0LU : 1LU) != 0LU) {
+        storeTemp(fCurr, fCurr);
     }
     std::string gname;
     for (auto& o : file) {
@@ -483,16 +487,34 @@ std::vector<std::string> Set::calcFunc(
             }
         }
         else if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
-            std::vector<std::string> sname = startSingle(fCurr, fEnd);
+            auto fNext = fCurr;
+            while (fNext != fEnd && (*fNext)->opt.check(FuncOpt::SingleTrace)) {
+                ++fNext;
+            }
 
-            if (!sname.empty()) {
-                return sname;
+            if (fNext == fEnd) {
+                return startSingle(fCurr, fEnd);
             }
 
-            for (; fCurr != fEnd; ++fCurr) {
-                if (!(*fCurr)->opt.check(FuncOpt::SingleTrace)) {
-                    break;
-                }
+            // Subset operations on parameters give the same result before
+            // operations which only change trace values
+            auto fSub = fNext;
+            while (fSub != fEnd && (*fSub)->opt.check(FuncOpt::SubSetOnly)
+                   && !(*fSub)->opt.check(FuncOpt::NeedTrcVal)) {
+                ++fSub;
+            }
+            bool modMeta = std::any_of(
+              fCurr, fNext, [](const std::shared_ptr<OpParent>& op) {
+                  return op->opt.check(FuncOpt::ModMetaVal);
+              });
+
+            if (fSub != fNext && !modMeta) {
+                std::rotate(fCurr, fNext, fSub);
+            }
+            else {
+                // The following operations need the result of these ones
+                storeTemp(fCurr, fNext);
+                fCurr = fNext;
             }
         }
         else {
-- 
2.43.0


From 2406eb121009533134142fc764be4761820f159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 40/87] fix: read the parameters again when the cached ones
 lack entries of the rule

---
 src/Flow/Cache.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 2897789..eb5ee03 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -18,6 +18,24 @@ using namespace exseis::PIOL;
 namespace exseis {
 namespace Flow {
 
+/*! Check whether parameters contain all entries of a rule.
+ *  @param[in] prm The parameters
+ *  @param[in] rule The rule
+ *  @return Return true if each entry of the rule is in the parameters.
+ */
+static bool hasEntries(const Param* prm, const Rule* rule)
+{
+    return std::all_of(
+      rule->translate.begin(), rule->translate.end(),
+      [prm](const Rule::RuleMap::value_type& entry) -> bool {
+          auto it = prm->r->translate.find(entry.first);
+          return it != prm->r->translate.end()
+                 && it->second->type() == entry.second->type()
+                 && it->second->min() == entry.second->min()
+                 && it->second->max() == entry.second->max();
+      });
+}
+
 // TODO: Generalise this for parameters and traces
 std::shared_ptr<TraceBlock> Cache::getCache(
   std::shared_ptr<Rule> rule, FileDeque& desc, bool, bool)
@@ -25,7 +43,9 @@ std::shared_ptr<TraceBlock> Cache::getCache(
     auto it = std::find_if(
       cache.begin(), cache.end(),
       [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-    if (it == cache.end() || !it->block || !it->block->prm) {
+    if (
+      it == cache.end() || !it->block || !it->block->prm
+      || !hasEntries(it->block->prm.get(), rule.get())) {
         size_t lnt = 0LU;
         size_t nt  = 0LU;
         for (auto& f : desc) {
-- 
2.43.0


From 4659a89276c69193d25359fa2dabe0ddd2feef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 41/87] fix: cache traces, and find cached parameters and
 traces

---
 include/ExSeisDat/Flow/Cache.hh     |  4 +-
 include/ExSeisDat/Flow/CacheElem.hh |  8 +++-
 src/Flow/Cache.cc                   | 57 ++++++++++++++++-------------
 3 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/include/ExSeisDat/Flow/Cache.hh b/include/ExSeisDat/Flow/Cache.hh
index dc85bb6..02ea2f6 100644
--- a/include/ExSeisDat/Flow/Cache.hh
+++ b/include/ExSeisDat/Flow/Cache.hh
@@ -105,7 +105,9 @@ class Cache {
         auto it = std::find_if(
           cache.begin(), cache.end(),
           [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-        cache.erase(it);
+        if (it != cache.end()) {
+            cache.erase(it);
+        }
     }
 
     /*! Get a subset of parameters from a cache.
diff --git a/include/ExSeisDat/Flow/CacheElem.hh b/include/ExSeisDat/Flow/CacheElem.hh
index 20fa245..bf3e2b6 100644
--- a/include/ExSeisDat/Flow/CacheElem.hh
+++ b/include/ExSeisDat/Flow/CacheElem.hh
@@ -27,6 +27,9 @@ struct CacheElem {
     /// The cached data
     std::shared_ptr<TraceBlock> block;
 
+    /// True if the traces are cached, also if this process has none.
+    bool hasTrc = false;
+
     /*! Construct the cache element with the given parameter structure.
      *  @param[in] desc_ A deque of unique pointers to file descriptors
      *  @param[inout] prm_ A unique_ptr to the parameter structure. The cache
@@ -54,6 +57,7 @@ struct CacheElem {
         block      = std::make_shared<TraceBlock>();
         block->trc = std::move(trc_);
         block->prm = std::move(prm_);
+        hasTrc     = true;
     }
 
     /*! Check if the given element has cached parameters
@@ -62,7 +66,7 @@ struct CacheElem {
      */
     bool checkPrm(const FileDeque& desc_) const
     {
-        return desc == desc_ && !block && block->prm;
+        return desc == desc_ && block && block->prm;
     }
 
     /*! Check if the given element has cached traces
@@ -71,7 +75,7 @@ struct CacheElem {
      */
     bool checkTrc(const FileDeque& desc_) const
     {
-        return desc == desc_ && !block && !block->trc.empty();
+        return desc == desc_ && block && hasTrc;
     }
 };
 
diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index eb5ee03..166b495 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -36,23 +36,29 @@ static bool hasEntries(const Param* prm, const Rule* rule)
       });
 }
 
-// TODO: Generalise this for parameters and traces
 std::shared_ptr<TraceBlock> Cache::getCache(
-  std::shared_ptr<Rule> rule, FileDeque& desc, bool, bool)
+  std::shared_ptr<Rule> rule, FileDeque& desc, bool cPrm, bool cTrc)
 {
     auto it = std::find_if(
       cache.begin(), cache.end(),
       [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-    if (
-      it == cache.end() || !it->block || !it->block->prm
-      || !hasEntries(it->block->prm.get(), rule.get())) {
-        size_t lnt = 0LU;
-        size_t nt  = 0LU;
-        for (auto& f : desc) {
-            lnt += f->ilst.size();
-            nt += f->ifc->readNt();
-        }
+    if (it == cache.end()) {
+        cache.emplace_back(desc, nullptr);
+        it = cache.end() - 1LU;
+    }
+
+    TraceBlock* block = it->block.get();
 
+    size_t lnt = 0LU;
+    block->nt  = 0LU;
+    for (auto& f : desc) {
+        lnt += f->ilst.size();
+        block->nt += f->ifc->readNt();
+    }
+    block->ns  = desc[0]->ifc->readNs();
+    block->inc = desc[0]->ifc->readInc();
+
+    if (cPrm && !(block->prm && hasEntries(block->prm.get(), rule.get()))) {
         size_t off = piol->comm->offset(lnt);
         auto prm   = std::make_unique<Param>(rule, lnt);
         // TODO: Do not make assumptions about Parameter sizes fitting in
@@ -73,24 +79,23 @@ std::shared_ptr<TraceBlock> Cache::getCache(
             loff += f->ilst.size();
         }
 
-        if (it == cache.end()) {
-            cache.emplace_back(desc, std::move(prm));
-            it = cache.end() - 1LU;
-        }
-        else {
-            if (!it->block) {
-                it->block = std::make_shared<TraceBlock>();
-            }
-            it->block->prm = std::move(prm);
+        block->prm = std::move(prm);
+    }
+
+    if (cTrc && !it->hasTrc) {
+        block->trc.resize(lnt * block->ns);
+
+        size_t loff = 0LU;
+        for (auto& f : desc) {
+            f->ifc->readTraceNonContiguous(
+              f->ilst.size(), f->ilst.data(),
+              block->trc.data() + loff * block->ns, PIOL_PARAM_NULL, 0LU);
+            loff += f->ilst.size();
         }
 
-        it->block->nt  = nt;
-        it->block->ns  = desc[0]->ifc->readNs();
-        it->block->inc = desc[0]->ifc->readInc();
-    }
-    else {
-        // TODO: Check if prm is cached and use PIOL_META_COPY
+        it->hasTrc = true;
     }
+
     return it->block;
 }
 
-- 
2.43.0


From 7b8b3ec9f4a9dbcb87afb91c693db90a6f7458f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 42/87] fix: get the output traces of cached parameters which
 do not start at the first trace

---
 src/Flow/Cache.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 166b495..f1e2ff2 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -117,12 +117,13 @@ std::vector<size_t> Cache::getOutputTrace(
 
             // Some data should be copied from this file
             if (nloc > offset) {
-                size_t lsz  = std::min(offset + sz, nloc) - offset;
-                size_t foff = offset - loc;
+                size_t first = std::max(offset, loc);
+                size_t lsz   = std::min(offset + sz, nloc) - first;
+                size_t foff  = first - loc;
                 std::copy(
                   desc[i]->olst.begin() + foff,
                   desc[i]->olst.begin() + foff + lsz,
-                  final.begin() + loc - offset);
+                  final.begin() + (first - offset));
             }
 
             loc = nloc;
@@ -130,8 +131,9 @@ std::vector<size_t> Cache::getOutputTrace(
 
         std::vector<size_t> sortlist = getSortIndex(sz, final.data());
         for (size_t j = 0LU; j < sz; j++) {
-            param_utils::cpyPrm(sortlist[j], iprm, j, prm);
+            param_utils::cpyPrm(offset + sortlist[j], iprm, j, prm);
         }
+        std::sort(final.begin(), final.end());
     }
 
     return final;
-- 
2.43.0


From e2204a2b24b2228c6386b514c51436edad691112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:30 +0000
Subject: [PATCH 43/87] fix: compare cached parameters by the rule which they
 were read for

---
 include/ExSeisDat/Flow/CacheElem.hh |  3 +++
 src/Flow/Cache.cc                   | 21 ++++++++++++---------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/ExSeisDat/Flow/CacheElem.hh b/include/ExSeisDat/Flow/CacheElem.hh
index bf3e2b6..e7b2459 100644
--- a/include/ExSeisDat/Flow/CacheElem.hh
+++ b/include/ExSeisDat/Flow/CacheElem.hh
@@ -30,6 +30,9 @@ struct CacheElem {
     /// True if the traces are cached, also if this process has none.
     bool hasTrc = false;
 
+    /// The rule which the cached parameters were read for.
+    std::shared_ptr<exseis::PIOL::Rule> rule;
+
     /*! Construct the cache element with the given parameter structure.
      *  @param[in] desc_ A deque of unique pointers to file descriptors
      *  @param[inout] prm_ A unique_ptr to the parameter structure. The cache
diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index f1e2ff2..ed155e1 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -18,18 +18,18 @@ using namespace exseis::PIOL;
 namespace exseis {
 namespace Flow {
 
-/*! Check whether parameters contain all entries of a rule.
- *  @param[in] prm The parameters
- *  @param[in] rule The rule
- *  @return Return true if each entry of the rule is in the parameters.
+/*! Check whether a rule contains all entries of another rule.
+ *  @param[in] all The rule to look for entries in
+ *  @param[in] rule The rule with the entries to look for
+ *  @return Return true if each entry of the rule is in the other one.
  */
-static bool hasEntries(const Param* prm, const Rule* rule)
+static bool hasEntries(const Rule* all, const Rule* rule)
 {
     return std::all_of(
       rule->translate.begin(), rule->translate.end(),
-      [prm](const Rule::RuleMap::value_type& entry) -> bool {
-          auto it = prm->r->translate.find(entry.first);
-          return it != prm->r->translate.end()
+      [all](const Rule::RuleMap::value_type& entry) -> bool {
+          auto it = all->translate.find(entry.first);
+          return it != all->translate.end()
                  && it->second->type() == entry.second->type()
                  && it->second->min() == entry.second->min()
                  && it->second->max() == entry.second->max();
@@ -58,7 +58,9 @@ std::shared_ptr<TraceBlock> Cache::getCache(
     block->ns  = desc[0]->ifc->readNs();
     block->inc = desc[0]->ifc->readInc();
 
-    if (cPrm && !(block->prm && hasEntries(block->prm.get(), rule.get()))) {
+    if (
+      cPrm
+      && !(block->prm && it->rule && hasEntries(it->rule.get(), rule.get()))) {
         size_t off = piol->comm->offset(lnt);
         auto prm   = std::make_unique<Param>(rule, lnt);
         // TODO: Do not make assumptions about Parameter sizes fitting in
@@ -80,6 +82,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
         }
 
         block->prm = std::move(prm);
+        it->rule   = rule;
     }
 
     if (cTrc && !it->hasTrc) {
-- 
2.43.0


From ef47c6d75a533b15ed4d16da67cf1d6c4da8f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 44/87] fix: gains of a window of one sample and mean absolute
 gain of negative samples

---
 src/utils/signal_processing/Gain_function.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 9093a86..ec0086a 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -112,7 +112,9 @@ Trace_value triangular_RMS_gain(
         // Linear interpolation:
         //      0 at distance_from_center == half_width
         //      1 at distance_from_center == 0
-        const auto scaling = 1 - distance_from_center / half_width;
+        // (if there is nothing but the center, its scaling is 1).
+        const auto scaling =
+          (half_width > 0 ? 1 - distance_from_center / half_width : 1);
 
         const auto scaled_signal = signal[j] * scaling;
 
@@ -145,14 +147,15 @@ Trace_value mean_abs_gain(
 {
     assert(window_size > 0);
 
-    const Trace_value amp =
-      std::accumulate(signal, signal + window_size, Trace_value(0));
+    const Trace_value amp = std::accumulate(
+      signal, signal + window_size, Trace_value(0),
+      [](Trace_value sum, Trace_value v) { return sum + std::abs(v); });
     assert(amp != 0);
 
     const auto non_zero = [](Trace_value i) { return i != Trace_value(0); };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
 
-    return target_amplitude / (std::abs(amp) / std::max<size_t>(1, num));
+    return target_amplitude / (amp / std::max<size_t>(1, num));
 }
 
 extern "C" Trace_value exseis_mean_abs_gain(
-- 
2.43.0


From 760403714801e4430ea94c93b6ffc93f68db5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 45/87] fix: tapering a fully muted trace

---
 src/utils/signal_processing/taper.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index 72fd85c..23f5f3f 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -31,8 +31,11 @@ void taper(
 
         auto* truncated_signal =
           std::find_if(signal, signal + signal_size, non_zero);
-        assert(truncated_signal[0] != 0);
 
+        // There is nothing to taper if the whole trace is muted
+        if (truncated_signal == signal + signal_size) {
+            return;
+        }
 
         // Find the new sizes
         const auto truncated_signal_size =
-- 
2.43.0


From 49aa85efc638f23ef6dc183380523abea9cc307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:49 +0000
Subject: [PATCH 46/87] fix: pad traces for filtering on both sides without
 reading beyond them

---
 src/temporalfilter.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index d9b75c9..0e6e842 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -305,22 +305,21 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[N - j] : trc[2 * (nw + N) - j]);
+                return (j < N ? trc[N - j] : trc[2 * (nw - 1) + N - j]);
             };
             break;
 
         case PadType::Replicate:
-            return
-              [](exseis::utils::Trace_value* trc, size_t, size_t nw, size_t j) {
-                  return (j <= nw ? trc[0] : trc[nw]);
-              };
+            return [](
+                     exseis::utils::Trace_value* trc, size_t N, size_t nw,
+                     size_t j) { return (j < N ? trc[0] : trc[nw - 1]); };
             break;
 
         case PadType::Cyclic:
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[nw - (N - j)] : trc[j - nw - N]);
+                return (j < N ? trc[nw - (N - j)] : trc[j - nw - N]);
             };
             break;
     }
@@ -419,10 +418,10 @@ void filterTime(
 {
     std::vector<exseis::utils::Trace_value> trcX(nw + 6LU * (numTail + 1LU));
 
-    for (size_t i = 0LU; i < 3LU * (numTail + 1LU); i++) {
-        trcX[i] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, i);
-        trcX[i + 3LU * numTail + nw] = padding(
-          trcOrgnl, 3LU * (numTail + 1LU), nw - 1LU, i + 3LU * numTail + nw);
+    const size_t nPad = 3LU * (numTail + 1LU);
+    for (size_t i = 0LU; i < nPad; i++) {
+        trcX[i]             = padding(trcOrgnl, nPad, nw, i);
+        trcX[i + nPad + nw] = padding(trcOrgnl, nPad, nw, i + nPad + nw);
     }
 
     for (size_t i = 0; i < nw; i++) {
-- 
2.43.0


From fbac3412b023175d6483c13415a4d487aba8325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:49 +0000
Subject: [PATCH 47/87] fix: do not overwrite the trace when planning its
 Fourier transform

---
 src/temporalfilter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 0e6e842..c7fec6d 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -341,7 +341,7 @@ void filterFreq(
     std::vector<Complex_trace_value> frequency1(nss);
     fftwf_plan planFFT = fftwf_plan_dft_r2c_1d(
       nss, trcX, reinterpret_cast<fftwf_complex*>(frequency.data()),
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planFFT);
     fftwf_destroy_plan(planFFT);
 
@@ -363,7 +363,7 @@ void filterFreq(
 
     fftwf_plan planIFFT = fftwf_plan_dft_c2r_1d(
       nss, reinterpret_cast<fftwf_complex*>(frequency.data()), trcX,
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planIFFT);
     fftwf_destroy_plan(planIFFT);
 
-- 
2.43.0


From 413ecbd222a98afb638740f5e53132c7db25127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 48/87] fix: compute the order of frequency filters from
 corners relative to the sampling frequency

---
 .../ExSeisDat/PIOL/operations/temporalfilter.hh   |  4 ++--
 src/Flow/Set.cc                                   |  2 +-
 src/temporalfilter.cc                             | 15 ++++++++-------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/ExSeisDat/PIOL/operations/temporalfilter.hh b/include/ExSeisDat/PIOL/operations/temporalfilter.hh
index ab3c986..11b5ecd 100644
--- a/include/ExSeisDat/PIOL/operations/temporalfilter.hh
+++ b/include/ExSeisDat/PIOL/operations/temporalfilter.hh
@@ -68,8 +68,8 @@ using Complex_trace_value = std::complex<exseis::utils::Trace_value>;
 
 
 /*! Determines the filter order if given passband and stopband frequecnies
- *  @param[in] cornerP Passband corner
- *  @param[in] cornerS Stopband corner
+ *  @param[in] cornerP Passband corner divided by the sampling frequency
+ *  @param[in] cornerS Stopband corner divided by the sampling frequency
  *  @return Filter order
  */
 size_t filterOrder(
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 73247d7..a2d8648 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -786,7 +786,7 @@ void Set::temporalFilter(
   size_t nw,
   size_t winCntr)
 {
-    assert(corners.size() == 2);
+    assert(corners.size() == 2 || corners.size() == 4);
     OpOpt opt = {FuncOpt::NeedTrcVal, FuncOpt::ModTrcVal, FuncOpt::DepTrcVal,
                  FuncOpt::SingleTrace};
     func.emplace_back(std::make_shared<Op<InPlaceMod>>(
diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index c7fec6d..c2d3176 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -45,7 +45,8 @@ size_t filterOrder(
       0.5 * std::log(99.0 / (std::pow(10.0, 0.3) - 1.0)));
 
     return std::ceil(
-      val / std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP)));
+      val
+      / std::abs(std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP))));
 }
 
 void expandPoly(
@@ -257,14 +258,14 @@ void temporalFilter(
         default:
         case FltrType::Lowpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[0LU], 0LU};
-            size_t N = filterOrder(corner[0LU], corner[1LU]);
+            size_t N = filterOrder(corner[0LU] / fs, corner[1LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
 
         case FltrType::Highpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[1LU], 0LU};
-            size_t N = filterOrder(corner[1LU], corner[0LU]);
+            size_t N = filterOrder(corner[1LU] / fs, corner[0LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
@@ -275,8 +276,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[1], corner[0]),
-                filterOrder(corner[2], corner[3])));
+                filterOrder(corner[1] / fs, corner[0] / fs),
+                filterOrder(corner[2] / fs, corner[3] / fs)));
         } break;
 
         case FltrType::Bandstop: {
@@ -285,8 +286,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[0], corner[1]),
-                filterOrder(corner[3], corner[2])));
+                filterOrder(corner[0] / fs, corner[1] / fs),
+                filterOrder(corner[3] / fs, corner[2] / fs)));
         } break;
     }
 }
-- 
2.43.0


From 82a90e501f272701e706ddaad71fbe4b4aa222c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 49/87] fix: find the traces of a model file for every order of
 its lines

---
 include/ExSeisDat/PIOL/ReadSEGYModel.hh |  15 +++
 src/ReadSEGYModel.cc                    | 160 ++++++++++++++++--------
 2 files changed, 126 insertions(+), 49 deletions(-)

diff --git a/include/ExSeisDat/PIOL/ReadSEGYModel.hh b/include/ExSeisDat/PIOL/ReadSEGYModel.hh
index 4e08561..5c884a0 100644
--- a/include/ExSeisDat/PIOL/ReadSEGYModel.hh
+++ b/include/ExSeisDat/PIOL/ReadSEGYModel.hh
@@ -19,6 +19,21 @@ namespace PIOL {
  * while lower velocities correspond to materials that are less dense.
  */
 class ReadSEGYModel : public Model3dInterface, public ReadSEGY {
+  private:
+    /// The number of traces from an inline to the next
+    size_t il_stride = 1LU;
+
+    /// The number of traces from a crossline to the next
+    size_t xl_stride = 1LU;
+
+    /*! Read the traces of the given lines.
+     *  @param[in] lines The inlines and crosslines of interest
+     *  @return Return the traces in the order of the lines. The values of lines
+     *          outside of the model are zero.
+     */
+    std::vector<exseis::utils::Trace_value> readLines(
+      const std::vector<Gather_info>& lines) const;
+
   public:
     /*! @brief The SEG-Y Model options structure.
      */
diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index 8d25f9e..1e5382b 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -7,6 +7,8 @@
 #include "ExSeisDat/PIOL/ReadSEGYModel.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 
+#include <algorithm>
+
 namespace exseis {
 namespace PIOL {
 
@@ -25,36 +27,112 @@ ReadSEGYModel::ReadSEGYModel(
   std::shared_ptr<ObjectInterface> obj_) :
     ReadSEGY(piol_, name_, opt, obj_)
 {
-    std::vector<size_t> vlist = {0LU, 1LU, ReadSEGY::readNt() - 1LU};
+    const size_t nt = ReadSEGY::readNt();
+    if (nt == 0LU) {
+        piol->log->record(
+          name, Logger::Layer::File, Logger::Status::Error,
+          "A model file must have traces.", PIOL_VERBOSITY_NONE);
+        return;
+    }
+
+    // The second trace shows which lines vary fastest
+    std::vector<size_t> vlist = {0LU};
+    if (nt > 1LU) {
+        vlist.push_back(1LU);
+    }
+    if (nt > 2LU) {
+        vlist.push_back(nt - 1LU);
+    }
+
     Param prm(vlist.size());
     readParamNonContiguous(vlist.size(), vlist.data(), &prm);
 
-    exseis::utils::Integer il_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, &prm);
-    exseis::utils::Integer xl_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, &prm);
-
-    exseis::utils::Integer il_increment =
-      param_utils::getPrm<exseis::utils::Integer>(1LU, PIOL_META_il, &prm)
-      - il_start;
-    exseis::utils::Integer il_count =
-      (il_increment != 0 ?
-         (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_il, &prm)
-          - il_start)
-           / il_increment :
-         0LU);
-    exseis::utils::Integer xl_count =
-      (ReadSEGY::readNt() / (il_count != 0 ? il_count : 1LU));
-    exseis::utils::Integer xl_increment =
-      (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_xl, &prm)
-       - xl_start)
-      / xl_count;
-
-    il_increment = (il_increment != 0 ? il_increment : 1LU);
-    xl_increment = (xl_increment != 0 ? xl_increment : 1LU);
-
-    il = CoordinateParameters(il_start, il_count, il_increment);
-    xl = CoordinateParameters(xl_start, xl_count, xl_increment);
+    const size_t second = std::min(1LU, vlist.size() - 1LU);
+    const size_t last   = vlist.size() - 1LU;
+
+    auto line = [&prm](size_t i, Meta m) {
+        return param_utils::getPrm<exseis::utils::Integer>(i, m, &prm);
+    };
+
+    const bool il_fast = line(second, PIOL_META_il) != line(0LU, PIOL_META_il);
+
+    const Meta fast_meta = (il_fast ? PIOL_META_il : PIOL_META_xl);
+    const Meta slow_meta = (il_fast ? PIOL_META_xl : PIOL_META_il);
+
+    // The lines which vary from trace to trace
+    CoordinateParameters fast(line(0LU, fast_meta), 1LL, 1LL);
+    const exseis::utils::Integer fast_increment =
+      line(second, fast_meta) - fast.start;
+    if (fast_increment != 0) {
+        fast.increment = fast_increment;
+        fast.count =
+          (line(last, fast_meta) - fast.start) / fast_increment + 1LL;
+        fast.count = std::max(fast.count, exseis::utils::Integer(1));
+    }
+
+    // The lines which vary when all of the fast lines had their turn
+    CoordinateParameters slow(line(0LU, slow_meta), nt / fast.count, 1LL);
+    if (slow.count > 1) {
+        const exseis::utils::Integer slow_increment =
+          (line(last, slow_meta) - slow.start) / (slow.count - 1LL);
+        slow.increment = (slow_increment != 0 ? slow_increment : 1LL);
+    }
+
+    il = (il_fast ? fast : slow);
+    xl = (il_fast ? slow : fast);
+
+    il_stride = (il_fast ? 1LU : fast.count);
+    xl_stride = (il_fast ? fast.count : 1LU);
+}
+
+std::vector<exseis::utils::Trace_value> ReadSEGYModel::readLines(
+  const std::vector<Gather_info>& lines) const
+{
+    // Find the number of a line, or -1 if it is outside of the model
+    auto line_number =
+      [](
+        exseis::utils::Integer line,
+        const CoordinateParameters& par) -> exseis::utils::Integer {
+        if (par.increment > 0 ? line < par.start : line > par.start) {
+            return -1;
+        }
+        const exseis::utils::Integer num = (line - par.start) / par.increment;
+        return (num < par.count ? num : -1);
+    };
+
+    const size_t ns = readNs();
+
+    std::vector<size_t> offsets;
+    std::vector<size_t> positions;
+    for (size_t i = 0LU; i < lines.size(); i++) {
+        const auto il_num = line_number(lines[i].inline_, il);
+        const auto xl_num = line_number(lines[i].crossline, xl);
+        const size_t offset =
+          size_t(il_num) * il_stride + size_t(xl_num) * xl_stride;
+
+        if (il_num < 0 || xl_num < 0 || offset >= readNt()) {
+            piol->log->record(
+              name, Logger::Layer::File, Logger::Status::Error,
+              "The lines of a gather are outside of the model.",
+              PIOL_VERBOSITY_NONE);
+            continue;
+        }
+
+        offsets.push_back(offset);
+        positions.push_back(i);
+    }
+
+    std::vector<exseis::utils::Trace_value> found(offsets.size() * ns);
+    readTraceNonMonotonic(
+      offsets.size(), offsets.data(), found.data(), PIOL_PARAM_NULL, 0LU);
+
+    std::vector<exseis::utils::Trace_value> trc(lines.size() * ns);
+    for (size_t i = 0LU; i < positions.size(); i++) {
+        std::copy_n(
+          found.begin() + i * ns, ns, trc.begin() + positions[i] * ns);
+    }
+
+    return trc;
 }
 
 std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
@@ -62,22 +140,12 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
   const size_t sz,
   const utils::Distributed_vector<Gather_info>& gather)
 {
-    std::vector<exseis::utils::Trace_value> trc(sz * readNs());
-    std::vector<size_t> offsets(sz);
+    std::vector<Gather_info> lines(sz);
     for (size_t i = 0; i < sz; i++) {
-        auto val = gather[offset + i];
-        /* The below can be translated to:
-         * trace number = ilNumber * xlInc + xlNumber
-         * much like indexing in a 2d array.
-         */
-        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count
-                     + ((val.crossline - xl.start) / xl.increment);
+        lines[i] = gather[offset + i];
     }
 
-    readTraceNonContiguous(
-      offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
-
-    return trc;
+    return readLines(lines);
 }
 
 std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
@@ -85,18 +153,12 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
   const size_t* offset,
   const utils::Distributed_vector<Gather_info>& gather)
 {
-    std::vector<exseis::utils::Trace_value> trc(sz * readNs());
-    std::vector<size_t> offsets(sz);
+    std::vector<Gather_info> lines(sz);
     for (size_t i = 0; i < sz; i++) {
-        auto val   = gather[offset[i]];
-        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count
-                     + ((val.crossline - xl.start) / xl.increment);
+        lines[i] = gather[offset[i]];
     }
 
-    readTraceNonContiguous(
-      offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
-
-    return trc;
+    return readLines(lines);
 }
 
 }  // namespace PIOL
-- 
2.43.0


From bc158fff17b9b4d14f8ba9d3da1aa73c5479c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 50/87] fix: keep a text header which was set before adding
 input files

---
 src/Flow/Set.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index a2d8648..2c5e0ff 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -91,7 +91,9 @@ void Set::add(std::unique_ptr<ReadInterface> in)
 
 void Set::add(std::string pattern)
 {
-    outmsg = "ExSeisPIOL: Set layer output\n";
+    if (outmsg.empty()) {
+        outmsg = "ExSeisPIOL: Set layer output\n";
+    }
     glob_t globs;
     int err = glob(pattern.c_str(), GLOB_TILDE | GLOB_MARK, NULL, &globs);
     if (err != 0) {
-- 
2.43.0


From cc3835ed1dfedce9f5d0ecefc2398466d1714d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 51/87] fix: use the last sample of the velocity model below
 its end

---
 src/Flow/Set.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 2c5e0ff..c881610 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -651,11 +651,12 @@ void Set::toAngle(
           const size_t iGSz = in->prm->size();
           out->ns           = in->ns;
           out->inc          = state->oInc;  // 1 degree in radians
-          out->trc.resize(state->oGSz * out->ns);
-          out->prm.reset(new Param(in->prm->r, state->oGSz));
           if (in->prm->size() == 0) {
+              out->prm.reset(new Param(in->prm->r, 0LU));
               return;
           }
+          out->trc.resize(state->oGSz * out->ns);
+          out->prm.reset(new Param(in->prm->r, state->oGSz));
 
           // For each angle in the angle gather
           for (size_t j = 0; j < state->oGSz; j++) {
-- 
2.43.0


From 7e2712bf96bcb7806ff9b4e1a72c808bc6217dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 52/87] fix: no angle traces on processes without a gather

---
 src/Flow/Set.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index c881610..654ab8d 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -487,6 +487,10 @@ std::vector<std::string> Set::calcFunc(
                     break;
                 }
             }
+
+            if (fCurr == fEnd) {
+                return names;
+            }
         }
         else if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
             auto fNext = fCurr;
-- 
2.43.0


From f6039682c873d68b0dacf71e3c29681648b866d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 53/87] fix: keep the gather numbers between consecutive gather
 operations

---
 src/Flow/Set.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 654ab8d..2bbec11 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -158,6 +158,9 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
         case FuncOpt::Gather:
             if ((*fCurr)->opt.check(FuncOpt::Gather)) {
                 auto bOut = std::make_unique<TraceBlock>();
+                bOut->nt   = bIn->nt;
+                bOut->gNum = bIn->gNum;
+                bOut->numG = bIn->numG;
                 dynamic_cast<Op<Mod>*>(fCurr->get())
                   ->func(bIn.get(), bOut.get());
                 bIn = std::move(bOut);
-- 
2.43.0


From b0f0ef020ac085b56ee193c92517675810405384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 54/87] fix: write the result of gather operations to a
 separate file per input file

---
 include/ExSeisDat/Flow/Set.hh |  6 ++-
 src/Flow/Set.cc               | 70 +++++++++++++++++++----------------
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 30e6dcd..3ef5b17 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -105,9 +105,11 @@ class Set {
      *  @param[in] fCurr The iterator for the current function to process.
      *  @param[in] fEnd The iterator which indicates the end of the list has
      *             been reached.
-     *  @return Return a file name if fEnd is reached. Otherwise return "".
+     *  @return Return the names of the files with the result. They are the
+     *          input of the operations after the gather operations, if any.
      */
-    std::string startGather(FuncLst::iterator fCurr, FuncLst::iterator fEnd);
+    std::vector<std::string> startGather(
+      FuncLst::iterator fCurr, FuncLst::iterator fEnd);
 
     /*! Start unwinding the function list for single-trace operations on the
      *  given iterators.
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 2bbec11..b2e0bfa 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -294,7 +294,7 @@ void Set::storeTemp(FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
     }
 }
 
-std::string Set::startGather(
+std::vector<std::string> Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
     // Gathers are located in the files, so each group of traces must be in one
@@ -306,7 +306,17 @@ std::string Set::startGather(
     if (piol->comm->max(stored ? 0LU : 1LU) != 0LU) {
         storeTemp(fCurr, fCurr);
     }
-    std::string gname;
+
+    // The operations after the gather operations
+    auto fNext = fCurr;
+    while (fNext != fEnd && (*fNext)->opt.check(FuncOpt::Gather)) {
+        ++fNext;
+    }
+
+    const std::string prefix =
+      (fNext != fEnd ? outfix + ".temp" + std::to_string(numTemp++) : outfix);
+
+    std::vector<std::string> names;
     for (auto& o : file) {
         // Locate gather boundaries.
         auto gather = getIlXlGathers(piol.get(), o->ifc.get());
@@ -315,14 +325,13 @@ std::string Set::startGather(
         size_t numGather = gdec.local_size;
 
         std::vector<size_t> gNums;
-        for (auto fTemp = fCurr;
-             fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather); fTemp++) {
+        for (size_t i = 0; i < numGather; i++) {
+            gNums.push_back(i * numRank + rank);
+        }
+
+        for (auto fTemp = fCurr; fTemp != fNext; fTemp++) {
             auto* p = dynamic_cast<Op<Mod>*>(fTemp->get());
             assert(p);
-            for (size_t i = 0; i < numGather; i++) {
-                gNums.push_back(i * numRank + rank);
-            }
-
             p->state->makeState(gNums, gather);
         }
 
@@ -332,14 +341,19 @@ std::string Set::startGather(
         auto rule = std::make_shared<Rule>(
           std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl});
 
-        auto fTemp = fCurr;
-        while (++fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather)) {
+        std::string gname = prefix;
+        if (file.size() > 1LU) {
+            gname += std::to_string(o->ifc->readNs()) + "_"
+                     + std::to_string(o->ifc->readInc());
         }
-
-        gname = (fTemp != fEnd ? "gtemp.segy" : outfix + ".segy");
+        gname += ".segy";
+        names.push_back(gname);
 
         // Use inputs as default values. These can be changed later
         std::unique_ptr<WriteInterface> out = makeFile<WriteSEGY>(piol, gname);
+        out->writeNs(o->ifc->readNs());
+        out->writeInc(o->ifc->readInc());
+        out->writeText(outmsg);
 
         size_t wOffset = 0LU;
         size_t iOffset = 0LU;
@@ -401,17 +415,15 @@ std::string Set::startGather(
         }
     }
 
-    while (++fCurr != fEnd && (*fCurr)->opt.check(FuncOpt::Gather)) {
-    }
-
-    if (fCurr != fEnd) {
+    if (fNext != fEnd) {
         drop();
-        add(gname);
-        return "";
-    }
-    else {
-        return gname;
+        for (const std::string& n : names) {
+            // TODO: Open with delete on close?
+            add(makeFile<ReadSEGY>(piol, n));
+        }
     }
+
+    return names;
 }
 
 // calc for subsets only
@@ -474,13 +486,7 @@ std::vector<std::string> Set::calcFunc(
             fCurr = startSubset(fCurr, fEnd);
         }
         else if ((*fCurr)->opt.check(FuncOpt::Gather)) {
-            std::string gname = startGather(fCurr, fEnd);
-
-            // If startGather returned an empty string, then fCurr == fEnd was
-            // reached.
-            if (!gname.empty()) {
-                return std::vector<std::string>{gname};
-            }
+            std::vector<std::string> names = startGather(fCurr, fEnd);
 
             /// @todo Later this will need to be changed when the gather also
             ///       continues with single trace cases
@@ -675,10 +681,10 @@ void Set::toAngle(
                     state->vtrc
                       [in->gNum * state->vNs
                        + std::min(
-                           size_t(
-                             exseis::utils::Floating_point(z * in->inc)
-                             / state->vInc),
-                           state->vNs)];
+                         size_t(
+                           exseis::utils::Floating_point(z * in->inc)
+                           / state->vInc),
+                         state->vNs - 1LU)];
                   exseis::utils::Integer k =
                     llround(
                       vmModel
-- 
2.43.0


From 60ab3b486648edde6ee745f10028b75222e1a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 55/87] fix: do not miss the sample of the velocity model at
 the same depth by rounding

---
 src/Flow/Set.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index b2e0bfa..7c5953a 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -675,16 +675,16 @@ void Set::toAngle(
           for (size_t j = 0; j < state->oGSz; j++) {
               // For each sample (angle + radon)
               for (size_t z = 0; z < in->ns; z++) {
+                  // The increments are not exact, so a sample of the model at
+                  // the same depth must not be missed by a rounding error.
+                  const exseis::utils::Floating_point depth =
+                    (z * in->inc) / state->vInc * (1.0 + 1e-9);
                   // We are using coordinate level accuracy when its not
                   // performance critical.
                   exseis::utils::Floating_point vmModel =
                     state->vtrc
                       [in->gNum * state->vNs
-                       + std::min(
-                         size_t(
-                           exseis::utils::Floating_point(z * in->inc)
-                           / state->vInc),
-                         state->vNs - 1LU)];
+                       + std::min(size_t(depth), state->vNs - 1LU)];
                   exseis::utils::Integer k =
                     llround(
                       vmModel
-- 
2.43.0


From 4c450116dd4c306bab42073a2a6e406d2e621921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 56/87] fix: give the sizes of the 4D binning windows in bytes

---
 util/4dcore.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 290a2b8..5490d0e 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -103,24 +103,29 @@ std::vector<MPI_Win> createCoordsWin(const Coords* crd, const bool ixline)
 
     // Look at MPI_Info
     MPIErr(MPI_Win_create(
-      crd->xSrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[0]));
+      crd->xSrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[0]));
     MPIErr(MPI_Win_create(
-      crd->ySrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[1]));
+      crd->ySrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[1]));
     MPIErr(MPI_Win_create(
-      crd->xRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[2]));
+      crd->xRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[2]));
     MPIErr(MPI_Win_create(
-      crd->yRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[3]));
+      crd->yRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[3]));
     MPIErr(MPI_Win_create(
-      crd->tn, crd->sz, sizeof(size_t), info, MPI_COMM_WORLD, &win[4]));
+      crd->tn, crd->sz * sizeof(size_t), sizeof(size_t), info, MPI_COMM_WORLD,
+      &win[4]));
 
     if (ixline) {
         win.resize(7);
         MPIErr(MPI_Win_create(
-          crd->il, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[5]));
+          crd->il, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[5]));
         MPIErr(MPI_Win_create(
-          crd->xl, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[6]));
+          crd->xl, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[6]));
     }
 
     MPI_Info_free(&info);
-- 
2.43.0


From 035d2f39125e4e57ee77ad51631ce4f7e556fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 57/87] fix: support processes without traces in the 4D binning

---
 util/4dcore.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 5490d0e..e91529c 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -244,6 +244,13 @@ void initUpdate(
   std::vector<size_t>& min,
   std::vector<fourd_t>& minrs)
 {
+    // Without local traces from the second file there is no candidate yet
+    if (crd2->sz == 0LU) {
+        std::fill(
+          minrs.begin(), minrs.end(), std::numeric_limits<fourd_t>::max());
+        return;
+    }
+
     for (size_t i = 0; i < crd1->sz; i++) {
         minrs[i] =
           (!ixline
@@ -457,13 +464,14 @@ void calc4DBin(
     auto szall     = piol->comm->gather(std::vector<size_t>{crd2->sz});
 
     // The File2 min/max from every process
+    const size_t last2 = (crd2->sz != 0LU ? crd2->sz - 1LU : 0LU);
     auto xsmin = piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[0LU]});
-    auto xsmax =
-      piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[crd2->sz - 1LU]});
+    auto xsmax = piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[last2]});
 
     // The File1 local min and local maximum for the particular process
-    auto xslmin = crd1->xSrc[0LU];
-    auto xslmax = crd1->xSrc[crd1->sz - 1LU];
+    const size_t last1 = (crd1->sz != 0LU ? crd1->sz - 1LU : 0LU);
+    auto xslmin        = crd1->xSrc[0LU];
+    auto xslmax        = crd1->xSrc[last1];
 
     // Perform a local initialisation update of min and minrs
     if (opt.ixline) {
@@ -477,7 +485,9 @@ void calc4DBin(
     // communicating with.
     std::vector<size_t> active;
     for (size_t i = 0LU; i < numRank; i++) {
-        if ((xsmin[i] - dsrmax <= xslmax) && (xsmax[i] + dsrmax >= xslmin)) {
+        if (
+          crd1->sz != 0LU && szall[i] != 0LU && (xsmin[i] - dsrmax <= xslmax)
+          && (xsmax[i] + dsrmax >= xslmin)) {
             active.push_back(i);
         }
     }
-- 
2.43.0


From 977c95423baa9c8f30a964f1ee5e1afde05dd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 58/87] fix: do not leave out the last traces of each process
 in the 4D binning

---
 util/4dcore.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index e91529c..96ce3b7 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -298,13 +298,19 @@ size_t update(
     for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
          rstart++) {
     }
-    for (; rend >= rstart && crd2->xSrc[rend] > crd1->xSrc[lend - 1] + dsrmax;
+    for (;
+         rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
          rend--) {
     }
+    // None of the file2 traces can match
+    if (rstart == rend) {
+        return 0LU;
+    }
     for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
          lstart++) {
     }
-    for (; lend >= lstart && crd1->xSrc[lend] > crd2->xSrc[rend - 1] + dsrmax;
+    for (;
+         lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
          lend--) {
     }
 
-- 
2.43.0


From dac068af6994173c4280d212c1a47e7fe9f9f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 59/87] fix: balance the number of coordinate reads of the 4D
 binning between processes

---
 util/4dio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/4dio.cc b/util/4dio.cc
index 75e4610..e83bf65 100644
--- a/util/4dio.cc
+++ b/util/4dio.cc
@@ -118,6 +118,8 @@ std::unique_ptr<Coords> getCoords(
 
     max = memlim
           / (crule->paramMem() + SEGY_utils::getMDSz() + 2LU * sizeof(size_t));
+    extra = biggest / max + (biggest % max > 0 ? 1 : 0)
+            - (lnt / max + (lnt % max > 0 ? 1 : 0));
 
     {
         Param prm2(crule, std::min(lnt, max));
-- 
2.43.0


From c9756a86c0c0f8b67c8ac47bd8cd5275bcb8a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 60/87] Let the model checker set the memory limit of the 4D
 binning

---
 util/4dio.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/util/4dio.cc b/util/4dio.cc
index e83bf65..2ad1b93 100644
--- a/util/4dio.cc
+++ b/util/4dio.cc
@@ -23,6 +23,11 @@
 
 using namespace exseis::utils;
 
+#ifdef EXSEISDAT_MODEL_CHECK
+/// The memory limit of a block of traces, set by the model checker.
+extern size_t exseisdat_model_check_memlim;
+#endif  // EXSEISDAT_MODEL_CHECK
+
 namespace exseis {
 namespace PIOL {
 namespace FOURD {
@@ -55,6 +60,9 @@ std::unique_ptr<Coords> getCoords(
     size_t biggest = piol->comm->max(lnt);
     size_t memlim  = 2LU * 1024LU * 1024LU * 1024LU
                     - 4LU * biggest * sizeof(exseis::utils::Floating_point);
+#ifdef EXSEISDAT_MODEL_CHECK
+    memlim = exseisdat_model_check_memlim / 4LU;
+#endif  // EXSEISDAT_MODEL_CHECK
     size_t max = memlim / (rule->paramMem() + SEGY_utils::getMDSz());
 
     // Collective I/O requries an equal number of MPI-IO calls on every process
@@ -216,6 +224,9 @@ void outputNonMono(
     }
 
     size_t memlim = 1024LU * 1024LU * 1024LU;
+#ifdef EXSEISDAT_MODEL_CHECK
+    memlim = exseisdat_model_check_memlim;
+#endif  // EXSEISDAT_MODEL_CHECK
     size_t max =
       memlim / (4LU * SEGY_utils::getDOSz(ns) + 4LU * rule->extent());
     size_t extra = biggest / max + (biggest % max > 0 ? 1 : 0)
-- 
2.43.0


From ff8a8f1690dd1cef0a0f9d7a0a525fefb6d45d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 61/87] fix: find reverse-boat partners on all processes in the
 4D binning

---
 util/4dcore.cc | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 96ce3b7..91d4003 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -293,25 +293,32 @@ size_t update(
     size_t rend   = crd2->sz;
 
     // Ignore all file2 traces that can not possibly match our criteria within
-    // the min/max
-    // of src x.
-    for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
-         rstart++) {
+    // the min/max of src x. In the reverse-boat case, the source of file1 is
+    // compared to the receiver of file2.
+    const fourd_t xlmin   = crd1->xSrc[lstart] - dsrmax;
+    const fourd_t xlmax   = crd1->xSrc[lend - 1] + dsrmax;
+    const auto impossible = [crd2, xlmin, xlmax](const size_t j) -> bool {
+        return (crd2->xSrc[j] < xlmin || crd2->xSrc[j] > xlmax)
+               && (crd2->xRcv[j] < xlmin || crd2->xRcv[j] > xlmax);
+    };
+    for (; rstart < rend && impossible(rstart); rstart++) {
     }
-    for (;
-         rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
-         rend--) {
+    for (; rend > rstart && impossible(rend - 1); rend--) {
     }
     // None of the file2 traces can match
     if (rstart == rend) {
         return 0LU;
     }
-    for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
-         lstart++) {
+
+    fourd_t xrmin = crd2->xSrc[rstart];
+    fourd_t xrmax = crd2->xSrc[rend - 1];
+    for (size_t j = rstart; j < rend; j++) {
+        xrmin = std::min(xrmin, crd2->xRcv[j]);
+        xrmax = std::max(xrmax, crd2->xRcv[j]);
+    }
+    for (; lstart < lend && crd1->xSrc[lstart] < xrmin - dsrmax; lstart++) {
     }
-    for (;
-         lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
-         lend--) {
+    for (; lend > lstart && crd1->xSrc[lend - 1] > xrmax + dsrmax; lend--) {
     }
 
     // TODO: Check if theoretical speedup is realisable for this alignment
@@ -469,10 +476,17 @@ void calc4DBin(
     size_t numRank = piol->comm->getNumRank();
     auto szall     = piol->comm->gather(std::vector<size_t>{crd2->sz});
 
-    // The File2 min/max from every process
+    // The File2 min/max from every process. The receivers take the place of the
+    // sources in the reverse-boat case.
     const size_t last2 = (crd2->sz != 0LU ? crd2->sz - 1LU : 0LU);
-    auto xsmin = piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[0LU]});
-    auto xsmax = piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[last2]});
+    fourd_t xsrmin     = crd2->xSrc[0LU];
+    fourd_t xsrmax     = crd2->xSrc[last2];
+    for (size_t i = 0LU; i < crd2->sz; i++) {
+        xsrmin = std::min(xsrmin, crd2->xRcv[i]);
+        xsrmax = std::max(xsrmax, crd2->xRcv[i]);
+    }
+    auto xsmin = piol->comm->gather(std::vector<fourd_t>{xsrmin});
+    auto xsmax = piol->comm->gather(std::vector<fourd_t>{xsrmax});
 
     // The File1 local min and local maximum for the particular process
     const size_t last1 = (crd1->sz != 0LU ? crd1->sz - 1LU : 0LU);
-- 
2.43.0


From 50940d8e0e5d571cecf77728007f79fa64e7d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 62/87] Let the model checker set the block size of makerep

---
 util/makerep.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/util/makerep.cc b/util/makerep.cc
index ec43e22..06f59e3 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -13,6 +13,11 @@
 using namespace exseis::utils;
 using namespace exseis::PIOL;
 
+#ifdef EXSEISDAT_MODEL_CHECK
+/// The block size of the copies, set by the model checker.
+extern size_t exseisdat_model_check_block;
+#endif  // EXSEISDAT_MODEL_CHECK
+
 void printmsg(std::string msg, size_t sz, size_t rank, size_t rankn)
 {
     std::cout << msg << sz << " " << rank << " " << rankn << std::endl;
@@ -177,9 +182,17 @@ void mpiMakeSEGYCopy(
     const size_t fsz = in->getFileSz();
     piol.isErr();
 
+#ifdef EXSEISDAT_MODEL_CHECK
+    const size_t bsz = exseisdat_model_check_block;
+#else
     const size_t bsz  = 2097152LU;
+#endif  // EXSEISDAT_MODEL_CHECK
     const size_t hosz = SEGY_utils::getHOSz();
+#ifdef EXSEISDAT_MODEL_CHECK
+    size_t memlim = (bsz < 65536U ? 2U : 512U) * bsz;
+#else
     size_t memlim     = 512U * bsz;
+#endif  // EXSEISDAT_MODEL_CHECK
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
@@ -220,9 +233,17 @@ void mpiMakeSEGYCopyNaive(
 {
     size_t numRank    = piol.getNumRank();
     const size_t fsz  = in->getFileSz();
+#ifdef EXSEISDAT_MODEL_CHECK
+    const size_t bsz = exseisdat_model_check_block;
+#else
     const size_t bsz  = 2097152LU;
+#endif  // EXSEISDAT_MODEL_CHECK
     const size_t hosz = SEGY_utils::getHOSz();
+#ifdef EXSEISDAT_MODEL_CHECK
+    size_t memlim = (bsz < 65536U ? 2U : 512U) * bsz;
+#else
     size_t memlim     = 512U * bsz;
+#endif  // EXSEISDAT_MODEL_CHECK
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
-- 
2.43.0


From 0ff03c2e159138dca1a60f64728d420691ccb634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 63/87] fix: divide few or partial blocks correctly between
 processes in makerep

---
 util/sglobal.cc | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/util/sglobal.cc b/util/sglobal.cc
index 07a1b69..89240f3 100644
--- a/util/sglobal.cc
+++ b/util/sglobal.cc
@@ -34,42 +34,25 @@ std::vector<size_t> lobdecompose(
 exseis::utils::Contiguous_decomposition blockDecomp(
   size_t sz, size_t bsz, size_t numRank, size_t rank, size_t off)
 {
-    // Size of the first block
-    size_t rstart = bsz - off % bsz;
-    // Size of the last block
-    size_t rend = (off + sz) % bsz;
-    // The total number of blocks, +2 accounts for start+end
-    size_t bcnt = (sz - rstart - rend) / bsz + 2;
-
-    // Make sure there isn't any leftover, this shouldn't be possible
-    assert(!((sz - rstart - rend) % bsz));
+    // The blocks which hold the data, the first and the last can be partial
+    const size_t first = off / bsz;
+    const size_t end   = (off + sz + bsz - 1U) / bsz;
 
     // Do a regular decomposition of the blocks
-    auto newdec = exseis::utils::block_decomposition(bcnt, numRank, rank);
+    auto newdec =
+      exseis::utils::block_decomposition(end - first, numRank, rank);
 
-    newdec.global_offset *= bsz;
-    newdec.local_size *= bsz;
     if (newdec.local_size == 0) {
         return {sz, 0};
     }
 
     // Now we compensate for the fact that the start and end block sizes can be
     // different.
-    if (rank == 0) {
-        // If the rank is zero, we shrink the first block by the leftover
-        newdec.local_size -= bsz - rstart;
-    }
-    else {
-        // The subtraction above means every block is shifted
-        newdec.global_offset -= bsz - rstart;
-    }
+    const size_t start = (first + newdec.global_offset) * bsz;
+    const size_t stop  = start + newdec.local_size * bsz;
 
-    // The last rank with work must remove the leftover of its last block
-    if (
-      newdec.local_size != 0
-      && ((newdec.global_offset + newdec.local_size) > sz)) {
-        newdec.local_size -= bsz - rend;
-    }
+    newdec.global_offset = std::max(start, off) - off;
+    newdec.local_size = std::min(stop, off + sz) - off - newdec.global_offset;
 
     return newdec;
 }
-- 
2.43.0


From ee88d40a38461df01b306897b1196b57aed5b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 64/87] fix: exchange the copied blocks between all processes
 in makerep

---
 util/makerep.cc | 110 +++++++++++++++++++-----------------------------
 1 file changed, 44 insertions(+), 66 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index 06f59e3..7ed7921 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -5,6 +5,7 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/mpi/MPI_type.hh"
 
+#include <algorithm>
 #include <assert.h>
 #include <iostream>
 #include <unistd.h>
@@ -50,71 +51,53 @@ void smallCopy(
     }
 }
 
+/*! Redistribute data from one decomposition to another. Each process sends
+ *  the parts of its old share to the processes whose new share they are in.
+ *  @param[in] piol The piol object
+ *  @param[in] old The old share of the local process
+ *  @param[in] newd The new share of the local process
+ *  @param[in,out] vec The data of the share of the local process
+ */
 void distribToDistrib(
-  size_t rank,
+  const ExSeis& piol,
   exseis::utils::Contiguous_decomposition old,
   exseis::utils::Contiguous_decomposition newd,
   std::vector<unsigned char>* vec)
 {
-    std::vector<MPI_Request> msg;
-
-    // if the old offset is less than the new offset
-    // Then the local process must give the data over to the
-    //-1 lower ranked process
-
-    // Cases 2, 3, 8
-    if (old.global_offset > newd.global_offset) {
-        size_t incStart = old.global_offset - newd.global_offset;
-        vec->resize(vec->size() + incStart);
-        // Making space for the move
-        std::move_backward(vec->begin(), vec->end() - incStart, vec->end());
-    }
-
-    if (
-      (old.global_offset + old.local_size)
-      < (newd.global_offset + newd.local_size)) {
+    auto oldOffset = piol.comm->gather(std::vector<size_t>{old.global_offset});
+    auto oldSize   = piol.comm->gather(std::vector<size_t>{old.local_size});
+    auto newOffset = piol.comm->gather(std::vector<size_t>{newd.global_offset});
+    auto newSize   = piol.comm->gather(std::vector<size_t>{newd.local_size});
 
-        vec->resize(
-          vec->size() + newd.global_offset + newd.local_size
-          - (old.global_offset + old.local_size));
-    }
+    std::vector<unsigned char> data(newd.local_size);
+    std::vector<MPI_Request> msg;
 
-    if (old.global_offset < newd.global_offset) {
-        size_t sz = newd.global_offset - old.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          1, MPI_COMM_WORLD, &msg.back());
-    }
-    else if (old.global_offset > newd.global_offset) {
-        size_t sz = old.global_offset - newd.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          0, MPI_COMM_WORLD, &msg.back());
+    for (size_t i = 0; i < oldSize.size(); i++) {
+        // The part of the new local share which process i holds
+        size_t start = std::max(oldOffset[i], newd.global_offset);
+        size_t end   = std::min(
+          oldOffset[i] + oldSize[i], newd.global_offset + newd.local_size);
+        if (start < end) {
+            msg.push_back(MPI_REQUEST_NULL);
+            MPI_Irecv(
+              data.data() + (start - newd.global_offset), end - start,
+              exseis::utils::MPI_type<unsigned char>(), i, 0, MPI_COMM_WORLD,
+              &msg.back());
+        }
     }
 
-    if (
-      old.global_offset + old.local_size
-      > newd.global_offset + newd.local_size) {
-        size_t sz = old.global_offset + old.local_size
-                    - (newd.global_offset + newd.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 0, MPI_COMM_WORLD,
-          &msg.back());
-    }
-    else if (
-      old.global_offset + old.local_size
-      < newd.global_offset + newd.local_size) {
-        size_t sz = (newd.global_offset + newd.local_size)
-                    - (old.global_offset + old.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 1, MPI_COMM_WORLD,
-          &msg.back());
+    for (size_t i = 0; i < newSize.size(); i++) {
+        // The part of the old local share which process i needs
+        size_t start = std::max(newOffset[i], old.global_offset);
+        size_t end   = std::min(
+          newOffset[i] + newSize[i], old.global_offset + old.local_size);
+        if (start < end) {
+            msg.push_back(MPI_REQUEST_NULL);
+            MPI_Isend(
+              vec->data() + (start - old.global_offset), end - start,
+              exseis::utils::MPI_type<unsigned char>(), i, 0, MPI_COMM_WORLD,
+              &msg.back());
+        }
     }
 
     MPI_Status stat;
@@ -129,13 +112,7 @@ void distribToDistrib(
         }
     }
 
-    // Cases 1, 4, 7
-    if (old.global_offset < newd.global_offset) {
-        size_t decStart = newd.global_offset - old.global_offset;
-        std::move(vec->begin() + decStart, vec->end(), vec->begin());
-    }
-
-    vec->resize(newd.local_size);
+    *vec = std::move(data);
 }
 
 // Write an arbitrary parallelised block sz to an arbitrary offset with the
@@ -143,6 +120,7 @@ void distribToDistrib(
 // writeArb(out, hosz + decSz*i + (fsz - hosz) * (j+1), decSz, &out)
 // off is the global offset
 Contiguous_decomposition writeArb(
+  const ExSeis& piol,
   size_t rank,
   size_t numRank,
   DataInterface* out,
@@ -157,7 +135,7 @@ Contiguous_decomposition writeArb(
     // If there is one rank this is pointless
     if (numRank != 1) {
         // Reorder operations along new boundaries
-        distribToDistrib(rank, dec, newdec, vec);
+        distribToDistrib(piol, dec, newdec, vec);
     }
 
     out->write(off + newdec.global_offset, newdec.local_size, vec->data());
@@ -221,8 +199,8 @@ void mpiMakeSEGYCopy(
         size_t numRank = piol.getNumRank();
         for (size_t j = 1; j < repRate; j++) {
             dec = writeArb(
-              rank, numRank, out, hosz + (fsz - hosz) * j + i, bsz, dec, rblock,
-              &buf);
+              piol, rank, numRank, out, hosz + (fsz - hosz) * j + i, bsz, dec,
+              rblock, &buf);
         }
     }
 }
-- 
2.43.0


From a2ea3d30dfe11f08d9d8ded3048ba03e727d76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 65/87] fix: leave the file header out of the offset of later
 chunks in makerep

---
 util/makerep.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index 7ed7921..d222740 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -197,9 +197,11 @@ void mpiMakeSEGYCopy(
         }
         size_t rank    = piol.getRank();
         size_t numRank = piol.getNumRank();
+        // The header object is not part of the payload
+        size_t off = (i == 0 ? 0 : i - hosz);
         for (size_t j = 1; j < repRate; j++) {
             dec = writeArb(
-              piol, rank, numRank, out, hosz + (fsz - hosz) * j + i, bsz, dec,
+              piol, rank, numRank, out, hosz + (fsz - hosz) * j + off, bsz, dec,
               rblock, &buf);
         }
     }
@@ -246,9 +248,11 @@ void mpiMakeSEGYCopyNaive(
                 dec.global_offset -= hosz;
             }
         }
+        // The header object is not part of the payload
+        size_t off = (i == 0 ? 0 : i - hosz);
         for (size_t j = 1; j < repRate; j++) {
             out->write(
-              hosz + (fsz - hosz) * j + i + dec.global_offset, dec.local_size,
+              hosz + (fsz - hosz) * j + off + dec.global_offset, dec.local_size,
               buf.data());
         }
     }
-- 
2.43.0


From 25c28a10bf287891fffc725f8e98c757407e636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 66/87] fix: make the same collective calls on processes
 without traces in filemake

---
 util/filemake.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index 2e0dbdb..d17a890 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -52,7 +52,7 @@ void writeContig(
         piol.isErr();
     }
     for (size_t j = 0; j < extra; j++) {
-        file->writeTrace(0U, size_t(0), nullptr, PIOL_PARAM_NULL);
+        file->writeTrace(0U, size_t(0), nullptr, nullptr);
         piol.isErr();
     }
 }
@@ -121,7 +121,7 @@ void writeRandom(
     }
 
     for (size_t j = 0; j < extra; j++) {
-        file->writeTraceNonContiguous(0U, nullptr, nullptr, PIOL_PARAM_NULL);
+        file->writeTraceNonContiguous(0U, nullptr, nullptr, nullptr);
         piol.isErr();
     }
 }
-- 
2.43.0


From de3b821e4ef447b09e01d0a2bdfde9b0607bf66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 67/87] fix: write the samples of each trace with random
 offsets in filemake

---
 util/filemake.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index d17a890..43f8c7e 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -114,7 +114,8 @@ void writeRandom(
         }
         for (size_t j = 0; j < trc.size(); j++) {
             trc[j] =
-              fhalf - std::abs(-fhalf + float((offset[i]) * ns + j)) - off;
+              fhalf - std::abs(-fhalf + float(offset[i + j / ns] * ns + j % ns))
+              - off;
         }
         file->writeTraceNonContiguous(rblock, &offset[i], trc.data(), &prm);
         piol.isErr();
-- 
2.43.0


From e93ead9042d0010ac809ba78cdec8009e7cccedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 68/87] fix: shares of an uneven decomposition which are too
 many or negative

---
 util/sglobal.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/sglobal.cc b/util/sglobal.cc
index 89240f3..c43edfa 100644
--- a/util/sglobal.cc
+++ b/util/sglobal.cc
@@ -8,9 +8,9 @@
 std::vector<size_t> lobdecompose(
   exseis::PIOL::ExSeisPIOL* piol, size_t sz, size_t numRank, size_t rank)
 {
-    double total = (numRank * (numRank + 1U)) / 2U;
+    size_t total = (numRank * (numRank + 1U)) / 2U;
     rank++;
-    size_t lnt = std::lround(double(sz * rank) / total);
+    size_t lnt = (sz * rank) / total;
 
     auto rem = sz - piol->comm->sum(lnt);
     if (rank == 1) {
@@ -19,14 +19,14 @@ std::vector<size_t> lobdecompose(
 
     auto nts       = piol->comm->gather<size_t>(lnt);
     size_t biggest = *std::max_element(nts.begin(), nts.end());
-    assert(sz == std::accumulate(nts.begin(), nts.end(), 0U));
+    assert(sz == std::accumulate(nts.begin(), nts.end(), size_t(0)));
 
     if (rank == 1) {
         return std::vector<size_t>{0U, lnt, biggest};
     }
     else {
         return std::vector<size_t>{
-          std::accumulate(nts.begin(), nts.begin() + rank - 1U, 0U), lnt,
+          std::accumulate(nts.begin(), nts.begin() + rank - 1U, size_t(0)), lnt,
           biggest};
     }
 }
-- 
2.43.0


From 443ac6759631d0a1bf74aaf9de2ded19bdf330ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 69/87] fix: check the order between the shares of the
 processes in verifysort

---
 util/verifysort.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/verifysort.cc b/util/verifysort.cc
index 8f980cf..816ba57 100644
--- a/util/verifysort.cc
+++ b/util/verifysort.cc
@@ -48,6 +48,13 @@ int main(int argc, char** argv)
     auto dec = block_decomposition(
       src.readNt(), piol->comm->getNumRank(), piol->comm->getRank());
 
+    // Include the trace before the share of this process so that the order
+    // between the shares is checked as well.
+    if (dec.local_size != 0 && dec.global_offset != 0) {
+        dec.global_offset--;
+        dec.local_size++;
+    }
+
     if (checkOrder(src, dec, type)) {
         std::cout << "Success\n";
     }
-- 
2.43.0


From 99e3ae18a50c3cade373cb84c78cd68d13f9e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 70/87] fix: number the offset of a process within its
 communicator

---
 src/CommunicatorMPI.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 6427fd7..0be63b6 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -226,8 +226,7 @@ size_t CommunicatorMPI::offset(size_t val)
 {
     size_t offset = 0LU;
     MPI_Exscan(
-      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM,
-      MPI_COMM_WORLD);
+      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);
     return (rank == 0 ? 0LU : offset);
 }
 
-- 
2.43.0


From f06d7e66d50e99c3bea15e00e9df6baaea7d604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 71/87] fix: sort over the processes of the instance only

---
 src/sort.cc | 52 ++++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index e686403..31ea1ff 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -554,7 +554,7 @@ void sendRight(
     // TODO: Move to the communication layer?
     if (partners.left != MPI_PROC_NULL) {
         int err = MPI_Irecv(
-          dat.data(), cnt, MPI_CHAR, partners.left, 1, MPI_COMM_WORLD,
+          dat.data(), cnt, MPI_CHAR, partners.left, 1, piol->comm->getComm(),
           &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
@@ -569,7 +569,7 @@ void sendRight(
     if (partners.right != MPI_PROC_NULL) {
         int err = MPI_Isend(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, partners.right, 1,
-          MPI_COMM_WORLD, &rsnd[0]);
+          piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -606,7 +606,7 @@ void sendLeft(
 
     if (partners.left != MPI_PROC_NULL) {
         int err = MPI_Isend(
-          dat.data(), cnt, MPI_CHAR, partners.left, 0, MPI_COMM_WORLD,
+          dat.data(), cnt, MPI_CHAR, partners.left, 0, piol->comm->getComm(),
           &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
@@ -621,7 +621,7 @@ void sendLeft(
     if (partners.right != MPI_PROC_NULL) {
         int err = MPI_Irecv(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, partners.right, 0,
-          MPI_COMM_WORLD, &rrcv[0]);
+          piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -707,7 +707,7 @@ void sort(
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -809,23 +809,23 @@ void sendRight(
         log_on_error(
           MPI_Irecv, "Sort right exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, partners.left, 0, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, partners.left, 0, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort right exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, partners.left, 0, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, partners.left, 0, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort right short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, partners.left,
-          0, MPI_COMM_WORLD, &rrcv[2]);
+          0, piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR,
-          partners.left, 0, MPI_COMM_WORLD, &rrcv[3]);
+          partners.left, 0, piol->comm->getComm(), &rrcv[3]);
 
         log_on_error(MPI_Irecv, "Sort right raw header MPI_Irecv")(
           rprm.c.data(), rprm.c.size(), MPI_CHAR, partners.left, 0,
-          MPI_COMM_WORLD, &rrcv[4]);
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     if (partners.right != MPI_PROC_NULL) {
@@ -838,23 +838,23 @@ void sendRight(
         log_on_error(
           MPI_Isend, "Sort right exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, partners.right, 0, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, partners.right, 0, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort right exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, partners.right, 0, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, partners.right, 0, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort right short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR,
-          partners.right, 0, MPI_COMM_WORLD, &rsnd[2]);
+          partners.right, 0, piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR,
-          partners.right, 0, MPI_COMM_WORLD, &rsnd[3]);
+          partners.right, 0, piol->comm->getComm(), &rsnd[3]);
 
         log_on_error(MPI_Isend, "Sort right raw header MPI_Isend")(
           sprm.c.data(), sprm.c.size(), MPI_CHAR, partners.right, 0,
-          MPI_COMM_WORLD, &rsnd[4]);
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     Wait(piol, partners, rsnd, rrcv);
@@ -906,46 +906,46 @@ void sendLeft(
         log_on_error(
           MPI_Isend, "Sort left exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, partners.left, 1, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, partners.left, 1, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort left exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, partners.left, 1, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, partners.left, 1, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort left short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, partners.left,
-          1, MPI_COMM_WORLD, &rsnd[2]);
+          1, piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR,
-          partners.left, 1, MPI_COMM_WORLD, &rsnd[3]);
+          partners.left, 1, piol->comm->getComm(), &rsnd[3]);
 
         log_on_error(MPI_Isend, "Sort left raw header MPI_Isend")(
           sprm.c.data(), sprm.c.size(), MPI_CHAR, partners.left, 1,
-          MPI_COMM_WORLD, &rsnd[4]);
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     if (partners.right != MPI_PROC_NULL) {
         log_on_error(
           MPI_Irecv, "Sort left exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, partners.right, 1, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, partners.right, 1, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort left exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, partners.right, 1, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, partners.right, 1, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort left short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR,
-          partners.right, 1, MPI_COMM_WORLD, &rrcv[2]);
+          partners.right, 1, piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR,
-          partners.right, 1, MPI_COMM_WORLD, &rrcv[3]);
+          partners.right, 1, piol->comm->getComm(), &rrcv[3]);
 
         log_on_error(MPI_Irecv, "Sort left raw header MPI_Irecv")(
           rprm.c.data(), rprm.c.size(), MPI_CHAR, partners.right, 1,
-          MPI_COMM_WORLD, &rrcv[4]);
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     Wait(piol, partners, rrcv, rsnd);
@@ -1048,7 +1048,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
-- 
2.43.0


From 266e7e12efe5802596f3faf7d333c5281af507f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 72/87] fix: open files over the processes of the instance by
 default

---
 include/ExSeisDat/PIOL/DataMPIIO.hh | 3 ++-
 src/DataMPIIO.cc                    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ExSeisDat/PIOL/DataMPIIO.hh b/include/ExSeisDat/PIOL/DataMPIIO.hh
index 0c3710b..81777d2 100644
--- a/include/ExSeisDat/PIOL/DataMPIIO.hh
+++ b/include/ExSeisDat/PIOL/DataMPIIO.hh
@@ -58,7 +58,8 @@ class DataMPIIO : public DataInterface {
         /// operation
         size_t maxSize;
 
-        /// The MPI communicator to use for file access
+        /// The MPI communicator to use for file access. If it is
+        /// MPI_COMM_NULL, the communicator of the PIOL object is used.
         MPI_Comm fcomm;
 
         /// The constructor to set default options
diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 2b13e42..34efdb4 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -192,7 +192,7 @@ DataMPIIO::Opt::Opt(void)
 #else
     coll = false;
 #endif
-    fcomm = MPI_COMM_WORLD;
+    fcomm = MPI_COMM_NULL;
     info  = MPI_INFO_NULL;
     MPI_Info_create(&info);
     //    MPI_Info_set(info, "access_style", "read_once");
@@ -311,7 +311,8 @@ void DataMPIIO::Init(const DataMPIIO::Opt& opt, FileMode mode)
           "MPI_CHAR extent is bigger than one.", PIOL_VERBOSITY_NONE);
     }
 
-    fcomm = opt.fcomm;
+    fcomm =
+      (opt.fcomm != MPI_COMM_NULL ? opt.fcomm : piol_->comm->getComm());
 
     int flags = getMPIMode(mode);
 
-- 
2.43.0


From 4bff7f7ac74ac4d56d0d53a93869c1d0e15df86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 73/87] fix: leave out the velocity model without samples in
 toAngle

---
 src/Flow/Set.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 7c5953a..c736bb3 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -673,8 +673,9 @@ void Set::toAngle(
 
           // For each angle in the angle gather
           for (size_t j = 0; j < state->oGSz; j++) {
-              // For each sample (angle + radon)
-              for (size_t z = 0; z < in->ns; z++) {
+              // For each sample (angle + radon). A velocity model which could
+              // not be read has no samples.
+              for (size_t z = 0; z < in->ns && state->vNs > 0LU; z++) {
                   // The increments are not exact, so a sample of the model at
                   // the same depth must not be missed by a rounding error.
                   const exseis::utils::Floating_point depth =
-- 
2.43.0


From 70c88754c0b59293cde2433dd9cffda070dbd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:07 +0000
Subject: [PATCH 74/87] fix: pair with the first of equally close traces in the
 4D binning

The partner of a trace depended on the division of the surveys among the
processes when several traces of the second survey were equally close.
---
 util/4dcore.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 91d4003..af55e13 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -366,8 +366,9 @@ size_t update(
                        && crd1->xl[i] == crd2->xl[j]) ?
                  dsr(xs1, ys1, xr1, yr1, xs2, ys2, xr2, yr2) :
                  std::numeric_limits<fourd_t>::max());
-            // Update min if applicable
-            lm = (dval < lmrs ? tn[j] : lm);
+            // Update min if applicable. The first of several equally close
+            // traces is taken, whichever process has it.
+            lm = (dval < lmrs || (dval == lmrs && tn[j] < lm) ? tn[j] : lm);
             // Update minrs if applicable
             lmrs = std::min(dval, lmrs);
         }
-- 
2.43.0


From 3ef8df1b708f2dfe0dc780945b13846ebf90df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:15 +0000
Subject: [PATCH 75/87] fix: print signed line numbers in traceanalysis

---
 util/traceanalysis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/traceanalysis.cc b/util/traceanalysis.cc
index 777e69c..82becb0 100644
--- a/util/traceanalysis.cc
+++ b/util/traceanalysis.cc
@@ -79,10 +79,12 @@ int main(int argc, char** argv)
                   << std::endl;
 
         std::cout << "il "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_il, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_il, &prm)
                   << std::endl;
         std::cout << "xl "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_xl, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_xl, &prm)
                   << std::endl;
     }
     return 0;
-- 
2.43.0


From 9826f2417d2eca744047047c5d15ba7c589cd113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:35 +0000
Subject: [PATCH 76/87] fix: print coordinates in full in traceanalysis

---
 util/traceanalysis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/traceanalysis.cc b/util/traceanalysis.cc
index 82becb0..66897f0 100644
--- a/util/traceanalysis.cc
+++ b/util/traceanalysis.cc
@@ -11,6 +11,7 @@
 #include "ExSeisDat/PIOL/param_utils.hh"
 
 #include <iostream>
+#include <limits>
 #include <unistd.h>
 
 using namespace exseis::PIOL;
@@ -53,6 +54,8 @@ int main(int argc, char** argv)
     file->readParam(tn, 1LU, &prm);
 
     if (piol->getRank() == 0) {
+        std::cout.precision(
+          std::numeric_limits<exseis::utils::Floating_point>::digits10);
         std::cout << "xSrc "
                   << param_utils::getPrm<exseis::utils::Floating_point>(
                        0LU, PIOL_META_xSrc, &prm)
-- 
2.43.0


From 4090ebfa50d85c6c45c08e62bbe3bf15ab6bdfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:35 +0000
Subject: [PATCH 77/87] fix: write negative coordinates and leading zeros of
 fractions in segy2kml

---
 util/segy2kml.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 29f3e5f..3ffcfd6 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -6,7 +6,9 @@
 
 #include <algorithm>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <sstream>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -44,9 +46,9 @@ void initKML(std::ofstream& file, std::string oname, std::string folder)
  */
 std::string highPrecStr(exseis::utils::Floating_point coord)
 {
-    return std::to_string(static_cast<long long>(std::floor(coord))) + "."
-           + std::to_string(static_cast<long long>(
-               std::floor((coord - std::floor(coord)) * 10000000000)));
+    std::ostringstream str;
+    str << std::fixed << std::setprecision(10) << coord;
+    return str.str();
 }
 
 /*! Add a line containing coordinates data to the KML file.
-- 
2.43.0


From 74779c0f4b22df73fac95030ad5b367c8fd45799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:35 +0000
Subject: [PATCH 78/87] fix: use the fractions of the footprint latitude series
 in segy2kml

---
 util/segy2kml.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 3ffcfd6..84dd974 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -120,11 +120,11 @@ void utm2LatLong(
             - 5 * std::pow(E, 6U) / 256));
     exseis::utils::Floating_point phi =
       mu + (3 * ei / 2 - 27 * std::pow(ei, 3) / 32) * std::sin(2 * mu)
-      + (21 / 16 * std::pow(ei, 2U) - 55 / 32 * std::pow(ei, 4U))
+      + (21.0 / 16 * std::pow(ei, 2U) - 55.0 / 32 * std::pow(ei, 4U))
           * std::sin(4 * mu)
-      + (151 / 96 * std::pow(ei, 3U) - 417 / 128 * std::pow(ei, 5U))
+      + (151.0 / 96 * std::pow(ei, 3U) - 417.0 / 128 * std::pow(ei, 5U))
           * std::sin(6 * mu)
-      + (1097 / 512 * std::pow(ei, 4U)) * std::sin(8 * mu);
+      + (1097.0 / 512 * std::pow(ei, 4U)) * std::sin(8 * mu);
     exseis::utils::Floating_point c =
       (E * E / (1 - E * E)) * std::pow(std::cos(phi), 2);
     exseis::utils::Floating_point d =
-- 
2.43.0


From 45942a026721b1eeaa523b15dd8bceaeac54daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:35 +0000
Subject: [PATCH 79/87] fix: remove the false northing of the southern
 hemisphere in segy2kml

---
 util/segy2kml.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 84dd974..292ab92 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -105,6 +105,11 @@ void utm2LatLong(
       (std::toupper(utmZone.back()) == 'N' ? 1 : -1);
     exseis::utils::Floating_point numZone = std::stof(utmZone);
 
+    // Northings of the southern hemisphere have a false origin of 10000 km
+    if (hemi < 0) {
+        northing = 10000000 - northing;
+    }
+
     exseis::utils::Floating_point const eqRad  = 6378137;
     exseis::utils::Floating_point const polRad = 6356752;
     exseis::utils::Floating_point const k0     = 0.9996;
-- 
2.43.0


From ab1c2a672d495f15e1c70efb0222c1d581fa37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:35 +0000
Subject: [PATCH 80/87] fix: report invalid coordinates only if they can not be
 lat/long in segy2kml

---
 util/segy2kml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 292ab92..f7a2085 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -294,7 +294,7 @@ int main(int argc, char** argv)
               minmax[1].val, minmax[3].val, utmZone, minmax[1].val,
               minmax[3].val);
         }
-        else if (utmZone.empty()) {
+        else if (minmax[0].val > 180) {
             std::cerr << "\nError: Invalid coordinates found in file.\n";
             std::cerr << "       Expected lat/long but values must be UTM.\n";
             std::cerr << "       Use the -z option to specify the UTM zone.\n";
-- 
2.43.0


From 2c6609e4dc0eb9254cae4175af59c0c33a2dcd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 81/87] fix: use the sixth order term of the latitude series in
 segy2kml

---
 util/segy2kml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index f7a2085..82875ec 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -142,8 +142,8 @@ void utm2LatLong(
                 + ((5 + 3 * std::pow(std::tan(phi), 2) + 10 * c - 4 * c * c
                     - 9 * (E * E / (1 - E * E)))
                    * std::pow(d, 4) / 24)
-                + ((61 + 90 * std::pow(std::tan(phi), 2)
-                    + 298 * std::pow(std::tan(phi), 4)
+                + ((61 + 90 * std::pow(std::tan(phi), 2) + 298 * c
+                    + 45 * std::pow(std::tan(phi), 4)
                     - 252 * (E * E / (1 - E * E)) - 3 * c * c)
                    * std::pow(d, 6) / 720)));
     lng =
-- 
2.43.0


From e38c2d9a026427cb35931f7752fb17c113464c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 82/87] fix: write the longitude before the latitude in
 segy2kml

---
 util/segy2kml.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 82875ec..5598b02 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -286,7 +286,8 @@ int main(int argc, char** argv)
         // If Longitude/Easting is greater than 180, coordinate is in UTM format
         // and must be converted to latitude/longitude (mimimum UTM Easting is
         // 100,000)
-        if (minmax[0].val > 180 && !utmZone.empty()) {
+        const bool isUTM = (minmax[0].val > 180 && !utmZone.empty());
+        if (isUTM) {
             utm2LatLong(
               minmax[0].val, minmax[2].val, utmZone, minmax[0].val,
               minmax[2].val);
@@ -299,6 +300,12 @@ int main(int argc, char** argv)
             std::cerr << "       Expected lat/long but values must be UTM.\n";
             std::cerr << "       Use the -z option to specify the UTM zone.\n";
         }
+        // Lines are written as longitude, latitude. The conversion leaves the
+        // latitude first, coordinates which were not converted have it last
+        if (!isUTM) {
+            std::swap(minmax[0], minmax[2]);
+            std::swap(minmax[1], minmax[3]);
+        }
         addLine(ofile, iname[i], minmax);
     }
     closeKML(ofile);
-- 
2.43.0


From 84c42e7e95a0905f138c902f2b23da40422922e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:42 +0000
Subject: [PATCH 83/87] fix: use the signs of the alternating series in
 segy2kml

---
 util/segy2kml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 5598b02..ce5835a 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -139,7 +139,7 @@ void utm2LatLong(
       * (phi
          - ((1 - std::pow(E * std::sin(phi), 2)) * std::tan(phi) / (1 - E * E))
              * ((d * d / 2)
-                + ((5 + 3 * std::pow(std::tan(phi), 2) + 10 * c - 4 * c * c
+                - ((5 + 3 * std::pow(std::tan(phi), 2) + 10 * c - 4 * c * c
                     - 9 * (E * E / (1 - E * E)))
                    * std::pow(d, 4) / 24)
                 + ((61 + 90 * std::pow(std::tan(phi), 2) + 298 * c
@@ -149,7 +149,7 @@ void utm2LatLong(
     lng =
       (6 * numZone - 183)
       - (180
-         * (d + ((1 + 2 * std::pow(std::tan(phi), 2) + c) * std::pow(d, 3) / 6)
+         * (d - ((1 + 2 * std::pow(std::tan(phi), 2) + c) * std::pow(d, 3) / 6)
             + ((5 - 2 * c + 28 * std::pow(std::tan(phi), 2) - 3 * c * c
                 + 24 * std::pow(std::tan(phi), 4) + 8 * (E * E / (1 - E * E)))
                * std::pow(d, 5) / 120))
-- 
2.43.0


From e98a55cc8596564128fb60ca010b89463ca80dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 84/87] fix: report a trace which can not be read in
 traceanalysis

---
 util/traceanalysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/traceanalysis.cc b/util/traceanalysis.cc
index 66897f0..17a7a12 100644
--- a/util/traceanalysis.cc
+++ b/util/traceanalysis.cc
@@ -49,9 +49,16 @@ int main(int argc, char** argv)
     }
 
     ReadDirect file(piol, name);
+    piol->isErr();
+
+    if (tn >= file.readNt()) {
+        std::cerr << "The file has no trace " << tn << "\n";
+        return -1;
+    }
 
     Param prm(1LU);
     file->readParam(tn, 1LU, &prm);
+    piol->isErr();
 
     if (piol->getRank() == 0) {
         std::cout.precision(
-- 
2.43.0


From 20b5fc2a776a027b26436afeb31d377d4f950074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:32 +0000
Subject: [PATCH 85/87] fix: do not keep the end of a larger existing output
 file in makerep

---
 util/makerep.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/makerep.cc b/util/makerep.cc
index d222740..dbba401 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -313,6 +313,12 @@ int main(int argc, char** argv)
 
     const size_t fsz = in.getFileSz();
     piol->isErr();
+
+    // An existing output file can be larger
+    const size_t extra = (rep > 1 ? rep - 1 : 0);
+    out.setFileSz(fsz + extra * (fsz - SEGY_utils::getHOSz()));
+    piol->isErr();
+
     if (fsz / numRank < SEGY_utils::getHOSz()) {
         smallCopy(*piol, &in, &out, rep);
     }
-- 
2.43.0


From 9a3921d5b26fb918f37360d83e3fe1eaf29e048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:23 +0000
Subject: [PATCH 86/87] fix: stop a set when a result in between can not be
 read

As for the input files. The operations which follow would otherwise be
applied to a file whose sizes are not known, e.g. the taper to traces
without samples.
---
 src/Flow/Set.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index c736bb3..f352855 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -292,6 +292,7 @@ void Set::storeTemp(FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
         // TODO: Open with delete on close?
         add(makeFile<ReadSEGY>(piol, n));
     }
+    piol->isErr();
 }
 
 std::vector<std::string> Set::startGather(
@@ -421,6 +422,7 @@ std::vector<std::string> Set::startGather(
             // TODO: Open with delete on close?
             add(makeFile<ReadSEGY>(piol, n));
         }
+        piol->isErr();
     }
 
     return names;
-- 
2.43.0


From ec2840bd19b53a8928168739e1e86a4efb7d341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:42 +0000
Subject: [PATCH 87/87] fix: stop the radon to angle transform when the model
 can not be read

The numbers of lines of the model are not known then, which ended in a
division by zero.
---
 src/Flow/RadonGatherState.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Flow/RadonGatherState.cc b/src/Flow/RadonGatherState.cc
index 6485917..d6bda99 100644
--- a/src/Flow/RadonGatherState.cc
+++ b/src/Flow/RadonGatherState.cc
@@ -18,6 +18,7 @@ void RadonGatherState::makeState(
 {
     // TODO: DON'T USE MAGIC NAME
     std::unique_ptr<ReadSEGYModel> vm = makeFile<ReadSEGYModel>(piol, vmname);
+    piol->isErr();
     vNs                               = vm->readNs();
     vInc                              = vm->readInc();
 
-- 
2.43.0

