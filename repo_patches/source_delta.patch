From a4219ff215c63f1a7ade38c0a35ea36a2e820ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 01/28] fix: load .debug_str_offsets, which DWARF 5 strx forms
 need

---
 legacy_addr2line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 96d7e0c..45a614d 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -91,7 +91,8 @@ bool Google3Addr2line::Prepare() {
   SectionMap sections;
   const char *debug_section_names[] = {
     ".debug_line", ".debug_abbrev", ".debug_info", ".debug_str",
-    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str"
+    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str",
+    ".debug_str_offsets"
   };
   for (const char *section_name : debug_section_names) {
     size_t section_size;
-- 
2.43.0


From 9196f58eb7ac759ea502fc8ff91ee4955ad33409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 02/28] fix: give the line-table reader .debug_str and
 .debug_str_offsets, not .debug_line_str

---
 util/symbolize/addr2line_inlinestack.cc |  8 ++++----
 util/symbolize/functioninfo.cc          | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f68f6e1..94d752c 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -415,15 +415,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           const char* str_buffer = NULL;
           uint64 str_buffer_size = 0;
           if (str_section != sections_.end()) {
-            str_buffer = line_str->second.first;
-            str_buffer_size = line_str->second.second;
+            str_buffer = str_section->second.first;
+            str_buffer_size = str_section->second.second;
           }
           SectionMap::const_iterator str_offsets = sections_.find(".debug_str_offsets");
           const char* str_offsets_buffer = NULL;
           uint64 str_offsets_size = 0;
           if (str_offsets != sections_.end()) {
-            str_offsets_buffer = line_str->second.first;
-            str_offsets_size = line_str->second.second;
+            str_offsets_buffer = str_offsets->second.first;
+            str_offsets_size = str_offsets->second.second;
           }                    
           LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                             line_str_buffer, line_str_size,
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index ec0f904..2b35386 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -257,15 +257,15 @@ void CUFunctionInfoHandler::ProcessAttributeUnsigned(uint64 offset,
     const char* str_buffer = NULL;
     uint64 str_buffer_size = 0;
     if (str_section != sections_.end()) {
-      str_buffer = line_str->second.first;
-      str_buffer_size = line_str->second.second;
+      str_buffer = str_section->second.first;
+      str_buffer_size = str_section->second.second;
     }
-    SectionMap::const_iterator str_offset = sections_.find(".debug_line_str");
+    SectionMap::const_iterator str_offset = sections_.find(".debug_str_offsets");
     const char* str_offset_buffer = NULL;
     uint64 str_offset_size = 0;
     if (str_offset != sections_.end()) {
-      str_offset_buffer = line_str->second.first;
-      str_offset_size = line_str->second.second;
+      str_offset_buffer = str_offset->second.first;
+      str_offset_size = str_offset->second.second;
     }                    
     LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                       line_str_buffer, line_str_size,
-- 
2.43.0


From 4f468e0fe47a240af365428d06e452b05ab12dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 03/28] fix: DW_FORM_addrx* attributes: advance by the operand
 size, use the two-byte index

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 072665f..f658f2a 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -807,7 +807,7 @@ const char* CompilationUnit::ProcessAttribute(
     case DW_FORM_GNU_addr_index: {
       CHECK(addr_buffer_ != NULL);
       uint64 addr_index = 0;
-      size_t len;
+      size_t len = 0;
       switch (form) {
         case DW_FORM_addrx1: {
           addr_index = reader_->ReadOneByte(start);
@@ -815,7 +815,7 @@ const char* CompilationUnit::ProcessAttribute(
             break;
         }
         case DW_FORM_addrx2: {
-          uint64 addr_index = reader_->ReadTwoBytes(start);
+          addr_index = reader_->ReadTwoBytes(start);
           len += 2;
             break;
         }
@@ -842,7 +842,7 @@ const char* CompilationUnit::ProcessAttribute(
                                                                 reader_->AddressSize())
                           );
       ProcessAttributeUnsigned(dieoffset, attr, form, v);
-      return start + 1;
+      return start + len;
       break;  
     }
     case DW_FORM_implicit_const: {
-- 
2.43.0


From ef52e0b9dbd928fc84b662cfdfa77cbd54f7e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 04/28] fix: skip DW_FORM_line_strp attributes of uninteresting
 DIEs

---
 util/symbolize/dwarf2reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index f658f2a..8f04125 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -268,6 +268,7 @@ const char* CompilationUnit::SkipAttribute(const char* start, enum DwarfForm for
     }
       break;
     case DW_FORM_strp:
+    case DW_FORM_line_strp:
     case DW_FORM_strp_sup:
     case DW_FORM_sec_offset:
         return start + reader_->OffsetSize();
-- 
2.43.0


From b440cca7a684cde8f6cf73812e5d0d04effeee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 05/28] fix: DW_FORM_implicit_const is a signed LEB128 constant

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 util/symbolize/dwarf2reader.h  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 8f04125..95163f1 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -144,10 +144,10 @@ void CompilationUnit::ReadAbbrevs() {
       const enum DwarfAttribute name =
         static_cast<enum DwarfAttribute>(nametemp);
       const enum DwarfForm form = static_cast<enum DwarfForm>(formtemp);
-      uint32 value = 0;
+      int64 value = 0;
       if (form == DW_FORM_implicit_const) {
           DCHECK(abbrevptr < abbrev_start + abbrev_length);
-          value = reader_->ReadUnsignedLEB128(abbrevptr, &len);
+          value = reader_->ReadSignedLEB128(abbrevptr, &len);
           abbrevptr += len;
       }
 
@@ -607,7 +607,7 @@ uint64 CompilationUnit::Start() {
 // This is all boring data manipulation and calling of the handler.
 const char* CompilationUnit::ProcessAttribute(
     uint64 dieoffset, const char* start, enum DwarfAttribute attr,
-    enum DwarfForm form, uint32 value) {
+    enum DwarfForm form, int64 value) {
   size_t len;
 
   switch (form) {
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 130f45e..2918a55 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -48,7 +48,7 @@ struct AttributeSpec {
     enum DwarfAttribute name;
     enum DwarfForm form;
     // For the special case of DW_FORM_implicit_const
-    uint32 value;
+    int64 value;
 };
 
 
@@ -576,7 +576,7 @@ class CompilationUnit {
                                const char* start,
                                enum DwarfAttribute attr,
                                enum DwarfForm form,
-                               uint32 value = 0);
+                               int64 value = 0);
 
   // Called when we have an attribute with unsigned data to give to
   // our handler.  The attribute is for the DIE at OFFSET from the
-- 
2.43.0


From 16a7ec4e4433e533554ad12c3eb63ae37430bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/28] fix: use a DW_AT_decl_line given as
 DW_FORM_implicit_const

---
 util/symbolize/addr2line_inlinestack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 94d752c..bb86017 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -492,6 +492,12 @@ void InlineStackHandler::ProcessAttributeSigned(
         CHECK(form == DW_FORM_implicit_const);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
+      case DW_AT_decl_line:
+        if (!subprogram_stack_.empty() &&
+            die_stack_.back() == DW_TAG_subprogram) {
+          subprogram_stack_.back()->set_callsite_line(data);
+        }
+        break;
 
       default:
         break;
-- 
2.43.0


From 545b4aa4d96edfecf052ccf064b2cd88510f0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 07/28] fix: DWARF 5 directory and file entries are numbered
 from 0

---
 util/symbolize/addr2line_inlinestack.cc |  8 ++++++--
 util/symbolize/dwarf2reader.cc          |  6 ++++--
 util/symbolize/functioninfo.cc          | 10 +++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index bb86017..b8932f1 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -265,7 +265,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
   if (!subprogram_stack_.empty()) {
     switch (attr) {
       case DW_AT_call_file: {
-        if (data == 0 || data >= file_names_->size()) {
+        // File 0 is a valid entry in DWARF 5.
+        if ((data == 0 && dwarf_version_ < 5) ||
+            data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -468,7 +470,9 @@ void InlineStackHandler::ProcessAttributeSigned(
       case DW_AT_call_file: {
         CHECK(form == DW_FORM_implicit_const);
 
-        if (data == 0 || data >= file_names_->size()) {
+        // File 0 is a valid entry in DWARF 5.
+        if ((data == 0 && dwarf_version_ < 5) ||
+            data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 95163f1..60b37a0 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1630,7 +1630,8 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      // In DWARF 5, entries are numbered from 0.
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* dirname = NULL;
         for (uint32 col = 0; col < format_count; ++col) {
           if (content_types[col] == DW_LNCT_path) {
@@ -1668,7 +1669,8 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      // In DWARF 5, entries are numbered from 0.
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* filename = NULL;
         uint64 dirindex = 0;
         uint64 mod_time = 0;
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index 2b35386..353e130 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -85,6 +85,11 @@ bool CULineInfoHandler::ShouldAddAddress(uint64 address) const {
 }
 
 void CULineInfoHandler::DefineDir(const char *name, uint32 dir_num) {
+  // Directory 0 (the compilation directory) is only listed in DWARF 5.
+  if (dir_num == 0) {
+    (*dirs_)[0] = name;
+    return;
+  }
   // These should never come out of order, actually
   CHECK_EQ(dir_num, dirs_->size());
   dirs_->push_back(name);
@@ -96,7 +101,10 @@ void CULineInfoHandler::DefineFile(const char *name,
   // These should never come out of order, actually.
   CHECK_GE(dir_num, 0);
   CHECK_LT(dir_num, dirs_->size());
-  if (file_num == files_->size() || file_num == -1) {
+  if (file_num == 0) {
+    // File 0 (the primary source file) is only listed in DWARF 5.
+    (*files_)[0] = std::make_pair(dir_num, name);
+  } else if (file_num == files_->size() || file_num == -1) {
     files_->push_back(std::make_pair(dir_num, name));
   } else {
     LOG(INFO) << "error in DefineFile";
-- 
2.43.0


From 89287a82dea1a5239e836139eb95754590f8aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 08/28] fix: accept DWARF 5 line tables with timestamp, size,
 MD5 or vendor fields

---
 util/symbolize/dwarf2reader.cc | 38 ++++++++++++++++++++++++++++++++--
 util/symbolize/dwarf2reader.h  |  5 ++++-
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 60b37a0..47f4321 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1452,12 +1452,46 @@ bool LineInfo::ReadUnsignedForm(uint32 form, uint64* value,
     if (!AdvanceLinePtr(2, lineptr)) {
       return false;
     }
+  } else if (form == DW_FORM_data4) {
+    *value = reader_->ReadFourBytes(*lineptr);
+    if (!AdvanceLinePtr(4, lineptr)) {
+      return false;
+    }
+  } else if (form == DW_FORM_data8) {
+    *value = reader_->ReadEightBytes(*lineptr);
+    if (!AdvanceLinePtr(8, lineptr)) {
+      return false;
+    }
   } else {
     return false;
   }
   return true;
 }
 
+bool LineInfo::SkipForm(uint32 form, const char** lineptr) {
+  switch (form) {
+    case DW_FORM_data16:
+      return AdvanceLinePtr(16, lineptr);
+    case DW_FORM_block: {
+      size_t len;
+      const uint64 size = reader_->ReadUnsignedLEB128(*lineptr, &len);
+      if (size > buffer_length_)
+        return false;
+      return AdvanceLinePtr(len + size, lineptr);
+    }
+    case DW_FORM_string:
+    case DW_FORM_line_strp:
+    case DW_FORM_strp: {
+      const char* ignored;
+      return ReadStringForm(form, &ignored, lineptr);
+    }
+    default: {
+      uint64 ignored;
+      return ReadUnsignedForm(form, &ignored, lineptr);
+    }
+  }
+}
+
 // The header for a debug_line section is mildly complicated, because
 // the line info is very tightly encoded.
 void LineInfo::ReadHeader() {
@@ -1639,7 +1673,7 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
-          } else {
+          } else if (!SkipForm(content_forms[col], &lineptr)) {
             malformed_ = true;
             return;
           }
@@ -1686,7 +1720,7 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
-          } else {
+          } else if (!SkipForm(content_forms[col], &lineptr)) {
             malformed_ = true;
             return;
           }
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 2918a55..e8967eb 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -162,9 +162,12 @@ class LineInfo {
   // Reads a string of one of the forms DW_FORM_string or DW_FORM_line_strp.
   bool ReadStringForm(uint32 form, const char** dirname, const char** lineptr);
 
-  // Reads an unsigned integer of form DW_FORM_udata.
+  // Reads an unsigned integer of form DW_FORM_udata or DW_FORM_data{1,2,4,8}.
   bool ReadUnsignedForm(uint32 form, uint64* value, const char** lineptr);
 
+  // Skips a field whose content type we have no use for (DW_LNCT_MD5, ...).
+  bool SkipForm(uint32 form, const char** lineptr);
+
   // Reads the DWARF2/3 header for this line info.
   void ReadHeader();
 
-- 
2.43.0


From ca6858e56bb79c4b7f040de35a877a0e9341f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 09/28] fix: the ranges of a compilation unit are not the base
 of its range lists

---
 util/symbolize/addr2line_inlinestack.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index b8932f1..eeb080a 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -443,9 +443,6 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_str_offsets_base:
         str_offset_base_ = data;
         break;
-      case DW_AT_ranges: 
-        CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
-        FALLTHROUGH_INTENDED;
       case DW_AT_GNU_ranges_base:
       case DW_AT_rnglists_base:
         ranges_base_ = data;     
-- 
2.43.0


From 18a8fb6e8af8c4366c11acc03fdf5a3f4002e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 10/28] fix: apply the DWARF 5 base attributes of a unit to all
 attributes of its DIE

---
 util/symbolize/dwarf2reader.cc | 22 ++++++++++++++++++++++
 util/symbolize/dwarf2reader.h  |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 47f4321..ff92066 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -868,9 +868,31 @@ void CompilationUnit::ProcessAttributeUnsigned(uint64 offset,
     handler_->ProcessAttributeUnsigned(offset, attr, form, data);
   }
 
+// The base attributes may follow the attributes whose forms depend on them.
+void CompilationUnit::ReadBaseAttributes(const char* start,
+                                         const Abbrev& abbrev) {
+  for (const AttributeSpec& spec : abbrev.attributes) {
+    if (spec.form == DW_FORM_sec_offset) {
+      const uint64 base = reader_->ReadOffset(start);
+      if (spec.name == DW_AT_str_offsets_base)
+        handler_->set_str_offset_base(base);
+      else if (spec.name == DW_AT_addr_base)
+        handler_->set_addr_base(base);
+      else if (spec.name == DW_AT_rnglists_base)
+        handler_->set_range_base(base);
+    }
+    start = SkipAttribute(start, spec.form);
+  }
+}
+
 const char* CompilationUnit::ProcessDIE(uint64 dieoffset,
                                         const char* start,
                                         const Abbrev& abbrev) {
+  if (header_.version == 5 && (abbrev.tag == DW_TAG_compile_unit ||
+                               abbrev.tag == DW_TAG_skeleton_unit)) {
+    ReadBaseAttributes(start, abbrev);
+  }
+
   for (AttributeList::const_iterator i = abbrev.attributes.begin();
        i != abbrev.attributes.end();
        i++)  {
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index e8967eb..a411e1a 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -556,6 +556,9 @@ class CompilationUnit {
   // Reads .debug_abbrev section offset DWARF header for this compilation unit
   bool ReadAbbrevOffset(const char** headerptr);
 
+  // Tells the handler the DWARF 5 base attributes of a unit's DIE.
+  void ReadBaseAttributes(const char* start, const Abbrev& abbrev);
+
   // Reads .debug_str_offsets section DWARF header for this compilation unit
   void ReadDebugOffsetTableHeader(const char* str_offset_ptr,
                                   uint64 str_offset_length);
-- 
2.43.0


From b919ce2da97ea1cca2e3d8c0a4aed1a5b4657ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 11/28] fix: only DW_RLE_offset_pair is relative to the base
 address

---
 util/symbolize/dwarf3ranges.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 13f5a9a..48c8b85 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -123,7 +123,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             CHECK(stop_ptr <= (addr_buffer_ + addr_buffer_length_));
             uint64 stop = reader_->ReadAddress(stop_ptr);
             if (start != stop)
-              ranges->push_back (make_pair (start + base, stop + base));
+              ranges->push_back (make_pair (start, stop));
             break;
           }
           case DW_RLE_startx_length: {
@@ -138,7 +138,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (start + base, start + base + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           case DW_RLE_offset_pair: {
@@ -173,7 +173,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (base + start, base + start + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           default: { 
-- 
2.43.0


From bb000fdcb5d7fc032b82a791bc85a9077bd31d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 12/28] fix: range lists given by DW_FORM_sec_offset may use
 .debug_addr indices

---
 util/symbolize/addr2line_inlinestack.cc | 3 ++-
 util/symbolize/dwarf2reader.h           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index eeb080a..b2c31e6 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -353,7 +353,8 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_);
+          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_,
+                                         addr_base_);
         }
         else {
           CHECK(form == DW_FORM_rnglistx);
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index a411e1a..d7f5f4f 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -348,7 +348,7 @@ class LineInfoHandler {
 
 class Dwarf2Handler {
  public:
-  Dwarf2Handler() { }
+  Dwarf2Handler() : ranges_base_(0), addr_base_(0), str_offset_base_(0) { }
 
   virtual ~Dwarf2Handler() { }
 
-- 
2.43.0


From 90801295c268f0c54b0c15a1778c7e55d30ada13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 13/28] fix: inlined calls without a call file must not crash
 GetInlineStack

---
 legacy_addr2line.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 45a614d..782c977 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -245,7 +245,10 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     if (start_line == 0)
       start_line = subprog->callsite_line();
 
-    dir_name = subprog->callsite_directory();
+    // The call file may be missing or unknown.
+    const char *call_dir = subprog->callsite_directory();
+    const char *call_file = subprog->callsite_filename();
+    dir_name = call_dir ? call_dir : "";
     if (!dir_name.is_absolute()) {
       if (subprog->comp_directory()) {
         dir_name = subprog->comp_directory() / dir_name;
@@ -257,7 +260,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     stack->push_back(SourceInfo(
         canonical_parent->name().c_str(),
         dir_name,
-        subprog->callsite_filename(),
+        call_file ? call_file : "",
         start_line,
         subprog->callsite_line(),
         subprog->callsite_discr()));
-- 
2.43.0


From d8e315a5f21e185659c2b382865701746e5f7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 14/28] fix: gcov_write_string(NULL) writes an empty entry

---
 gcov.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcov.cc b/gcov.cc
index f16437b..c368e17 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -148,6 +148,11 @@ void gcov_write_string(const char *string) {
   unsigned alloc = 0;
   uint32 *buffer;
 
+  if (!string) {
+    // An absent string has length 0 and reads back as NULL.
+    gcov_write_unsigned(0);
+    return;
+  }
   if (string) {
     length = strlen(string);
     if (absl::GetFlag(FLAGS_gcov_version) >= 2) {
-- 
2.43.0


From 85ffe96a08766a4b1c2a305e650d0aaafc3c7adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 15/28] fix: call graph SCC detection needs unique visit
 indices

---
 symbol_map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 355df2f..7a361f6 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -789,7 +789,7 @@ class CallGraph {
   void TopoVisit(SCCNode *node, absl::flat_hash_set<SCCNode *> *workingset,
                  std::vector<SCCNode *> *sorted);
   SCCNode *CreateSCCNode(Symbol *sym);
-  void StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+  void StrongConnect(SCCNode *node, unsigned &index, NodeStack *stack,
                      SCCMap *sccmap);
   void CollapseSCC(SCCMap *sccmap);
 
@@ -840,7 +840,7 @@ SCCNode *CallGraph::FindOrCreateSCCNode(Symbol *sym) {
 
 // Find the strongly connected component using DFS. sccmap is the map mapping
 // each node to the root node of the SCC where node belongs to.
-void CallGraph::StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+void CallGraph::StrongConnect(SCCNode *node, unsigned &index, NodeStack *stack,
                               SCCMap *sccmap) {
   node->index = index;
   node->lowlink = index;
-- 
2.43.0


From 38a1c579f00641e5393c27b1d9a60d325a957d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 16/28] fix: inclusive counts of a call graph component are
 64-bit

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 7a361f6..e282f5b 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -961,7 +961,7 @@ void SymbolMap::ComputeTotalCountIncl() {
   // same total_count_incl.
   std::vector<Symbol *> stacksyms;
   for (auto *node : sorted) {
-    unsigned scc_total_count_incl = 0;
+    uint64_t scc_total_count_incl = 0;
     for (auto *sym : node->syms) {
       sym->total_count_incl = sym->total_count;
       stacksyms.push_back(sym);
-- 
2.43.0


From 3d675d8d7dd0bb339309bb0ee1db95516cb26dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 17/28] fix: symbols merged by suffix elision are not counted
 twice

---
 symbol_map.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index e282f5b..b5dc29a 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -337,6 +337,13 @@ void SymbolMap::ElideSuffixesAndMerge() {
     for (auto &n_s : map_) {
       if (n_s.second == sym) n_s.second = ret.first->second;
     }
+    // The merged symbol is gone from the map; it must not be counted again.
+    unique_symbols_.erase(
+        std::remove_if(unique_symbols_.begin(), unique_symbols_.end(),
+                       [sym](const std::unique_ptr<Symbol> &s) {
+                         return s.get() == sym;
+                       }),
+        unique_symbols_.end());
   }
 }
 
-- 
2.43.0


From 7b5efd1f6907aa8921c7c792c9a62136c25efb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 18/28] fix: compare the @plt suffix only within the symbol
 name

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index b5dc29a..0327966 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -513,7 +513,7 @@ void SymbolMap::BuildSymbolMap() {
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
             (type == STT_FUNC || absl::EndsWith(name, ".cold") || std::regex_search(name, kSuffixRe)) &&
-            strcmp(name + strlen(name) - 4, "@plt") != 0);
+            !absl::EndsWith(name, "@plt"));
   };
   elf_reader.VisitSymbols(&symbol_reader);
 #if defined(HAVE_LLVM)
-- 
2.43.0


From 57f9b6d27b37a78b2b46b79f9d2de58f281481a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:35 +0000
Subject: [PATCH 19/28] fix: do not count SPE branch records into the total
 twice

---
 simple_spe_sample_reader.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simple_spe_sample_reader.cc b/simple_spe_sample_reader.cc
index a1d59ad..87bba7f 100644
--- a/simple_spe_sample_reader.cc
+++ b/simple_spe_sample_reader.cc
@@ -119,7 +119,7 @@ bool SimpleSpeDataSampleReader::Append(const std::string &profile_file) {
   // Create a temporary reader for the additional profile file
   SimpleSpeDataSampleReader temp_reader(profile_file, binary_file_.string());
   
-  if (!temp_reader.Read()) {
+  if (!temp_reader.ReadAndSetTotalCount()) {
     LOG(ERROR) << "Failed to read profile file: " << profile_file;
     return false;
   }
@@ -167,6 +167,7 @@ bool SimpleSpeDataSampleReader::Read() {
   const auto &events = reader.events();
   uint64_t spe_event_count = 0;
   uint64_t branch_records = 0;
+  uint64_t samples = 0;
   
   for (const auto &event : events) {
     // Check if this event contains ARM SPE trace data
@@ -192,7 +193,7 @@ bool SimpleSpeDataSampleReader::Read() {
       // Handle conditional not-taken branches
       if (record.op.br_eret.br_cond && record.event.cond_not_taken) {
         address_count_map_[binary_offset]++;
-        total_count_++;
+        samples++;
         continue;
       }
       
@@ -202,7 +203,7 @@ bool SimpleSpeDataSampleReader::Read() {
         uint64_t target_offset = mmap_info.VaToBinaryOffset(target_runtime);
         if (target_offset != 0) {
           branch_count_map_[Branch(binary_offset, target_offset)]++;
-          total_count_++;
+          samples++;
         }
       }
     }
@@ -213,7 +214,7 @@ bool SimpleSpeDataSampleReader::Read() {
     return false;
   }
   
-  if (branch_records == 0 || total_count_ == 0) {
+  if (branch_records == 0 || samples == 0) {
     LOG(ERROR) << "No valid branch samples collected";
     return false;
   }
-- 
2.43.0


From c16e79b16dcedd1ca407ecafd38eb30ef2087bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:54 +0000
Subject: [PATCH 20/28] fix: add up a call target's counts when profiles are
 merged

---
 profile_creator.cc |  2 +-
 symbol_map.cc      | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 09d68b6..bdb1574 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -253,7 +253,7 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
     if (!symbol_map->AddIndirectCallTarget(
             *name, stack,
             "__prefetch_" + hint.type + "_" + std::to_string(prefetch_index),
-            static_cast<uint64_t>(delta))) {
+            static_cast<uint64_t>(delta), SymbolMap::INVALID)) {
       LOG(WARNING) << "Ignoring address " << std::hex << pc
                    << ". Could not add an indirect call target. Likely the "
                       "inline stack is empty for this address.";
diff --git a/symbol_map.cc b/symbol_map.cc
index 0327966..dd8442c 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -608,8 +608,15 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
   if ((data_source == PERFDATA || data_source == AFDOPROTO) &&
       src[0].HasInvalidInfo())
     return false;
-  symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
-      .target_map[GetOriginalName(target)] = count;
+  uint64_t &target_count =
+      symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
+          .target_map[GetOriginalName(target)];
+  // As in AddSourceCount, counts read from an afdo profile are merged.
+  if (data_source == AFDOPROFILE) {
+    target_count += count;
+  } else {
+    target_count = count;
+  }
   return true;
 }
 
-- 
2.43.0


From be5daee37f405c7d3eedf6a579a0a5f12a0a7d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:40 +0000
Subject: [PATCH 21/28] fix: read prefetch hint kinds of any length without
 overflowing

---
 profile_creator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index bdb1574..eb17d83 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -76,9 +76,9 @@ PrefetchHints ReadPrefetchHints(const std::string &file_name) {
   } else {
     uint64_t address = 0;
     int64_t delta = 0;
-    char prefetch_type[5];
+    char prefetch_type[64];
     while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%s\n", &address, &delta,
+      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%63s\n", &address, &delta,
                       prefetch_type)) {
         LOG(ERROR) << "Error reading from " << file_name;
         break;
-- 
2.43.0


From cb9a6cb5e16fe67426fdbb29b92545de98c452f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:47 +0000
Subject: [PATCH 22/28] fix: apply DW_AT_GNU_ranges_base to the range lists of
 a split unit

---
 util/symbolize/addr2line_inlinestack.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index b2c31e6..8baae9a 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -103,6 +103,7 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  ranges_base_ = 0;
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
   if (input_file_index_ == -1) {
@@ -353,7 +354,11 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_,
+          // Before DWARF 5, the range list offsets in a .dwo or .dwp file are
+          // relative to the DW_AT_GNU_ranges_base of the skeleton unit.
+          const uint64 base =
+              input_file_index_ != 0 && dwarf_version_ < 5 ? ranges_base_ : 0;
+          address_ranges_->ReadRangeList(base + data, compilation_unit_base_, &ranges, dwarf_version_,
                                          addr_base_);
         }
         else {
-- 
2.43.0


From 43ced19d368414680d5f843c95918911d88fdbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:22 +0000
Subject: [PATCH 23/28] fix: range lists of a DWARF 5 .dwo file

---
 util/symbolize/addr2line_inlinestack.h |  2 ++
 util/symbolize/dwarf2reader.cc         | 32 ++++++++++++++++++--------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 0bf46cc..e35bb36 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -227,6 +227,8 @@ class InlineStackHandler: public Dwarf2Handler {
     address_ranges_ = address_ranges;
   }
 
+  AddressRangeList *address_range_list() const { return address_ranges_; }
+
   const SubprogramInfo *GetSubprogramForAddress(uint64 address);
 
   const SubprogramInfo *GetDeclaration(const SubprogramInfo *subprog) const;
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index ff92066..2208ba6 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -19,6 +19,7 @@
 #include <unistd.h>
 #include <stdint.h>
 #include <string.h>
+#include <memory>
 #include <stack>
 #include <utility>
 
@@ -1042,22 +1043,30 @@ void CompilationUnit::ProcessSplitDwarf() {
         const char *debug_ranges_data = NULL;
         size_t debug_rnglist_size = 0;
         const char *debug_rnglist_data = NULL;
+        InlineStackHandler *inlinestackhandler = NULL;
+        AddressRangeList *skeleton_ranges = NULL;
+        std::unique_ptr<AddressRangeList> debug_ranges;
         if (iter != sections.end()) {
           debug_rnglist_data = iter->second.first;
           debug_rnglist_size = iter->second.second;
-          AddressRangeList *debug_ranges = 
-                new AddressRangeList(debug_ranges_data,
-                                      debug_ranges_size,
-                                      debug_rnglist_data,
-                                      debug_rnglist_size,
-                                      &reader,
-                                      addr_buffer_, 
-                                      addr_buffer_length_);
-          InlineStackHandler *inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
+          debug_ranges.reset(new AddressRangeList(debug_ranges_data,
+                                                  debug_ranges_size,
+                                                  debug_rnglist_data,
+                                                  debug_rnglist_size,
+                                                  &reader,
+                                                  addr_buffer_,
+                                                  addr_buffer_length_));
+          inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
           if(!inlinestackhandler)  {
             LOG(FATAL) << "It is not possbile to process the .debug_rnglists sections in seperate .dwo files without InlineStackHandler.";
           }
-          inlinestackhandler->set_address_range_list(debug_ranges);
+          skeleton_ranges = inlinestackhandler->address_range_list();
+          inlinestackhandler->set_address_range_list(debug_ranges.get());
+          // A split unit has no DW_AT_rnglists_base: its range list table is
+          // the first one of the section, whose offsets follow the header.
+          size_t initial_length_size;
+          reader.ReadInitialLength(debug_rnglist_data, &initial_length_size);
+          handler_->set_range_base(initial_length_size + 8);
         }
 
         
@@ -1068,6 +1077,9 @@ void CompilationUnit::ProcessSplitDwarf() {
         if (dwo_comp_unit.malformed())
           LOG(WARNING) << "File '" << dwo_name_ << "' has mangled "
                        << ".debug_info.dwo section.";
+        // The range lists of the .dwo file serve this unit only.
+        if (inlinestackhandler)
+          inlinestackhandler->set_address_range_list(skeleton_ranges);
       } else {
         LOG(WARNING) << "File '" << dwo_name_ << "' is not an ELF file.";
       }
-- 
2.43.0


From a94da1c92c2d1369a6786fad440c90a2fa65a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:31 +0000
Subject: [PATCH 24/28] fix: read names of DWARF 5 line tables without
 .debug_info

---
 legacy_addr2line.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 782c977..617a3ae 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -163,13 +163,19 @@ bool Google3Addr2line::Prepare() {
     const char *data;
     size_t size;
     GetSection(sections, ".debug_line", &data, &size);
+    // DWARF 5 line tables keep their names in string sections.
+    const char *line_str_data, *str_data;
+    size_t line_str_size, str_size;
+    GetSection(sections, ".debug_line_str", &line_str_data, &line_str_size);
+    GetSection(sections, ".debug_str", &str_data, &str_size);
     if (data) {
       size_t pos = 0;
       while (pos < size) {
         DirectoryVector dirs;
         FileVector files;
         CULineInfoHandler handler(&files, &dirs, line_map_);
-        LineInfo line(data + pos, size - pos, &reader, &handler);
+        LineInfo line(data + pos, size - pos, line_str_data, line_str_size,
+                      str_data, str_size, nullptr, 0, 0, &reader, &handler);
         uint64_t read = line.Start();
         if (line.malformed()) {
           // If the debug_line section is malformed, we should stop
-- 
2.43.0


From b7278bba6168aedaa9e4f525960a9b936d8316fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:55 +0000
Subject: [PATCH 25/28] fix: profiles of a `;`-separated list have the type of
 the profiler flag too

---
 create_llvm_prof.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 3992c27..95dfc32 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -155,7 +155,9 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     for (const std::string &pf : perf_files)
       if (!pf.empty())
         option_builder.AddInputProfiles(
-            devtools_crosstool_autofdo::InputProfileBuilder().SetName(pf));
+            devtools_crosstool_autofdo::InputProfileBuilder()
+                .SetName(pf)
+                .SetType(GetProfileTypeFromFlag()));
   }
   if (!absl::GetFlag(FLAGS_propeller_cfg_dump_dir).empty()) {
     option_builder.SetCfgDumpDirName(
-- 
2.43.0


From e9f76ddaba7fef3e539eb14ffd1e9f7e61fb4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:55 +0000
Subject: [PATCH 26/28] fix: a note section of alignment 0 aligns its notes to
 4 bytes

---
 llvm_propeller_binary_content.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index 7a28c52..6239f0b 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -1,5 +1,6 @@
 #include "llvm_propeller_binary_content.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <memory>
@@ -134,7 +135,9 @@ std::string ELFFileUtil<ELFT>::GetBuildId() {
     for (const typename ELFT::Note &note : elf_file_->notes(shdr, err)) {
       llvm::StringRef r = note.getName();
       if (r == kBuildIdNoteName) {
-        llvm::ArrayRef<uint8_t> build_id = note.getDesc(shdr.sh_addralign);
+        // Notes are aligned to 4 bytes at least, also when sh_addralign is 0.
+        llvm::ArrayRef<uint8_t> build_id =
+            note.getDesc(std::max<size_t>(shdr.sh_addralign, 4));
         std::string build_id_str(build_id.size() * 2, '0');
         int k = 0;
         for (uint8_t t : build_id) {
-- 
2.43.0


From ab414c0f5ce7ed46c4fe37170b635dd97a6d35d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:55 +0000
Subject: [PATCH 27/28] fix: only a note of type NT_GNU_BUILD_ID holds the
 build id

---
 llvm_propeller_binary_content.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index 6239f0b..23318a4 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -134,7 +134,8 @@ std::string ELFFileUtil<ELFT>::GetBuildId() {
     llvm::Error err = llvm::Error::success();
     for (const typename ELFT::Note &note : elf_file_->notes(shdr, err)) {
       llvm::StringRef r = note.getName();
-      if (r == kBuildIdNoteName) {
+      if (r == kBuildIdNoteName &&
+          note.getType() == llvm::ELF::NT_GNU_BUILD_ID) {
         // Notes are aligned to 4 bytes at least, also when sh_addralign is 0.
         llvm::ArrayRef<uint8_t> build_id =
             note.getDesc(std::max<size_t>(shdr.sh_addralign, 4));
-- 
2.43.0


From e706e15add844521c543af4974c4184ce4d51ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:12 +0000
Subject: [PATCH 28/28] fix: directories of DWARF 5 line tables are numbered
 from 0

---
 addr2line.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/addr2line.cc b/addr2line.cc
index af9fba1..c54a2d4 100644
--- a/addr2line.cc
+++ b/addr2line.cc
@@ -125,12 +125,16 @@ void LLVMAddr2line::GetInlineStack(uint64_t address, SourceStack *stack) const {
     if (line_table->hasFileAtIndex(file)) {
       const auto &entry = line_table->Prologue.getFileNameEntry(file);
       file_name = llvm::dwarf::toString(entry.Name).value();
+      // Directory 0 is the compilation directory, which only DWARF 5 lists.
+      const uint64_t first_dir =
+          line_table->Prologue.getVersion() >= 5 ? 0 : 1;
       if (entry.DirIdx > 0 &&
-          entry.DirIdx <= line_table->Prologue.IncludeDirectories.size())
-        dir_name =
-            llvm::dwarf::toString(
-                line_table->Prologue.IncludeDirectories[entry.DirIdx - 1])
-                .value();
+          entry.DirIdx - first_dir <
+              line_table->Prologue.IncludeDirectories.size())
+        dir_name = llvm::dwarf::toString(
+                       line_table->Prologue
+                           .IncludeDirectories[entry.DirIdx - first_dir])
+                       .value();
     }
     stack->emplace_back(function_name, dir_name, file_name, start_line, line,
                         discriminator);
-- 
2.43.0

