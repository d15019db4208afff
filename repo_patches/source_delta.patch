From 5f71efae1f32e2fb6debf9d95cbebc5cf7bc6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 01/64] fix: DWARF5 range lists: only offset_pair entries are
 relative to the base address

---
 util/symbolize/dwarf3ranges.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 13f5a9a..48c8b85 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -123,7 +123,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             CHECK(stop_ptr <= (addr_buffer_ + addr_buffer_length_));
             uint64 stop = reader_->ReadAddress(stop_ptr);
             if (start != stop)
-              ranges->push_back (make_pair (start + base, stop + base));
+              ranges->push_back (make_pair (start, stop));
             break;
           }
           case DW_RLE_startx_length: {
@@ -138,7 +138,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (start + base, start + base + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           case DW_RLE_offset_pair: {
@@ -173,7 +173,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (base + start, base + start + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           default: { 
-- 
2.43.0


From d5d75a8a8a205e25cb7eb73730dc3a8564c9e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 02/64] fix: DWARF 5 line tables number directories and files
 from 0

---
 util/symbolize/addr2line_inlinestack.cc |  4 ++--
 util/symbolize/dwarf2reader.cc          |  6 ++++--
 util/symbolize/functioninfo.cc          | 12 +++++++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f68f6e1..c081e82 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -265,7 +265,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
   if (!subprogram_stack_.empty()) {
     switch (attr) {
       case DW_AT_call_file: {
-        if (data == 0 || data >= file_names_->size()) {
+        if (data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -468,7 +468,7 @@ void InlineStackHandler::ProcessAttributeSigned(
       case DW_AT_call_file: {
         CHECK(form == DW_FORM_implicit_const);
 
-        if (data == 0 || data >= file_names_->size()) {
+        if (data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 072665f..14d4b1f 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1646,7 +1646,8 @@ void LineInfo::ReadHeader() {
           malformed_ = true;
           return;
         }
-        handler_->DefineDir(dirname, row);
+        // DWARF 5 directory and file entries are numbered from 0.
+        handler_->DefineDir(dirname, row - 1);
       }
     }
 
@@ -1692,7 +1693,8 @@ void LineInfo::ReadHeader() {
           malformed_ = true;
           return;
         }
-        handler_->DefineFile(filename, row, dirindex, mod_time, filelength);
+        handler_->DefineFile(filename, row - 1, dirindex, mod_time,
+                             filelength);
       }
     }
   }
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index ec0f904..aca989d 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -51,8 +51,8 @@ CULineInfoHandler::CULineInfoHandler(
   Init();
 }
 void CULineInfoHandler::Init() {
-  // The dirs and files are 1 indexed, so just make sure we put
-  // nothing in the 0 vector.
+  // Before DWARF 5 the dirs and files are 1 indexed, so just make sure we
+  // put nothing in the 0 vector.  A DWARF 5 table defines entry 0 itself.
   CHECK_EQ(dirs_->size(), 0);
   CHECK_EQ(files_->size(), 0);
   dirs_->push_back("");
@@ -85,6 +85,10 @@ bool CULineInfoHandler::ShouldAddAddress(uint64 address) const {
 }
 
 void CULineInfoHandler::DefineDir(const char *name, uint32 dir_num) {
+  if (dir_num == 0) {
+    (*dirs_)[0] = name;
+    return;
+  }
   // These should never come out of order, actually
   CHECK_EQ(dir_num, dirs_->size());
   dirs_->push_back(name);
@@ -96,7 +100,9 @@ void CULineInfoHandler::DefineFile(const char *name,
   // These should never come out of order, actually.
   CHECK_GE(dir_num, 0);
   CHECK_LT(dir_num, dirs_->size());
-  if (file_num == files_->size() || file_num == -1) {
+  if (file_num == 0) {
+    (*files_)[0] = std::make_pair(dir_num, name);
+  } else if (file_num == files_->size() || file_num == -1) {
     files_->push_back(std::make_pair(dir_num, name));
   } else {
     LOG(INFO) << "error in DefineFile";
-- 
2.43.0


From 2ed459f1d86ed49a422d29ce94c28f36daa4f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 03/64] fix: pass .debug_str and .debug_str_offsets themselves
 to the line reader, and load .debug_str_offsets

---
 legacy_addr2line.cc                     |  3 ++-
 util/symbolize/addr2line_inlinestack.cc |  8 ++++----
 util/symbolize/functioninfo.cc          | 10 +++++-----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 96d7e0c..45a614d 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -91,7 +91,8 @@ bool Google3Addr2line::Prepare() {
   SectionMap sections;
   const char *debug_section_names[] = {
     ".debug_line", ".debug_abbrev", ".debug_info", ".debug_str",
-    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str"
+    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str",
+    ".debug_str_offsets"
   };
   for (const char *section_name : debug_section_names) {
     size_t section_size;
diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index c081e82..4722b4e 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -415,15 +415,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           const char* str_buffer = NULL;
           uint64 str_buffer_size = 0;
           if (str_section != sections_.end()) {
-            str_buffer = line_str->second.first;
-            str_buffer_size = line_str->second.second;
+            str_buffer = str_section->second.first;
+            str_buffer_size = str_section->second.second;
           }
           SectionMap::const_iterator str_offsets = sections_.find(".debug_str_offsets");
           const char* str_offsets_buffer = NULL;
           uint64 str_offsets_size = 0;
           if (str_offsets != sections_.end()) {
-            str_offsets_buffer = line_str->second.first;
-            str_offsets_size = line_str->second.second;
+            str_offsets_buffer = str_offsets->second.first;
+            str_offsets_size = str_offsets->second.second;
           }                    
           LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                             line_str_buffer, line_str_size,
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index aca989d..350d34a 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -263,15 +263,15 @@ void CUFunctionInfoHandler::ProcessAttributeUnsigned(uint64 offset,
     const char* str_buffer = NULL;
     uint64 str_buffer_size = 0;
     if (str_section != sections_.end()) {
-      str_buffer = line_str->second.first;
-      str_buffer_size = line_str->second.second;
+      str_buffer = str_section->second.first;
+      str_buffer_size = str_section->second.second;
     }
-    SectionMap::const_iterator str_offset = sections_.find(".debug_line_str");
+    SectionMap::const_iterator str_offset = sections_.find(".debug_str_offsets");
     const char* str_offset_buffer = NULL;
     uint64 str_offset_size = 0;
     if (str_offset != sections_.end()) {
-      str_offset_buffer = line_str->second.first;
-      str_offset_size = line_str->second.second;
+      str_offset_buffer = str_offset->second.first;
+      str_offset_size = str_offset->second.second;
     }                    
     LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                       line_str_buffer, line_str_size,
-- 
2.43.0


From 31e94f9dd6f6603001a8fcf613235f6cbdcbed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 04/64] fix: addrx forms advance by the size of their operand,
 and addrx2 reads its index

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 14d4b1f..4ff5645 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -807,7 +807,7 @@ const char* CompilationUnit::ProcessAttribute(
     case DW_FORM_GNU_addr_index: {
       CHECK(addr_buffer_ != NULL);
       uint64 addr_index = 0;
-      size_t len;
+      size_t len = 0;
       switch (form) {
         case DW_FORM_addrx1: {
           addr_index = reader_->ReadOneByte(start);
@@ -815,7 +815,7 @@ const char* CompilationUnit::ProcessAttribute(
             break;
         }
         case DW_FORM_addrx2: {
-          uint64 addr_index = reader_->ReadTwoBytes(start);
+          addr_index = reader_->ReadTwoBytes(start);
           len += 2;
             break;
         }
@@ -842,7 +842,7 @@ const char* CompilationUnit::ProcessAttribute(
                                                                 reader_->AddressSize())
                           );
       ProcessAttributeUnsigned(dieoffset, attr, form, v);
-      return start + 1;
+      return start + len;
       break;  
     }
     case DW_FORM_implicit_const: {
-- 
2.43.0


From 49ea74558847538f90fa5c0e95402c7eaeee2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 05/64] fix: skip DW_FORM_line_strp attributes of DIEs that are
 not processed

---
 util/symbolize/dwarf2reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 4ff5645..fb6ee7b 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -268,6 +268,7 @@ const char* CompilationUnit::SkipAttribute(const char* start, enum DwarfForm for
     }
       break;
     case DW_FORM_strp:
+    case DW_FORM_line_strp:
     case DW_FORM_strp_sup:
     case DW_FORM_sec_offset:
         return start + reader_->OffsetSize();
-- 
2.43.0


From e8252918a04b8f41398765580be1377edd373682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 06/64] fix: accept any constant form, including
 implicit_const, for call and declaration lines and discriminators

---
 util/symbolize/addr2line_inlinestack.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 4722b4e..b7bd8b8 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -296,15 +296,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         break;  
       }
       case DW_AT_call_line:
-        CHECK(form == DW_FORM_data1 ||
-              form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
       case DW_AT_GNU_discriminator:
-        CHECK(form == DW_FORM_data1 ||
-              form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
         subprogram_stack_.back()->set_callsite_discr(data);
         break;
       case DW_AT_abstract_origin:
@@ -463,12 +457,11 @@ void InlineStackHandler::ProcessAttributeSigned(
     enum DwarfAttribute attr,
     enum DwarfForm form,
     int64 data) {
+    if (subprogram_stack_.empty()) return;
 
     switch (attr) {
       case DW_AT_call_file: {
-        CHECK(form == DW_FORM_implicit_const);
-
-        if (data >= file_names_->size()) {
+        if (data < 0 || data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -489,9 +482,16 @@ void InlineStackHandler::ProcessAttributeSigned(
         break;
       }
       case DW_AT_call_line:
-        CHECK(form == DW_FORM_implicit_const);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
+      case DW_AT_GNU_discriminator:
+        subprogram_stack_.back()->set_callsite_discr(data);
+        break;
+      case DW_AT_decl_line:
+        if (die_stack_.back() == DW_TAG_subprogram) {
+          subprogram_stack_.back()->set_callsite_line(data);
+        }
+        break;
 
       default:
         break;
-- 
2.43.0


From 61f39ac739646d02dc1abe770ccbf064405f305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 07/64] fix: resolve addrx entries of directly referenced range
 lists against the unit's address base

---
 util/symbolize/addr2line_inlinestack.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index b7bd8b8..c2d163d 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -345,7 +345,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_);
+          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
         }
         else {
           CHECK(form == DW_FORM_rnglistx);
-- 
2.43.0


From ad90e8234e83513d5b6f39e2caa2dc7676499285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 08/64] fix: a compilation unit without DW_AT_comp_dir no
 longer inherits the previous unit's

---
 util/symbolize/addr2line_inlinestack.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index c2d163d..0babc06 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -105,6 +105,8 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   compilation_unit_base_ = 0;
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
+  // A unit without DW_AT_comp_dir must not inherit the previous unit's.
+  compilation_unit_comp_dir_.push_back(NULL);
   if (input_file_index_ == -1) {
     input_file_index_ = 0;
     subprograms_by_offset_maps_.push_back(new SubprogramsByOffsetMap);
@@ -202,7 +204,8 @@ bool InlineStackHandler::StartDIE(uint64 offset,
           subprogram_stack_.empty() ? NULL : subprogram_stack_.back();
       SubprogramInfo *child = new SubprogramInfo(input_file_index_,
                                                  offset, parent, inlined);
-      if (!compilation_unit_comp_dir_.empty())
+      if (!compilation_unit_comp_dir_.empty() &&
+          compilation_unit_comp_dir_.back() != NULL)
         child->set_comp_directory(compilation_unit_comp_dir_.back()->c_str());
       SubprogramsByOffsetMap* subprograms_by_offset =
           subprograms_by_offset_maps_[input_file_index_];
-- 
2.43.0


From 4a14784a47976d998833a954180ef6d251acddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 09/64] fix: reading past the end of a gcov file is an error,
 so a truncated profile is not accepted

---
 gcov.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcov.cc b/gcov.cc
index f16437b..5975661 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -187,6 +187,8 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
                    1, excess_bytes, gcov_var.file);
     gcov_var.byte_length += excess_bytes;
     if (gcov_var.byte_length < bytes) {
+      // The file is shorter than its contents require: gcov_close reports it.
+      gcov_var.error = 1;
       gcov_var.byte_length = 0;
       return 0;
     }
-- 
2.43.0


From f108db7f53103398dd5050684bff397acc84695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 10/64] fix: strings of 16 KB and more can be read back from a
 gcov file

---
 gcov.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gcov.cc b/gcov.cc
index 5975661..951ea9a 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -174,7 +174,6 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
   unsigned excess_bytes = gcov_var.byte_length - gcov_var.byte_offset;
 
   CHECK_GT(gcov_var.mode, 0);
-  CHECK(bytes < GCOV_BLOCK_BYTE_SIZE);
   if (excess_bytes < bytes) {
     memmove(gcov_var.buffer, gcov_var.buffer + gcov_var.byte_offset, excess_bytes);
     gcov_var.byte_offset = 0;
-- 
2.43.0


From 139145d8c4c43bc8110014e1e52f56b544e72ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 11/64] fix: do not attribute a body count or call target to
 the caller of a frame without location

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 355df2f..7fbd454 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -546,7 +546,7 @@ Symbol *SymbolMap::TraverseInlineStack(absl::string_view symbol_name,
   for (int i = src.size() - 1; i > 0; i--) {
     if ((data_source == PERFDATA || data_source == AFDOPROTO) &&
         src[i].HasInvalidInfo())
-      break;
+      return nullptr;
     std::pair<CallsiteMap::iterator, bool> ret =
         symbol->callsites.insert(CallsiteMap::value_type(
             Callsite{.location = src[i].Offset(use_discriminator_encoding),
-- 
2.43.0


From 06e86cbb9cd659bcb78fb41bef3ddf6c2d073016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 12/64] fix: reading several profiles sums the counts of an
 indirect call target instead of keeping the last

---
 symbol_map.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 7fbd454..aed4ed4 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -601,8 +601,15 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
   if ((data_source == PERFDATA || data_source == AFDOPROTO) &&
       src[0].HasInvalidInfo())
     return false;
-  symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
-      .target_map[GetOriginalName(target)] = count;
+  uint64_t &target_count =
+      symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
+          .target_map[GetOriginalName(target)];
+  // As for source counts: when reading afdo profiles, merge the counts.
+  if (data_source == AFDOPROFILE) {
+    target_count += count;
+  } else {
+    target_count = count;
+  }
   return true;
 }
 
-- 
2.43.0


From fd7a938578535a752175a939a22800962c35d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 13/64] fix: --suffix_elision_policy=selected strips the
 .lto_priv and .isra suffixes it lists

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index aed4ed4..00b6aa9 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -87,7 +87,7 @@ void PrintSourceLocation(uint32_t start_line, uint64_t offset, int indent) {
 }
 
 static const char *selectedSuffixes[] =
-  {".cold", ".llvm.", ".lto_priv", ".__part.", ".isra"};
+  {".cold", ".llvm.", ".lto_priv.", ".__part.", ".isra."};
 
 std::string getPrintName(const char *name) {
   char tmp_buf[1024];
-- 
2.43.0


From c654e9ab48f2a145c44a027ac800024aee42718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 14/64] fix: inclusive totals are not truncated to 32 bits

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 00b6aa9..59ab57d 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -968,7 +968,7 @@ void SymbolMap::ComputeTotalCountIncl() {
   // same total_count_incl.
   std::vector<Symbol *> stacksyms;
   for (auto *node : sorted) {
-    unsigned scc_total_count_incl = 0;
+    uint64_t scc_total_count_incl = 0;
     for (auto *sym : node->syms) {
       sym->total_count_incl = sym->total_count;
       stacksyms.push_back(sym);
-- 
2.43.0


From 8e7856adeaa269479637c11ef3cf6f1b1e1e808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 15/64] fix: number call graph nodes in discovery order, so
 that cycles are found whatever the visiting order

---
 symbol_map.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 59ab57d..272cb42 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -796,7 +796,7 @@ class CallGraph {
   void TopoVisit(SCCNode *node, absl::flat_hash_set<SCCNode *> *workingset,
                  std::vector<SCCNode *> *sorted);
   SCCNode *CreateSCCNode(Symbol *sym);
-  void StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+  void StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                      SCCMap *sccmap);
   void CollapseSCC(SCCMap *sccmap);
 
@@ -847,11 +847,11 @@ SCCNode *CallGraph::FindOrCreateSCCNode(Symbol *sym) {
 
 // Find the strongly connected component using DFS. sccmap is the map mapping
 // each node to the root node of the SCC where node belongs to.
-void CallGraph::StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+void CallGraph::StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                               SCCMap *sccmap) {
-  node->index = index;
-  node->lowlink = index;
-  index++;
+  node->index = *index;
+  node->lowlink = *index;
+  (*index)++;
   stack->push_back(node);
 
   for (auto *callee : node->callees) {
@@ -908,7 +908,7 @@ void CallGraph::FindAndCollapseSCC() {
   NodeStack stack;
   SCCMap sccmap;
   for (auto *node : nodes) {
-    if (!node->index) StrongConnect(node, index, &stack, &sccmap);
+    if (!node->index) StrongConnect(node, &index, &stack, &sccmap);
   }
   CollapseSCC(&sccmap);
 }
-- 
2.43.0


From 333ae520dd293c5fbfda34843ac0e90e4402c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 16/64] fix: symbols merged into another by suffix elision no
 longer count twice in the working sets

---
 symbol_map.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index 272cb42..daa44d4 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -337,6 +337,12 @@ void SymbolMap::ElideSuffixesAndMerge() {
     for (auto &n_s : map_) {
       if (n_s.second == sym) n_s.second = ret.first->second;
     }
+    // sym's counts are in the merged symbol now: they must not be seen twice
+    // by what iterates over unique_symbols_.
+    unique_symbols_.erase(
+        std::remove_if(unique_symbols_.begin(), unique_symbols_.end(),
+                       [sym](const auto &s) { return s.get() == sym; }),
+        unique_symbols_.end());
   }
 }
 
-- 
2.43.0


From 08a0505cb4643f05da3b2eab8440f0bb4fe26f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 17/64] fix: flattening nested inline callsites no longer
 counts a recursively inlined function twice in its callers' totals

---
 symbol_map.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index daa44d4..32cce26 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1373,7 +1373,10 @@ void SymbolMap::BuildHybridProfile(const SymbolMap &srcmap,
 
 int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
     int max_inline_callsite_nesting_level, int depth, Symbol *func) {
-  int64_t original_total_count = func->total_count;
+  // Only what happens to this instance counts: when an inlined function is
+  // merged into the top level function that func is itself inlined in, the
+  // counts merged into func are already in its callers' totals.
+  int64_t total_count_diff = 0;
   // Iterator of func->callsites may be invalidated if an inlined function with
   // the same name as the top level function is flattened and merged into itself
   // and causes callsites to be rehashed. We need to make a copy of callsites.
@@ -1387,6 +1390,7 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
     for (const auto *pos_and_callsite : callsites) {
       const Callsite &pos = pos_and_callsite->first;
       Symbol *callsite = pos_and_callsite->second;
+      total_count_diff -= callsite->total_count;
       func->total_count -= callsite->total_count;
       // We process the deepest nested inline callsite first because if the same
       // function already exists and is previously processed, we need to make
@@ -1404,8 +1408,10 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
       func->pos_counts[pos.location].count = std::max(
           func->pos_counts[pos.location].count,
           func->pos_counts[pos.location].target_map[callsite->info.func_name]);
-      func->total_count +=
+      uint64_t added_count =
           func->pos_counts[pos.location].count - original_count;
+      total_count_diff += added_count;
+      func->total_count += added_count;
       // Add outlined callsite and its content to the top level symbol map.
       AddSymbolToMap(*callsite);
       map_.at(callsite->info.func_name)->Merge(callsite);
@@ -1416,10 +1422,11 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
       Symbol *callsite = pos_and_callsite->second;
       int64_t diff = FlattenNestedInlineCallsitesImpl(
           max_inline_callsite_nesting_level, depth + 1, callsite);
+      total_count_diff += diff;
       func->total_count += diff;
     }
   }
-  return func->total_count - original_total_count;
+  return total_count_diff;
 }
 
 int SymbolMap::FlattenNestedInlineCallsites(
-- 
2.43.0


From 1df5434a93de445f87a712623b377e5e6dcbc1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 18/64] fix: decode base-only FS discriminators as FS
 discriminators

---
 source_info.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_info.h b/source_info.h
index a8f4a8f..c82af61 100644
--- a/source_info.h
+++ b/source_info.h
@@ -46,7 +46,7 @@ struct SourceInfo {
         line - start_line,
         (use_base_discriminator
              ? llvm::DILocation::getBaseDiscriminatorFromDiscriminator(
-                   discriminator)
+                   discriminator, use_fs_discriminator)
              : discriminator));
 #else
     return (static_cast<uint64_t>(line - start_line) << 32) | discriminator;
-- 
2.43.0


From b9062d43d0539964766da7e75a9a8a633be3acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 19/64] fix: reading an empty ELF section at a page boundary no
 longer aborts

---
 util/symbolize/elf_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index 9787c11..19c23ad 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -136,6 +136,9 @@ class ElfSectionReader {
     const size_t offset_aligned = header_.sh_offset - additional;
     section_size_ = header_.sh_size;
     size_aligned_ = section_size_ + additional;
+    // mmap rejects empty mappings: map one byte for an empty section that
+    // starts on a page boundary.
+    if (size_aligned_ == 0) size_aligned_ = 1;
     contents_aligned_ = mmap(NULL, size_aligned_, PROT_READ, MAP_SHARED,
                              fd, offset_aligned);
     if (contents_aligned_ == MAP_FAILED)
-- 
2.43.0


From 7b24bf0a8b2576092e7a88e2a1f76cc05be4dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 20/64] fix: an ELF file whose headers cannot be read no longer
 crashes later queries

---
 util/symbolize/elf_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index 19c23ad..135683e 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -271,7 +271,12 @@ class ElfReaderImpl {
     string error;
     CHECK(IsArchElfFile(fd, &error)) << " Could not parse file: " << error;
     is_dwp_ = MyHasSuffixString(path, ".dwp");
-    ParseHeaders(fd, path);
+    if (!ParseHeaders(fd, path)) {
+      // Forget the counts and offsets of headers that were not read, so that
+      // the file is treated as one without sections and segments.
+      header_ = {};
+      first_section_header_ = {};
+    }
   }
 
   ~ElfReaderImpl() {
-- 
2.43.0


From 3a1ab7dcab7a9b00f73e972f4352034cf18ef0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 21/64] fix: report the right directory for DWARF 5 line tables

---
 addr2line.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/addr2line.cc b/addr2line.cc
index af9fba1..d2f6cc6 100644
--- a/addr2line.cc
+++ b/addr2line.cc
@@ -125,11 +125,15 @@ void LLVMAddr2line::GetInlineStack(uint64_t address, SourceStack *stack) const {
     if (line_table->hasFileAtIndex(file)) {
       const auto &entry = line_table->Prologue.getFileNameEntry(file);
       file_name = llvm::dwarf::toString(entry.Name).value();
+      // Directory 0 is that of the compilation. It is listed in the table since
+      // DWARF 5 only; before, the first listed directory is number 1.
+      const auto &directories = line_table->Prologue.IncludeDirectories;
+      const uint64_t first_directory =
+          line_table->Prologue.getVersion() >= 5 ? 0 : 1;
       if (entry.DirIdx > 0 &&
-          entry.DirIdx <= line_table->Prologue.IncludeDirectories.size())
+          entry.DirIdx - first_directory < directories.size())
         dir_name =
-            llvm::dwarf::toString(
-                line_table->Prologue.IncludeDirectories[entry.DirIdx - 1])
+            llvm::dwarf::toString(directories[entry.DirIdx - first_directory])
                 .value();
     }
     stack->emplace_back(function_name, dir_name, file_name, start_line, line,
-- 
2.43.0


From aeecfe954c056bcc9f25b636139a9ab670d38d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 22/64] fix: units with an indexed range list no longer abort
 the symbolizer

DW_AT_ranges of a unit is the unit's own range list, in whatever form; it is
not the base of the range lists of its functions.
---
 util/symbolize/addr2line_inlinestack.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 0babc06..842a094 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -438,9 +438,6 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_str_offsets_base:
         str_offset_base_ = data;
         break;
-      case DW_AT_ranges: 
-        CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
-        FALLTHROUGH_INTENDED;
       case DW_AT_GNU_ranges_base:
       case DW_AT_rnglists_base:
         ranges_base_ = data;     
-- 
2.43.0


From c9e900d6f45dbe29df4a1b4f0eecf0ea98bf4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 23/64] fix: range lists of split units are relative to
 DW_AT_GNU_ranges_base

---
 util/symbolize/addr2line_inlinestack.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 842a094..cf90d46 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -103,6 +103,7 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  ranges_base_ = 0;
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
   // A unit without DW_AT_comp_dir must not inherit the previous unit's.
@@ -348,6 +349,10 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
+          // Before DWARF 5, the offsets in a split unit are relative to
+          // DW_AT_GNU_ranges_base of its skeleton unit.
+          if (dwarf_version_ < 5 && input_file_index_ != 0)
+            data += ranges_base_;
           address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
         }
         else {
-- 
2.43.0


From 1258739f97c5e2dcc90dae0c989e60923597d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 24/64] fix: DWARF 5 line tables with MD5, size or timestamp
 columns are read

Clang writes an MD5 column by default; the whole table was dropped as
malformed.
---
 util/symbolize/dwarf2reader.cc | 33 +++++++++++++++++++++++++++++++--
 util/symbolize/dwarf2reader.h  |  3 +++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index fb6ee7b..e5a6d39 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1458,6 +1458,35 @@ bool LineInfo::ReadUnsignedForm(uint32 form, uint64* value,
   return true;
 }
 
+bool LineInfo::SkipForm(uint32 form, const char** lineptr) {
+  size_t len;
+
+  switch (form) {
+    case DW_FORM_data1:
+      return AdvanceLinePtr(1, lineptr);
+    case DW_FORM_data2:
+      return AdvanceLinePtr(2, lineptr);
+    case DW_FORM_data4:
+      return AdvanceLinePtr(4, lineptr);
+    case DW_FORM_data8:
+      return AdvanceLinePtr(8, lineptr);
+    case DW_FORM_data16:
+      return AdvanceLinePtr(16, lineptr);
+    case DW_FORM_udata:
+      reader_->ReadUnsignedLEB128(*lineptr, &len);
+      return AdvanceLinePtr(len, lineptr);
+    case DW_FORM_block: {
+      const uint64 size = reader_->ReadUnsignedLEB128(*lineptr, &len);
+      return AdvanceLinePtr(len, lineptr) && size < buffer_length_ &&
+             AdvanceLinePtr(size, lineptr);
+    }
+    default: {
+      const char* unused;
+      return ReadStringForm(form, &unused, lineptr);
+    }
+  }
+}
+
 // The header for a debug_line section is mildly complicated, because
 // the line info is very tightly encoded.
 void LineInfo::ReadHeader() {
@@ -1638,7 +1667,7 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
-          } else {
+          } else if (!SkipForm(content_forms[col], &lineptr)) {
             malformed_ = true;
             return;
           }
@@ -1685,7 +1714,7 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
-          } else {
+          } else if (!SkipForm(content_forms[col], &lineptr)) {
             malformed_ = true;
             return;
           }
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 130f45e..844dcbd 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -165,6 +165,9 @@ class LineInfo {
   // Reads an unsigned integer of form DW_FORM_udata.
   bool ReadUnsignedForm(uint32 form, uint64* value, const char** lineptr);
 
+  // Skips a value of the given form, which holds something we do not use.
+  bool SkipForm(uint32 form, const char** lineptr);
+
   // Reads the DWARF2/3 header for this line info.
   void ReadHeader();
 
-- 
2.43.0


From 963e635267d2912c950d1c2f2b3f679e4f32ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 25/64] fix: indexed range lists of .dwo files use that file's
 table, and no longer outlive it

---
 util/symbolize/addr2line_inlinestack.h |  2 ++
 util/symbolize/dwarf2reader.cc         | 33 +++++++++++++-------------
 util/symbolize/dwarf3ranges.h          |  5 ++++
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 0bf46cc..e35bb36 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -227,6 +227,8 @@ class InlineStackHandler: public Dwarf2Handler {
     address_ranges_ = address_ranges;
   }
 
+  AddressRangeList *address_range_list() const { return address_ranges_; }
+
   const SubprogramInfo *GetSubprogramForAddress(uint64 address);
 
   const SubprogramInfo *GetDeclaration(const SubprogramInfo *subprog) const;
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index e5a6d39..efa29a2 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -19,6 +19,7 @@
 #include <unistd.h>
 #include <stdint.h>
 #include <string.h>
+#include <memory>
 #include <stack>
 #include <utility>
 
@@ -1016,33 +1017,31 @@ void CompilationUnit::ProcessSplitDwarf() {
         ReadDebugSectionsFromDwo(&elf, &sections);
 
         auto iter = sections.find(".debug_rnglists");
-        size_t debug_ranges_size = 0;
-        const char *debug_ranges_data = NULL;
-        size_t debug_rnglist_size = 0;
-        const char *debug_rnglist_data = NULL;
+        std::unique_ptr<AddressRangeList> debug_ranges;
+        InlineStackHandler *inlinestackhandler = NULL;
+        AddressRangeList *saved_ranges = NULL;
         if (iter != sections.end()) {
-          debug_rnglist_data = iter->second.first;
-          debug_rnglist_size = iter->second.second;
-          AddressRangeList *debug_ranges = 
-                new AddressRangeList(debug_ranges_data,
-                                      debug_ranges_size,
-                                      debug_rnglist_data,
-                                      debug_rnglist_size,
-                                      &reader,
-                                      addr_buffer_, 
-                                      addr_buffer_length_);
-          InlineStackHandler *inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
+          debug_ranges = std::make_unique<AddressRangeList>(
+              nullptr, 0, iter->second.first, iter->second.second, &reader,
+              addr_buffer_, addr_buffer_length_);
+          inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
           if(!inlinestackhandler)  {
             LOG(FATAL) << "It is not possbile to process the .debug_rnglists sections in seperate .dwo files without InlineStackHandler.";
           }
-          inlinestackhandler->set_address_range_list(debug_ranges);
+          saved_ranges = inlinestackhandler->address_range_list();
+          inlinestackhandler->set_address_range_list(debug_ranges.get());
+          // The unit in a .dwo file has no DW_AT_rnglists_base: its indexes
+          // refer to the only table there is.
+          inlinestackhandler->set_range_base(debug_ranges->FirstRngListsBase());
         }
 
-        
         CompilationUnit dwo_comp_unit(dwo_name_, sections, 0, &reader,
                                       handler_);
         dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
         dwo_comp_unit.Start();
+        // The range lists of the .dwo file are gone after this.
+        if (inlinestackhandler != NULL)
+          inlinestackhandler->set_address_range_list(saved_ranges);
         if (dwo_comp_unit.malformed())
           LOG(WARNING) << "File '" << dwo_name_ << "' has mangled "
                        << ".debug_info.dwo section.";
diff --git a/util/symbolize/dwarf3ranges.h b/util/symbolize/dwarf3ranges.h
index fc0299c..8d662e6 100644
--- a/util/symbolize/dwarf3ranges.h
+++ b/util/symbolize/dwarf3ranges.h
@@ -118,6 +118,11 @@ class AddressRangeList {
 
   uint64 GetRngListsElementOffsetByIndex(uint64 addr_base, uint64 rng_index);
 
+  // Returns the base of the first table in .debug_rnglists.
+  uint64 FirstRngListsBase() const {
+    return rngdatamap_.empty() ? 0 : rngdatamap_.begin()->first;
+  }
+
  private:
 
   uint64 ReadOffset(const char** offsetarrayptr);
-- 
2.43.0


From 03a6a2c47cef83faaa7df847a0564b8afc4086e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 26/64] fix: indexed forms before the base attributes of their
 unit use the unit's own bases

---
 util/symbolize/dwarf2reader.cc | 25 +++++++++++++++++++++++++
 util/symbolize/dwarf2reader.h  |  4 ++++
 2 files changed, 29 insertions(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index efa29a2..7df18f3 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -869,9 +869,34 @@ void CompilationUnit::ProcessAttributeUnsigned(uint64 offset,
     handler_->ProcessAttributeUnsigned(offset, attr, form, data);
   }
 
+void CompilationUnit::ReadUnitBases(const char* start, const Abbrev& abbrev) {
+  for (const auto& attr : abbrev.attributes) {
+    if (attr.form == DW_FORM_sec_offset) {
+      switch (attr.name) {
+        case DW_AT_str_offsets_base:
+          handler_->set_str_offset_base(reader_->ReadOffset(start));
+          break;
+        case DW_AT_addr_base:
+          handler_->set_addr_base(reader_->ReadOffset(start));
+          break;
+        case DW_AT_rnglists_base:
+          handler_->set_range_base(reader_->ReadOffset(start));
+          break;
+        default:
+          break;
+      }
+    }
+    start = SkipAttribute(start, attr.form);
+  }
+}
+
 const char* CompilationUnit::ProcessDIE(uint64 dieoffset,
                                         const char* start,
                                         const Abbrev& abbrev) {
+  if (header_.version == 5 && (abbrev.tag == DW_TAG_compile_unit ||
+                               abbrev.tag == DW_TAG_skeleton_unit)) {
+    ReadUnitBases(start, abbrev);
+  }
   for (AttributeList::const_iterator i = abbrev.attributes.begin();
        i != abbrev.attributes.end();
        i++)  {
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 844dcbd..7591e5a 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -642,6 +642,10 @@ class CompilationUnit {
   // new place to position the stream to.
   const char* SkipAttribute(const char* start, enum DwarfForm form);
 
+  // Passes the bases the unit DIE at START gives for indexed forms to the
+  // handler.  Attributes before them may already use these forms.
+  void ReadUnitBases(const char* start, const Abbrev& abbrev);
+
   // Process the actual debug information in a split DWARF file.
   void ProcessSplitDwarf();
 
-- 
2.43.0


From 94afd625ee03928f46d095a57ef4834b4ba7fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 27/64] fix: DWARF 5 units are read from binaries that also
 have DWARF 4 split units

---
 util/symbolize/dwarf2reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 7df18f3..7c4d8d0 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -331,7 +331,8 @@ void CompilationUnit::ReadDebugAddressTableHeader(const char* addr_ptr,
   uint16 version = reader_->ReadTwoBytes(headerptr);
   headerptr += 2;
   if (header_.version != version) {
-    malformed_ = true;
+    // The section starts with the table of a DWARF 4 split unit, which has no
+    // header.  The table of this unit, if any, is where DW_AT_addr_base says.
     return;
   }
   
-- 
2.43.0


From 9996ac7d48a77c29ebed2da884cd61afc054d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 28/64] fix: no block for a branch from the empty end of a
 function

---
 llvm_propeller_binary_address_mapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index d71128a..9956834 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -252,7 +252,8 @@ std::optional<int> BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress(
       return it - bb_handles_.begin();
     }
     case BranchDirection::kFrom: {
-      DCHECK_NE(GetBBEntry(*it).Size, 0);
+      // Only empty blocks at the end of their function start at this address.
+      if (GetBBEntry(*it).Size == 0) return std::nullopt;
       return it - bb_handles_.begin();
     }
     default:
-- 
2.43.0


From 4e61a3956ad8059326d6b6afe35fc658cd5a7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 29/64] fix: 64-bit totals of branch counters

---
 branch_frequencies.h | 2 +-
 lbr_aggregation.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/branch_frequencies.h b/branch_frequencies.h
index 1dee479..427a2c5 100644
--- a/branch_frequencies.h
+++ b/branch_frequencies.h
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo
     int64_t GetNumberOfTakenBranchCounters() const
     {
       return absl::c_accumulate(
-          taken_branch_counters, 0,
+          taken_branch_counters, int64_t{0},
           [](int64_t cnt, const auto &v)
           { return cnt + v.second; });
     }
diff --git a/lbr_aggregation.h b/lbr_aggregation.h
index 2d58359..ac6a9b4 100644
--- a/lbr_aggregation.h
+++ b/lbr_aggregation.h
@@ -21,7 +21,7 @@ namespace devtools_crosstool_autofdo {
 struct LbrAggregation {
   int64_t GetNumberOfBranchCounters() const {
     return absl::c_accumulate(
-        branch_counters, 0,
+        branch_counters, int64_t{0},
         [](int64_t cnt, const auto &v) { return cnt + v.second; });
   }
 
-- 
2.43.0


From 1ecf859f42c3b2c4850a0769c31b7b3990bccb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 30/64] fix: 64-bit addresses of CFG nodes

---
 llvm_propeller_cfg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_cfg.h b/llvm_propeller_cfg.h
index c3408b8..aa49fc1 100644
--- a/llvm_propeller_cfg.h
+++ b/llvm_propeller_cfg.h
@@ -264,7 +264,7 @@ class CFGNode final {
   const int bb_id_;
   // Index of the node in its CFG's `nodes()`.
   const int node_index_;
-  const int addr_;
+  const uint64_t addr_;
   int size_ = 0;
   const llvm::object::BBAddrMap::BBEntry::Metadata metadata_;
   int freq_ = 0;
-- 
2.43.0


From d5db991929cb2fdda21d0e3cef3740f45d644237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 31/64] fix: scores of heavy edges no longer wrap around

---
 llvm_propeller_code_layout_scorer.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/llvm_propeller_code_layout_scorer.cc b/llvm_propeller_code_layout_scorer.cc
index 98582c9..b979684 100644
--- a/llvm_propeller_code_layout_scorer.cc
+++ b/llvm_propeller_code_layout_scorer.cc
@@ -32,20 +32,24 @@ double PropellerCodeLayoutScorer::GetEdgeScore(const CFGEdge &edge,
 
   if (edge.IsReturn()) src_sink_distance += edge.sink()->size() / 2;
 
+  // The product of the edge weight and the configured weights may not fit in an
+  // integer.
+  const double edge_weight = edge.weight();
+
   if (src_sink_distance == 0 && edge.IsBranchOrFallthrough())
-    return edge.weight() * code_layout_params_.fallthrough_weight();
+    return edge_weight * code_layout_params_.fallthrough_weight();
 
   double absolute_src_sink_distance =
       static_cast<double>(std::abs(src_sink_distance));
   if (src_sink_distance > 0 &&
       absolute_src_sink_distance < code_layout_params_.forward_jump_distance())
-    return edge.weight() * code_layout_params_.forward_jump_weight() *
+    return edge_weight * code_layout_params_.forward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.forward_jump_distance());
 
   if (src_sink_distance < 0 &&
       absolute_src_sink_distance < code_layout_params_.backward_jump_distance())
-    return edge.weight() * code_layout_params_.backward_jump_weight() *
+    return edge_weight * code_layout_params_.backward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.backward_jump_distance());
   return 0;
-- 
2.43.0


From f917dd6faffc96f6786b5de74f6e7095b435863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 32/64] fix: edges within initial chains are sorted before the
 chains are split

---
 llvm_propeller_node_chain_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm_propeller_node_chain_builder.cc b/llvm_propeller_node_chain_builder.cc
index 14a96ab..44bf0b0 100644
--- a/llvm_propeller_node_chain_builder.cc
+++ b/llvm_propeller_node_chain_builder.cc
@@ -494,6 +494,8 @@ void NodeChainBuilder::InitChainEdges() {
     });
   }
   for (auto &[chain_id, chain] : chains_) {
+    // Splitting a chain relies on its edges being sorted.
+    chain->SortIntraChainEdges(*node_to_bundle_mapper_);
     chain->SetScore(
         chain->ComputeScore(*node_to_bundle_mapper_, code_layout_scorer_));
   }
-- 
2.43.0


From 0855677f7229363f61f06c499be85e49ebc91130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 33/64] fix: heavy call edges are no longer taken for cold ones
 when clustering

---
 llvm_propeller_chain_cluster_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_chain_cluster_builder.cc b/llvm_propeller_chain_cluster_builder.cc
index 3a4b637..175fcc1 100644
--- a/llvm_propeller_chain_cluster_builder.cc
+++ b/llvm_propeller_chain_cluster_builder.cc
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo {
 namespace {
 // We omit edges if their weight is less than
 // 1/kHotEdgeRelativeFrequencyThreshold of their sink.
-constexpr int kHotEdgeRelativeFrequencyThreshold = 10;
+constexpr int64_t kHotEdgeRelativeFrequencyThreshold = 10;
 // We avoid clustering if it reduces the density by more than
 // 1/kDensityDegradationThreshold.
 constexpr int64_t kExecutionDensityDegradationThreshold = 8;
-- 
2.43.0


From 35b722f1880615d3b96b94306329728d1e2505f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 34/64] fix: report a text sample file that could not be
 written

---
 sample_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index ac5d6ab..a56b55b 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -252,7 +252,11 @@ bool TextSampleReaderWriter::Write(const char *aux_info) {
   if (aux_info) {
     fprintf(fp, "%s", aux_info);
   }
-  fclose(fp);
+  const bool write_failed = ferror(fp) != 0;
+  if (fclose(fp) != 0 || write_failed) {
+    LOG(ERROR) << "Error writing to " << profile_file_;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From f8a6c9e225ce1b098dc5a5a756d2779983ec09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 35/64] fix: forget the matched DSOs of a perf file that has
 been released

---
 sample_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index a56b55b..c3baa1e 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -271,6 +271,9 @@ bool TextSampleReaderWriter::IsFileExist() const {
 }
 
 bool PerfDataSampleReader::Append(const std::string &profile_file) {
+  // The cache refers to DSOs of the previous file, which no longer exist, and
+  // to the names that matched in that file.
+  match_cache_.clear();
   quipper::PerfReader reader;
   quipper::PerfParser parser(&reader);
   if (!reader.ReadFile(profile_file) || !parser.ParseRawEvents()) {
-- 
2.43.0


From 18a23b2739d5838926ee69bed722bd4f6aba0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 36/64] fix: end LBR ranges at the next branch that was really
 taken

---
 sample_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index c3baa1e..b376fd3 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -319,10 +319,14 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
       branch_count_map_[Branch(event.branch_stack[start_index].from.offset(),
                                event.branch_stack[start_index].to.offset())]++;
     }
+    // The entry that was executed right after the current one.
+    int next_index = start_index;
     for (int i = start_index + 1; i < event.branch_stack.size(); i++) {
       if (event.branch_stack[i].spec == quipper::PERF_BR_SPEC_WRONG_PATH) {
         continue;
       }
+      const auto &next_branch = event.branch_stack[next_index];
+      next_index = i;
 
       if (!MatchBinary(event.branch_stack[i].to)) {
         continue;
@@ -347,7 +351,7 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         continue;
       }
       uint64_t begin = event.branch_stack[i].to.offset();
-      uint64_t end = event.branch_stack[i - 1].from.offset();
+      uint64_t end = next_branch.from.offset();
       // The interval between two taken branches should not be too large.
       if (end < begin || end - begin > (1 << 20)) {
         const std::string reason =
-- 
2.43.0


From bec6a80ec98be75799040d12cf7bc4bfdaefd8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 37/64] fix: do not make LBR ranges that end in another binary

---
 sample_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index b376fd3..e9510a6 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -350,6 +350,11 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         LOG(WARNING) << "Bogus LBR data (duplicated top entry)";
         continue;
       }
+      if (!MatchBinary(next_branch.from)) {
+        LOG(WARNING) << "Bogus LBR data (range ends in another binary) index="
+                     << i;
+        continue;
+      }
       uint64_t begin = event.branch_stack[i].to.offset();
       uint64_t end = next_branch.from.offset();
       // The interval between two taken branches should not be too large.
-- 
2.43.0


From f94f7b7ddf444a93cd899610be92e445453bcaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 38/64] fix: handle mmaps that reach the end of the address
 space

---
 perfdata_reader.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index acdac31..827b9c0 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -237,8 +237,10 @@ absl::StatusOr<BinaryMMaps> SelectMMaps(
           entry_exists = true;
           continue;
         }
-        if (!((load_addr + load_size <= e.load_addr) ||
-              (e.load_addr + e.load_size <= load_addr))) {
+        // Written so that the end of a mapping is never computed, which may not
+        // be representable.
+        if (load_addr <= e.load_addr ? e.load_addr - load_addr < load_size
+                                     : load_addr - e.load_addr < e.load_size) {
           return absl::FailedPreconditionError(absl::StrCat(
               "Found conflict mmap event: ",
               MMapEntry{pid, load_addr, load_size, page_offset,
@@ -292,7 +294,7 @@ uint64_t PerfDataReader::RuntimeAddressToBinaryAddress(uint32_t pid,
   if (i == binary_mmaps_.end()) return kInvalidBinaryAddress;
   const MMapEntry *mmap = nullptr;
   for (const MMapEntry &p : i->second)
-    if (p.load_addr <= addr && addr < p.load_addr + p.load_size) mmap = &p;
+    if (p.load_addr <= addr && addr - p.load_addr < p.load_size) mmap = &p;
   if (!mmap) return kInvalidBinaryAddress;
 
   uint64_t file_offset;
-- 
2.43.0


From 934f9026701070c36b5f77ed23169d5e26bb8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 39/64] fix: let the SPE reader see the events that map threads
 to processes

---
 perfdata_reader.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index 827b9c0..36b3645 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -363,12 +363,9 @@ void PerfDataReader::ReadWithSampleCallBack(
 absl::Status PerfDataReader::ReadWithSpeRecordCallBack(
     absl::FunctionRef<void(const quipper::ArmSpeDecoder::Record &, int)>
         callback) const {
+  // All events are serialised, because SpeTidPidProvider learns from sample,
+  // mmap, fork and comm events which process a thread belongs to.
   quipper::PerfReader perf_reader;
-  // We don't need to serialise anything here, so let's exclude all major event
-  // types.
-  perf_reader.SetEventTypesToSkipWhenSerializing(
-      {quipper::PERF_RECORD_SAMPLE, quipper::PERF_RECORD_MMAP,
-       quipper::PERF_RECORD_FORK, quipper::PERF_RECORD_COMM});
   if (!perf_reader.ReadFromPointer(perf_data_.buffer->getBufferStart(),
                                    perf_data_.buffer->getBufferSize())) {
     LOG(FATAL) << "Failed to read perf data file: " << perf_data_.description;
-- 
2.43.0


From 42180ff8b93f3585f7f161ded6714fc740623ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 40/64] fix: map SPE threads to processes when events are out
 of order

---
 spe_tid_pid_provider.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spe_tid_pid_provider.cc b/spe_tid_pid_provider.cc
index cfc8220..2e6887a 100644
--- a/spe_tid_pid_provider.cc
+++ b/spe_tid_pid_provider.cc
@@ -27,9 +27,9 @@ SpeTidPidProvider::SpeTidPidProvider(
 
     auto record = [&](int pid, int tid, uint64_t timestamp) {
       if (pid <= 0 || tid <= 0) return;
+      // Events may be out of order, so an entry is needed even if the one before
+      // it is from the same PID: a later event may come between them.
       absl::btree_map<uint64_t, pid_t>& pids = tids_to_pids_[tid];
-      // If the most recent entry is from this PID, don't bother adding it.
-      if (!pids.empty() && pids.rbegin()->second == pid) return;
       VLOG(7) << absl::StrCat("tid = ", tid, ", timestamp = ", timestamp,
                               ", pid = ", pid, "\n");
       pids.insert(std::make_pair(timestamp, pid));
-- 
2.43.0


From ae6093259ecdc62b1bc228b3e1225b99d36d71d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 41/64] fix: take only build-id notes for the build id

---
 llvm_propeller_binary_content.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index 7a28c52..db9742a 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -133,7 +133,8 @@ std::string ELFFileUtil<ELFT>::GetBuildId() {
     llvm::Error err = llvm::Error::success();
     for (const typename ELFT::Note &note : elf_file_->notes(shdr, err)) {
       llvm::StringRef r = note.getName();
-      if (r == kBuildIdNoteName) {
+      if (r == kBuildIdNoteName &&
+          note.getType() == llvm::ELF::NT_GNU_BUILD_ID) {
         llvm::ArrayRef<uint8_t> build_id = note.getDesc(shdr.sh_addralign);
         std::string build_id_str(build_id.size() * 2, '0');
         int k = 0;
-- 
2.43.0


From 7cb9c77be1ba9bb21ecf1b2b12ac01e196208fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 42/64] fix: carry SPE execution counts into the range that
 follows

---
 simple_spe_sample_reader.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simple_spe_sample_reader.cc b/simple_spe_sample_reader.cc
index a1d59ad..960f508 100644
--- a/simple_spe_sample_reader.cc
+++ b/simple_spe_sample_reader.cc
@@ -85,9 +85,12 @@ void SimpleSpeDataSampleReader::SynthesizeRanges() {
   for (const auto& [addr, _] : address_count_map_) branch_addrs.insert(addr);
   
   uint64_t ranges_created = 0;
+  // At the start of each iteration, the weight that falls through from the
+  // preceding range.
+  uint64_t range_weight = 0;
   for (auto it = incoming_weights.begin(); it != incoming_weights.end(); ++it) {
     uint64_t range_start = it->first;
-    uint64_t range_weight = it->second;
+    range_weight += it->second;
     uint64_t scan_end = (std::next(it) != incoming_weights.end()) 
                         ? std::next(it)->first : range_start + kMaxRangeSize;
     
@@ -106,7 +109,7 @@ void SimpleSpeDataSampleReader::SynthesizeRanges() {
         range_weight = (not_taken_it != address_count_map_.end()) ? not_taken_it->second : 0;
         range_start = *next_branch + kArmInstructionSize;
       } else {
-        break;
+        range_start = scan_end;
       }
     }
   }
-- 
2.43.0


From d1f15e0fe42e077eedb3a51e9db79e1272ee4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:00 +0000
Subject: [PATCH 43/64] fix: do not count SPE samples in the total before their
 ranges are

---
 simple_spe_sample_reader.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/simple_spe_sample_reader.cc b/simple_spe_sample_reader.cc
index 960f508..cf5fa33 100644
--- a/simple_spe_sample_reader.cc
+++ b/simple_spe_sample_reader.cc
@@ -142,11 +142,7 @@ bool SimpleSpeDataSampleReader::Append(const std::string &profile_file) {
     range_count_map_[range] += count;
   }
   
-  // Update total count
-  total_count_ += temp_reader.total_count_;
-  
-  LOG(INFO) << "Appended profile " << profile_file 
-            << " (" << temp_reader.total_count_ << " samples)";
+  LOG(INFO) << "Appended profile " << profile_file;
   
   return true;
 }
@@ -170,6 +166,8 @@ bool SimpleSpeDataSampleReader::Read() {
   const auto &events = reader.events();
   uint64_t spe_event_count = 0;
   uint64_t branch_records = 0;
+  // The total count is set by ReadAndSetTotalCount, from the ranges.
+  uint64_t valid_samples = 0;
   
   for (const auto &event : events) {
     // Check if this event contains ARM SPE trace data
@@ -195,7 +193,7 @@ bool SimpleSpeDataSampleReader::Read() {
       // Handle conditional not-taken branches
       if (record.op.br_eret.br_cond && record.event.cond_not_taken) {
         address_count_map_[binary_offset]++;
-        total_count_++;
+        valid_samples++;
         continue;
       }
       
@@ -205,7 +203,7 @@ bool SimpleSpeDataSampleReader::Read() {
         uint64_t target_offset = mmap_info.VaToBinaryOffset(target_runtime);
         if (target_offset != 0) {
           branch_count_map_[Branch(binary_offset, target_offset)]++;
-          total_count_++;
+          valid_samples++;
         }
       }
     }
@@ -216,7 +214,7 @@ bool SimpleSpeDataSampleReader::Read() {
     return false;
   }
   
-  if (branch_records == 0 || total_count_ == 0) {
+  if (branch_records == 0 || valid_samples == 0) {
     LOG(ERROR) << "No valid branch samples collected";
     return false;
   }
-- 
2.43.0


From 1bb8b9d860580fcf98079d7edcf7f52cbfd2c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 44/64] fix: do not read in front of symbol names shorter than
 @plt

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 32cce26..5c72e4b 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -512,7 +512,7 @@ void SymbolMap::BuildSymbolMap() {
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
             (type == STT_FUNC || absl::EndsWith(name, ".cold") || std::regex_search(name, kSuffixRe)) &&
-            strcmp(name + strlen(name) - 4, "@plt") != 0);
+            !absl::EndsWith(name, "@plt"));
   };
   elf_reader.VisitSymbols(&symbol_reader);
 #if defined(HAVE_LLVM)
-- 
2.43.0


From d0da04a7341a850533f3bdf1e6fea262e6786ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 45/64] fix: the timestamp of a function is its earliest
 sample, not the one at its lowest address

---
 profile.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profile.cc b/profile.cc
index c6f71cf..ca3fbfa 100644
--- a/profile.cc
+++ b/profile.cc
@@ -64,7 +64,8 @@ void Profile::AggregatePerFunctionProfile(bool check_lbr_entry) {
   for (const auto &[addr, timestamp] : *address_timestamp_map) {
     uint64_t vaddr = symbol_map_->get_static_vaddr(addr);
     ProfileMaps *maps = GetProfileMaps(vaddr);
-    if (maps != nullptr && maps->timestamp == 0) {
+    if (maps != nullptr && timestamp != 0 &&
+        (maps->timestamp == 0 || timestamp < maps->timestamp)) {
       maps->timestamp = timestamp;
     }
   }
-- 
2.43.0


From d71547ee3e890f852c20be70330de09dfd4621a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 46/64] fix: a function keeps its earliest timestamp when
 profiles or function parts are merged

---
 symbol_map.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 5c72e4b..bf4218a 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -142,6 +142,9 @@ Symbol::~Symbol() {
 void Symbol::Merge(const Symbol *other) {
   total_count += other->total_count;
   head_count += other->head_count;
+  if (other->timestamp != 0 &&
+      (timestamp == 0 || other->timestamp < timestamp))
+    timestamp = other->timestamp;
   if (info.file_name.empty()) {
     info.file_name = other->info.file_name;
     info.dir_name = other->info.dir_name;
@@ -533,7 +536,10 @@ void SymbolMap::AddSymbolEntryCount(absl::string_view symbol_name,
 
 void SymbolMap::AddSymbolTimestamp(absl::string_view symbol_name, uint64_t timestamp) {
   Symbol *symbol = map_.find(symbol_name)->second;
-  symbol->timestamp = timestamp;
+  // 0 means that no sample of the symbol has a timestamp.
+  if (timestamp != 0 &&
+      (symbol->timestamp == 0 || timestamp < symbol->timestamp))
+    symbol->timestamp = timestamp;
 }
 
 Symbol *SymbolMap::TraverseInlineStack(absl::string_view symbol_name,
-- 
2.43.0


From a0670c17c52da6ad383e07201215e249d0a79f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 47/64] fix: calls of a function by several instructions of one
 source location add up

---
 profile_creator.cc | 2 +-
 symbol_map.cc      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 09d68b6..bdb1574 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -253,7 +253,7 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
     if (!symbol_map->AddIndirectCallTarget(
             *name, stack,
             "__prefetch_" + hint.type + "_" + std::to_string(prefetch_index),
-            static_cast<uint64_t>(delta))) {
+            static_cast<uint64_t>(delta), SymbolMap::INVALID)) {
       LOG(WARNING) << "Ignoring address " << std::hex << pc
                    << ". Could not add an indirect call target. Likely the "
                       "inline stack is empty for this address.";
diff --git a/symbol_map.cc b/symbol_map.cc
index bf4218a..3e7ac43 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -616,11 +616,11 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
   uint64_t &target_count =
       symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
           .target_map[GetOriginalName(target)];
-  // As for source counts: when reading afdo profiles, merge the counts.
-  if (data_source == AFDOPROFILE) {
-    target_count += count;
-  } else {
+  // Samples of different instructions or profiles add up. Hints do not.
+  if (data_source == INVALID) {
     target_count = count;
+  } else {
+    target_count += count;
   }
   return true;
 }
-- 
2.43.0


From 1ecfa28005a0e26b7962622dbefafaec63339538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 48/64] fix: an address without inline stack no longer leaves
 an empty symbol behind

---
 symbol_map.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 3e7ac43..1e99e3d 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1488,15 +1488,16 @@ void SymbolMap::BuildFlatProfile(const SymbolMap &srcmap,
 bool SymbolMap::EnsureEntryInFuncForSymbol(absl::string_view func_name,
                                            uint64_t pc) {
   if (map().find(func_name) != map().end()) return true;
-  AddSymbol(func_name);
   SourceStack stack;
   get_addr2line()->GetInlineStack(pc, &stack);
-  // Add bogus samples, so that the writer won't skip over.
-  if (!TraverseInlineStack(func_name, stack, count_threshold() + 1)) {
+  if (stack.empty()) {
     LOG(WARNING) << "Ignoring address " << std::hex << pc
                  << ". No inline stack found.";
     return false;
   }
+  AddSymbol(func_name);
+  // Add bogus samples, so that the writer won't skip over.
+  TraverseInlineStack(func_name, stack, count_threshold() + 1);
   return true;
 }
 
-- 
2.43.0


From 458a648463d27b631152703bca03a0cc8b651a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 49/64] fix: symbols created while merging start without a
 timestamp

---
 symbol_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.h b/symbol_map.h
index 6613f9e..449a355 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -245,7 +245,7 @@ class Symbol {
   // Map from source location to count and instruction number.
   PositionCountMap pos_counts;
   // timestamp of first executed instruction
-  uint64_t timestamp;
+  uint64_t timestamp = 0;
 };
 
 // Vector of unique pointers to symbols.
-- 
2.43.0


From 31ac40b43824004d1f30b9f94311898c3dc1c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 50/64] fix: refuse prefetch hints that cannot be read, and do
 not overrun the buffer of the hint type

---
 profile_creator.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index bdb1574..e280bf0 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -68,20 +68,24 @@ typedef std::vector<PrefetchHint> PrefetchHints;
 //   - the hint type (string) - e.g. NTA, T{0|1|2}.
 // The delta is to the next cache miss, calculated from the memory location
 // used in the memory operation at PC.
-PrefetchHints ReadPrefetchHints(const std::string &file_name) {
-  PrefetchHints hints;
+// Returns false if the file cannot be read.
+bool ReadPrefetchHints(const std::string &file_name, PrefetchHints &hints) {
   FILE *fp = fopen(file_name.c_str(), "r");
   if (fp == nullptr) {
     LOG(ERROR) << "Cannot open " << file_name << "to read";
+    return false;
   } else {
     uint64_t address = 0;
     int64_t delta = 0;
-    char prefetch_type[5];
+    char prefetch_type[64];
     while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%s\n", &address, &delta,
-                      prefetch_type)) {
+      const int fields = fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%63s\n", &address,
+                                &delta, prefetch_type);
+      if (fields == EOF && !ferror(fp)) break;
+      if (fields != 3) {
         LOG(ERROR) << "Error reading from " << file_name;
-        break;
+        fclose(fp);
+        return false;
       }
       // We don't validate the type here. We'll just use it as a suffix to the
       // "__prefetch" indirect call, and let the compiler decide if it
@@ -91,7 +95,7 @@ PrefetchHints ReadPrefetchHints(const std::string &file_name) {
     }
     fclose(fp);
   }
-  return hints;
+  return true;
 }
 }  // namespace
 
@@ -229,7 +233,8 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
   // used.
   if (!CheckAndAssignAddr2Line(symbol_map, Addr2line::Create(binary_)))
     return false;
-  PrefetchHints hints = ReadPrefetchHints(profile_file);
+  PrefetchHints hints;
+  if (!ReadPrefetchHints(profile_file, hints)) return false;
   absl::btree_map<uint64_t, uint8_t> repeated_prefetches_indices;
   for (auto &hint : hints) {
     uint64_t pc = hint.address;
-- 
2.43.0


From efd0b99d5993f1fc028f2f4aee41b73d7474ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 51/64] fix: refuse to merge no profiles, whatever flags are
 given

---
 profile_merger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile_merger.cc b/profile_merger.cc
index 6948eb2..c0c10ae 100644
--- a/profile_merger.cc
+++ b/profile_merger.cc
@@ -147,7 +147,7 @@ int main(int argc, char **argv) {
   std::vector<char*> positionalArguments = absl::ParseCommandLine(argc, argv);
   devtools_crosstool_autofdo::SymbolMap symbol_map;
 
-  if (argc < 2) {
+  if (positionalArguments.size() < 2) {
     LOG(FATAL) << "Please at least specify an input profile";
   }
 
-- 
2.43.0


From bbaaeca9932149215ea7fe22468da42442f807bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 52/64] fix: dump_gcov accepts flags and reports profiles it
 cannot read

---
 dump_gcov.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dump_gcov.cc b/dump_gcov.cc
index 49a2ba6..38d4f0e 100644
--- a/dump_gcov.cc
+++ b/dump_gcov.cc
@@ -14,6 +14,8 @@
 
 // Read the gcda file and dump the information.
 
+#include <vector>
+
 #include "base/commandlineflags.h"
 #include "profile_reader.h"
 #include "symbol_map.h"
@@ -22,16 +24,19 @@
 
 int main(int argc, char **argv) {
   absl::SetProgramUsageMessage(argv[0]);
-  absl::ParseCommandLine(argc, argv);
+  std::vector<char *> positional_arguments =
+      absl::ParseCommandLine(argc, argv);
 
-  if (argc != 2) {
+  if (positional_arguments.size() != 2) {
     LOG(FATAL) << "Please use: dump_gcov file_path\n";
     return -1;
   }
   devtools_crosstool_autofdo::SymbolMap symbol_map;
   devtools_crosstool_autofdo::AutoFDOProfileReader reader(
       &symbol_map, false);
-  reader.ReadFromFile(argv[1]);
+  if (!reader.ReadFromFile(positional_arguments[1])) {
+    LOG(FATAL) << "Error reading " << positional_arguments[1];
+  }
   symbol_map.Dump();
   return 0;
 }
-- 
2.43.0


From a1af845113076e7b24f47240c645120cc18e4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 53/64] fix: profile_diff accepts flags and reports profiles it
 cannot read

---
 profile_diff.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/profile_diff.cc b/profile_diff.cc
index fc11f27..4953fcf 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -24,18 +24,23 @@ int main(int argc, char **argv) {
       "of [0,1]). If overlap is > 0.9, the two profiles are "
       "considered similar and should provide comparable speedup.";
   absl::SetProgramUsageMessage(use);
-  absl::ParseCommandLine(argc, argv);
+  std::vector<char *> positional_arguments =
+      absl::ParseCommandLine(argc, argv);
   devtools_crosstool_autofdo::SymbolMap symbol_map_1, symbol_map_2;
 
-  if (argc != 3) {
+  if (positional_arguments.size() != 3) {
     LOG(FATAL) << "Please specify two files to compare";
   }
 
   absl::node_hash_set<std::string> names;
   devtools_crosstool_autofdo::LLVMProfileReader reader_1(&symbol_map_1, names);
   devtools_crosstool_autofdo::LLVMProfileReader reader_2(&symbol_map_2, names);
-  reader_1.ReadFromFile(argv[1]);
-  reader_2.ReadFromFile(argv[2]);
+  if (!reader_1.ReadFromFile(positional_arguments[1])) {
+    LOG(FATAL) << "Error reading " << positional_arguments[1];
+  }
+  if (!reader_2.ReadFromFile(positional_arguments[2])) {
+    LOG(FATAL) << "Error reading " << positional_arguments[2];
+  }
 
   if (absl::GetFlag(FLAGS_compare_function)) {
     symbol_map_1.DumpFuncLevelProfileCompare(symbol_map_2);
-- 
2.43.0


From 083f53f3aa72c0668b3460e32eac72b9b42f6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 54/64] fix: leave functions the profile mentions without their
 suffix out of the symbol list

---
 symbol_map.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 1e99e3d..b2018eb 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1529,7 +1529,11 @@ NameSizeList SymbolMap::collectNamesForProfSymList() {
   NameSizeList name_size_list;
   for (const auto &addr_symbol : address_symbol_map_) {
     llvm::StringRef str = addr_symbol.second.first;
-    if (names_in_profile.count(str)) continue;
+    // The list and the profile hold names without their suffix.
+    if (names_in_profile.count(str) ||
+        names_in_profile.count(GetOriginalName(str.data()))) {
+      continue;
+    }
     name_size_list.emplace_back(str, addr_symbol.second.second);
   }
   return name_size_list;
-- 
2.43.0


From 970655bb2a6b857aab1937438da26010f3adcccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:13 +0000
Subject: [PATCH 55/64] fix: match the profiled binary by its name, not by its
 name as a regular expression

---
 profile_creator.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index e280bf0..a733f72 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -176,7 +176,13 @@ bool ProfileCreator::ReadSample(absl::string_view input_profile_name,
       }
       const char *file_base_name = basename(dup_name);
       CHECK(file_base_name) << "Cannot find basename for: " << binary_;
-      focus_binary_re = std::string(".*/") + file_base_name + "$";
+      // The file name is no regular expression ("clang++").
+      focus_binary_re = ".*/";
+      for (const char *c = file_base_name; *c != '\0'; ++c) {
+        if (strchr("^$\\.*+?()[]{}|", *c) != nullptr) focus_binary_re += '\\';
+        focus_binary_re += *c;
+      }
+      focus_binary_re += "$";
       free(dup_name);
 
       ElfReader reader(binary_);
-- 
2.43.0


From a6869be93a12e45f6a969fda434c1d45ed9f44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 56/64] fix: give every input profile of create_llvm_prof the
 type --profiler says

---
 create_llvm_prof.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 3992c27..95dfc32 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -155,7 +155,9 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     for (const std::string &pf : perf_files)
       if (!pf.empty())
         option_builder.AddInputProfiles(
-            devtools_crosstool_autofdo::InputProfileBuilder().SetName(pf));
+            devtools_crosstool_autofdo::InputProfileBuilder()
+                .SetName(pf)
+                .SetType(GetProfileTypeFromFlag()));
   }
   if (!absl::GetFlag(FLAGS_propeller_cfg_dump_dir).empty()) {
     option_builder.SetCfgDumpDirName(
-- 
2.43.0


From 55fc849d4b1a3c394750271e8812404cf8fbb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 57/64] fix: add up the totals of functions without body
 samples when merging LLVM profiles

---
 llvm_profile_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm_profile_reader.cc b/llvm_profile_reader.cc
index e466368..9886508 100644
--- a/llvm_profile_reader.cc
+++ b/llvm_profile_reader.cc
@@ -80,10 +80,13 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   if (stack.empty() && !shouldMergeProfileForSym(func_name)) return;
 
   const char *top_func_name = nullptr;
+  // The total before this profile, when earlier profiles have the function.
+  uint64_t initial_total_count = 0;
   if (stack.empty()) {
     top_func_name = func_name;
     symbol_map_->AddSymbol(func_name);
     symbol_map_->AddSymbolEntryCount(func_name, fs.getHeadSamples());
+    initial_total_count = symbol_map_->map().at(func_name)->total_count;
   } else {
     top_func_name = stack.back().func_name;
   }
@@ -119,7 +122,7 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   // debug information receive samples and lines with debug information don't.
   // It's not something we have seen in practice so it's not being implemented.
   if (stack.empty() &&
-      symbol_map_->map().at(func_name)->total_count == 0) {
+      symbol_map_->map().at(func_name)->total_count == initial_total_count) {
     symbol_map_->AddSymbolEntryCount(func_name, 0, fs.getTotalSamples());
   }
 }
-- 
2.43.0


From 3786e8e892ec665430dd0e37fb42cb9f3298eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 58/64] fix: --ignore_build_id of create_llvm_prof takes effect

---
 create_llvm_prof.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 95dfc32..36d7585 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -163,12 +163,16 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     option_builder.SetCfgDumpDirName(
         absl::GetFlag(FLAGS_propeller_cfg_dump_dir));
   }
+  // A name that is set, even to nothing, is used instead of the build id.
+  if (!absl::GetFlag(FLAGS_profiled_binary_name).empty()) {
+    option_builder.SetProfiledBinaryName(
+        absl::GetFlag(FLAGS_profiled_binary_name));
+  }
 
   return devtools_crosstool_autofdo::PropellerOptions(
       option_builder.SetBinaryName(absl::GetFlag(FLAGS_binary))
           .SetClusterOutName(absl::GetFlag(FLAGS_out))
           .SetSymbolOrderOutName(absl::GetFlag(FLAGS_propeller_symorder))
-          .SetProfiledBinaryName(absl::GetFlag(FLAGS_profiled_binary_name))
           .SetIgnoreBuildId(absl::GetFlag(FLAGS_ignore_build_id))
           .SetCodeLayoutParamsChainSplit(
               absl::GetFlag(FLAGS_propeller_chain_split))
-- 
2.43.0


From 3b34c9dec9f0efdfa83774973f305db31543f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 59/64] fix: status consumers start when the jobs they watch
 are known

---
 llvm_propeller_profile_generator.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/llvm_propeller_profile_generator.cc b/llvm_propeller_profile_generator.cc
index 3385254..6c6618c 100644
--- a/llvm_propeller_profile_generator.cc
+++ b/llvm_propeller_profile_generator.cc
@@ -148,6 +148,7 @@ namespace devtools_crosstool_autofdo
             create_aggregator)
     {
       MultiStatusProvider main_status("generate propeller profiles");
+      StatusProviders statuses = AddStatusProviders(main_status);
 
       // Because the stopper "stops" consumers that have a reference to
       // main_status, we must declared "stopper" after "main_status" so "stopper" is
@@ -160,8 +161,6 @@ namespace devtools_crosstool_autofdo
                         /*status_provider=*/&main_status);
       }
 
-      StatusProviders statuses = AddStatusProviders(main_status);
-
       ASSIGN_OR_RETURN(std::unique_ptr<BinaryContent> binary_content,
                        GetBinaryContent(opts.binary_name()));
       statuses.binary_reading->SetDone();
-- 
2.43.0


From 1b0d8971c714f43576cb52d09524a7b16e32c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 60/64] fix: do not report Propeller profiles as written when
 they are not

---
 llvm_propeller_profile_writer.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index 9a6512b..ffac1b9 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -32,6 +32,12 @@
 namespace devtools_crosstool_autofdo {
 
 namespace {
+// Closes `os` and checks that everything reached the file.
+void CheckWritten(std::ofstream &os, absl::string_view file_name) {
+  os.close();
+  CHECK(os.good()) << "Failed to write " << file_name << ".";
+}
+
 void DumpCfgs(const PropellerProfile &profile,
               absl::string_view cfg_dump_dir_name) {
   // Create the cfg dump directory and the cfg index file.
@@ -82,8 +88,10 @@ void DumpCfgs(const PropellerProfile &profile,
                                    cluster.layout_index + bbi});
 
       cfg->WriteDotFormat(cfg_dump_os, layout_index_map);
+      CheckWritten(cfg_dump_os, cfg_dump_file);
     }
   }
+  CheckWritten(cfg_index_os, cfg_index_file);
 }
 
 // Dumps the intra-function edge profile of `cfg` into `out`.
@@ -255,6 +263,11 @@ void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
       }
     }
   }
+  // Files that were not asked for have no name.
+  if (!options_.cluster_out_name().empty())
+    CheckWritten(cc_profile_os, options_.cluster_out_name());
+  if (!options_.symbol_order_out_name().empty())
+    CheckWritten(ld_profile_os, options_.symbol_order_out_name());
   if (options_.has_cfg_dump_dir_name())
     DumpCfgs(profile, options_.cfg_dump_dir_name());
 }
-- 
2.43.0


From bc5d403bac3a9ad6b2b48c4f13c1b6bfa5176380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:29 +0000
Subject: [PATCH 61/64] fix: sum the weight of the dubious edges in 64 bits

---
 llvm_propeller_program_cfg_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 44fd0d5..b869c19 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -210,7 +210,7 @@ absl::Status ProgramCfgBuilder::CreateEdges(
 
   absl::flat_hash_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
 
-  int weight_on_dubious_edges = 0;
+  int64_t weight_on_dubious_edges = 0;
   int edges_recorded = 0;
   for (auto [branch, weight] : branch_aggregation.branch_counters) {
     ++edges_recorded;
-- 
2.43.0


From bd76fe7048227e2fcac40b95b7320c85ce622ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:01 +0000
Subject: [PATCH 62/64] fix: skip DWARF 5 type units instead of ending the
 debug information at them

---
 util/symbolize/dwarf2reader.cc | 25 +++++++++++++++++++------
 util/symbolize/dwarf2reader.h  |  7 +++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 7c4d8d0..aa8a46a 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -393,7 +393,8 @@ void CompilationUnit::ReadHeader() {
       header_.unit_type = reader_->ReadOneByte(headerptr);
       if (header_.unit_type != DwarfUnitType::DW_UT_compile &&
           header_.unit_type != DwarfUnitType::DW_UT_skeleton &&
-          header_.unit_type != DwarfUnitType::DW_UT_split_compile) 
+          header_.unit_type != DwarfUnitType::DW_UT_split_compile &&
+          !IsTypeUnit()) 
       {
           LOG(INFO) << "Only full compilation unit and skeleton unit types are supported.";
           malformed_ = true;
@@ -522,6 +523,11 @@ uint64 CompilationUnit::Start() {
   else
     ourlength += 4;
 
+  // Type units contain no code.
+  if (IsTypeUnit()) {
+    return ourlength;
+  }
+
   if (is_split_dwarf_) {
     // If the user does not want it, just return.
     if (!handler_->StartSplitCompilationUnit(offset_from_section_start_,
@@ -1061,14 +1067,21 @@ void CompilationUnit::ProcessSplitDwarf() {
           inlinestackhandler->set_range_base(debug_ranges->FirstRngListsBase());
         }
 
-        CompilationUnit dwo_comp_unit(dwo_name_, sections, 0, &reader,
-                                      handler_);
-        dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
-        dwo_comp_unit.Start();
+        // The compilation unit may come after type units.
+        bool malformed = false;
+        uint64 offset = 0;
+        do {
+          CompilationUnit dwo_comp_unit(dwo_name_, sections, offset, &reader,
+                                        handler_);
+          dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
+          offset += dwo_comp_unit.Start();
+          malformed = dwo_comp_unit.malformed();
+          if (malformed || !dwo_comp_unit.IsTypeUnit()) break;
+        } while (offset < sections[".debug_info"].second);
         // The range lists of the .dwo file are gone after this.
         if (inlinestackhandler != NULL)
           inlinestackhandler->set_address_range_list(saved_ranges);
-        if (dwo_comp_unit.malformed())
+        if (malformed)
           LOG(WARNING) << "File '" << dwo_name_ << "' has mangled "
                        << ".debug_info.dwo section.";
       } else {
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 7591e5a..010cf6f 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -507,6 +507,13 @@ class CompilationUnit {
 
   bool malformed() const {return malformed_;}
 
+  // Whether this is a type unit of .debug_info (DWARF 5), which is not read.
+  bool IsTypeUnit() const {
+    return header_.version == 5 &&
+           (header_.unit_type == DwarfUnitType::DW_UT_type ||
+            header_.unit_type == DwarfUnitType::DW_UT_split_type);
+  }
+
   // Begin reading a Dwarf2 compilation unit, and calling the
   // callbacks in the Dwarf2Handler
   // Return the offset of the end of the compilation unit - the passed
-- 
2.43.0


From aefb4a86744e35348b403c362a24cff90b6c1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:12 +0000
Subject: [PATCH 63/64] fix: read DWARF 5 partial units instead of ending the
 debug information at them

---
 util/symbolize/dwarf2reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index aa8a46a..9c8a2d7 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -394,6 +394,7 @@ void CompilationUnit::ReadHeader() {
       if (header_.unit_type != DwarfUnitType::DW_UT_compile &&
           header_.unit_type != DwarfUnitType::DW_UT_skeleton &&
           header_.unit_type != DwarfUnitType::DW_UT_split_compile &&
+          header_.unit_type != DwarfUnitType::DW_UT_partial &&
           !IsTypeUnit()) 
       {
           LOG(INFO) << "Only full compilation unit and skeleton unit types are supported.";
-- 
2.43.0


From 64e5157a24316bb403efad48be40dff0abe546a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:12 +0000
Subject: [PATCH 64/64] fix: accept every unit-relative form of an inlined
 routine's origin

---
 util/symbolize/addr2line_inlinestack.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index cf90d46..41c0e8a 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -261,6 +261,13 @@ void InlineStackHandler::ProcessAttributeString(
   }
 }
 
+// Whether references of this form are relative to the start of the unit.
+static bool IsUnitReference(enum DwarfForm form) {
+  return form == DW_FORM_ref1 || form == DW_FORM_ref2 ||
+         form == DW_FORM_ref4 || form == DW_FORM_ref8 ||
+         form == DW_FORM_ref_udata;
+}
+
 void InlineStackHandler::ProcessAttributeUnsigned(
     uint64 offset,
     enum DwarfAttribute attr,
@@ -309,7 +316,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         if (form == DW_FORM_ref_addr) {
           subprogram_stack_.back()->set_abstract_origin(data);
         } else {
-          CHECK(form == DW_FORM_ref4);
+          CHECK(IsUnitReference(form));
           subprogram_stack_.back()->set_abstract_origin(
             compilation_unit_offset_ + data);
         }
@@ -318,7 +325,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         if (form == DW_FORM_ref_addr) {
           subprogram_stack_.back()->set_specification(data);
         } else {
-          CHECK(form == DW_FORM_ref4);
+          CHECK(IsUnitReference(form));
           subprogram_stack_.back()->set_specification(
               compilation_unit_offset_ + data);
         }
-- 
2.43.0

