From d646e78fdb5ffd492aa9269ba65e225de7192133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 01/50] fix: generate into the new sub-directory when -rw is
 not given

Without -rw the next free numbered directory was created, but all the files
were still written (and overwritten) in the base directory.
---
 src/codegen/fs-creator.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..2994450 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -126,6 +126,7 @@ bool FsCreator::PrepareDirectory(bool rw)
       snprintf(_tmpb, kTmpLen, "%03d", dirnum);
       work_dir_path = basepath + separator + _tmpb;
 
+      // any existing entry (directory or file) makes this number occupied
       if (stat(work_dir_path.c_str(), &info) != 0)
       {
         if (std::filesystem::create_directory(work_dir_path))
@@ -134,20 +135,19 @@ bool FsCreator::PrepareDirectory(bool rw)
           break;
         }
       }
-      else if (info.st_mode & S_IFDIR)
-      {
-        // directory exists, try next num
-        continue;
-      }
-      else
-      {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
-      }
     }
+
+    if (ret)
+    {
+      // all the output files must be placed in the new sub-directory
+      Configure(FS.gen.DrvName_orig, work_dir_path, FS.gen.start_common_info,
+        FS.gen.start_driver_info, FS.gen.hiver, FS.gen.lowver);
+    }
+  }
+
+  if (!ret)
+  {
+    return ret;
   }
 
   std::filesystem::create_directory(FS.file.libdir);
-- 
2.43.0


From ef0ac400bfc69500befd5fe1b82c6ea6428161d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 02/50] fix: do not abort when the output directory does not
 exist

Missing parent directories (always the case with -driverdir in a fresh place)
ended the program with an uncaught filesystem_error; they are created now, and
a place where no directory can be created is reported instead.
---
 src/codegen/fs-creator.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 2994450..e5e436d 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -101,6 +101,7 @@ bool FsCreator::PrepareDirectory(bool rw)
   struct stat info;
 
   std::string work_dir_path;
+  std::error_code err;
   const auto& basepath = FS.file.core_h.dir;
 
   if (rw)
@@ -111,7 +112,8 @@ bool FsCreator::PrepareDirectory(bool rw)
     // for this case check only if directory exists
     if (stat(work_dir_path.c_str(), &info) != 0)
     {
-      if (!std::filesystem::create_directory(work_dir_path))
+      // the parents are missing too when the path was extended (-driverdir)
+      if (!std::filesystem::create_directories(work_dir_path, err))
       {
         ret = false;
       }
@@ -129,7 +131,7 @@ bool FsCreator::PrepareDirectory(bool rw)
       // any existing entry (directory or file) makes this number occupied
       if (stat(work_dir_path.c_str(), &info) != 0)
       {
-        if (std::filesystem::create_directory(work_dir_path))
+        if (std::filesystem::create_directories(work_dir_path, err))
         {
           ret = true;
           break;
@@ -150,13 +152,13 @@ bool FsCreator::PrepareDirectory(bool rw)
     return ret;
   }
 
-  std::filesystem::create_directory(FS.file.libdir);
-  std::filesystem::create_directory(FS.file.usrdir);
-  std::filesystem::create_directory(FS.file.incdir);
-  std::filesystem::create_directory(FS.file.confdir);
-  std::filesystem::create_directory(FS.file.utildir);
+  std::filesystem::create_directory(FS.file.libdir, err);
+  std::filesystem::create_directory(FS.file.usrdir, err);
+  std::filesystem::create_directory(FS.file.incdir, err);
+  std::filesystem::create_directory(FS.file.confdir, err);
+  std::filesystem::create_directory(FS.file.utildir, err);
 
-  return ret;
+  return ret && std::filesystem::is_directory(FS.file.libdir, err);
 }
 
 std::string FsCreator::CreateSubDir(std::string basepath, std::string sub, bool rw)
-- 
2.43.0


From d6c61eb031ac73d6aa7e84d653c4ac53536c0739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 03/50] fix: -dbc and -out without a value count as missing

An empty -out value was accepted and made the generator write to /lib, /usr, ...
---
 src/options-parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options-parser.cpp b/src/options-parser.cpp
index ee77391..873e0c8 100644
--- a/src/options-parser.cpp
+++ b/src/options-parser.cpp
@@ -37,12 +37,12 @@ OptionsParser::GenOptions OptionsParser::GetOptions(int argc, char** argv)
     if (temppairs[i].first.compare("-dbc") == 0)
     {
       retpairs.dbc.first = temppairs[i].second;
-      retpairs.dbc.second = true;
+      retpairs.dbc.second = !retpairs.dbc.first.empty();
     }
     else if (temppairs[i].first.compare("-out") == 0)
     {
       retpairs.outdir.first = temppairs[i].second;
-      retpairs.outdir.second = true;
+      retpairs.outdir.second = !retpairs.outdir.first.empty();
     }
     else if (temppairs[i].first.compare("-drvname") == 0)
     {
-- 
2.43.0


From 4b34ae47aa128373c190c597aa1203ded8593110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 04/50] fix: do not abort on long rolling counter names

The padding of the <name>_expt field was computed with an underflow.
---
 src/codegen/c-main-generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..dc98832 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -589,7 +589,8 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 
   std::string pad = " ";
 
-  dtype += pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  // the expected rolling counter name may be longer than all the signal names
+  dtype += pad.insert(0, (dtype.size() < padwidth + 16) ? (padwidth + 16 - dtype.size()) : 0, ' ');
 
   fwriter.AppendText(dtype);
 
-- 
2.43.0


From 180e5d11cd7d9ad03bfb2e4bb453cd959566a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 05/50] fix: decode signals wider than 32 bits and 32-bit
 signals without signed overflow

A chunk shifted by 25..31 bits (or by 24 with the top bit set) was computed in
int: its high bits were lost and the rest of a wide signal was overwritten by
sign extension.
---
 src/codegen/c-sigprinter.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..6861f07 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -16,6 +16,13 @@ static inline int32_t ShiftByte(const SignalDescriptor_t* sig, int32_t bn)
   return (sig->Order == BitLayout::kIntel) ? (bn - 1) : (bn + 1);
 }
 
+// type cast needed to place @bits bits at position @shift: a byte is promoted
+// to (signed) int, so the cast is necessary if bit 31 or higher is affected
+static inline const char* ShiftCast(int32_t bits, int32_t shift)
+{
+  return (bits + shift > 32) ? "(uint64_t)" : ((bits + shift > 31) ? "(uint32_t)" : "");
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -229,15 +236,9 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
   }
   else
   {
-    std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
-    {
-      t64 = "(uint64_t)";
-    }
-
-    snprintf(workbuff, WBUFF_LEN, "(%s(_d[%d] & (%s)) << %dU)", t64.c_str(), bn, msk[bbc].c_str(), slen);
+    snprintf(workbuff, WBUFF_LEN, "(%s(_d[%d] & (%s)) << %dU)", ShiftCast(bbc, slen), bn, msk[bbc].c_str(), slen);
     tosigexpr += workbuff;
 
     snprintf(workbuff, WBUFF_LEN, "((_m->%s >> %dU) & (%s))", sig->Name.c_str(), slen, msk[bbc].c_str());
@@ -245,8 +246,6 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
     while ((slen - 8) >= 0)
     {
-      t64.clear();
-
       slen -= 8;
 
       bn = ShiftByte(sig, bn);
@@ -273,12 +272,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
-        {
-          t64 = "(uint64_t)";
-        }
-
-        snprintf(workbuff, WBUFF_LEN, "(%s(_d[%d] & (%s)) << %dU)", t64.c_str(), bn, msk[8].c_str(), slen);
+        snprintf(workbuff, WBUFF_LEN, "(%s(_d[%d] & (%s)) << %dU)", ShiftCast(8, slen), bn, msk[8].c_str(), slen);
         tosigexpr += workbuff;
 
         snprintf(workbuff, WBUFF_LEN, "((_m->%s >> %dU) & (%s))", sig->Name.c_str(), slen, msk[8].c_str());
-- 
2.43.0


From dabe2b8abf3fb7f16b197db1f2ef235cd3821a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 06/50] fix: never generate code for a signal which does not
 fit the frame

Only the first byte of the signal was compared with the DLC (the others off by
one, so bytes behind the frame were accessed or the generator crashed), a start
bit above 511 was moved to 511, and the length was truncated to 8 bits and
could be 0 or above 64.
---
 src/codegen/c-sigprinter.cpp | 26 +++++++++++---------------
 src/parser/dbclineparser.cpp | 13 +++++++++++--
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 6861f07..d737525 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -195,17 +195,21 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return "Error in DBC file !!!! Dlc of this message must be greater.";
   }
 
-  uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
-    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
+  uint32_t startb = (sig->Order == BitLayout::kIntel) ?
+    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit);
 
-  if (startb > CONF_LIMIT_HIGHEST_BIT_POSITION)
+  uint32_t bn = (startb / 8);
+
+  // count of the bits available for the signal in the payload
+  uint64_t bits = to_bytes.size() * 8;
+
+  if (sig->Order == BitLayout::kMotorolla)
   {
-    startb = CONF_LIMIT_HIGHEST_BIT_POSITION;
+    // from the start bit down to the end of its byte and all the following bytes
+    bits = (bn < to_bytes.size()) ? ((startb % 8) + 1 + (to_bytes.size() - bn - 1) * 8) : 0;
   }
 
-  uint32_t bn = (startb / 8);
-
-  if (to_bytes.size() <= bn)
+  if (to_bytes.size() <= bn || sig->LengthBit > bits)
   {
     // DLC from message doesn't fit to signal layout
     // make code uncomplilable
@@ -250,14 +254,6 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
-      {
-        // DLC from message doesn't fit to signal layout
-        // make code uncomplilable
-        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
-        return to_bytes[0];
-      }
-
       tosigexpr += " | ";
 
       if (slen == 0)
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..577705f 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -227,8 +227,17 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   }
   else
   {
-    sig->StartBit = atoi(valpart[0].c_str());
-    sig->LengthBit = atoi(valpart[1].c_str());
+    const long startbit = strtol(valpart[0].c_str(), nullptr, 10);
+    const long lengthbit = strtol(valpart[1].c_str(), nullptr, 10);
+
+    if (startbit < 0 || startbit > INT_MAX || lengthbit < 1 || lengthbit > 64)
+    {
+      // there is no such a signal layout
+      return false;
+    }
+
+    sig->StartBit = static_cast<uint32_t>(startbit);
+    sig->LengthBit = static_cast<uint8_t>(lengthbit);
 
     // get info about factor or offset double nature
     sig->IsDoubleSig = false;
-- 
2.43.0


From da727e21706fbb6d455ce4ce4761048b14bd155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 07/50] fix: same named signals with different scaling get
 their own conversion macros

The toS/fromS macros were printed once per signal name, so a same named signal
of another message was converted with foreign factor and offset.
---
 src/codegen/c-main-generator.cpp | 30 ++++++++++++++++++++++--------
 src/codegen/c-sigprinter.cpp     | 10 +++++-----
 src/types/message.h              |  2 ++
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc98832..b9b85cb 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -6,7 +6,7 @@
 #include <stdarg.h>
 #include <filesystem>
 #include <algorithm>
-#include <set>
+#include <map>
 #include <regex>
 #include "helpers/formatter.h"
 #include "mon-generator.h"
@@ -82,7 +82,7 @@ void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
 void CiMainGenerator::Gen_MainHeader()
 {
-  std::set<std::string> passed_sigs;
+  std::map<std::string, std::string> passed_sigs;
   fwriter.AppendText(fdesc->gen.start_common_info);
   fwriter.AppendText(fdesc->gen.start_driver_info);
   fwriter.Append("#pragma once");
@@ -183,11 +183,24 @@ void CiMainGenerator::Gen_MainHeader()
 
       if (!s.IsSimpleSig)
       {
-        if (passed_sigs.find(s.Name) == passed_sigs.end())
+        s.NameConv = s.Name;
+        std::string macros = sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME);
+        auto passed = passed_sigs.find(s.NameConv);
+
+        while (passed != passed_sigs.end() && passed->second != macros)
+        {
+          // the same named signal from another message has different conversion,
+          // so this one has to have its own macroses
+          s.NameConv = m.Name + "_" + s.NameConv;
+          macros = sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME);
+          passed = passed_sigs.find(s.NameConv);
+        }
+
+        if (passed == passed_sigs.end())
         {
           // print signal macroses only it was not printed before
-          fwriter.Append(sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME));
-          passed_sigs.insert(s.Name);
+          fwriter.Append(macros);
+          passed_sigs[s.NameConv] = macros;
         }
       }
 
@@ -707,14 +720,15 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
       {
         // for double signals (sigfloat_t) type cast
         fwriter.Append("  _m->%s = (sigfloat_t)(%s_%s_fromS(_m->%s));",
-          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(), sname, sname);
+          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(),
+          sgs->msg.Signals[num].NameConv.c_str(), sname);
       }
       else
       {
         fwriter.Append("  _m->%s = (%s) %s_%s_fromS(_m->%s);",
           sgs->msg.Signals[num].NameFloat.c_str(),
           PrintType((int)sgs->msg.Signals[num].TypePhys).c_str(),
-          fdesc->gen.DRVNAME.c_str(), sname, sname);
+          fdesc->gen.DRVNAME.c_str(), sgs->msg.Signals[num].NameConv.c_str(), sname);
       }
 
       fwriter.Append("#endif // %s", fdesc->gen.usesigfloat_def.c_str());
@@ -835,7 +849,7 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
           fdesc->gen.DRVNAME.c_str(),
-          sgs->msg.Signals[n].Name.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
+          sgs->msg.Signals[n].NameConv.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
       }
     }
 
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index d737525..25e9148 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -65,18 +65,18 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   const std::string prtFactor = prt_double(sig->Factor, 9);
   const std::string prtOffset = prt_double(sig->Offset, 9);
 
-  retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
+  retstr = StrPrint("// signal: @%s\n", sig->NameConv.c_str());
 
   if (sig->IsDoubleSig)
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->Name.c_str(), prtFactor.c_str());
+    retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->NameConv.c_str(), prtFactor.c_str());
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->Name.c_str(), (int32_t)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->NameConv.c_str(), (int32_t)sig->Factor);
   }
 
-  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
+  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->NameConv.c_str(),
     PrintType((uint8_t)sig->TypeRo).c_str());
 
   if (sig->IsDoubleSig)
@@ -102,7 +102,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     }
   }
 
-  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->Name.c_str());
+  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->NameConv.c_str());
 
   if (sig->IsDoubleSig)
   {
diff --git a/src/types/message.h b/src/types/message.h
index 275b9fc..0fcaeb3 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -39,6 +39,8 @@ typedef struct
   std::string Name;
   // Signal float name
   std::string NameFloat;
+  // Name of the signal in conversion macros
+  std::string NameConv;
   // Unit
   std::string Unit;
 
-- 
2.43.0


From 1918ce5d0e7f847b309b83c24bce20de0f28eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 08/50] fix: select the type of integer scaled signals from the
 real physical range

The range was computed with overflowing integer casts and multiplications, and
min and max were not swapped for a negative factor, so the _phys type could be
too small (or the computation undefined for huge factors and factor 0).
---
 src/parser/dbclineparser.cpp | 56 ++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 577705f..835b5e0 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -10,6 +10,9 @@
 /// @brief Minimal possible value for Factor/Offset
 constexpr double MIN_FAC_OFF = 0.000000001;
 
+/// @brief Limit of integer Factor/Offset (2^63)
+constexpr double MAX_INT_FAC_OFF = 9223372036854775808.0;
+
 // Message line definitions
 static const std::string regMessage = "[^A-Za-z0-9_.-]";
 static const std::string MessageLineStart = "BO_ ";
@@ -291,6 +294,12 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
     // value_type = '+' | '-'; (*+= unsigned, -=signed*)
     sig->Signed = (valpart[2].find('-') == std::string::npos) ? 0 : 1;
 
+    if (!(std::fabs(sig->Factor) < MAX_INT_FAC_OFF) || !(std::fabs(sig->Offset) < MAX_INT_FAC_OFF))
+    {
+      // out of the integer range, only floating point conversion is possible
+      sig->IsDoubleSig = true;
+    }
+
     GetSigType(sig);
 
     // mark all simple signals to make using them easier
@@ -335,21 +344,12 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 {
   SigType ret = SigType::u64;
 
-  uint8_t is_unsigned = 0;
-
-  int64_t roffset = (int64_t)(sig->Offset / sig->Factor);
-
-  uint64_t max_v = 0;
-
   // 1 step is to detect type of _ro
-  int64_t max_abs, min_abs;
-
-  int64_t addon = 0;
+  double max_abs, min_abs;
 
   if (sig->Signed)
   {
-    addon = 1;
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit - 1) - 1));
+    max_abs = std::pow(2, sig->LengthBit - 1) - 1;
     min_abs = (max_abs + 1) * -1;
 
     for (size_t i = 0; i < 4; i++)
@@ -364,7 +364,7 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
   }
   else
   {
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit) - 1));
+    max_abs = std::pow(2, sig->LengthBit) - 1;
     min_abs = 0;
 
     for (size_t i = 0; i < 4; i++)
@@ -386,31 +386,24 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
   else if (sig->IsDoubleSig == false)
   {
-    int64_t i_offset = (int64_t)sig->Offset;
-    int64_t i_factor = (int64_t)sig->Factor;
-
     // get max and min values with applied factor and offset (physical values)
-    max_abs = max_abs * i_factor + i_offset;
-    min_abs = min_abs * i_factor + i_offset;
+    max_abs = max_abs * sig->Factor + sig->Offset;
+    min_abs = min_abs * sig->Factor + sig->Offset;
 
-    if (sig->Signed || max_abs < 0 || min_abs < 0)
+    if (max_abs < min_abs)
     {
-      // phys value must be signed
-      uint64_t max_v = std::abs(max_abs);
-      uint64_t addon = 0;
-
-      if ((max_v + 1) < std::abs(min_abs))
-      {
-        // low part is main
-        addon = 1;
-        max_v = std::abs(min_abs);
-      }
+      // negative factor
+      std::swap(max_abs, min_abs);
+    }
 
+    if (sig->Signed || min_abs < 0)
+    {
+      // phys value must be signed
       for (size_t i = 0; i < 4; i++)
       {
         sig->TypePhys = (SigType)(i);
 
-        if (max_v <= __maxsignedvals[i] + addon)
+        if (max_abs <= __maxsignedvals[i] && min_abs >= -1.0 * __maxsignedvals[i] - 1.0)
         {
           break;
         }
@@ -421,9 +414,10 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
       // phys value must be unsigned
       for (uint8_t i = 0; i < 4; i++)
       {
-        if ((uint64_t)max_abs <= __maxunsigvalues[i])
+        sig->TypePhys = (SigType)(i + 4);
+
+        if (max_abs <= __maxunsigvalues[i])
         {
-          sig->TypePhys = (SigType)(i + 4);
           break;
         }
       }
-- 
2.43.0


From a923e68010ab71cca21249011f21f196b74664a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 09/50] fix: compute integer scaling in 64 bits when 32 bits
 are not enough

Factor and offset were truncated to int32_t and the toS/fromS expressions were
evaluated in int or unsigned int although the _phys type is wider.
---
 src/codegen/c-sigprinter.cpp | 57 +++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 25e9148..fe3ba04 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -1,4 +1,6 @@
 #include <stdlib.h>
+#include <algorithm>
+#include <cmath>
 #include <memory>
 #include "c-sigprinter.h"
 #include "helpers/formatter.h"
@@ -23,6 +25,37 @@ static inline const char* ShiftCast(int32_t bits, int32_t shift)
   return (bits + shift > 32) ? "(uint64_t)" : ((bits + shift > 31) ? "(uint32_t)" : "");
 }
 
+// integer type in which conversion of integer scaled signal is computed
+enum class IntConv
+{
+  k32,
+  kI64,
+  kU64
+};
+
+// selects the type in which raw, raw * factor and physical values fit
+static IntConv SelectIntConv(const SignalDescriptor_t* sig)
+{
+  const double span = std::pow(2, sig->LengthBit - (sig->Signed ? 1 : 0));
+  const double raw_min = sig->Signed ? (-span) : 0;
+  const double raw_max = span - 1;
+  const double a = raw_min * sig->Factor;
+  const double b = raw_max * sig->Factor;
+
+  const double vmin = std::min({ raw_min, a, b, a + sig->Offset, b + sig->Offset, sig->Factor, sig->Offset });
+  const double vmax = std::max({ raw_max, a, b, a + sig->Offset, b + sig->Offset, sig->Factor, sig->Offset });
+
+  if (vmin >= 0 && vmax > static_cast<double>(INT64_MAX))
+  {
+    return IntConv::kU64;
+  }
+
+  // unsigned 32-bit value can't be divided by negative factor
+  const bool unsafe_div = (sig->Factor < 0) && (sig->TypePhys == SigType::u32);
+
+  return (vmin >= INT32_MIN && vmax <= INT32_MAX && !unsafe_div) ? IntConv::k32 : IntConv::kI64;
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -65,6 +98,15 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   const std::string prtFactor = prt_double(sig->Factor, 9);
   const std::string prtOffset = prt_double(sig->Offset, 9);
 
+  // integer factor and offset of integer scaled signal
+  const int64_t factor = sig->IsDoubleSig ? 0 : (int64_t)sig->Factor;
+  const int64_t offset = sig->IsDoubleSig ? 0 : (int64_t)sig->Offset;
+  const IntConv conv = sig->IsDoubleSig ? IntConv::k32 : SelectIntConv(sig);
+
+  // suffix of constants and cast of argument for integer scaling
+  const char* sfx = (conv == IntConv::k32) ? "" : "LL";
+  const char* cast = (conv == IntConv::k32) ? "" : ((conv == IntConv::kI64) ? "(int64_t)" : "(uint64_t)");
+
   retstr = StrPrint("// signal: @%s\n", sig->NameConv.c_str());
 
   if (sig->IsDoubleSig)
@@ -73,7 +115,8 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->NameConv.c_str(), (int32_t)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%lld%s)\n", drvname.c_str(), sig->NameConv.c_str(),
+      (long long)factor, sfx);
   }
 
   retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->NameConv.c_str(),
@@ -88,17 +131,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s(x) / (%lld%s)) )\n", cast, (long long)factor, sfx);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s(x) - (%lld%s)) )\n", cast, (long long)offset, sfx);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%d)) / (%d)) )\n", (int32_t)sig->Offset, (int32_t)sig->Factor);
+      retstr += StrPrint("((%s(x) - (%lld%s)) / (%lld%s)) )\n", cast, (long long)offset, sfx, (long long)factor, sfx);
     }
   }
 
@@ -113,17 +156,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s(x) * (%lld%s)) )\n", cast, (long long)factor, sfx);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s(x) + (%lld%s)) )\n", cast, (long long)offset, sfx);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%d)) + (%d)) )\n", (int32_t)sig->Factor, (int32_t)sig->Offset);
+      retstr += StrPrint("((%s(x) * (%lld%s)) + (%lld%s)) )\n", cast, (long long)factor, sfx, (long long)offset, sfx);
     }
   }
 
-- 
2.43.0


From df34cad4cf5a1d9f6da3145ddb3adcb8e8501a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 10/50] fix: assign comments, value tables, attributes and
 transmitters to the right message

find_message() returned the last message when the id was unknown, a standard
and an extended message with the same number were mixed up, ids were truncated
(non-numeric ones read as 0), and BO_TX_BU_ of id 0 was ignored.
---
 src/parser/dbclineparser.cpp | 37 +++++++++++++++++++++++++-----------
 src/parser/dbclineparser.h   |  8 +++++++-
 src/parser/dbcscanner.cpp    | 17 ++++-------------
 3 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 835b5e0..bcade71 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -103,6 +103,24 @@ static uint32_t clear_msgid(uint32_t messageid)
   return messageid & 0x1FFFFFFFU;
 }
 
+// reads message id (with extended frame flag) from string
+static uint32_t read_msgid(const std::string& str)
+{
+  if (str.empty() || str.size() > 10 || str.find_first_not_of("0123456789") != std::string::npos)
+  {
+    return INVALID_MSGID;
+  }
+
+  uint64_t id = strtoull(str.c_str(), nullptr, 10);
+
+  if (id > UINT32_MAX || (id & 0x60000000U) != 0)
+  {
+    return INVALID_MSGID;
+  }
+
+  return static_cast<uint32_t>(id);
+}
+
 DbcLineParser::DbcLineParser()
 {
 }
@@ -136,11 +154,11 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->Name = items[2];
 
-  msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
+  msg->MsgID = read_msgid(items[1]);
 
   msg->DLC = atoi(items[4].c_str());
 
-  if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if (msg->MsgID == INVALID_MSGID || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
   {
     return false;
   }
@@ -154,15 +172,15 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
 uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std::string& line)
 {
-  uint32_t ret = 0;
+  uint32_t ret = INVALID_MSGID;
 
   auto chunks = resplit(line, kTransmittersList, -1);
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
   {
-    ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
+    ret = read_msgid(chunks[1]);
 
-    if (ret != 0)
+    if (ret != INVALID_MSGID)
     {
       for (size_t i = 2; i < chunks.size(); i++)
       {
@@ -468,10 +486,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           // 1 CM_ marker
           // 2 target (message or signal)
           // 3 msg id
-          uint32_t id = static_cast<uint32_t>(atoll(meta[2].c_str()));
-
-          // clear message id from high 3 bits
-          cm->MsgId = clear_msgid(id);
+          cm->MsgId = read_msgid(meta[2]);
 
           if (meta[1] == "SG_" && meta.size() == 4)
           {
@@ -531,7 +546,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
         attr->Type = AttributeType::CycleTime;
-        attr->MsgId = clear_msgid(static_cast<uint32_t>(atoll(items[3].c_str())));
+        attr->MsgId = read_msgid(items[3]);
         // read value of ms of cycle time for the current message
         attr->Value = atoi(items[4].c_str());
         ret = true;
@@ -570,7 +585,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
-        comm->MsgId = (clear_msgid(static_cast<uint32_t>(atoll(items[1].c_str()))));
+        comm->MsgId = read_msgid(items[1]);
         comm->SigName = items[2];
         comm->Text = "";
         comm->ca_target = CommentTarget::Signal;
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index 9b0c025..228fba0 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -42,6 +42,12 @@
 //	'EV_' env_var_name char_string)
 //	';';
 
+/// @brief Extended frame flag in DBC message id
+constexpr uint32_t EXT_MSGID_FLAG = 0x80000000U;
+
+/// @brief Value which is not an id of any message
+constexpr uint32_t INVALID_MSGID = 0xFFFFFFFFU;
+
 class DbcLineParser {
  public:
   DbcLineParser();
@@ -74,7 +80,7 @@ class DbcLineParser {
    * multiple TX nodes
    * @param outnodes vector to load names of TX nodes
    * @param str line to parse from DBC file
-   * @retval MsgId if parsed successfully or zero
+   * @retval MsgId if parsed successfully or INVALID_MSGID
    */
   uint32_t ParseMultiTrans(std::vector<std::string>& outnodes, std::string& str);
 
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..c36e30c 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -10,25 +10,16 @@
 
 MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID)
 {
-  MessageDescriptor_t* ret = nullptr;
-
-  if (msgs.size() == 0)
-  {
-    return ret;
-  }
-
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    ret = msgs[i];
-
-    if (ret->MsgID == ID)
+    if ((msgs[i]->MsgID | (msgs[i]->IsExt ? EXT_MSGID_FLAG : 0u)) == ID)
     {
       // Frame found
-      break;
+      return msgs[i];
     }
   }
 
-  return ret;
+  return nullptr;
 }
 
 DbcScanner::DbcScanner()
@@ -127,7 +118,7 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
     uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
 
-    if (msgid != 0)
+    if (msgid != INVALID_MSGID)
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From 8a035b9746f97974b996a6d9f07a5f0433ad3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 11/50] fix: reject messages with DLC above 255 instead of
 truncating it

---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index bcade71..9dd9f9e 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -156,13 +156,15 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->MsgID = read_msgid(items[1]);
 
-  msg->DLC = atoi(items[4].c_str());
+  const long dlc = strtol(items[4].c_str(), nullptr, 10);
 
-  if (msg->MsgID == INVALID_MSGID || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if (msg->MsgID == INVALID_MSGID || dlc <= 0 || dlc > (long)CONF_LIMIT_MAX_DLC)
   {
     return false;
   }
 
+  msg->DLC = static_cast<uint8_t>(dlc);
+
   msg->IsExt = ((uint8_t)(msg->MsgID >> 29) & 0x04) == 0x04 ? 1 : 0;
 
   msg->MsgID = clear_msgid(msg->MsgID);
-- 
2.43.0


From 69186fe48cf8769f1b0669346081dfc33c3ef830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 12/50] fix: take the last message into account for
 MAX_DLC_VALUE

---
 src/parser/dbcscanner.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index c36e30c..b88623c 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -71,12 +71,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -278,6 +272,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
 {
   if (message != nullptr)
   {
+    // check DLC value for being max
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     if (message->Signals.size() > 0)
     {
       // sort signals by start bit
-- 
2.43.0


From b9f6d734d14f52d533864e8275a9a282129ad34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 13/50] fix: do not lose transmitters with one-character names

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 9dd9f9e..7018e71 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -147,7 +147,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (!txname.empty())
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From 725eb0994676180e449bb439e0c2ddf347861902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 14/50] fix: keep comment text apart from definitions

Text of multi-line comments (and CM_ SG_ lines) was parsed as messages,
signals, versions or attributes, and a comment with a line ending with ';' was
cut and lost.
---
 src/parser/dbclineparser.cpp | 37 +++++++++++++++++++++++++++++-------
 src/parser/dbclineparser.h   | 10 ++++++++++
 src/parser/dbcscanner.cpp    | 19 ++++++++++++++++++
 3 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 7018e71..8370763 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <algorithm>
 #include <clocale>
 #include <regex>
 #include <math.h>
@@ -456,21 +457,24 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
 {
   bool ret = false;
 
+  commentpart = false;
+
   if (line.size() > 0)
   {
-    if (line.find("CM_") == 0)
-    {
-      commentline.clear();
-      commentline = line;
-    }
-    else if (commentline.size() > 0)
+    if (commentline.size() > 0)
     {
       // next part of comment line, add to previously saved
       commentline += '\n' + line;
+      commentpart = true;
+    }
+    else if (line.find("CM_ ") == 0)
+    {
+      commentline = line;
+      commentpart = true;
     }
 
     // check if the current line last
-    if (commentline.size() > 0 && line.back() == ';')
+    if (commentpart && IsCommentEnd())
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
@@ -522,6 +526,25 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
   return ret;
 }
 
+bool DbcLineParser::IsCommentPart() const
+{
+  return commentpart;
+}
+
+bool DbcLineParser::IsCommentEnd() const
+{
+  if (commentline.back() != ';')
+  {
+    return false;
+  }
+
+  // the semicolon belongs to the comment text if there is no closing quote before
+  auto quotes = std::count(commentline.begin(), commentline.end(), '"');
+  auto last = commentline.find_last_not_of("; \t\n");
+
+  return (quotes == 0) || (quotes > 1 && commentline[last] == '"');
+}
+
 bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::string& line)
 {
   bool ret = false;
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index 228fba0..fbdd06f 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -70,6 +70,10 @@ class DbcLineParser {
   // and loads result to cm struct, return @true if parsed ok
   bool ParseCommentLine(Comment_t* cm, const std::string& line);
 
+  // checks if the line passed to the last ParseCommentLine call
+  // is a part of comment, so it must not be parsed in other way
+  bool IsCommentPart() const;
+
   // tries to parse value table string in line
   // saves result as comment text in @cm object, and as
   // pairs of items (definition / value) in @vtab
@@ -88,9 +92,15 @@ class DbcLineParser {
   // defines the type for the message struct member
   SigType GetSigType(SignalDescriptor_t* sig);
 
+  // checks if collected comment is complete
+  bool IsCommentEnd() const;
+
   // string to collect comment dbc line
   std::string commentline;
 
+  // flag that the last parsed line is a part of comment
+  bool commentpart{false};
+
   // string to collect attribute dbc line
   std::string attribline;
 
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index b88623c..5c80440 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -60,12 +60,24 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 {
   std::string sline;
 
+  Comment_t cmmnt;
+
   MessageDescriptor_t* pMsg = nullptr;
 
+  lparser = DbcLineParser();
+
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
 
+    // text of comments must not be taken as definitions
+    lparser.ParseCommentLine(&cmmnt, sline);
+
+    if (lparser.IsCommentPart())
+    {
+      continue;
+    }
+
     FindVersion(sline);
 
     // New message line has been found
@@ -151,6 +163,8 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
   AttributeDescriptor_t attr;
 
+  lparser = DbcLineParser();
+
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
@@ -222,6 +236,11 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
       }
     }
 
+    if (lparser.IsCommentPart())
+    {
+      continue;
+    }
+
     if (lparser.ParseValTableLine(&cmmnt, sline, vals))
     {
       // update message comment field
-- 
2.43.0


From 474e65966a5969589df0e32822afb64520d20541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 15/50] fix: find the checksum tag anywhere in the comment

Only a tag at the very beginning of the comment was cut out properly.
---
 src/parser/dbcscanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 5c80440..3694e41 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -201,7 +201,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
               extern std::vector<std::string> resplit(const std::string & s, const std::string & rgx_str, int32_t submatch);
 
-              size_t openpos = cmmnt.Text.find('<');
+              size_t openpos = cmmnt.Text.find("<Checksum:");
 
               if (openpos != std::string::npos)
               {
@@ -209,7 +209,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From 4c13df10c2eac26465c42ea46596cb1111ec03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 16/50] fix: place the checksum of CAN FD frames behind the 8th
 byte too

---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index fe3ba04..822a058 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -209,11 +209,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From e2c3f4422095ba1b92eae47b7b645a49d9166967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 17/50] fix: do not lose value tables of scaled signals

---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 3694e41..d8c1f8e 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -258,7 +258,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 702c5497836e185d5478745b9f4a2695c2e6ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 18/50] fix: do not crash on long lines and big version numbers

std::regex recurses on the length of the matched text, so lines of some ten
kilobytes overflowed the stack, and std::stoul threw out_of_range. Split the
lines without regular expressions; a unit containing ' : ' does not break its
signal line any more.
---
 src/parser/dbclineparser.cpp | 186 +++++++++++++++++++++++++----------
 src/parser/dbclineparser.h   |   3 +
 src/parser/dbcscanner.cpp    |  90 +++++++++--------
 3 files changed, 183 insertions(+), 96 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 8370763..9cce084 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,7 +1,7 @@
 #include <stdlib.h>
 #include <algorithm>
 #include <clocale>
-#include <regex>
+#include <cstring>
 #include <math.h>
 #include <limits.h>
 #include "helpers/formatter.h"
@@ -15,30 +15,16 @@ constexpr double MIN_FAC_OFF = 0.000000001;
 constexpr double MAX_INT_FAC_OFF = 9223372036854775808.0;
 
 // Message line definitions
-static const std::string regMessage = "[^A-Za-z0-9_.-]";
 static const std::string MessageLineStart = "BO_ ";
 
-// Signal line definitions
-static const std::string kRegSigReceivers = "[^A-Za-z0-9_.+-]+";
-static const std::string kRegSigSplit0 = "[^\\w]+";
-static const std::string kRegSigSplit1 = "(\\s+:\\s+)";
-static const std::string kregSigSplit2 = "(\")";
+// Multiple transmitters line definitions
+static const std::string TransmittersLineStart = "BO_TX_BU_";
 
-// This reg splits line to parts delimited by (")
-static const std::string kRegCommMain = "\"";
-static const std::string kRegCommMeta = "[ ]+";
-
-// This reg splits line to parts (for attributes)
-static const std::string kRegAttrMain = "[^A-Za-z0-9_\\.]+";
-static const std::string kTransmittersList = "[^a-zA-Z_0-9]+";
-
-// Regex template to split string by spaces BUT NOT what inside quotes OR apostrophes
-// [^\s"']+|"([^"]*)"|'([^']*)'
-
-// Reges template to split string by spaces BUT NOT what inside quotes
-// [^\s"]+|"([^"]*)"
-
-static const std::string kRegValTable = "[^\\s\"]+|\"([^\"]*)\"";
+// Characters which are parts of the items (besides letters, digits and '_')
+static const char* kMessageChars = ".-";
+static const char* kSigReceiversChars = ".+-";
+static const char* kAttrChars = ".";
+static const char* kTransmittersChars = "";
 
 static uint64_t __maxunsigvalues[] =
 {
@@ -56,32 +42,119 @@ static uint64_t __maxsignedvals[] =
   LLONG_MAX
 };
 
-//* @param __submatch
-// - -1 each enumerated subexpression does NOT
-// match the regular expression (aka field
-// splitting)
-// - 0 the entire string matching the
-// subexpression is returned for each match
-// within the text.
-// - >0 enumerates only the indicated
-// subexpression from a match within the text.
-std::vector<std::string> resplit(const std::string& s, const std::string& rgx_str, int32_t submatch)
+// std::regex is recursive on the length of the text, so the lines
+// are split without it (any line length must be accepted)
+
+std::vector<std::string> SplitByChar(const std::string& s, char delim)
 {
   std::vector<std::string> elems;
-  std::regex rgx(rgx_str);
-  std::sregex_token_iterator iter(s.begin(), s.end(), rgx, submatch);
-  std::sregex_token_iterator end;
+  size_t pos = 0;
+  size_t next;
 
-  while (iter != end)
+  while ((next = s.find(delim, pos)) != std::string::npos)
   {
-    //std::cout << "S43:" << *iter << std::endl;
-    elems.push_back(*iter);
-    ++iter;
+    elems.push_back(s.substr(pos, next - pos));
+    pos = next + 1;
+  }
+
+  if (pos < s.size() || elems.empty())
+  {
+    elems.push_back(s.substr(pos));
   }
 
   return elems;
 }
 
+// splits string to items of letters, digits, '_' and @chars. Delimiter is one
+// other character or (@multi) the whole sequence of such characters
+static std::vector<std::string> SplitItems(const std::string& s, const char* chars, bool multi = true)
+{
+  std::vector<std::string> elems;
+  std::string item;
+  bool indelim = false;
+
+  for (const char c : s)
+  {
+    const bool isitem = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+      (c == '_') || (c != 0 && strchr(chars, c) != nullptr);
+
+    if (isitem)
+    {
+      item += c;
+    }
+    else if (!multi || !indelim)
+    {
+      elems.push_back(item);
+      item.clear();
+    }
+
+    indelim = !isitem;
+  }
+
+  if (!item.empty() || elems.empty())
+  {
+    elems.push_back(item);
+  }
+
+  return elems;
+}
+
+static bool IsBlank(char c)
+{
+  return c != 0 && strchr(" \t\n\v\f\r", c) != nullptr;
+}
+
+// splits string by spaces but not what inside quotes
+static std::vector<std::string> SplitQuoted(const std::string& s)
+{
+  std::vector<std::string> elems;
+  size_t pos = 0;
+
+  while (pos < s.size())
+  {
+    size_t end = pos;
+
+    if (s[pos] == '"')
+    {
+      end = s.find('"', pos + 1);
+      end = (end == std::string::npos) ? pos : end + 1;
+    }
+    else
+    {
+      while (end < s.size() && s[end] != '"' && !IsBlank(s[end]))
+      {
+        end++;
+      }
+    }
+
+    if (end > pos)
+    {
+      elems.push_back(s.substr(pos, end - pos));
+      pos = end;
+    }
+    else
+    {
+      pos++;
+    }
+  }
+
+  return elems;
+}
+
+// splits string by the first colon surrounded with spaces
+static std::vector<std::string> SplitByColon(const std::string& s)
+{
+  for (size_t pos = 1; pos + 1 < s.size(); pos++)
+  {
+    if (s[pos] == ':' && IsBlank(s[pos - 1]) && IsBlank(s[pos + 1]))
+    {
+      return { s.substr(0, pos - 1), s.substr(pos + 2) };
+    }
+  }
+
+  return { s };
+}
+
 std::string& ltrim(std::string& str, const std::string& chars = "\t\n\v\f\r ")
 {
   str.erase(0, str.find_first_not_of(chars));
@@ -139,7 +212,7 @@ bool DbcLineParser::IsMessageLine(const std::string& line)
 bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string& line)
 {
   // Parse DBC message line
-  auto items = resplit(line, regMessage, -1);
+  auto items = SplitItems(line, kMessageChars, false);
 
   if (items.size() < 5)
   {
@@ -177,9 +250,14 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 {
   uint32_t ret = INVALID_MSGID;
 
-  auto chunks = resplit(line, kTransmittersList, -1);
+  if (line.find(TransmittersLineStart) != 0)
+  {
+    return ret;
+  }
+
+  auto chunks = SplitItems(line, kTransmittersChars);
 
-  if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
+  if (chunks.size() >= 3 && chunks[0] == TransmittersLineStart)
   {
     ret = read_msgid(chunks[1]);
 
@@ -198,15 +276,15 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
 bool DbcLineParser::IsSignalLine(const std::string& line)
 {
-  const std::regex sigMatch("\\s+SG_");
-  bool ret = std::regex_search(line, sigMatch);
-  return ret;
+  size_t pos = line.find_first_not_of(" \t");
+
+  return (pos != std::string::npos) && (pos > 0) && (line.compare(pos, 4, "SG_ ") == 0);
 }
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
   // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  auto halfs = SplitByColon(line);
 
   if (halfs.size() < 2)
   {
@@ -214,12 +292,12 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   }
 
   // split tail
-  auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
+  auto tailpart = SplitByChar(halfs[1], '"');
 
   // split middle part on dedicated values
-  auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
+  auto valpart = SplitItems(trim(tailpart[0]), kSigReceiversChars);
 
-  halfs = resplit(halfs[0], kRegValTable, 0);
+  halfs = SplitQuoted(halfs[0]);
 
   if (halfs.size() >= 2)
   {
@@ -345,7 +423,7 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
     // part 2 is the measure unit
     sig->Unit = tailpart[1];
     // part 3 is the list of RX modules
-    auto recs = resplit(trim(tailpart[2]), kRegSigReceivers, -1);
+    auto recs = SplitItems(trim(tailpart[2]), kSigReceiversChars);
 
     for (size_t i = 0; i < recs.size(); i++)
     {
@@ -480,12 +558,12 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       cm->ca_target = CommentTarget::Undefined;
 
       // comment line must have 3 part: meta, text, semicolon
-      auto items = resplit(commentline, kRegCommMain, -1);
+      auto items = SplitByChar(commentline, '"');
 
       if (items.size() == 3)
       {
         // part 1 (meta) contains service fields
-        auto meta = resplit(items[0], kRegCommMeta, -1);
+        auto meta = SplitQuoted(items[0]);
 
         if (meta.size() >= 3)
         {
@@ -566,7 +644,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     {
       attr->Type = AttributeType::Undefined;
       // raw line is ready
-      auto items = resplit(attribline, kRegAttrMain, -1);
+      auto items = SplitItems(attribline, kAttrChars);
 
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
@@ -606,7 +684,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
       // split all items by spaces and inside quotes.
       // after this step proper value items will have count >= 5
       // last item will be ';' and number of items will be even
-      auto items = resplit(valueline, kRegValTable, 0);
+      auto items = SplitQuoted(valueline);
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index fbdd06f..b27e030 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -48,6 +48,9 @@ constexpr uint32_t EXT_MSGID_FLAG = 0x80000000U;
 /// @brief Value which is not an id of any message
 constexpr uint32_t INVALID_MSGID = 0xFFFFFFFFU;
 
+// splits string by the given delimiter character
+std::vector<std::string> SplitByChar(const std::string& s, char delim);
+
 class DbcLineParser {
  public:
   DbcLineParser();
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index d8c1f8e..f47a14b 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -1,10 +1,7 @@
 #include "dbcscanner.h"
 #include <algorithm>
 #include <math.h>
-#include <regex>
 #include <cstring>
-#include <cctype>
-#include <sstream>
 #include <iostream>
 #include "../helpers/formatter.h"
 
@@ -199,8 +196,6 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
                 msg->RollSig = &msg->Signals[i];
               }
 
-              extern std::vector<std::string> resplit(const std::string & s, const std::string & rgx_str, int32_t submatch);
-
               size_t openpos = cmmnt.Text.find("<Checksum:");
 
               if (openpos != std::string::npos)
@@ -211,7 +206,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
                 {
                   auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
-                  auto meta = resplit(substr, "(\\:)", -1);
+                  auto meta = SplitByChar(substr, ':');
 
                   if (meta.size() == 3 && meta[0] == "Checksum")
                   {
@@ -348,60 +343,71 @@ void DbcScanner::SetDefualtMessage(MessageDescriptor_t* message)
 }
 
 
-/// @brief Parses the line to extract a string and two unsigned integers.
+/// @brief Reads decimal number from the line
 /// @param line The input line to parse.
-/// @param str The extracted string.
-/// @param num1 The first extracted unsigned integer.
-/// @param num2 The second extracted unsigned integer.
-/// @return The number of successfully matched parts (0 if the pattern did not match).
-static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t& num1, uint32_t& num2)
+/// @param pos Position of the number, will be moved behind it.
+/// @param num The extracted unsigned integer.
+/// @return true if there is at least one digit
+static bool ReadNumber(const std::string& line, size_t& pos, uint32_t& num)
 {
-  std::regex pattern("([a-zA-Z]+)\\s*\"?(\\d+)\\D+(\\d+)\"?");
-  std::smatch matches;
+  const size_t start = pos;
+  const size_t end = line.find_first_not_of("0123456789", start);
 
-  // try to match the regex pattern to the input line
-  if (std::regex_match(line, matches, pattern))
-  {
-    if (matches.size() == 4)
-    {
-      // 1 for the whole match and 3 for the capture groups
-      str = matches[1].str();
-      num1 = std::stoul(matches[2].str());
-      num2 = std::stoul(matches[3].str());
-      // successfully matched all three parts
-      return true;
-    }
-  }
+  pos = (end == std::string::npos) ? line.size() : end;
+  num = static_cast<uint32_t>(strtoul(line.substr(start, pos - start).c_str(), nullptr, 10));
 
-  // pattern did not match or some parts were not matched
-  return false;
+  return pos > start;
 }
 
 void DbcScanner::FindVersion(const std::string& line)
 {
-  std::istringstream stream(line);
-  std::string versionStr;
+  const std::string kVersion = "version";
+
+  // compare the line start with "version" (case-insensitive)
+  if (str_tolower(line.substr(0, kVersion.size())) != kVersion)
+  {
+    return;
+  }
+
+  // the version text: two numbers with any delimiter, optionally in quotes
+  size_t pos = line.find_first_not_of(" \t\v\f\r\n", kVersion.size());
   uint32_t num1, num2;
 
-  if (ParseVersionLine(line, versionStr, num1, num2) == false)
+  if (pos == std::string::npos)
+  {
+    return;
+  }
+
+  if (line[pos] == '"')
+  {
+    pos++;
+  }
+
+  if (!ReadNumber(line, pos, num1))
   {
-    // pattern did not match or not all parts were successfully parsed
     return;
   }
 
-  // check if the string is composed only of alphabetic characters
-  if (!std::all_of(versionStr.begin(), versionStr.end(), [](char c) { return std::isalpha(c); }))
+  const size_t next = line.find_first_of("0123456789", pos);
+
+  if (next == std::string::npos || next == pos)
   {
-    // the string part is not purely alphabetic
-    return; 
+    return;
   }
 
-  // convert the extracted string to lowercase for case-insensitive comparison
-  std::string lowerStr = versionStr;
-  std::transform(lowerStr.begin(), lowerStr.end(), lowerStr.begin(), ::tolower);
+  pos = next;
+
+  if (!ReadNumber(line, pos, num2))
+  {
+    return;
+  }
+
+  if (pos < line.size() && line[pos] == '"')
+  {
+    pos++;
+  }
 
-  // compare the lowercase string with "version"
-  if (lowerStr == "version")
+  if (pos == line.size())
   {
     // versions have been found, save numeric values
     dblist.ver.hi = num1;
-- 
2.43.0


From 04ff85b6b5bc15b095cebc41a01a2d07d54d39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 19/50] fix: initialize the comment descriptor

The message id was used uninitialized for comments without one.
---
 src/types/comment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/comment.h b/src/types/comment.h
index 4af34fe..8511977 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -20,13 +20,13 @@ enum class CommentTarget
 struct Comment_t
 {
   /// @brief Message ID for which comment is bound
-  uint32_t MsgId;
+  uint32_t MsgId{0};
 
   /// @brief Signal name for which comment is bound
   std::string SigName;
 
   /// @brief Comment target type
-  CommentTarget ca_target;
+  CommentTarget ca_target{CommentTarget::Undefined};
 
   /// @brief Comment text
   std::string Text;
-- 
2.43.0


From 1f74dc452b01098281772d5835f1b74bd8b46d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 20/50] fix: do not cut non-ASCII characters at line ends

---
 src/helpers/formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..51ca7b5 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -87,7 +87,7 @@ std::string str_trim(std::string s)
 
   while (passed < s.size())
   {
-    if (s[s.size() - passed - 1] > ' ')
+    if (static_cast<unsigned char>(s[s.size() - passed - 1]) > ' ')
     {
       break;
     }
-- 
2.43.0


From 142cfd5f3c4c78e87cbab270a68b7efec484d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 21/50] fix: reject broken signal lines

A signal line with a non-numeric start bit, length, factor or offset or without
valid byte order became a signal with zeros in these places, and an empty
receiver list item became a node without name.
---
 src/parser/dbclineparser.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 9cce084..b573f74 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -172,6 +172,19 @@ std::string& trim(std::string& str, const std::string& chars = "\t\n\v\f\r ")
   return ltrim(rtrim(str, chars), chars);
 }
 
+static bool IsUnsigned(const std::string& str)
+{
+  return !str.empty() && str.find_first_not_of("0123456789") == std::string::npos;
+}
+
+static bool IsNumber(const std::string& str)
+{
+  char* end = nullptr;
+  strtod(str.c_str(), &end);
+
+  return !str.empty() && *end == 0;
+}
+
 static uint32_t clear_msgid(uint32_t messageid)
 {
   return messageid & 0x1FFFFFFFU;
@@ -180,7 +193,7 @@ static uint32_t clear_msgid(uint32_t messageid)
 // reads message id (with extended frame flag) from string
 static uint32_t read_msgid(const std::string& str)
 {
-  if (str.empty() || str.size() > 10 || str.find_first_not_of("0123456789") != std::string::npos)
+  if (!IsUnsigned(str) || str.size() > 10)
   {
     return INVALID_MSGID;
   }
@@ -329,10 +342,17 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   }
   else
   {
+    if (!IsUnsigned(valpart[0]) || !IsUnsigned(valpart[1]) || !IsNumber(valpart[3]) || !IsNumber(valpart[4]) ||
+      (valpart[2] != "0+" && valpart[2] != "0-" && valpart[2] != "1+" && valpart[2] != "1-"))
+    {
+      // broken line
+      return false;
+    }
+
     const long startbit = strtol(valpart[0].c_str(), nullptr, 10);
     const long lengthbit = strtol(valpart[1].c_str(), nullptr, 10);
 
-    if (startbit < 0 || startbit > INT_MAX || lengthbit < 1 || lengthbit > 64)
+    if (startbit > INT_MAX || lengthbit < 1 || lengthbit > 64)
     {
       // there is no such a signal layout
       return false;
@@ -427,7 +447,10 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
 
     for (size_t i = 0; i < recs.size(); i++)
     {
-      sig->RecS.push_back(recs[i]);
+      if (!recs[i].empty())
+      {
+        sig->RecS.push_back(recs[i]);
+      }
     }
   }
   else
-- 
2.43.0


From 61e84e68a9cbc7ef8634ee53bcafec44dc383b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 22/50] fix: extend the sign of signals wider than 32 bits

The sign bit mask of __ext_sig__ was shifted as unsigned int even if the user
selected 64-bit bitext_t and ubitext_t.
---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index b9b85cb..2908bdf 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = ((ubitext_t) 1u) << (bits - 1u);\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From dd411ff76437e27c403e5e19e07ed6067833cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 23/50] fix: compute the rolling counter mask for counters
 wider than 30 bits

---
 src/codegen/c-main-generator.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 2908bdf..992cc19 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,12 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+// prints the mask of all the values of rolling counter
+static std::string PrintRollMask(const SignalDescriptor_t* sig)
+{
+  return StrPrint((sig->LengthBit > 32) ? "0x%llXULL" : "0x%02llXU", (~0ULL) >> (64 - sig->LengthBit));
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -754,8 +760,8 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
-    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (%s);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), PrintRollMask(sgs->msg.RollSig).c_str());
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -819,8 +825,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   if (sgs->msg.RollSig != nullptr)
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
-    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s = (_m->%s + 1) & (%s);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), PrintRollMask(sgs->msg.RollSig).c_str());
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
-- 
2.43.0


From 38ec6a33014cd86e7a258756221081bf08468108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 24/50] fix: do not duplicate the _phys field of a scaled
 rolling counter

---
 src/codegen/c-main-generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 992cc19..dfc6449 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -258,6 +258,8 @@ void CiMainGenerator::Gen_MainHeader()
       rollsig = (*m.RollSig);
       rollsig.CommentText = "";
       rollsig.Name += "_expt";
+      // expected value is always raw, there is no physical pair of it
+      rollsig.IsSimpleSig = true;
     }
 
     for (size_t signum = 0; signum < m.Signals.size(); signum++)
-- 
2.43.0


From 1157254df6e8deaf0faa2ee7ad5394db9e8448c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 25/50] fix: do not cut long lines of the generated code

---
 src/codegen/c-main-generator.cpp |  4 ++--
 src/codegen/filewriter.cpp       | 21 +++-----------------
 src/helpers/formatter.cpp        | 33 +++++++++++++++++++++++++-------
 src/helpers/formatter.h          |  5 ++++-
 4 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dfc6449..b2667fe 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -648,14 +648,14 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 27;
-      infocmnt += StrPrint(" Offset= %d", (int)sig.Offset);
+      infocmnt += StrPrint(" Offset= %lld", (long long)sig.Offset);
     }
 
     if (sig.Factor != 1)
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 24;
-      infocmnt += StrPrint(" Factor= %d", (int)sig.Factor);
+      infocmnt += StrPrint(" Factor= %lld", (long long)sig.Factor);
     }
   }
 
diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index ba27e10..90f7940 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -4,22 +4,7 @@
 #include <stdlib.h>
 #include <assert.h>
 #include "filewriter.h"
-
-template<size_t N = 10000>
-std::string __print_loc__(const char* format, va_list args)
-{
-  char work_buff[N] = {0};
-  auto ret = vsnprintf(work_buff, N, format, args);
-
-  if (ret >= N)
-  {
-    std::cout << "Attention (!) the line has been shortened : " << std::endl;
-    std::cout << work_buff << std::endl;
-  }
-
-  // make string from local array
-  return work_buff;
-}
+#include "helpers/formatter.h"
 
 void FileWriter::Flush()
 {
@@ -39,7 +24,7 @@ void FileWriter::Append(const char* frmt, ...)
 {
   va_list args;
   va_start(args, frmt);
-  auto ret = __print_loc__(frmt, args);
+  auto ret = StrPrintList(frmt, args);
   va_end(args);
   Append(ret);
 }
@@ -48,7 +33,7 @@ void FileWriter::AppendText(const char* frmt, ...)
 {
   va_list args;
   va_start(args, frmt);
-  auto ret = __print_loc__(frmt, args);
+  auto ret = StrPrintList(frmt, args);
   va_end(args);
   AppendText(ret);
 }
diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 51ca7b5..2252977 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -4,10 +4,6 @@
 #include <sstream>
 #include "formatter.h"
 
-static const size_t kMaxWorkArrLength = 4096;
-
-static char work_buff[kMaxWorkArrLength] = { 0 };
-
 static const std::string __typeprint[8] =
 {
   "int8_t",
@@ -33,15 +29,38 @@ std::string IndentedString(size_t n, const std::string& source, const char c)
   }
 }
 
-const char* StrPrint(const char* format, ...)
+std::string StrPrintList(const char* format, va_list args)
+{
+  va_list argscopy;
+  va_copy(argscopy, args);
+
+  // the first pass is only for getting the length
+  const int length = vsnprintf(nullptr, 0, format, argscopy);
+
+  va_end(argscopy);
+
+  if (length <= 0)
+  {
+    return "";
+  }
+
+  std::string ret(static_cast<size_t>(length) + 1, 0);
+
+  vsnprintf(&ret[0], ret.size(), format, args);
+  ret.pop_back();
+
+  return ret;
+}
+
+std::string StrPrint(const char* format, ...)
 {
   va_list args;
   va_start(args, format);
 
-  vsnprintf(work_buff, kMaxWorkArrLength, format, args);
+  auto ret = StrPrintList(format, args);
 
   va_end(args);
-  return work_buff;
+  return ret;
 }
 
 std::string PrintType(uint8_t id)
diff --git a/src/helpers/formatter.h b/src/helpers/formatter.h
index 163373f..cef3ffe 100644
--- a/src/helpers/formatter.h
+++ b/src/helpers/formatter.h
@@ -7,7 +7,10 @@
 
 std::string IndentedString(size_t n, const std::string& source, const char c = ' ');
 
-const char* StrPrint(const char* format, ...);
+std::string StrPrint(const char* format, ...);
+
+/// @brief The same as StrPrint, there is no limit of the length
+std::string StrPrintList(const char* format, va_list args);
 
 std::string PrintType(uint8_t tid);
 
-- 
2.43.0


From e01b228cf65029fb66d5537f77a1a31dd47fe82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 26/50] fix: backslash at the end of a comment line must not
 continue the comment

---
 src/codegen/c-main-generator.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index b2667fe..562bf20 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -37,6 +37,32 @@ static std::string PrintRollMask(const SignalDescriptor_t* sig)
   return StrPrint((sig->LengthBit > 32) ? "0x%llXULL" : "0x%02llXU", (~0ULL) >> (64 - sig->LengthBit));
 }
 
+// prints text of any lines as C comment
+static std::string PrintComment(const std::string& text, const std::string& indent = "")
+{
+  std::string ret;
+  size_t pos = 0;
+
+  while (pos != std::string::npos)
+  {
+    const size_t end = text.find('\n', pos);
+    const std::string line = text.substr(pos, (end == std::string::npos) ? end : (end - pos));
+    const size_t last = line.find_last_not_of(" \t\v\f\r");
+
+    ret += (ret.empty() ? "" : "\n") + indent + "// " + line;
+
+    if (last != std::string::npos && (line[last] == '\\' || (last > 1 && line.compare(last - 2, 3, "?\?/") == 0)))
+    {
+      // backslash (or its trigraph) at the line end continues the comment on the next line
+      ret += " .";
+    }
+
+    pos = (end == std::string::npos) ? end : (end + 1);
+  }
+
+  return ret;
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -161,7 +187,7 @@ void CiMainGenerator::Gen_MainHeader()
     if (m.CommentText.size() > 0)
     {
       // replace all '\n' on "\n //" for c code comment text
-      fwriter.Append("// " + std::regex_replace(m.CommentText, std::regex("\n"), "\n// "));
+      fwriter.Append(PrintComment(m.CommentText));
     }
 
     fwriter.Append("// def @%s CAN Message (%-4d %#x)", m.Name.c_str(), m.MsgID, m.MsgID);
@@ -580,12 +606,12 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 {
   if (sig.CommentText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.CommentText, std::regex("\n"), "\n  // "));
+    fwriter.Append(PrintComment(sig.CommentText, "  "));
   }
 
   if (sig.ValueText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.ValueText, std::regex("\n"), "\n  // "));
+    fwriter.Append(PrintComment(sig.ValueText, "  "));
   }
 
   if (sig.Multiplex == MultiplexType::kMulValue)
-- 
2.43.0


From 5aa61f48d3b30d0ebb65642b411d4d1d57e13a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 27/50] fix: initial byte value must not get into the bits of
 the signals

---
 src/codegen/c-main-generator.cpp | 11 ++++++++++-
 src/codegen/c-sigprinter.cpp     | 21 +++++++++++++++++++++
 src/types/c-expr.h               |  4 ++++
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 562bf20..fbbd232 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -898,7 +898,16 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
       continue;
     }
 
-    fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    // initial value must remain only in the bits which are free of signals
+    if (sgs->free_bits[i] == 0)
+    {
+      fwriter.Append("  %s[%d] = (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    }
+    else
+    {
+      fwriter.Append("  %s[%d] = (uint8_t) ( (%s[%d] & (0x%02XU)) | %s );", arrtxt.c_str(), i,
+        arrtxt.c_str(), i, sgs->free_bits[i], sgs->to_bytes[i].c_str());
+    }
   }
 
   fwriter.Append("");
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 822a058..2bdbec9 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -18,6 +18,17 @@ static inline int32_t ShiftByte(const SignalDescriptor_t* sig, int32_t bn)
   return (sig->Order == BitLayout::kIntel) ? (bn - 1) : (bn + 1);
 }
 
+// the next bit of the signal in the payload
+static inline uint32_t NextBit(const SignalDescriptor_t* sig, uint32_t bit)
+{
+  if (sig->Order == BitLayout::kIntel)
+  {
+    return bit + 1;
+  }
+
+  return (bit % 8 == 0) ? (bit + 15) : (bit - 1);
+}
+
 // type cast needed to place @bits bits at position @shift: a byte is promoted
 // to (signed) int, so the cast is necessary if bit 31 or higher is affected
 static inline const char* ShiftCast(int32_t bits, int32_t shift)
@@ -181,6 +192,7 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
   msgprinter->to_bytes.clear();
   msgprinter->to_signals.clear();
   msgprinter->to_bytes.resize(msgprinter->msg.DLC);
+  msgprinter->free_bits.assign(msgprinter->msg.DLC, 0xFFU);
 
   // for each signal specific to_signal expression must be defined,
   // and during all signals processing, for each byte to_byte expression
@@ -205,6 +217,15 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
     // bytes expression is saved to vector @to_bytes, where id is the
     // byte number in frame payload (i.e. to_bytes.size() == frame.DLC)
     msgprinter->to_signals.push_back(PrintSignalExpr(&msgprinter->msg.Signals[i], msgprinter->to_bytes));
+
+    // exclude all the bits of the signal from the free ones
+    uint32_t bit = msgprinter->msg.Signals[i].StartBit;
+
+    for (uint8_t n = 0; n < msgprinter->msg.Signals[i].LengthBit && (bit / 8) < msgprinter->free_bits.size(); n++)
+    {
+      msgprinter->free_bits[bit / 8] &= (uint8_t)~(1u << (bit % 8));
+      bit = NextBit(&msgprinter->msg.Signals[i], bit);
+    }
   }
 
   if (msgprinter->msg.CsmSig != nullptr)
diff --git a/src/types/c-expr.h b/src/types/c-expr.h
index 996cca8..3c6affb 100644
--- a/src/types/c-expr.h
+++ b/src/types/c-expr.h
@@ -18,4 +18,8 @@ typedef struct
   // frame fields to data bytes
   std::vector<std::string> to_bytes;
 
+  // this field contains masks of the bits in data bytes which
+  // are not covered by any signal
+  std::vector<uint8_t> free_bits;
+
 } CiExpr_t;
\ No newline at end of file
-- 
2.43.0


From c3770a072a1029a7c972c131fab887f989ec9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 28/50] fix: physical value 2^63 of integer scaled signal does
 not fit int64_t

---
 src/codegen/c-sigprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 2bdbec9..89967d5 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -56,7 +56,7 @@ static IntConv SelectIntConv(const SignalDescriptor_t* sig)
   const double vmin = std::min({ raw_min, a, b, a + sig->Offset, b + sig->Offset, sig->Factor, sig->Offset });
   const double vmax = std::max({ raw_max, a, b, a + sig->Offset, b + sig->Offset, sig->Factor, sig->Offset });
 
-  if (vmin >= 0 && vmax > static_cast<double>(INT64_MAX))
+  if (vmin >= 0 && vmax >= static_cast<double>(INT64_MAX))
   {
     return IntConv::kU64;
   }
-- 
2.43.0


From 5514a34dd02053f8e3dcf73cb5862918ab379641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 29/50] fix: signals behind a broken BO_ line do not belong to
 the previous message

---
 src/parser/dbclineparser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index b573f74..2c97979 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -15,7 +15,7 @@ constexpr double MIN_FAC_OFF = 0.000000001;
 constexpr double MAX_INT_FAC_OFF = 9223372036854775808.0;
 
 // Message line definitions
-static const std::string MessageLineStart = "BO_ ";
+static const std::string MessageLineStart = "BO_";
 
 // Multiple transmitters line definitions
 static const std::string TransmittersLineStart = "BO_TX_BU_";
@@ -214,12 +214,13 @@ DbcLineParser::DbcLineParser()
 
 bool DbcLineParser::IsMessageLine(const std::string& line)
 {
-  if (line.find(MessageLineStart) == 0)
+  if (line.find(MessageLineStart) != 0)
   {
-    return true;
+    return false;
   }
 
-  return false;
+  // nothing but a blank may stand behind (a line without any more content is a broken message)
+  return (line.size() == MessageLineStart.size()) || IsBlank(line[MessageLineStart.size()]);
 }
 
 bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string& line)
-- 
2.43.0


From 854c89310629d5190f48ff3959314a26018f840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 30/50] fix: reject messages without name

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 2c97979..b83e600 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -246,7 +246,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   const long dlc = strtol(items[4].c_str(), nullptr, 10);
 
-  if (msg->MsgID == INVALID_MSGID || dlc <= 0 || dlc > (long)CONF_LIMIT_MAX_DLC)
+  if (msg->Name.empty() || msg->MsgID == INVALID_MSGID || dlc <= 0 || dlc > (long)CONF_LIMIT_MAX_DLC)
   {
     return false;
   }
-- 
2.43.0


From 0d6eb15e8f2ccb878c6590aaa3c4bceb4dc2e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 31/50] fix: negative ids in attributes and transmitters lists
 are not valid ids

---
 src/parser/dbclineparser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index b83e600..70aae19 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -23,8 +23,8 @@ static const std::string TransmittersLineStart = "BO_TX_BU_";
 // Characters which are parts of the items (besides letters, digits and '_')
 static const char* kMessageChars = ".-";
 static const char* kSigReceiversChars = ".+-";
-static const char* kAttrChars = ".";
-static const char* kTransmittersChars = "";
+static const char* kAttrChars = ".-";
+static const char* kTransmittersChars = "-";
 
 static uint64_t __maxunsigvalues[] =
 {
@@ -676,7 +676,8 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
         attr->MsgId = read_msgid(items[3]);
         // read value of ms of cycle time for the current message
         attr->Value = atoi(items[4].c_str());
-        ret = true;
+        // negative cycle time is wrong
+        ret = (attr->Value >= 0);
       }
 
       attribline.clear();
-- 
2.43.0


From 679cb6fad4e3ce356eb26709b282342ec3b12762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 32/50] fix: comments and value tables of "S_ro" do not belong
 to the scaled signal "S"

---
 src/parser/dbcscanner.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index f47a14b..2a25fcd 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -19,6 +19,12 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return nullptr;
 }
 
+/// @brief Checks the signal by its name in DBC (scaled signals have the suffix "_ro" in the descriptor)
+static bool IsSignalName(const SignalDescriptor_t& sig, const std::string& name)
+{
+  return sig.Name == (sig.IsSimpleSig ? name : (name + "_ro"));
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -183,7 +189,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (IsSignalName(msg->Signals[i], cmmnt.SigName))
             {
               SignalDescriptor_t& sig = msg->Signals[i];
               // signal has been found, update commnet text
@@ -253,7 +259,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (IsSignalName(msg->Signals[i], cmmnt.SigName))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 47f7b6d6df67b88ad5a571873f47065c801e226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 33/50] fix: do not abort when the path to the DBC file cannot
 be resolved

---
 src/app.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app.cpp b/src/app.cpp
index 4810d9b..275561c 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -86,7 +86,9 @@ void CoderApp::GenerateCode()
   std::cout << "gen path : " << Params.outdir.first << std::endl;
   std::cout << "drv name : " << Params.drvname.first << std::endl;
 
-  if (std::filesystem::exists(Params.dbc.first) == false)
+  std::error_code ec;
+
+  if (std::filesystem::exists(Params.dbc.first, ec) == false)
   {
     std::cout << "DBC file is not exists!" << std::endl;
     return;
-- 
2.43.0


From bc563bf923f14f19b8415e1826fa1089ef414553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 34/50] fix: messages with blanks around the colon or several
 blanks between the items were dropped

---
 src/parser/dbclineparser.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 70aae19..121a0f3 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -65,9 +65,9 @@ std::vector<std::string> SplitByChar(const std::string& s, char delim)
   return elems;
 }
 
-// splits string to items of letters, digits, '_' and @chars. Delimiter is one
-// other character or (@multi) the whole sequence of such characters
-static std::vector<std::string> SplitItems(const std::string& s, const char* chars, bool multi = true)
+// splits string to items of letters, digits, '_' and @chars. Delimiter is the
+// whole sequence of other characters
+static std::vector<std::string> SplitItems(const std::string& s, const char* chars)
 {
   std::vector<std::string> elems;
   std::string item;
@@ -82,7 +82,7 @@ static std::vector<std::string> SplitItems(const std::string& s, const char* cha
     {
       item += c;
     }
-    else if (!multi || !indelim)
+    else if (!indelim)
     {
       elems.push_back(item);
       item.clear();
@@ -225,15 +225,24 @@ bool DbcLineParser::IsMessageLine(const std::string& line)
 
 bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string& line)
 {
-  // Parse DBC message line
-  auto items = SplitItems(line, kMessageChars, false);
+  // Parse DBC message line, there may be any blanks around the items
+  const size_t colon = line.find(':');
 
-  if (items.size() < 5)
+  if (colon == std::string::npos)
   {
     return false;
   }
 
-  std::string txname = (items.size() >= 6) ? (items[5]) : ("");
+  std::string tail = line.substr(colon + 1);
+  auto items = SplitItems(line.substr(0, colon), kMessageChars);
+  auto tailitems = SplitItems(ltrim(tail), kMessageChars);
+
+  if (items.size() != 3)
+  {
+    return false;
+  }
+
+  std::string txname = (tailitems.size() >= 2) ? (tailitems[1]) : ("");
 
   if (!txname.empty())
   {
@@ -244,7 +253,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->MsgID = read_msgid(items[1]);
 
-  const long dlc = strtol(items[4].c_str(), nullptr, 10);
+  const long dlc = strtol(tailitems[0].c_str(), nullptr, 10);
 
   if (msg->Name.empty() || msg->MsgID == INVALID_MSGID || dlc <= 0 || dlc > (long)CONF_LIMIT_MAX_DLC)
   {
-- 
2.43.0


From 4abb567c69791faf889ff61974a8322d2c3f376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 35/50] fix: signals without blanks around the colon, without
 indentation or with a tab behind SG_ were dropped

---
 src/parser/dbclineparser.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 121a0f3..68fdce5 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -141,18 +141,17 @@ static std::vector<std::string> SplitQuoted(const std::string& s)
   return elems;
 }
 
-// splits string by the first colon surrounded with spaces
+// splits string by the first colon
 static std::vector<std::string> SplitByColon(const std::string& s)
 {
-  for (size_t pos = 1; pos + 1 < s.size(); pos++)
+  const size_t pos = s.find(':');
+
+  if (pos == std::string::npos)
   {
-    if (s[pos] == ':' && IsBlank(s[pos - 1]) && IsBlank(s[pos + 1]))
-    {
-      return { s.substr(0, pos - 1), s.substr(pos + 2) };
-    }
+    return { s };
   }
 
-  return { s };
+  return { s.substr(0, pos), s.substr(pos + 1) };
 }
 
 std::string& ltrim(std::string& str, const std::string& chars = "\t\n\v\f\r ")
@@ -301,7 +300,7 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 {
   size_t pos = line.find_first_not_of(" \t");
 
-  return (pos != std::string::npos) && (pos > 0) && (line.compare(pos, 4, "SG_ ") == 0);
+  return (pos != std::string::npos) && (line.compare(pos, 3, "SG_") == 0) && (pos + 3 < line.size()) && IsBlank(line[pos + 3]);
 }
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
-- 
2.43.0


From 75dee5f00162e535f52732189fbd44e0943e3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 36/50] fix: CM_, BA_ and VAL_ lines with a tab behind the
 keyword were ignored

---
 src/parser/dbclineparser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 68fdce5..9fbc574 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -171,6 +171,13 @@ std::string& trim(std::string& str, const std::string& chars = "\t\n\v\f\r ")
   return ltrim(rtrim(str, chars), chars);
 }
 
+// checks that the line begins with the keyword
+static bool IsKeyword(const std::string& line, const std::string& word)
+{
+  return (line.compare(0, word.size(), word) == 0) && (line.size() > word.size()) &&
+    (IsBlank(line[word.size()]) || line[word.size()] == '"');
+}
+
 static bool IsUnsigned(const std::string& str)
 {
   return !str.empty() && str.find_first_not_of("0123456789") == std::string::npos;
@@ -577,7 +584,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       commentline += '\n' + line;
       commentpart = true;
     }
-    else if (line.find("CM_ ") == 0)
+    else if (IsKeyword(line, "CM_"))
     {
       commentline = line;
       commentpart = true;
@@ -661,7 +668,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
 
   if (line.size() > 0)
   {
-    if (line.find("BA_ ") == 0)
+    if (IsKeyword(line, "BA_"))
     {
       attribline.clear();
       attribline = line;
@@ -701,7 +708,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
   if (line.size() > 0)
   {
-    if (line.find("VAL_ ") == 0)
+    if (IsKeyword(line, "VAL_"))
     {
       valueline.clear();
       valueline = line;
-- 
2.43.0


From cd45f72092157e6f728618342f30f91b7187439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 37/50] fix: a UTF-8 byte order mark hid the version (or the
 first message) of the file

---
 src/parser/dbcscanner.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2a25fcd..c9862dd 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -25,6 +25,18 @@ static bool IsSignalName(const SignalDescriptor_t& sig, const std::string& name)
   return sig.Name == (sig.IsSimpleSig ? name : (name + "_ro"));
 }
 
+/// @brief Moves to the text begin (behind the UTF-8 byte order mark if there is one)
+static void Rewind(istream& readstrm)
+{
+  char mark[3] = { 0 };
+
+  readstrm.clear();
+  readstrm.seekg(0);
+  readstrm.read(mark, sizeof(mark));
+  readstrm.clear();
+  readstrm.seekg(memcmp(mark, "\xEF\xBB\xBF", sizeof(mark)) == 0 ? sizeof(mark) : 0);
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -39,8 +51,7 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
   dblist.msgs.clear();
   dblist.ver.hi = dblist.ver.low = 0;
 
-  readstrm.clear();
-  readstrm.seekg(0);
+  Rewind(readstrm);
   // Search each message and signals in dbc source data,
   // and fill @msgs collection
   ParseMessageInfo(readstrm);
@@ -48,8 +59,7 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
   // all the messages and signals were read from source
   // scan it one more time to define all attributes and
   // more additional information
-  readstrm.clear();
-  readstrm.seekg(0);
+  Rewind(readstrm);
 
   // Search all attributes and additional information
   // and update specific fields in messages
-- 
2.43.0


From 7f2f466c3e864e535d157e6973d98f8169c8ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 38/50] fix: report files which could not be written and return
 a failure exit status

---
 src/app.cpp                | 23 +++++++++++++++--------
 src/app.h                  |  5 +++--
 src/codegen/filewriter.cpp |  9 +++++++++
 src/codegen/filewriter.h   |  8 ++++++++
 src/maincli.cpp            |  2 +-
 5 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 275561c..dd0d614 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -9,6 +9,7 @@
 #include "parser/dbcscanner.h"
 #include "codegen/c-main-generator.h"
 #include "codegen/c-util-generator.h"
+#include "codegen/filewriter.h"
 #include "codegen/fs-creator.h"
 #include "codegen/version.h"
 #include <codegen/version.h>
@@ -58,22 +59,21 @@ std::string CombinePath(const std::string& path, const std::string& folderName)
   }
 }
 
-void CoderApp::Run()
+bool CoderApp::Run()
 {
   std::cout << "coderdbc v" << CODEGEN_LIB_VERSION_MAJ << "." << CODEGEN_LIB_VERSION_MIN << std::endl << std::endl;
 
   if (AreParamsValid())
   {
-    GenerateCode();
-  }
-  else
-  {
-    PrintHelp();
+    return GenerateCode();
   }
+
+  PrintHelp();
+  return true;
 }
 
 /// @brief Main generation process
-void CoderApp::GenerateCode()
+bool CoderApp::GenerateCode()
 {
   DbcScanner scanner;
   CiMainGenerator cigen;
@@ -91,7 +91,7 @@ void CoderApp::GenerateCode()
   if (std::filesystem::exists(Params.dbc.first, ec) == false)
   {
     std::cout << "DBC file is not exists!" << std::endl;
-    return;
+    return false;
   }
 
   std::ifstream file(Params.dbc.first);
@@ -250,7 +250,14 @@ void CoderApp::GenerateCode()
     }
   }
 
+  if (!ret || FileWriter::FailedCount() != 0)
+  {
+    std::cerr << "Source code generation failed." << std::endl;
+    return false;
+  }
+
   std::cout << std::endl << "Source code generation completed." << std::endl;
+  return true;
 }
 
 /// @brief Checks if all mandatory configuration parameters are provided
diff --git a/src/app.h b/src/app.h
index 9805872..b56af36 100644
--- a/src/app.h
+++ b/src/app.h
@@ -13,11 +13,12 @@ class CoderApp {
   CoderApp(const OptionsParser::GenOptions& params) : Params(params) {}
 
   /// @brief Main generation process
-  void Run();
+  /// @return FALSE if the generation was requested but could not be completed
+  bool Run();
 
  private:
   bool AreParamsValid();
-  void GenerateCode();
+  bool GenerateCode();
   void PrintHelp();
 
   const OptionsParser::GenOptions& Params;
diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index 90f7940..d6049dd 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -6,6 +6,8 @@
 #include "filewriter.h"
 #include "helpers/formatter.h"
 
+size_t FileWriter::failed_count = 0;
+
 void FileWriter::Flush()
 {
   strm.clear();
@@ -17,6 +19,13 @@ void FileWriter::Flush(const std::string& fpath)
   wfile.open(fpath, std::ios::out);
   wfile << strm.rdbuf();
   wfile.close();
+
+  if (!wfile)
+  {
+    failed_count++;
+    std::cerr << "Unable to write file: " << fpath << std::endl;
+  }
+
   Flush();
 }
 
diff --git a/src/codegen/filewriter.h b/src/codegen/filewriter.h
index 90ab3b0..9acddd6 100644
--- a/src/codegen/filewriter.h
+++ b/src/codegen/filewriter.h
@@ -19,8 +19,16 @@ class FileWriter {
 
   void Append(size_t empty_lines = 1);
 
+  /// @brief Number of files which could not be written (completely)
+  static size_t FailedCount()
+  {
+    return failed_count;
+  }
+
  private:
 
+  static size_t failed_count;
+
   void NewLine(const char c = ' ');
 
   std::stringstream strm;
diff --git a/src/maincli.cpp b/src/maincli.cpp
index 2de1727..fd7d2f7 100644
--- a/src/maincli.cpp
+++ b/src/maincli.cpp
@@ -9,5 +9,5 @@ int main(int argc, char* argv[])
   OptionsParser parser;
   auto opts = parser.GetOptions(argc, argv);
   CoderApp app(opts);
-  app.Run();
+  return app.Run() ? 0 : 1;
 }
-- 
2.43.0


From 580e15a400dd2ed29c394f2b8f2cbbe78e643e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 39/50] fix: the text of a file which could not be written was
 put in front of the next file

---
 src/codegen/filewriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index d6049dd..189201b 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -10,6 +10,8 @@ size_t FileWriter::failed_count = 0;
 
 void FileWriter::Flush()
 {
+  // text which was not written must not get into the next file
+  strm.str("");
   strm.clear();
 }
 
-- 
2.43.0


From aa51facb75ce594f75c2ea7f2111d0c4a3fc8546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 40/50] fix: DBC from a pipe lost all comments, attributes and
 value tables; an unreadable DBC generated an empty driver

---
 src/app.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/app.cpp b/src/app.cpp
index dd0d614..b6568e6 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -103,8 +103,22 @@ bool CoderApp::GenerateCode()
     exit(1);
   }
 
-  scanner.TrimDbcText(file);
+  // the text is scanned twice and not any source (pipe) can be read again
+  std::stringstream text;
+
+  if (file.peek() != std::ifstream::traits_type::eof())
+  {
+    text << file.rdbuf();
+  }
+
+  if (file.bad() || text.fail())
+  {
+    std::cerr << "Unable to read DBC file" << std::endl;
+    return false;
+  }
+
   file.close();
+  scanner.TrimDbcText(text);
 
   auto filename = ExtractFileName(Params.dbc.first);
   // get current time
-- 
2.43.0


From 2c20d1cc3bc13ba001bba79201c3a6f6813f312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 41/50] fix: fromS macro of unsigned signals with 17..31 bits
 gave values 2^32 too high instead of negative ones

---
 src/codegen/c-sigprinter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 89967d5..57ba35d 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -64,7 +64,10 @@ static IntConv SelectIntConv(const SignalDescriptor_t* sig)
   // unsigned 32-bit value can't be divided by negative factor
   const bool unsafe_div = (sig->Factor < 0) && (sig->TypePhys == SigType::u32);
 
-  return (vmin >= INT32_MIN && vmax <= INT32_MAX && !unsafe_div) ? IntConv::k32 : IntConv::kI64;
+  // unsigned 32-bit raw value makes the whole expression unsigned, so it can't become negative
+  const bool unsafe_sign = (vmin < 0) && (sig->TypeRo == SigType::u32);
+
+  return (vmin >= INT32_MIN && vmax <= INT32_MAX && !unsafe_div && !unsafe_sign) ? IntConv::k32 : IntConv::kI64;
 }
 
 CSigPrinter::CSigPrinter()
-- 
2.43.0


From 50e3be860dd2a08ff5e5e78e1ab696681e15f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 42/50] fix: a file bigger than the stream buffer which was
 written only in part was not reported

---
 src/codegen/filewriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index 189201b..05fd7a8 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -19,7 +19,9 @@ void FileWriter::Flush(const std::string& fpath)
 {
   std::ofstream wfile;
   wfile.open(fpath, std::ios::out);
-  wfile << strm.rdbuf();
+  // (operator<< of a stream buffer does not report a text written only in part)
+  const std::string text = strm.str();
+  wfile.write(text.data(), text.size());
   wfile.close();
 
   if (!wfile)
-- 
2.43.0


From cdd0a080434d63c94264fb376c607436f610dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 43/50] fix: a run which created the output directory made
 other runs starting at the same time fail

---
 src/codegen/fs-creator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index e5e436d..428a99d 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -113,7 +113,9 @@ bool FsCreator::PrepareDirectory(bool rw)
     if (stat(work_dir_path.c_str(), &info) != 0)
     {
       // the parents are missing too when the path was extended (-driverdir)
-      if (!std::filesystem::create_directories(work_dir_path, err))
+      // (another run may create the directory at the same time)
+      if (!std::filesystem::create_directories(work_dir_path, err) &&
+        !std::filesystem::is_directory(work_dir_path, err))
       {
         ret = false;
       }
-- 
2.43.0


From e35d45c8f46d7f27b7193b164b845d468268a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 44/50] fix: a comment with text like "<Checksum:" before the
 checksum tag had no checksum

---
 src/parser/dbcscanner.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index c9862dd..47e4f19 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -214,7 +214,8 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
               size_t openpos = cmmnt.Text.find("<Checksum:");
 
-              if (openpos != std::string::npos)
+              // text like "<Checksum:" can stand before the tag itself
+              while (openpos != std::string::npos)
               {
                 size_t closepos = cmmnt.Text.find('>', openpos);
 
@@ -238,8 +239,12 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
                       msg->CsmMethod = meta[1];
                       msg->CsmOp = atoi(meta[2].c_str());
                     }
+
+                    break;
                   }
                 }
+
+                openpos = cmmnt.Text.find("<Checksum:", openpos + 1);
               }
             }
           }
-- 
2.43.0


From a001ef93218355321da19ba9b0857cc010946a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 45/50] fix: value table entries outside of 32 bits (signed)
 got other values

---
 src/codegen/c-main-generator.cpp | 6 ++++--
 src/parser/dbclineparser.cpp     | 2 +-
 src/types/comment.h              | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index fbbd232..12d284a 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -258,9 +258,11 @@ void CiMainGenerator::Gen_MainHeader()
           // For this case only one of same named values will be available as macro
           fwriter.Append("#ifndef %s", defname.c_str());
 
-          fwriter.Append("#define %s_%s_%s (%d)",
+          // values above the range of int are unsigned
+          fwriter.Append("#define %s_%s_%s (%lld%s)",
             s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
-            s.ValDefs.vpairs[i].second);
+            (long long)s.ValDefs.vpairs[i].second,
+            (s.ValDefs.vpairs[i].second > INT32_MAX) ? "U" : "");
 
           fwriter.Append("#endif");
           fwriter.Append();
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 9fbc574..bb602e4 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -743,7 +743,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
           comm->Text += items[valpair + 1] + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
-          vtab.vpairs.push_back({valdef, (uint32_t)atoll((items[valpair + 0]).c_str())});
+          vtab.vpairs.push_back({valdef, (int64_t)atoll((items[valpair + 0]).c_str())});
         }
 
         if (comm->Text.size() > 0)
diff --git a/src/types/comment.h b/src/types/comment.h
index 8511977..014c6ec 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -40,6 +40,6 @@ struct ValTable_t
   std::string SigName;
 
   /// @brief Value table names and values pairs
-  std::vector<std::pair<std::string, uint32_t>> vpairs{};
+  std::vector<std::pair<std::string, int64_t>> vpairs{};
 
 };
-- 
2.43.0


From 71a966d22affa0358597fe3e464cb65a95a34782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 46/50] fix: a blank line of a comment vanished when the file
 has CRLF line ends

---
 src/helpers/formatter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 2252977..2032306 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -120,6 +120,12 @@ std::string str_trim(std::string s)
     s.erase(s.size() - passed, passed);
   }
 
+  if (s.empty())
+  {
+    // blank line is the same as the empty one
+    return s + '\n';
+  }
+
   return s;
 }
 
-- 
2.43.0


From 3e09ab7a5b85b0790d30f51d4e68e20db00828cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 47/50] fix: type of signed signals depended on the signedness
 of char of the generator's host

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index bb602e4..d653a22 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -36,7 +36,7 @@ static uint64_t __maxunsigvalues[] =
 
 static uint64_t __maxsignedvals[] =
 {
-  CHAR_MAX,
+  SCHAR_MAX,
   SHRT_MAX,
   INT_MAX,
   LLONG_MAX
-- 
2.43.0


From 0db67454dc816be46c7e075dacb28aeb0ee3f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 48/50] fix: order of signals with equal start bits (messages
 with equal number) depended on the standard library

---
 src/codegen/c-main-generator.cpp | 2 +-
 src/codegen/c-util-generator.cpp | 4 ++--
 src/parser/dbcscanner.cpp        | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 12d284a..93f9164 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -75,7 +75,7 @@ void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
   // enable using this information inside class member functions
   fdesc = &fsd;
 
-  std::sort(sigprt.sigs_expr.begin(), sigprt.sigs_expr.end(),
+  std::stable_sort(sigprt.sigs_expr.begin(), sigprt.sigs_expr.end(),
     [](const CiExpr_t* a, const CiExpr_t* b) -> bool
   {
     return a->msg.MsgID < b->msg.MsgID;
diff --git a/src/codegen/c-util-generator.cpp b/src/codegen/c-util-generator.cpp
index 9db35ab..8207743 100644
--- a/src/codegen/c-util-generator.cpp
+++ b/src/codegen/c-util-generator.cpp
@@ -78,12 +78,12 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
     }
   }
 
-  std::sort(rx.begin(), rx.end(), [&](const MessageDescriptor_t* a, const MessageDescriptor_t* b)
+  std::stable_sort(rx.begin(), rx.end(), [&](const MessageDescriptor_t* a, const MessageDescriptor_t* b)
   {
     return a->MsgID < b->MsgID;
   });
 
-  std::sort(tx.begin(), tx.end(), [&](const MessageDescriptor_t* a, const MessageDescriptor_t* b)
+  std::stable_sort(tx.begin(), tx.end(), [&](const MessageDescriptor_t* a, const MessageDescriptor_t* b)
   {
     return a->MsgID < b->MsgID;
   });
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 47e4f19..d92767d 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -316,7 +316,7 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
     if (message->Signals.size() > 0)
     {
       // sort signals by start bit
-      std::sort(message->Signals.begin(), message->Signals.end(),
+      std::stable_sort(message->Signals.begin(), message->Signals.end(),
         [](const SignalDescriptor_t& a, const SignalDescriptor_t& b) -> bool
       {
         return a.StartBit < b.StartBit;
-- 
2.43.0


From b09fb7d0f83631ebe6845c5ea4b3c43a054c0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 49/50] fix: value table entries from 2^63 to 2^64-1 and -2^63
 got other values

---
 src/codegen/c-main-generator.cpp |  6 ++----
 src/parser/dbclineparser.cpp     | 17 ++++++++++++++++-
 src/types/comment.h              |  4 ++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 93f9164..d832531 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -258,11 +258,9 @@ void CiMainGenerator::Gen_MainHeader()
           // For this case only one of same named values will be available as macro
           fwriter.Append("#ifndef %s", defname.c_str());
 
-          // values above the range of int are unsigned
-          fwriter.Append("#define %s_%s_%s (%lld%s)",
+          fwriter.Append("#define %s_%s_%s (%s)",
             s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
-            (long long)s.ValDefs.vpairs[i].second,
-            (s.ValDefs.vpairs[i].second > INT32_MAX) ? "U" : "");
+            s.ValDefs.vpairs[i].second.c_str());
 
           fwriter.Append("#endif");
           fwriter.Append();
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d653a22..872299c 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -191,6 +191,21 @@ static bool IsNumber(const std::string& str)
   return !str.empty() && *end == 0;
 }
 
+// the C constant of a value table entry, values above the range of int are unsigned
+static std::string make_c_constant(const std::string& str)
+{
+  long long val = atoll(str.c_str());
+
+  if (val < 0)
+  {
+    // the lowest value has no literal in C
+    return (val == LLONG_MIN) ? std::to_string(val + 1) + " - 1" : std::to_string(val);
+  }
+
+  unsigned long long uval = strtoull(str.c_str(), nullptr, 10);
+  return std::to_string(uval) + ((uval > INT_MAX) ? "U" : "");
+}
+
 static uint32_t clear_msgid(uint32_t messageid)
 {
   return messageid & 0x1FFFFFFFU;
@@ -743,7 +758,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
           comm->Text += items[valpair + 1] + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
-          vtab.vpairs.push_back({valdef, (int64_t)atoll((items[valpair + 0]).c_str())});
+          vtab.vpairs.push_back({valdef, make_c_constant(items[valpair + 0])});
         }
 
         if (comm->Text.size() > 0)
diff --git a/src/types/comment.h b/src/types/comment.h
index 014c6ec..ee0e104 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -39,7 +39,7 @@ struct ValTable_t
   /// @brief Signal name for which value table is applied
   std::string SigName;
 
-  /// @brief Value table names and values pairs
-  std::vector<std::pair<std::string, int64_t>> vpairs{};
+  /// @brief Value table names and values (C constants) pairs
+  std::vector<std::pair<std::string, std::string>> vpairs{};
 
 };
-- 
2.43.0


From ccfc1f01255fa1abb8e62b0cce57d8e3e037b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 50/50] fix: physical range of scaled signals longer than 2^53
 was rounded, so a negative value could get an unsigned type

---
 src/parser/dbclineparser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 872299c..a5232b2 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -539,9 +539,15 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
   else if (sig->IsDoubleSig == false)
   {
-    // get max and min values with applied factor and offset (physical values)
-    max_abs = max_abs * sig->Factor + sig->Offset;
-    min_abs = min_abs * sig->Factor + sig->Offset;
+    // get max and min values with applied factor and offset (physical values), the
+    // products and the raw maximum (2^n - 1) may be too long for double: max raw value
+    // gives 2^n * factor + (offset - factor), @rest is what is lost in the difference
+    const double diff = sig->Offset - sig->Factor;
+    const double part = diff - sig->Offset;
+    const double rest = (sig->Offset - (diff - part)) - (sig->Factor + part);
+
+    max_abs = std::fma(std::pow(2, sig->LengthBit - (sig->Signed ? 1 : 0)), sig->Factor, diff) + rest;
+    min_abs = std::fma(min_abs, sig->Factor, sig->Offset);
 
     if (max_abs < min_abs)
     {
-- 
2.43.0

