From e97dd5669e17710eba53f324c6d662af8f366630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 01/14] fix: check for remaining starting points under the lock
 in GSL_Minimize_gen_all

The workers tested the shared queue of starting points for emptiness without
holding the lock and then took an element from it. When the starting points
ran out, several workers could pass the test before the last point was taken,
and front()/pop() were called on an empty queue (undefined behaviour).
---
 src/minimizer/MinimizeGSL.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/minimizer/MinimizeGSL.cpp b/src/minimizer/MinimizeGSL.cpp
index 333de73..8aa4a50 100644
--- a/src/minimizer/MinimizeGSL.cpp
+++ b/src/minimizer/MinimizeGSL.cpp
@@ -202,7 +202,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
                        std::queue<std::vector<double>> &mResults,
                        bool UseLock = true)
   {
-    while (mFoundSolutions < mMaxSol and not mStartingPoints.empty())
+    while (mFoundSolutions < mMaxSol)
     {
       std::vector<double> start;
       {
@@ -211,6 +211,8 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
         {
           lock = std::unique_lock<std::mutex>(mWriteResultLock);
         }
+        // the queue is shared: emptiness may only be checked under the lock
+        if (mStartingPoints.empty()) break;
         start = mStartingPoints.front();
         mStartingPoints.pop();
       }
-- 
2.43.0


From ffde8399ab9cca89cd21f7a912c60524a4cfd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 02/14] fix: serialise access to the logger

Logger::Write, the level queries and the setters were used from several
minimizer threads without any synchronisation. Messages written at the same
time could be interleaved within one line, and querying the status of an
unknown level inserted into the map other threads were reading.
---
 include/BSMPT/utility/Logger.h | 16 +++++++++++++++-
 src/utility/Logger.cpp         |  5 +++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/BSMPT/utility/Logger.h b/include/BSMPT/utility/Logger.h
index cdb4cfc..87e750f 100644
--- a/include/BSMPT/utility/Logger.h
+++ b/include/BSMPT/utility/Logger.h
@@ -9,6 +9,8 @@
 #include <fstream>
 #include <iostream>
 #include <map>
+#include <mutex>
+#include <string>
 #include <vector>
 
 /**
@@ -67,6 +69,7 @@ private:
   void
   Write(LoggingLevel level, const T &toWrite, const std::string &file, int line)
   {
+    std::lock_guard<std::mutex> lock(mMutex);
     auto pos = mCurrentSetup.find(level);
     if (pos != mCurrentSetup.end() and pos->second)
     {
@@ -84,7 +87,18 @@ private:
   void SetLevel(const std::map<LoggingLevel, bool> &level);
   void SetLevel(LoggingLevel level, bool enable);
   void Disable();
+  bool GetLevelStatus(LoggingLevel level) const
+  {
+    std::lock_guard<std::mutex> lock(mMutex);
+    auto pos = mCurrentSetup.find(level);
+    return pos != mCurrentSetup.end() and pos->second;
+  }
 
+  /**
+   * @brief mMutex guards the stream and the setup, as the minimizers may log
+   * from several threads
+   */
+  mutable std::mutex mMutex;
   std::ostream mOstream;
   std::ofstream mfilestream;
 
@@ -136,7 +150,7 @@ public:
 
   static bool GetLoggingLevelStatus(LoggingLevel level)
   {
-    return Instance().mCurrentSetup[level];
+    return Instance().GetLevelStatus(level);
   }
 
   static void Disable() { Instance().Disable(); }
diff --git a/src/utility/Logger.cpp b/src/utility/Logger.cpp
index 061282d..4311af3 100644
--- a/src/utility/Logger.cpp
+++ b/src/utility/Logger.cpp
@@ -117,12 +117,14 @@ void SetLogger(const std::vector<std::string> &args)
 
 void BSMPTLogger::SetOStream(std::ostream &Ostream)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   mfilestream.close();
   mOstream.rdbuf(Ostream.rdbuf());
 }
 
 void BSMPTLogger::SetLevel(const std::map<LoggingLevel, bool> &Setup)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   for (const auto &el : Setup)
   {
     auto pos = mCurrentSetup.find(el.first);
@@ -139,17 +141,20 @@ void BSMPTLogger::SetLevel(const std::map<LoggingLevel, bool> &Setup)
 
 void BSMPTLogger::SetLevel(LoggingLevel level, bool enable)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   mCurrentSetup[level] = enable;
 }
 
 void BSMPTLogger::SetOStream(const std::string &file)
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   mfilestream = std::ofstream(file);
   mOstream.rdbuf(mfilestream.rdbuf());
 }
 
 void BSMPTLogger::Disable()
 {
+  std::lock_guard<std::mutex> lock(mMutex);
   std::cout << "Disable logger" << std::endl;
   mCurrentSetup.clear();
 }
-- 
2.43.0


From 2ee8a864f17dde0152dd4f13a6642ad4cfc5b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 03/14] fix: report failure when the output file could not be
 written completely

The programs never looked at the state of the output stream after opening it.
With a full disk or an I/O error rows were silently lost and the program still
returned EXIT_SUCCESS.
---
 src/prog/BSMPT.cpp          | 6 ++++++
 src/prog/CalcCT.cpp         | 6 ++++++
 src/prog/CalcGW.cpp         | 6 ++++++
 src/prog/CalcTemps.cpp      | 6 ++++++
 src/prog/CalculateEWBG.cpp  | 6 ++++++
 src/prog/CreateMuGrid.cpp   | 6 ++++++
 src/prog/MinimaTracer.cpp   | 6 ++++++
 src/prog/NLOVEV.cpp         | 6 ++++++
 src/prog/PlotEWBG_nL.cpp    | 6 ++++++
 src/prog/PlotEWBG_vw.cpp    | 6 ++++++
 src/prog/PotPlotter.cpp     | 6 ++++++
 src/prog/TripleHiggsNLO.cpp | 6 ++++++
 src/prog/VEVEVO.cpp         | 6 ++++++
 13 files changed, 78 insertions(+)

diff --git a/src/prog/BSMPT.cpp b/src/prog/BSMPT.cpp
index 27be55c..2f3a628 100644
--- a/src/prog/BSMPT.cpp
+++ b/src/prog/BSMPT.cpp
@@ -224,6 +224,12 @@ try
     if (infile.eof()) break;
   }
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
 catch (int)
diff --git a/src/prog/CalcCT.cpp b/src/prog/CalcCT.cpp
index b93e815..097fdf7 100644
--- a/src/prog/CalcCT.cpp
+++ b/src/prog/CalcCT.cpp
@@ -99,6 +99,12 @@ try
     if (infile.eof()) break;
   }
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
 catch (int)
diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index df90892..ba0a617 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -268,6 +268,12 @@ try
       }
 
       outfile.close();
+      if (!outfile.good())
+      {
+        Logger::Write(LoggingLevel::Default,
+                      "Could not write all results to " + args.outputfile);
+        return EXIT_FAILURE;
+      }
     }
 
     linecounter++;
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index c8c3efa..33f076a 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -248,6 +248,12 @@ try
       }
 
       outfile.close();
+      if (!outfile.good())
+      {
+        Logger::Write(LoggingLevel::Default,
+                      "Could not write all results to " + args.outputfile);
+        return EXIT_FAILURE;
+      }
     }
 
     linecounter++;
diff --git a/src/prog/CalculateEWBG.cpp b/src/prog/CalculateEWBG.cpp
index 8d11e56..cd77726 100644
--- a/src/prog/CalculateEWBG.cpp
+++ b/src/prog/CalculateEWBG.cpp
@@ -237,6 +237,12 @@ try
   } // END: Input Read
   // Closing & Free
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 } // END: Try
 catch (int)
diff --git a/src/prog/CreateMuGrid.cpp b/src/prog/CreateMuGrid.cpp
index 7e669e6..b52d9ec 100644
--- a/src/prog/CreateMuGrid.cpp
+++ b/src/prog/CreateMuGrid.cpp
@@ -144,6 +144,12 @@ try
     outfile << z << sep << Baryo::mubl_func(z, &p) << std::endl;
   }
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
 catch (int)
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 3214037..340d630 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -258,6 +258,12 @@ try
 
       filecounter++;
       outfile.close();
+      if (!outfile.good())
+      {
+        Logger::Write(LoggingLevel::Default,
+                      "Could not write all results to " + outfilename);
+        return EXIT_FAILURE;
+      }
 
       auto time = std::chrono::duration_cast<std::chrono::milliseconds>(
                       std::chrono::high_resolution_clock::now() - start)
diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index 8cd51f7..151eabb 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -137,6 +137,12 @@ try
   }
 
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
 
   return EXIT_SUCCESS;
 }
diff --git a/src/prog/PlotEWBG_nL.cpp b/src/prog/PlotEWBG_nL.cpp
index f18af4e..5b5e4e8 100644
--- a/src/prog/PlotEWBG_nL.cpp
+++ b/src/prog/PlotEWBG_nL.cpp
@@ -209,6 +209,12 @@ try
     outfile << -1 << -1 << -1 << -1 << -1 << std::endl;
   } // NO SFOEWPT
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
 
   return EXIT_SUCCESS;
 } // END: Try
diff --git a/src/prog/PlotEWBG_vw.cpp b/src/prog/PlotEWBG_vw.cpp
index 63a2e88..11b4b97 100644
--- a/src/prog/PlotEWBG_vw.cpp
+++ b/src/prog/PlotEWBG_vw.cpp
@@ -172,6 +172,12 @@ try
     outfile << -1 << -1 << -1 << -1 << -1 << std::endl;
   } // NO SFOEWPT
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
 
   return EXIT_SUCCESS;
 } // END: Try
diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index ec4d8da..1fe3e35 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -359,6 +359,12 @@ try
     }
   }
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
 catch (int)
diff --git a/src/prog/TripleHiggsNLO.cpp b/src/prog/TripleHiggsNLO.cpp
index 5c01f90..eed3adf 100644
--- a/src/prog/TripleHiggsNLO.cpp
+++ b/src/prog/TripleHiggsNLO.cpp
@@ -141,6 +141,12 @@ try
   }
 
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
 
   return EXIT_SUCCESS;
 }
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 2903286..d7252ce 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -146,6 +146,12 @@ try
     outfile << std::endl;
   }
   outfile.close();
+  if (!outfile.good())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Could not write all results to " + args.OutputFile);
+    return EXIT_FAILURE;
+  }
 
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From 722972802414f3d39e7b2199256fef9e95b03d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 04/14] fix: report failure when the input file cannot be read
 to the end

A read error looked like the end of the input, so the remaining points were
skipped and the program still returned EXIT_SUCCESS. The programs looping with
an unchecked getline also kept working on the truncated or stale line (and
NLOVEV appended a meaningless row for the empty line behind the last newline).
---
 src/prog/BSMPT.cpp          |  6 ++++++
 src/prog/CalcCT.cpp         |  6 ++++++
 src/prog/CalcGW.cpp         |  6 ++++++
 src/prog/CalcTemps.cpp      |  6 ++++++
 src/prog/CalculateEWBG.cpp  |  6 ++++++
 src/prog/CreateMuGrid.cpp   | 10 +++++++---
 src/prog/MinimaTracer.cpp   |  6 ++++++
 src/prog/NLOVEV.cpp         | 10 +++++++---
 src/prog/PlotEWBG_nL.cpp    | 10 +++++++---
 src/prog/PlotEWBG_vw.cpp    | 10 +++++++---
 src/prog/PotPlotter.cpp     | 10 +++++++---
 src/prog/TripleHiggsNLO.cpp |  6 ++++++
 src/prog/VEVEVO.cpp         | 10 +++++++---
 13 files changed, 84 insertions(+), 18 deletions(-)

diff --git a/src/prog/BSMPT.cpp b/src/prog/BSMPT.cpp
index 2f3a628..3f8d539 100644
--- a/src/prog/BSMPT.cpp
+++ b/src/prog/BSMPT.cpp
@@ -223,6 +223,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   outfile.close();
   if (!outfile.good())
   {
diff --git a/src/prog/CalcCT.cpp b/src/prog/CalcCT.cpp
index 097fdf7..5eb53c9 100644
--- a/src/prog/CalcCT.cpp
+++ b/src/prog/CalcCT.cpp
@@ -98,6 +98,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   outfile.close();
   if (!outfile.good())
   {
diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index ba0a617..6843896 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -279,6 +279,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.inputfile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
 catch (int)
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index 33f076a..8dc67fd 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -259,6 +259,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.inputfile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
 catch (int)
diff --git a/src/prog/CalculateEWBG.cpp b/src/prog/CalculateEWBG.cpp
index cd77726..7b0646a 100644
--- a/src/prog/CalculateEWBG.cpp
+++ b/src/prog/CalculateEWBG.cpp
@@ -235,6 +235,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   } // END: Input Read
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   // Closing & Free
   outfile.close();
   if (!outfile.good())
diff --git a/src/prog/CreateMuGrid.cpp b/src/prog/CreateMuGrid.cpp
index b52d9ec..b6b7c6b 100644
--- a/src/prog/CreateMuGrid.cpp
+++ b/src/prog/CreateMuGrid.cpp
@@ -73,10 +73,8 @@ try
   std::string linestr;
   int linecounter = 1;
   bool found      = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
@@ -92,6 +90,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   infile.close();
   if (!found)
   {
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 340d630..4e0f23c 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -276,6 +276,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.inputfile);
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
 catch (int)
diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index 151eabb..8a3dea7 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -80,10 +80,8 @@ try
   std::shared_ptr<BSMPT::Class_Potential_Origin> modelPointer =
       ModelID::FChoose(args.Model, SMConstants);
   std::vector<double> Check;
-  while (true)
+  while (getline(infile, linestr))
   {
-
-    getline(infile, linestr);
     if (linecounter > args.LastLine) break;
     if (linecounter == 1)
     {
@@ -135,6 +133,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
 
   outfile.close();
   if (!outfile.good())
diff --git a/src/prog/PlotEWBG_nL.cpp b/src/prog/PlotEWBG_nL.cpp
index 5b5e4e8..9f8a44e 100644
--- a/src/prog/PlotEWBG_nL.cpp
+++ b/src/prog/PlotEWBG_nL.cpp
@@ -88,10 +88,8 @@ try
   int linecounter = 1;
   bool found      = false;
 
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
@@ -114,6 +112,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   infile.close();
   if (!found)
   {
diff --git a/src/prog/PlotEWBG_vw.cpp b/src/prog/PlotEWBG_vw.cpp
index 11b4b97..2f3cda3 100644
--- a/src/prog/PlotEWBG_vw.cpp
+++ b/src/prog/PlotEWBG_vw.cpp
@@ -84,10 +84,8 @@ try
   int linecounter = 1;
   bool found      = false;
 
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
@@ -110,6 +108,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   infile.close();
   if (!found)
   {
diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index 1fe3e35..5c1643b 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -89,10 +89,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
@@ -108,6 +106,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   infile.close();
   if (!found)
   {
diff --git a/src/prog/TripleHiggsNLO.cpp b/src/prog/TripleHiggsNLO.cpp
index eed3adf..53ac298 100644
--- a/src/prog/TripleHiggsNLO.cpp
+++ b/src/prog/TripleHiggsNLO.cpp
@@ -139,6 +139,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
 
   outfile.close();
   if (!outfile.good())
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index d7252ce..03f4c09 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -81,10 +81,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
@@ -100,6 +98,12 @@ try
     linecounter++;
     if (infile.eof()) break;
   }
+  if (infile.bad())
+  {
+    Logger::Write(LoggingLevel::Default,
+                  "Error while reading " + args.InputFile);
+    return EXIT_FAILURE;
+  }
   infile.close();
   if (!found)
   {
-- 
2.43.0


From e475fe109a9cdf091d3d176b516c29a7adac5fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 05/14] fix: do not read past the end of VevOrder in
 MinimizeOrderVEV and SetEWVEVZero

---
 src/models/ClassPotentialOrigin.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 271e7d0..b3bb9f9 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3515,8 +3515,8 @@ double Class_Potential_Origin::EWSBVEV(const std::vector<double> &v) const
 
 void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
 {
-  int count = 0;
-  for (std::size_t i = 0; i < NHiggs; i++)
+  std::size_t count = 0;
+  for (std::size_t i = 0; i < NHiggs and count < VevOrder.size(); i++)
   {
     double checkgauge = 0;
     for (std::size_t j = 0; j < NGauge; j++)
@@ -3971,7 +3971,7 @@ std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(
   std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; ++i)
   {
-    if (i == VevOrder[count])
+    if (count < VevOrder.size() and i == VevOrder[count])
     {
       vevFunction.push_back(vevMinimizer.at(count));
       count++;
-- 
2.43.0


From 9724d2e2a841717105f3434530975234c8dee29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 06/14] fix: do not mistake running out of memory in NLopt for
 a failed minimisation

---
 src/minimizer/LibNLOPT/MinimizeNLOPT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
index 8e8f767..1265f1d 100644
--- a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
+++ b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
@@ -8,6 +8,7 @@
 #include <BSMPT/models/ClassPotentialOrigin.h>
 #include <BSMPT/models/IncludeAllModels.h>
 #include <BSMPT/utility/utility.h>
+#include <new>
 
 /**
  *@file
@@ -66,6 +67,11 @@ NLOPTReturnType MinimizeUsingNLOPT(const Class_Potential_Origin &model,
     NLOPTReturnType res(VEV, minf, result, Success);
     return res;
   }
+  catch (const std::bad_alloc &)
+  {
+    // running out of memory says nothing about the potential
+    throw;
+  }
   catch (std::exception &e)
   {
     (void)e;
-- 
2.43.0


From c2628c23eca43165b9b7aea8862af476d6354a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 07/14] fix: do not hide failed allocations inside string
 streams

---
 src/models/ClassPotentialC2HDM.cpp       | 1 +
 src/models/ClassPotentialCPintheDark.cpp | 1 +
 src/models/ClassPotentialCxSM.cpp        | 1 +
 src/models/ClassPotentialN2HDM.cpp       | 1 +
 src/models/ClassPotentialR2HDM.cpp       | 1 +
 src/models/ClassPotentialSM.cpp          | 1 +
 src/models/ClassTemplate.cpp             | 1 +
 src/prog/CalcGW.cpp                      | 3 +++
 src/prog/CalcTemps.cpp                   | 3 +++
 src/utility/utility.cpp                  | 1 +
 10 files changed, 14 insertions(+)

diff --git a/src/models/ClassPotentialC2HDM.cpp b/src/models/ClassPotentialC2HDM.cpp
index e1e9aac..ae26996 100644
--- a/src/models/ClassPotentialC2HDM.cpp
+++ b/src/models/ClassPotentialC2HDM.cpp
@@ -171,6 +171,7 @@ void Class_Potential_C2HDM::ReadAndSet(const std::string &linestr,
                                        std::vector<double> &par)
 {
   std::stringstream ss(linestr);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   double tmp;
 
   if (UseIndexCol)
diff --git a/src/models/ClassPotentialCPintheDark.cpp b/src/models/ClassPotentialCPintheDark.cpp
index d13d99b..671ca91 100644
--- a/src/models/ClassPotentialCPintheDark.cpp
+++ b/src/models/ClassPotentialCPintheDark.cpp
@@ -179,6 +179,7 @@ void Class_Potential_CPintheDark::ReadAndSet(const std::string &linestr,
                                              std::vector<double> &par)
 {
   std::stringstream ss(linestr);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   double tmp;
 
   double lreA = 0, limA = 0, lL1 = 0, lL2 = 0, lL3 = 0, lL4 = 0, lL5 = 0,
diff --git a/src/models/ClassPotentialCxSM.cpp b/src/models/ClassPotentialCxSM.cpp
index c5f5baa..d78b172 100644
--- a/src/models/ClassPotentialCxSM.cpp
+++ b/src/models/ClassPotentialCxSM.cpp
@@ -159,6 +159,7 @@ void Class_CxSM::ReadAndSet(const std::string &linestr,
                             std::vector<double> &par)
 {
   std::stringstream ss(linestr);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   double tmp;
 
   if (UseIndexCol)
diff --git a/src/models/ClassPotentialN2HDM.cpp b/src/models/ClassPotentialN2HDM.cpp
index 2caed38..0c80c38 100644
--- a/src/models/ClassPotentialN2HDM.cpp
+++ b/src/models/ClassPotentialN2HDM.cpp
@@ -163,6 +163,7 @@ void Class_Potential_N2HDM::ReadAndSet(const std::string &linestr,
                                        std::vector<double> &par)
 {
   std::stringstream ss(linestr);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   double tmp;
   double lu3 = 0, ll1 = 0, ll2 = 0, ll3 = 0, ll4 = 0, ll5 = 0, ll6 = 0, ll7 = 0,
          ll8 = 0, lvs = 0, ltanbeta = 0;
diff --git a/src/models/ClassPotentialR2HDM.cpp b/src/models/ClassPotentialR2HDM.cpp
index 12c40c4..ec6e46b 100644
--- a/src/models/ClassPotentialR2HDM.cpp
+++ b/src/models/ClassPotentialR2HDM.cpp
@@ -148,6 +148,7 @@ void Class_Potential_R2HDM::ReadAndSet(const std::string &linestr,
                                        std::vector<double> &par)
 {
   std::stringstream ss(linestr);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   double tmp;
 
   if (UseIndexCol)
diff --git a/src/models/ClassPotentialSM.cpp b/src/models/ClassPotentialSM.cpp
index 37e95c7..cd58b62 100644
--- a/src/models/ClassPotentialSM.cpp
+++ b/src/models/ClassPotentialSM.cpp
@@ -112,6 +112,7 @@ std::vector<std::string> Class_SM::addLegendVEV() const
 void Class_SM::ReadAndSet(const std::string &linestr, std::vector<double> &par)
 {
   std::stringstream ss(linestr);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   double tmp;
 
   if (UseIndexCol)
diff --git a/src/models/ClassTemplate.cpp b/src/models/ClassTemplate.cpp
index 938cafc..324337f 100644
--- a/src/models/ClassTemplate.cpp
+++ b/src/models/ClassTemplate.cpp
@@ -149,6 +149,7 @@ void Class_Template::ReadAndSet(const std::string &linestr,
                                 std::vector<double> &par)
 {
   std::stringstream ss(linestr);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   double tmp;
 
   double lms{0}, llambda{0};
diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index 6843896..56478e9 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -106,6 +106,8 @@ try
     if (linecounter >= args.firstline and linecounter <= args.lastline)
     {
       count += 1; // keep track at which point we are
+      // do not hide failed allocations
+      output_contents.at(count - 1).exceptions(std::ios_base::badbit);
       output_contents.at(count - 1).precision(
           std::numeric_limits<double>::max_digits10);
 
@@ -225,6 +227,7 @@ try
 
       int tab_count_legend = 1;
       std::stringstream full_legend;
+      full_legend.exceptions(std::ios_base::badbit);
       full_legend << linestr_store << sep << modelPointer->addLegendCT() << sep
                   << legend;
       outfile << full_legend.str() << std::endl;
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index 8dc67fd..b784f19 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -103,6 +103,8 @@ try
     if (linecounter >= args.firstline and linecounter <= args.lastline)
     {
       count += 1; // keep track at which point we are
+      // do not hide failed allocations
+      output_contents.at(count - 1).exceptions(std::ios_base::badbit);
       output_contents.at(count - 1).precision(
           std::numeric_limits<double>::max_digits10);
 
@@ -205,6 +207,7 @@ try
 
       int tab_count_legend = 1;
       std::stringstream full_legend;
+      full_legend.exceptions(std::ios_base::badbit);
       full_legend << linestr_store << sep << modelPointer->addLegendCT() << sep
                   << legend;
       outfile << full_legend.str() << std::endl;
diff --git a/src/utility/utility.cpp b/src/utility/utility.cpp
index 300066a..1055821 100644
--- a/src/utility/utility.cpp
+++ b/src/utility/utility.cpp
@@ -27,6 +27,7 @@ std::vector<std::string> split(const std::string &str, char delimiter)
 {
   // Using str in a string stream
   std::stringstream ss(str);
+  ss.exceptions(std::ios_base::badbit); // do not hide failed allocations
   std::vector<std::string> res;
   std::string token;
   while (getline(ss, token, delimiter))
-- 
2.43.0


From 7388bc075483a0c5f210b4f9f9c1b128e7057885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:25 +0000
Subject: [PATCH 08/14] fix: report percolation and completion as successful
 only with their temperatures

An exactly met false vacuum fraction ended the bisection as a failure, and the
status was set without looking at the recalculated temperature.
---
 src/bounce_solution/bounce_solution.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index f40d186..0bb8d51 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -791,6 +791,16 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
         break;
       }
     }
+
+    // The fraction was met exactly before the interval became small enough
+    if (res_Temp < 0 and
+        almost_the_same(int_at_false_vac_frac,
+                        IatT,
+                        RelativeErrorInCalcTempAtFalseVacFraction *
+                            MarginOfCalcTempAtFalseVacFractionBeforeFailure))
+    {
+      res_Temp = T_middle;
+    }
   }
   // Not numerically stable
   return res_Temp;
@@ -816,7 +826,7 @@ void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
       Tperc       = CalcTempAtFalseVacFraction(false_vac_frac);
       status_perc = BSMPT::StatusTemperature::Success;
     }
-    else if (Tperc < 0)
+    if (Tperc < 0)
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the percolation temperature failed.");
@@ -844,7 +854,7 @@ void BounceSolution::CalculateCompletionTemp(const double &false_vac_frac)
       Tcompl              = CalcTempAtFalseVacFraction(false_vac_frac);
       status_compl        = BSMPT::StatusTemperature::Success;
     }
-    else if (Tcompl < 0)
+    if (Tcompl < 0)
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the completion temperature failed.");
-- 
2.43.0


From a633f597c4b6731064ca40d4cc8deea103b171f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 09/14] fix: use the requested false vacuum fractions for
 percolation and completion

---
 include/BSMPT/bounce_solution/bounce_solution.h | 5 +++++
 src/bounce_solution/bounce_solution.cpp         | 3 ++-
 src/transition_tracer/transition_tracer.cpp     | 4 ++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index 96c1813..481d52c 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -60,6 +60,11 @@ public:
    */
   double vwall = 0.95;
 
+  /**
+   * @brief false vacuum fraction that defines percolation
+   */
+  double percolation_false_vac_frac = 0.71;
+
   /**
    * @brief number of temperature steps in the initial scan of the bounce solver
    *
diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 0bb8d51..ef486bb 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -808,6 +808,7 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
 
 void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
 {
+  percolation_false_vac_frac = false_vac_frac;
   if (status_bounce_sol == StatusGW::Success)
   {
     Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
@@ -964,7 +965,7 @@ void BounceSolution::CalculatePTStrength()
     // v_wall = v_wall(alpha, T_*)
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
-    CalculatePercolationTemp();
+    CalculatePercolationTemp(percolation_false_vac_frac);
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 5041100..733591e 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -204,7 +204,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculatePercolationTemp();
+              bounce.CalculatePercolationTemp(input.perc_prbl);
 
               output_store.status.status_perc.push_back(bounce.status_perc);
               if (bounce.status_perc == BSMPT::StatusTemperature::Success)
@@ -227,7 +227,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculateCompletionTemp();
+              bounce.CalculateCompletionTemp(input.compl_prbl);
 
               output_store.status.status_compl.push_back(bounce.status_compl);
               if (bounce.status_compl == BSMPT::StatusTemperature::Success)
-- 
2.43.0


From f594b7f3257539c9d76c5856ba783ecb49b6ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 10/14] fix: report the wall velocity that was used

---
 src/transition_tracer/transition_tracer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 733591e..1859b60 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -277,9 +277,8 @@ TransitionTracer::TransitionTracer(user_input &input)
                 Logger::Write(LoggingLevel::TransitionDetailed,
                               "Start GW parameters calculation.");
 
-                new_gw_data.vwall = bounce.GetWallVelocity();
-
                 bounce.CalculatePTStrength();
+                new_gw_data.vwall       = bounce.GetWallVelocity();
                 new_gw_data.alpha       = bounce.GetPTStrength();
                 new_gw_data.beta_over_H = bounce.GetInvTimeScale();
 
-- 
2.43.0


From f1772827e89c2f02b85811e2dd391cc4df21d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 11/14] fix: let the user-defined wall velocity enter the
 transition temperatures

Without a percolation temperature no gravitational wave parameters can be
calculated; do not end the program in that case.
---
 src/bounce_solution/bounce_solution.cpp     | 3 ++-
 src/transition_tracer/transition_tracer.cpp | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index ef486bb..903ca35 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -35,7 +35,8 @@ BounceSolution::BounceSolution(
   Tc         = phase_pair.crit_temp;
   Tm         = phase_pair.T_low;
 
-  UserDefined_vwall               = UserDefined_vwall_in;
+  UserDefined_vwall = UserDefined_vwall_in;
+  if (UserDefined_vwall >= 0) vwall = UserDefined_vwall;
   epsturb                         = UserDefined_epsturb_in;
   MaxPathIntegrations             = MaxPathIntegrations_in;
   NumberOfInitialScanTemperatures = NumberOfInitialScanTemperatures_in;
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 1859b60..5d1a6c0 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -271,6 +271,10 @@ TransitionTracer::TransitionTracer(user_input &input)
                 trans_status = bounce.status_compl;
               }
 
+              // the strength of the transition needs the percolation temperature
+              if (bounce.status_perc != BSMPT::StatusTemperature::Success)
+                trans_status = bounce.status_perc;
+
               if (trans_status == BSMPT::StatusTemperature::Success &&
                   input.gw_calculation)
               {
-- 
2.43.0


From 4cd742da971ad4958b6d15b1d732d0aed5e9b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 12/14] fix: accept --checkewsr=keep_ewsr in CalcTemps

The option is documented and handled (value 3), but the range check rejected it.
---
 src/prog/CalcTemps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index b784f19..558e10c 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -349,7 +349,7 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "Invalid choice for num_check_pts.");
     return false;
   }
-  if (CheckEWSymmetryRestoration > 2 or CheckEWSymmetryRestoration < 0)
+  if (CheckEWSymmetryRestoration > 3 or CheckEWSymmetryRestoration < 0)
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid choice for CheckEWSymmetryRestoration.");
-- 
2.43.0


From 15c2530717b3d1073a2e36b73d5320934b7a54c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 13/14] fix: initialise Initial_lmin before the first backwards
 propagation

CalculateExactSolutionThreshold read it before it was ever set, so that the
bounce action depended on what the stack happened to hold.
---
 include/BSMPT/bounce_solution/action_calculation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BSMPT/bounce_solution/action_calculation.h b/include/BSMPT/bounce_solution/action_calculation.h
index 3972f94..fae659f 100644
--- a/include/BSMPT/bounce_solution/action_calculation.h
+++ b/include/BSMPT/bounce_solution/action_calculation.h
@@ -57,7 +57,7 @@ private:
    * @brief Store the value of backwards propagation
    *
    */
-  double Initial_lmin;
+  double Initial_lmin = 0;
 
   /**
    * @brief Potential at the false vacuum in the unshifted potential (in the
-- 
2.43.0


From 7ad7a1bfbeaf8c43770994d587a7e7a6104f5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:20 +0000
Subject: [PATCH 14/14] fix: compare nested phases in DoGlobMinOverlap instead
 of two empty ones

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index e806ad2..c157e7d 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1876,7 +1876,7 @@ bool Vacuum::DoGlobMinOverlap(const Phase &new_phase, const Phase &old_phase)
         phase_high = new_phase;
         phase_low  = old_phase;
       }
-      else if (new_phase.T_low <= old_phase.T_low)
+      else
       {
         phase_high = old_phase;
         phase_low  = new_phase;
-- 
2.43.0

