From 0f37551d0b3a8a8b1ff2be0bfd0a4995150c2122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 01/24] fix: distributed tessellation without communication
 info no longer indexes the unset shared lists

---
 src/DistributedTessellator.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index afed0ed..2ed6060 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -548,6 +548,9 @@ computeDistributedTessellation(const vector<RealType>& points,
   }
 
 
+  // The candidate neighbors are only meaningful along with the shared elements.
+  if (not mBuildCommunicationInfo) mesh.neighborDomains.clear();
+
   // Remove any neighbors we don't actually share any info with.
   unsigned numNeighbors = mesh.neighborDomains.size();
   for (int i = numNeighbors - 1; i != -1; --i) {
@@ -737,9 +740,11 @@ computeDistributedTessellation(const vector<RealType>& points,
 
   // Post-conditions.
 #ifdef DEBUG_MODE
-  const string msg = checkDistributedTessellation(mesh);
-  if (msg != "ok" and rank == 0) cerr << msg;
-  POLY_ASSERT(msg == "ok");
+  if (mBuildCommunicationInfo) {
+    const string msg = checkDistributedTessellation(mesh);
+    if (msg != "ok" and rank == 0) cerr << msg;
+    POLY_ASSERT(msg == "ok");
+  }
 #endif
 }
 
-- 
2.43.0


From b242c5e7efecdd894c2bd39d39d9bddd2f3d30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 02/24] fix: a domain whose generators span no area no longer
 tessellates them unbounded

---
 src/DistributedTessellator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 2ed6060..f3493a4 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -906,7 +906,7 @@ computeDomainNeighbors(const vector<RealType>& points,
     // We have a lower-dimension hull. Every point is visible.
     else
     {
-      mSerialTessellator->tessellate(points, localMesh);
+      if (visIntermediateMeshes) mSerialTessellator->tessellate(points, localMesh);
       localHull.points = points;
     }
     
-- 
2.43.0


From c0444cd147de54a07e442d722cd8ba1e9e9892ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 03/24] fix: deleteCells recomputes the boundary elements
 instead of leaving the old numbering

---
 src/deleteCells.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deleteCells.hh b/src/deleteCells.hh
index a15147b..e232c1b 100644
--- a/src/deleteCells.hh
+++ b/src/deleteCells.hh
@@ -17,6 +17,7 @@
 #include <map>
 
 #include "polytope.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -135,6 +136,9 @@ deleteCells(Tessellation<Dimension, RealType>& mesh,
     mesh.cells = newCells;
   }
 
+  // The old boundary elements refer to the original numbering.
+  findBoundaryElements(mesh, mesh.boundaryFaces, mesh.boundaryNodes);
+
   // Update the shared nodes and faces.
   const unsigned numNeighbors = mesh.sharedNodes.size();
   POLY_ASSERT(mesh.sharedFaces.size() == numNeighbors);
-- 
2.43.0


From e2bb116412a00f9d13d7b9b04baf2755203441ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 04/24] fix: a parallel dump with several domains per file
 appends to the file instead of recreating it

---
 src/SiloWriter_2d.cc | 3 ++-
 src/SiloWriter_3d.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 0a1449d..7c5c379 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -92,7 +92,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The first member of our group has already created the file.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 70ddaed..d46bb81 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -117,7 +117,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The first member of our group has already created the file.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
-- 
2.43.0


From cfb76a747cc71c1fa47c4f6456ad8100ab46f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 05/24] fix: multi-block objects list every domain when the
 number of files does not divide the number of processes

---
 src/SiloWriter_2d.cc | 29 ++++++++++++++++-------------
 src/SiloWriter_3d.cc | 29 ++++++++++++++++-------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 7c5c379..8aa529d 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -399,7 +399,9 @@ write(const Tessellation<2, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // The first (nproc % numFiles) files hold one domain more than the others.
+  const int minChunks = nproc / numFiles, numExtra = nproc % numFiles;
+  const int numChunks = minChunks + (groupRank < numExtra ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -467,16 +469,17 @@ write(const Tessellation<2, RealType>& mesh,
     // cerr << "Opening MASTER file " << masterFileName << endl;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames(nproc);
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
         edgeFields.size() +
         faceFields.size() +
         cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
+    int domain = 0;
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      for (int c = 0; c < minChunks + (i < numExtra ? 1 : 0); ++c, ++domain)
       {
         // Mesh.
         char meshName[1024];
@@ -484,7 +487,7 @@ write(const Tessellation<2, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames[domain] = strDup(meshName);
 
         // Field data.
         int fieldIndex = 0;
@@ -503,21 +506,21 @@ write(const Tessellation<2, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
         &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index d46bb81..3ee3aa7 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -441,7 +441,9 @@ write(const Tessellation<3, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // The first (nproc % numFiles) files hold one domain more than the others.
+  const int minChunks = nproc / numFiles, numExtra = nproc % numFiles;
+  const int numChunks = minChunks + (groupRank < numExtra ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -508,16 +510,17 @@ write(const Tessellation<3, RealType>& mesh,
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames(nproc);
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
                                     edgeFields.size() +
                                     faceFields.size() +
                                     cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
+    int domain = 0;
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      for (int c = 0; c < minChunks + (i < numExtra ? 1 : 0); ++c, ++domain)
       {
         // Mesh.
         char meshName[1024];
@@ -525,7 +528,7 @@ write(const Tessellation<3, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames[domain] = strDup(meshName);
 
         // Field data.
         int fieldIndex = 0;
@@ -544,21 +547,21 @@ write(const Tessellation<3, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
                    &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
-- 
2.43.0


From 9b9ca0a270fa10de10b5f853150f977100fa665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 06/24] fix: the face-cell connectivity in Silo files names
 both cells of a face and has the right length

---
 src/SiloWriter_2d.cc | 6 +++---
 src/SiloWriter_3d.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 8aa529d..3069055 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -315,13 +315,13 @@ write(const Tessellation<2, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 3ee3aa7..8b4883e 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -352,13 +352,13 @@ write(const Tessellation<3, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
-- 
2.43.0


From e8b51edcd8ad7dc386cac2c996a4e2459365d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 07/24] fix: tags in Silo files carry their names

---
 src/SiloUtils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SiloUtils.cc b/src/SiloUtils.cc
index 97e51b4..e77a4f6 100644
--- a/src/SiloUtils.cc
+++ b/src/SiloUtils.cc
@@ -37,8 +37,7 @@ writeTagsToFile(const map<string, vector<int>*>& tags,
   {
     vector<int>& tag = *iter->second;
     elemLengths.push_back(static_cast<int>(tag.size()));
-    string tagName;
-    elemNames.push_back(strDup(tagName.c_str()));
+    elemNames.push_back(strDup(iter->first.c_str()));
     for (size_t i = 0; i < tag.size(); ++i)
       tagData.push_back(tag[i]);
   }
-- 
2.43.0


From bd65f0b4306a6dbd32babf65bb186ea923ee454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 08/24] fix: the Silo master file goes into the directory the
 dump was asked for

---
 src/SiloWriter_2d.cc | 2 +-
 src/SiloWriter_3d.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 3069055..65f351d 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -168,7 +168,7 @@ write(const Tessellation<2, RealType>& mesh,
   }
   if (rank == 0)
   {
-    DIR* masterDir = opendir(directory.c_str());
+    DIR* masterDir = opendir(masterDirName.c_str());
     if (masterDir == 0)
       mkdir((char*)masterDirName.c_str(), S_IRWXU | S_IRWXG);
     else
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 8b4883e..af41386 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -504,9 +504,9 @@ write(const Tessellation<3, RealType>& mesh,
   {
     char masterFileName[1024];
     if (cycle >= 0)
-      snprintf(masterFileName, 1024, "%s-%d/%s-%d.silo", prefix.c_str(), nproc, prefix.c_str(), cycle);
+      snprintf(masterFileName, 1024, "%s/%s-%d.silo", masterDirName.c_str(), prefix.c_str(), cycle);
     else
-      snprintf(masterFileName, 1024, "%s-%d/%s.silo", prefix.c_str(), nproc, prefix.c_str());
+      snprintf(masterFileName, 1024, "%s/%s.silo", masterDirName.c_str(), prefix.c_str());
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-- 
2.43.0


From 2bf2aae91b3a5fa6e63521f169fa95bfd3d39119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 09/24] fix: the distributed tessellator scales its coordinate
 quantum with the domain, so domains wider than a few units work

---
 src/DistributedTessellator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index f3493a4..ca7774b 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -445,7 +445,7 @@ computeDistributedTessellation(const vector<RealType>& points,
 
     // Compute the bounding box for the mesh coordinates.
     this->computeBoundingBox(mesh.nodes, rlow, rhigh);
-    const RealType dx = mSerialTessellator->degeneracy();
+    const RealType dx = mSerialTessellator->degeneracy()*DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
     // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
     
     // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
@@ -864,7 +864,8 @@ computeDomainNeighbors(const vector<RealType>& points,
   vector<ConvexHull> domainHulls; // (numProcs);
   vector<unsigned> domainCellOffset(1, 0);
   {
-    ConvexHull localHull = DT::convexHull(points, rlow, mSerialTessellator->degeneracy());;
+    const RealType dx = mSerialTessellator->degeneracy()*DT::maxLength(rlow, rhigh);
+    ConvexHull localHull = DT::convexHull(points, rlow, dx);
 
     // We can skip some work here if the convex hull is of lower dimension than the 
     // problem itself. We determine the set of visible points for a full-dimension
-- 
2.43.0


From 3dd440436c8c45d86ab57f4588bea6319bdc575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 10/24] fix: the distributed consistency check reports the size
 of the list it compared, not one indexed by the sender's numbering

---
 src/checkDistributedTessellation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkDistributedTessellation.hh b/src/checkDistributedTessellation.hh
index dd27e51..7b067f4 100644
--- a/src/checkDistributedTessellation.hh
+++ b/src/checkDistributedTessellation.hh
@@ -108,7 +108,7 @@ checkConsistentCommInfo(const std::string& label,
           const unsigned kk = std::distance(neighborDomains.begin(), neighbItr);
           if (recvHashes.size() != sharedIDs[kk].size()) {
             std::stringstream os;
-            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[k].size();
+            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[kk].size();
             result = os.str();
           } else {
             unsigned i = 0;
-- 
2.43.0


From ff50be6ab5960e3eb65a88663c810b5dd5b10189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 11/24] fix: C tessellation object: initialise face_cells, and
 reset what clear frees

---
 polytope_c/polytope_tessellation.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2414762..8e0f44f 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -33,6 +33,7 @@ polytope_tessellation_t* polytope_tessellation_new(int dimension)
   tess->node_cell_offsets = NULL;
   tess->node_cells = NULL;
   tess->convex_hull = NULL;
+  tess->face_cells = NULL;
   tess->boundary_faces = NULL;
   tess->num_boundary_faces = 0;
   tess->boundary_nodes = NULL;
@@ -78,14 +79,19 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
   if (tessellation->boundary_nodes != NULL)
   {
     free(tessellation->boundary_nodes);
+    tessellation->num_boundary_nodes = 0;
+    tessellation->boundary_nodes = NULL;
   }
   if (tessellation->boundary_faces != NULL)
   {
     free(tessellation->boundary_faces);
+    tessellation->num_boundary_faces = 0;
+    tessellation->boundary_faces = NULL;
   }
   if (tessellation->face_cells != NULL)
   {
     free(tessellation->face_cells);
+    tessellation->face_cells = NULL;
   }
   if (tessellation->neighbor_domains != NULL)
   {
-- 
2.43.0


From d2a4903b2c8b453a46534820d1b266ea0b05a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 12/24] fix: polytope_tessellator_name returned the storage of
 a destroyed string

---
 polytope_c/polytope_tessellator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index df67df5..080fada 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -1,3 +1,5 @@
+#include <string.h>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 #include "BoostTessellator.hh"
@@ -217,6 +219,7 @@ struct polytope_tessellator_t
 {
   Tessellator<2, polytope_real_t>* tess2;
   Tessellator<3, polytope_real_t>* tess3;
+  char* name;
 };
 //------------------------------------------------------------------------
 
@@ -227,6 +230,7 @@ void polytope_tessellator_free(polytope_tessellator_t* tessellator)
     delete tessellator->tess2;
   else
     delete tessellator->tess3;
+  free(tessellator->name);
   free(tessellator);
 }
 //------------------------------------------------------------------------
@@ -323,10 +327,7 @@ bool polytope_tessellator_handles_plcs(polytope_tessellator_t* tessellator)
 //------------------------------------------------------------------------
 const char* polytope_tessellator_name(polytope_tessellator_t* tessellator)
 {
-  if (tessellator->tess2 != NULL)
-    return tessellator->tess2->name().c_str();
-  else
-    return tessellator->tess3->name().c_str();
+  return tessellator->name;
 }
 //------------------------------------------------------------------------
 
@@ -357,6 +358,7 @@ polytope_tessellator_t* boost_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new BoostTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = strdup(t->tess2->name().c_str());
   return t;
 }
 #endif
@@ -369,6 +371,7 @@ polytope_tessellator_t* triangle_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new TriangleTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = strdup(t->tess2->name().c_str());
   return t;
 }
 #endif
@@ -381,6 +384,7 @@ polytope_tessellator_t* tetgen_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = NULL;
   t->tess3 = new TetgenTessellator();
+  t->name = strdup(t->tess3->name().c_str());
   return t;
 }
 #endif
-- 
2.43.0


From fe20af1990423ff7aa797c9704ac9ff974e2ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 13/24] fix: a generator counts as hidden from the other
 domains only when the balls about its cell's nodes lie in the hull

---
 src/DistributedTessellator.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index ca7774b..d4acce1 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -878,8 +878,20 @@ computeDomainNeighbors(const vector<RealType>& points,
     {
       mSerialTessellator->tessellate(points, localMesh);
       for (unsigned i = 0; i < points.size()/Dimension; ++i) {
-        ReducedPLC<Dimension, RealType> cell = geometry::cellToReducedPLC<Dimension, RealType>(localMesh, i);
-        if (not convexWithin(cell, localHull))  exteriorCells.insert(i);
+        // Another domain's generator changes this cell when it lies in the ball
+        // about one of the cell's nodes that reaches to our generator, so it's
+        // these balls (as their bounding boxes) that have to be in the hull.
+        const ReducedPLC<Dimension, RealType> cell = geometry::cellToReducedPLC<Dimension, RealType>(localMesh, i);
+        ReducedPLC<Dimension, RealType> balls;
+        for (unsigned j = 0; j < cell.points.size()/Dimension; ++j) {
+          const RealType r = geometry::distance<Dimension, RealType>(&cell.points[Dimension*j], &points[Dimension*i]);
+          for (unsigned corner = 0; corner != (1U << Dimension); ++corner) {
+            for (unsigned k = 0; k != Dimension; ++k) {
+              balls.points.push_back(cell.points[Dimension*j + k] + ((corner >> k) & 1 ? r : -r));
+            }
+          }
+        }
+        if (not convexWithin(balls, localHull))  exteriorCells.insert(i);
       }
       
       vector<RealPoint> exteriorPoints(localHull.points.size()/Dimension);
-- 
2.43.0


From 02126fd582770fbf5fb228754ec5173fe4c67f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 14/24] fix: removing collinear points from a clipped cell read
 the wrong points

---
 src/clipQuantizedTessellation2d.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 6a3b36d..f21b63e 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -36,8 +36,9 @@ removeCollinearPoints(bp::polygon_data<IntType>& poly) {
   const int n = poly.size();
   std::vector<Point> points;
   Segment segment;
+  // The last point repeats the first, so there are n - 1 different ones.
   for (int i = 0; i != n-1; ++i) {
-    segment = bp::construct<Segment>(*(poly.begin()+(i-1)%n), *(poly.begin()+(i+1)%n));
+    segment = bp::construct<Segment>(*(poly.begin()+(i+n-2)%(n-1)), *(poly.begin()+(i+1)%n));
     if (!bp::contains(segment, *(poly.begin() + i))) points.push_back(*(poly.begin() + i));
   }
   POLY_ASSERT2(points.size() >= 3, points.size());
-- 
2.43.0


From bc2fdd91a9e2036b0e81f1fe6de60b604031df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 15/24] fix: cleanEdges sends each neighbour a mask buffer of
 its own

---
 src/MeshEditor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 1a32cfb..32c574b 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -378,14 +378,18 @@ flagEdgesForCleaning(const RealType edgeTol,
     }
     
     // Send the sharedEdgeMask to each neighbor asynchronously
-    vector<char> localBuffer;
+    // (every neighbor has a buffer of its own that lives until the sends are done).
+    vector<vector<char> > localBuffers(mMesh.neighborDomains.size());
+    vector<unsigned> localBufferSizes(mMesh.neighborDomains.size());
     vector<MPI_Request> sendRequests;
     sendRequests.reserve(2*mMesh.neighborDomains.size());
     ineighbor = 0;
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
+      vector<char>& localBuffer = localBuffers[ineighbor];
+      unsigned& localBufferSize = localBufferSizes[ineighbor];
       serialize(sharedEdgeMask[ineighbor], localBuffer);
-      unsigned localBufferSize = localBuffer.size();
+      localBufferSize = localBuffer.size();
       const unsigned otherProc = *otherItr;
       sendRequests.push_back(MPI_Request());
       MPI_Isend(&localBufferSize, 1, MPI_UNSIGNED, otherProc, 1, MPI_COMM_WORLD, &sendRequests.back());
-- 
2.43.0


From f3dece29a48ba5b40f512fcb481fcf5737763cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 16/24] fix: cleanEdges takes as shared edges those of the
 shared faces

---
 src/MeshEditor.cc | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 32c574b..5f166c3 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -306,30 +306,29 @@ flagEdgesForCleaning(const RealType edgeTol,
       POLY_ASSERT(nodeIndexToSharePosition.size() == mMesh.sharedNodes[ineighbor].size());
       domainNodeMaps[ineighbor] = nodeIndexToSharePosition;
 
-      // Consider all edges on this domain. The shared ones consist of two shared nodes.
-      for (typename map<EdgeType, int>::const_iterator edgeItr = edgeToIndex.begin();
-           edgeItr != edgeToIndex.end();
-           ++edgeItr) {
-
-      // // for (typename EdgeMap::left_const_iterator edgeItr = edgeToID.left.begin();
-      // //      edgeItr != edgeToID.left.end(); ++edgeItr) {
-
-        const EdgeType edge  = edgeItr->first;
-        const unsigned iedge = edgeItr->second;
-        inode0 = edge.first;
-        inode1 = edge.second;
-        POLY_ASSERT(inode0 < inode1);
-        POLY_ASSERT(inode0 < mMesh.nodes.size()/Dimension and
-                    inode1 < mMesh.nodes.size()/Dimension);
-        map<unsigned,unsigned>::const_iterator it0 = nodeIndexToSharePosition.find(inode0);
-        map<unsigned,unsigned>::const_iterator it1 = nodeIndexToSharePosition.find(inode1);
-        if (it0 != nodeIndexToSharePosition.end() and 
-            it1 != nodeIndexToSharePosition.end()) {
-          const EdgeType sharedEdge = internal::hashEdge(it0->second, it1->second);
-          sharedEdges[ineighbor].push_back(sharedEdge);
-          sharedEdgeReverse[iedge].push_back(ineighbor);
+      // The shared edges are those of the shared faces. (Two shared nodes may also have
+      // an edge between them that the other domain does not have.)
+      std::set<EdgeType> edges;
+      for (vector<unsigned>::const_iterator faceItr = mMesh.sharedFaces[ineighbor].begin();
+           faceItr != mMesh.sharedFaces[ineighbor].end(); ++faceItr) {
+        const std::vector<unsigned>& face = mMesh.faces[*faceItr];
+        const unsigned maxNodeIndex = (face.size() == 2) ? 1 : face.size();
+        for (unsigned inode = 0; inode != maxNodeIndex; ++inode) {
+          edges.insert(internal::hashEdge(face[inode], face[(inode+1) % face.size()]));
         }
       }
+      for (std::set<EdgeType>::const_iterator edgeItr = edges.begin();
+           edgeItr != edges.end();
+           ++edgeItr) {
+        typename map<EdgeType, int>::const_iterator itr = edgeToIndex.find(*edgeItr);
+        POLY_ASSERT(itr != edgeToIndex.end());
+        map<unsigned,unsigned>::const_iterator it0 = nodeIndexToSharePosition.find(edgeItr->first);
+        map<unsigned,unsigned>::const_iterator it1 = nodeIndexToSharePosition.find(edgeItr->second);
+        POLY_ASSERT(it0 != nodeIndexToSharePosition.end() and 
+                    it1 != nodeIndexToSharePosition.end());
+        sharedEdges[ineighbor].push_back(internal::hashEdge(it0->second, it1->second));
+        sharedEdgeReverse[itr->second].push_back(ineighbor);
+      }
 
       // Sort the sharedEdges list
       sort(sharedEdges[ineighbor].begin(), sharedEdges[ineighbor].end(),
-- 
2.43.0


From 83c4a176bb3474678134b6783dd802e019d40aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 17/24] fix: deleteCells stores the faces of the remaining
 cells under their new numbers

---
 src/MeshEditor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 5f166c3..6c473c8 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -716,7 +716,7 @@ cleanMesh(std::vector<unsigned>& cellMap,
         //POLY_ASSERT(faceMap.find(iface) != faceMap.end());
         if (mFaceMask[iface] == 1) {
           // int newFace = (*itr >= 0 ? faceMap[iface] : ~faceMap[iface]);
-          newCells[i].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
+          newCells[cellMap[i]].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
         }
       }
     }
-- 
2.43.0


From 99768c18308ff6a9aebe68dbf58c298b1a0052e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 18/24] fix: editing a mesh recomputes its boundary faces and
 nodes

---
 src/MeshEditor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 6c473c8..bc49a2f 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -6,6 +6,7 @@
 
 #include "polytope.hh"
 #include "MeshEditor.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -742,6 +743,11 @@ cleanMesh(std::vector<unsigned>& cellMap,
     mMesh.sharedFaces[idomain] = newFaces;
   }
 
+  // The boundary elements have new numbers as well.
+  mMesh.boundaryFaces.clear();
+  mMesh.boundaryNodes.clear();
+  findBoundaryElements(mMesh, mMesh.boundaryFaces, mMesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mMesh.convexHull = PLC<Dimension, RealType>();
 
-- 
2.43.0


From 3172de6125f785de2ead72159d5e68dcc1912736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 19/24] fix: cleanEdges keeps the nodes of the boundary

---
 src/MeshEditor.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index bc49a2f..0efdc30 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -117,6 +117,7 @@ flagEdgesForCleaning(const RealType edgeTol,
   map<int, EdgeType> indexToEdge;
   map<unsigned, vector<unsigned> > cellToEdges, borderNodesToBorderFaces;
   set<unsigned> borderNodes;
+  set<EdgeType> borderEdges;
   vector<RealType> edgeLength;
   RealType length;
   unsigned inode0, inode1;
@@ -156,6 +157,7 @@ flagEdgesForCleaning(const RealType edgeTol,
            edgeLength.push_back(length);
         }
         cellEdgeIDs.push_back(iedge);
+        if (nfaceCells == 1) borderEdges.insert(edge);
 
         // // typename EdgeMap::left_const_iterator lItr = edgeToID.left.find(edge);
 	// // if (lItr == edgeToID.left.end()) {
@@ -202,11 +204,18 @@ flagEdgesForCleaning(const RealType edgeTol,
     }
     POLY_ASSERT(otherNodes.size() == 2);
     
-    const bool collinear = 
-       geometry::collinear<Dimension, RealType>(&mMesh.nodes[2*(*nodeItr)],
-                                                &mMesh.nodes[2*otherNodes[0]],
-                                                &mMesh.nodes[2*otherNodes[1]],
-                                                1.0e-8);
+    // The border runs straight through this node if its neighbors lie in opposite
+    // directions, however near they are.
+    RealType v0[Dimension], v1[Dimension], len0 = 0.0, len1 = 0.0, cosine = 0.0;
+    for (unsigned j = 0; j != Dimension; ++j) {
+      v0[j] = mMesh.nodes[Dimension*otherNodes[0]+j] - mMesh.nodes[Dimension*(*nodeItr)+j];
+      v1[j] = mMesh.nodes[Dimension*otherNodes[1]+j] - mMesh.nodes[Dimension*(*nodeItr)+j];
+      len0 += v0[j]*v0[j];
+      len1 += v1[j]*v1[j];
+      cosine += v0[j]*v1[j];
+    }
+    const bool collinear = (borderFaces.size() == 2 and
+                            cosine < (1.0e-8 - 1.0)*sqrt(len0*len1));
     if (not collinear) cornerNodes.insert(*nodeItr);// isCornerNode[*nodeItr] = 1;
   }
   
@@ -242,10 +251,15 @@ flagEdgesForCleaning(const RealType edgeTol,
     const bool cornerEdge = (cornerNodes.find(inode0) != cornerNodes.end() or
                              cornerNodes.find(inode1) != cornerNodes.end());
                             //(isCornerNode[inode0] == 0 or isCornerNode[inode1] == 0));
+    // An edge between two border nodes that is not itself on the border connects
+    // different parts of the border. Collapsing it would change the domain.
+    const bool crossEdge = (borderNodes.find(inode0) != borderNodes.end() and
+                            borderNodes.find(inode1) != borderNodes.end() and
+                            borderEdges.find(edge) == borderEdges.end());
     const bool cleanTest = (edgeLength[iedge] < edgeTol*maxCellEdgeLength[iedge] and
                             mNodeMask[inode0] == 1 and 
                             mNodeMask[inode1] == 1 and
-                            not cornerEdge);
+                            not cornerEdge and not crossEdge);
     if (cleanTest) {
       edgesClean = false;
       edgeMask[iedge] = 0;
@@ -488,7 +502,9 @@ flagEdgesForCleaning(const RealType edgeTol,
             if (ind1 < ind0) {inode0 = edge.second; inode1 = edge.first;}
           }
 
-          else if (node1Shared and !node0Shared) {
+          else if ((node1Shared and !node0Shared) or
+                   (borderNodes.find(inode1) != borderNodes.end() and
+                    borderNodes.find(inode0) == borderNodes.end())) {
              inode0 = edge.second; inode1 = edge.first;
           }
 
-- 
2.43.0


From 202c5190cd140a6124263bf0d4e374b9d7f8dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 20/24] fix: cleanEdges leaves two dimensional cells at least
 three edges

---
 src/MeshEditor.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 0efdc30..c95fb03 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -232,6 +232,15 @@ flagEdgesForCleaning(const RealType edgeTol,
 	 ++itr) maxCellEdgeLength[*itr] = max(maxCellEdgeLength[*itr], maxCellEdge);
   }
   
+  // In 2D a cell has to keep three of its edges.
+  vector<unsigned> numCellEdges(ncells0);
+  vector<vector<unsigned> > edgeToCells(nedges0);
+  for (unsigned icell = 0; icell != ncells0; ++icell) {
+    const vector<unsigned>& edgeIDs = cellToEdges[icell];
+    numCellEdges[icell] = edgeIDs.size();
+    for (unsigned k = 0; k != edgeIDs.size(); ++k) edgeToCells[edgeIDs[k]].push_back(icell);
+  }
+
   // Flag the edges we want to remove.
   vector<unsigned> edgeMask(nedges0, 1);
   vector<unsigned> nodeCollapse(nnodes0);
@@ -256,13 +265,20 @@ flagEdgesForCleaning(const RealType edgeTol,
     const bool crossEdge = (borderNodes.find(inode0) != borderNodes.end() and
                             borderNodes.find(inode1) != borderNodes.end() and
                             borderEdges.find(edge) == borderEdges.end());
+    bool cellsRemain = true;
+    if (Dimension == 2) {
+      for (unsigned k = 0; k != edgeToCells[iedge].size(); ++k) {
+        cellsRemain = cellsRemain and (numCellEdges[edgeToCells[iedge][k]] > 3);
+      }
+    }
     const bool cleanTest = (edgeLength[iedge] < edgeTol*maxCellEdgeLength[iedge] and
                             mNodeMask[inode0] == 1 and 
                             mNodeMask[inode1] == 1 and
-                            not cornerEdge and not crossEdge);
+                            not cornerEdge and not crossEdge and cellsRemain);
     if (cleanTest) {
       edgesClean = false;
       edgeMask[iedge] = 0;
+      for (unsigned k = 0; k != edgeToCells[iedge].size(); ++k) --numCellEdges[edgeToCells[iedge][k]];
       const bool node1KeepTest = //isCornerNode[inode1] == 1 or 
          (cornerNodes.find(inode1) != cornerNodes.end()) or
          (borderNodes.find(inode1) != borderNodes.end() and
-- 
2.43.0


From d6c262d236be3a80b0c58c11486e36fde6d78b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 21/24] fix: 3D face centroids index nodes by their number, not
 through the face twice

---
 src/DimensionTraits.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DimensionTraits.hh b/src/DimensionTraits.hh
index a84190e..cc2c168 100644
--- a/src/DimensionTraits.hh
+++ b/src/DimensionTraits.hh
@@ -122,7 +122,7 @@ struct DimensionTraits<3, RealType> {
     for (typename std::vector<unsigned>::const_iterator itr = mesh.faces[iface].begin();
          itr != mesh.faces[iface].end();
          ++itr) {
-      ni = mesh.faces[iface][*itr];
+      ni = *itr;
       pface[0] += mesh.nodes[3*ni];
       pface[1] += mesh.nodes[3*ni + 1];
       pface[2] += mesh.nodes[3*ni + 2];
-- 
2.43.0


From b127739695246fe9a44da20359a1c660f539a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 22/24] fix: the 3D hull of fewer than four different points is
 lower dimensional, not out of bounds

---
 src/DimensionTraits.hh |  4 ++--
 src/convexHull_3d.hh   | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/DimensionTraits.hh b/src/DimensionTraits.hh
index cc2c168..74f7f4e 100644
--- a/src/DimensionTraits.hh
+++ b/src/DimensionTraits.hh
@@ -160,8 +160,8 @@ struct DimensionTraits<3, RealType> {
       }
       return d;
     } else {
-      POLY_ASSERT(hull.facets[0].size() == 2);
-    return (hull.facets[0][0] == hull.facets[0][1]) ? 0 : 1;
+      POLY_ASSERT(hull.facets[0].size() >= 2);
+      return (hull.facets[0][0] == hull.facets[0][1]) ? 0 : 1;
     }
   }
 };
diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 9114d7a..15b6f3c 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -304,7 +304,15 @@ convexHull_3d(const std::vector<RealType>& points,
   std::vector<unsigned> pointMap;
   geometry::uniquePoints<3, RealType>(points, xmin, xmax, dx, upoints, pointMap);
   const unsigned nunique = upoints.size()/3;
-  POLY_ASSERT(nunique >= 4);
+
+  // Fewer than four points don't span a volume, so like convexHull_2d we make
+  // the lower dimensional hull a single facet.
+  if (nunique < 4) {
+    PLC<3, RealType> plc;
+    plc.facets.resize(1, std::vector<int>(3));
+    for (unsigned i = 0; i != 3; ++i) plc.facets[0][i] = std::min(i, nunique - 1);
+    return plc;
+  }
   std::vector<PointType> ps(nunique);
   for (unsigned i = 0; i != nunique; ++i) {
     ps[i].x = upoints[3*i];
-- 
2.43.0


From 33aeb02cbad0246e4a86ad8cd890cd2c03ab022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 23/24] fix: hash positions to 64 bits, so that different
 points get different hashes

---
 src/polytope_geometric_utilities.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 653504c..b570f80 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -8,6 +8,7 @@
 #include <cstdlib>
 #include <limits>
 #include <algorithm>
+#include <stdint.h>
 
 #include "Tessellation.hh"
 #include "ReducedPLC.hh"
@@ -61,7 +62,7 @@ template<int Dimension, typename RealType> struct Hasher;
 template<typename RealType> struct Hasher<2, RealType> {
 
   // typedef typename DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 31U; }
   //static unsigned  num1dbits()                { return 30U; }
@@ -172,7 +173,7 @@ template<typename RealType> struct Hasher<2, RealType> {
 template<typename RealType> struct Hasher<3, RealType> {
 
   // typedef DimensionTraits<3, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 21U; }
   static CoordHash coordMax()                 { return (1ULL << num1dbits()) - 1ULL; }
@@ -1359,7 +1360,7 @@ uniquePoints(const std::vector<RealType>& points,
   POLY_ASSERT(points.size() % Dimension == 0);
   typedef geometry::Hasher<Dimension, RealType> HasherType;
   // typedef DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   // // Compute the bounding box.
   // RealType xmin[Dimension], xmax[Dimension];
-- 
2.43.0


From 11c0fb043c711bbf0400a7bbaa7178c1adf1454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 24/24] fix: a fragment that joins several orphans makes one
 orphan of them all

---
 src/clipQuantizedTessellation2d.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index f21b63e..cc4a2fe 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -168,7 +168,8 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       while (polygonIndex < cellSet.size() and not bp::contains(cellSet[polygonIndex], gen)) ++polygonIndex;
       POLY_ASSERT(polygonIndex < cellSet.size());
 
-      // For each new orphan check if it can be unioned with an existing orphan.  Otherwise add it to the orphan set.
+      // For each new orphan check if it can be unioned with existing orphans.  A fragment can join several
+      // of them into one.
       unsigned k;
       PolygonSet trialunion;
       typename QuantizedTessellation2d<IntType, RealType>::RealPoint rp;
@@ -176,21 +177,25 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       qmesh.dequantize(pp, &rp.x);
       for (unsigned ipoly = 0; ipoly != cellSet.size(); ++ipoly) {
         if (ipoly != polygonIndex) {
-          for (k = 0; k != orphans.size(); ++k) {
+          Polygon fragment = cellSet[ipoly];
+          k = 0;
+          while (k != orphans.size()) {
             PolygonSet set1, set2, trialunion;
-            set1 += cellSet[ipoly];
+            set1 += fragment;
             set2 += orphans[k];
             bp::assign(trialunion, set1 | set2);
             if (trialunion.size() == 1) {
-              // Looks like these orphans can be unioned.  Replace the exising orphan with the union.
-              orphans[k] = trialunion[0];
-              removeCollinearPoints(orphans[k]);
-              break;
+              // Looks like these orphans can be unioned.  Replace the exising orphan with the union,
+              // and look again at the orphans that did not touch the fragment by itself.
+              fragment = trialunion[0];
+              removeCollinearPoints(fragment);
+              orphans.erase(orphans.begin() + k);
+              k = 0;
+            } else {
+              ++k;
             }
           }
-
-          // If we didn't find another orphan to union with, add this one to the orphanage.
-          if (k == orphans.size()) orphans += cellSet[ipoly];
+          orphans.push_back(fragment);
         }
       }
     }
-- 
2.43.0

