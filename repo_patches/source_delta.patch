From 7bec53c63e19353712b8593a3c6403f56d8d4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 001/151] fix: Cull() left entities orphaned by the deletion of
 a later entity

---
 src/iges/iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..d67de08 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1772,6 +1772,10 @@ void IGES::Cull( bool vicious )
     entities.clear();
     entities = tmpEnts;
 
+    // deleting an entity may orphan entities which were inspected before it
+    if( nCulled > 0 )
+        Cull( false );
+
 #ifdef DEBUG
     cerr << " + [INFO] Entities culled: " << nCulled << "\n";
     cerr << " + [INFO] Entities remaining: " << entities.size() << "\n";
-- 
2.43.0


From 9d9618f1fbb7ab24e6906e0633b6d90f128b585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 002/151] fix: parameter data comments overwrote the directory
 entry pointer columns

---
 src/entities/iges_entity.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..beb45f4 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2801,11 +2801,20 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            // columns 65..72 hold the pointer to the Directory Entry
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
+
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] could not format optional parameter comment\n";
+                return false;
+            }
+
+            tmp += tmp1;
 
             if( !FormatDEInt( tmp1, pdSeq++ ) )
             {
-- 
2.43.0


From 353627fcb653144a29dbb3c78f3e4e55153a8642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 003/151] fix: long color names could not be written and an
 empty name swallowed the optional pointers

---
 src/entities/entity314.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 0ce2ed1..4f8f935 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -188,17 +188,10 @@ bool IGES_ENTITY_314::format( int &index )
 
     char idelim;
 
-    if( cname.empty() )
-    {
-        if( extras.empty() )
-            idelim = rd;
-        else
-            idelim = pd;
-    }
+    if( cname.empty() && extras.empty() )
+        idelim = rd;
     else
-    {
         idelim = pd;
-    }
 
     if( !FormatPDREal( tStr, blue, idelim, 0.1 ) )
     {
@@ -209,17 +202,19 @@ bool IGES_ENTITY_314::format( int &index )
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
-    if( !cname.empty() )
+    if( !cname.empty() || !extras.empty() )
     {
         if( extras.empty() )
             idelim = rd;
         else
             idelim = pd;
 
-        ostr.str( "" );
-        ostr << cname.size() << "H" << cname << idelim;
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDHStr( cname, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
+        {
+            ERRMSG << "\n + [INFO] could not format color name\n";
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
-- 
2.43.0


From 7e86368c9c6ecba4effcf413817647ba8e0aaee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 004/151] fix: unlinking one operand of a Boolean Tree left
 dangling references in the others

---
 src/entities/entity180.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..3757893 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -313,6 +313,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
         if( aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -321,7 +322,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
     return true;
 }
-- 
2.43.0


From f60eacd67a612e0df586cfdc65753a308d71d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 005/151] fix: valid (odd) operand pointers of a Boolean Tree
 were rejected on reading

---
 src/entities/entity180.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 3757893..4fb0486 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -445,7 +445,7 @@ bool IGES_ENTITY_180::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
 
         if( ent == 0 || ent > 3 || ent < -9999997
-            || ( ent < 0 && (ent & 1) ) )
+            || ( ent < 0 && !(ent & 1) ) )
         {
             ERRMSG << "\n + [INFO] invalid value (" << ent << ")\n";
             pdout.clear();
-- 
2.43.0


From d87b629c2fc0004a8a00e14070b5b7486a853172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 006/151] fix: Transformation Matrix kept a dangling pointer
 when a color or optional entity was deleted

---
 src/entities/entity124.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..0873a12 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -234,21 +234,10 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return false;
     }
 
-    if( aChildEntity->GetEntityType() != ENT_TRANSFORMATION_MATRIX )
-    {
-        ERRMSG << "\n + [BUG] invalid entity type on entity to unlink (";
-        cerr << aChildEntity->GetEntityType() << ")\n";
-        return false;
-    }
-
     if( aChildEntity == pTransform )
-    {
-        pTransform = NULL;
         transform = 0;
-        return true;
-    }
 
-    return false;
+    return IGES_ENTITY::unlink( aChildEntity );
 }
 
 
-- 
2.43.0


From cce02cbd857276d581a3bfc44e955ac3f5f2f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 007/151] fix: the record delimiter of the global section was
 compared with and checked as the parameter delimiter

---
 src/iges/iges.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d67de08..6e02ead 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1068,7 +1068,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         delim = globs[2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
+        if( delim <= 0x20 || delim >= 0x7f
             || delim == 0x2b || delim == 0x2d || delim == 0x2e
             || delim == 'D' || delim == 'E' || delim == 'H'
             || ( delim >= 0x30 && delim <= 0x39 ) )
@@ -1091,10 +1091,17 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     ++idx;
     char rdelim = globalData.rdelim;
 
+    // the default record delimeter cannot be used if G1 has claimed it
+    if( globs[idx] == delim && delim == rdelim )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] parameter and record delimeters are the same\n";
+        return false;
+    }
+
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1102,12 +1109,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+            || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From 6412c55088ae54b50e319ee4107dfc806fb272d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 008/151] fix: defaulted product ID of the receiving system was
 not taken from the sending system

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 6e02ead..438737b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1186,7 +1186,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        if( globalData.nativeSystemID.empty() )
+        if( globalData.preprocessorVersion.empty() )
         {
             ERRMSG << "\n + [CORRUPT FILE] no Preprocessor Version (defaults not permitted)\n";
             return false;
@@ -1287,7 +1287,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
-- 
2.43.0


From 233f540ee3805ee26eb3032fe000e956fda1fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 009/151] fix: units and model scale were ignored when the
 global section ends before its last parameter

---
 src/iges/iges.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 438737b..15c92e4 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1516,10 +1516,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
         return false;
-- 
2.43.0


From 5a2b14986d95e0a4913e4740c0699f07805f000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 010/151] fix: files with a defaulted (empty) modification date
 were rejected

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 15c92e4..ceb60a8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1504,7 +1504,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty() && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
-- 
2.43.0


From 139e71f851843571f5e98bb402a016ea5c972789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 011/151] fix: the number of line width gradations was written
 as the maximum line width

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ceb60a8..045ef37 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2234,9 +2234,9 @@ bool IGES::writeGlobals( std::ofstream& file )
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
     if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+        globalData.maxLinewidth = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From f35cfecfed78d3bf90a3a8387a1aa4442e04b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 012/151] fix: date check read outside its table for an invalid
 month and did not check the seconds

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 045ef37..a608ed9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -196,7 +196,7 @@ static bool checkDate( const std::string aDate )
     if( errno || cp1 == cp0 || (cp1 - cp0) != 2 )
         ok = false;
 
-    if( iday < 1 || iday > mdays[imon -1] )
+    if( ok && ( iday < 1 || iday > mdays[imon -1] ) )
         ok = false;
 
     errno = 0;
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From 40668658c2f110230edf95b211a91be8059fb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 013/151] fix: header lines of exactly 72 characters were lost

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a608ed9..7a4d386 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1922,7 +1922,7 @@ bool IGES::AddToHeader( const char*& comments )
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From 6813340b47563f2551a63a83202f8b320cc24f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 014/151] fix: GetHeaders() did not return the number of header
 lines

---
 src/iges/iges.cpp       | 2 +-
 src/include/core/iges.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7a4d386..a569461 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1870,7 +1870,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..b9f6a12 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -299,7 +299,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From 4de6c80332cb5e4a9f275ffbc685953dd5aa28e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 015/151] fix: entities formatted before a failure in Write()
 were not reset

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a569461..84aae1d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -661,7 +661,7 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
             ERRMSG << "\n + [INFO] could not format entity for output\n";
 
             for( nEnt = 0; nEnt < iEnt; ++nEnt )
-                entities[iEnt]->unformat();
+                entities[nEnt]->unformat();
 
             return false;
         }
-- 
2.43.0


From 571fdb11393cef21b6af546a0978397d934fb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 016/151] fix: changing the model scale multiplied the
 resolution by the absolute scale

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 84aae1d..4a87f52 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1851,7 +1851,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From 787ea39b053eca04e18fdadf6519306cbf50e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 017/151] fix: the radii of circular arcs were compared by
 their squares, so that large arcs were rejected

---
 src/entities/entity100.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..da50bfc 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -366,11 +366,11 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     p1 = p1 - p0;
     p2 = p2 - p0;
 
-    double d1 = p1.x*p1.x + p1.y*p1.y;
-    double d2 = p2.x*p2.x + p2.y*p2.y;
+    double d1 = sqrt( p1.x*p1.x + p1.y*p1.y );
+    double d2 = sqrt( p2.x*p2.x + p2.y*p2.y );
     d1 = d2 - d1;
 
-    if( abs( d1 ) > uir )
+    if( fabs( d1 ) > uir )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
         cerr << ") has unequal radii (diff: " << d1 << ") " << uir << "\n";
-- 
2.43.0


From 3a4c63cb1d86adf608c5ab574028092775cdf36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 018/151] fix: arcs were checked against a resolution in the
 wrong units

---
 src/entities/entity100.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index da50bfc..3dbe818 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -356,6 +356,10 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     // acceptance of files
     double uir = 2.0 * parent->globalData.minResolution;
 
+    // the resolution has been converted already but the coordinates have not
+    if( parent->globalData.convert )
+        uir /= parent->globalData.cf;
+
     if( PointMatches( p0, p1, uir ) )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
-- 
2.43.0


From 5851a7072f509b535daa3b8d809a970f4bfc4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 019/151] fix: extrusions listed before their closed curve
 could not be read

---
 src/entities/entity164.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index eac03ad..358b00d 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -95,6 +95,15 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
+    IGES_CURVE* cp = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
+
+    if( NULL == cp )
+    {
+        ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
+        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
+        return false;
+    }
+
     bool dup = false;
 
     if( !(*entities)[iEnt]->addReference(this, dup) )
@@ -109,12 +118,13 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
-    PTR = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
+    PTR = cp;
 
-    if( NULL == PTR )
+    // the curve may come later in the file, in which case its own
+    // associations must be established before it can be inspected
+    if( !(*entities)[iEnt]->associate(entities) )
     {
-        ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
-        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
+        ERRMSG << "\n + [INFO] could not establish associations of the closed curve\n";
         return false;
     }
 
-- 
2.43.0


From 4b87baeb49ac5d3ec319518e4a0b81bafe162ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 020/151] fix: wrong default of the extrusion direction

---
 src/entities/entity164.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 358b00d..895b12e 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -398,7 +398,7 @@ bool IGES_ENTITY_164::readPD(std::ifstream &aFile, int &aSequenceVar)
     }
     else
     {
-        K1 = 0.0;
+        K1 = 1.0;
     }
 
     // ensure (I1,J1,K1) is a unit vector
-- 
2.43.0


From 41000634ed79abaf0035c7cdf99ab0e84a43e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 021/151] fix: crash on directory entries which refer to
 themselves and dangling references after a pointer of wrong type

---
 src/entities/iges_entity.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index beb45f4..74eb2c2 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -500,8 +500,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pStructure->addReference(this, dup) )
+            else if( !pStructure->addReference(this, dup) )
             {
                 if( pStructure->GetEntityType() != 0 )
                 {
@@ -561,8 +560,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLineFontPattern->addReference(this, dup) )
+            else if( !pLineFontPattern->addReference(this, dup) )
             {
                 if( pLineFontPattern->GetEntityType() != 0 )
                 {
@@ -599,6 +597,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference( this );
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -633,8 +632,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLevel->addReference(this, dup) )
+            else if( !pLevel->addReference(this, dup) )
             {
                 if( pLevel->GetEntityType() != 0 )
                 {
@@ -671,6 +669,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference( this );
                     pLevel = NULL;
                     ok = false;
                 }
@@ -705,8 +704,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pView->addReference(this, dup) )
+            else if( !pView->addReference(this, dup) )
             {
                 if( pView->GetEntityType() != 0 )
                 {
@@ -744,6 +742,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference( this );
                     pView = NULL;
                     ok = false;
                 }
@@ -785,8 +784,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pTransform->addReference(this, dup) )
+            else if( !pTransform->addReference(this, dup) )
             {
                 if( pTransform->GetEntityType() != 0 )
                 {
@@ -822,6 +820,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference( this );
                     pTransform = NULL;
                     ok = false;
                 }
@@ -856,8 +855,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLabelAssoc->addReference(this, dup) )
+            else if( !pLabelAssoc->addReference(this, dup) )
             {
                 if( pLabelAssoc->GetEntityType() != 0 )
                 {
@@ -894,6 +892,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference( this );
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -928,8 +927,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pColor->addReference(this, dup) )
+            else if( !pColor->addReference(this, dup) )
             {
                 if( pColor->GetEntityType() != 0 )
                 {
@@ -965,6 +963,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference( this );
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From 9e3e850ae66c0f4dea5fcac77f35e7cbb7ee9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 022/151] fix: files with associativities or other unsupported
 optional entities could not be read

---
 src/entities/iges_entity.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 74eb2c2..03db192 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1028,6 +1028,13 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     extras.push_back( (*entities)[iEnt] );
                     break;
 
+                case ENT_NULL:
+                    // an unsupported entity which will not be retained
+                    ERRMSG << "\n + [WARNING] optional entity [DE" << *bext << "] (Type ";
+                    cerr << ((IGES_ENTITY_NULL*)((*entities)[iEnt]))->GetTrueEntityType();
+                    cerr << ") is unsupported; ignoring\n";
+                    break;
+
                 default:
                     ERRMSG << "\n + [INFO] unsupported entity (" << tEnt;
                     cerr << ") in Optional Parameters section for Entity DE ";
-- 
2.43.0


From cf3f988c4976c9970e5e5d8d1cfd2e6bbd5f0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 023/151] fix: loops without parameter space curves could not
 be written, the last such curve of an edge was lost, and unlinking corrupted
 the loop

---
 src/entities/entity508.cpp | 133 +++++++++++++++++++------------------
 1 file changed, 68 insertions(+), 65 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6eacf44..66bdf39 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -100,7 +100,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
         while( sP != eP )
         {
-            (*sP)->curve->unlink(this);
+            (*sP)->curve->delReference(this);
             delete *sP;
             ++sP;
         }
@@ -117,7 +117,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     while( sE != eE )
     {
-        sE->first->unlink(this);
+        sE->first->delReference(this);
         ++sE;
     }
 
@@ -235,8 +235,14 @@ bool IGES_ENTITY_508::format( int &index )
 
     vector< LOOP_DATA* >::iterator sV = edges.begin();
     vector< LOOP_DATA* >::iterator eV = edges.end();
+
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] no edges in Loop entity\n";
+        return false;
+    }
+
     vector< LOOP_DATA* >::iterator iV = --edges.end();
-    int acc = 0;
 
     while( sV != eV )
     {
@@ -284,7 +290,7 @@ bool IGES_ENTITY_508::format( int &index )
         // K(n)
         ostr.str("");
 
-        if( sV == iV && extras.empty() )
+        if( sV == iV && (*sV)->pcurves.empty() && extras.empty() )
             ostr << (*sV)->pcurves.size() << rd;
         else
             ostr << (*sV)->pcurves.size() << pd;
@@ -294,7 +300,7 @@ bool IGES_ENTITY_508::format( int &index )
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = --((*sV)->pcurves.end());
+        vector< LOOP_PAIR* >::iterator eP = (*sV)->pcurves.end();
 
         while( sP != eP )
         {
@@ -312,7 +318,7 @@ bool IGES_ENTITY_508::format( int &index )
             // CURV(n, k)
             ostr.str("");
 
-            if( sV == iV && sP == eP && extras.empty() )
+            if( sV == iV && (sP + 1) == eP && extras.empty() )
                 ostr << (*sP)->curve->getDESequence() << rd;
             else
                 ostr << (*sP)->curve->getDESequence() << pd;
@@ -323,7 +329,6 @@ bool IGES_ENTITY_508::format( int &index )
             ++sP;
         }
 
-        ++acc;
         ++sV;
     }
 
@@ -748,59 +753,57 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 // PCurves should be released
 bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnlink )
 {
-    bool ok = false;    // flag indicates true if the entity has been matched
-
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
-    while( sE != eE )
+    while( sE != eE && sE->first != aEdge )
+        ++sE;
+
+    if( sE == eE )
+        return false;
+
+    if( aFlagAll )
     {
-        IGES_ENTITY* ep = sE->first;
+        vector< LOOP_DATA* >::iterator sF = edges.begin();
 
-        if( aEdge == ep )
+        while( sF != edges.end() )
         {
-            ok = true;
+            if( (*sF)->data != aEdge )
+            {
+                ++sF;
+                continue;
+            }
 
-            if( !aFlagUnlink )
-                ep->delReference(this);
+            vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+            vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
-            if( aFlagAll || (--sE->second == 0) )
+            while( sP != eP )
             {
-                vector< LOOP_DATA* >::reverse_iterator sF = edges.rbegin();
-                vector< LOOP_DATA* >::reverse_iterator eF = edges.rend();
+                (*sP)->curve->delReference(this);
+                delete *sP;
+                ++sP;
+            }
 
-                while( sF != eF )
-                {
-                    if( (*sF)->data == ep )
-                    {
-                        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-                        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
-
-                        while( sP != eP )
-                        {
-                            delPCurve( (*sP)->curve, false, false );
-                            delete *sP;
-                            ++sP;
-                        }
-
-                        delete *sF;
-                        --sF;
-                        edges.pop_back();
-                        continue;
-                    }
+            delete *sF;
+            sF = edges.erase( sF );
+        }
 
-                    ++sF;
-                }
+        sE->second = 0;
+    }
+    else
+    {
+        --sE->second;
+    }
 
-                sE = redges.erase( sE );
-                continue;
-            }   // deleted last reference
-        }   // found entity to delete
+    if( sE->second <= 0 )
+    {
+        redges.erase( sE );
 
-        ++sE;
-    }   // searched list of entities
+        if( !aFlagUnlink )
+            aEdge->delReference(this);
+    }
 
-    return ok;
+    return true;
 }
 
 
@@ -854,34 +857,34 @@ bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aFlagUnlink )
 {
     vector< LOOP_DATA* >::iterator sF = edges.begin();
-    vector< LOOP_DATA* >::iterator eF = edges.end();
 
-    while( sF != eF )
+    while( sF != edges.end() )
     {
-        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
+        LOOP_DATA* ld = *sF;
+        vector< LOOP_PAIR* >::iterator sP = ld->pcurves.begin();
 
-        while( sP != eP )
+        while( sP != ld->pcurves.end() )
         {
             if( (*sP)->curve == aCurve )
             {
+                delete *sP;
+                ld->pcurves.erase( sP );
+
+                if( !aFlagUnlink )
+                    aCurve->delReference(this);
+
                 if( aFlagDelEdge )
                 {
-                    while( !(*sF)->pcurves.empty() )
+                    while( !ld->pcurves.empty() )
                     {
-                        (*sF)->pcurves.back()->curve->delReference(this);
-                        (*sF)->pcurves.pop_back();
+                        ld->pcurves.back()->curve->delReference(this);
+                        delete ld->pcurves.back();
+                        ld->pcurves.pop_back();
                     }
 
-                    delEdge( (*sF)->data, false, false );
-                }
-                else
-                {
-                    if( !aFlagUnlink )
-                        (*sP)->curve->delReference(this);
-
-                    delete *sP;
-                    (*sF)->pcurves.pop_back();
+                    edges.erase( sF );
+                    delEdge( ld->data, false, false );
+                    delete ld;
                 }
 
                 return true;
@@ -935,11 +938,11 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         {
             while( sP != aEdge->pcurves.begin() )
             {
-                (*sP)->curve->delReference(this);
                 --sP;
+                (*sP)->curve->delReference(this);
             }
 
-            (*sP)->curve->delReference(this);
+            delEdge( aEdge->data, false, false );
             ERRMSG << "\n +[INFO] could not add pcurve to list\n";
             return false;
         }
-- 
2.43.0


From c816dc78ab621c638d850401192e355592991d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 024/151] fix: deleting an entity while its parents drop their
 references, and searching for a reference which does not exist, ran over
 invalid iterators

---
 src/entities/iges_entity.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 03db192..c0f903c 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -130,8 +130,12 @@ IGES_ENTITY::~IGES_ENTITY()
 
     if( !refs.empty() )
     {
-        std::list<IGES_ENTITY*>::iterator rbeg = refs.begin();
-        std::list<IGES_ENTITY*>::iterator rend = refs.end();
+        // note: a parent may invoke delReference() on this entity while unlinking
+        std::list<IGES_ENTITY*> parents;
+        parents.swap( refs );
+
+        std::list<IGES_ENTITY*>::iterator rbeg = parents.begin();
+        std::list<IGES_ENTITY*>::iterator rend = parents.end();
 
         while( rbeg != rend )
         {
@@ -140,8 +144,6 @@ IGES_ENTITY::~IGES_ENTITY()
 
             ++rbeg;
         }
-
-        refs.clear();
     }
 
     if( !extras.empty() )
@@ -451,7 +453,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
-- 
2.43.0


From 12b471012c987f0b6890cc6b7f062b7ad39c0e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 025/151] fix: the number of void shells of a solid was not
 written

---
 src/entities/entity186.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 1b64322..2899fa8 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -216,22 +216,21 @@ bool IGES_ENTITY_186::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
-    if( mvoids.empty() )
-    {
-        ostr.str("");
+    // number of void shells
+    ostr.str("");
+    ostr << mvoids.size();
 
-        if( extras.empty() )
-            ostr << "0" << rd;
-        else
-            ostr << "0" << pd;
+    if( mvoids.empty() && extras.empty() )
+        ostr << rd;
+    else
+        ostr << pd;
 
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
-    }
+    tStr = ostr.str();
+    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
+    size_t nVoids = mvoids.size();
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
-    list<pair<IGES_ENTITY_514*, bool> >::iterator iV = --(mvoids.end());
 
     while( sV != eV )
     {
@@ -247,7 +246,7 @@ bool IGES_ENTITY_186::format( int &index )
         else
             ostr << "0";
 
-        if( sV == iV && extras.empty() )
+        if( 0 == --nVoids && extras.empty() )
             ostr << rd;
         else
             ostr << pd;
-- 
2.43.0


From 266d80093812817ec2d4e6ab00ae74bbf395da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 026/151] fix: duplicate shells, faces and loops in a damaged
 file left dangling pointers

---
 src/entities/entity186.cpp | 15 +++++++++++++++
 src/entities/entity510.cpp | 15 +++++++++++++++
 src/entities/entity514.cpp |  7 +++++++
 3 files changed, 37 insertions(+)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 2899fa8..eaeb8a9 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -126,6 +126,14 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
+    if( dup )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] shell is already referenced\n";
+        mshell = NULL;
+        ivoids.clear();
+        return false;
+    }
+
     list<pair<int, bool> >::iterator sV = ivoids.begin();
     list<pair<int, bool> >::iterator eV = ivoids.end();
     IGES_ENTITY* ep;
@@ -167,6 +175,13 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] duplicate shell (DE " << sV->first << ")\n";
+            ivoids.clear();
+            return false;
+        }
+
         mvoids.push_back( pair<IGES_ENTITY_514*, bool>( (IGES_ENTITY_514*)ep, sV->second ) );
         ++sV;
     }
diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 8d293c9..f9cab80 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -116,6 +116,14 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
+    if( dup )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] surface entity is already referenced\n";
+        msurface = NULL;
+        iloops.clear();
+        return false;
+    }
+
     list<int>::iterator sL = iloops.begin();
     list<int>::iterator eL = iloops.end();
 
@@ -145,6 +153,13 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] duplicate loop (DE " << (*sL) << ")\n";
+            iloops.clear();
+            return false;
+        }
+
         mloops.push_back( (IGES_ENTITY_508*)((*entities)[iEnt]) );
         ++sL;
     }
diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 273f5c1..460ba5a 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -115,6 +115,13 @@ bool IGES_ENTITY_514::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] duplicate face (DE " << sF->first << ")\n";
+            ifaces.clear();
+            return false;
+        }
+
         mfaces.push_back( pair<IGES_ENTITY_510*, bool>( (IGES_ENTITY_510*)ep, sF->second ) );
         ++sF;
     }
-- 
2.43.0


From 9b713a5161d212d69a3e075ca8fe1349c22ed8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 027/151] fix: form of a new Shell entity was not initialized

---
 src/entities/entity514.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 460ba5a..d2b8852 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -41,6 +41,7 @@ using namespace std;
 IGES_ENTITY_514::IGES_ENTITY_514( IGES* aParent ) : IGES_ENTITY( aParent )
 {
     entityType = 514;
+    form = 1;
     visible = true;
 
     return;
-- 
2.43.0


From 16252049bb1bdf4084b6daa82ab5d43320736921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 028/151] fix: faces did not reference the surface and loops
 which were assigned to them

---
 src/entities/entity510.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index f9cab80..33c8868 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -548,6 +548,7 @@ bool IGES_ENTITY_510::GetBounds( size_t& aListSize, IGES_ENTITY_508**& aBoundsLi
     {
         aListSize = 0;
         aBoundsList = NULL;
+        return false;
     }
 
     aListSize = mloops.size();
@@ -561,10 +562,15 @@ bool IGES_ENTITY_510::AddBound( IGES_ENTITY_508* aLoop )
     if( NULL == aLoop )
         return false;
 
-    // XXX - TO BE IMPLEMENTED:
-    // we may require refcounts for the bound though in principle
-    // it should not be necessary to use a boundary more than
-    // once
+    bool dup = false;
+
+    // note: it should not be necessary to use a boundary more than once
+    if( !aLoop->addReference( this, dup ) || dup )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to loop\n";
+        return false;
+    }
+
     mloops.push_back( aLoop );
 
     if( NULL != parent && parent != aLoop->GetParentIGES() )
@@ -579,6 +585,26 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( NULL == aSurface )
         return false;
 
+    if( aSurface == msurface )
+        return true;
+
+    if( !checkSurfType( aSurface ) )
+    {
+        ERRMSG << "\n + [BUG] invalid surface entity\n";
+        return false;
+    }
+
+    bool dup = false;
+
+    if( !aSurface->addReference( this, dup ) || dup )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to surface entity\n";
+        return false;
+    }
+
+    if( msurface )
+        msurface->delReference( this );
+
     msurface = aSurface;
 
     if( NULL != parent && parent != aSurface->GetParentIGES() )
-- 
2.43.0


From ba83436cd8d3a25c22e4820ec0fa2f10d886203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 029/151] fix: the last vertex of a Vertex List was written
 with record delimiters between its coordinates

---
 src/entities/entity502.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index 62a1518..2b65d9a 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -90,6 +90,12 @@ bool IGES_ENTITY_502::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
+    if( vertices.empty() )
+    {
+        ERRMSG << "\n + [INFO] no vertices in Vertex List entity\n";
+        return false;
+    }
+
     vector<MCAD_POINT>::iterator sV = vertices.begin();
     vector<MCAD_POINT>::iterator eV = --vertices.end();
     double vals[3];
@@ -133,7 +139,7 @@ bool IGES_ENTITY_502::format( int &index )
 
     for( int i = 0; i < 3; ++i )
     {
-        if( !FormatPDREal( tStr, vals[i], idelim, uir ) )
+        if( !FormatPDREal( tStr, vals[i], (i < 2) ? pd : idelim, uir ) )
         {
             ERRMSG << "\n + [INFO] could not format Point[" << acc << "]\n";
             return false;
-- 
2.43.0


From 65ac03230f74cfd90bdf6d07629d131c11200f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 030/151] fix: Edge List accepted any entity as vertex list

---
 src/entities/entity504.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b4343d7..5cbe164 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -61,7 +61,6 @@ IGES_ENTITY_504::~IGES_ENTITY_504()
     {
         if( sE->curv )
         {
-            ERRMSG << "\nXXX + [INFO] deleting ref to curve entity " << sE->curv << "\n";
             sE->curv->delReference(this);
         }
 
@@ -137,7 +136,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp0 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp0 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         lI = sI->tvp >> 1;
 
@@ -149,7 +148,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp1 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp1 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         if( !AddEdge( cp, lp0, sI->sv, lp1, sI->tv ) )
         {
@@ -194,6 +193,12 @@ bool IGES_ENTITY_504::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] no edges in Edge List entity\n";
+        return false;
+    }
+
     list<EDGE_DATA>::iterator sV = edges.begin();
     list<EDGE_DATA>::iterator eV = --edges.end();
     int acc = 0;
-- 
2.43.0


From f3fda69fa2424fc0cafb7b3688b5a10e2b78d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 031/151] fix: the edges of Edge List and Loop entities could
 not be retrieved

---
 src/entities/entity504.cpp   | 6 +++---
 src/entities/entity508.cpp   | 2 +-
 src/include/core/entity504.h | 2 +-
 src/include/core/entity508.h | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 5cbe164..6663650 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -562,7 +562,7 @@ bool IGES_ENTITY_504::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 
 bool
-IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
+IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
 {
     if( edges.empty() )
     {
@@ -585,9 +585,9 @@ IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
         }
     }
 
-    aListSize = 0;
+    aListSize = vedges.size();
     aEdgeList = &vedges[0];
-    return false;
+    return true;
 }
 
 
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 66bdf39..965f8cb 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -900,7 +900,7 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 }
 
 
-bool IGES_ENTITY_508::GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList )
+bool IGES_ENTITY_508::GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList )
 {
     if( edges.empty() )
     {
diff --git a/src/include/core/entity504.h b/src/include/core/entity504.h
index 621de8c..be88435 100644
--- a/src/include/core/entity504.h
+++ b/src/include/core/entity504.h
@@ -143,7 +143,7 @@ public:
      * Function GetEdges
      * returns a vector containing Edge data for convenient access by users
      */
-    bool GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList );
+    bool GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList );
 
 
     /**
diff --git a/src/include/core/entity508.h b/src/include/core/entity508.h
index 0105663..f530f02 100644
--- a/src/include/core/entity508.h
+++ b/src/include/core/entity508.h
@@ -165,7 +165,7 @@ public:
      * returns a pointer to the list of data structures
      * representing this loop entity.
      */
-    bool GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList );
+    bool GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList );
 
 
     /**
-- 
2.43.0


From 5d62e46108a0343c4f76f7e73d83db61cf3aff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 032/151] fix: Loop accepted any entity as edge

---
 src/entities/entity508.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 965f8cb..3f115b3 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -923,6 +923,24 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         return false;
     }
 
+    if( aEdge->data->GetEntityType() != (aEdge->isVertex ? ENT_VERTEX : ENT_EDGE) )
+    {
+        ERRMSG << "\n +[BUG] entity (Type " << aEdge->data->GetEntityType();
+        cerr << ") is not a valid edge of a loop\n";
+        return false;
+    }
+
+    for( size_t i = 0; i < aEdge->pcurves.size(); ++i )
+    {
+        IGES_ENTITY* cp = aEdge->pcurves[i]->curve;
+
+        if( NULL == cp || ENT_VERTEX == cp->GetEntityType() || ENT_EDGE == cp->GetEntityType() )
+        {
+            ERRMSG << "\n +[BUG] invalid parameter space curve in loop\n";
+            return false;
+        }
+    }
+
     if( !addEdge( aEdge->data ) )
     {
         ERRMSG << "\n +[INFO] could not add edge to list\n";
-- 
2.43.0


From 6af302c2a64fda3c3eb4004789aab741b123ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 033/151] fix: crash on deleting the Vertex List of an Edge
 List, and stale edge data after a change

---
 src/entities/entity504.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 6663650..b219c71 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -287,6 +287,9 @@ bool IGES_ENTITY_504::unlink(IGES_ENTITY *aChildEntity)
     if(IGES_ENTITY::unlink(aChildEntity) )
         return true;
 
+    // the data presented to the user are no longer valid
+    vedges.clear();
+
     int eType = aChildEntity->GetEntityType();
     list<EDGE_DATA>::iterator sE = edges.begin();
     list<EDGE_DATA>::iterator eE = edges.end();
@@ -644,6 +647,7 @@ bool IGES_ENTITY_504::AddEdge( IGES_ENTITY* aCurve,
     nc.tv = aTV;
 
     edges.push_back( nc );
+    vedges.clear();
 
     if( NULL != parent )
     {
@@ -790,7 +794,12 @@ bool IGES_ENTITY_504::delVertexList( IGES_ENTITY_502* aVertexList, bool aFlagAll
         {
             --sV->second;
 
-            if( aFlagAll || 0 == sV->second )
+            if( aFlagAll )
+            {
+                // the Vertex List is being deleted; it must not be accessed
+                vertices.erase( sV );
+            }
+            else if( 0 == sV->second )
             {
                 sV->first->delReference(this);
                 vertices.erase( sV );
-- 
2.43.0


From 0e094e2994389a1583d05397cbbf7360e4551610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 034/151] fix: an empty string parameter which is split across
 lines was rejected

---
 src/iges/iges_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..de30e7f 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -238,6 +238,10 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
+    // a field which contains nothing but blanks is an empty field
+    while( ' ' == data[idx] && idx < (int)data.length() - 1 )
+        ++idx;
+
     if( data[idx] == pd || data[idx] == rd )
     {
         if( data[idx] == rd )
-- 
2.43.0


From d8657b3ffe54249987f1cd1d13a5fc106ebe32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 035/151] fix: a cylinder with default axis direction was
 rejected

---
 src/entities/entity154.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 197c3f1..b6a32ba 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -366,7 +366,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     if( !eor )
     {
-        if( !ParseReal( pdout, idx, K1, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, K1, eor, pd, rd, &ddef ) )
         {
             ERRMSG << "\n + [BAD FILE] no K1 value for Right Circular Cylinder\n";
             pdout.clear();
-- 
2.43.0


From e1d939bad453f4a999930a90e6e90c8df26e4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 036/151] fix: a small radius of a cylinder replaced its height

---
 src/entities/entity154.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index b6a32ba..7889346 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -280,7 +280,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
         if( R > 0.0 )
         {
             ERRMSG << "\n + [BAD FILE] Right Circular Cylinder radius < MinRes \n";
-            H = minRes;
+            R = minRes;
         }
         else
         {
-- 
2.43.0


From 95ae22b4ee104cadd877c3b3c3d3b3900fe9f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 037/151] fix: a default record delimiter was rejected if the
 global section continues on the next line

---
 src/iges/iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 4a87f52..dd8b86e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1091,6 +1091,10 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     ++idx;
     char rdelim = globalData.rdelim;
 
+    // a field which contains nothing but blanks is an empty field
+    while( ' ' == globs[idx] )
+        ++idx;
+
     // the default record delimeter cannot be used if G1 has claimed it
     if( globs[idx] == delim && delim == rdelim )
     {
-- 
2.43.0


From 14586cbcf81662256d985795e4d9e4a372361a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 038/151] fix: a default numeric parameter which is split
 across lines was rejected

---
 src/iges/iges_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index de30e7f..a98c3cd 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -383,7 +383,8 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         return false;
     }
 
-    if( tmp.empty() )
+    // a field which contains nothing but blanks is an empty field
+    if( string::npos == tmp.find_first_not_of( ' ' ) )
     {
         if( idefault )
         {
@@ -432,7 +433,8 @@ bool ParseReal( const std::string& data, int& idx, double& param, bool& eor, cha
         return false;
     }
 
-    if( tmp.empty() )
+    // a field which contains nothing but blanks is an empty field
+    if( string::npos == tmp.find_first_not_of( ' ' ) )
     {
         if( ddefault )
         {
-- 
2.43.0


From 60680e8c9a3eed1cf5d50b8e16415e533bff3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 039/151] fix: the maximum line width and maximum coordinate
 kept their value when the units changed

---
 src/iges/iges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index dd8b86e..e819a67 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1537,6 +1537,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( globalData.modelScale < 0.9999998 || globalData.modelScale > 1.000001 )
     {
         globalData.minResolution /= globalData.modelScale;
+        globalData.maxCoordinateValue /= globalData.modelScale;
         globalData.cf = 1.0 / globalData.modelScale;
         globalData.modelScale = 1.0;
         globalData.convert = true;
@@ -1545,6 +1546,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( globalData.unitsFlag != UNIT_MILLIMETER )
     {
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
+        globalData.maxLinewidth *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
+        globalData.maxCoordinateValue *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
         globalData.convert = true;
@@ -1821,6 +1824,8 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
         return true;
 
     globalData.minResolution *= cf;
+    globalData.maxLinewidth *= cf;
+    globalData.maxCoordinateValue *= cf;
 
     // scale all existing entities
     size_t nEnt = entities.size();
@@ -1856,6 +1861,7 @@ bool IGES::ChangeModelScale( double aScale )
 
     double cf = aScale / globalData.modelScale;
     globalData.minResolution *= cf;
+    globalData.maxCoordinateValue *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From c7d62cd652932c84144e6e0112dad87f13cb0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 040/151] fix: GetHeaders() returned dangling pointers after
 the model was cleared and another file was read

---
 src/iges/iges.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e819a67..aa3b478 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -391,6 +391,7 @@ bool IGES::init(void)
     globalData.cf = 1.0;
     globalData.convert = false;
 
+    vStartSection.clear();
     startSection.clear();
     nGlobSecLines = 0;
     nDESecLines = 0;
-- 
2.43.0


From 7d20b57eaf7a1b6062aa8803f9d08b877df10337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 041/151] fix: values and resolutions smaller than 1e-8 were
 written as 0 even if the resolution is finer

---
 src/iges/iges_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index a98c3cd..8dedb2f 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -524,7 +524,8 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( ne < 0.0 )
         ne = -ne;
 
-    if( ne < 1e-8 )
+    // insignificant values are written as 0; a finer resolution must not lose anything
+    if( ne < 1e-8 && ne < minRes )
     {
         ne = 1.0;
         var = 0.0;
-- 
2.43.0


From 672bcd205e2fc1a743edc096ebbd3d646d415532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 042/151] fix: Read() failed or mixed the metadata if the model
 was not fresh or just cleared

---
 src/iges/iges.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index aa3b478..af4125e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -448,6 +448,9 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
+    // discard any previous metadata; the file replaces it
+    init();
+
     // read the FLAG/START section
     IGES_RECORD rec;
 
-- 
2.43.0


From 7f82cb9e15e2eacea7cec1b936df57b8cf25df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 043/151] fix: external units were replaced by millimeters on
 reading and their name was lost on writing

---
 src/iges/iges.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index af4125e..e43bb0c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1547,7 +1547,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         globalData.convert = true;
     }
 
-    if( globalData.unitsFlag != UNIT_MILLIMETER )
+    // note: nothing is known about the size of an external unit
+    if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.maxLinewidth *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
@@ -2224,7 +2225,12 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 15: (HStr) Units Name
     // REQ DEF : UNIT_NAMES[Unit Flag]
-    if( !AddSecHStr( UNIT_NAMES[globalData.unitsFlag - UNIT_START], lstr, gstr, idx, pd, rd, pd ) )
+    if( UNIT_EXTERN == globalData.unitsFlag && !globalData.unitsName.empty() )
+        tstr = globalData.unitsName;
+    else
+        tstr = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
+
+    if( !AddSecHStr( tstr, lstr, gstr, idx, pd, rd, pd ) )
     {
         ERRMSG << "\n + [INFO] failed to add Units Name\n";
         return false;
-- 
2.43.0


From 73d35b256828a33d37df277048509a81ade0ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 044/151] fix: an invalid drafting standard was kept

---
 src/iges/iges.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e43bb0c..fd87dbe 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1494,6 +1494,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid Drafting Standard (";
             cerr << tint << ")\n";
+            tint = DRAFT_NONE;
         }
 
         globalData.draftStandard = (IGES_DRAFTING_STANDARD)tint;
-- 
2.43.0


From b68db70df9f76c706c8811e4088e4e8fe82c54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 045/151] fix: GetNURBSData() of curves and surfaces always
 dereferenced a NULL pointer

---
 src/entities/entity126.cpp | 4 ++--
 src/entities/entity128.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..1350f6e 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -965,8 +965,8 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 {
     nCoeff = 0;
     order =0 ;
-    knot = NULL;
-    coeff = NULL;
+    *knot = NULL;
+    *coeff = NULL;
 
     if( !knots )
         return false;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..419b8a6 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -889,9 +889,9 @@ bool IGES_ENTITY_128::GetNURBSData( int& nCoeff1, int& nCoeff2,
     nCoeff2 = 0;
     order1 = 0 ;
     order2 = 0 ;
-    knot1 = NULL;
-    knot2 = NULL;
-    coeff = NULL;
+    *knot1 = NULL;
+    *knot2 = NULL;
+    *coeff = NULL;
 
     if( !knots1 )
         return false;
-- 
2.43.0


From c39f6a7d9ce1a0f7c0fa0e180dfdbe865e64f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 046/151] fix: an unsupported entity kept a pointer to its
 deleted transform, color or font

---
 src/entities/entityNULL.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/entities/entityNULL.cpp b/src/entities/entityNULL.cpp
index c8a4026..f369c8b 100644
--- a/src/entities/entityNULL.cpp
+++ b/src/entities/entityNULL.cpp
@@ -182,8 +182,10 @@ bool IGES_ENTITY_NULL::associate(std::vector<IGES_ENTITY *> *entities)
 
 bool IGES_ENTITY_NULL::unlink(IGES_ENTITY *aChild)
 {
-    // there are no properly established links so in
-    // effect this routine always succeeds
+    // the only links which may have been established are
+    // the ones of the base class; in effect this routine
+    // always succeeds
+    IGES_ENTITY::unlink( aChild );
     return true;
 }
 
-- 
2.43.0


From 0b0cd40a66e5f5d17aa665df30db77698a0fbfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 047/151] fix: a partly associated model was left behind when
 Read() failed

---
 src/iges/iges.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index fd87dbe..6ea658d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -613,6 +613,9 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+            cerr << " + filename: '" << aFileName << "'\n";
+            file.close();
+            Clear();
             return false;
         }
     }
-- 
2.43.0


From 95f8dafc72aee31d0d6fc4397abead1a19ee83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 048/151] fix: formatting an infinite value or NaN was
 undefined and produced an unreadable file

---
 src/iges/iges_io.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8dedb2f..7e069f0 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -32,6 +32,7 @@
 #include <sstream>
 #include <string>
 #include <cmath>
+#include <limits>
 
 #include <error_macros.h>
 #include <core/iges_io.h>
@@ -510,6 +511,13 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
         return false;
     }
 
+    // note: no file can represent an infinite value or NaN
+    if( !( var >= -numeric_limits<double>::max() && var <= numeric_limits<double>::max() ) )
+    {
+        ERRMSG << "\n + [INFO] the value is not a finite number\n";
+        return false;
+    }
+
     double vlim = var / minRes;
 
     if( vlim < 0.0 )
@@ -518,6 +526,9 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( vlim < 10.0 )
         vlim = 10.0;
 
+    if( vlim > 1e16 )
+        vlim = 1e16;
+
     // estimate the exponent size
     double ne = var;
 
-- 
2.43.0


From 7f3e928b8ee954332bd6583193f476ffc846a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 049/151] fix: counts in a damaged NURBS entity caused huge
 allocations and use of uninitialized data

---
 src/entities/entity126.cpp | 18 +++++++++++++++---
 src/entities/entity128.cpp | 10 ++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 1350f6e..ba8f195 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -543,6 +543,15 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // note: each value takes at least 1 character
+    if( K < M || K > (int)pdout.length() )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] K value (" << K << ") is not consistent with M (";
+        cerr << M << ") and the amount of data\n";
+        pdout.clear();
+        return false;
+    }
+
     double tR;
 
     if( knots )
@@ -624,9 +633,9 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
     }
 
-    double tX;
-    double tY;
-    double tZ;
+    double tX = 0.0;
+    double tY = 0.0;
+    double tZ = 0.0;
 
     for( int i = 0, j = 0; i <= K; ++i )
     {
@@ -691,6 +700,9 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
     }
     else
     {
+        tX = 0.0;
+        tY = 0.0;
+        tZ = 0.0;
         ERRMSG << "\n + [VIOLATION] Unit Normal Vector field absent (must be present even though ignored for non-planar curve)\n";
         cerr << " + [INFO] offending DE: " << sequenceNumber << "\n";
     }
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 419b8a6..fe7a489 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -590,6 +590,16 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // note: each value takes at least 1 character
+    if( K1 < M1 || K2 < M2 || K1 > (int)pdout.length() || K2 > (int)pdout.length()
+        || (long long)(K1 + 1) * (K2 + 1) > (long long)pdout.length() )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] K values (" << K1 << ", " << K2 << ") are not consistent with M (";
+        cerr << M1 << ", " << M2 << ") and the amount of data\n";
+        pdout.clear();
+        return false;
+    }
+
     double tR;
 
     nKnots1 = 2 + K1 + M1;
-- 
2.43.0


From 8435ef70e5ec23254c7de3685645b4aa4c22d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 050/151] fix: circular references between entities crashed the
 queries and the destruction of a model

---
 src/entities/iges_entity.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index c0f903c..928b8ab 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -27,6 +27,7 @@
 // Note: This base class must never be instantiated.
 
 #include <iomanip>
+#include <set>
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -410,6 +411,29 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
         ++bExt;
     }
 
+    // Ensure we have no indirect circular references; this entity must not
+    // be the parent, or a parent of any of its parents and so on
+    std::set<IGES_ENTITY*> seen;
+    std::vector<IGES_ENTITY*> todo( 1, aParentEntity );
+
+    while( !todo.empty() )
+    {
+        IGES_ENTITY* ep = todo.back();
+        todo.pop_back();
+
+        if( ep == this )
+        {
+            ERRMSG << "\n + [BUG] requested a circular dependency\n";
+            return false;
+        }
+
+        for( bref = ep->refs.begin(), eref = ep->refs.end(); bref != eref; ++bref )
+        {
+            if( seen.insert( *bref ).second )
+                todo.push_back( *bref );
+        }
+    }
+
     refs.push_back( aParentEntity );
     return true;
 }
-- 
2.43.0


From 3f77399fc57cf1802335d09e542f3568c61d840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 051/151] fix: a composite curve fails to associate when one of
 its members does

---
 src/entities/entity102.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4bf0a51..4657ba3 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -156,7 +156,12 @@ bool IGES_ENTITY_102::associate(std::vector<IGES_ENTITY *> *entities)
         else if( !dup )
         {
             curves.push_back( cp );
-            ((*entities)[iEnt])->associate(entities);
+
+            if( !((*entities)[iEnt])->associate(entities) )
+            {
+                ERRMSG << "\n + [INFO] could not establish associations of curve entity\n";
+                return false;
+            }
         }
         else
         {
-- 
2.43.0


From e7abd72233013d79877d4af5367583ad4e3fddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 052/151] fix: end points of NURBS curves: weights, stale or
 invalid curve data

---
 src/entities/entity126.cpp | 55 +++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index ba8f195..7898b24 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -25,6 +25,7 @@
  */
 
 #include <sstream>
+#include <vector>
 #include <error_macros.h>
 #include <core/iges.h>
 #include <core/iges_io.h>
@@ -35,6 +36,43 @@
 
 using namespace std;
 
+#ifdef USE_SISL
+// create a SISL copy of the curve; returns NULL if the data does not describe a curve
+static SISLCurve* makeCurve( int nCoeffs, int order, const double* knots,
+    const double* coeffs, bool isRational )
+{
+    if( !knots || !coeffs || order < 2 || nCoeffs < order )
+        return NULL;
+
+    int nKnots = nCoeffs + order;
+
+    for( int i = 1; i < nKnots; ++i )
+    {
+        if( knots[i] < knots[i - 1] )
+            return NULL;
+    }
+
+    // knots beyond the permissible multiplicity would be discarded by SISL
+    if( !( knots[order] > knots[0] ) || !( knots[nKnots - 1] > knots[nCoeffs - 1] ) )
+        return NULL;
+
+    // note: SISL expects the vertices of a rational curve to be
+    // premultiplied by the weights
+    std::vector<double> verts( coeffs, coeffs + nCoeffs * (isRational ? 4 : 3) );
+
+    for( int i = 0; isRational && i < nCoeffs * 4; i += 4 )
+    {
+        for( int j = 0; j < 3; ++j )
+            verts[i + j] *= verts[i + 3];
+    }
+
+    std::vector<double> kv( knots, knots + nKnots );
+
+    return newCurve( nCoeffs, order, &kv[0], &verts[0], isRational ? 2 : 1, 3, 1 );
+}
+#endif
+
+
 IGES_ENTITY_126::IGES_ENTITY_126( IGES* aParent ) : IGES_CURVE( aParent )
 {
     entityType = 126;
@@ -358,6 +396,13 @@ bool IGES_ENTITY_126::rescale( double sf )
     if( NULL == coeffs )
         return true;
 
+#ifdef USE_SISL
+    if( NULL != scurve )
+        freeCurve( scurve );
+
+    scurve = NULL;
+#endif
+
     for( int i = 0, j = 0; i < nCoeffs; ++i )
     {
         if( scaleXY )
@@ -845,11 +890,11 @@ bool IGES_ENTITY_126::GetStartPoint( MCAD_POINT& pt, bool xform )
 #ifdef USE_SISL
     if( !scurve )
     {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
+        scurve = makeCurve( nCoeffs, M + 1, knots, coeffs, 0 == PROP3 );
 
         if( !scurve )
         {
-            ERRMSG << "\n + [INFO] memory allocation failed in SISL newCurve()\n";
+            ERRMSG << "\n + [INFO] could not create a SISL curve\n";
             return false;
         }
     }
@@ -903,11 +948,11 @@ bool IGES_ENTITY_126::GetEndPoint( MCAD_POINT& pt, bool xform )
 #ifdef USE_SISL
     if( !scurve )
     {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
+        scurve = makeCurve( nCoeffs, M + 1, knots, coeffs, 0 == PROP3 );
 
         if( !scurve )
         {
-            ERRMSG << "\n + [INFO] memory allocation failed in SISL newCurve()\n";
+            ERRMSG << "\n + [INFO] could not create a SISL curve\n";
             return false;
         }
     }
@@ -1015,6 +1060,8 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
 #ifdef USE_SISL
     if( NULL != scurve )
         freeCurve( scurve );
+
+    scurve = NULL;
 #endif
 
     if( !knot || !coeff )
-- 
2.43.0


From 94aac919e345b0949cb0b83fcfcb7d6c50aa0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 053/151] fix: boolean tree retains a child it failed to
 reference

---
 src/entities/entity180.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 4fb0486..3e7ed67 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -155,8 +155,6 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
-                (*sn)->pEnt = (*entities)[iEnt];
-
                 if( !(*entities)[iEnt]->addReference(this, dup) )
                 {
                     ERRMSG << "\n + [INFO] unable to add reference to child entity\n";
@@ -169,6 +167,7 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
+                (*sn)->pEnt = (*entities)[iEnt];
             }
             else
             {
-- 
2.43.0


From 60f82f9fdf89886b351a42c8ff53b362253e40c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 054/151] fix: values such as NAN and INF in a file are not
 numbers

---
 src/iges/iges_io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 7e069f0..8ec3efd 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -459,7 +459,8 @@ bool ParseReal( const std::string& data, int& idx, double& param, bool& eor, cha
     errno = 0;
     double d = strtod( cp, &rp );
 
-    if( errno || cp == rp )
+    // note: strtod() also accepts "nan" and "inf"
+    if( errno || cp == rp || !( d >= -numeric_limits<double>::max() && d <= numeric_limits<double>::max() ) )
     {
         ERRMSG << "\n + [BAD DATA]: invalid floating point number\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
@@ -505,7 +506,7 @@ bool FormatDEInt( std::string& out, const int num )
 // format a real number as a float or double and tack on a delimeter (may be PD or RD)
 bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
 {
-    if( 0 >= minRes )
+    if( !( minRes > 0.0 ) )
     {
         ERRMSG << "\n + [BUG] minRes <= 0\n";
         return false;
-- 
2.43.0


From e4897d350e6d88c8f7cddb84e91137710fd2c764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 055/151] fix: time taken by the check for circular references

---
 src/entities/iges_entity.cpp   | 7 +++++--
 src/include/core/iges_entity.h | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 928b8ab..b2f164a 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -48,6 +48,7 @@ IGES_ENTITY::IGES_ENTITY(IGES* aParent)
 
     // flag to indicate if associate() has been invoked
     massoc = false;
+    mparent = false;
 
     // Entity Type, default = NULL Entity
     entityType = ENT_NULL;
@@ -412,11 +413,12 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
     }
 
     // Ensure we have no indirect circular references; this entity must not
-    // be the parent, or a parent of any of its parents and so on
+    // be the parent, or a parent of any of its parents and so on. Note that
+    // an entity which has no children cannot close a circle.
     std::set<IGES_ENTITY*> seen;
     std::vector<IGES_ENTITY*> todo( 1, aParentEntity );
 
-    while( !todo.empty() )
+    while( !todo.empty() && ( mparent || this == aParentEntity ) )
     {
         IGES_ENTITY* ep = todo.back();
         todo.pop_back();
@@ -434,6 +436,7 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
         }
     }
 
+    aParentEntity->mparent = true;
     refs.push_back( aParentEntity );
     return true;
 }
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index 4c3c60b..da165c3 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -92,6 +92,7 @@ protected:
     friend class IGES;
     int sequenceNumber;     //< first sequence number of this entity's Directory Entry
     bool massoc;            //< set true after associate() is invoked
+    bool mparent;           //< set true when another entity accepts this as its parent
 
 
     /**
-- 
2.43.0


From 801715491af54ca8b22f54b99e84de4bbc45cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 056/151] fix: time taken to determine the depth of nested
 subfigures

---
 src/entities/entity308.cpp | 54 +++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..edfa12c 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -24,6 +24,7 @@
  *
  */
 
+#include <map>
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -610,45 +611,62 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
 }
 
 
-int IGES_ENTITY_308::getDepthLevel( void )
+// determine the depth level; a definition may be reached through a great
+// number of paths so the levels which were already determined are retained
+static int depthLevel( IGES_ENTITY_308* aDef, std::map<IGES_ENTITY_308*, int>& known )
 {
-    if( DE.empty() )
-        return 0;
+    std::map<IGES_ENTITY_308*, int>::iterator ik = known.find( aDef );
+
+    if( ik != known.end() )
+        return ik->second;
 
     int nd = 0; // minimum depth level
-    int tm = 0;
 
-    std::list<IGES_ENTITY*>::iterator bref = DE.begin();
-    std::list<IGES_ENTITY*>::iterator eref = DE.end();
+    std::list<IGES_ENTITY*>::iterator bref = aDef->DE.begin();
+    std::list<IGES_ENTITY*>::iterator eref = aDef->DE.end();
 
     while( bref != eref )
     {
+        IGES_ENTITY_308* ep308 = NULL;
+
         if( (*bref)->GetEntityType() == ENT_SUBFIGURE_DEFINITION )
         {
-            IGES_ENTITY_308* ep308;
             ep308 = (IGES_ENTITY_308*)(*bref);
-            tm = ep308->getDepthLevel();
-
-            if( tm >= nd )
-                nd = tm + 1;
         }
         else if( (*bref)->GetEntityType() == ENT_SINGULAR_SUBFIGURE_INSTANCE )
         {
-            IGES_ENTITY_408* ep408;
-            ep408 = (IGES_ENTITY_408*)(*bref);
-            tm = ep408->getDepthLevel();
-
-            if( tm >= nd )
-                nd = tm + 1;
+            // an instance has the depth level of its definition
+            if( !((IGES_ENTITY_408*)(*bref))->GetDE( ep308 ) || !ep308 )
+            {
+                if( nd < 1 )
+                    nd = 1;
+            }
         }
         else if( (*bref)->GetEntityType() == ENT_NETWORK_SUBFIGURE_DEFINITION )
         {
             ERRMSG << "\n + [INFO] TO BE IMPLEMENTED: respond to ENT_NETWORK_SUBFIGURE_DEFINITION\n";
-            return -100;
+            nd = -100;
+            break;
+        }
+
+        if( ep308 )
+        {
+            int tm = depthLevel( ep308, known );
+
+            if( tm >= nd )
+                nd = tm + 1;
         }
 
         ++bref;
     }
 
+    known[aDef] = nd;
     return nd;
 }
+
+
+int IGES_ENTITY_308::getDepthLevel( void )
+{
+    std::map<IGES_ENTITY_308*, int> known;
+    return depthLevel( this, known );
+}
-- 
2.43.0


From 580053a414a3e4d900dd49fa9174617ab8d6f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 057/151] fix: GetColor and GetColorEntity report what was set
 and not the directory entry which was read

---
 src/entities/iges_entity.cpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index b2f164a..daa2e9b 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2361,7 +2361,7 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( pColor || colorNum < COLOR_NONE || colorNum >= COLOR_END )
     {
         aColor = COLOR_NONE;
         return false;
@@ -2374,26 +2374,8 @@ bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 
 bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
-    *aColor = NULL;
-
-    if( 0 == (colorNum & 0x80000000) )
-    {
-        if( 0 == colorNum )
-            return true;
-        else
-            return false;
-
-    }
-
-    if( pColor == NULL )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
     *aColor = pColor;
-    return true;
+    return NULL != pColor;
 }
 
 
-- 
2.43.0


From 751a28d4fe9563bbdfa1c7019fecbdef8642fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 058/151] fix: GetLabelAssoc returns the entity which was set

---
 src/entities/iges_entity.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index daa2e9b..c2d9c33 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2294,20 +2294,8 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 
 bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
-    *aLabelAssoc = NULL;
-
-    if( 0 == (labelAssoc & 0x80000000) )
-        return true;
-
-    if( !pLabelAssoc )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
     *aLabelAssoc = pLabelAssoc;
-    return true;
+    return NULL != pLabelAssoc;
 }
 
 
-- 
2.43.0


From 3b9aa95678c7339465aa83c2d10a84162e0fb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 059/151] fix: DelOptionalEntity accepts properties and severs
 both directions of the link

---
 src/entities/iges_entity.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index c2d9c33..d65a5e6 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2923,16 +2923,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
 
     int eType = aEntity->GetEntityType();
 
-    if( eType != 402 && eType != 212 && eType != 312 )
+    if( eType != 402 && eType != 406 && eType != 212 && eType != 312 )
     {
         ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
+        cerr << "); only types 402, 406, 212, and 312 are valid.\n";
         return false;
     }
 
@@ -2944,13 +2938,18 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         if( *sL == aEntity )
         {
             extras.erase( sL );
+
+            // note: Type 402 holds no reference to the parent (see AddOptionalEntity)
+            if( eType != 402 )
+                aEntity->delReference( this );
+
             return true;
         }
 
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [INFO] not an optional entity of this entity\n";
     return false;
 }
 
-- 
2.43.0


From 20816f522d5256cb3d39ca76c2b401743c9599d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 060/151] fix: SetView rejects every entity

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index d65a5e6..3fb1dcf 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2191,7 +2191,7 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
 
-    if( tEnt != ENT_VIEW || tEnt != ENT_ASSOCIATIVITY_INSTANCE
+    if( (tEnt != ENT_VIEW && tEnt != ENT_ASSOCIATIVITY_INSTANCE)
         || (tEnt == ENT_ASSOCIATIVITY_INSTANCE && tFrm != 3 && tFrm != 4 && tFrm != 19) )
     {
         ERRMSG << "\n + [BUG] invalid entity (" << tEnt << "-" << tFrm;
-- 
2.43.0


From ac8aaa1410585bb99198a28a15ff0a992975b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 061/151] fix: 144 DelPTI severs both directions of the link,
 GetPTIList never returns a stale list

---
 src/entities/entity144.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..cedb8a8 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -778,18 +778,8 @@ bool IGES_ENTITY_144::GetPTIList( size_t& aListSize, IGES_ENTITY_142**& aPTIList
         return false;
     }
 
-    if( PTI.size() != vPTI.size() )
-    {
-        vPTI.clear();
-        std::list<IGES_ENTITY_142*>::iterator sL = PTI.begin();
-        std::list<IGES_ENTITY_142*>::iterator eL = PTI.end();
-
-        while( sL != eL )
-        {
-            vPTI.push_back( *sL );
-            ++sL;
-        }
-    }
+    // note: the number of items does not reveal if any of them was replaced
+    vPTI.assign( PTI.begin(), PTI.end() );
 
     aListSize = vPTI.size();
     aPTIList = &vPTI[0];
@@ -874,6 +864,7 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference( this );
             PTI.erase( bref );
             N2 = (int)PTI.size();
             return true;
-- 
2.43.0


From ab4284ca46cb8a8994499a2b86bb90e661314860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 062/151] fix: 308 DelDE severs both directions of the link,
 GetDEList never returns a stale list

---
 src/entities/entity308.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index edfa12c..0e993d3 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -482,18 +482,8 @@ bool IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    if( DE.size() != m_DE.size() )
-    {
-        m_DE.clear();
-        std::list< IGES_ENTITY* >::iterator sL = DE.begin();
-        std::list< IGES_ENTITY* >::iterator eL = DE.end();
-
-        while( sL != eL )
-        {
-            m_DE.push_back( *sL );
-            ++sL;
-        }
-    }
+    // note: the number of items does not reveal if any of them was replaced
+    m_DE.assign( DE.begin(), DE.end() );
 
     aDESize = m_DE.size();
     aDEList = &m_DE[0];
@@ -599,6 +589,7 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference( this );
             DE.erase( bref );
             N = (int)DE.size();
             return true;
-- 
2.43.0


From 4da1208ae970ac77d6d2eabadcbb356fe8dbb498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 063/151] fix: 144 without an outer boundary can be saved but
 not read

---
 src/entities/entity144.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index cedb8a8..f693720 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -217,7 +217,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         }
 
     }
-    else
+    else if( 0 != N1 )
     {
         ERRMSG << "\n + [VIOLATION] unspecified boundary entity\n";
         iPTI.clear();
@@ -581,7 +581,8 @@ bool IGES_ENTITY_144::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( iPTO < 0 || (iPTO & 1) == 0 || iPTO > 9999997 )
+    // note: no outline is specified if the boundary is that of the untrimmed surface
+    if( iPTO < 0 || (0 == (iPTO & 1) && 0 != iPTO) || iPTO > 9999997 )
     {
         ERRMSG << "\n + [INFO] invalid outline DE pointer (" << iPTO << ")\n";
         pdout.clear();
-- 
2.43.0


From a39a3f10105abbe9c9b213e3eb6ebaaaa43e2e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 064/151] fix: 144 claims an outer boundary which was deleted

---
 src/entities/entity144.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index f693720..26c7503 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -407,6 +407,7 @@ bool IGES_ENTITY_144::unlink(IGES_ENTITY *aChild)
     if( aChild == PTO )
     {
         PTO = NULL;
+        N1 = 0;
         return true;
     }
 
-- 
2.43.0


From e3392f37a842be7df43ad5c729869ba6619acd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 065/151] fix: an entity which is added to another IGES object
 was owned and destroyed by both

---
 src/iges/iges.cpp       | 54 ++++++++++++++++++++++-------------------
 src/include/core/iges.h |  3 +++
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 6ea658d..4419247 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -971,6 +971,10 @@ bool IGES::AddEntity( IGES_ENTITY* aEntity )
         ++sEnt;
     }
 
+    // an entity must not be owned by more than one IGES object
+    if( aEntity->parent && aEntity->parent != this )
+        aEntity->parent->UnlinkEntity( aEntity );
+
     entities.push_back( aEntity );
     aEntity->parent = this;
 
@@ -1023,6 +1027,10 @@ bool IGES::UnlinkEntity( IGES_ENTITY* aEntity )
         if( *sEnt == aEntity )
         {
             entities.erase( sEnt );
+
+            if( aEntity->parent == this )
+                aEntity->parent = NULL;
+
             return true;
         }
 
@@ -2411,6 +2419,19 @@ bool IGES::writeGlobals( std::ofstream& file )
 }
 
 // export all entities to the given IGES* (to be used for creating Assemblies)
+// take back all entities after a failed transfer
+void IGES::reclaimEntities( IGES* newParent, const std::vector<IGES_ENTITY*>& aList )
+{
+    for( size_t i = 0; i < aList.size(); ++i )
+    {
+        newParent->UnlinkEntity( aList[i] );
+        aList[i]->parent = this;
+    }
+
+    entities = aList;
+}
+
+
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
     *packagedEntity = NULL;
@@ -2535,6 +2556,8 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
+    // note: entities leave this object's list while they are transferred
+    std::vector<IGES_ENTITY*> all( entities );
     bool isAssy = false;
     list<IGES_ENTITY*>::iterator sEnt;
     list<IGES_ENTITY*>::iterator eEnt;
@@ -2552,12 +2575,8 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                ep = p308;
-                sEnt = sslist.begin();
-
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
-
                 newParent->DelEntity( ep );
+                reclaimEntities( newParent, all );
                 return false;
             }
 
@@ -2574,11 +2593,8 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                sEnt = tplist.begin();
-
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
-
                 newParent->DelEntity( ep );
+                reclaimEntities( newParent, all );
                 return false;
             }
 
@@ -2595,11 +2611,8 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer MSBO entity to Subfigure Definition\n";
-                sEnt = brlist.begin();
-
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
-
                 newParent->DelEntity( ep );
+                reclaimEntities( newParent, all );
                 return false;
             }
 
@@ -2609,20 +2622,11 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
     for( size_t i = 0; i < nEnt; ++ i )
     {
-        if( !newParent->AddEntity( entities[i] ) )
+        if( !newParent->AddEntity( all[i] ) )
         {
             ERRMSG << "\n + [INFO] could not transfer entity to parent\n";
-
-            ep = (IGES_ENTITY*)p308;
-            newParent->UnlinkEntity( ep );
-
-            for( size_t j = 0; j < i; ++j )
-            {
-                newParent->UnlinkEntity( entities[j] );
-                entities[j]->parent = this;
-            }
-
-            delete ep;
+            newParent->DelEntity( ep );
+            reclaimEntities( newParent, all );
             return false;
         }
     }
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index b9f6a12..52cbe68 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -113,6 +113,9 @@ private:
     // write out the GLOBAL SECTION
     bool writeGlobals( std::ofstream& file );
 
+    // take back entities after a failed Export()
+    void reclaimEntities( IGES* newParent, const std::vector<IGES_ENTITY*>& aList );
+
 public:
     IGES();
     ~IGES();
-- 
2.43.0


From 2b1043e3969bb8352175bebb3a3876a582f8ef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 066/151] fix: GetUnitName reports the name of another unit

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 4419247..164a336 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2699,5 +2699,5 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From 4c45c9620bc1a50a6ff33d6176d32f4da5bf73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 067/151] fix: ChangeModelScale accepts NaN and destroys the
 model

---
 src/iges/iges.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 164a336..dea2be5 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1864,7 +1864,8 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
 
 bool IGES::ChangeModelScale( double aScale )
 {
-    if( aScale < 6.0e-8 )
+    // note: NaN must be rejected as well
+    if( !( aScale >= 6.0e-8 ) )
     {
         ERRMSG << "\n + [INFO] rejecting scale (< 6.0e-8)\n";
         return false;
-- 
2.43.0


From e0c9b687ce0d517fd5478a6da1b824079fe689d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 068/151] fix: a model which is converted to large units is
 saved with a resolution of 0.001

---
 src/iges/iges.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index dea2be5..e477cea 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2050,7 +2050,9 @@ bool IGES::writeGlobals( std::ofstream& file )
     char pd = globalData.pdelim;
     char rd = globalData.rdelim;
 
-    if( globalData.minResolution < 1e-12 )
+    // note: a small resolution is the result of converting a model to
+    // large units; replacing it would destroy the geometry
+    if( !( globalData.minResolution >= 1e-100 ) )
         globalData.minResolution = 0.001;
 
     // Item 1: (HStr) Parameter Delimeter
-- 
2.43.0


From 49d4db4ed7561ef882600ce8593b2326f1248b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 069/151] fix: the model scale is rounded when it is saved

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e477cea..88564fd 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2214,7 +2214,7 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 13: (Real) Model Space Scale
     // REQ DEF = 1.0
-    if( !FormatPDREal( tstr, globalData.modelScale, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.modelScale, pd, globalData.modelScale * 1e-16 ) )
     {
         ERRMSG << "\n + [INFO] failed to format Model Scale\n";
         return false;
-- 
2.43.0


From 0c02bf62f70997a35d27c20c5ef87f8acc03dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 070/151] fix: coefficients of conics when units or the model
 scale change

---
 src/entities/entity104.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..da22ac9 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,11 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // note: A x^2 + B xy + C y^2 + D x + E y + F = 0 must hold for the
+    // scaled points
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From 84dba312b0d8392d71b65639d58dab9bdc5a0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 071/151] fix: small coefficients of conics are lost on saving

---
 src/entities/entity104.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index da22ac9..af04e36 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -177,7 +177,13 @@ bool IGES_ENTITY_104::format( int &index )
         // note: we require a lot of digits since the points
         // of a conic are extremely sensitive to the general
         // coefficients
-        if( !FormatPDREal( tStr, *dp[i], pd, 1e-10 ) )
+        double res = 1e-10;
+
+        // the coefficients have no common unit; each is significant
+        if( i < 6 && *dp[i] != 0.0 )
+            res = fabs( *dp[i] ) * 1e-16;
+
+        if( !FormatPDREal( tStr, *dp[i], pd, res ) )
         {
             ERRMSG << "\n + [INFO] could not format datum " << i << "\n";
             return false;
-- 
2.43.0


From d5ee0ef5af6e369fb2af51abb03af14253c4a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 072/151] fix: rotations, directions and scale factors are
 rounded to the resolution of lengths

---
 src/entities/entity124.cpp | 3 ++-
 src/entities/entity154.cpp | 7 +++++--
 src/entities/entity164.cpp | 7 +++++--
 src/entities/entity408.cpp | 7 +++++--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 0873a12..d47f19b 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -159,7 +159,8 @@ bool IGES_ENTITY_124::format( int &index )
     {
         for( int j = 0; j < 3; ++j )
         {
-            if( !FormatPDREal( tstr, T.R.v[i][j], pd, uir ) )
+            // note: rotations have no unit
+            if( !FormatPDREal( tstr, T.R.v[i][j], pd, 1e-12 ) )
             {
                 ERRMSG << "\n + [INFO] could not format Transform::R[";
                 cerr << i << "][" << j << "]\n";
diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 7889346..7898ca3 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -113,9 +113,12 @@ bool IGES_ENTITY_154::format( int &index )
 
     for( int i = 0; i < 8; ++i )
     {
+        // note: the direction has no unit
+        double res = ( i >= 5 ) ? 1e-12 : uir;
+
         if( i == 7 && extras.empty() )
         {
-            if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], rd, res ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
@@ -124,7 +127,7 @@ bool IGES_ENTITY_154::format( int &index )
         }
         else
         {
-            if( !FormatPDREal( tstr, *pt[i], pd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], pd, res ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 895b12e..161b7f6 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -183,9 +183,12 @@ bool IGES_ENTITY_164::format( int &index )
 
     for( int i = 0; i < 4; ++i )
     {
+        // note: the direction has no unit
+        double res = ( i >= 1 ) ? 1e-12 : uir;
+
         if( i == 3 && extras.empty() )
         {
-            if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], rd, res ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
@@ -194,7 +197,7 @@ bool IGES_ENTITY_164::format( int &index )
         }
         else
         {
-            if( !FormatPDREal( tstr, *pt[i], pd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], pd, res ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 554d174..88df1a7 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -163,9 +163,12 @@ bool IGES_ENTITY_408::format( int &index )
 
     for( int i = 0; i < 4; ++i )
     {
+        // note: the scale factor has no unit
+        double res = ( i >= 3 ) ? 1e-12 : uir;
+
         if( i == 3 && extras.empty() )
         {
-            if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], rd, res ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
@@ -174,7 +177,7 @@ bool IGES_ENTITY_408::format( int &index )
         }
         else
         {
-            if( !FormatPDREal( tstr, *pt[i], pd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], pd, res ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
-- 
2.43.0


From 8ed4b309bde06bf518d4694e4dbbb96f41361f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 073/151] fix: curves in the parameter space of a surface are
 scaled when units change

---
 src/entities/entity100.cpp    |  4 ++++
 src/entities/entity104.cpp    |  4 ++++
 src/entities/entity110.cpp    |  4 ++++
 src/entities/entity126.cpp    | 41 +----------------------------------
 src/entities/iges_curve.cpp   | 24 ++++++++++++++++++++
 src/include/core/iges_curve.h |  4 ++++
 6 files changed, 41 insertions(+), 40 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 3dbe818..8f7f013 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -406,6 +406,10 @@ bool IGES_ENTITY_100::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_100::rescale( double sf )
 {
+    // note: a curve in the parameter space of a surface has no unit
+    if( isParametric() )
+        return true;
+
     zOffset *= sf;
     xCenter *= sf;
     yCenter *= sf;
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index af04e36..11fb16b 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -362,6 +362,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
+    // note: a curve in the parameter space of a surface has no unit
+    if( isParametric() )
+        return true;
+
     // note: A x^2 + B xy + C y^2 + D x + E y + F = 0 must hold for the
     // scaled points
     D *= sf;
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 10764c5..4e5f350 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -145,6 +145,10 @@ bool IGES_ENTITY_110::format( int &index )
 
 bool IGES_ENTITY_110::rescale( double sf )
 {
+    // note: a curve in the parameter space of a surface has no unit
+    if( isParametric() )
+        return true;
+
     X1 *= sf;
     Y1 *= sf;
     Z1 *= sf;
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 7898b24..fdeaf26 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -352,46 +352,7 @@ bool IGES_ENTITY_126::rescale( double sf )
     // makes sense to scale the control points. If a Curve on Surface is scaled,
     // only the Z values should be scaled
 
-    list<IGES_ENTITY*> eps;
-    eps.push_back( this );
-
-    IGES_ENTITY* ep = getFirstParentRef();
-    IGES_ENTITY* cps = NULL;
-
-    while( ep )
-    {
-        if( ep->GetEntityType() == ENT_CURVE_ON_PARAMETRIC_SURFACE )
-        {
-            cps = ep;
-            break;
-        }
-
-        eps.push_back( ep );
-        ep = ep->getFirstParentRef();
-    }
-
-    bool scaleXY = true;
-
-    if( cps )
-    {
-        // block the operation if this entity or a parent is equal to BPTR
-        if( ((IGES_ENTITY_142*)cps)->GetBPTR( &ep ) )
-        {
-            list<IGES_ENTITY*>::iterator sP = eps.begin();
-            list<IGES_ENTITY*>::iterator eP = eps.end();
-
-            while( sP != eP )
-            {
-                if( *sP == ep )
-                {
-                    scaleXY = false;
-                    break;
-                }
-
-                ++sP;
-            }
-        }
-    }
+    bool scaleXY = !isParametric();
 
     if( NULL == coeffs )
         return true;
diff --git a/src/entities/iges_curve.cpp b/src/entities/iges_curve.cpp
index 77450a0..0b6512d 100644
--- a/src/entities/iges_curve.cpp
+++ b/src/entities/iges_curve.cpp
@@ -44,3 +44,27 @@ IGES_CURVE::~IGES_CURVE()
 {
     return;
 }
+
+
+bool IGES_CURVE::isParametric( void )
+{
+    std::list<IGES_ENTITY*>::iterator sP = refs.begin();
+    std::list<IGES_ENTITY*>::iterator eP = refs.end();
+
+    while( sP != eP )
+    {
+        IGES_ENTITY* bp = NULL;
+
+        if( (*sP)->GetEntityType() == ENT_CURVE_ON_PARAMETRIC_SURFACE
+            && ((IGES_ENTITY_142*)(*sP))->GetBPTR( &bp ) && bp == this )
+            return true;
+
+        if( (*sP)->GetEntityType() == ENT_COMPOSITE_CURVE
+            && ((IGES_ENTITY_102*)(*sP))->isParametric() )
+            return true;
+
+        ++sP;
+    }
+
+    return false;
+}
diff --git a/src/include/core/iges_curve.h b/src/include/core/iges_curve.h
index f4dc827..87bec81 100644
--- a/src/include/core/iges_curve.h
+++ b/src/include/core/iges_curve.h
@@ -61,6 +61,10 @@ class IGES_CURVE : public IGES_ENTITY
 {
 protected:
 
+    // returns true if this curve lies in the parameter space of a surface;
+    // such a curve has no physical dimensions
+    bool isParametric( void );
+
     // members inherited from IGES_ENTITY
     virtual bool format( int &index ) = 0;
     virtual bool rescale( double sf ) = 0;
-- 
2.43.0


From d10aa02fa69a547b4f1131eb802069b7bc69290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 074/151] fix: conics and NURBS data lose small values when the
 resolution is finer than usual

---
 src/entities/entity104.cpp | 9 +++++++--
 src/entities/entity126.cpp | 3 +++
 src/entities/entity128.cpp | 3 +++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 11fb16b..618ad58 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -167,6 +167,11 @@ bool IGES_ENTITY_104::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
+    double uir = parent->globalData.minResolution;
+
+    if( uir > 1e-10 )
+        uir = 1e-10;
+
     if( form == 0 )
         form = getForm();
 
@@ -177,7 +182,7 @@ bool IGES_ENTITY_104::format( int &index )
         // note: we require a lot of digits since the points
         // of a conic are extremely sensitive to the general
         // coefficients
-        double res = 1e-10;
+        double res = uir;
 
         // the coefficients have no common unit; each is significant
         if( i < 6 && *dp[i] != 0.0 )
@@ -203,7 +208,7 @@ bool IGES_ENTITY_104::format( int &index )
     else
         idelim = pd;
 
-    if( !FormatPDREal( tStr, *dp[10], idelim, 1e-10 ) )
+    if( !FormatPDREal( tStr, *dp[10], idelim, uir ) )
     {
         ERRMSG << "\n + [INFO] could not format datum 10\n";
         pdout.clear();
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index fdeaf26..d6ce44f 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -157,6 +157,9 @@ bool IGES_ENTITY_126::format( int &index )
     // any REAL parameters are NURBS data, possibly (U,V) curve on surface; maintain high precision
     double uir = 1e-15;
 
+    if( parent->globalData.minResolution < uir )
+        uir = parent->globalData.minResolution;
+
     if( K < 1 )
     {
         ERRMSG << "\n + [INFO] invalid value for K\n";
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index fe7a489..ed405f9 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -119,6 +119,9 @@ bool IGES_ENTITY_128::format( int &index )
     char rd = parent->globalData.rdelim;
     double uir = 1e-8;  // any REAL parameters are NURBS data, maintain high precision
 
+    if( parent->globalData.minResolution < uir )
+        uir = parent->globalData.minResolution;
+
     if( K1 < 1 )
     {
         ERRMSG << "\n + [INFO] invalid value for K1\n";
-- 
2.43.0


From 4c0d59073031c0f9c3060097d67a3f88cd7b17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 075/151] fix: data in a file is compared with the resolution
 in another unit

---
 src/entities/entity100.cpp | 4 ----
 src/iges/iges.cpp          | 5 +++--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 8f7f013..defc8fc 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -356,10 +356,6 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     // acceptance of files
     double uir = 2.0 * parent->globalData.minResolution;
 
-    // the resolution has been converted already but the coordinates have not
-    if( parent->globalData.convert )
-        uir /= parent->globalData.cf;
-
     if( PointMatches( p0, p1, uir ) )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 88564fd..e419096 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -620,8 +620,11 @@ bool IGES::Read( const char* aFileName )
         }
     }
 
+    // note: up to this point the resolution has the unit of the data in the file
     if( globalData.convert )
     {
+        globalData.minResolution *= globalData.cf;
+
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
             entities[iEnt]->rescale( globalData.cf );
     }
@@ -1552,7 +1555,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // apply a scale if the model scale is not 1.0
     if( globalData.modelScale < 0.9999998 || globalData.modelScale > 1.000001 )
     {
-        globalData.minResolution /= globalData.modelScale;
         globalData.maxCoordinateValue /= globalData.modelScale;
         globalData.cf = 1.0 / globalData.modelScale;
         globalData.modelScale = 1.0;
@@ -1562,7 +1564,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // note: nothing is known about the size of an external unit
     if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
-        globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.maxLinewidth *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.maxCoordinateValue *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
-- 
2.43.0


From e39a1abc020a8657de74056a34370481f2060dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 076/151] fix: Export without a handle or to the same object

---
 src/iges/iges.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e419096..39eb1cd 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2438,8 +2438,6 @@ void IGES::reclaimEntities( IGES* newParent, const std::vector<IGES_ENTITY*>& aL
 
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
-    *packagedEntity = NULL;
-
     if( NULL == newParent )
     {
         ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
@@ -2452,6 +2450,14 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
+    *packagedEntity = NULL;
+
+    if( this == newParent )
+    {
+        ERRMSG << "\n + [BUG] Export() of an IGES object to itself\n";
+        return false;
+    }
+
     if( entities.empty() )
         return true;
 
-- 
2.43.0


From 7070e5a9c16b2ad2460b8a3c751bad71cf51cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 077/151] fix: Export merges geometry in different units if the
 conversion is impossible

---
 src/iges/iges.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 39eb1cd..0ba65ab 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2469,11 +2469,24 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     double pms = newParent->globalData.modelScale;
     IGES_UNIT pUF = newParent->globalData.unitsFlag;
 
-    if( globalData.modelScale != pms )
-        ChangeModelScale( pms );
+    if( globalData.unitsFlag != pUF
+        && ( globalData.unitsFlag == UNIT_EXTERN || pUF == UNIT_EXTERN ) )
+    {
+        ERRMSG << "\n + [INFO] cannot convert from or to UNIT_EXTERN\n";
+        return false;
+    }
+
+    if( globalData.modelScale != pms && !ChangeModelScale( pms ) )
+    {
+        ERRMSG << "\n + [INFO] could not apply the model scale of the parent\n";
+        return false;
+    }
 
-    if( globalData.unitsFlag != pUF )
-        ConvertUnits( pUF );
+    if( globalData.unitsFlag != pUF && !ConvertUnits( pUF ) )
+    {
+        ERRMSG << "\n + [INFO] could not apply the units of the parent\n";
+        return false;
+    }
 
     size_t nEnt = entities.size();
 
-- 
2.43.0


From 3e736f186be3bf7d5599ba71c9fc428b73668e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 078/151] fix: line weights are lost in Export unless one
 number of gradations divides the other

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 0ba65ab..97c9741 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2493,7 +2493,7 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
-    double lws = maxLWG / globalData.maxLinewidthGrad;
+    double lws = (double)maxLWG / globalData.maxLinewidthGrad;
     int llw;
 
     for( size_t i = 0; i < nEnt; ++ i )
-- 
2.43.0


From 971d4d2739dffac31fb9907372599e120ae38fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 079/151] fix: generated names of parts and assemblies are not
 unique

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 97c9741..05c71e1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2693,7 +2693,7 @@ void IGES::GetNewPartName( std::string& name )
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxPartNum++;
 
     name = ostr.str();
 
@@ -2713,7 +2713,7 @@ void IGES::GetNewAssemblyName( std::string& name )
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxPartNum++;
 
     name = ostr.str();
 
-- 
2.43.0


From 5060d3faa20d472ce505f76f16766f233c5d354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 080/151] fix: Export destroys geometry which is finer than the
 resolution of the parent

---
 src/iges/iges.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 05c71e1..d6ec409 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2656,6 +2656,11 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
     *packagedEntity = p308;
 
+    // the resolution must suit all of the merged geometry
+    if( globalData.minResolution > 0.0
+        && globalData.minResolution < newParent->globalData.minResolution )
+        newParent->globalData.minResolution = globalData.minResolution;
+
     if( globalData.fileName.empty() )
     {
         if( isAssy )
-- 
2.43.0


From d077a08c3f19fe0f1ed00d89eedfd3797441bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 081/151] fix: arcs with a fine resolution are rejected because
 of rounding

---
 src/entities/entity100.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index defc8fc..4cd3b8f 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -368,6 +368,13 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     double d1 = sqrt( p1.x*p1.x + p1.y*p1.y );
     double d2 = sqrt( p2.x*p2.x + p2.y*p2.y );
+
+    // no resolution is finer than the precision of the coordinates
+    double prec = 1e-14 * ( fabs( xCenter ) + fabs( yCenter ) + d1 + d2 );
+
+    if( uir < prec )
+        uir = prec;
+
     d1 = d2 - d1;
 
     if( fabs( d1 ) > uir )
-- 
2.43.0


From 138c9cdfba600cda8a5878388e039545286babd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 082/151] fix: files are unreadable if the global C++ locale
 groups digits or uses a decimal comma

---
 src/iges/iges.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d6ec409..5e0f63d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -38,6 +38,7 @@
 
 #include <libigesconf.h>
 #include <locale.h>
+#include <locale>
 #include <cstdlib>
 #include <cerrno>
 #include <sstream>
@@ -239,26 +240,34 @@ static bool checkDate( const std::string aDate )
 class IGES_LOCALE
 {
 private:
-    char locale[80];
+    std::string clocale;    // locale of the C library
+    std::locale cxxlocale;  // locale of new streams
+
 public:
     IGES_LOCALE()
     {
-        const char *cp = setlocale( LC_NUMERIC, NULL );
-        if (NULL != cp)
-        {
-            sprintf(locale, "%.79s", cp);
-        }
-        else
-        {
-            locale[0] = 0;
-        }
+        const char *cp = setlocale( LC_ALL, NULL );
 
-        setlocale( LC_NUMERIC, "C" );     // switch the numerics locale to "C"
+        if( NULL != cp )
+            clocale = cp;
+
+        // switch numbers to the "C" locale; note: streams do not depend on
+        // setlocale() and may group digits
+        cxxlocale = std::locale::global( std::locale::classic() );
+
+        if( !clocale.empty() )
+            setlocale( LC_ALL, clocale.c_str() );
+
+        setlocale( LC_NUMERIC, "C" );
     }
 
     ~IGES_LOCALE()
     {
-        setlocale( LC_NUMERIC, locale );  // revert to the current numerics default locale
+        // revert to the user's locales
+        std::locale::global( cxxlocale );
+
+        if( !clocale.empty() )
+            setlocale( LC_ALL, clocale.c_str() );
     }
 };
 
-- 
2.43.0


From 76e8c04825b2a4a89cf17b821d07146734da344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 083/151] fix: Write destroys an existing file if the model
 cannot be saved and reports success although the disk is full

---
 src/entities/entityNULL.cpp    |  4 +-
 src/entities/iges_entity.cpp   |  4 +-
 src/iges/iges.cpp              | 71 ++++++++++++++--------------------
 src/include/core/entityNULL.h  |  4 +-
 src/include/core/iges.h        |  4 +-
 src/include/core/iges_entity.h |  4 +-
 6 files changed, 40 insertions(+), 51 deletions(-)

diff --git a/src/entities/entityNULL.cpp b/src/entities/entityNULL.cpp
index f369c8b..3271170 100644
--- a/src/entities/entityNULL.cpp
+++ b/src/entities/entityNULL.cpp
@@ -303,14 +303,14 @@ bool IGES_ENTITY_NULL::format( int &index )
 }
 
 
-bool IGES_ENTITY_NULL::writeDE(std::ofstream &aFile)
+bool IGES_ENTITY_NULL::writeDE(std::ostream &aFile)
 {
     ERRMSG << "\n + [BUG] invoking function in NULL Entity\n";
     return false;
 }
 
 
-bool IGES_ENTITY_NULL::writePD(std::ofstream &aFile)
+bool IGES_ENTITY_NULL::writePD(std::ostream &aFile)
 {
     ERRMSG << "\n + [BUG] invoking function in NULL Entity\n";
     return true;    // do not interfere with other write operations
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 3fb1dcf..786c328 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1613,7 +1613,7 @@ bool IGES_ENTITY::readPD(std::ifstream &aFile, int &aSequenceVar)
 }   // readPD()
 
 
-bool IGES_ENTITY::writeDE(std::ofstream &aFile)
+bool IGES_ENTITY::writeDE(std::ostream &aFile)
 {
     std::string oln1;   // DE Line 1
     std::string oln2;   // DE Line 2
@@ -1877,7 +1877,7 @@ bool IGES_ENTITY::writeDE(std::ofstream &aFile)
 }
 
 
-bool IGES_ENTITY::writePD(std::ofstream &aFile)
+bool IGES_ENTITY::writePD(std::ostream &aFile)
 {
     if( pdout.empty() || 0 != (pdout.length() % 81) )
     {
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 5e0f63d..e7bcd38 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -37,6 +37,7 @@
 //
 
 #include <libigesconf.h>
+#include <sys/stat.h>
 #include <locale.h>
 #include <locale>
 #include <cstdlib>
@@ -675,6 +676,9 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     // Format PD entries for output and update some DE items
     for( iEnt = 0; iEnt < nEnt; ++iEnt )
     {
+        // discard whatever was left by a failed attempt to write
+        entities[iEnt]->unformat();
+
         if( !entities[iEnt]->format( index ) )
         {
             ERRMSG << "\n + [INFO] could not format entity for output\n";
@@ -688,39 +692,19 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
 
     nPDSecLines = index - 1;
 
-    ofstream file;
-
-    file.open( aFileName, ios::out | ios_base::in | ios::binary );
-
-    if( file.is_open() )
-    {
-        if( !fOverwrite )
-        {
-            ERRMSG << "\n + [INFO] file already exists; not overwriting\n";
-            cerr << " + filename: '" << aFileName << "'\n";
-            file.close();
-            return false;
-        }
-
-        // reopen the file and truncate it
-        file.close();
-        file.open( aFileName, ios::out | ios_base::in | ios::binary | ios::trunc );
-    }
-    else
-    {
-        file.open( aFileName, ios::out | ios::binary );
-    }
+    // note: a file must not be touched before it is known that it can be replaced;
+    // this includes files which cannot be read
+    struct stat fst;
 
-    if( !file.is_open() )
+    if( !fOverwrite && 0 == stat( aFileName, &fst ) )
     {
-        for( iEnt = 0; iEnt < nEnt; ++iEnt )
-            entities[iEnt]->unformat();
-
-        ERRMSG << "\n + [INFO] could not open file\n";
+        ERRMSG << "\n + [INFO] file already exists; not overwriting\n";
         cerr << " + filename: '" << aFileName << "'\n";
         return false;
     }
 
+    ostringstream file;
+
     do
     {
         MCAD_FILEPATH mp;
@@ -738,7 +722,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     if( !writeStart( file ) )
     {
         ERRMSG << "\n + [INFO] could not write START section\n";
-        file.close();
         return false;
     }
 
@@ -746,7 +729,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     if( !writeGlobals( file ) )
     {
         ERRMSG << "\n + [INFO] could not write GLOBAL section\n";
-        file.close();
         return false;
     }
 
@@ -756,7 +738,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
         if( !entities[iEnt]->writeDE(file) )
         {
             ERRMSG << "\n + [INFO] could not write out Directory Entries\n";
-            file.close();
             return false;
         }
     }
@@ -767,7 +748,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
         if( !entities[iEnt]->writePD(file) )
         {
             ERRMSG << "\n + [INFO] could not write out Parameter Data\n";
-            file.close();
             return false;
         }
     }
@@ -779,7 +759,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     if( !FormatDEInt( tmp, (int)startSection.size() ) )
     {
         ERRMSG << "\n + [INFO] could not format S* entry in terminal line\n";
-        file.close();
         return false;
     }
 
@@ -789,7 +768,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     if( !FormatDEInt( tmp, nGlobSecLines ) )
     {
         ERRMSG << "\n + [INFO] could not format G* entry in terminal line\n";
-        file.close();
         return false;
     }
 
@@ -799,7 +777,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     if( !FormatDEInt( tmp, nDESecLines) )
     {
         ERRMSG << "\n + [INFO] could not format D* entry in terminal line\n";
-        file.close();
         return false;
     }
 
@@ -809,7 +786,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     if( !FormatDEInt( tmp, nPDSecLines ) )
     {
         ERRMSG << "\n + [INFO] could not format P* entry in terminal line\n";
-        file.close();
         return false;
     }
 
@@ -820,7 +796,6 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     if( !FormatDEInt( tmp, 1 ) )
     {
         ERRMSG << "\n + [INFO] could not format T* entry in terminal line\n";
-        file.close();
         return false;
     }
 
@@ -829,13 +804,27 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     oline += "\n";
     file << oline;
 
-    if( file.fail() )
+    // everything could be formatted; only now the file is replaced
+    ofstream ofile;
+    ofile.open( aFileName, ios::out | ios::binary | ios::trunc );
+
+    if( !ofile.is_open() )
     {
-        file.close();
+        ERRMSG << "\n + [INFO] could not open file\n";
+        cerr << " + filename: '" << aFileName << "'\n";
+        return false;
+    }
+
+    ofile << file.str();
+    ofile.close();      // note: close() may fail to write the last buffer
+
+    if( ofile.fail() )
+    {
+        ERRMSG << "\n + [INFO] could not write all data to file\n";
+        cerr << " + filename: '" << aFileName << "'\n";
         return false;
     }
 
-    file.close();
     return true;
 }
 
@@ -1978,7 +1967,7 @@ bool IGES::AddToHeader( const char*& comments )
 }
 
 // write out the START SECTION
-bool IGES::writeStart( std::ofstream& file )
+bool IGES::writeStart( std::ostream& file )
 {
     if( startSection.empty() )
         startSection.push_back( "# Created via the free libIGES (https://github.com/cbernardo/libIGES)" );
@@ -2049,7 +2038,7 @@ bool IGES::writeStart( std::ofstream& file )
 
 
 // write out the GLOBAL SECTION
-bool IGES::writeGlobals( std::ofstream& file )
+bool IGES::writeGlobals( std::ostream& file )
 {
     std::string gstr;   // Global Section data as a single string
     std::string lstr;   // one line of Global Section Data being assembled
diff --git a/src/include/core/entityNULL.h b/src/include/core/entityNULL.h
index 9ea4acb..b69fedd 100644
--- a/src/include/core/entityNULL.h
+++ b/src/include/core/entityNULL.h
@@ -83,8 +83,8 @@ public:
     virtual bool delReference(IGES_ENTITY *aParentEntity);
     virtual bool readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSequenceVar);
     virtual bool readPD(std::ifstream &aFile, int &aSequenceVar);
-    virtual bool writeDE(std::ofstream &aFile);
-    virtual bool writePD(std::ofstream &aFile);
+    virtual bool writeDE(std::ostream &aFile);
+    virtual bool writePD(std::ostream &aFile);
 
 public:
     IGES_ENTITY_NULL( IGES* aParent );
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index 52cbe68..13767d8 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -109,9 +109,9 @@ private:
     // read the TERMINATE section and verify data
     bool readTS( IGES_RECORD& rec, std::ifstream& file );
     // write out the START SECTION
-    bool writeStart( std::ofstream& file );
+    bool writeStart( std::ostream& file );
     // write out the GLOBAL SECTION
-    bool writeGlobals( std::ofstream& file );
+    bool writeGlobals( std::ostream& file );
 
     // take back entities after a failed Export()
     void reclaimEntities( IGES* newParent, const std::vector<IGES_ENTITY*>& aList );
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index da165c3..bf40f4b 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -279,7 +279,7 @@ public:
      *
      * @param aFile = IGES output file
      */
-    virtual bool writeDE(std::ofstream &aFile);
+    virtual bool writeDE(std::ostream &aFile);
 
 
     /**
@@ -290,7 +290,7 @@ public:
      *
      * @param aFile = IGES output file
      */
-    virtual bool writePD(std::ofstream &aFile);
+    virtual bool writePD(std::ostream &aFile);
 
 
 public:
-- 
2.43.0


From 9dd04f4a5571adae50bfb090c3885ec3508037a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 084/151] fix: saving to a file without extension throws
 std::out_of_range

---
 src/iges/mcad_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 17aad6c..83be48b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -307,7 +307,7 @@ const char* MCAD_FILEPATH::GetBaseName( void )
     {
         *m_basename = m_fullpath->substr( lastSep, lastDot - lastSep );
 
-        if( m_ext->empty() )
+        if( m_ext->empty() && lastDot < m_fullpath->size() )
             *m_ext = m_fullpath->substr( lastDot + 1 );
     }
     else
-- 
2.43.0


From 0331b03288052e4b54668e766cc64d43c6b0f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 085/151] fix: SetExtension() appends to the old extension if
 that was queried before

---
 src/iges/mcad_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 83be48b..cc3a5f6 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -358,10 +358,11 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         return false;
     }
 
-    if( m_ext->empty() && NULL != GetExtension() )
+    if( NULL != GetExtension() )
         m_fullpath->erase( m_fullpath->size() - m_ext->size() -1 );
 
     m_filename->clear();
+    m_basename->clear();
     m_ext->clear();
 
     if( NULL == anExt || 0 == anExt[0] )
-- 
2.43.0


From c887249eaad868f2e3eddbb8d9db34ef61800739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 086/151] fix: Append() reports failure on success and makes a
 relative path absolute

---
 src/iges/mcad_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index cc3a5f6..6462f66 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -404,11 +404,14 @@ bool MCAD_FILEPATH::Append( const char* aSubPath )
         if( subp.size() == 1 && subp[0] == pathsep )
             return true;
 
-        m_fullpath->append( 1, pathsep );
+        if( !m_fullpath->empty() )
+            m_fullpath->append( 1, pathsep );
+
         m_fullpath->append( subp );
         m_filename->clear();
         m_basename->clear();
         m_ext->clear();
+        return true;
     }
 
     return false;
-- 
2.43.0


From 9f576849287588429f9853b8b95dbf22c7724b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 087/151] fix: sockets and block devices are taken for files or
 directories

---
 src/iges/mcad_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 6462f66..579b162 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -185,7 +185,7 @@ bool MCAD_FILEPATH::Exists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & ( S_IFDIR | S_IFREG ) )
+    if( S_ISDIR( fs.st_mode ) || S_ISREG( fs.st_mode ) )
         return true;
 #endif
 
@@ -212,7 +212,7 @@ bool MCAD_FILEPATH::DirExists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & S_IFDIR )
+    if( S_ISDIR( fs.st_mode ) )
         return true;
 #endif
 
@@ -239,7 +239,7 @@ bool MCAD_FILEPATH::FileExists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & S_IFREG )
+    if( S_ISREG( fs.st_mode ) )
         return true;
 #endif
 
-- 
2.43.0


From f873eaf4fcaa955bf6e93414444500853ec04dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 088/151] fix: file name is wrong after SetExtension() with an
 extension which contains a dot

---
 src/iges/mcad_utils.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 579b162..565d18c 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -371,17 +371,14 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
     if( '.' != anExt[0] )
     {
         m_fullpath->append( 1, '.' );
-        *m_ext = anExt;
     }
     else
     {
         if( 0 == anExt[1] )
             return false;
-
-        *m_ext = &anExt[1];
     }
 
-    m_fullpath->append( *m_ext );
+    m_fullpath->append( anExt );
     return true;
 }
 
-- 
2.43.0


From b6ef94ea70691a8c2db83c1921d3f32693b78644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 089/151] fix: planarity of NURBS curves is wrong if control
 points are collinear; files with such curves are unreadable

---
 src/entities/entity126.cpp | 92 +++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index d6ce44f..5dca664 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -24,6 +24,7 @@
  *
  */
 
+#include <cmath>
 #include <sstream>
 #include <vector>
 #include <error_macros.h>
@@ -1148,65 +1149,66 @@ bool IGES_ENTITY_126::hasUniquePlane( MCAD_POINT* norm )
         return false;
     }
 
-    // we must test for planarity by taking the normal vector of every
-    // 3 control points; if all normals are equal (or anti) then we have a plane
-    MCAD_POINT p0;
-    MCAD_POINT p1;
-    MCAD_POINT p2;
+    // any 3 successive control points may be collinear or even coincide so the
+    // plane is determined by the points which span the largest triangle with
+    // the first point and the point farthest from it
+    *norm = MCAD_POINT( 0.0, 0.0, 1.0 );
 
-    MCAD_POINT* pts[3] = { &p0, &p1, &p2 };
+    int stride = ( 0 == PROP3 ) ? 4 : 3;
+    vector<MCAD_POINT> pts;
+    MCAD_POINT edge;
+    double dist = 0.0;
 
-    int i = 0;
-    int j = 0;
-
-    MCAD_POINT tnorm0;
-    MCAD_POINT tnorm1;
-
-    for( i = 0; i < 3; ++i )
+    for( int i = 0; i < nCoeffs; ++i )
     {
-        pts[i]->x = coeffs[j++];
-        pts[i]->y = coeffs[j++];
-        pts[i]->z = coeffs[j++];
-
-        if( 0 == PROP3 )
-            ++j;
-    }
+        const double* cp = &coeffs[i * stride];
+        pts.push_back( MCAD_POINT( cp[0] - coeffs[0], cp[1] - coeffs[1], cp[2] - coeffs[2] ) );
 
-    CalcNormal( &p0, &p1, &p2, norm );
+        double d = sqrt( pts[i].x * pts[i].x + pts[i].y * pts[i].y + pts[i].z * pts[i].z );
 
-    if( nCoeffs == 3 )
-        return true;
+        if( d > dist )
+        {
+            dist = d;
+            edge = pts[i];
+        }
+    }
 
-    tnorm0 = *norm;
-    MCAD_POINT* px;
+    MCAD_POINT tnorm;
+    double area = 0.0;
 
-    for( i = 3; i < nCoeffs; ++i )
+    for( int i = 1; i < nCoeffs; ++i )
     {
-        px = pts[0];
-        pts[0] = pts[1];
-        pts[1] = pts[2];
-        pts[2] = px;
-
-        pts[2]->x = coeffs[j++];
-        pts[2]->y = coeffs[j++];
-        pts[2]->z = coeffs[j++];
+        MCAD_POINT tp( edge.y * pts[i].z - edge.z * pts[i].y,
+                       edge.z * pts[i].x - edge.x * pts[i].z,
+                       edge.x * pts[i].y - edge.y * pts[i].x );
 
-        if( 0 == PROP3 )
-            ++j;
-
-        CalcNormal( pts[0], pts[1], pts[2], &tnorm1 );
+        double d = sqrt( tp.x * tp.x + tp.y * tp.y + tp.z * tp.z );
 
-        if( !PointMatches( tnorm0, tnorm1, 1e-8 )
-            && !PointMatches( tnorm0, tnorm1 * -1.0, 1e-8 ) )
+        if( d > area )
         {
-            norm->x = 0.0;
-            norm->y = 0.0;
-            norm->z = 1.0;
-            return false;
+            area = d;
+            tnorm = tp;
         }
+    }
 
-        tnorm0 = tnorm1;
+    // a line (or a point) does not lie on a unique plane
+    if( !( area > 1e-8 * dist * dist ) )
+        return false;
+
+    tnorm *= 1.0 / area;
+
+    for( int i = 1; i < nCoeffs; ++i )
+    {
+        if( abs( tnorm.x * pts[i].x + tnorm.y * pts[i].y + tnorm.z * pts[i].z ) > 1e-8 * dist )
+            return false;
     }
 
+    // the curve starts counterclockwise around the normal
+    if( tnorm.x * ( pts[1].y * pts[2].z - pts[1].z * pts[2].y )
+        + tnorm.y * ( pts[1].z * pts[2].x - pts[1].x * pts[2].z )
+        + tnorm.z * ( pts[1].x * pts[2].y - pts[1].y * pts[2].x ) < 0.0 )
+        tnorm *= -1.0;
+
+    *norm = tnorm;
     return true;
 }
-- 
2.43.0


From 64432076d01340a344aedf87fc966d6ed7cde704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 090/151] fix: SetNURBSData corrupts the entity if it rejects
 the data or is given the data of the entity itself

---
 src/entities/entity126.cpp | 22 ++++++++++++++++------
 src/entities/entity128.cpp | 38 ++++++++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 5dca664..7d5d37d 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1051,24 +1051,34 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots = nCoeff + order;
-    nCoeffs = nCoeff;
-    K = nCoeff - 1;
-    M = order - 1;
+    // note: nothing may be changed until all parameters have been checked
+    int nk = nCoeff + order;
 
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[nKnots -1] )
+    if( v0 < knot[0] || v0 >= knot[nk -1] )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[nKnots -1] )
+    if( v1 <= v0 || v1 > knot[nk -1] )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
     }
 
+    // note: the data may be the data of this very entity
+    vector<double> tknots( knot, knot + nk );
+    vector<double> tcoeffs( coeff, coeff + nCoeff * ( isRational ? 4 : 3 ) );
+
+    knot = &tknots[0];
+    coeff = &tcoeffs[0];
+
+    nKnots = nk;
+    nCoeffs = nCoeff;
+    K = nCoeff - 1;
+    M = order - 1;
+
     if( knots )
     {
         delete [] knots;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index ed405f9..e88d593 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -25,6 +25,7 @@
  */
 
 #include <sstream>
+#include <vector>
 #include <error_macros.h>
 #include <core/iges.h>
 #include <core/iges_io.h>
@@ -989,40 +990,53 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots1 = nCoeff1 + order1;
-    nKnots2 = nCoeff2 + order2;
-    nCoeffs1 = nCoeff1;
-    nCoeffs2 = nCoeff2;
-    K1 = nCoeff1 - 1;
-    K2 = nCoeff2 - 1;
-    M1 = order1 - 1;
-    M2 = order2 - 1;
+    // note: nothing may be changed until all parameters have been checked
+    int nk1 = nCoeff1 + order1;
+    int nk2 = nCoeff2 + order2;
 
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[nKnots1 -1] )
+    if( u0 < knot1[0] || u0 >= knot1[nk1 -1] )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[nKnots1 -1] )
+    if( u1 <= u0 || u1 > knot1[nk1 -1] )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[nKnots2 -1] )
+    if( v0 < knot2[0] || v0 >= knot2[nk2 -1] )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[nKnots2 -1] )
+    if( v1 <= v0 || v1 > knot2[nk2 -1] )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
     }
 
+    // note: the data may be the data of this very entity
+    vector<double> tknots1( knot1, knot1 + nk1 );
+    vector<double> tknots2( knot2, knot2 + nk2 );
+    vector<double> tcoeffs( coeff, coeff + nCoeff1 * nCoeff2 * ( isRational ? 4 : 3 ) );
+
+    knot1 = &tknots1[0];
+    knot2 = &tknots2[0];
+    coeff = &tcoeffs[0];
+
+    nKnots1 = nk1;
+    nKnots2 = nk2;
+    nCoeffs1 = nCoeff1;
+    nCoeffs2 = nCoeff2;
+    K1 = nCoeff1 - 1;
+    K2 = nCoeff2 - 1;
+    M1 = order1 - 1;
+    M2 = order2 - 1;
+
     if( knots1 )
     {
         delete [] knots1;
-- 
2.43.0


From 9214537be6ff13e5fb649e48ff7ff1172e6e6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 091/151] fix: a NURBS curve claims to contain another curve

---
 src/entities/entity126.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 7d5d37d..f9fc130 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -835,7 +835,7 @@ bool IGES_ENTITY_126::GetNormal( MCAD_POINT& aNorm )
 
 int IGES_ENTITY_126::GetNCurves( void )
 {
-    return 1;
+    return 0;
 }
 
 
-- 
2.43.0


From 5cbbb848c32850705017c156e41e9b5d57e9c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 092/151] fix: a composite curve which consists of a closed
 conic or NURBS curve is not recognized as closed

---
 src/entities/entity102.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4657ba3..102c80a 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -687,7 +687,7 @@ bool IGES_ENTITY_102::IsClosed( void )
     std::list<IGES_CURVE*>::reverse_iterator lc = curves.rbegin();
 
     // we require at least 1 item which reports segments > 0
-    if( curves.size() == 1 && (*sc)->GetEntityType() != ENT_CIRCULAR_ARC )
+    if( curves.size() == 1 && (*sc)->GetEntityType() == ENT_LINE )
         return false;
 
     MCAD_POINT p1;
-- 
2.43.0


From c0a68d87b3bbbb82fab7b28fff3e786c9f9b7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 093/151] fix: splitting an arc with angles beyond 2 pi accepts
 points which are not on the arc

---
 src/geom/mcad_segment.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index f6b0896..5b3fccf 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -53,6 +53,19 @@ static inline void NORMALIZE_ANGLES( double &a0, double &a1 )
 }
 
 
+// return the equivalent of angle 'ang' within the range aStart <= ang < (aStart + 2*M_PI)
+static inline double ANGLE_FROM( double ang, double aStart )
+{
+    while( ang < aStart )
+        ang += 2.0 * M_PI;
+
+    while( ang >= aStart + 2.0 * M_PI )
+        ang -= 2.0 * M_PI;
+
+    return ang;
+}
+
+
 MCAD_SEGMENT::MCAD_SEGMENT()
 {
     init();
@@ -1811,10 +1824,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
         return false;
     }
 
-    double a0 = atan2( dy, dx );
-
-    if( a0 < GetStartAngle() )
-        a0 += 2.0 * M_PI;
+    double a0 = ANGLE_FROM( atan2( dy, dx ), GetStartAngle() );
 
     if( a0 > GetEndAngle() )
     {
@@ -1844,6 +1854,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
         // adjust the extent of this arc
         mend = p0;
         meang = a0;
+        NORMALIZE_ANGLES( msang, meang );
 
         return true;
     }
@@ -1861,10 +1872,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
         return false;
     }
 
-    double a1 = atan2( dy, dx );
-
-    if( a1 < GetStartAngle() )
-        a1 += 2.0 * M_PI;
+    double a1 = ANGLE_FROM( atan2( dy, dx ), GetStartAngle() );
 
     if( a1 > GetEndAngle() )
     {
@@ -1931,6 +1939,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
     // adjust the extent of this arc
     mend = p0;
     meang = a0;
+    NORMALIZE_ANGLES( msang, meang );
 
     return true;
 }
-- 
2.43.0


From 532cf98d9d14f86e0410d44fd68d96e0147ccaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 094/151] fix: splitting a segment at a point given twice
 creates a degenerate segment

---
 src/geom/mcad_segment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 5b3fccf..e24cd44 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -406,6 +406,11 @@ bool MCAD_SEGMENT::Split( std::list<MCAD_POINT>& aIntersectList,
 
         if( aIntersectList.empty() )
             return false;
+
+        // a point which is given twice must not create a degenerate segment
+        if( 2 == aIntersectList.size()
+            && PointMatches( aIntersectList.front(), aIntersectList.back(), 1e-8 ) )
+            aIntersectList.pop_back();
     }
 
     bool ok = false;
-- 
2.43.0


From b46b07ca387b13fe183be7ff180ab493d3628f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 095/151] fix: splitting arcs compares squared radii with the
 tolerance for radii, refusing accurate points on large arcs

---
 src/geom/mcad_segment.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index e24cd44..387925b 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1820,8 +1820,8 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
     MCAD_POINT p0 = aIntersectList.front();
     double dx = p0.x - mcenter.x;
     double dy = p0.y - mcenter.y;
-    double dd = dx*dx + dy*dy;
-    double dr = mradius * mradius;
+    double dd = sqrt( dx*dx + dy*dy );
+    double dr = mradius;
 
     if( abs(dd - dr) > 1e-8 )
     {
@@ -1868,8 +1868,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
 
     dx = p1.x - mcenter.x;
     dy = p1.y - mcenter.y;
-    dd = dx*dx + dy*dy;
-    dr = mradius * mradius;
+    dd = sqrt( dx*dx + dy*dy );
 
     if( abs(dd - dr) > 1e-8 )
     {
@@ -1970,8 +1969,8 @@ bool MCAD_SEGMENT::splitCircle( std::list<MCAD_POINT>& aIntersectList,
 
     double dx = p0.x - mcenter.x;
     double dy = p0.y - mcenter.y;
-    double dd = dx*dx + dy*dy;
-    double dr = mradius * mradius;
+    double dd = sqrt( dx*dx + dy*dy );
+    double dr = mradius;
 
     if( abs(dd - dr) > 1e-8 )
     {
@@ -1982,7 +1981,7 @@ bool MCAD_SEGMENT::splitCircle( std::list<MCAD_POINT>& aIntersectList,
     double a0 = atan2( dy, dx );
     dx = p1.x - mcenter.x;
     dy = p1.y - mcenter.y;
-    dd = dx*dx + dy*dy;
+    dd = sqrt( dx*dx + dy*dy );
 
     if( abs(dd - dr) > 1e-8 )
     {
-- 
2.43.0


From 33508cf473bfdd7c3356e4880b2faab1facc1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 096/151] fix: overlapping collinear lines are only detected if
 they share an end point

---
 src/geom/mcad_segment.cpp | 130 +++++++++-----------------------------
 1 file changed, 30 insertions(+), 100 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 387925b..c55d810 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -28,6 +28,7 @@
  */
 
 #include <cmath>
+#include <algorithm>
 #include <error_macros.h>
 #include <geom/mcad_segment.h>
 #include <geom/mcad_helpers.h>
@@ -1226,125 +1227,51 @@ bool MCAD_SEGMENT::checkLines( const MCAD_SEGMENT& aSegment,
     double t1;
     double t2;
 
-    if( abs( den ) < 1e-6 )
+    double len1 = sqrt( XA1*XA1 + YA1*YA1 );
+    double len2 = sqrt( XA2*XA2 + YA2*YA2 );
+
+    // note: den / (len1 * len2) is the sine of the angle between the lines
+    if( abs( den ) < 1e-8 * len1 * len2 )
     {
-        // check if lines are parallel
-        if( abs( num ) > 1e-6 )
+        // check if lines are parallel; num / len1 is the distance between them
+        if( abs( num ) > 1e-6 * len1 )
             return false;
 
         // lines are colinear, but do they intersect (overlap along a segment)?
         // if there is an overlap the points must be in order 0 <= t1 < t2 <= 1
         // as parameterized on *this segment.
 
-        // cases:
-        // 1. (S0, E0) not in (S1, E1) *and* (S1, E1) not in (S0, E0): no overlap
-        // 2. [S0 and E0 in (S1, E1)] *or* [S1 and E1 in (S0, E0)]: one segment inside the other or equal
-        // 3. S0 or E0 in (S1, E1) *and* S1 or E1 in (S0, E1): partial overlap
-
-        bool s0i = false;
-        bool e0i = false;
-        bool s1i = false;
-        bool e1i = false;
+        // distance of the second segment's points along *this segment
+        t1 = ( (p0.x - XB1) * XA1 + (p0.y - YB1) * YA1 ) / len1;
+        t2 = ( (p1.x - XB1) * XA1 + (p1.y - YB1) * YA1 ) / len1;
 
-        if( abs( XA2 ) >= abs( YA2 ) )
-        {
-            t1 = ( mstart.x - XB2 ) / XA2;
-            t2 = ( mend.x - XB2 ) / XA2;
-        }
-        else
-        {
-            t1 = ( mstart.y - YB2 ) / YA2;
-            t2 = ( mend.y - YB2 ) / YA2;
-        }
-
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s0i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e0i = true;
-
-        if( abs( XA1 ) >= abs( YA1 ) )
-        {
-            t1 = ( p0.x - XB1 ) / XA1;
-            t2 = ( p1.x - XB1 ) / XA1;
-        }
-        else
+        if( t1 > t2 )
         {
-            t1 = ( p0.y - YB1 ) / YA1;
-            t2 = ( p1.y - YB1 ) / YA1;
+            swap( t1, t2 );
+            swap( p0, p1 );
         }
 
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s1i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e1i = true;
-
-        if( !s0i && !e0i && !s1i && !e1i )
+        if( t1 > len1 + 1e-8 || t2 < -1e-8 )
             return false;
 
-        flags = MCAD_IFLAG_EDGE;
-
-        if( s0i && e0i )
+        // the segments may only touch at their ends
+        if( t1 > len1 - 1e-8 )
         {
-            aIntersectList.push_back( mstart );
             aIntersectList.push_back( mend );
+            flags = MCAD_IFLAG_ENDPOINT;
             return true;
         }
 
-        if( s1i && e1i )
-        {
-            if( abs( XA1 ) >= abs( YA1 ) )
-            {
-                t1 = ( p0.x - XB1 ) / XA1;
-                t2 = ( p1.x - XB1 ) / XA1;
-            }
-            else
-            {
-                t1 = ( p0.y - YB1 ) / YA1;
-                t2 = ( p1.y - YB1 ) / YA1;
-            }
-
-            if( t1 < t2 )
-            {
-                aIntersectList.push_back( p0 );
-                aIntersectList.push_back( p1 );
-            }
-            else
-            {
-                aIntersectList.push_back( p1 );
-                aIntersectList.push_back( p0 );
-            }
-
-            return true;
-        }
-
-        if( s0i && s1i )
-        {
-            aIntersectList.push_back( mstart );
-            aIntersectList.push_back( p0 );
-            return true;
-        }
-
-        if( s0i && e1i )
+        if( t2 < 1e-8 )
         {
             aIntersectList.push_back( mstart );
-            aIntersectList.push_back( p1 );
-            return true;
-        }
-
-        // must be e0i
-
-        if( s1i )
-        {
-            aIntersectList.push_back( p0 );
-            aIntersectList.push_back( mend );
+            flags = MCAD_IFLAG_ENDPOINT;
             return true;
         }
 
-        // must be e0i && e1i
-        aIntersectList.push_back( p1 );
-        aIntersectList.push_back( mend );
+        aIntersectList.push_back( t1 < 1e-8 ? mstart : p0 );
+        aIntersectList.push_back( t2 > len1 - 1e-8 ? mend : p1 );
+        flags = MCAD_IFLAG_EDGE;
         return true;
     }
 
@@ -1355,15 +1282,18 @@ bool MCAD_SEGMENT::checkLines( const MCAD_SEGMENT& aSegment,
     else
         t1 = (t2 * XA2 + XB2 - XB1) / XA1;
 
-    if( t2 > -1e-8 && t2 < (1 + 1e-8)
-        && t1 > -1e-8 && t1 < (1 + 1e-8) )
+    // note: the tolerance of 1e-8 applies to distances rather than parameters
+    double e1 = 1e-8 / len1;
+    double e2 = 1e-8 / len2;
+
+    if( t2 > -e2 && t2 < (1 + e2) && t1 > -e1 && t1 < (1 + e1) )
     {
         p0.x = t2 * XA2 + XB2;
         p0.y = t2 * YA2 + YB2;
         aIntersectList.push_back( p0 );
 
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8
-            || abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
+        if( abs( t1 ) < e1 || abs( t1 - 1.0 ) < e1
+            || abs( t2 ) < e2 || abs( t2 - 1.0 ) < e2 )
             flags = MCAD_IFLAG_ENDPOINT;
 
         return true;
-- 
2.43.0


From aaa4d4038fbffd2357b476c4f921c505692b7ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 097/151] fix: circles which touch are reported as separate,
 nested or crossing depending on rounding

---
 src/geom/mcad_segment.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index c55d810..5059c8a 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -516,9 +516,6 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
     double dy = mcenter.y - c2.y;
     double d= sqrt( dx*dx + dy*dy );
 
-    if( d > ( mradius + r2 ) )
-        return false;
-
     // check if the circles are identical
     // note: lax evaluation of 1e-3 is used since any
     // smaller difference whether in inch or mm is really
@@ -536,17 +533,20 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
         return false;
     }
 
+    if( d > ( mradius + r2 ) )
+        return false;
+
     if( d < mradius || d < r2)
     {
-        // check if aSegment is inside this circle
-        if( d <= (mradius - r2) )
+        // check if aSegment is inside this circle; it may touch the circle
+        if( d <= (mradius - r2) + 1e-8 )
         {
             flags = MCAD_IFLAG_ENCIRCLES;
             return false;
         }
 
         // check if this circle is inside aSegment
-        if( d <= (r2 - mradius) )
+        if( d <= (r2 - mradius) + 1e-8 )
         {
             flags = MCAD_IFLAG_INSIDE;
             return false;
-- 
2.43.0


From e4b793ab17907c7aad9c9cb30b457d7ed83929b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 098/151] fix: intersections of lines and arcs are lost at end
 points, and depend on the length and order of the segments

---
 src/geom/mcad_segment.cpp | 246 ++++++++++----------------------------
 1 file changed, 60 insertions(+), 186 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 5059c8a..b00f3cc 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -950,222 +950,96 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         lE = GetEnd();
     }
 
-    // Step 1: the line segment must be parameterized:
-    // x = t*x1 + (1-t)*x2
-    // y = t*y1 + (1-t)*y2
-    // Step 2: given a circle with center (x0, y0), solve for:
-    // (x0 - x)^2 + (y0 - y)^2 = R^2
-    // Intermediates:
-    //      + expanding (x0 - x)^2 we get:
-    //          t^2*(x1^2 -2x1*x2 +x2^2) +t*2*(x0*x2 -x0*x1 +x1*x2 -x2^2) + (x0^2 -2*x0*x2 +x2^2)
-    //        (y0 - y)^2 expands to the same general expression
-    //      + gathering known values into single coefficients we get:
-    //          a0 = (x1^2 -2x1*x2 +x2^2)
-    //          b0 = 2*(x0*x2 -x0*x1 +x1*x2 -x2^2)
-    //          c0 = (x0^2 -2*x0*x2 +x2^2)
-    //          a1 = (y1^2 -2y1*y2 +y2^2)
-    //          b1 = 2*(y0*y2 -y0*y1 +y1*y2 -y2^2)
-    //          c1 = (y0^2 -2*y0*y2 +y2^2)
-    //      + Step 2 reduces to:
-    //          (a0 + a1)*t^2 + (b0 + b1)*t + (c0 + c1 - R^2) = 0
-    //        Which is equal to:
-    //          A*t^2 + B*t +C = 0
-    // Step 3: solution for t:
-    //      t = (-B * sqrt( B^2 -4*A*C )) / (2*A)
-    // First check the discriminant; if it is == 0 we have a tangent, if <0
-    // we have no intersection, and if >0 we may have an intersection.
-    // If the discriminant > 0, solve for t and for any value 0<= t <= 1
-    // check if p(t) lies on the arc/circle
-
-    double a0 = ( lS.x * lS.x - 2.0 * lS.x * lE.x + lE.x * lE.x );
-    double b0 = 2.0 * ( arcC.x * lE.x - arcC.x * lS.x + lS.x * lE.x - lE.x * lE.x );
-    double c0 = arcC.x * arcC.x - 2.0 * arcC.x * lE.x + lE.x * lE.x;
-
-    double a1 = ( lS.y * lS.y - 2.0 * lS.y * lE.y + lE.y * lE.y );
-    double b1 = 2.0 * ( arcC.y * lE.y - arcC.y * lS.y + lS.y * lE.y - lE.y * lE.y );
-    double c1 = arcC.y * arcC.y - 2.0 * arcC.y * lE.y + lE.y * lE.y;
-
-    double A = a0 + a1;
-    double B = b0 + b1;
-    double C = c0 + c1 - arcR * arcR;
-
-    double D = B * B - 4.0 * A * C;
-
-    bool tangent = false;
-
-    if( abs( D ) < 1e-6 )
-    {
-        if( arcCircle )
-        {
-            double t = -B / ( 2.0 * A );
-
-            if( t < 0.0 || t > 1.0 )
-                return false;
-
-            flags = MCAD_IFLAG_TANGENT;
-            MCAD_POINT p;
-            p.x = t * lS.x + (1.0 - t) * lE.x;
-            p.y = t * lS.y + (1.0 - t) * lE.y;
-            aIntersectList.push_back( p );
-            return true;
-        }
-
-        tangent = true;
-    }
-
-    if( D < 0 )
+    // Step 1: find the point on the line which is closest to the center of the
+    // circle; this point is at a distance 'm' along the line and at a distance
+    // 'h' from the center.
+    // Step 2: if the line crosses the circle the intersections are at a distance
+    // 'w' to each side of that point where w^2 + h^2 = R^2
+    // Step 3: any intersection must lie within the line segment
+    // Step 4: any intersection must lie on the arc
+
+    double dx = lE.x - lS.x;
+    double dy = lE.y - lS.y;
+    double len = sqrt( dx*dx + dy*dy );
+    dx /= len;
+    dy /= len;
+
+    double m = ( arcC.x - lS.x ) * dx + ( arcC.y - lS.y ) * dy;
+    double h = abs( ( arcC.x - lS.x ) * dy - ( arcC.y - lS.y ) * dx );
+    double w2 = ( arcR - h ) * ( arcR + h );
+
+    // if the intersections are less than 2e-3 apart we have a tangent
+    bool tangent = abs( w2 ) < 1e-6;
+
+    if( !tangent && w2 < 0.0 )
         return false;
 
-    double t0;
-    double t1;
+    double t[2];    // distance of the points along the line
+    int nt = 1;
 
     if( tangent )
     {
-        t0 = -B / ( 2.0 * A );
-        t1 = t0;
+        t[0] = m;
     }
     else
     {
-        t0 = ( -B + sqrt( D ) ) / ( 2.0 * A );
-        t1 = ( -B - sqrt( D ) ) / ( 2.0 * A );
+        double w = sqrt( w2 );
+        t[0] = m - w;
+        t[1] = m + w;
+        nt = 2;
     }
 
-    int np = 0;
     MCAD_POINT p[2];
-    MCAD_INTERSECT_FLAG f[2];
-
-    if( t0 >= 0.0 && t0 <= 1.0 )
-    {
-        p[0].x = t0 * lS.x + (1.0 - t0) * lE.x;
-        p[0].y = t0 * lS.y + (1.0 - t0) * lE.y;
-
-        if( ( ( PointMatches( p[0], arcS, 1e-8 ) || PointMatches( p[0], arcE, 1e-8 ) )
-            && !arcCircle )
-            || abs( t0 ) < 1e-8 || abs( t0 - 1.0 ) < 1e-8 )
-            f[0] = MCAD_IFLAG_ENDPOINT;
-        else
-            f[0] = MCAD_IFLAG_NONE;
-
-        ++np;
-    }
+    double ang[2];  // angle of each point; never less than the start angle
+    int np = 0;
 
-    if( !tangent && t1 >= 0.0 && t1 <= 1.0 )
+    for( int i = 0; i < nt; ++i )
     {
-        p[np].x = t1 * lS.x + (1.0 - t1) * lE.x;
-        p[np].y = t1 * lS.y + (1.0 - t1) * lE.y;
-
-        if( ( ( PointMatches( p[np], arcS, 1e-8 ) || PointMatches( p[np], arcE, 1e-8 ) )
-            && !arcCircle )
-            || abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            f[np] = MCAD_IFLAG_ENDPOINT;
-        else
-            f[np] = MCAD_IFLAG_NONE;
-
-        ++np;
-    }
+        if( t[i] < -1e-8 || t[i] > len + 1e-8 )
+            continue;
 
-    if( 0 == np )
-        return false;
+        p[np].x = lS.x + t[i] * dx;
+        p[np].y = lS.y + t[i] * dy;
+        bool isEnd = abs( t[i] ) < 1e-8 || abs( t[i] - len ) < 1e-8;
 
-    double ang[2];
+        ang[np] = ANGLE_FROM( atan2( p[np].y - arcC.y, p[np].x - arcC.x ), arcSAng );
 
-    for( int i = 0; i < np; ++i )
-        ang[i] = atan2( p[i].y - arcC.y, p[i].x - arcC.x );
-
-    if( arcCircle )
-    {
-        if( 1 == np )
+        if( !arcCircle )
         {
-            aIntersectList.push_back( p[0] );
-            flags = f[0];
-            return true;
+            // note: the endpoints are checked as well to account for discrepancies
+            // in the angle calculations which may result in false negatives.
+            if( PointMatches( p[np], arcS, 1e-8 ) )
+            {
+                ang[np] = arcSAng;
+                isEnd = true;
+            }
+            else if( PointMatches( p[np], arcE, 1e-8 ) )
+            {
+                ang[np] = arcEAng;
+                isEnd = true;
+            }
+            else if( ang[np] > arcEAng )
+                continue;
         }
 
-        if( MCAD_IFLAG_ENDPOINT == f[0] || MCAD_IFLAG_ENDPOINT == f[1] )
+        if( isEnd )
             flags = MCAD_IFLAG_ENDPOINT;
 
-        bool swap = false; // set to true if p[0], p[1] must be swapped
-
-        if( ang[0] >= 0.0 )
-        {
-            if( ang[1] >= 0.0 && ang[1] < ang[0] )
-                    swap = true;
-        }
-        else
-        {
-            if( ang[1] >= 0.0 || ang[1] < ang[0] )
-                swap = true;
-        }
-
-        if( swap )
-        {
-            aIntersectList.push_back( p[1] );
-            aIntersectList.push_back( p[0] );
-        }
-        else
-        {
-            aIntersectList.push_back( p[0] );
-            aIntersectList.push_back( p[1] );
-        }
-
-        return true;
-    }
-
-    MCAD_POINT pt[2];
-    int np2 = 0;
-
-    // check if each point is on the arc
-    for( int i = 0; i < np; ++i )
-    {
-        // note: the endpoints are checked as well to account for discrepancies
-        // in the angle calculations which may result in false negatives.
-        if( ( ang[i] >= arcSAng && ang[i] <= arcEAng )
-            || ( ( ang[i] + 2.0 * M_PI ) >= arcSAng && ( ang[i] + 2.0 * M_PI ) <= arcEAng )
-            || ( abs( p[i].x - mstart.x ) < 1e-14 && abs( p[i].y - mstart.y ) < 1e-14 )
-            || ( abs( p[i].x - mend.x ) < 1e-14 && abs( p[i].y - mend.y ) < 1e-14 ) )
-        {
-            pt[np2] = p[i];
-            ++np2;
-        }
+        ++np;
     }
 
-    if( 0 == np2 )
+    if( 0 == np )
         return false;
 
     if( tangent )
-    {
         flags = MCAD_IFLAG_TANGENT;
-        aIntersectList.push_back( pt[0] );
-        return true;
-    }
-
-    if( 1 == np2 )
-    {
-        flags = f[0];
-        aIntersectList.push_back( pt[0] );
-        return true;
-    }
-
-    if( MCAD_IFLAG_ENDPOINT == f[0] || MCAD_IFLAG_ENDPOINT == f[1] )
-        flags = MCAD_IFLAG_ENDPOINT;
 
     // determine point order on the arc
-    if( ang[0] < arcSAng )
-        ang[0] += 2.0 * M_PI;
-
-    if( ang[1] < arcSAng )
-        ang[1] += 2.0 * M_PI;
+    if( 2 == np && ang[1] < ang[0] )
+        swap( p[0], p[1] );
 
-    if( ang[1] > ang[0] )
-    {
-        aIntersectList.push_back( pt[0] );
-        aIntersectList.push_back( pt[1] );
-    }
-    else
-    {
-        aIntersectList.push_back( pt[1] );
-        aIntersectList.push_back( pt[0] );
-    }
+    for( int i = 0; i < np; ++i )
+        aIntersectList.push_back( p[i] );
 
     return true;
 }
-- 
2.43.0


From e8d83906dfc9ced450f1dee6c26d88dbfdfedf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 099/151] fix: arcs on one circle, arcs touching from the
 inside and arcs meeting at an end point are not handled

---
 src/geom/mcad_segment.cpp | 310 +++++++++++++-------------------------
 1 file changed, 108 insertions(+), 202 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index b00f3cc..642d8e1 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -579,46 +579,7 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     double b0 = aSegment.GetStartAngle();
     double b1 = aSegment.GetEndAngle();
 
-    // XXX -
-    // WARNING: TO BE IMPLEMENTED
-    // XXX - we may have a condition where we have 2 edge overlaps;
-    // this violates our constraint of 0 or 2 point intersections
-    // and we must inform the calling routine of the problem (invalid geometry)
-
-    // check if no intersection possible
-    if( (d > ( mradius + r2 )) || ((d + r2) < mradius) || ((d + mradius) < r2) )
-        return false;
-
-    if( abs( d - mradius - r2 ) < 0.001 )
-    {
-        // calculate the intersection point and check if it lies on both arcs
-        double tang0 = atan2( c2.y - mcenter.y, c2.x - mcenter.x );
-        double tang1;
-
-        if( tang0 > 0.0 )
-            tang1 = tang0 - M_PI;
-        else
-            tang1 = tang0 + M_PI;
-
-        if( tang0 > a0 )
-            tang0 -= 2.0 * M_PI;
-
-        if( tang0 < a0 )
-            tang0 += 2.0 * M_PI;
-
-        if( tang1 > b0 )
-            tang1 -= 2.0 * M_PI;
-
-        if( tang1 < b0 )
-            tang1 += 2.0 * M_PI;
-
-        if( tang0 >= a0 && tang0 <= a1 && tang1 >= b0 && tang1 <= b1 )
-            flags = MCAD_IFLAG_TANGENT;
-
-        return false;
-    }
-
-    // check if the arcs are identical
+    // check if the arcs are on the same circle
     if ( PointMatches( mcenter, c2, 1e-3 )
         && abs( mradius - r2 ) < 1e-3 )
     {
@@ -639,72 +600,98 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
             return true;
         }
 
-        // Special case: arcs only intersect at their endpoints;
-        // we must return the endpoints with the flag MCAD_IFLAG_ENDPOINT
-        // possible sub-cases:
-        // b1 == a0, b0 == a1 - 2*M_PI
-        // a1 == b0, a0 == b1 - 2*M_PI
-        // b0 == a1, b1 == a0 + 2*M_PI
-        // a0 == b1, a1 == b0 + 2*M_PI
-        if( (abs(b1 - a0) < 1e-8 && abs(b0 -a1 + 2.0*M_PI) < 1e-8)
-            || (abs(a1 - b0) < 1e-8 && abs(a0 -b1 + 2.0*M_PI) < 1e-8)
-            || (abs(b0 - a1) < 1e-8 && abs(b1 -a0 - 2.0*M_PI) < 1e-8)
-            || (abs(a0 - b1) < 1e-8 && abs(a1 -b0 - 2.0*M_PI) < 1e-8) )
-        {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
-            flags = MCAD_IFLAG_ENDPOINT;
-            return true;
-        }
+        // adjust aSegment's angles so that a0 <= b0 < a0 + 2*M_PI; the arcs
+        // may then overlap along 2 edges:
+        // 1. from b0 to the end of the arc which ends first
+        // 2. from a0 to the end of the arc which ends first, if
+        //    aSegment extends beyond the start of *this
+        double tol = 1e-8 / mradius;
+        double bs = ANGLE_FROM( b0, a0 );
+
+        if( bs > a0 + 2.0 * M_PI - tol )
+            bs -= 2.0 * M_PI;
 
-        // XXX - TO BE IMPLEMENTED
-        // Special case: arcs intersect at only a single endpoint
+        b1 += bs - b0;
+        b0 = bs;
 
-        // determine if an entire segment is enveloped
-        if( (b0 >= a0 && b1 <= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b1 + 2.0*M_PI) <= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
+        double len0 = min( a1, b1 ) - b0;
+        double len1 = min( a1, b1 - 2.0 * M_PI ) - a0;
+
+        if( len0 > tol && len1 > tol )
         {
-            aIntersectList.push_back( aSegment.GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
+            flags = MCAD_IFLAG_MULTIEDGE;
+            return false;
         }
 
-        if( (a0 >= b0 && a1 <= b1)
-            || (a0 >= (b0 + 2.0*M_PI) && a1 <= (b1 + 2.0*M_PI))
-            || (a0 >= (b0 - 2.0*M_PI) && a1 <= (b1 - 2.0*M_PI)) )
+        if( len0 > tol )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
+            aIntersectList.push_back( aSegment.GetStart() );
+            aIntersectList.push_back( a1 < b1 ? GetEnd() : aSegment.GetEnd() );
             flags = MCAD_IFLAG_EDGE;
             return true;
         }
 
-        // case 1: aSegment encompasses the start of *this
-        if( (b0 <= a0 && b1 >= a0 && b1 <= a1)
-            || ((b0 - 2.0*M_PI) <= a0 && (b1 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
+        if( len1 > tol )
         {
             aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
+            aIntersectList.push_back( a1 < b1 - 2.0 * M_PI ? GetEnd() : aSegment.GetEnd() );
             flags = MCAD_IFLAG_EDGE;
             return true;
         }
 
-        // case 2: aSegment encompasses the end of *this
-        if( (b0 >= a0 && b0 <= a1 && b1 >= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b0 + 2.0*M_PI) <= a1 && (b1 + 2.0*M_PI) >= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b0 - 2.0*M_PI) <= a1 && (b1 - 2.0*M_PI) >= a1) )
-        {
+        // Special case: arcs only intersect at their endpoints;
+        // we must return the endpoints with the flag MCAD_IFLAG_ENDPOINT
+        if( len1 >= -tol )
             aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
-        }
+
+        if( len0 >= -tol )
+            aIntersectList.push_back( GetEnd() );
+
+        if( len0 < -tol && len1 < -tol )
+            return false;
+
+        flags = MCAD_IFLAG_ENDPOINT;
+        return true;
+    }
+
+    // the arcs may touch from the outside or from the inside; 'h2' is the square
+    // of half the distance between the intersections of the full circles
+    bool tangOut = abs( d - mradius - r2 ) < 0.001;
+    bool tangIn = false;
+
+    if( d < max( mradius, r2 ) && d > 0.0 )
+    {
+        double rd = (d*d - r2*r2 + mradius*mradius)/(2.0 * d);
+        double h2 = (mradius - rd) * (mradius + rd);
+        tangIn = abs( h2 ) < 1e-6;
+    }
+
+    if( tangOut || tangIn )
+    {
+        // calculate the intersection point and check if it lies on both arcs
+        double tang0 = atan2( c2.y - mcenter.y, c2.x - mcenter.x );
+        double tang1 = tang0;
+
+        if( tangOut )
+            tang1 += M_PI;
+        else if( mradius < r2 )
+            tang0 = tang1 = tang0 + M_PI;
+
+        // note: the contact may be at the end of an arc
+        double tol0 = 1e-8 / mradius;
+        double tol1 = 1e-8 / r2;
+
+        if( ANGLE_FROM( tang0, a0 - tol0 ) <= a1 + tol0
+            && ANGLE_FROM( tang1, b0 - tol1 ) <= b1 + tol1 )
+            flags = MCAD_IFLAG_TANGENT;
 
         return false;
     }
 
+    // check if no intersection possible
+    if( (d > ( mradius + r2 )) || ((d + r2) < mradius) || ((d + mradius) < r2) )
+        return false;
+
     // Special cases: arcs only intersect at their endpoints
     // 1. aSegment->radius < *this->radius : return flag MCAD_IFLAG_OUTSIDE; this
     //    return value can be used by the calling routine to determine whether
@@ -761,140 +748,59 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     MCAD_POINT p2;
     calcCircleIntercepts( c2, r2, d, p1, p2 );
 
-    // determine if any of the points lie on *this arc and
-    // place them in a ccw order
-
-    double angX0 = atan2( p1.y - mcenter.y, p1.x - mcenter.x );
-    double angX1 = atan2( p2.y - mcenter.y, p2.x - mcenter.x );
-    MCAD_POINT p0[2];
-    double ang0[2];
+    // determine if any of the points lie on both arcs and place them in a
+    // ccw order on *this arc
+    MCAD_POINT p[2];
+    double ang[2];
     int np = 0;
-    int isOnArc[2];
-    double tang;
-
-    isOnArc[0] = 0;
-    isOnArc[1] = 0;
-
-    if ( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
-    {
-        ++isOnArc[0];
-        ++isOnArc[1];
-    }
-    else
-    {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= b1 )
-        {
-            ++isOnArc[0];
-        }
-
-        tang = angX1;
 
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= b1 )
-        {
-            ++isOnArc[1];
-        }
-    }
-
-    if( MCAD_SEGTYPE_CIRCLE == msegtype )
+    for( int i = 0; i < 2; ++i )
     {
-        ++isOnArc[0];
-        ++isOnArc[1];
-    }
-    else
-    {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
+        p[np] = (0 == i) ? p1 : p2;
+        bool isEnd = false;
+        ang[np] = ANGLE_FROM( atan2( p[np].y - mcenter.y, p[np].x - mcenter.x ), a0 );
 
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
+        // note: the endpoints are checked as well to account for discrepancies
+        // in the angle calculations which may result in false negatives.
+        if( MCAD_SEGTYPE_CIRCLE != msegtype )
         {
-            ++isOnArc[0];
+            if( PointMatches( p[np], GetStart(), 1e-8 ) )
+            {
+                ang[np] = a0;
+                isEnd = true;
+            }
+            else if( PointMatches( p[np], GetEnd(), 1e-8 ) )
+            {
+                ang[np] = a1;
+                isEnd = true;
+            }
+            else if( ang[np] > a1 )
+                continue;
         }
 
-        tang = angX1;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
+        if( MCAD_SEGTYPE_CIRCLE != aSegment.GetSegType() )
         {
-            ++isOnArc[1];
+            if( PointMatches( p[np], aSegment.GetStart(), 1e-8 )
+                || PointMatches( p[np], aSegment.GetEnd(), 1e-8 ) )
+                isEnd = true;
+            else if( ANGLE_FROM( atan2( p[np].y - c2.y, p[np].x - c2.x ), b0 ) > b1 )
+                continue;
         }
-    }
-
-    if( angX0 < a0 )
-        angX0 += 2.0 * M_PI;
 
-    if( angX1 < a0 )
-        angX1 += 2.0 * M_PI;
-
-    if( 2 == isOnArc[0] )
-    {
-        p0[0] = p1;
-        ang0[0] = angX0;
-        ++np;
-    }
+        if( isEnd )
+            flags = MCAD_IFLAG_ENDPOINT;
 
-    if( 2 == isOnArc[1] )
-    {
-        p0[np] = p2;
-        ang0[np] = angX1;
         ++np;
     }
 
     if( 0 == np )
-    {
         return false;
-    }
 
-    if( 1 == np )
-    {
-        aIntersectList.push_back( p0[0] );
-        return true;
-    }
+    if( 2 == np && ang[1] < ang[0] )
+        swap( p[0], p[1] );
 
-    // adjust range to fit within a0 .. a1
     for( int i = 0; i < np; ++i )
-    {
-        if( ang0[i] < a0 )
-            ang0[i] += 2.0*M_PI;
-        else if ( ang0[i] > a1 )
-            ang0[i] -= 2.0*M_PI;
-    }
-
-    if( ang0[0] > ang0[1] )
-    {
-        aIntersectList.push_back( p0[1] );
-        aIntersectList.push_back( p0[0] );
-    }
-    else
-    {
-        aIntersectList.push_back( p0[0] );
-        aIntersectList.push_back( p0[1] );
-    }
+        aIntersectList.push_back( p[i] );
 
     return true;
 }
@@ -928,8 +834,8 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         arcEAng = GetEndAngle();
         arcR = mradius;
         arcC = mcenter;
-        arcS = mstart;
-        arcE = mend;
+        arcS = GetStart();
+        arcE = GetEnd();
 
         lS = aSegment.GetStart();
         lE = aSegment.GetEnd();
-- 
2.43.0


From dfd91203ca7ac1167778168d8af7fa14a92a62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 100/151] fix: IsInside miscounts points which are level with
 vertices or arcs, or are on the outline, or if the outline was modified

---
 src/geom/mcad_outline.cpp | 211 ++++++++++++++++++++------------------
 1 file changed, 109 insertions(+), 102 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b7c11d5..b86f900 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -43,6 +43,51 @@ using namespace std;
 } while( 0 )
 
 
+// returns true if the point is on the segment
+static bool pointOnSegment( MCAD_SEGMENT* aSegment, const MCAD_POINT& aPoint )
+{
+    MCAD_POINT s = aSegment->GetStart();
+    MCAD_POINT e = aSegment->GetEnd();
+
+    if( MCAD_SEGTYPE_CIRCLE != aSegment->GetSegType()
+        && ( PointMatches( aPoint, s, 1e-8 ) || PointMatches( aPoint, e, 1e-8 ) ) )
+        return true;
+
+    if( MCAD_SEGTYPE_LINE == aSegment->GetSegType() )
+    {
+        double dx = e.x - s.x;
+        double dy = e.y - s.y;
+        double len = sqrt( dx*dx + dy*dy );
+        double t = ( ( aPoint.x - s.x ) * dx + ( aPoint.y - s.y ) * dy ) / len;
+
+        if( t < 0.0 || t > len )
+            return false;
+
+        return abs( ( aPoint.x - s.x ) * dy - ( aPoint.y - s.y ) * dx ) <= 1e-8 * len;
+    }
+
+    MCAD_POINT c = aSegment->GetCenter();
+    double dx = aPoint.x - c.x;
+    double dy = aPoint.y - c.y;
+
+    if( abs( sqrt( dx*dx + dy*dy ) - aSegment->GetRadius() ) > 1e-8 )
+        return false;
+
+    if( MCAD_SEGTYPE_CIRCLE == aSegment->GetSegType() )
+        return true;
+
+    double ang = atan2( dy, dx );
+
+    while( ang < aSegment->GetStartAngle() )
+        ang += 2.0 * M_PI;
+
+    while( ang >= aSegment->GetStartAngle() + 2.0 * M_PI )
+        ang -= 2.0 * M_PI;
+
+    return ang <= aSegment->GetEndAngle();
+}
+
+
 void MCAD_OUTLINE::PrintPoint( MCAD_POINT p0 )
 {
     cerr << "(" << p0.x << ", " << p0.y << ")\n";
@@ -291,127 +336,89 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
         return false;
     }
 
-    // Steps:
-    // 1. take a line passing through this point and directly to the
-    //    left or right, whichever is the shortest segment.
-    // 2. count nodes: IF an intersection is an endpoint, only
-    //    count it as a node if ALL points of the segment touched
-    //    are <= aPoint.y.
-    // 3. odd nodes = inside, even nodes = outside
-
-    MCAD_POINT bb0 = mBottomLeft;
-    MCAD_POINT bb1 = mTopRight;
-
-    // expand the limits to ensure non-zero segment lengths in all cases
-    bb0.x -= 5.0;
-    bb0.y -= 5.0;
-    bb1.x += 5.0;
-    bb1.y += 5.0;
-
-    MCAD_POINT p2;
-
-    if( (aPoint.x - mBottomLeft.x) <= (mTopRight.x - aPoint.x) )
-        p2.x = bb0.x;
-    else
-        p2.x = bb1.x;
-
-    p2.y = aPoint.y;
-
-    MCAD_SEGMENT ls0;
-    ls0.SetParams( aPoint, p2 );
-    int nI = 0; // number of intersections with the outline
+    error = false;
 
+    // Steps:
+    // 1. check if the point is on the outline.
+    // 2. count the crossings of the outline and a horizontal line starting
+    //    at the point; to correctly handle vertices which are level with the
+    //    point, each arc is divided at its topmost and bottommost points and
+    //    each section of the outline includes its lower end only.
+    // 3. odd number of crossings = inside, even = outside
     list<MCAD_SEGMENT*>::iterator sSegs = msegments.begin();
     list<MCAD_SEGMENT*>::iterator eSegs = msegments.end();
-    list<MCAD_POINT> iList;
-    MCAD_INTERSECT_FLAG flag;
+    bool inside = false;
 
-    int acc = 0;
+    // note: the end point of the previous segment is used as the start point
+    // of each segment to ensure that there are no gaps
+    MCAD_POINT p0 = msegments.back()->mend;
 
     while( sSegs != eSegs )
     {
-        if( (*sSegs)->GetIntersections( ls0, iList, flag ) )
+        MCAD_SEGMENT* sp = *sSegs;
+        ++sSegs;
+
+        if( pointOnSegment( sp, aPoint ) )
+            return true;
+
+        if( MCAD_SEGTYPE_LINE == sp->msegtype )
         {
-            list<MCAD_POINT>::iterator sL = iList.begin();
-            list<MCAD_POINT>::iterator eL = iList.end();
+            MCAD_POINT p1 = sp->mend;
 
-            while( sL != eL )
+            if( ( p0.y <= aPoint.y ) != ( p1.y <= aPoint.y ) )
             {
-                // note: handle the case of a circle differently
-                if( MCAD_SEGTYPE_CIRCLE == (*sSegs)->GetSegType() )
-                {
-                    ++nI;
-                }
-                else
-                {
-                    bool isEnd0 = PointMatches( *sL, (*sSegs)->mstart, 1e-8 );
-                    bool isEnd1 = PointMatches( *sL, (*sSegs)->mend, 1e-8 );
+                double x = p0.x + ( aPoint.y - p0.y ) / ( p1.y - p0.y ) * ( p1.x - p0.x );
 
-                    if( isEnd0 || isEnd1 )
-                    {
-                        (*sSegs)->GetBoundingBox( bb0, bb1 );
-
-                        if( bb0.y <= aPoint.y && bb1.y <= aPoint.y )
-                        {
-                            ++nI;
-                        }
-                        else
-                        {
-                            // it is possible for the simple bounding box test to
-                            // fail if the endpoint is on an arc; in such cases
-                            // we must check the bounds of the adjacent curve and
-                            // increment nI is those bounds are exclusively >= aPoint.y
-                            if( MCAD_SEGTYPE_ARC == (*sSegs)->GetSegType() && bb0.y < aPoint.y )
-                            {
-                                list<MCAD_SEGMENT*>::iterator tSeg = sSegs;
-
-                                if( isEnd1 )
-                                {
-                                    ++tSeg;
-
-                                    if( tSeg == eSegs )
-                                        tSeg = msegments.begin();
-                                }
-                                else if ( tSeg == msegments.begin() )
-                                {
-                                    tSeg = --msegments.end();
-                                }
-                                else
-                                {
-                                    --tSeg;
-                                }
-
-                                (*tSeg)->GetBoundingBox( bb0, bb1 );
-
-                                if( bb0.y >= aPoint.y && bb1.y >= aPoint.y )
-                                {
-                                    ++nI;
-                                }
-
-                            }
-                        }
+                if( x > aPoint.x )
+                    inside = !inside;
+            }
 
-                    }
-                    else
-                    {
-                        ++nI;
-                    }
-                }
+            p0 = p1;
+            continue;
+        }
+
+        // process the arc or circle in CCW order
+        double a0 = sp->GetStartAngle();
+        double a1 = sp->GetEndAngle();
+        double y0 = sp->mCWArc ? sp->mend.y : p0.y;
+        double yE = sp->mCWArc ? p0.y : sp->mend.y;
+        // the first topmost or bottommost point at or beyond the start
+        int n = (int)ceil( a0 / M_PI - 0.5 );
+
+        while( true )
+        {
+            double aX = ( n + 0.5 ) * M_PI;
+            double am = ( aX < a1 ) ? aX : a1;
+            double y1 = yE;
+
+            if( aX < a1 )
+                y1 = ( n % 2 ) ? sp->mcenter.y - sp->mradius : sp->mcenter.y + sp->mradius;
+
+            if( ( y0 <= aPoint.y ) != ( y1 <= aPoint.y ) )
+            {
+                double dy = aPoint.y - sp->mcenter.y;
+                double dx = sp->mradius * sp->mradius - dy * dy;
+                dx = dx > 0.0 ? sqrt( dx ) : 0.0;
 
-                ++sL;
+                if( cos( 0.5 * ( a0 + am ) ) < 0.0 )
+                    dx = -dx;
+
+                if( sp->mcenter.x + dx > aPoint.x )
+                    inside = !inside;
             }
 
-            iList.clear();
+            if( aX >= a1 )
+                break;
+
+            y0 = y1;
+            a0 = aX;
+            ++n;
         }
 
-        ++sSegs;
+        p0 = sp->mend;
     }
 
-    // note: an odd number means the point is inside the outline
-    if( nI % 2 )
-        return true;
-
-    return false;
+    return inside;
 }
 
 
-- 
2.43.0


From a897c68e9fb0f514642ac827e4e33e99cdb8190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 101/151] fix: subtracting an outline may append its segments
 in the wrong order

---
 src/geom/mcad_outline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b86f900..5b4ab0e 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1820,7 +1820,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         }
 
         aOutline->msegments = tSegs;
-        oSegs.front() = --aOutline->msegments.end();
+        oSegs.front() = aOutline->msegments.begin();
         eSegO = --aOutline->msegments.end();
     }
 
-- 
2.43.0


From c49a64d907b10624162d2d96c29adee36cd6b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 102/151] fix: adding an outline never returns if a clockwise
 arc is involved

---
 src/geom/mcad_outline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 5b4ab0e..4123be3 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1883,13 +1883,15 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
             else
                 --tmpT;
 
-            lastPt = (*tmpT)->GetEnd();
+            // note: do not use GetEnd(), which returns the
+            // start point of an arc in the CW direction
+            lastPt = (*tmpT)->mend;
 
         } while(0);
 
         // ensure that we start with the segment whose Start Point matches lastPt;
         // this maintains the correct segment order.
-        while( !PointMatches( (*eT)->GetStart(), lastPt, 1e-8 ) )
+        while( !PointMatches( (*eT)->mstart, lastPt, 1e-8 ) )
         {
             ++eT;
 
-- 
2.43.0


From d44b9dc724578134501d2b5d293b17680a614327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 103/151] fix: combining a circle with an outline yields an
 invalid outline if both intersections are on one segment and the circle
 encloses the remainder

---
 src/geom/mcad_outline.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 4123be3..c02d35a 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1022,14 +1022,17 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
                 return false;
             }
 
-            // replace the first new segment with the arc
-            delete sList.front();
-            sList.pop_front();
-            sList.push_front( sp );
             list<MCAD_SEGMENT*>::iterator pS0 = pSeg[0];
             msegments.insert( ++pS0, sList.begin(), sList.end() );
 
-            return true;
+            // note: the circle may enclose either the middle section
+            // of the segment or the remainder of the outline
+            if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+                ++pSeg[0];
+
+            // there is nothing more to split
+            isEnd[0] = true;
+            isEnd[1] = true;
         }
     }
 
-- 
2.43.0


From 05c7e1a36163f20b34946155b1e31366b9ce747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 104/151] fix: the winding of an outline may be wrong if it
 contains a large arc

---
 src/geom/mcad_outline.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index c02d35a..505a188 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -528,19 +528,16 @@ bool MCAD_OUTLINE::AddSegment( MCAD_SEGMENT* aSegment, bool& error )
     if( MCAD_SEGTYPE_ARC == pseg->GetSegType() )
     {
         // To ensure correct winding calculations involving
-        // arcs we must take the midpoint of the arc and
-        // calculate the winding based on 2 segments.
-        MCAD_POINT p2;
-        pseg->GetMidpoint( p2 );
+        // arcs we must also take into account (twice) the area
+        // between the arc and its chord.
+        double da = pseg->GetMEAngle() - pseg->GetMSAngle();
+        double r = pseg->GetRadius();
 
-        mWinding += ( p0.x - p2.x ) * ( p0.y + p2.y );
-        mWinding += ( p2.x - p1.x ) * ( p2.y + p1.y );
-    }
-    else
-    {
-        mWinding += ( p0.x - p1.x ) * ( p0.y + p1.y );
+        mWinding -= r * r * ( da - sin( da ) );
     }
 
+    mWinding += ( p0.x - p1.x ) * ( p0.y + p1.y );
+
     if( msegments.size() > 1 )
     {
         // adjust the bounding box
-- 
2.43.0


From ba58c3c9f8f367703d548fb61a45014436f14302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 105/151] fix: outlines which merely coincide at 2 points are
 combined, or refused without setting the error flag

---
 src/geom/mcad_outline.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 505a188..8bc1146 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -876,6 +876,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
             msg << "the outline";
             ERRMSG << msg.str() << "\n";
             errors.push_back( msg.str() );
+            error = true;
             return false;
         }
 
@@ -1645,14 +1646,29 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
     // f. A test for invalid geometry: if both (d) and (e) are
     //    inside (or outside) then we have invalid geometry due
     //    to a case of 2 non-overlapping outlines coinciding at
-    //    2 points.
-    if( tpIn0 == tpIn1 )
+    //    2 points. If *this is on the same side of aOutline beyond
+    //    the other split point then one outline is inside the other
+    //    and they merely coincide at 2 points.
+    bool tpIn2 = tpIn0;
+
+    for( iSeg = msegments.begin(); iSeg != msegments.end(); ++iSeg )
+    {
+        if( PointMatches( iList.back(), (*iSeg)->mstart, 1e-8 ) )
+        {
+            (*iSeg)->GetMidpoint( pT );
+            tpIn2 = aOutline->IsInside( pT, error );
+            break;
+        }
+    }
+
+    if( tpIn0 == tpIn1 || tpIn0 == tpIn2 )
     {
         ostringstream msg;
         GEOM_ERR( msg );
-        msg << "[ERROR] invalid geometry (non-overlapping regions coincident at 2 points)";
+        msg << "[ERROR] invalid geometry (regions coincident at 2 points)";
         ERRMSG << msg.str() << "\n";
         errors.push_back( msg.str() );
+        error = true;
         return false;
     }
 
-- 
2.43.0


From 212f12ccd53606fa2fa191556eb5cd5249c12446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 106/151] fix: outlines are not combined if they intersect at
 an end point and elsewhere on the same segment

---
 src/geom/mcad_outline.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 8bc1146..e0f66a9 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1086,22 +1086,19 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
         }
     }
 
-    // either pSeg[0] or pSeg[0]-- must have an endpoint 'mend' which
-    // is equal to pf[0]; find that iterator then eradicate all
-    // subsequent entries (wrapping to begin() if necessary) until
+    // some segment must have an endpoint 'mend' which is equal to
+    // pf[0]; find that iterator then eradicate all subsequent entries (wrapping to begin() if necessary) until
     // we encounter a segment whose 'mstart' equals pf[1]. Finally,
     // insert 'sp' after the aforementioned iterator or, more
     // conveniently, before the first segment not eradicated.
 
-    if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+    for( pSeg[0] = msegments.begin(); pSeg[0] != msegments.end(); ++pSeg[0] )
     {
-        if( msegments.front() == *pSeg[0] )
-            pSeg[0] = --msegments.end();
-        else
-            --pSeg[0];
+        if( PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+            break;
     }
 
-    if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+    if( pSeg[0] == msegments.end() )
     {
         ostringstream msg;
         GEOM_ERR( msg );
@@ -1410,7 +1407,10 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
     }
     else
     {
-        // we are splitting individual entities at single points
+        // we are splitting individual entities at single points;
+        // note: an entity may already have lost its end by the time
+        // that the second point is checked
+        bool isEnd = p1e;
         list<list<MCAD_SEGMENT*>::iterator>::iterator sSegs = lSegs.begin();
         list<list<MCAD_SEGMENT*>::iterator>::iterator eSegs = lSegs.end();
         list<MCAD_POINT>::iterator iPts = iList.begin();
@@ -1419,8 +1419,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            if( !isEnd )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
@@ -1442,6 +1441,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
                 msegments.insert( ++ps0, sList.front() );
             }
 
+            isEnd = p2e;
             ++iPts;
             ++sSegs;
         }
@@ -1488,7 +1488,10 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
     }
     else
     {
-        // we are splitting individual entities at single points
+        // we are splitting individual entities at single points;
+        // note: an entity may already have lost its end by the time
+        // that the second point is checked
+        bool isEnd = p1e;
         list<list<MCAD_SEGMENT*>::iterator>::iterator sSegs = oSegs.begin();
         list<list<MCAD_SEGMENT*>::iterator>::iterator eSegs = oSegs.end();
         list<MCAD_POINT>::iterator iPts = iList.begin();
@@ -1497,8 +1500,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            if( !isEnd )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
@@ -1520,6 +1522,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
                 aOutline->msegments.insert( ++ps0, sList.front() );
             }
 
+            isEnd = p2e;
             ++iPts;
             ++sSegs;
         }
-- 
2.43.0


From 87bda85fcf68e2831b0e83187aad4bc00c59adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 107/151] fix: do not mark the rotation of a bounding arc as a
 reflection

The rotation by 180 degrees has the determinant +1; form 1 is reserved
for the determinant -1.
---
 src/geom/geom_cylinder.cpp | 1 -
 src/geom/iges_geom_pcb.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 2b253bb..3673545 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -509,7 +509,6 @@ bool IGES_GEOM_CYLINDER::Instantiate( IGES* model, double top, double bot,
         itrans[i]->T.T.z = 2.0 * bot;
         itrans[i]->T.R.v[0][0] = -1.0;
         itrans[i]->T.R.v[2][2] = -1.0;
-        itrans[i]->SetEntityForm( 1 );
     }
 
     // piecewise nurbs segments
diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 3314411..cd71949 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -1440,7 +1440,6 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
             tx[i]->T.T.z = 2.0 * zHeight;
             tx[i]->T.R.v[0][0] = -1.0;
             tx[i]->T.R.v[2][2] = -1.0;
-            tx[i]->SetEntityForm( 1 );
 
             if( !arcs[i]->SetTransform( tx[i] ) )
             {
-- 
2.43.0


From e22013e4e2fdc11515adb0572f10192e03b6246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 108/151] fix: do not create degenerate arcs where an arc ends
 next to the x axis

An arc which ends on the x axis apart from rounding errors was divided
there; the degenerate part became a full circle or the boundary was
considered closed too early and no surface was created.
---
 src/geom/geom_cylinder.cpp | 28 ++++++++++++++++++++++++++++
 src/geom/iges_geom_pcb.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 66 insertions(+)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 3673545..fa038f6 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -70,6 +70,31 @@ static bool makeNurb( double* p0, double* p1, SISLCurve** pCurve )
 }
 
 
+// if an end of an arc practically lies on the x axis of the arc its angle is moved
+// to the exact multiple of PI; otherwise the division of the arc at the axis would
+// yield a degenerate part, which represents a full circle once its ends coincide
+static void snapAngles( double& aStart, double& aEnd, double aTolerance )
+{
+    double ang[2] = { aStart, aEnd };
+
+    for( int i = 0; i < 2; ++i )
+    {
+        double tmp = floor( ang[i] / M_PI + 0.5 ) * M_PI;
+
+        if( abs( ang[i] - tmp ) < aTolerance )
+            ang[i] = tmp;
+    }
+
+    if( ang[1] > ang[0] )
+    {
+        aStart = ang[0];
+        aEnd = ang[1];
+    }
+
+    return;
+}
+
+
 IGES_GEOM_CYLINDER::IGES_GEOM_CYLINDER()
 {
     init();
@@ -172,6 +197,9 @@ bool IGES_GEOM_CYLINDER::SetParams( MCAD_POINT center, MCAD_POINT start, MCAD_PO
     if( ang2 < ang1 )
         ang2 += 2.0 * M_PI;
 
+    // note: the boundary in parameter space must not be considered closed too early
+    snapAngles( ang1, ang2, max( 2e-8, 1e-7 / radius ) );
+
     if( ang1 < 0.0 )
     {
         // range of angles will be > M_PI .. < 4*M_PI
diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index cd71949..aed3925 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -55,6 +55,31 @@ using namespace std;
 } while( 0 )
 
 
+// if an end of an arc practically lies on the x axis of the arc its angle is moved
+// to the exact multiple of PI; otherwise the division of the arc at the axis would
+// yield a degenerate part, which represents a full circle once its ends coincide
+static void snapAngles( double& aStart, double& aEnd, double aTolerance )
+{
+    double ang[2] = { aStart, aEnd };
+
+    for( int i = 0; i < 2; ++i )
+    {
+        double tmp = floor( ang[i] / M_PI + 0.5 ) * M_PI;
+
+        if( abs( ang[i] - tmp ) < aTolerance )
+            ang[i] = tmp;
+    }
+
+    if( ang[1] > ang[0] )
+    {
+        aStart = ang[0];
+        aEnd = ang[1];
+    }
+
+    return;
+}
+
+
 static bool newEnt102( IGES* aModel, IGES_ENTITY_102** cp )
 {
     IGES_ENTITY* ep;
@@ -1184,6 +1209,8 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
         a1 = aSegment->GetMEAngle();
     }
 
+    snapAngles( a0, a1, max( 1e-7, 2e-8 * ( mTopRight.x - mBottomLeft.x ) ) / mradius );
+
     if( a0 >= 0.0 && a0 < M_PI )
     {
         if( a1 <= M_PI )
@@ -1657,6 +1684,14 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
         eAng -= 2.0 * M_PI;
     }
 
+    // note: neither in space nor in the parameter space (a unit square) may a part
+    // be so small that the boundary is considered closed too early
+    double dsAng = sAng;
+    double deAng = eAng;
+    snapAngles( sAng, eAng, max( 1e-7, 2e-8 * ( mTopRight.x - mBottomLeft.x ) ) / mradius );
+    dsAng = sAng - dsAng;
+    deAng -= eAng;
+
     int na = 0; // number of arcs in the curve
     spt[0][0] = ptArc[0].x;
     spt[0][1] = ptArc[0].y;
@@ -1748,6 +1783,9 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
         }
     }
 
+    angles[0] += dsAng;
+    angles[na - 1] += deAng;
+
     for( int i = 0; i < na; ++ i )
     {
         if( !newArc126( aModel, &cp[i] ) )
-- 
2.43.0


From e50389294f6c1fba943722b4e053bbec770f35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 109/151] fix: WriteFile() of an IDF board exchanged
 millimetres and thou

The flag was compared with UNIT_THOU (1), so that true selected thou.
---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..676752b 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3098,7 +3098,7 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
-    if( aUnitMM != IDF3::UNIT_THOU )
+    if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
         setUnit( IDF3::UNIT_THOU, aForceUnitFlag );
-- 
2.43.0


From f323684542c8c07b27cda7beee59513d0ad81d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 110/151] fix: OTHER_OUTLINE was written with its first point
 on the line of its name

---
 src/idf/idf_outlines.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cba8c80..3dc3eaa 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1912,6 +1912,8 @@ void OTHER_OUTLINE::writeData( std::ofstream& aBoardFile )
 
                 break;
         }
+
+        aBoardFile << "\n";
     }
 
     // write RECORD 3
-- 
2.43.0


From 83ab4f2117269c65be86c5bdc6b618d407da8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 111/151] fix: PLACE_OUTLINE without height was written with a
 negative height, which cannot be read

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 3dc3eaa..15359eb 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -2598,7 +2598,7 @@ void PLACE_OUTLINE::writeData( std::ofstream& aBoardFile )
     }
 
     // thickness is optional for OTLN_PLACE, but mandatory for OTLN_PLACE_KEEPOUT
-    if( thickness < 0.0 && outlineType == OTLN_PLACE_KEEPOUT)
+    if( thickness < 0.0 && outlineType == OTLN_PLACE )
     {
         aBoardFile << "\n";
     }
-- 
2.43.0


From e877bdbaa441626742f424c277abf931ad964548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 112/151] fix: component outlines in TNM were rejected and
 invalid units taken for TNM

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 15359eb..35346a3 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3253,7 +3253,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     {
         unit = UNIT_THOU;
     }
-    else if( aIdfVersion == IDF_V2 && !CompareToken( "TNM", token ) )
+    else if( aIdfVersion == IDF_V2 && CompareToken( "TNM", token ) )
     {
         unit = UNIT_TNM;
     }
-- 
2.43.0


From 33362392d9651569f51ef9d9c5ab48f276e00f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 113/151] fix: positions of components in TNM were not
 converted

---
 src/idf/idf_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 676752b..8431502 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -637,6 +637,11 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
         yoff *= IDF_THOU_TO_MM;
         zoff *= IDF_THOU_TO_MM;
     }
+    else if( aIdfVersion == IDF_V2 && aBoard->GetUnit() == IDF3::UNIT_TNM )
+    {
+        xoff *= IDF_TNM_TO_MM;
+        yoff *= IDF_TNM_TO_MM;
+    }
 
     parent = aBoard->FindComponent( refdes );
 
-- 
2.43.0


From f4da86bc71a2cfa6c2e07e1eb04b4a15cbf407a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 114/151] fix: component placements with spaces in the
 reference designator could not be read back

---
 src/idf/idf_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 8431502..81714fb 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -794,8 +794,13 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
         || ( arefdes.size() >= 8 && CompareToken( "NOREFDES", arefdes.substr(0, 8) ) ) )
         arefdes = "NOREFDES";
 
-    aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" "
-    << arefdes << "\n";
+    aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" ";
+
+    // a RefDes may contain spaces
+    if( arefdes.find_first_of( " \t" ) != std::string::npos )
+        aBoardFile << "\"" << arefdes << "\"\n";
+    else
+        aBoardFile << arefdes << "\n";
 
     IDF3::IDF_UNIT unit = UNIT_MM;
 
-- 
2.43.0


From 9f3a8165285b4a62b9df2504f95745c1db6945f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 115/151] fix: IDF files whose last section is not followed by
 a line end were rejected

---
 src/idf/idf_outlines.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 35346a3..6ecb59d 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1184,7 +1184,7 @@ void BOARD_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -1694,7 +1694,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
         // [outline identifier] [thickness] [board side: Top/Bot]
         while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-        if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+        if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
         {
             ostringstream ostr;
 
@@ -1815,7 +1815,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2130,7 +2130,7 @@ void ROUTE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2518,7 +2518,7 @@ void PLACE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2870,7 +2870,7 @@ void GROUP_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -3322,7 +3322,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     // check RECORD 4
     while( aLibFile.good() && !FetchIDFLine( aLibFile, iline, comment, pos ) );
 
-    if( ( !aLibFile.good() && aLibFile.eof() ) || iline.empty() )
+    if( ( !aLibFile.good() && !aLibFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
-- 
2.43.0


From 7942cae59d3fddeae37e07b9b8f610d619f2b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 116/151] fix: an empty comment line dropped the comments of an
 IDF library item

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 81714fb..1770f3c 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -2465,7 +2465,7 @@ void IDF3_BOARD::readLibSection( std::ifstream& aLibFile, IDF3::FILE_STATE& aLib
         }
 
         // no data was read; this only happens at eof()
-        if( iline.empty() )
+        if( iline.empty() && !isComment )
         {
             delete pout;
             return;
-- 
2.43.0


From f3a5c1f0724af0002d4e556d912753049f7ea0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 117/151] fix: IDF3_BOARD::Clear() kept the board outline with
 its comments and owner

---
 src/idf/idf_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 1770f3c..3f06d19 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -4209,6 +4209,9 @@ void IDF3_BOARD::Clear( void )
         olnGroup.clear();
     } while(0);
 
+    // delete the board outline
+    olnBoard.clear();
+
     boardName.clear();
     olnBoard.setThickness( thickness );
 
-- 
2.43.0


From c6182e64d43f2a3ae028043d9768f5a1a8cdaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 118/151] fix: empty PLACEMENT sections or only their comments
 were written for components without outlines

---
 src/idf/idf_parser.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 3f06d19..9236a6e 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3043,15 +3043,6 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
         // Placement
         if( !components.empty() )
         {
-            std::list<std::string>::iterator itpcs = placeComments.begin();
-            std::list<std::string>::iterator itpce = placeComments.end();
-
-            while( itpcs != itpce )
-            {
-                brd << "# " << *itpcs << "\n";
-                ++itpcs;
-            }
-
             std::map< std::string, IDF3_COMPONENT*>::iterator itcs = components.begin();
             std::map< std::string, IDF3_COMPONENT*>::iterator itce = components.end();
 
@@ -3064,7 +3055,14 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
             while( itcs != itce )
             {
-                if( itcs->second->GetOutlinesSize() > 0 )
+                std::list< IDF3_COMP_OUTLINE_DATA* >::iterator itos = itcs->second->components.begin();
+                std::list< IDF3_COMP_OUTLINE_DATA* >::iterator itoe = itcs->second->components.end();
+
+                // data with no outline is not written
+                while( itos != itoe && (*itos)->GetOutline() == NULL )
+                    ++itos;
+
+                if( itos != itoe )
                 {
                     itcs = components.begin();
                     hasOutlines = true;
@@ -3076,6 +3074,15 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
             if( hasOutlines )
             {
+                std::list<std::string>::iterator itpcs = placeComments.begin();
+                std::list<std::string>::iterator itpce = placeComments.end();
+
+                while( itpcs != itpce )
+                {
+                    brd << "# " << *itpcs << "\n";
+                    ++itpcs;
+                }
+
                 brd << ".PLACEMENT\n";
 
                 while( itcs != itce )
-- 
2.43.0


From b3766bcab9da62e2acd3beafd75e5cc95aeea22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 119/151] fix: further outlines of components on the bottom
 were mirrored when an IDF board was read and written

---
 src/idf/idf2igs.cpp    |  8 ++++++++
 src/idf/idf_parser.cpp | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 0794b7b..139b7dc 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -928,6 +928,14 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
             // retrieve the additional component and orientation offsets
             (*so)->GetOffsets( tX, tY, tZ, tA );
+
+            // offsets of items on the bottom are mirrored
+            if( bottom )
+            {
+                tX = -tX;
+                tA = -tA;
+            }
+
             tX += vX;
             tY += vY;
             tZ += th;
diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 9236a6e..1e18bcf 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -691,9 +691,19 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
             }
 
-            xoff -= tX;
+            // the offsets of items on the bottom are mirrored (see writePlaceData)
+            if( side == IDF3::LYR_BOTTOM )
+            {
+                xoff = tX - xoff;
+                aoff = tA - aoff;
+            }
+            else
+            {
+                xoff -= tX;
+                aoff -= tA;
+            }
+
             yoff -= tY;
-            aoff -= tA;
         }
         else
         {
-- 
2.43.0


From c3cae93d8ecc07bac44022a8b02605172834ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 120/151] fix: the winding of IDF outlines with long arcs could
 be reported wrongly

---
 src/idf/idf_common.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 40a285a..a70b548 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -1359,29 +1359,18 @@ bool IDF_OUTLINE::push( IDF_SEGMENT* item )
     outline.push_back( item );
 
     double ang = outline.back()->angle;
-    double oang = outline.back()->offsetAngle;
     double radius = outline.back()->radius;
 
     if( ang < -MIN_ANG || ang > MIN_ANG )
     {
-        // arcs require special consideration since the winding depends on
-        // the arc length; the arc length is adequately represented by
-        // taking 2 cords from the endpoints to the midpoint of the arc.
-        oang = (oang + ang / 2.0) * M_PI / 180.0;
-        double midx = outline.back()->center.x + radius * cos( oang );
-        double midy = outline.back()->center.y + radius * sin( oang );
-
-        dir += ( outline.back()->endPoint.x - midx )
-        * ( outline.back()->endPoint.y + midy );
-
-        dir += ( midx - outline.back()->startPoint.x )
-        * ( midy + outline.back()->startPoint.y );
+        // arcs contribute the area between the arc and its cord in
+        // addition to the area below the cord
+        ang *= M_PI / 180.0;
+        dir -= radius * radius * ( ang - sin( ang ) );
     }
-    else
-    {
-        dir += ( outline.back()->endPoint.x - outline.back()->startPoint.x )
+
+    dir += ( outline.back()->endPoint.x - outline.back()->startPoint.x )
         * ( outline.back()->endPoint.y + outline.back()->startPoint.y );
-    }
 
     return true;
 }
-- 
2.43.0


From d4a512ace475952111ee7624a64138411df60eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 121/151] fix: end points of IDF arcs given by their center
 were inexact; large slots were not closed

---
 src/idf/idf_common.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index a70b548..004cef9 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -1090,11 +1090,13 @@ IDF_SEGMENT::IDF_SEGMENT( const IDF_POINT& aStartPoint,
 
     startPoint = aEndPoint;
 
-    double ang = offsetAngle + aAngle;
-    ang = (ang / 180.0) * M_PI;
+    // rotate the start point; the offset angle is rounded
+    double ang = ( aAngle / 180.0 ) * M_PI;
+    double dx = startPoint.x - center.x;
+    double dy = startPoint.y - center.y;
 
-    endPoint.x  = ( radius * cos( ang ) ) + center.x;
-    endPoint.y  = ( radius * sin( ang ) ) + center.y;
+    endPoint.x  = dx * cos( ang ) - dy * sin( ang ) + center.x;
+    endPoint.y  = dx * sin( ang ) + dy * cos( ang ) + center.y;
 }
 
 
-- 
2.43.0


From 7e634a0882551ba4a83f501ac209f0d6a5afd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 122/151] fix: component outlines assigned with offsets were
 not written to the IDF library

---
 src/idf/idf_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 1e18bcf..cf3260f 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -146,6 +146,10 @@ IDF3_COMP_OUTLINE_DATA::IDF3_COMP_OUTLINE_DATA( IDF3_COMPONENT* aParent,
     yoff = aYoff;
     zoff = aZoff;
     aoff = aAngleOff;
+
+    if( aOutline )
+        aOutline->incrementRef();
+
     return;
 }
 
-- 
2.43.0


From a75c8ed3337ada1a5c4631dea2ace1008d647ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:29 +0000
Subject: [PATCH 123/151] fix: component outlines which are not closed were
 accepted before a PROP record

---
 src/idf/idf_outlines.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 6ecb59d..b8f7644 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -247,6 +247,15 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         {
             if( outlineType == OTLN_COMPONENT && CompareToken( "PROP", entry ) )
             {
+                if( npts > 0 && !closed )
+                {
+                    ostringstream ostr;
+                    ostr << "invalid outline (not closed)\n";
+                    ostr << "* file position: " << pos;
+
+                    throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
+                }
+
                 aBoardFile.seekg( pos );
                 return;
             }
-- 
2.43.0


From 300b44a8edd31e9391a5be4087a52b8f3f5b959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:29 +0000
Subject: [PATCH 124/151] fix: arcs with huge coordinates in IDF files caused
 an invalid conversion to an integer

---
 src/idf/idf_common.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 004cef9..f477671 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -875,10 +875,9 @@ double IDF3::CalcAngleDeg( const IDF_POINT& aStartPoint, const IDF_POINT& aEndPo
 {
     double ang = CalcAngleRad( aStartPoint, aEndPoint );
 
-    // round to thousandths of a degree
-    int iang = int (ang / M_PI * 1800000.0);
-
-    ang = iang / 10000.0;
+    // truncate to 1/10000 of a degree
+    ang *= 1800000.0 / M_PI;
+    ang = ( ang < 0.0 ? ceil( ang ) : floor( ang ) ) / 10000.0;
 
     return ang;
 }
-- 
2.43.0


From 4e8f9099393d3169a61f5154852fe458b086838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 125/151] fix: outlines were leaked when an IDF file could not
 be read

---
 src/idf/idf_parser.cpp | 52 +++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf3260f..8bad8fc 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -2032,7 +2032,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create OTHER_OUTLINE object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2075,6 +2084,8 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__,
                                   "could not create ROUTE_OUTLINE object" ) );
 
+            // the list owns the outline even if it cannot be read
+            olnRoute.push_back( op );
             op->SetUnit( unit );
             op->readData( aBoardFile, iline, idfVer );
 
@@ -2090,8 +2101,6 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 }
             }
 
-            olnRoute.push_back( op );
-
             return;
         }
 
@@ -2108,6 +2117,8 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__,
                                   "could not create PLACE_OUTLINE object" ) );
 
+            // the list owns the outline even if it cannot be read
+            olnPlace.push_back( op );
             op->SetUnit( unit );
             op->readData( aBoardFile, iline, idfVer );
 
@@ -2123,8 +2134,6 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 }
             }
 
-            olnPlace.push_back( op );
-
             return;
         }
 
@@ -2141,6 +2150,8 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__,
                                   "could not create ROUTE_KEEPOUT object" ) );
 
+            // the list owns the outline even if it cannot be read
+            olnRouteKeepout.push_back( op );
             op->SetUnit( unit );
             op->readData( aBoardFile, iline, idfVer );
 
@@ -2156,8 +2167,6 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 }
             }
 
-            olnRouteKeepout.push_back( op );
-
             return;
         }
 
@@ -2174,6 +2183,8 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__,
                                   "could not create VIA_KEEPOUT object" ) );
 
+            // the list owns the outline even if it cannot be read
+            olnViaKeepout.push_back( op );
             op->SetUnit( unit );
             op->readData( aBoardFile, iline, idfVer );
 
@@ -2189,8 +2200,6 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 }
             }
 
-            olnViaKeepout.push_back( op );
-
             return;
         }
 
@@ -2207,6 +2216,8 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__,
                                   "could not create PLACE_KEEPOUT object" ) );
 
+            // the list owns the outline even if it cannot be read
+            olnPlaceKeepout.push_back( op );
             op->SetUnit( unit );
             op->readData( aBoardFile, iline, idfVer );
 
@@ -2222,8 +2233,6 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                 }
             }
 
-            olnPlaceKeepout.push_back( op );
-
             return;
         }
 
@@ -2241,7 +2250,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create PLACE_REGION object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2508,7 +2526,15 @@ void IDF3_BOARD::readLibSection( std::ifstream& aLibFile, IDF3::FILE_STATE& aLib
 
         if( CompareToken( ".ELECTRICAL", token ) || CompareToken( ".MECHANICAL", token ) )
         {
-            pout->readData( aLibFile, token, idfVer );
+            try
+            {
+                pout->readData( aLibFile, token, idfVer );
+            }
+            catch( ... )
+            {
+                delete pout;
+                throw;
+            }
 
             if( !comments.empty() )
             {
-- 
2.43.0


From f266bc72678853fc5357ff104b8691b252647afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 126/151] fix: idf2igs: components whose part is missing from
 the library no longer crash the conversion

---
 src/idf/idf2igs.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 139b7dc..bb57179 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -915,6 +915,13 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
         while( so != eo )
         {
+            // there is no outline if the part is missing from the library
+            if( NULL == (*so)->GetOutline() )
+            {
+                ++so;
+                continue;
+            }
+
             uid = ((IDF3_COMP_OUTLINE*)((*so)->GetOutline()))->GetUID().c_str();
             map<string, IGES_ENTITY_308*>::iterator outline =
                 componentList.find( uid );
-- 
2.43.0


From e7ed228a71bfe6ea70ea6eee1409093c84082613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 127/151] fix: idf2igs: parts without an outline no longer
 crash the conversion

---
 src/idf/idf2igs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index bb57179..d58b804 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -1135,7 +1135,7 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
     // note we defeat the 'const' attribute here
     IDF_OUTLINE* op = ((IDF3_COMP_OUTLINE*)idf)->GetOutline( 0 );
 
-    if( op->empty() )
+    if( NULL == op || op->empty() )
         return true;
 
     double th = idf->GetThickness();
-- 
2.43.0


From 15c74365dba134fd52379b601d4ba26ae1f135ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 128/151] fix: idf2igs: every OTHER_OUTLINE section gets an
 outline of its own

---
 src/idf/idf2igs.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index d58b804..ed288b0 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -981,8 +981,6 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
     std::map< std::string, OTHER_OUTLINE* >::const_iterator sc = comp->begin();
     std::map< std::string, OTHER_OUTLINE* >::const_iterator ec = comp->end();
 
-    DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
-
     while( sc != ec )
     {
         if( sc->second->OutlinesSize() < 1 )
@@ -991,6 +989,7 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
             continue;
         }
 
+        DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
         DLL_MCAD_OUTLINE  loop( false );    // individual outlines
         MCAD_OUTLINE* pIGS;
         list< MCAD_OUTLINE* > cutouts;
@@ -1067,7 +1066,6 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         if( !subfig.IsValid() )
         {
-            otln.Detach();
             delete [] surfs;
             ERROR_IDF << "\n + could not create a subfigure entity\n";
             return false;
@@ -1104,7 +1102,6 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
         ++sc;
     }
 
-    otln.Detach();
     return true;
 }
 
-- 
2.43.0


From 290a2a0307cb8b0e20bb49c1c7355bfecf399621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 129/151] fix: idf2igs: the faces of OTHER_OUTLINE solids point
 away from the material

---
 src/idf/idf2igs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index ed288b0..295144a 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -1051,15 +1051,15 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         if( bottom )
         {
-            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), -bt );
+            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -bt, -(th + bt) );
+            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, false );
             otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), true );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, true );
         }
         else
         {
             otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, bt );
             otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, false );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, false );
+            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, true );
         }
 
         DLL_IGES_ENTITY_308 subfig( model, true );
-- 
2.43.0


From d75e5755fc99e1d998a4360a4cc035ad2b85ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 130/151] fix: idf2igs: release the outlines and lists of
 surfaces

---
 src/idf/idf2igs.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 295144a..a502d55 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -351,7 +351,6 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
     otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, -th );
     otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
     otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -th, true );
-    otln.Detach();
 
     IGES_ENTITY_308* subfig;
 
@@ -374,6 +373,8 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
         e308.AddDE( (IGES_ENTITY *)surfs[i] );
     }
 
+    delete [] surfs;
+
     // add the name
     #ifdef ENABLE_TYPE_406
     DLL_IGES_ENTITY_406 e406( model, true );
@@ -1159,7 +1160,6 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
     otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, 0.0 );
     otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
     otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, 0.0, true );
-    otln.Detach();
 
     if( !newSubfigure( model, subfig ) )
     {
@@ -1180,6 +1180,8 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
         e308.AddDE((IGES_ENTITY *) surfs[i] );
     }
 
+    delete [] surfs;
+
     // add the name; note this dirty trick to work around retrieval of the UID
     #ifdef ENABLE_TYPE_406
     DLL_IGES_ENTITY_406 e406( model, true );
-- 
2.43.0


From 7e439986d2fb20121cff7f8505110c2304a6285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 131/151] fix: idf2igs: report failure when the board cannot be
 rendered completely or the file cannot be written

---
 src/idf/idf2igs.cpp | 69 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index a502d55..3d8c084 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -169,17 +169,35 @@ int main( int argc, char **argv )
     cerr << "Output file: '" << fname << "'\n";
 
     // STEP 1: Render the PCB alone
-    MakeBoard( pcb, model );
+    int result = 0;
+
+    if( !MakeBoard( pcb, model ) )
+    {
+        cerr << "** Failed to render the board\n";
+        result = -1;
+    }
 
     // STEP 2: Render the components
-    MakeComponents( pcb, model );
+    if( !MakeComponents( pcb, model ) )
+    {
+        cerr << "** Failed to render the components\n";
+        result = -1;
+    }
 
     // STEP 3: Render the OTHER outlines
-    MakeOtherOutlines( pcb, model );
+    if( !MakeOtherOutlines( pcb, model ) )
+    {
+        cerr << "** Failed to render the other outlines\n";
+        result = -1;
+    }
 
-    model.Write( fname.c_str(), true );
+    if( !model.Write( fname.c_str(), true ) )
+    {
+        cerr << "** Failed to write the output file\n";
+        result = -1;
+    }
 
-    return 0;
+    return result;
 }
 
 
@@ -222,17 +240,19 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
             if( scont != rcont )
                 loop.DelOutline();
 
+            killCutouts( cutouts );
             return false;
         }
 
         if( scont != rcont )
+        {
             cutouts.push_back( pIGS );
+            loop.Detach();
+        }
 
         ++scont;
     }
 
-    loop.Detach();
-
     // extract the board drill holes
     convertDrills( drills, &board.GetBoardDrills() );
 
@@ -330,27 +350,52 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
 
     while( sMO != eMO )
     {
-        otln.AddCutout( *sMO, true, dud );
+        if( !otln.AddCutout( *sMO, true, dud ) )
+        {
+            ERROR_IDF << "\n + fatal error encountered while attempting to add a cutout\n";
+            cutouts.erase( cutouts.begin(), sMO );
+            killDrills( drills );
+            killCutouts( cutouts );
+            return false;
+        }
+
         ++sMO;
     }
 
+    cutouts.clear();
     sDH = drills.begin();
     eDH = drills.end();
 
     while( sDH != eDH )
     {
-        otln.AddCutout( *sDH, false, dud );
+        if( !otln.AddCutout( *sDH, false, dud ) )
+        {
+            ERROR_IDF << "\n + fatal error encountered while attempting to add a drill hole\n";
+            drills.erase( drills.begin(), sDH );
+            killDrills( drills );
+            return false;
+        }
+
         ++sDH;
     }
 
+    drills.clear();
+
     // put in part and solid instance, names, and color
     // create the PCB model
     IGES_ENTITY_144** surfs = NULL;
     int nSurfs = 0;
     double th = 0.5 * board.GetBoardThickness();
-    otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, -th );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -th, true );
+
+    if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, -th )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -th, true ) )
+    {
+        ERROR_IDF << "\n + could not create the surfaces of the board\n";
+        delete [] surfs;
+        return false;
+    }
+
 
     IGES_ENTITY_308* subfig;
 
-- 
2.43.0


From 51bf2556c3dd65474b47369923b075b3a310a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 132/151] fix: idf2igs: report failure when an OTHER_OUTLINE or
 a component cannot be rendered, skip those without height

---
 src/idf/idf2igs.cpp | 58 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 3d8c084..c607a9a 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -1035,6 +1035,15 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
             continue;
         }
 
+        double th = sc->second->GetThickness();
+
+        if( th < 1e-3 )
+        {
+            ERRMSG << "\n + [INFO] bad thickness (" << th << ") in OTHER_OUTLINE\n";
+            ++sc;
+            continue;
+        }
+
         DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
         DLL_MCAD_OUTLINE  loop( false );    // individual outlines
         MCAD_OUTLINE* pIGS;
@@ -1063,17 +1072,19 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
                 if( scont != rcont )
                     loop.DelOutline();
 
+                killCutouts( cutouts );
                 return false;
             }
 
             if( scont != rcont )
+            {
                 cutouts.push_back( pIGS );
+                loop.Detach();
+            }
 
             ++scont;
         }
 
-        loop.Detach();
-
         // add all cutouts to the main outline
         bool dud = false;
         list< MCAD_OUTLINE* >::iterator sMO = cutouts.begin();
@@ -1081,10 +1092,19 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         while( sMO != eMO )
         {
-            otln.AddCutout( *sMO, true, dud );
+            if( !otln.AddCutout( *sMO, true, dud ) )
+            {
+                ERROR_IDF << "\n + could not add a cutout to an OTHER_OUTLINE\n";
+                cutouts.erase( cutouts.begin(), sMO );
+                killCutouts( cutouts );
+                return false;
+            }
+
             ++sMO;
         }
 
+        cutouts.clear();
+
         // put in part and solid instance, names, and color
         bool bottom = false;
 
@@ -1093,19 +1113,23 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         IGES_ENTITY_144** surfs = NULL;
         int nSurfs = 0;
-        double th = sc->second->GetThickness();
+
+        double top = th + bt;
+        double bot = bt;
 
         if( bottom )
         {
-            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -bt, -(th + bt) );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, false );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), true );
+            top = -bt;
+            bot = -(th + bt);
         }
-        else
+
+        if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, top, bot )
+            || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, top, false )
+            || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bot, true ) )
         {
-            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, bt );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, false );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, true );
+            ERROR_IDF << "\n + could not create the surfaces of an OTHER_OUTLINE\n";
+            delete [] surfs;
+            return false;
         }
 
         DLL_IGES_ENTITY_308 subfig( model, true );
@@ -1202,9 +1226,15 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
     IGES_ENTITY_144** surfs = NULL;
     int nSurfs = 0;
 
-    otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, 0.0 );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, 0.0, true );
+
+    if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, 0.0 )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, 0.0, true ) )
+    {
+        ERRMSG << "\n + [INFO] could not create the surfaces of a component outline\n";
+        delete [] surfs;
+        return false;
+    }
 
     if( !newSubfigure( model, subfig ) )
     {
-- 
2.43.0


From 154ce09d269c926a2fd470f3faac76c0413313ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 133/151] fix: idf2igs: chains of overlapping drill holes are
 merged in any order and failures are reported

---
 src/idf/idf2igs.cpp | 52 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index c607a9a..43e3a51 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -83,6 +83,8 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
 bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts );
 // delete drill data
 void killDrills( list< MCAD_SEGMENT* >& drills );
+// delete bundles of drills
+static void killBundles( list< list< MCAD_SEGMENT* >* >& bundles );
 // delete cutout data
 void killCutouts( list< MCAD_OUTLINE* >& cutouts );
 
@@ -658,6 +660,8 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
                             ERROR_IDF << "\n + [INFO] geometry error (flag = " << flag << ")\n";
                             seg0.Detach();
                             seg2.Detach();
+                            killBundles( bundles );
+                            error = true;
                             return false;
                         }
 
@@ -676,6 +680,8 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
             {
                 seg2.Detach();
                 ERROR_IDF << "\n + [INFO] geometry error (flag = " << flag << ")\n";
+                killBundles( bundles );
+                error = true;
                 return false;
             }
 
@@ -702,12 +708,15 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
         if( !bundleDrills( *sB, cutouts ) )
         {
             ERROR_IDF << "\n + [INFO] problems encountered while merging drill holes\n";
+            killBundles( bundles );
+            error = true;
             return false;
         }
 
         ++sB;
     }
 
+    killBundles( bundles );
     return true;
 }
 
@@ -771,24 +780,57 @@ bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts
 
     DLL_MCAD_OUTLINE op( true );
     bool dud = false;
-    op.AddSegment( drills->front(), dud );
-    cutouts.push_back( op.GetRawPtr() );
 
-    for( size_t i = 0; i < nd; ++i )
+    if( !op.AddSegment( drills->front(), dud ) )
+    {
+        ERROR_IDF << "\n + [INFO] could not merge drill holes\n";
+        return false;
+    }
+
+    drills->pop_front();
+
+    // a drill may only touch the outline after another one has been added
+    while( !dist.empty() )
     {
-        if( !op.AddOutline( dist[i].second, dud ) )
+        size_t i = 0;
+
+        while( i < dist.size() && !dud && !op.AddOutline( dist[i].second, dud ) )
+            ++i;
+
+        if( dud || i == dist.size() )
         {
             ERROR_IDF << "\n + [INFO] could not merge drill holes\n";
             return false;
         }
+
+        drills->remove( dist[i].second );
+        dist.erase( dist.begin() + i );
     }
 
+    cutouts.push_back( op.GetRawPtr() );
     op.Detach();
-    drills->clear();
     return true;
 }
 
 
+// delete bundles of drills
+static void killBundles( list< list< MCAD_SEGMENT* >* >& bundles )
+{
+    list< list< MCAD_SEGMENT* >* >::iterator sB = bundles.begin();
+    list< list< MCAD_SEGMENT* >* >::iterator eB = bundles.end();
+
+    while( sB != eB )
+    {
+        killDrills( **sB );
+        delete *sB;
+        ++sB;
+    }
+
+    bundles.clear();
+    return;
+}
+
+
 // delete drill data
 void killDrills( list< MCAD_SEGMENT* >& drills )
 {
-- 
2.43.0


From d0aff6039a03b5278ef1f653e9b82e88be56a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 134/151] fix: idf2igs: drill holes within other holes or
 cutouts and outside the board do not spoil the model

---
 src/idf/idf2igs.cpp | 134 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 133 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 43e3a51..d5efa26 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -83,8 +83,12 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
 bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts );
 // delete drill data
 void killDrills( list< MCAD_SEGMENT* >& drills );
+// true if the cutout, which does not intersect the main outline, is not within it
+static bool isOutside( DLL_IGES_GEOM_PCB& main, MCAD_OUTLINE* cutout );
 // delete bundles of drills
 static void killBundles( list< list< MCAD_SEGMENT* >* >& bundles );
+// delete drills which lie within another drill
+static void killNested( list< MCAD_SEGMENT* >& drills );
 // delete cutout data
 void killCutouts( list< MCAD_OUTLINE* >& cutouts );
 
@@ -346,13 +350,59 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
         ++sMO;
     }
 
+    // discard the remaining drills which do not remove any material:
+    // those outside the board (tooling holes of a panel) or within a cutout
+    sDH = drills.begin();
+    eDH = drills.end();
+
+    while( sDH != eDH )
+    {
+        MCAD_POINT pt;
+        DLL_MCAD_SEGMENT seg( false );
+        seg.Attach( *sDH );
+        seg.GetStart( pt );
+        bool skip = !otln.IsInside( pt, dud );
+
+        for( sMO = cutouts.begin(); sMO != cutouts.end() && !skip; ++sMO )
+        {
+            mO.Attach( *sMO );
+            skip = mO.IsInside( pt, dud );
+            mO.Detach();
+        }
+
+        if( skip )
+        {
+            seg.DelSegment();
+            sDH = drills.erase( sDH );
+            continue;
+        }
+
+        seg.Detach();
+        ++sDH;
+    }
+
     // add all cutouts and remaining drills to the main outline
     sMO = cutouts.begin();
     eMO = cutouts.end();
 
     while( sMO != eMO )
     {
-        if( !otln.AddCutout( *sMO, true, dud ) )
+        if( otln.SubOutline( *sMO, dud ) )
+        {
+            ++sMO;
+            continue;
+        }
+
+        // discard merged drills which lie outside the board
+        if( !dud && isOutside( otln, *sMO ) )
+        {
+            mO.Attach( *sMO );
+            mO.DelOutline();
+            ++sMO;
+            continue;
+        }
+
+        if( dud || !otln.AddCutout( *sMO, true, dud ) )
         {
             ERROR_IDF << "\n + fatal error encountered while attempting to add a cutout\n";
             cutouts.erase( cutouts.begin(), sMO );
@@ -442,6 +492,33 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
 }
 
 
+// true if the cutout, which does not intersect the main outline, is not within it
+static bool isOutside( DLL_IGES_GEOM_PCB& main, MCAD_OUTLINE* cutout )
+{
+    DLL_MCAD_OUTLINE cO( false );
+    DLL_MCAD_SEGMENT seg( false );
+    MCAD_SEGMENT** segs = NULL;
+    int nSegs = 0;
+    MCAD_POINT pt;
+    bool dud = false;
+    bool outside = false;
+
+    cO.Attach( cutout );
+
+    if( cO.GetSegments( segs, nSegs ) )
+    {
+        seg.Attach( segs[0] );
+        seg.GetStart( pt );
+        seg.Detach();
+        outside = !main.IsInside( pt, dud );
+    }
+
+    delete [] segs;
+    cO.Detach();
+    return outside;
+}
+
+
 // convert IDF outline to IGS outline
 bool convertOln( MCAD_OUTLINE* olnIGS, IDF_OUTLINE* olnIDF )
 {
@@ -572,6 +649,8 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
     if( drills.empty() )
         return false;
 
+    killNested( drills );
+
     list< MCAD_SEGMENT* >::iterator sD = drills.begin();
     list< MCAD_SEGMENT* >::iterator eD = drills.end();
     list< MCAD_SEGMENT* >::iterator iD;
@@ -813,6 +892,59 @@ bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts
 }
 
 
+// delete drills which lie within another drill
+static void killNested( list< MCAD_SEGMENT* >& drills )
+{
+    list< MCAD_SEGMENT* >::iterator sD = drills.begin();
+    DLL_MCAD_SEGMENT seg( false );
+    MCAD_POINT p0;
+    MCAD_POINT p1;
+    double r0 = 0.0;
+    double r1 = 0.0;
+
+    while( sD != drills.end() )
+    {
+        seg.Attach( *sD );
+        seg.GetCenter( p0 );
+        seg.GetRadius( r0 );
+        seg.Detach();
+
+        bool nested = false;
+        list< MCAD_SEGMENT* >::iterator iD = drills.begin();
+
+        while( iD != drills.end() && !nested )
+        {
+            if( iD != sD )
+            {
+                seg.Attach( *iD );
+                seg.GetCenter( p1 );
+                seg.GetRadius( r1 );
+                seg.Detach();
+
+                double dx = p1.x - p0.x;
+                double dy = p1.y - p0.y;
+                nested = sqrt( dx * dx + dy * dy ) + r0 <= r1 + 1e-8;
+            }
+
+            ++iD;
+        }
+
+        if( nested )
+        {
+            seg.Attach( *sD );
+            seg.DelSegment();
+            sD = drills.erase( sD );
+        }
+        else
+        {
+            ++sD;
+        }
+    }
+
+    return;
+}
+
+
 // delete bundles of drills
 static void killBundles( list< list< MCAD_SEGMENT* >* >& bundles )
 {
-- 
2.43.0


From 13be07cc4ea85df2d777c1b9df748212c8a2c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 135/151] fix: DLL_IGES_ENTITY_122::SetGeneratrixEnd sets all
 coordinates

---
 src/dllapi/dll_entity122.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_entity122.cpp b/src/dllapi/dll_entity122.cpp
index 0a6fb98..b2271b0 100644
--- a/src/dllapi/dll_entity122.cpp
+++ b/src/dllapi/dll_entity122.cpp
@@ -131,8 +131,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( MCAD_POINT pt )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = pt.x;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.y;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.z;
+    ((IGES_ENTITY_122*)m_entity)->LY = pt.y;
+    ((IGES_ENTITY_122*)m_entity)->LZ = pt.z;
     return true;
 }
 
@@ -143,8 +143,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( double aX, double aY, double aZ )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = aX;
-    ((IGES_ENTITY_122*)m_entity)->LX = aY;
-    ((IGES_ENTITY_122*)m_entity)->LX = aZ;
+    ((IGES_ENTITY_122*)m_entity)->LY = aY;
+    ((IGES_ENTITY_122*)m_entity)->LZ = aZ;
     return true;
 }
 
-- 
2.43.0


From a30329f5ab8181bfabd1eeb3eef4145ae8cfd04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 136/151] fix: DLL_IGES_ENTITY_308::GetDEList does not return
 entities which were replaced

---
 src/dllapi/dll_entity308.cpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 5fabaa0..3fe6132 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -113,26 +113,7 @@ bool DLL_IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    std::list< IGES_ENTITY* >* pDE = &((IGES_ENTITY_308*)m_entity)->DE;
-    std::vector< IGES_ENTITY* >* pvDE = &((IGES_ENTITY_308*)m_entity)->m_DE;
-
-    if( pDE->size() != pvDE->size() )
-    {
-        pvDE->clear();
-
-        std::list< IGES_ENTITY* >::iterator sDL = pDE->begin();
-        std::list< IGES_ENTITY* >::iterator eDL = pDE->end();
-
-        while( sDL != eDL )
-        {
-            pvDE->push_back( *sDL );
-            ++sDL;
-        }
-    }
-
-    aDESize = pvDE->size();
-    aDEList = &((*pvDE)[0]);
-    return true;
+    return ((IGES_ENTITY_308*)m_entity)->GetDEList( aDESize, aDEList );
 }
 
 
-- 
2.43.0


From b1ea33e23ba9d9ca9a173d27fe1226d7f003b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 137/151] fix: DLL_IGES_ENTITY_406: no access to an entity
 which does not exist

---
 src/dllapi/dll_entity406.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..e684432 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -96,6 +96,10 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
     const char *result = NULL;
+
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( ep->GetEntityForm() == 15 )
@@ -112,6 +116,9 @@ bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
     bool result = false;
 
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( (ep->GetEntityForm() == 15) && (aName != NULL) )
-- 
2.43.0


From d90eb481fc02d9bc934f06590d93cf6683468eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 138/151] fix: DLL_IGES::SetProductID_ReceivingSystem accepts a
 NULL pointer like the other functions

---
 src/dllapi/dll_iges.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..7ff68ee 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -639,7 +639,11 @@ bool DLL_IGES::SetProductID_ReceivingSystem( char const* aProductIDRS )
         return false;
     }
 
-    m_iges->globalData.productIDRS = aProductIDRS;
+    if( NULL == aProductIDRS || 0 == aProductIDRS[0] )
+        m_iges->globalData.productIDRS.clear();
+    else
+        m_iges->globalData.productIDRS = aProductIDRS;
+
     return true;
 }
 
-- 
2.43.0


From 69cc4d134e346fb8c9632597b9be35ce13d7394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 139/151] fix: DLL_IGES::NewIGESEntity returns the new entity

---
 src/dllapi/dll_iges.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 7ff68ee..b4bd9c0 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -364,7 +364,13 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
+    if( NULL == aEntityPointer )
+    {
+        ERRMSG << "\n + [BUG] invoked with NULL entity handle\n";
+        return false;
+    }
+
+    *aEntityPointer = NULL;
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
-- 
2.43.0


From 2f87f9c67fe3e7eff0bda1ab26693e7b61d7922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:46 +0000
Subject: [PATCH 140/151] fix: DLL_IGES_ENTITY::DelEntity removes the entity
 from its model

---
 src/dllapi/dll_iges_entity.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 49973f4..84dfaea 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -167,7 +167,12 @@ void DLL_IGES_ENTITY::DelEntity( void )
     if( m_valid && NULL != m_entity )
     {
         m_entity->DetachValidFlag( &m_valid );
-        delete m_entity;
+
+        // a model must not retain a pointer to the deleted entity
+        IGES* iges = m_entity->GetParentIGES();
+
+        if( NULL == iges || !iges->DelEntity( m_entity ) )
+            delete m_entity;
     }
 
     m_entity = NULL;
-- 
2.43.0


From 98a459ab07510149ae7c40a6059ec18c4f9699db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:46 +0000
Subject: [PATCH 141/151] fix: DLL_IGES::NewAPIEntity does not create a second
 entity and leaves nothing behind on failure

---
 src/dllapi/dll_iges.cpp | 52 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index b4bd9c0..277b782 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,103 +234,103 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
     case ENT_RIGHT_CIRCULAR_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, false );
         break;
 
     case ENT_SOLID_OF_LINEAR_EXTRUSION:
-        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, false );
         break;
 
     case ENT_BOOLEAN_TREE:
-        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, false );
         break;
 
     case ENT_MANIFOLD_SOLID_BREP:
-        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, false );
         break;
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
     case ENT_VERTEX:
-        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, false );
         break;
 
     case ENT_EDGE:
-        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, false );
         break;
 
     case ENT_LOOP:
-        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, false );
         break;
 
     case ENT_FACE:
-        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, false );
         break;
 
     case ENT_SHELL:
-        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, false );
         break;
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +338,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
-- 
2.43.0


From c1696bf04c1ce9202bc5f70083f364ca50acb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 142/151] fix: DLL_IGES_ENTITY: the parent flag is initialised

---
 src/dllapi/dll_iges_entity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 84dfaea..ebaaac8 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -42,6 +42,7 @@
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 {
     m_parent = aParent;
+    m_hasParent = false;
 
     if( NULL != aParent )
         m_parent->AttachValidFlag( &m_hasParent );
@@ -56,6 +57,7 @@ DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( DLL_IGES& aParent )
 {
     m_parent = aParent.GetRawPtr();
+    m_hasParent = false;
 
     if( NULL != m_parent )
         m_parent->AttachValidFlag( &m_hasParent );
-- 
2.43.0


From 0294dfde80043d42be6777bbf440e086af14339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 143/151] fix: DLL_IGES_GEOM_PCB::GetCurves and GetCurveOnPlane
 return the curves in the array

---
 src/dllapi/dll_iges_geom_pcb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..61becd3 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -228,7 +228,7 @@ bool DLL_IGES_GEOM_PCB::GetCurves( IGES* aModel, IGES_CURVE**& aCurveList, int&
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_CURVE* >::iterator sC = curves.begin();
-        std::list< IGES_CURVE* >::iterator eC = curves.begin();
+        std::list< IGES_CURVE* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -281,7 +281,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_ENTITY_126* >::iterator sC = curves.begin();
-        std::list< IGES_ENTITY_126* >::iterator eC = curves.begin();
+        std::list< IGES_ENTITY_126* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
-- 
2.43.0


From 2404b456cb3b94f6ef10e92fe35b17b05ba29a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 144/151] fix: DLL_IGES_GEOM_PCB::GetSegmentWall and
 GetCurveOnPlane: tests for a valid outline

---
 src/dllapi/dll_iges_geom_pcb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 61becd3..b9004b1 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -249,7 +249,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
@@ -301,7 +301,7 @@ bool DLL_IGES_GEOM_PCB::GetSegmentWall( IGES* aModel,
     IGES_ENTITY_144**& aSurfaceList, int& nSurfaces,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline || m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::vector< IGES_ENTITY_144* > surfs;
-- 
2.43.0


From 72f6945a158058e19ad5f1ff67a3e46554ddf199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:18 +0000
Subject: [PATCH 145/151] fix: GetIDFDate: two digits for day, hour, minute and
 second

---
 src/idf/idf_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 8bad8fc..2d8e037 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -52,8 +52,9 @@ static void GetIDFDate( string& date )
 
     ostringstream fileDate;
     fileDate << setfill( '0' ) << setw(4) << ltime.tm_year + 1900;
-    fileDate << "/" << setw(2) << ltime.tm_mon + 1 << "/" << ltime.tm_mday;
-    fileDate << "." << ltime.tm_hour << ":" << ltime.tm_min << ":" << ltime.tm_sec;
+    fileDate << "/" << setw(2) << ltime.tm_mon + 1 << "/" << setw(2) << ltime.tm_mday;
+    fileDate << "." << setw(2) << ltime.tm_hour << ":" << setw(2) << ltime.tm_min;
+    fileDate << ":" << setw(2) << ltime.tm_sec;
     date = fileDate.str();
 
     return;
-- 
2.43.0


From 085b968d9b445e1908d1392146feaff81741bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:00 +0000
Subject: [PATCH 146/151] fix: Entity 406: release the name of an instance
 whose form was refused

---
 src/entities/entity406.cpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/entities/entity406.cpp b/src/entities/entity406.cpp
index da688d5..64dd909 100644
--- a/src/entities/entity406.cpp
+++ b/src/entities/entity406.cpp
@@ -56,22 +56,10 @@ IGES_ENTITY_406::IGES_ENTITY_406( IGES* aParent ) : IGES_ENTITY( aParent )
 
 IGES_ENTITY_406::~IGES_ENTITY_406()
 {
-    // delete internal data
-    switch( form )
-    {
-        case 15:
-            if (data)
-            {
-                std::string *sp = (std::string *)data;
-                delete sp;
-                data = NULL;
-            }
-            break;
-
-        default:
-            ERRMSG << "\n + [WARNING] TO BE IMPLEMENTED\n";
-            break;
-    }
+    // delete internal data; this is always the string created by the
+    // constructor, including when readDE() found an unimplemented Form Number
+    delete (std::string *)data;
+    data = NULL;
 
     return;
 }   // ~IGES_ENTITY_406()
-- 
2.43.0


From eaaa7a62bc8de816d817c6b0a9f8c81b76e2e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:21 +0000
Subject: [PATCH 147/151] fix: Entity 508: release an edge which cannot be
 associated

---
 src/entities/entity508.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 3f115b3..5887f0b 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -126,6 +126,17 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 }
 
 
+// release an edge which was not accepted into the loop
+static void freeLoopData( LOOP_DATA* aData )
+{
+    for( size_t i = 0; i < aData->pcurves.size(); ++i )
+        delete aData->pcurves[i];
+
+    delete aData;
+    return;
+}
+
+
 bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
 {
     if( !IGES_ENTITY::associate(entities) )
@@ -159,6 +170,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
         {
             ERRMSG << "\n + [CORRUPT FILE] edge index exceeds number of entities in DE ";
             cerr << sequenceNumber << "\n";
+            freeLoopData( ldata );
             deItems.clear();
             return false;
         }
@@ -175,6 +187,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
             {
                 ERRMSG << "\n + [CORRUPT FILE] PS curve index exceeds number of entities in DE";
                 cerr << sequenceNumber << "\n";
+                freeLoopData( ldata );
                 deItems.clear();
                 return false;
             }
@@ -189,7 +202,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
 
         if( !AddEdge( ldata ) )
         {
-            delete ldata;
+            freeLoopData( ldata );
             ERRMSG << "\n + [INFO] could not add edge data for entity ";
             cerr << sequenceNumber << "\n";
             deItems.clear();
-- 
2.43.0


From 7986fc6dbc5d0885735d6fb307dec6273f9245d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:38 +0000
Subject: [PATCH 148/151] fix: Entity 514: read an open shell (form 2)

SetEntityForm() accepts the open shell of the standard, but a file with
one could not be read.
---
 src/entities/entity514.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index d2b8852..159bcb7 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -306,7 +306,7 @@ bool IGES_ENTITY_514::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     lineWeightNum = 0;              // N.A.
     colorNum = 0;                   // N.A.
 
-    if( form != 1 )
+    if( form != 1 && form != 2 )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Shell\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From ec008a37f5fc708aeaa84b91213a9d3aeede5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 149/151] fix: IDF_OUTLINE::IsCircle: an empty outline is no
 circle

It read the first segment of an empty list.
---
 src/idf/idf_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index f477671..58ca7f2 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -1318,7 +1318,7 @@ bool IDF_OUTLINE::IsCCW( void )
 // returns true if the outline is a circle
 bool IDF_OUTLINE::IsCircle( void )
 {
-    if( outline.front()->IsCircle() )
+    if( !outline.empty() && outline.front()->IsCircle() )
         return true;
 
     return false;
-- 
2.43.0


From 1bb109401b16c4864d8e2516108959fd166853cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:21 +0000
Subject: [PATCH 150/151] fix: IDF3::GetOutline: no segments make an empty
 outline

It read and removed the first item of an empty list.
---
 src/idf/idf_common.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 58ca7f2..bdc6c68 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -888,6 +888,9 @@ void IDF3::GetOutline( std::list<IDF_SEGMENT*>& aLines,
 {
     aOutline.Clear();
 
+    if( aLines.empty() )
+        return;
+
     // NOTE: To tell if the point order is CCW or CW,
     // sum all:  (endPoint.X[n] - startPoint.X[n])*(endPoint[n] + startPoint.Y[n])
     // If the result is >0, the direction is CW, otherwise
-- 
2.43.0


From e9bef34491eb8f74fde8470c8901a2ed85000879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:50 +0000
Subject: [PATCH 151/151] fix: Entity 144: a repeated cutout does not drop the
 surface without unlinking it

---
 src/entities/entity144.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 26c7503..bf0cd04 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -268,7 +268,6 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         if( dup )
         {
             ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-            PTS = NULL;
             iPTI.clear();
             return false;
         }
-- 
2.43.0

