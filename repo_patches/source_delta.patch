From d179c87081d0132b3f7c4d7777cba5fddd4bad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 001/135] fix: unset long and double features read as 0, not 10

---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 9a9deda6725d73405232785210ef5403e6388251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 002/135] fix: storing an invalid feature structure or one of
 another CAS throws InvalidFSObjectException

---
 src/cas/featurestructure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..3c01cab 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -193,7 +193,8 @@ namespace uima {
    * checks if anFS is an appropriate value for f.
    */
   void FeatureStructure::checkAppropFeature(Feature const & f, FeatureStructure const & anFS, TyMessageId tyContext) const {
-    if ( (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
+    // the views of one CAS share their heap; the address of an FS means nothing in another CAS
+    if ( !anFS.isValid() || iv_cas->getHeap() != anFS.iv_cas->getHeap() ) {
       UIMA_EXC_THROW_NEW(InvalidFSObjectException,
                          UIMA_ERR_INVALID_FS_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
-- 
2.43.0


From 595f4ae35227e949dd0d2f07322e66d26f3a7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 003/135] fix: an FSArray is an appropriate value for a feature
 of type TOP

---
 src/cas/featurestructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 3c01cab..be6d960 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -165,7 +165,7 @@ namespace uima {
       Type featType;
       f.getRangeType(featType);
       lowlevel::TyFSType featTypeCode = internal::FSPromoter::demoteType(featType);
-      if (aType != featTypeCode && !ts.subsumes(aType,featTypeCode) ) {
+      if (!ts.subsumes(featTypeCode, aType) && !ts.subsumes(aType,featTypeCode) ) {
         ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
         msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
         msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From e1ad1a98dee4ba379de8ac0d9493f78218c2ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 004/135] fix: cloning into an unrelated type copies nothing
 instead of reading past the source

---
 src/cas/featurestructure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index be6d960..d476201 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -257,7 +257,10 @@ namespace uima {
     lowlevel::TyFSType mcst = ts.getMostSpecificCommonSupertype( uima::internal::FSPromoter::demoteType(getType()),
                               uima::internal::FSPromoter::demoteType(t) );
     lowlevel::TyFeatureOffset featNum = ts.getFeatureNumber( mcst );
-    iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    // 0 would make copyFeatures() copy all features of the target type
+    if (featNum > 0) {
+      iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    }
     return newFS;
   }
 
-- 
2.43.0


From 0e96e88af938b80ea4b159861f0a27f36da8f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 005/135] fix: get/setStringValue refuse features not defined
 for the type

---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index d476201..36c714f 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -438,6 +438,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -453,6 +454,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     //!!! Not supporting External at this time. All strings added to StringHeap.
-- 
2.43.0


From d7109fe212a82df76fe2e8ba13fff54ed8ab76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 006/135] fix: getFSValue refuses boolean, byte, short, long
 and double features

---
 src/cas/featurestructure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 36c714f..b3e2aca 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -134,6 +134,11 @@ namespace uima {
     if ( rangeType == uima::internal::gs_tyIntegerType
          || rangeType == uima::internal::gs_tyFloatType
          || rangeType == uima::internal::gs_tyStringType
+         || rangeType == uima::internal::gs_tyBooleanType
+         || rangeType == uima::internal::gs_tyByteType
+         || rangeType == uima::internal::gs_tyShortType
+         || rangeType == uima::internal::gs_tyLongType
+         || rangeType == uima::internal::gs_tyDoubleType
          || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( rTS.getFeatureName( internal::FSPromoter::demoteFeature(crFeature) ) );
-- 
2.43.0


From f66736f2d0e704f4cf74f07e48b83750b5ae2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 007/135] fix: copyToArray/copyFromArray check the whole range
 against the array size

---
 src/cas/arrayfs.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..972488b 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -91,6 +91,25 @@ namespace uima {
     }
   }
 
+  /**
+   * checks that the elements [uiStart, uiStart+uiCount) exist; an empty range is
+   * accepted anywhere up to the end of the array.
+   */
+  void checkArrayRange(lowlevel::TyFS tyFS, lowlevel::FSHeap const * pFSSystem, size_t uiStart, size_t uiCount, TyMessageId tyContext) {
+    size_t uiSize = pFSSystem->getArraySize(tyFS);
+    if (uiStart > uiSize || uiCount > uiSize - uiStart) {
+      ErrorMessage err(UIMA_MSG_ID_EXC_ARRAY_OUT_OF_BOUNDS);
+      err.addParam(uiStart + uiCount);
+      err.addParam(uiSize);
+      UIMA_EXC_THROW_NEW(FSArrayOutOfBoundsException,
+                         UIMA_ERR_FS_ARRAY_OUT_OF_BOUNDS,
+                         err,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   /* ----------------------------------------------------------------------- */
   /*       BasicArrayFS                                                      */
   /* ----------------------------------------------------------------------- */
@@ -170,7 +189,7 @@ namespace uima {
     T* destArray,
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArrayRange(iv_tyFS, iv_cas->getHeap(), uiStart, uiEnd - uiStart, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
@@ -205,12 +224,10 @@ namespace uima {
     size_t uiEnd,
     size_t uiOffset) {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
-	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset+numelements-1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArrayRange(iv_tyFS, iv_cas->getHeap(), destOffset, numelements, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  if (typecode== uima::internal::gs_tyIntArrayType || 
-- 
2.43.0


From 637ba3f1655dd3310e6de3a4bdc82b311a92b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 008/135] fix: copying a string that lives on the string heap
 survives growth of that heap

---
 src/cas/uima/lowlevel_fsheap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 5d25ebc..8e3c3c2 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -364,9 +364,17 @@ namespace uima {
       int addString(UnicodeStringRef const & uls) {
         size_t l = uls.length();
         TyStringHeap & rtyStringHeap = getStringHeap();
+        // the string may itself live on the string heap, which can move when it grows
+        UChar const * cpBuffer = uls.getBuffer();
+        UChar const * cpHeap = rtyStringHeap.getHeapStart();
+        bool bOnHeap = cpBuffer >= cpHeap && cpBuffer < cpHeap + rtyStringHeap.getTopOfHeap();
+        size_t uiHeapOffset = bOnHeap ? cpBuffer - cpHeap : 0;
         int p = rtyStringHeap.increaseHeap(l + 1);
         assert( (int)(2*l) == uls.getSizeInBytes() );
-        memcpy(rtyStringHeap.getHeapStart()+p, uls.getBuffer(), uls.getSizeInBytes() );
+        if (bOnHeap) {
+          cpBuffer = rtyStringHeap.getHeapStart() + uiHeapOffset;
+        }
+        memcpy(rtyStringHeap.getHeapStart()+p, cpBuffer, uls.getSizeInBytes() );
         return p;
       }
 
-- 
2.43.0


From 66bd3648597a9e5e79bf6e6d2601072a16bb6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 009/135] fix: createFS refuses array types and string subtypes

---
 src/cas/cas.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 521cc8f..9a8081e 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -401,15 +401,23 @@ namespace uima {
                         );
     }
     uima::lowlevel::TyFSType tyType = internal::FSPromoter::demoteType(crType);
+    bool bCreatable = true;
     switch (tyType) {
     case uima::internal::gs_tyIntegerType:
     case uima::internal::gs_tyFloatType:
-    case uima::internal::gs_tyStringType:
     case uima::internal::gs_tyBooleanType:
     case uima::internal::gs_tyByteType:
     case uima::internal::gs_tyShortType:
     case uima::internal::gs_tyLongType:
-    case uima::internal::gs_tyDoubleType: {
+    case uima::internal::gs_tyDoubleType:
+      bCreatable = false;
+      break;
+    default:
+      // arrays have their own create methods: they need a size
+      bCreatable = !iv_heap->getTypeSystem().subsumes(internal::gs_tyStringType, tyType)
+                   && !iv_heap->getTypeSystem().subsumes(internal::gs_tyArrayBaseType, tyType);
+    }
+    if (!bCreatable) {
         ErrorMessage errMessage(UIMA_MSG_ID_EXC_COULD_NOT_CREATE_FS_FINAL_TYPE );
         errMessage.addParam( crType.getName() );
         UIMA_EXC_THROW_NEW(CouldNotCreateFSOfFinalTypeException,
@@ -418,9 +426,6 @@ namespace uima {
                            UIMA_MSG_ID_EXCON_CREATING_FS,
                            ErrorInfo::recoverable
                           );
-      }
-    default:
-      ;
     }
 
     // if new FS is annotation type, set the sofa feature
-- 
2.43.0


From 0234e42c43ff4b273f8e1d2f3989729f324d8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 010/135] fix: strings keep the length they were stored with
 (U+0000 no longer truncates)

---
 src/cas/cas.cpp                             |  6 +++---
 src/cas/featurestructure.cpp                |  2 +-
 src/cas/lowlevel_fsheap.cpp                 | 11 ++++++++---
 src/cas/uima/internal_fsvalue_accessors.hpp |  4 ++--
 src/cas/uima/lowlevel_fsheap.hpp            | 20 +++++++++++++++-----
 5 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 9a8081e..c3ee36e 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -440,19 +440,19 @@ namespace uima {
   int CAS::addString(UChar const * cpBuffer, size_t uiLength) {
     UnicodeStringRef uls( cpBuffer, uiLength );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
 
   int CAS::addString(icu::UnicodeString const & crString) {
     UnicodeStringRef uls( crString.getBuffer(), crString.length() );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   int CAS::addString(const UnicodeStringRef & uls) {
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   ArrayFS CAS::createArrayFS(size_t uiLength) {
diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index b3e2aca..4d36a1a 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -495,7 +495,7 @@ namespace uima {
 
 
 
-    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef );
+    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef, uls.length() );
   }
 
   /* ----------------------------------------------------------------------- */
diff --git a/src/cas/lowlevel_fsheap.cpp b/src/cas/lowlevel_fsheap.cpp
index 212c24a..05d26ca 100644
--- a/src/cas/lowlevel_fsheap.cpp
+++ b/src/cas/lowlevel_fsheap.cpp
@@ -114,6 +114,10 @@ namespace uima {
 
 
     void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef) {
+      setStringValue(tyFs, tyFeature, strRef, u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef));
+    }
+
+    void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef, size_t uiLength) {
       assert( iv_rclTypeSystem.isValidFeature(tyFeature) );
       assert( iv_rclTypeSystem.subsumes(uima::internal::gs_tyStringType, iv_rclTypeSystem.getRangeType(tyFeature)));
 
@@ -139,10 +143,10 @@ namespace uima {
       TyFS tyCurrentString = getFeatureInternal( tyFs, tyFeature );
       if (tyCurrentString == 0) {
         // add entry to StringRefHeap and set values there
-        tyCurrentString = getStringAsFS(strRef);
+        tyCurrentString = getStringAsFS(strRef, uiLength);
       } else {
         // reuse entry in StringRefHeap
-        setStringRef(tyCurrentString, strRef);
+        setStringRef(tyCurrentString, strRef, uiLength);
       }
 
       setFeatureInternal(tyFs, tyFeature, tyCurrentString);
@@ -163,7 +167,8 @@ namespace uima {
           // if string value set, create duplicate reference to string in refHeap
           if (strRef != 0) {
             int ref = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1));
-            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref));
+            int len = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1) + 1);
+            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref, len));
           }
         } else {
           iv_clTemporaryHeap.setHeapValue(tyTarget+i, iv_clTemporaryHeap.getHeapValue(tySource+i));
diff --git a/src/cas/uima/internal_fsvalue_accessors.hpp b/src/cas/uima/internal_fsvalue_accessors.hpp
index b2bf1e6..41fe71a 100644
--- a/src/cas/uima/internal_fsvalue_accessors.hpp
+++ b/src/cas/uima/internal_fsvalue_accessors.hpp
@@ -93,7 +93,7 @@ namespace uima {
     }
     inline void setFSValueTempl(uima::CAS * cas, lowlevel::TyFS tyFS, lowlevel::TyFSFeature tyFeat, UnicodeStringRef const & val) {
       int ulsHeap = cas->getHeap()->addString(val);
-      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap );
+      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap, val.length() );
       assert( cas->getHeap()->getStringValue(tyFS, tyFeat) == val );
     }
 
@@ -120,7 +120,7 @@ namespace uima {
         uima::lowlevel::FSHeap & heap,
         lowlevel::TyHeapCell offset) {
       int ulsHeap = heap.addString(s);
-      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap );
+      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap, s.length() );
       return (lowlevel::TyHeapCell)tyStringFS;
       //  return (lowlevel::TyHeapCell) ulsHeap;
     }
diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 8e3c3c2..fadef87 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -148,7 +148,8 @@ namespace uima {
        * at pointerIntoStringRefHeap to point to s.
        */
       void setStringRef(TyFS offsetIntoStringRefHeap,
-                        TyFS offsetIntoStringHeap);
+                        TyFS offsetIntoStringHeap,
+                        size_t uiLength);
 
       TyFSHeap& getHeap() {
         return iv_clTemporaryHeap;
@@ -576,6 +577,11 @@ namespace uima {
        */
       TyFS getStringAsFS(int crStringRef);
 
+      /**
+       * same for a string of known length, which may contain U+0000.
+       */
+      TyFS getStringAsFS(int crStringRef, size_t uiLength);
+
       /*@}*/
 
       /*@{*/
@@ -585,6 +591,7 @@ namespace uima {
       void setIntValue(TyFS, TyFSFeature, int);
       void setFloatValue(TyFS, TyFSFeature, float);
       void setStringValue(TyFS, TyFSFeature, int strRef);
+      void setStringValue(TyFS, TyFSFeature, int strRef, size_t uiLength);
 
       void setByteValue(TyFS, TyFSFeature, char );
       void setShortValue(TyFS, TyFSFeature, short );
@@ -738,7 +745,7 @@ namespace uima {
       iv_clTemporaryHeap.setHeapValue(tyFs + tyOffset, tyValue);
     }
 
-    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef) {
+    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef, size_t uiLength) {
       // convert from logical string offset to absolute offset into refHeap
       strHeapRef = 1 + 2*(strHeapRef-1);
 
@@ -746,8 +753,7 @@ namespace uima {
       iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef, strRef);
 
       // set length
-      iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef+1,
-          u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef) );
+      iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef+1, uiLength);
     }
 
     inline UnicodeStringRef FSHeap::getFSAsString(TyFS tyFS) const {
@@ -763,11 +769,15 @@ namespace uima {
     }
 
     inline TyFS FSHeap::getStringAsFS(int crStringRef) {
+      return getStringAsFS(crStringRef, u_strlen(iv_clTemporaryStringHeap.getHeapStart()+crStringRef));
+    }
+
+    inline TyFS FSHeap::getStringAsFS(int crStringRef, size_t uiLength) {
       // increase string ref heap by 2
       TyFS stringRef = iv_clTemporaryStringRefHeap.increaseHeap(2);
       // convert to local string offset
       stringRef = 1 + ((stringRef-1)/2);
-      setStringRef(stringRef, crStringRef);
+      setStringRef(stringRef, crStringRef, uiLength);
       return stringRef;
     }
 
-- 
2.43.0


From 607e4ac25d7096da7c4e46b117b8183e73b4ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 011/135] fix: numeric accessors refuse features of type TOP

---
 src/cas/featurestructure.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 4d36a1a..406aaff 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -154,6 +154,21 @@ namespace uima {
     }
   }
 
+  static bool isPrimitiveType(lowlevel::TyFSType aType) {
+    switch (aType) {
+    case uima::internal::gs_tyIntegerType:
+    case uima::internal::gs_tyFloatType:
+    case uima::internal::gs_tyBooleanType:
+    case uima::internal::gs_tyByteType:
+    case uima::internal::gs_tyShortType:
+    case uima::internal::gs_tyLongType:
+    case uima::internal::gs_tyDoubleType:
+      return true;
+    default:
+      return false;
+    }
+  }
+
   /**
    * checks if the range type of the feature subsumes the aType.
    * In other words, checks if an FS of aType is an appropriate value for f.
@@ -181,7 +196,10 @@ namespace uima {
                            ErrorInfo::recoverable
                           );
       }
-    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType ) ) {
+    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType )
+                // primitive values are no feature structures: TOP does not accept them
+                || ( ts.getRangeType(internal::FSPromoter::demoteFeature(f)) != aType
+                     && isPrimitiveType(aType) ) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
       msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From 77035d1f80fe5c1a438fe261059c2e7c1ce0aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 012/135] fix: list feature accessors refuse invalid structures
 and features not defined for the type

---
 src/cas/featurestructure.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 406aaff..a842eab 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -561,6 +561,8 @@ namespace uima {
   /* ----------------------------------------------------------------------- */
 
   bool FeatureStructure::hasListElements(Feature const & f) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
     Type tRangeType;
     f.getRangeType(tRangeType);
     lowlevel::TyFSFeature tyRangeType = internal::FSPromoter::demoteType(tRangeType);
@@ -592,18 +594,26 @@ namespace uima {
   }
 
   ListFS FeatureStructure::getListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return ListFS::getListFSValue(*this, f);
   }
 
   FloatListFS FeatureStructure::getFloatListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return FloatListFS::getListFSValue(*this, f);
   }
 
   IntListFS FeatureStructure::getIntListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return IntListFS::getListFSValue(*this, f);
   }
 
   StringListFS FeatureStructure::getStringListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return StringListFS::getListFSValue(*this, f);
   }
 
-- 
2.43.0


From 8b55035b2b385e0c52be77f550981d719975db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 013/135] fix: a sorted index removes the given feature
 structure, not one with the same or a greater key

---
 src/cas/lowlevel_internal_indexes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..a78051d 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -649,8 +649,8 @@ namespace uima {
       }
 
       void OrderedSingleIndex::remove(TyFS fs) {
-        IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
-        TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
+        // several elements may compare equal to fs: erase fs itself
+        TyStructures::iterator it = std::find( iv_tyStructures.begin(), iv_tyStructures.end(), fs);
         if ( it != iv_tyStructures.end() ) {
           iv_tyStructures.erase(it);
         }
-- 
2.43.0


From 6d33263ef5b9223b0e07a7718e218804483f2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 014/135] fix: removing a feature structure from a set index
 keeps another one with the same key

---
 src/cas/uima/lowlevel_internal_indexes.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 9abe1c2..dbd263f 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -206,7 +206,10 @@ namespace uima {
         }
         void remove(TyFS fs) {
           assert( EXISTS(iv_pStructures) );
-          (void) iv_pStructures->erase(fs);
+          TyStructures::iterator it = iv_pStructures->find(fs);
+          if (it != iv_pStructures->end() && *it == fs) {
+            iv_pStructures->erase(it);
+          }
         }
 
         void reset();
-- 
2.43.0


From 36a6422a185b99681cb307f70fe1245266a933d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 015/135] fix: a removal is seen by iterators over the index of
 a supertype

---
 src/cas/uima/lowlevel_indexrepository.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..ba57278 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -267,6 +267,8 @@ namespace uima {
       assert( iv_bIsInitialized );
       TyFSType type = iv_rFSHeap.getType(fs);
       UIMA_TPRINT("Removing fs of type " << iv_rFSHeap.getTypeSystem().getTypeName(type) << ": " << (int) fs);
+      assert( type < iv_cacheDirtyFlags.size() );
+      iv_cacheDirtyFlags[type].clear();
       assert( type < iv_indexes.size() );
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
-- 
2.43.0


From e4bd5f5df09e78802ac94c1ed33d10b0735fe153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 016/135] fix: a set index over several types iterates in
 comparator order, so moveTo finds its place

---
 src/cas/lowlevel_internal_indexes.cpp      | 2 +-
 src/cas/uima/lowlevel_internal_indexes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index a78051d..8d5a86a 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -555,7 +555,7 @@ namespace uima {
       SetCompositeIndex::SetCompositeIndex(IndexRepository const & crIndexRepository,
                                            uima::lowlevel::TyFSType tyType,
                                            IndexComparator const * aComparator)
-          : CachedCompositeIndex<set<TyFS> >(crIndexRepository, tyType, aComparator) {}
+          : OrderedCompositeIndex(crIndexRepository, tyType, aComparator) {}
 
 
 
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index dbd263f..93ae8e4 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -390,7 +390,7 @@ namespace uima {
       /**
        * A composite set index.
        */
-      class SetCompositeIndex : public CachedCompositeIndex<std::set<TyFS> > {
+      class SetCompositeIndex : public OrderedCompositeIndex {
       protected:
       public:
         SetCompositeIndex(IndexRepository const & aIndexRepository,
-- 
2.43.0


From 40ea49579506d511367cd18c1fa16440b95ef101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 017/135] fix: moveTo in a bag index moves to the given feature
 structure, not past it

---
 src/cas/lowlevel_internal_indexes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 8d5a86a..e48c87a 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -165,9 +165,6 @@ namespace uima {
 
           if (iv_cpComparator == NULL) {
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
           } else {
             // first try to find the same fs
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-- 
2.43.0


From a473c7b4492089030a739d04cbfeb473831cae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 018/135] fix: moveTo past the last element leaves the iterator
 invalid instead of where it was

---
 src/cas/lowlevel_internal_indexes.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index e48c87a..74996e1 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -175,13 +175,9 @@ namespace uima {
             }
           }
 
-          bool bCanBeSet = ( cit != iv_crStructures.end() );
-          if (bCanBeSet) {
-            iv_it = cit;
-            return true;
-          } else {
-            return false;
-          }
+          // past the end: the iterator is no longer valid
+          iv_it = cit;
+          return isValid();
         }
 
       };
-- 
2.43.0


From fa8f44f1fc76934941cfde4d515fd3020d24a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 019/135] fix: moveTo of a filtered iterator does not stop at a
 filtered feature structure

---
 src/cas/lowlevel_index.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..e4f5fd0 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -172,7 +172,9 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        iv_pIterator->moveTo(fs);
+        moveToNextUnfiltered();
+        return isValid();
       }
 
     };
-- 
2.43.0


From c92f288d1c7eba5dce9bae4f0e7866c1c72bfcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 020/135] fix: a type set iterator over the index of a type
 without subtypes honours the type set

---
 src/cas/lowlevel_internal_indexes.cpp      | 4 ++++
 src/cas/uima/lowlevel_internal_indexes.hpp | 8 +-------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 74996e1..69655d4 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -558,6 +558,10 @@ namespace uima {
                                TyFSType tyType)
           : IndexABase(crIndexRepository, tyType) {}
 
+      IndexIterator* SingleIndex::createTypeSetIterator(set<uima::lowlevel::TyFSType> const & crTypes) const {
+        return new TypeSetIterator( createIterator(), crTypes );
+      }
+
       // generic implementation here, may be optimized for subclasses
       bool SingleIndex::contains(TyFS tyFS) const {
         unique_ptr<IndexIterator> it( createIterator() );
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 93ae8e4..75c6c4f 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -91,13 +91,7 @@ namespace uima {
          */
         virtual bool contains(TyFS) const;
 
-        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crType) const {
-          assert( crType.size() <= 1 );
-          if (crType.size() == 1) {
-            assert( *(crType.begin()) == getType() );
-          }
-          return createIterator();
-        }
+        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crType) const;
       };
 
 
-- 
2.43.0


From 3cd7159fb3507720f2ca5088edeba80877e82824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 021/135] fix: copying a default-constructed iterator gives an
 invalid iterator instead of a crash

---
 src/cas/fsiterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index deb54e5..b8ca987 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -76,7 +76,9 @@ namespace uima {
     }
     iv_pIterator = NULL;
     iv_cas = crOther.iv_cas;
-    iv_pIterator = crOther.iv_pIterator->clone();
+    if (crOther.iv_pIterator != NULL) {
+      iv_pIterator = crOther.iv_pIterator->clone();
+    }
     return *this;
   }
 
-- 
2.43.0


From 397a94cb6125e45592ce9c170e34b5bdeda8c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 022/135] fix: an unknown index label is refused with an
 exception instead of reading past the index map

---
 src/cas/uima/lowlevel_indexdefinition.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexdefinition.hpp b/src/cas/uima/lowlevel_indexdefinition.hpp
index e24a25a..2b3efab 100644
--- a/src/cas/uima/lowlevel_indexdefinition.hpp
+++ b/src/cas/uima/lowlevel_indexdefinition.hpp
@@ -192,6 +192,9 @@ namespace uima {
       TyFSType getTypeForIndex(TyIndexID const & crID) const {
         //assert( isValidIndexId(crID) );
 	std::map<TyIndexID, TyFSType>::const_iterator cit = iv_mapIndexTypes.find(crID);
+        if (cit == iv_mapIndexTypes.end()) {
+          return uima::lowlevel::TypeSystem::INVALID_TYPE;
+        }
         return (*cit).second;
       }
 
-- 
2.43.0


From f1ff336b42813a546f8413d20900bb0074f344d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 023/135] fix: XMI keeps every digit of float and double
 values, infinities and NaN

---
 src/cas/xmideserializer_handler.cpp | 12 ++----------
 src/cas/xmiwriter.cpp               | 30 ++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 34fae1d..a561e3f 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -741,11 +741,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << buffer;
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, atof(buffer.c_str()));
         break;
       }
     default: {    //array of FSs
@@ -888,11 +884,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          long double doubleval;
-          stringstream s;
-          s << strval.c_str();
-          s >> doubleval;
-          fs.setDoubleValue(feat, doubleval );
+          fs.setDoubleValue(feat, atof(strval.c_str()));
         }
         break;
       }	  
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c462c8e..2576768 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -66,6 +66,22 @@ namespace uima {
   ////////////////////////////////////////////////////////////////////////
   // XmiWriter
 
+  // Writes a float or double with all the digits needed to read the same value back.
+  static void writeReal(ostream & os, double val, int digits) {
+    if (val != val) {
+      os << "NaN";
+    } else if (val - val != 0) {
+      os << (val > 0 ? "Infinity" : "-Infinity");
+    } else {
+      stringstream str;
+      str.precision(digits);
+      str << val;
+      os << str.str();
+    }
+  }
+  static const int FLOAT_DIGITS = 9;
+  static const int DOUBLE_DIGITS = 17;
+
   XmiWriter::XmiWriter(CAS const & cas, bool addDocument)
       : XMLWriterABase(cas, addDocument),  sharedData(0),
       iv_stringType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_STRING) ),
@@ -364,7 +380,8 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      writeReal(os, fs.getFloatValue(f), FLOAT_DIGITS);
+      os << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -383,9 +400,8 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      writeReal(os, fs.getDoubleValue(f), DOUBLE_DIGITS);
+      os << "\"";
     } else {
      
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -445,7 +461,7 @@ namespace uima {
         FloatArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          writeReal(str, arrayfs.get(i), FLOAT_DIGITS);
           if (i+1 < n) {         
             str << " ";
           }
@@ -506,7 +522,7 @@ namespace uima {
         DoubleArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          writeReal(str, arrayfs.get(i), DOUBLE_DIGITS);
           if (i+1 < n) {         
             str << " ";
           }
@@ -1088,7 +1104,7 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEFloatListType: {
       FloatListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        str << curNode.getHead();
+        writeReal(str, curNode.getHead(), FLOAT_DIGITS);
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
-- 
2.43.0


From 5597bc6a0f325052d84175a1ddb7234d92dff1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 024/135] fix: XMI strings held as UTF-8 are decoded as UTF-8,
 not with the default converter

---
 src/cas/xmideserializer_handler.cpp | 6 +++---
 src/cas/xmiwriter.cpp               | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index a561e3f..d797c5b 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -696,7 +696,7 @@ namespace uima {
     case internal::gs_tyStringArrayType: {
         //add the striug
 				StringArrayFS strFS(fs);
-				icu::UnicodeString strval(buffer.c_str());
+				icu::UnicodeString strval(icu::UnicodeString::fromUTF8(buffer));
 				strFS.set( (size_t) arrayPos,strval);
 				break;
     }
@@ -1038,7 +1038,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   } else {
 			   Type type = internal::FSPromoter::promoteType(rangeTypeCode,
 				   iv_cas->getTypeSystem().getLowlevelTypeSystem());
-				 icu::UnicodeString val(featVals.at(0).c_str());
+				 icu::UnicodeString val(icu::UnicodeString::fromUTF8(featVals.at(0)));
 			   handleFeature(type,		   
 				   addr, featCode,val, true);
 		   }
@@ -1148,7 +1148,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
   int XmiDeserializerHandler::createStringList(vector<string>& stringList)	{   
     StringListFS listFS =   iv_cas->createStringListFS();
     for (size_t i = 0; i < stringList.size(); i++ ) {
-      icu::UnicodeString value(stringList.at(i).c_str()); //use xmiId to look up addr
+      icu::UnicodeString value(icu::UnicodeString::fromUTF8(stringList.at(i))); //use xmiId to look up addr
 	    listFS.addLast(value);
     }
 	  return internal::FSPromoter::demoteFS(listFS);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 2576768..9104c54 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -760,7 +760,7 @@ namespace uima {
       for (size_t a=0; a < oed->attributes.size(); a++) {
         XmlAttribute * attr = oed->attributes.at(a);
         icu::UnicodeString us;
-        icu::UnicodeString av(attr->value.c_str());
+        icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
         normalize( av, us );
         os << " " << attr->name << "=\"" << us << "\"";
       }
@@ -771,7 +771,7 @@ namespace uima {
           vector<string> * values = ite->second;
           for (size_t v=0; v < values->size();v++) {
             icu::UnicodeString us;
-            icu::UnicodeString av(values->at(v).c_str());
+            icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
             normalize( av, us );
             strcontent << " <" << ite->first 
               << ">" << us
@@ -1222,7 +1222,7 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
     for (size_t a=0; a < oed->attributes.size();a++) {
       XmlAttribute * attr = oed->attributes.at(a);
       icu::UnicodeString us;
-      icu::UnicodeString av(attr->value.c_str());
+      icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
       normalize( av, us );
       os << " " << attr->name << "=\"" << us << "\"";
     }
@@ -1234,7 +1234,7 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
         vector<string> * values = ite->second;
         for (size_t v=0; v < values->size(); v++) {
 	        icu::UnicodeString us;
-			icu::UnicodeString av(values->at(v).c_str());
+			icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
 			normalize( av, us );
           os << " <" << ite->first << ">";
           os << us;
-- 
2.43.0


From a50326acccadbcf76e79d82d93662044b760aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 025/135] fix: an XMI array element does not inherit the
 elements or the id of the array before it

---
 src/cas/xmideserializer_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index d797c5b..0dfb754 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -466,8 +466,8 @@ namespace uima {
 			} else if (iv_cas->getTypeSystem().isArrayType(internal::FSPromoter::demoteType(type)) ) {
 				
         icu::UnicodeString attrName; 
-				int xmiId=0;
-				icu::UnicodeString elements;
+				currentArrayId = -1;
+				currentArrayElements.remove();
 				for (size_t i = 0; i < attrs.getLength(); i++) {
 						attrName =  attrs.getQName(i);
 						if (attrName.compare(XMI_ID_ATTR_NAME) == 0) {
-- 
2.43.0


From a17f8f660215ba29ce05dd76613a1ea45e83986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 026/135] fix: XMI writes a null element of an FSArray or
 FSList as 0 instead of leaving it out

---
 src/cas/xmiwriter.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 9104c54..2e7a8cf 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -544,17 +544,16 @@ namespace uima {
             // However, this null array element might have been a reference to an 
             //out-of-typesystem FS, so check the ootsArrayElementsList
             if (ootsList != NULL) {
-              while (ootsIndex < ootsList->size()) {
-                XmiArrayElement * arel = ootsList->at(ootsIndex++);
-                if (arel->index == j) {
-                  str << arel->xmiId;
+              for (ootsIndex = 0; ootsIndex < ootsList->size(); ootsIndex++) {
+                XmiArrayElement * arel = ootsList->at(ootsIndex);
+                if ((size_t) arel->index == j) {
+                  xmiId = arel->xmiId;
                   break;
                 }                
               }
             }
-          } else {
-            str << xmiId;
           }
+          str << xmiId;
           if (j+1 < size) {         
             str << " ";
           }
@@ -1144,6 +1143,8 @@ void XmiWriter::write(ostream & os) {
               XmlAttribute *  attr = oed->attributes.at(0);
               assert(attr->name.compare(CAS::FEATURE_BASE_NAME_HEAD)==0);
               str << attr->value;
+            } else {
+              str << head;
             }
           } else {
             str << head;
-- 
2.43.0


From 95c0aa63f08948cf71e85ec5fda5ef6d0d31978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 027/135] fix: XMI keeps empty arrays and empty lists

---
 src/cas/xmiwriter.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 2e7a8cf..512938f 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -600,13 +600,11 @@ namespace uima {
   }
 
   void XmiWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag, int xmiid) {
-    if (array.size() > 0) {
       //XCAS os << " size=\"" << array.size() << "\">" << endl;
       os << " <" << tag;
       os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
         os << arrayToString(array, "elements").c_str();
         os << "</" << tag << ">" << endl;
-    } 
   }
 
   void XmiWriter::writeFSFlat(ostream & os,
@@ -623,9 +621,7 @@ namespace uima {
    
     // if array
     if ( iv_arrayType.subsumes(t) ) {
-      const CAS* ccasp = &iv_cas;
-      CAS* casp = const_cast<CAS*> (ccasp);
-        if (casp->getHeap()->getArraySize(internal::FSPromoter::demoteFS(fs)) >0) {
+        {
             if ( t == iv_intArrayType ) {
                 writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
             } else if ( t == iv_floatArrayType ) {
@@ -685,6 +681,8 @@ namespace uima {
             StringArrayFS arrayFS = fs.getStringArrayFSValue(f);
             if (arrayFS.isValid() && arrayFS.size() > 0) {
               strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+            } else if (arrayFS.isValid()) {
+              os << " " << f.getName() << "=\"\"";
             }
           }
           break;                             
@@ -735,8 +733,10 @@ namespace uima {
             } else {
               if (fs.getFSValue(f).isValid()) {
                 string str = listToString(fs.getFSValue(f), f.getName().asUTF8().c_str());          
-                if (listFS.isValid() && str.length() > 0) {
+                if (str.length() > 0) {
                   strcontent << str;
+                } else {
+                  os << " " << f.getName() << "=\"\"";
                 }
               }
             }
@@ -1118,8 +1118,11 @@ void XmiWriter::write(ostream & os) {
       }
       break;
                                          }
+    case internal::gs_tyEIntListType:
+    case internal::gs_tyEFloatListType:
+    case internal::gs_tyEStringListType:
     case internal::gs_tyEListType: {
-      //cout << "listToString() Empty FSList SKIP"  << endl;
+      //an empty list has no elements to write
       break;
                                    }
     case internal::gs_tyFSListType: {
-- 
2.43.0


From 23869c3837fa8cc7734d3b58ad0a403267617483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 028/135] fix: a clash of XMI namespace prefixes no longer puts
 a line break into the prefix

---
 src/cas/xmiwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 512938f..7e4e1b6 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -272,7 +272,7 @@ namespace uima {
      while (prefixIte != nsPrefixesUsed.end()) {
        num++;
        stringstream basePrefix;
-       basePrefix << prefix << num << endl;
+       basePrefix << prefix << num;
        prefixIte = nsPrefixesUsed.find(basePrefix.str());
        if (prefixIte == nsPrefixesUsed.end() ) {
          prefix = basePrefix.str();
-- 
2.43.0


From 6be49fa13d17fc990ec55c733ab7795939862fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 029/135] fix: an XmiWriter can write a changed CAS again and
 releases what it collected

---
 src/cas/uima/xmiwriter.hpp |  1 +
 src/cas/xmiwriter.cpp      | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/cas/uima/xmiwriter.hpp b/src/cas/uima/xmiwriter.hpp
index 8e3966e..4b9fc17 100644
--- a/src/cas/uima/xmiwriter.hpp
+++ b/src/cas/uima/xmiwriter.hpp
@@ -114,6 +114,7 @@ namespace uima {
     bool enqueueIndexed(FeatureStructure const &fs, int sofa);
     bool enqueueUnindexed(FeatureStructure const &fs);
     bool enqueueUnindexed(int id);
+    void clear();
     void initTypeAndNamespaceMappings();
     void writeViews(std::ostream & os, CAS const & crCAS);
     void writeView(std::ostream & os,int sofaXmiId, std::vector<lowlevel::TyFS>& members);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 7e4e1b6..20034b3 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -163,16 +163,21 @@ namespace uima {
   }
 
   XmiWriter::~XmiWriter() {
-    for (size_t i = 0; i < enqueuedFS.size(); i++) {
-      vector<int> * indexes = (vector<int>*) enqueuedFS[i];
-      if (indexes != 0)
-        delete indexes;
+    clear();
+  }
+
+  // Drops what an earlier write() collected.
+  void XmiWriter::clear() {
+    for (map<int, vector<int>*>::iterator it = enqueuedFS.begin(); it != enqueuedFS.end(); ++it) {
+      delete it->second;
     }
+    enqueuedFS.clear();
     for (size_t i = 0; i < xmiTypeNames.size(); i++) {
-      if (xmiTypeNames.at(i) != 0) {
-        delete xmiTypeNames.at(i);
-      }
+      delete xmiTypeNames[i];
     }
+    xmiTypeNames.clear();
+    nsUriToPrefixMap.clear();
+    nsPrefixesUsed.clear();
   }
 
  /**
@@ -878,6 +883,7 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
 
 void XmiWriter::write(ostream & os) {
 
+  clear();
   //build xmlTypeNames and nsUri to prefix mapping
   initTypeAndNamespaceMappings();
   //enqueue every FS that was deserialized into this CAS
-- 
2.43.0


From a0e5d3d942d57fa2a858db4d14d19460016ed523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 030/135] fix: a tab in a string survives XML serialization as
 an attribute value

---
 src/cas/xmlwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index cbd305b..af0f332 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -81,6 +81,7 @@ namespace uima {
     static icu::UnicodeString const ustrQUOT_ESC("&quot;");
     static icu::UnicodeString const ustrCR_ESC("&#13;");
     static icu::UnicodeString const ustrLF_ESC("&#10;");
+    static icu::UnicodeString const ustrTAB_ESC("&#9;");
 
     static UChar const uAMP('&');
     static UChar const uGT('>');
@@ -89,6 +90,7 @@ namespace uima {
     static UChar const uQUOT('"');
     static UChar const uCR('\r');
     static UChar const uLF('\n');
+    static UChar const uTAB('\t');
     
     const UChar * srcPtr = in.getBuffer();
 
@@ -115,6 +117,9 @@ namespace uima {
         case uLF: 
           out.append(ustrLF_ESC);
           break;
+        case uTAB: 
+          out.append(ustrTAB_ESC);
+          break;
         default:
           out.append(*srcPtr);
       }
-- 
2.43.0


From 3ffbe873d4e257c7dbf6b830584f95662aeda11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 031/135] fix: the XMI reader ignores only elements of the xmi
 prefix, not every name that contains xmi

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 0dfb754..23e7849 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -152,7 +152,7 @@ namespace uima {
 										}
 		case FS_STATE: {
 			// ignore elements with XMI prefix (such as XMI annotations)  
-			if (qualifiedName.indexOf("xmi") > 0) {
+			if (qualifiedName.startsWith("xmi:")) {
 				this->iv_state = IGNORING_XMI_ELEMENTS_STATE;
 				this->ignoreDepth++;
 				return;
-- 
2.43.0


From 6ccf5e88ae311fbd2e2351e182e7510beef4eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 032/135] fix: getIndexedFSs returns every indexed feature
 structure once

---
 src/cas/lowlevel_indexrepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..600bc8f 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -197,7 +197,7 @@ namespace uima {
       }
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
-      vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(unique(fillit.begin(), fillit.end()), fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From eb1ec48a9a020cf3ca33f2e487ef902c5c9d64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 033/135] fix: the XMI reader resolves the tail of a list node
 as the reference it is

---
 src/cas/xmideserializer_handler.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 23e7849..6a3e53a 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -926,8 +926,9 @@ namespace uima {
       case internal::gs_tyIntListType:
       case internal::gs_tyStringListType: 
       case internal::gs_tyFSListType: {
-        //cout << "GOT A LIST FEATURE " << endl;
-        if (feat.isMultipleReferencesAllowed()) {
+        // the tail of a list node is written as a reference too
+        if (feat.isMultipleReferencesAllowed()
+            || iv_cas->getTypeSystem().isListType(internal::FSPromoter::demoteType(type))) {
           // do the usual FS deserialization
           if (featVal.length() > 0) {
             int val = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
@@ -1211,7 +1212,8 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
           (iv_cas->getTypeSystem().isArrayType(rangetypecode) && 
           feat.isMultipleReferencesAllowed() ) || 
           (iv_cas->getTypeSystem().isListType(rangetypecode) && 
-          feat.isMultipleReferencesAllowed()) ) {
+          (feat.isMultipleReferencesAllowed() ||
+          iv_cas->getTypeSystem().isListType(uima::internal::FSPromoter::demoteType(type)))) ) {
             //get the current feature value which is the id
             lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
             if (featVal != 0) {
-- 
2.43.0


From 878731b8ba9bc085052e64bdcf7d7195169373c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 034/135] fix: the XMI writer writes the tail of a StringList
 node as a reference, as it does for the other lists

---
 src/cas/xmiwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 20034b3..724763d 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -733,7 +733,7 @@ namespace uima {
         case internal::gs_tyNEStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
-            if (f.isMultipleReferencesAllowed() ) {
+            if (f.isMultipleReferencesAllowed() || insidelist) {
               writeFeatureValue(os, fs, f);
             } else {
               if (fs.getFSValue(f).isValid()) {
-- 
2.43.0


From 30bfea1afc92545e55473b34bb8f81a0c150f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 035/135] fix: removing a feature structure of a type without
 an index takes it out of the view

---
 src/cas/uima/lowlevel_indexrepository.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index ba57278..4bc9edb 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -277,6 +277,15 @@ namespace uima {
         assert( (*it)->getType() == type );
         (*it)->remove(fs);
       }
+      // a type without an index
+      if (typeIndexes.size() == 0) {
+        for (size_t i = 0; i < iv_undefinedindex.size(); i++) {
+          if (iv_undefinedindex[i] == fs) {
+            iv_undefinedindex.erase(iv_undefinedindex.begin() + i);
+            break;
+          }
+        }
+      }
     }
 
 
-- 
2.43.0


From 18732d7a71ef6331871bdacf0fcea989ef32b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 036/135] fix: XCAS keeps every digit of float and double
 values, infinities and NaN

---
 src/cas/xcasdeserializer_handler.cpp   | 12 ++------
 src/cas/xmiwriter.cpp                  | 16 -----------
 src/cas/xmlwriter.cpp                  | 39 ++++++++++++++++++++------
 src/framework/uima/caswriter_abase.hpp |  4 +++
 4 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 53012d7..76fa759 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -674,11 +674,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << UnicodeStringRef(buffer).asUTF8();
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, atof(UnicodeStringRef(buffer).asUTF8().c_str()));
         break;
       }
     default: {    //array of FSs
@@ -809,11 +805,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            long double doubleval;
-            stringstream s;
-            s << strval.c_str();
-            s >> doubleval;
-            fs.setDoubleValue(feat, doubleval );
+            fs.setDoubleValue(feat, atof(strval.c_str()));
           }
           break;
         }
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 724763d..1a8341c 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -66,22 +66,6 @@ namespace uima {
   ////////////////////////////////////////////////////////////////////////
   // XmiWriter
 
-  // Writes a float or double with all the digits needed to read the same value back.
-  static void writeReal(ostream & os, double val, int digits) {
-    if (val != val) {
-      os << "NaN";
-    } else if (val - val != 0) {
-      os << (val > 0 ? "Infinity" : "-Infinity");
-    } else {
-      stringstream str;
-      str.precision(digits);
-      str << val;
-      os << str.str();
-    }
-  }
-  static const int FLOAT_DIGITS = 9;
-  static const int DOUBLE_DIGITS = 17;
-
   XmiWriter::XmiWriter(CAS const & cas, bool addDocument)
       : XMLWriterABase(cas, addDocument),  sharedData(0),
       iv_stringType( cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_STRING) ),
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index af0f332..878099a 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -367,6 +367,19 @@ namespace uima {
   /*         }                                                                                     */
 
 
+  void XMLWriterABase::writeReal(ostream & os, double val, int digits) {
+    if (val != val) {
+      os << "NaN";
+    } else if (val - val != 0) {
+      os << (val > 0 ? "Infinity" : "-Infinity");
+    } else {
+      stringstream str;
+      str.precision(digits);
+      str << val;
+      os << str.str();
+    }
+  }
+
   ////////////////////////////////////////////////////////////////////////
   // XCASWriter
 
@@ -442,7 +455,8 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      writeReal(os, fs.getFloatValue(f), FLOAT_DIGITS);
+      os << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -458,9 +472,8 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      writeReal(os, fs.getDoubleValue(f), DOUBLE_DIGITS);
+      os << "\"";
     } else {
 
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -536,7 +549,19 @@ namespace uima {
       if ( t == iv_intArrayType ) {
         writeArray( os, IntArrayFS(fs), "i");
       } else if ( t == iv_floatArrayType ) {
-        writeArray( os, FloatArrayFS(fs), "i");
+        FloatArrayFS array(fs);
+        if (array.size() > 0) {
+          os << " size=\"" << array.size() << "\">" << endl;
+          size_t i;
+          for (i=0; i<array.size(); ++i) {
+            os << "  <" << "i" << ">";
+            writeReal(os, array.get(i), FLOAT_DIGITS);
+            os << "</" << "i" << ">" << endl;
+          }
+          os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
+        }
       } else if ( t == iv_stringArrayType ) {
         writeStringArray( os, StringArrayFS(fs), "i");
       } else if ( t == iv_byteArrayType ) {
@@ -565,9 +590,7 @@ namespace uima {
           size_t i;
           for (i=0; i<array.size(); ++i) {
             os << "  <" << "i" << ">";
-            stringstream s;
-            s << array.get(i);
-            os << s.str();
+            writeReal(os, array.get(i), DOUBLE_DIGITS);
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
diff --git a/src/framework/uima/caswriter_abase.hpp b/src/framework/uima/caswriter_abase.hpp
index 961b285..c7e93a6 100644
--- a/src/framework/uima/caswriter_abase.hpp
+++ b/src/framework/uima/caswriter_abase.hpp
@@ -81,6 +81,10 @@ namespace uima {
   class UIMA_LINK_IMPORTSPEC XMLWriterABase : public CASWriterABase {
   public:
     static void normalize(UnicodeStringRef const & in, icu::UnicodeString& out);
+
+    // Writes a float or double with all the digits needed to read the same value back.
+    enum { FLOAT_DIGITS = 9, DOUBLE_DIGITS = 17 };
+    static void writeReal(std::ostream & os, double val, int digits);
   public:
     XMLWriterABase(CAS const & crCAS, bool bAddDocBuffer);
     virtual ~XMLWriterABase();
-- 
2.43.0


From 48931c58b3e8160ebefb62479a4ea32154a2256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 037/135] fix: XCAS closes the element of an empty ByteArray

---
 src/cas/xmlwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 878099a..b0b334d 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -576,6 +576,8 @@ namespace uima {
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
         }
       } else if ( t == iv_booleanArrayType ) {
         writeArray( os, BooleanArrayFS(fs), "i");
-- 
2.43.0


From 86f9248debcd74665e129964fdec586caf6857c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 038/135] fix: an XCASWriter can write a changed CAS again and
 releases what it collected

---
 src/cas/uima/xmlwriter.hpp |  1 +
 src/cas/xmlwriter.cpp      | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cas/uima/xmlwriter.hpp b/src/cas/uima/xmlwriter.hpp
index 761ba6c..0e732cc 100644
--- a/src/cas/uima/xmlwriter.hpp
+++ b/src/cas/uima/xmlwriter.hpp
@@ -154,6 +154,7 @@ namespace uima {
     bool isReferenceType(Type const & t) const;
     bool enqueueIndexed(FeatureStructure const &fs, int sofa);
     bool enqueueUnindexed(FeatureStructure const &fs);
+    void clear();
 		void writeStringArray(std::ostream & os, StringArrayFS const & array, char const * tag);
   public:
     XCASWriter(CAS const & crCAS, bool bAddDocBuffer);
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index b0b334d..778e2cc 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -424,11 +424,15 @@ namespace uima {
   }
 
   XCASWriter::~XCASWriter() {
-    for (size_t i = 0; i < enqueuedFS.size(); i++) {
-      vector<int> * indexes = (vector<int>*) enqueuedFS[i];
-      if (indexes != 0)
-        delete indexes;
+    clear();
+  }
+
+  void XCASWriter::clear() {
+    map<int, vector<int>*>::iterator it;
+    for (it = enqueuedFS.begin(); it != enqueuedFS.end(); it++) {
+      delete (*it).second;
     }
+    enqueuedFS.clear();
   }
 
 
@@ -668,6 +672,7 @@ namespace uima {
 
   void XCASWriter::write(ostream & os) {
     const uima::lowlevel::IndexRepository * ixRep;
+    clear();
     os << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << endl;
     os << "<CAS>" << endl;
 
-- 
2.43.0


From 531771056355d17952f1eec3bc8500d8a8526034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 039/135] fix: binary data without sofas does not lose what is
 indexed in the initial view

---
 src/cas/internal_casdeserializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..550be03 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -644,6 +644,8 @@ namespace uima {
           assert( *loopit < iMaxOffset );
           crIndexRep->add( *loopit );
         }
+      } else {
+        cit++;
       }
 
       // book keeping for all Sofas
-- 
2.43.0


From c42c7f351cd236d69039802b07a0446b7df080fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 040/135] fix: a blob of the other byte order keeps all 8 bytes
 of long and double values

---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 550be03..b61da7f 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -734,7 +734,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      memcpy(&in, output, sizeof(in));
       return in;
     }
 
-- 
2.43.0


From 0e95cd2b9effe8e185af834fba8496551c8c84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 041/135] fix: a blob is indexed after all its heaps are loaded

---
 src/cas/internal_casdeserializer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index b61da7f..cfa82c3 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -900,13 +900,11 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
+      // remember the indexed FSs until all heaps are there
       size_t uiIndexedFSLength = intPtr[0];
       if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
         iv_vecIndexedFSs.resize(uiIndexedFSLength);
         memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
       }
       intPtr += 1 + uiIndexedFSLength;
 
@@ -941,8 +939,10 @@ namespace uima {
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
-
-
+      // create FS indexes
+      if (uiIndexedFSLength > 0) {
+        deserializeIndexedFSs(iv_vecIndexedFSs, *rCAS.getBaseCas());
+      }
     }
 
     void CASDeserializer::deserializeData(uima::internal::SerializedCAS const & crSerializedCAS,
-- 
2.43.0


From 5d2f877c0009ae8c020b4349d1766184a475a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 042/135] fix: a blob replaces the views and index entries the
 CAS had before

---
 src/cas/internal_casdeserializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index cfa82c3..e8c2ea3 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -857,6 +857,9 @@ namespace uima {
       CHECK(intPtr[0] == ((int*)key)[0]);
       CHECK(intPtr[1] == 1);
 
+      // nothing of the former content stays
+      rCAS.getBaseCas()->reset();
+
       // get a heap of references
       uima::internal::CASImpl & crCASImpl = uima::internal::CASImpl::promoteCAS(rCAS);
       uima::lowlevel::FSHeap & crHeap = crCASImpl.getHeap();
-- 
2.43.0


From caea4fdb61e33ba85e30649ec107c3dc15242796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 043/135] fix: serialized index IDs do not refer to a local
 variable of the serializer

---
 src/cas/internal_casserializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/internal_casserializer.cpp b/src/cas/internal_casserializer.cpp
index de4030b..b87d66d 100644
--- a/src/cas/internal_casserializer.cpp
+++ b/src/cas/internal_casserializer.cpp
@@ -259,8 +259,8 @@ namespace uima {
       size_t i;
       for (i=0; i<uiIndexNum; ++i) {
         uima::lowlevel::IndexDefinition::TyIndexID const & crIndexID = vecIndexIDs[i];
-        rSerializedCAS.iv_vecIndexIDTable[i] = createString( crIndexID.getBuffer(),
-                                               crIndexID.length(), rSerializedCAS);
+        // the IDs are local copies, so they cannot be shared
+        rSerializedCAS.iv_vecIndexIDTable[i] = rSerializedCAS.addString( UnicodeStringRef(crIndexID) );
         rSerializedCAS.iv_vecIndexKindTable[i] = indexDef.getIndexKind( crIndexID );
         UIMA_TPRINT("Index ID: " << crIndexID );
         // start of the next comparator definition
-- 
2.43.0


From ac985da2e1ef7ba1a6fd29c29ea32bfb50c7fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 044/135] fix: strings copied into a SerializedCAS stay valid
 when more than 10000 characters are added

---
 src/cas/internal_serializedcas.cpp      |  6 ++----
 src/cas/uima/internal_serializedcas.hpp | 13 +++++--------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/cas/internal_serializedcas.cpp b/src/cas/internal_serializedcas.cpp
index 38e9f1a..b556785 100644
--- a/src/cas/internal_serializedcas.cpp
+++ b/src/cas/internal_serializedcas.cpp
@@ -54,15 +54,13 @@ using namespace std;
 namespace uima {
   namespace internal {
 
-//!TODO check this default size, particularly for blob-based data serialization
-    SerializedCAS::SerializedCAS()
-        : iv_stringHeap(10000, 0) {}
+    SerializedCAS::SerializedCAS() {}
 
     SerializedCAS::~SerializedCAS() {}
 
 
     void SerializedCAS::reset() {
-      iv_stringHeap.reset();
+      iv_strings.clear();
 
       iv_ulstrDocument = UnicodeStringRef();
 
diff --git a/src/cas/uima/internal_serializedcas.hpp b/src/cas/uima/internal_serializedcas.hpp
index 989bd3c..ff70db0 100644
--- a/src/cas/uima/internal_serializedcas.hpp
+++ b/src/cas/uima/internal_serializedcas.hpp
@@ -37,6 +37,7 @@
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp" // must be first file to be included to get pragmas
+#include <list>
 #include <vector>
 #include "uima/types.h"
 #include "uima/unistrref.hpp"
@@ -139,8 +140,8 @@ namespace uima {
       SerializedCAS & operator=(SerializedCAS const &);
       SerializedCAS(SerializedCAS const &);
 
-      typedef uima::lowlevel::internal::Heap<UChar> TyStringHeap;
-      TyStringHeap iv_stringHeap;
+      // a list, so that strings stay where they are when others are added
+      std::list<icu::UnicodeString> iv_strings;
 
       UnicodeStringRef addString(UnicodeStringRef const & crRef);
 
@@ -299,12 +300,8 @@ namespace uima {
   namespace internal {
 
     inline UnicodeStringRef SerializedCAS::addString(UnicodeStringRef const & crRef) {
-      size_t l = crRef.length();
-      int pOff = iv_stringHeap.increaseHeap(l + 1);
-      UChar* p = iv_stringHeap.getHeapStart() + pOff;
-      assert( (2*l) == crRef.getSizeInBytes() );
-      memcpy(p, crRef.getBuffer(), crRef.getSizeInBytes() );
-      return UnicodeStringRef(p,l);
+      iv_strings.push_back(icu::UnicodeString(crRef.getBuffer(), crRef.length()));
+      return UnicodeStringRef(iv_strings.back());
     }
   }
 }
-- 
2.43.0


From 569622acfac74a04cdb575ae309dad7cc110727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 045/135] fix: CAS::iterator() on an empty CAS is invalid
 instead of reading past the heap

---
 src/cas/uima/lowlevel_defaultfsiterator.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cas/uima/lowlevel_defaultfsiterator.hpp b/src/cas/uima/lowlevel_defaultfsiterator.hpp
index ba890a7..b11f9db 100644
--- a/src/cas/uima/lowlevel_defaultfsiterator.hpp
+++ b/src/cas/uima/lowlevel_defaultfsiterator.hpp
@@ -95,14 +95,13 @@ namespace uima {
           crTypeSystem(heap.getTypeSystem()),
           tyTempHeap(heap.iv_clTemporaryHeap) {
         pEnd = tyTempHeap.getTopOfHeap();
-        iv_it = 1;
-        tyType = tyTempHeap.getHeapValue(iv_it);
+        moveToFirst();
       }
 
       void moveToFirst() {
         iv_it = 1;
-        tyType = tyTempHeap.getHeapValue(iv_it);
-        assert( crTypeSystem.isValidType(tyType) );
+        // an empty heap has no first FS
+        tyType = iv_it < pEnd ? tyTempHeap.getHeapValue(iv_it) : uima::lowlevel::TypeSystem::INVALID_TYPE;
         UIMA_TPRINT("  fs type: " << crTypeSystem.getTypeName(tyType) );
       }
 
-- 
2.43.0


From 3792be06384196232981e94ef3d575abe289b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 046/135] fix: a CAS does not delete a document text that was
 set without copying it

---
 src/cas/cas.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index c3ee36e..b801671 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -302,10 +302,12 @@ namespace uima {
       delete iv_indexRepository;
       iv_indexRepository = NULL;
 		}
-    if (this->iv_cpDocument != NULL) {
-      delete[] this->iv_cpDocument;
-      this->iv_cpDocument = NULL;
+    // iv_cpDocument may be a buffer of the caller, only the copy is ours
+    if (this->iv_copyOfDocument != NULL) {
+      delete[] this->iv_copyOfDocument;
+      this->iv_copyOfDocument = NULL;
     }
+    this->iv_cpDocument = NULL;
     //initial call to delete object
     if (this->isbaseCas) {
       this->iv_baseCas->isDeletingViews = true;
-- 
2.43.0


From f938a679264c570c3237264bdde1c471e4628c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 047/135] fix: CAS::iterator() visits what comes after boolean,
 byte, short, long and double arrays, and can be copied

---
 src/cas/uima/lowlevel_defaultfsiterator.hpp | 22 ++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/cas/uima/lowlevel_defaultfsiterator.hpp b/src/cas/uima/lowlevel_defaultfsiterator.hpp
index b11f9db..bb40b8e 100644
--- a/src/cas/uima/lowlevel_defaultfsiterator.hpp
+++ b/src/cas/uima/lowlevel_defaultfsiterator.hpp
@@ -42,6 +42,7 @@
 #include "uima/lowlevel_indexcomparator.hpp"
 #include "uima/lowlevel_indexiterator.hpp"
 #include "uima/lowlevel_fsheap.hpp"
+#include "uima/internal_typeshortcuts.hpp"
 
 /* ----------------------------------------------------------------------- */
 /*       Constants                                                         */
@@ -143,8 +144,19 @@ namespace uima {
         if ( !isValid() )
           return;
         if (crTypeSystem.isArrayType(tyType)) {
-          // get array size
-          iv_it += 2 + tyTempHeap.getHeapValue(iv_it+1);
+          switch (tyType) {
+          case uima::internal::gs_tyBooleanArrayType:
+          case uima::internal::gs_tyByteArrayType:
+          case uima::internal::gs_tyShortArrayType:
+          case uima::internal::gs_tyLongArrayType:
+          case uima::internal::gs_tyDoubleArrayType:
+            // size and position in another heap
+            iv_it += 3;
+            break;
+          default:
+            // get array size
+            iv_it += 2 + tyTempHeap.getHeapValue(iv_it+1);
+          }
         } else {
           //look up number of features
           uima::lowlevel::TyFeatureOffset tySize = crTypeSystem.getFeatureNumber(tyType);
@@ -159,7 +171,11 @@ namespace uima {
       }
 
       IndexIterator* clone() const {
-        return new DefaultFSIterator(iv_heap);
+        DefaultFSIterator * result = new DefaultFSIterator(iv_heap);
+        result->pEnd = pEnd;
+        result->iv_it = iv_it;
+        result->tyType = tyType;
+        return result;
       }
 
       bool moveTo(TyFS fs) {
-- 
2.43.0


From 83261711358da6b5d244854673da680ec109c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 048/135] fix: a heap that cannot grow stays as it was

---
 src/cas/uima/lowlevel_internal_heap.hpp | 36 +++++++++++++------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/cas/uima/lowlevel_internal_heap.hpp b/src/cas/uima/lowlevel_internal_heap.hpp
index afeb69f..13f66e8 100644
--- a/src/cas/uima/lowlevel_internal_heap.hpp
+++ b/src/cas/uima/lowlevel_internal_heap.hpp
@@ -42,6 +42,8 @@
 
 #include "uima/macros.h"
 
+#include <climits>
+#include <new>
 #include <vector>
 
 #if defined( _MSC_VER )
@@ -176,28 +178,28 @@ namespace uima {
         /**
          * reserve n more heap cells; if necessary, increase heap size
          */
-        int increaseHeap(WORD32 n) {
+        int increaseHeap(size_t n) {
           //assert( n > 0 );
-          int result = iv_topOfHeap;
-          iv_topOfHeap += n;
+          WORD32 result = iv_topOfHeap;
 
-          // usual case, just return
-          if ( iv_topOfHeap < iv_uiCellNumber ) {
-            return result;
+          // cells are addressed by non-negative ints
+          if ( n > (size_t) INT_MAX - result ) {
+            throw std::bad_alloc();
           }
 
-          // calculate new heap size to be at least double current size
-          if ( n > iv_uiCellNumber ) {
-            iv_uiCellNumber += n;
-          } else {
-            iv_uiCellNumber *= 2;
+          // if necessary, grow first: when that fails the heap stays as it is
+          if ( result + n >= iv_uiCellNumber ) {
+            // calculate new heap size to be at least double current size
+            WORD32 uiCellNumberNew = (n > iv_uiCellNumber) ? iv_uiCellNumber + (WORD32) n : iv_uiCellNumber * 2;
+            T* iv_pTHeapNew = new T[uiCellNumberNew];
+            assert( iv_pTHeapNew != NULL );
+            memcpy(iv_pTHeapNew, iv_pTHeap, result*sizeof(T));
+            memset(iv_pTHeapNew + result, iv_iDefaultValue, (uiCellNumberNew - result)*sizeof(T));
+            delete[] iv_pTHeap;
+            iv_pTHeap = iv_pTHeapNew;
+            iv_uiCellNumber = uiCellNumberNew;
           }
-          T* iv_pTHeapNew = new T[iv_uiCellNumber];
-          assert( iv_pTHeapNew != NULL );
-          memcpy(iv_pTHeapNew, iv_pTHeap, result*sizeof(T));
-          memset(iv_pTHeapNew + result, iv_iDefaultValue, (iv_uiCellNumber - result)*sizeof(T));
-          delete[] iv_pTHeap;
-          iv_pTHeap = iv_pTHeapNew;
+          iv_topOfHeap = result + (WORD32) n;
           return result;
         }
 
-- 
2.43.0


From 621b6741dfe04acb90b014b27feddc5feab3f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 049/135] fix: a failed array creation leaves no structure
 without a type on the heap

---
 src/cas/uima/lowlevel_fsheap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index fadef87..e947be4 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -302,8 +302,8 @@ namespace uima {
         if (tyType == uima::internal::gs_tyLongArrayType ||
             tyType == uima::internal::gs_tyDoubleArrayType) {
 
-          tyResult = rtyHeap.increaseHeap(3);
           TyFS ty64BitHeapResult = rty64BitHeap.increaseHeap(uiSize);
+          tyResult = rtyHeap.increaseHeap(3);
           rtyHeap.setHeapValue(tyResult, (TyHeapCell) tyType);
           rtyHeap.setHeapValue(tyResult+1, (TyHeapCell) uiSize);
           rtyHeap.setHeapValue(tyResult+2, (TyHeapCell) ty64BitHeapResult);
@@ -311,15 +311,15 @@ namespace uima {
         else if (tyType == uima::internal::gs_tyBooleanArrayType ||
                  tyType == uima::internal::gs_tyByteArrayType) {
 
-          tyResult = rtyHeap.increaseHeap(3);
           TyFS ty8BitHeapResult = rty8BitHeap.increaseHeap(uiSize);
+          tyResult = rtyHeap.increaseHeap(3);
           rtyHeap.setHeapValue(tyResult, (TyHeapCell) tyType);
           rtyHeap.setHeapValue(tyResult+1, (TyHeapCell) uiSize);
           rtyHeap.setHeapValue(tyResult+2, (TyHeapCell) ty8BitHeapResult);
         } else if (tyType == uima::internal::gs_tyShortArrayType) {
 
-          tyResult = rtyHeap.increaseHeap(3);
           TyFS ty16BitHeapResult = rty16BitHeap.increaseHeap(uiSize);
+          tyResult = rtyHeap.increaseHeap(3);
           rtyHeap.setHeapValue(tyResult, (TyHeapCell) tyType);
           rtyHeap.setHeapValue(tyResult+1, (TyHeapCell) uiSize);
           rtyHeap.setHeapValue(tyResult+2, (TyHeapCell) ty16BitHeapResult);
-- 
2.43.0


From 0c4c46877f1c636418b801d9de57a301f93f1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 050/135] fix: the document text survives a failed replacement
 and being set to itself

---
 src/cas/cas.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index b801671..2751d97 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1081,13 +1081,15 @@ namespace uima {
     if (pDoc.length() == 0) {
       return;
     }
-    if (iv_copyOfDocument)
-      delete [] iv_copyOfDocument;
+    // pDoc may be the present copy, and the allocation may fail
     size_t len = pDoc.length();
-    iv_copyOfDocument = new UChar [len + 1];
-    memcpy(iv_copyOfDocument, pDoc.getBuffer(), 2*len);
+    UChar * cpCopy = new UChar [len + 1];
+    memcpy(cpCopy, pDoc.getBuffer(), 2*len);
     // The internal document must be 0 terminated!
-    iv_copyOfDocument[len] = 0;
+    cpCopy[len] = 0;
+    if (iv_copyOfDocument)
+      delete [] iv_copyOfDocument;
+    iv_copyOfDocument = cpCopy;
     iv_cpDocument = iv_copyOfDocument;
     iv_uiDocumentLength = len;
   }
-- 
2.43.0


From 43c1d2ecbcc2b17fbcbfb27ea50f3f4f8dda1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 051/135] fix: a sofa is only counted once there is room for
 its index

---
 src/cas/cas.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 2751d97..a894606 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1013,12 +1013,13 @@ namespace uima {
 
   // Record a new sofaFS and reserve space in the index map if necessary
   void CAS::bumpSofaCount() {
-    iv_baseCas->iv_sofaCount++;
-    if ( (iv_baseCas->iv_sofaCount+1) > (int)iv_baseCas->iv_sofa2indexMap.size()) {
+    int newCount = iv_baseCas->iv_sofaCount + 1;
+    if ( (newCount+1) > (int)iv_baseCas->iv_sofa2indexMap.size()) {
       // enlarge map and set new entry to NULL
-      iv_baseCas->iv_sofa2indexMap.resize(iv_baseCas->iv_sofaCount + 1);
-      iv_baseCas->iv_sofa2indexMap[iv_baseCas->iv_sofaCount] = NULL;
+      iv_baseCas->iv_sofa2indexMap.resize(newCount + 1);
+      iv_baseCas->iv_sofa2indexMap[newCount] = NULL;
     }
+    iv_baseCas->iv_sofaCount = newCount;
   }
 
   void CAS::registerView(SofaFS aSofa ) {
-- 
2.43.0


From 6d4550713b79af9aa5a7ace4b6e9fe4b8f5b629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 052/135] fix: a type is only marked as indexed once it is
 listed

---
 src/cas/lowlevel_indexrepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index 600bc8f..0742953 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -290,8 +290,8 @@ namespace uima {
           return;
         }
 
-        iv_isUsed[type] = true;
         iv_usedIndexes.push_back(type);
+        iv_isUsed[type] = true;
       }
 
 
-- 
2.43.0


From 6a4d2cf4ce50dfced5417356cdb373131ac7846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 053/135] fix: a sofa is only counted once it can be found

---
 src/cas/cas.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index a894606..ddae93d 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -941,16 +941,19 @@ namespace uima {
                          ErrorInfo::unrecoverable
                         );
     }
+    // room for its entry, so that counting it cannot fail
+    iv_baseCas->iv_sofa2indexMap.reserve(iv_baseCas->iv_sofaCount + 2);
     Type sofaT = getTypeSystem().getType(CAS::TYPE_NAME_SOFA);
     lowlevel::TyFS tySofa = iv_heap->createFS(internal::FSPromoter::demoteType(sofaT));
     SofaFS newSofa = (SofaFS)internal::FSPromoter::promoteFS(tySofa, *this->iv_baseCas);
-    bumpSofaCount();
-    newSofa.setIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature, iv_heap->getTypeSystem()), iv_baseCas->iv_sofaCount);
+    newSofa.setIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature, iv_heap->getTypeSystem()), iv_baseCas->iv_sofaCount + 1);
     newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaIDFeature, iv_heap->getTypeSystem()), sofaName);
     if (mimeType.length() > 0) {
       newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaMimeFeature, iv_heap->getTypeSystem()), mimeType);
     }
     iv_baseCas->iv_indexRepository->add(tySofa);
+    // views are looked up for every sofa counted, so count it only now that it can be found
+    bumpSofaCount();
     return newSofa;
   }
 
-- 
2.43.0


From 762f44c1dfe6a221fa6345ce4c500db54cc5773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 054/135] fix: an error code returned by the annotator's
 process() reaches the caller

---
 src/framework/internal_primitive_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index aaad5d9..1645c79 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -203,7 +203,7 @@ namespace uima {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
-          iv_pAnnotator->processDocument(cas, crResultSpec);
+          return iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
           UIMA_EXC_RETHROW(e,0);
         }
-- 
2.43.0


From d6a5ba1ffd19790453a59e566127b9f795399f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 055/135] fix: a CAS does not refer to the component that
 processed it after process()

---
 src/framework/internal_primitive_engine.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index 1645c79..814c08c 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -65,6 +65,17 @@ using namespace std;
 namespace uima {
   namespace internal {
 
+    // links a CAS to a component for as long as the component processes it
+    struct CurrentComponent {
+      CAS & iv_cas;
+      CurrentComponent(CAS & cas, AnnotatorContext & rANC) : iv_cas(cas) {
+        iv_cas.setCurrentComponentInfo(&rANC);
+      }
+      ~CurrentComponent() {
+        iv_cas.setCurrentComponentInfo(NULL);
+      }
+    };
+
     PrimitiveEngine::PrimitiveEngine(AnnotatorContext & rAnnContext, bool bOwnsANC,
                                      bool bOwnsTAESpec,
                                      uima::internal::CASDefinition & casdef, bool ownsCasDef,
@@ -201,7 +212,7 @@ namespace uima {
       }
       if (bCallAnnotator) {
         // link CAS to current component
-        cas.setCurrentComponentInfo(&getAnnotatorContext());
+        CurrentComponent component(cas, getAnnotatorContext());
         try {
           return iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
-- 
2.43.0


From 92a3dfbdfda3f2f95e5b4aaf97876019286b024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 056/135] fix: an annotator whose destroy() throws is deleted

---
 src/framework/annotator.cpp                 |  9 ++++++++-
 src/framework/internal_primitive_engine.cpp | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/framework/annotator.cpp b/src/framework/annotator.cpp
index e4ba553..c34a140 100644
--- a/src/framework/annotator.cpp
+++ b/src/framework/annotator.cpp
@@ -384,7 +384,14 @@ namespace uima {
     assert(EXISTS(iv_hUserData));
     clTrace.dump("DestroyAnnotator...");
     UIMA_ANNOTATOR_TIMING(iv_clTimerDeInit.start());
-    TyErrorId utRetVal = iv_hUserData->destroy();
+    TyErrorId utRetVal;
+    try {
+      utRetVal = iv_hUserData->destroy();
+    } catch (...) {
+      delete iv_hUserData;
+      iv_hUserData = 0;
+      throw;
+    }
 
     UIMA_ANNOTATOR_TIMING(iv_clTimerDeInit.stop());
     clTrace.dump(_TEXT("rc"), utRetVal);
diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index 814c08c..56e1cbe 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -230,7 +230,15 @@ namespace uima {
       if (iv_pAnnotator != NULL ) {
         if (iv_pAnnotator->isInitialized()) {
           assert( iv_pAnnotator->isValid() );
-          utErrorId = iv_pAnnotator->deInit();
+          try {
+            utErrorId = iv_pAnnotator->deInit();
+          } catch (...) {
+            delete iv_pAnnotator;
+            iv_pAnnotator = NULL;
+            delete iv_pCapContainer;
+            iv_pCapContainer = NULL;
+            throw;
+          }
         }
         delete iv_pAnnotator;
         iv_pAnnotator = NULL;
-- 
2.43.0


From 64a2436042e91c093a2620dec161cdbd3508b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 057/135] fix: hasNext() and next() of a destroyed engine are
 refused instead of calling a deleted annotator

---
 src/framework/internal_engine_base.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 42f9f58..9d2c3bb 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -422,11 +422,10 @@ namespace uima {
     bool EngineBase::hasNext() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this ?? (bi)
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-           return false;
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          return false;
+        }
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
@@ -437,10 +436,14 @@ namespace uima {
     CAS &  EngineBase::next() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this (bi)
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          UIMA_EXC_THROW_NEW(CASIteratorException,
+                             UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             ErrorInfo::unrecoverable);
+        }
         return nextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-- 
2.43.0


From 6538732cd0948495e528dd01e4b1a5378f4b34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 058/135] fix: exceptions of an annotator keep their class on
 the way through hasNext() and next()

---
 src/framework/internal_engine_base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 9d2c3bb..d900368 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -429,7 +429,7 @@ namespace uima {
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-        throw rclException;
+        throw;
       }
     }
 
@@ -448,7 +448,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -464,7 +464,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -493,7 +493,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
-- 
2.43.0


From b2e0f65d234fe4348b5fba09789f03a4bebb7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 059/135] fix: an engine is deleted when its annotator throws a
 foreign exception while it is created

---
 src/framework/engine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 63b7672..12cf577 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -235,6 +235,9 @@ namespace uima {
       return  pResult;
     } catch (Exception & rExc) {
       rErrorInfo = rExc.getErrorInfo();
+    } catch (...) {
+      delete pResult;
+      throw;
     }
     assert( rErrorInfo.getErrorId() != UIMA_ERR_NONE );
     if (pResult != NULL) {
-- 
2.43.0


From ee764ef38d957956c4dea7e007bcda201048b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 060/135] fix: a descriptor in memory leaves no temporary file
 behind and is refused if there can be none

---
 src/framework/engine.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 12cf577..ed349d6 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -294,15 +294,26 @@ namespace uima {
         /* char* tmpFileName = tempnam(NULL, "TMP"); */
 	char* tmpFileName = strdup("/tmp/TMPXXXXXX");
 	int fd = mkstemp(tmpFileName);
+	if (fd == -1) {
+          free(tmpFileName);
+          rErrorInfo.setErrorId(UIMA_ERR_ENGINE_UNEXPECTED_EXCEPTION);
+          return NULL;
+	}
 	close(fd);
 
-        ofstream ofs(tmpFileName);
-        uima::operator<<(ofs, crString);
-        ofs << endl;
-        ofs.close();
-        UIMA_TPRINT("Wrote descriptor to temp file:");
-        UIMA_TPRINT(tmpFileName);
-        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFileName);
+        try {
+          ofstream ofs(tmpFileName);
+          uima::operator<<(ofs, crString);
+          ofs << endl;
+          ofs.close();
+          UIMA_TPRINT("Wrote descriptor to temp file:");
+          UIMA_TPRINT(tmpFileName);
+          builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFileName);
+        } catch (...) {
+          remove(tmpFileName);
+          free(tmpFileName);
+          throw;
+        }
 
         remove(tmpFileName);                // or unlink ??
         free(tmpFileName);                  // Free storage allocated by tempnam
-- 
2.43.0


From d1a7701284eec003508c26002d889d5c612c860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 061/135] fix: batchProcessComplete() of an aggregate calls
 that of its delegates

---
 src/framework/internal_aggregate_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_aggregate_engine.cpp b/src/framework/internal_aggregate_engine.cpp
index c0ca218..1e6f98b 100644
--- a/src/framework/internal_aggregate_engine.cpp
+++ b/src/framework/internal_aggregate_engine.cpp
@@ -211,7 +211,7 @@ namespace uima {
 
     TyErrorId AggregateEngine::batchProcessCompleteImpl(void) {
       util::Trace             clTrace(util::enTraceDetailMedium, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-      return iv_annotatorMgr.launchCollectionProcessComplete();
+      return iv_annotatorMgr.launchBatchProcessComplete();
     }
 
     TyErrorId AggregateEngine::collectionProcessCompleteImpl(void) {
-- 
2.43.0


From fdafe0477357589478d8a9eb91eb9275e4a82952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 062/135] fix: a foreign exception in one delegate's destroy()
 does not keep the others from being destroyed

---
 src/framework/annotator_mgr.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 19aa35c..7f42ec4 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -58,6 +58,8 @@
 #include "uima/casdefinition.hpp"
 #include "uima/lowlevel_typesystem.hpp"
 
+#include <exception>
+
 /* ----------------------------------------------------------------------- */
 /*       Constants                                                         */
 /* ----------------------------------------------------------------------- */
@@ -244,6 +246,7 @@ namespace uima {
       TyAnnotatorEntries::reverse_iterator it;           /* deinit must be performed in reverse order! */
       TyErrorId               utErrorId = UIMA_ERR_NONE;
       TyErrorId               utRetVal = UIMA_ERR_NONE;
+      std::exception_ptr      pUnexpected;
 
 #ifdef UIMA_DEBUG_ANNOTATOR_TIMING
       if (clTrace.isEnabled() && iv_uiNbrOfDocsProcessed > 0) {
@@ -258,7 +261,13 @@ namespace uima {
         assert(EXISTS(pEngine));
         if (pEngine->isInitialized()) {
           /* use the annotator */
-          utErrorId = pEngine->destroy();
+          try {
+            utErrorId = pEngine->destroy();
+          } catch (...) {
+            /* the other annotators must be deinitialized all the same */
+            pUnexpected = std::current_exception();
+            continue;
+          }
           if (utErrorId != UIMA_ERR_NONE) {
             clTrace.dump(_TEXT("Error"), (long) utErrorId);
             utRetVal = utErrorId;                     /* I know, this overwrites a previous error */
@@ -278,6 +287,9 @@ namespace uima {
       }
 
       iv_vecEntries.clear();
+      if (pUnexpected) {
+        std::rethrow_exception(pUnexpected);
+      }
       return(utRetVal);
     }
 
-- 
2.43.0


From 37aff96076c6ae0eabd0d3b175357322a0cd4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 063/135] fix: an aggregate whose flow names an unknown
 delegate is refused

---
 src/framework/annotator_mgr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 7f42ec4..64244c2 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -170,6 +170,12 @@ namespace uima {
 
         AnnotatorContext * pDelegateANC = rANC.getDelegate(crEngineName);
         ErrorInfo errInfo;
+        if (pDelegateANC == NULL) {
+          /* the flow names a delegate the aggregate does not have */
+          errInfo.setErrorId(UIMA_ERR_CONFIG_OBJECT_NOT_FOUND);
+          rANC.getLogger().logError(errInfo);
+          return UIMA_ERR_CONFIG_OBJECT_NOT_FOUND;
+        }
         // create a delegate TAE which owns neither the ANC, nor the TAESpecifier, nor the CAS definition
         AnalysisEngine * pEngine = Framework::createAnalysisEngine(*pDelegateANC,
                                        false,
-- 
2.43.0


From 485548cd8ccd4d70f0e268534362229aa6abfb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 064/135] fix: outputs for the unspecified language apply to
 every language whether or not there are inputs for it

---
 src/framework/internal_capability_container.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 238cdb5..f8724ec 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -247,6 +247,7 @@ namespace uima {
     }
 
     void CapabilityContainer::copyEntriesForUnspecifedLanguage() {
+      TyMapLang2TypeOrFeatures::iterator it;
       if (iv_psetInputTOFsForUnspecifiedLang == NULL) {
         // if it is not in the input it can't be in the output either
         assert(findOutputTOFs(Language(Language::UNSPECIFIED)) == NULL);
@@ -254,7 +255,6 @@ namespace uima {
       }
       assert(EXISTS(iv_psetInputTOFsForUnspecifiedLang));
       if (iv_psetInputTOFsForUnspecifiedLang->size() != 0) {
-        TyMapLang2TypeOrFeatures::iterator it;
         for (it = iv_mapLang2InputTypesOrFeatures.begin(); it != iv_mapLang2InputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetInputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
@@ -270,13 +270,14 @@ namespace uima {
             }
           }
         }
+      }
 
-        // Now do the same copying for the output
-
-        // if it is in the input it must be in the output too
-        assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
-        assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
+      // Now do the same copying for the output
 
+      // if it is in the input it must be in the output too
+      assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
+      assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
+      if (iv_psetOutputTOFsForUnspecifiedLang->size() != 0) {
         for (it = iv_mapLang2OutputTypesOrFeatures.begin(); it != iv_mapLang2OutputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetOutputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
-- 
2.43.0


From c751e2d19b0e402713706031ec6fa903d06c3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 065/135] fix: sofa mappings of nested aggregates are resolved
 level by level, without changing the description

---
 src/framework/annotator_context.cpp | 32 ++++++++---------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 8e3dcc6..c63b0c1 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -84,32 +84,18 @@ namespace uima {
           sofamap->setComponentSofaName(ustr);
         }
         SofaID * pSofaid = new SofaID();
-        pSofaid->setSofaId(sofamap->getAggregateSofaName());
+        // the aggregate may itself be a delegate which has that name mapped
+        icu::UnicodeString aggrName = sofamap->getAggregateSofaName();
+        if (EXISTS(parent)) {
+          TyMapSofaMappings::const_iterator itParent = parent->iv_mapSofaMappings.find(aggrName);
+          if (itParent != parent->iv_mapSofaMappings.end()) {
+            aggrName = itParent->second->getSofaId();
+          }
+        }
+        pSofaid->setSofaId(aggrName);
         pSofaid->setComponentSofaName(sofamap->getComponentSofaName());
         icu::UnicodeString astr = sofamap->getComponentSofaName();
         iv_mapSofaMappings[astr] = pSofaid;
-
-        //if this delegate is an aggregate and has sofamapping
-        //check if somponent sofaname is specified as the
-        //aggregate sofa name in this delegate specifier
-        //if so update that aggregate sofa name
-        if (!delegateSpec->isPrimitive()) {
-          AnalysisEngineDescription::TyVecpSofaMappings delegateSofaMappings = delegateSpec->getSofaMappings();
-          if (delegateSofaMappings.size() > 0 ) {
-            AnalysisEngineDescription::TyVecpSofaMappings::const_iterator iter;
-
-            for (iter = delegateSofaMappings.begin(); iter != delegateSofaMappings.end(); ++iter) {
-              SofaMapping  * delsofamap = * iter;
-              if (delsofamap->getAggregateSofaName().compare(astr)==0) {
-                delsofamap->setAggregateSofaName(pSofaid->getSofaId());
-              }
-            }
-
-
-          }
-        }
-
-
       }
 
     }
-- 
2.43.0


From 80c5d6748177b3b474baef2afa44dbe95021cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 066/135] fix: a CAS that the pool has not lent cannot be
 returned to it

---
 src/framework/caspool.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/framework/caspool.cpp b/src/framework/caspool.cpp
index 78e966e..28ff5fe 100644
--- a/src/framework/caspool.cpp
+++ b/src/framework/caspool.cpp
@@ -113,8 +113,28 @@ namespace uima {
 
   void CASPool::releaseCAS(CAS & aCas) {
 
-    aCas.reset();
-    iv_vecFreeInstances.push_back(&aCas);
+    // it can be returned through any of its views
+    CAS * pCas = NULL;
+    size_t i;
+    for (i=0; i < iv_vecAllInstances.size(); i++) {
+      if (iv_vecAllInstances[i]->getBaseCas() == aCas.getBaseCas()) {
+        pCas = iv_vecAllInstances[i];
+        break;
+      }
+    }
+    bool bLent = pCas != NULL;
+    for (i=0; bLent && i < iv_vecFreeInstances.size(); i++) {
+      bLent = iv_vecFreeInstances[i] != pCas;
+    }
+    if (!bLent) {   // another pool's CAS, or already returned
+      UIMA_EXC_THROW_NEW(CASPoolException,
+                         UIMA_ERR_CASPOOL_GET_CAS,
+                         ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "The CAS returned to the CASPool is not lent by it."),
+                         UIMA_MSG_ID_EXC_UNEXPECTED_ERROR,
+                         ErrorInfo::unrecoverable);
+    }
+    pCas->reset();
+    iv_vecFreeInstances.push_back(pCas);
     return;
   }
 
-- 
2.43.0


From 861551f300f4f38ea76f96bb93e58ed032c8536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 067/135] fix: a remote sofa stream closes each handler it
 opened exactly once, and does not use one that failed to open

---
 src/cas/sofastream.cpp | 46 ++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..cf47a2e 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -46,6 +46,7 @@
 #include "uima/casexception.hpp"
 #include "uima/endian.h"
 #include "uima/sofastreamhandler.hpp"
+#include <memory>
 namespace uima {
 
 
@@ -63,14 +64,10 @@ namespace uima {
 
   //Destructor
   RemoteSofaDataStream::~RemoteSofaDataStream() {
-    if (iv_pHandler != NULL) {
-      iv_pHandler->closeStream();
-      delete iv_pHandler;
-      iv_pHandler = NULL;
-    }
-    if (iv_pHandlerDll != NULL) {
-      delete iv_pHandlerDll;
-      iv_pHandlerDll=NULL;
+    try {
+      close();
+    } catch (...) {
+      // the handler could not close its stream: it is gone all the same
     }
     if (iv_psofafs != NULL) {
       delete iv_psofafs;
@@ -85,6 +82,9 @@ namespace uima {
     std::string urischeme;
     util::Filename const * pDllFile=NULL;
 
+    //a stream that is open already is started anew
+    close();
+
     //get the sofa uri as UTF-8 string
     iv_psofafs->getSofaURI().extract(0,
                                      iv_psofafs->getSofaURI().length(),
@@ -128,10 +128,10 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
-    //load the handler
-    iv_pHandlerDll  = new util::DllProcLoaderFile(*pDllFile);
-    //assert(EXISTS(iv_pHandlerDll));
-    if (iv_pHandlerDll == NULL) {
+    //load the handler: the stream is open once the handler has opened it
+    std::unique_ptr<util::DllProcLoaderFile> pHandlerDll(new util::DllProcLoaderFile(*pDllFile));
+    std::unique_ptr<SofaStreamHandler> pHandler;
+    if (! pHandlerDll->isValid()) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SCHEMEHANDLER_LOAD);
       errMsg.addParam(pDllFile->getName());
       errMsg.addParam(sofauri);
@@ -142,8 +142,7 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
-    uima::TyMakeStreamHandler procMaker = (TyMakeStreamHandler) iv_pHandlerDll->getProcedure(UIMA_SOFASTREAM_MAKE_HANDLER);
-    assert(EXISTS(procMaker));
+    uima::TyMakeStreamHandler procMaker = (TyMakeStreamHandler) pHandlerDll->getProcedure(UIMA_SOFASTREAM_MAKE_HANDLER);
     if (NOTEXISTS(procMaker)) {
       ResourceManager::getInstance().getLogger().logError("RemoteSofaDataStream::open() Could not get procedure makeHandler() ");
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SCHEMEHANDLER_GETPROC);
@@ -156,9 +155,9 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
     /* first we need to create the handler */
-    iv_pHandler = (procMaker) ();
+    pHandler.reset((procMaker) ());
 
-    if (NOTEXISTS(iv_pHandler)) {
+    if (NOTEXISTS(pHandler.get())) {
       ResourceManager::getInstance().getLogger().logError("RemoteSofaDataStream::open() Could not instantiate stream handler. ");
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SCHEMEHANDLER_GETPROC);
       errMsg.addParam(pDllFile->getName());
@@ -172,10 +171,12 @@ namespace uima {
 
     /* open the stream */
     if (minbufsize > 0) {
-      iv_pHandler->openStream(sofauri.data(), minbufsize);
+      pHandler->openStream(sofauri.c_str(), minbufsize);
     } else {
-      iv_pHandler->openStream(sofauri.data());
+      pHandler->openStream(sofauri.c_str());
     }
+    iv_pHandler = pHandler.release();
+    iv_pHandlerDll = pHandlerDll.release();
 
     return 0;
   }
@@ -258,8 +259,13 @@ namespace uima {
 
   //close
   void RemoteSofaDataStream::close() {
-    if (iv_pHandler != NULL) {
-      iv_pHandler->closeStream();
+    // the handler's code is in its library, so the library goes last
+    std::unique_ptr<util::DllProcLoaderFile> pHandlerDll(iv_pHandlerDll);
+    std::unique_ptr<SofaStreamHandler> pHandler(iv_pHandler);
+    iv_pHandlerDll = NULL;
+    iv_pHandler = NULL;
+    if (pHandler) {
+      pHandler->closeStream();
     }
   }
 
-- 
2.43.0


From 0598d516495484a4f8a2b6ae790fe2d699a6c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 068/135] fix: a remote sofa stream assembles whole elements
 from short reads

---
 src/cas/sofastream.cpp | 46 ++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index cf47a2e..a1d1f15 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -226,20 +226,44 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
-    INT64 numbytesread = elementSize*numElements;
-
-    //read bytes
-    numbytesread = iv_pHandler->getNext(numbytesread,pbuffer);
+    if (elementSize != 1 && elementSize != 2 && elementSize != 4 && elementSize != 8) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(iv_psofafs->getSofaURI());
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
+    }
+    if (numElements == 0) {
+      return 0;
+    }
+    size_t numbytes = elementSize*numElements;
+    size_t numbytesread = 0;
+
+    //read bytes: the handler may deliver them in pieces
+    while (numbytesread < numbytes) {
+      INT64 numnext = iv_pHandler->getNext(numbytes-numbytesread, (char *) pbuffer + numbytesread);
+      if (numnext < SOFASTREAMHANDLER_EOF) {
+        return numnext;                               // an error
+      }
+      if (numnext <= 0) {
+        break;                                        // end of data
+      }
+      numbytesread += numnext;
+    }
 
+    size_t numread = numbytesread/elementSize;
+    if (numread == 0) {
+      return SOFASTREAMHANDLER_EOF;
+    }
     //swap bytes if needed (data read is assumed to be BE)
-    if (numbytesread > 0) {
-      if ( elementSize==2 || elementSize==4 || elementSize == 8) {
-        // Convert BE data to host byte order
-        UIMA_HIBYTEFIRST(pbuffer, elementSize, numbytesread/elementSize);
-        return numbytesread/elementSize;        // return number of elements read
-      }
+    if (elementSize > 1) {
+      // Convert BE data to host byte order
+      UIMA_HIBYTEFIRST(pbuffer, elementSize, numread);
     }
-    return numbytesread;                            // assume elementSize = 1
+    return numread;                                   // return number of elements read
   }
 
   //seek
-- 
2.43.0


From 22766ccb347ae53c9b33c020f4824ce7852f0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 069/135] fix: a local sofa stream delivers whole elements,
 stays within the data and survives growth of the CAS

---
 src/cas/sofastream.cpp      | 137 +++++++++++++++++++-----------------
 src/cas/uima/sofastream.hpp |   8 +++
 2 files changed, 82 insertions(+), 63 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index a1d1f15..18cf44c 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -321,6 +321,7 @@ namespace uima {
       iv_isfloatarray(false), iv_isbooleanarray(false),
       iv_isbytearray(false),iv_isshortarray(false),
       iv_islongarray(false),iv_isdoublearray(false),
+      iv_tyarray(lowlevel::FSHeap::INVALID_FS),
       iv_curpos(0) {
     iv_psofafs =  (SofaFS*) new FeatureStructure(aSofaFS.iv_tyFS,aSofaFS.getCAS());
     assert(iv_psofafs->isValid());
@@ -341,7 +342,7 @@ namespace uima {
     Feature stringfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFASTRING);
     Feature arrayfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY);
 
-    iv_curpos=0;
+    close();
     if  ( !iv_psofafs->isUntouchedFSValue(stringfeat) ) {     //local sofa - data in string
       //convert string to UTF-8
       UErrorCode errorcode = U_ZERO_ERROR ;
@@ -386,31 +387,24 @@ namespace uima {
       UnicodeStringRef rangeTypeName = rangeType.getName();
 
       if (rangeTypeName.compare(CAS::TYPE_NAME_INTEGER_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size = iv_psofafs->getIntArrayFSValue(arrayfeat).size()*sizeof(int);
         iv_isintarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_FLOAT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getFloatArrayFSValue(arrayfeat).size()*sizeof(float);
         iv_isfloatarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BOOLEAN_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getBooleanArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbooleanarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BYTE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getByteArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbytearray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_SHORT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get16BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getShortArrayFSValue(arrayfeat).size()*sizeof(short);
         iv_isshortarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_LONG_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getLongArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_islongarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_DOUBLE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getDoubleArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_isdoublearray = true;
       } else {
@@ -422,6 +416,7 @@ namespace uima {
                            UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                            ErrorInfo::unrecoverable);
       }
+      iv_tyarray = arrayFS.iv_tyFS;
     } else {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(type.getName());
@@ -437,21 +432,43 @@ namespace uima {
 
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
-    if (iv_size==0) {
+    if (getElementSize()==0) {
       return SOFASTREAMHANDLER_EOF;
     } else return iv_size;
   }
 
-  //howManyBytesAvailable
-  INT64 LocalSofaDataStream::howManyBytesAvailable() {
-    return (getTotalStreamSizeInBytes()-iv_curpos);
+  int LocalSofaDataStream::getElementSize() const {
+    if (iv_isstring || iv_isbooleanarray || iv_isbytearray) {
+      return sizeof(char);
+    } else if (iv_isshortarray) {
+      return sizeof(short);
+    } else if (iv_isintarray || iv_isfloatarray) {
+      return sizeof(int);
+    } else if (iv_islongarray || iv_isdoublearray) {
+      return sizeof(INT64);
+    }
+    return 0;
   }
 
+  const char * LocalSofaDataStream::getData() {
+    if (iv_isstring || getElementSize()==0) {
+      return iv_psofadata;
+    }
+    lowlevel::FSHeap * pHeap = iv_psofafs->getCAS().getHeap();
+    switch (getElementSize()) {
+    case sizeof(char):
+      return (char*) pHeap->get8BitArray(iv_tyarray);
+    case sizeof(short):
+      return (char*) pHeap->get16BitArray(iv_tyarray);
+    case sizeof(int):
+      return (char*) pHeap->getCArrayFromFS(iv_tyarray);
+    default:
+      return (char*) pHeap->get64BitArray(iv_tyarray);
+    }
+  }
 
-  //read
-  int LocalSofaDataStream::read( void * pbuffer, int elementSize, size_t numElements) {
-    //check valid sofa data
-    if (iv_psofadata == NULL) {
+  void LocalSofaDataStream::checkOpen() {
+    if (getElementSize()==0) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -460,35 +477,25 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+  }
+
+  //howManyBytesAvailable
+  INT64 LocalSofaDataStream::howManyBytesAvailable() {
+    return (getTotalStreamSizeInBytes()-iv_curpos);
+  }
 
-    //check for eof
-    if (iv_curpos == iv_size) {
-      return SOFASTREAMHANDLER_EOF;
-    }
+
+  //read
+  int LocalSofaDataStream::read( void * pbuffer, int elementSize, size_t numElements) {
+    //check valid sofa data
+    checkOpen();
 
     //validate element size vis-a-vis datatype of sofa data
-    if (iv_isstring && elementSize != 1) {
+    if (elementSize != getElementSize()) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
       errMsg.addParam(elementSize);
-      errMsg.addParam(CAS::TYPE_NAME_STRING);
-      UIMA_EXC_THROW_NEW(SofaDataStreamException,
-                         UIMA_ERR_SOFADATASTREAM,
-                         errMsg,
-                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
-                         ErrorInfo::unrecoverable);
-    } else if (iv_isintarray && elementSize != sizeof(int)) {
-      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
-      errMsg.addParam(elementSize);
-      errMsg.addParam(CAS::TYPE_NAME_INTEGER_ARRAY);
-      UIMA_EXC_THROW_NEW(SofaDataStreamException,
-                         UIMA_ERR_SOFADATASTREAM,
-                         errMsg,
-                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
-                         ErrorInfo::unrecoverable);
-    } else if (iv_isfloatarray && elementSize != sizeof(float) ) {
-      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
-      errMsg.addParam(elementSize);
-      errMsg.addParam(CAS::TYPE_NAME_FLOAT_ARRAY);
+      errMsg.addParam(iv_isstring ? icu::UnicodeString(CAS::TYPE_NAME_STRING)
+                      : FeatureStructure(iv_tyarray, iv_psofafs->getCAS()).getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
                          UIMA_ERR_SOFADATASTREAM,
                          errMsg,
@@ -496,41 +503,38 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
-    INT64 numbytesread=elementSize*numElements;
-    if (numbytesread > howManyBytesAvailable() ) {
-      numbytesread= howManyBytesAvailable();
+    size_t numread = howManyBytesAvailable() / elementSize;
+    if (numread > numElements) {
+      numread = numElements;
+    }
+    //check for eof
+    if (numread == 0) {
+      return numElements == 0 ? 0 : SOFASTREAMHANDLER_EOF;
     }
 
     //read bytes
-    memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
+    memcpy(pbuffer,getData()+iv_curpos,numread*elementSize);
 
     //move current read position
-    iv_curpos += numbytesread;
+    iv_curpos += numread*elementSize;
 
-    return numbytesread;
+    return numread;
   }
 
   //seek
   int LocalSofaDataStream::seek(INT64 offset, int origin) {
-    if (iv_psofadata == NULL) {
-      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
-      errMsg.addParam(iv_psofafs->getType().getName());
-      UIMA_EXC_THROW_NEW(SofaDataStreamException,
-                         UIMA_ERR_SOFADATASTREAM,
-                         errMsg,
-                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
-                         ErrorInfo::unrecoverable);
-    }
+    checkOpen();
 
+    INT64 newpos = 0;
     switch (origin) {
     case SEEK_SET:
-      iv_curpos = offset;
+      newpos = offset;
       break ;
     case SEEK_CUR:
-      iv_curpos += offset;
+      newpos = iv_curpos + offset;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      newpos = getTotalStreamSizeInBytes() - offset;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
@@ -541,6 +545,11 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+    //the position stays within the data
+    if (newpos < 0 || newpos > getTotalStreamSizeInBytes()) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    iv_curpos = newpos;
     return 0;
   }
 
@@ -555,15 +564,17 @@ namespace uima {
     iv_isstring=false;
     iv_isintarray=false;
     iv_isfloatarray=false;
+    iv_isbooleanarray=false;
+    iv_isbytearray=false;
+    iv_isshortarray=false;
+    iv_islongarray=false;
+    iv_isdoublearray=false;
+    iv_tyarray=lowlevel::FSHeap::INVALID_FS;
   }
 
   //getDataPointer
   const TySofaDataPointer LocalSofaDataStream::getDataPointer() {
-    TySofaDataPointer dataptr=NULL;
-    if (iv_psofadata != NULL) {
-      dataptr = (TySofaDataPointer) iv_psofadata;
-    }
-    return dataptr;
+    return (TySofaDataPointer) getData();
   }
 
 
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a2e7d2c..5307b05 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -207,6 +207,13 @@ namespace uima {
     const TySofaDataPointer getDataPointer();
 
   private:
+    /** The sofa data: that of an array moves when the heap of the CAS grows. */
+    const char * getData();
+    /** Size of one element of the sofa data, 0 if the stream is not open. */
+    int getElementSize() const;
+    /** Throws if the stream is not open. */
+    void checkOpen();
+
     SofaFS * iv_psofafs;           //the SofaFS
     const char * iv_psofadata;    //ptr to the sofa data
     char * iv_pstringsofadata;    //ptr to UTF 8 string
@@ -220,6 +227,7 @@ namespace uima {
     bool iv_isshortarray;         //is sofa data stored in a FS array of floats
     bool iv_islongarray;         //is sofa data stored in a FS array of floats
     bool iv_isdoublearray;         //is sofa data stored in a FS array of floats
+    lowlevel::TyFS iv_tyarray;     //the FS array the sofa data is stored in
   };
 
 
-- 
2.43.0


From 29b6db5ac99386c3401e1a6cf6408df71a9edcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 070/135] fix: a long message no longer overruns the buffer it
 is formatted in

---
 src/framework/exceptions.cpp | 52 +++++++++---------------------------
 1 file changed, 12 insertions(+), 40 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index bf6b084..e684f8d 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -198,7 +198,9 @@ namespace uima {
 
     // Check for unknown message id
     if (iv_utMsgId < 0 || iv_utMsgId > UIMA_MSG_ID_SIGNATURE_END) {
-      return string("Unknown message id " + iv_utMsgId);
+      stringstream str;
+      str << "Unknown message id " << iv_utMsgId;
+      return str.str();
     }
 
     //parameter substitution
@@ -207,66 +209,36 @@ namespace uima {
     const TCHAR ** messages = gs_aszMessageStringTable;
     const TCHAR * msg = messages[iv_utMsgId];
 
-    TCHAR * buf = new TCHAR[UIMA_MSG_MAX_STR_LEN];
-    memset(buf,'\0',UIMA_MSG_MAX_STR_LEN);
-
-    int numwritten=0;
-
-    TCHAR * trg = buf;
+    string target;
     while (*msg) {
-      if (numwritten > UIMA_MSG_MAX_STR_LEN) {
-        break;
-      }
       if (*msg == UIMA_MSG_REPLACE_CHAR) {
         msg = msg+1;
         if (*msg == UIMA_MSG_REPLACE_CHAR) {
-          *trg = *msg;
-          trg = trg +1;
-          ;
+          target += *msg;
           msg = msg+1;
-          numwritten++;
         } else {  //replace %n with the corresponding param
           unsigned long index;
-          int len;
-          string arg;
           // determine the number of the specified argument ...
           index = (unsigned long) atol(msg);
-          if (index > numparams)       // param not defined
-          {
-            arg = "???";      // replace it by "dont-know"
+          if (index < 1 || index > numparams) {     // param not defined
+            target += "???";      // replace it by "dont-know"
           } else {
             // ... the indexed argument ...
-            arg = iv_vecParams[index - 1]; // zero-based array!
-            //assert(arg.length() > 0);
+            target += iv_vecParams[index - 1]; // zero-based array!
           }
-          len = arg.length();
-          // ... and then copy the argument
-          if (UIMA_MSG_MAX_STR_LEN-numwritten < len) {
-            len = UIMA_MSG_MAX_STR_LEN - numwritten;
-          }
-          if (len > 0) {
-            strncpy(trg, arg.c_str(), len);
-            trg = trg+len;
+          if (*msg) {
+            msg = msg+1;
           }
-          msg = msg+1;
           while ( isdigit(*msg) ) { //handle arg number 10 or more
             msg = msg+1;
           }
         }
       } else {
-        *trg = *msg;
-        trg = trg+1;
+        target += *msg;
         msg = msg+1;
       }
     }
-    //cout << buf << endl;
-   string target(buf);
-   delete[] buf ;
-   return target;
-	 //string target;
-	 //target.assign(buf, UIMA_MSG_MAX_STR_LEN);                   // Copy the result to the string
-   //delete buf;
-	 //return target;
+    return target;
   }
 
   ostream &
-- 
2.43.0


From 21b92fcb202ee6ad4c789049cd3ca1dda54fe257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 071/135] fix: every log facility names its origin, not only
 the first

---
 src/framework/log.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index a408b78..0ada0a4 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -245,11 +245,11 @@ namespace uima {
       iv_logStream(*this, LogStream::EnMessage),
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
+   UnicodeStringRef ref(crEngineName);
+   ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
    if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -268,11 +268,11 @@ namespace uima {
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(crLoggingLevel) {
 
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
     if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-- 
2.43.0


From fda791b64318fb20325311077b1eb7c9dcffcf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 072/135] fix: a logger that throws no longer blocks all
 logging

---
 src/framework/log.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 0ada0a4..6a78ee1 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -152,8 +152,13 @@ namespace uima {
     string method="";
     if (isLoggable(enType)) {
       for (int i=0; i < vecLoggers.size(); i++) {
-        vecLoggers.at(i)->log(enType,this->iv_strOrigin,
+        try {
+          vecLoggers.at(i)->log(enType,this->iv_strOrigin,
                                      method,cpszMsg,lUserCode);
+        } catch (...) {
+          // a logger that fails must not keep the message from the others,
+          // nor leave the mutex locked
+        }
       }
     }
     apr_thread_mutex_unlock(logMutex);
-- 
2.43.0


From 291d65662888acb43121cbcd37193aafea623412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 073/135] fix: text left in a log stream is logged once, with
 its own severity

---
 src/framework/log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 6a78ee1..2d5ba13 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -231,8 +231,8 @@ namespace uima {
   }
 
   LogStream & LogFacility::getLogStream(LogStream::EnEntryType enLogEntryType) {
-    iv_logStream.iv_enLogEntryType = enLogEntryType;
     flushLogStream();
+    iv_logStream.iv_enLogEntryType = enLogEntryType;
     return iv_logStream;
   }
 
@@ -241,6 +241,7 @@ namespace uima {
     if (strMsg.size() == 0) {
       return;
     }
+    iv_logStream.str("");
     log(iv_logStream.iv_enLogEntryType, strMsg.c_str());
   }
 
-- 
2.43.0


From 32d2cda9bba9217ad58ddaa31aa424ad31f087d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 074/135] fix: loggers may be registered and removed while
 others log

---
 src/framework/log.cpp         | 29 +----------------------------
 src/framework/resmgr.cpp      |  8 ++++++++
 src/framework/uima/resmgr.hpp |  6 ++++++
 3 files changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 2d5ba13..f27597a 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -49,8 +49,6 @@
 
 #define UIMA_LOG_APPLICATION_KEY_UNKNOWN      _TEXT("???")
 const size_t                  UIMA_LOG_STATIC_CONVERSION_BUFSIZE = 1024;
-static apr_pool_t         * logPool=0;
-static apr_thread_mutex_t * logMutex=0;
 using namespace std;
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -148,7 +146,7 @@ namespace uima {
   void LogFacility::doLog(LogStream::EnEntryType enType, const TCHAR * cpszMsg, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    apr_thread_mutex_lock(logMutex);
+    std::lock_guard<std::recursive_mutex> lock(ResourceManager::getLoggersMutex());
     string method="";
     if (isLoggable(enType)) {
       for (int i=0; i < vecLoggers.size(); i++) {
@@ -161,7 +159,6 @@ namespace uima {
         }
       }
     }
-    apr_thread_mutex_unlock(logMutex);
   }
 
   bool LogFacility::isLoggable(LogStream::EnEntryType enType) const {
@@ -253,18 +250,6 @@ namespace uima {
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
    UnicodeStringRef ref(crEngineName);
    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
-   if (logPool == NULL) {
-      apr_status_t rv = apr_pool_create( &logPool,NULL );
-      if ( rv == APR_SUCCESS ) {
-        apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
-      } else {
-        UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-          UIMA_ERR_ENGINE_OUT_OF_MEMORY,
-          UIMA_MSG_ID_EXC_OUT_OF_MEMORY,
-          ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_POOL_FOR_CLASS,"uima::LogFacility"),
-          ErrorInfo::unrecoverable);
-      }
-   }
   }
 
   LogFacility::LogFacility(icu::UnicodeString const & crEngineName,
@@ -276,18 +261,6 @@ namespace uima {
 
     UnicodeStringRef ref(crEngineName);
     ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
-    if (logPool == NULL) {
-      apr_status_t rv = apr_pool_create( &logPool,NULL );
-      if ( rv == APR_SUCCESS ) {
-        apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
-      } else {
-        UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-          UIMA_ERR_ENGINE_OUT_OF_MEMORY,
-          UIMA_MSG_ID_EXC_OUT_OF_MEMORY,
-          ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_POOL_FOR_CLASS,"uima::LogFacility"),
-          ErrorInfo::unrecoverable);
-      }
-    }
   }
 
   LogFacility::~LogFacility() {
diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 111ff0e..82f3dc9 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -504,14 +504,22 @@ namespace uima {
   }
 
   void ResourceManager::registerLogger(Logger * pLogger) {
+    std::lock_guard<std::recursive_mutex> lock(getLoggersMutex());
  	iv_loggers.push_back(pLogger);
   }
 
   vector<Logger*> & ResourceManager::getLoggers() {
  	return iv_loggers;
   }
+
+  /* static */ std::recursive_mutex & ResourceManager::getLoggersMutex() {
+    // never deleted: it is used until the last log facility is gone
+    static std::recursive_mutex * pMutex = new std::recursive_mutex();
+    return *pMutex;
+  }
   
   void ResourceManager::unregisterLogger(Logger * pLogger) {
+      std::lock_guard<std::recursive_mutex> lock(getLoggersMutex());
       vector<Logger*>::iterator iter;
  	for (iter=iv_loggers.begin(); iter  != iv_loggers.end();iter++) {
   		if (*iter == pLogger) {
diff --git a/src/framework/uima/resmgr.hpp b/src/framework/uima/resmgr.hpp
index 79699a2..a2dd7e0 100644
--- a/src/framework/uima/resmgr.hpp
+++ b/src/framework/uima/resmgr.hpp
@@ -47,6 +47,7 @@
 
 #include <vector>
 #include <map>
+#include <mutex>
 
 #include "unicode/unistr.h"
 
@@ -252,6 +253,11 @@ namespace uima {
 
     std::vector<Logger*> & getLoggers();
 
+    /**
+     * The lock held while loggers are registered, unregistered or called.
+     */
+    static std::recursive_mutex & getLoggersMutex();
+
     /*@}*/
   protected:
     /* --- functions --- */
-- 
2.43.0


From 3aeb7490dc43e1fda5e94271a218bd2b86ffaabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 075/135] fix: the last error of a log facility that threads
 share

---
 src/framework/log.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index f27597a..361b1c3 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -180,6 +180,8 @@ namespace uima {
     doLog(enType, cpszMsg, lUserCode);
 
     if (enType == LogStream::EnError) {
+      // threads may share this facility
+      std::lock_guard<std::recursive_mutex> lock(ResourceManager::getLoggersMutex());
       LogFacility * pclThis = CONST_CAST(LogFacility *, this);
       assert(pclThis == this);
       //remember last error as string/number
@@ -196,6 +198,8 @@ namespace uima {
   {
     doLog(enType, errInfo.asString().c_str());
 
+    // threads may share this facility
+    std::lock_guard<std::recursive_mutex> lock(ResourceManager::getLoggersMutex());
     LogFacility * pclThis = CONST_CAST(LogFacility *, this);
     assert(pclThis == this);
     //remember last error as error info object
@@ -280,6 +284,8 @@ namespace uima {
 
   ErrorInfo const & LogFacility::getLastError() const {
     /* ----------------------------------------------------------------------- */
+    // threads may share this facility
+    std::lock_guard<std::recursive_mutex> lock(ResourceManager::getLoggersMutex());
     // check if we have a string or info based information on last error
     if (iv_strLastError.length() > 0) {
       // if we have error string the error object must be clear
-- 
2.43.0


From 03d655a2fb423d44bc7f5c51079148f957f14c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 076/135] fix: threads that ask for the same resource obtain
 the same instance

---
 src/framework/resmgr.cpp      | 18 ++++++++++++++----
 src/framework/uima/resmgr.hpp |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 82f3dc9..8cefe62 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -450,7 +450,8 @@ namespace uima {
 //      assertWithMsg(false, "Implement caching functionality");
     icu::UnicodeString const & crKind = crFactory.getKind();
     UIMA_TPRINT("Creating resource with kind " << crKind << " and key " << crKey);
-    // acquire mutex lock
+    // a resource is created once, whichever thread asks for it first
+    std::lock_guard<std::recursive_mutex> lock(iv_resourcesMutex);
 
     TyResourceList & rResList = iv_resources[crKind];
     ResourceABase * pResource = NULL;
@@ -465,14 +466,20 @@ namespace uima {
     // if the resource was not found
     if (pResource == NULL) {
       pResource = crFactory.createResource( crKey );
-      pResource->init(rErrInfo);
+      try {
+        pResource->init(rErrInfo);
+        if (rErrInfo.getErrorId() == UIMA_ERR_NONE) {
+          rResList.push_back(pResource);
+        }
+      } catch (...) {
+        delete pResource;
+        throw;
+      }
       if (rErrInfo.getErrorId() != UIMA_ERR_NONE) {
         delete pResource;
         return NULL;
       }
-      rResList.push_back(pResource);
     }
-    // release mutex lock
     UIMA_TPRINT("...resource created: " << pResource);
     assert( EXISTS( pResource ) );
     return pResource;
@@ -539,10 +546,12 @@ namespace uima {
 
 
   void ResourceManager::registerFactory(icu::UnicodeString const & crKind, ResourceFactoryABase & crFactory) {
+    std::lock_guard<std::recursive_mutex> lock(iv_resourcesMutex);
     iv_resourceFactories.insert(TyResourceFactories::value_type(crKind, &crFactory));
   }
 
   void ResourceManager::deRegisterFactory(icu::UnicodeString const & crKind, ResourceFactoryABase & crFactory) {
+    std::lock_guard<std::recursive_mutex> lock(iv_resourcesMutex);
     TyResourceFactories::iterator it = iv_resourceFactories.find(crKind);
     if (it != iv_resourceFactories.end()) {
       assert( (*it).second == &crFactory );
@@ -554,6 +563,7 @@ namespace uima {
     icu::UnicodeString const & crKey,
     icu::UnicodeString const & crKind,
     ErrorInfo &                errorInfo) {
+    std::lock_guard<std::recursive_mutex> lock(iv_resourcesMutex);
     TyResourceFactories::iterator  it = iv_resourceFactories.find(crKind);
     if (it == iv_resourceFactories.end()) {
       errorInfo.setErrorId(UIMA_ERR_RESMGR_NO_RESOURCE_FACTORY_FOR_KIND);
diff --git a/src/framework/uima/resmgr.hpp b/src/framework/uima/resmgr.hpp
index a2dd7e0..b5d716d 100644
--- a/src/framework/uima/resmgr.hpp
+++ b/src/framework/uima/resmgr.hpp
@@ -268,6 +268,7 @@ namespace uima {
     ////bool                    iv_bIgnoreAnnotatorPathSpec;
 
 
+    std::recursive_mutex iv_resourcesMutex;  // guards the resources and their factories
     typedef std::vector<ResourceABase *> TyResourceList;
     typedef std::map<icu::UnicodeString, TyResourceList > TyResources;
     TyResources iv_resources;
-- 
2.43.0


From d43a427979c234132c1dd10549f28fc47358fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 077/135] fix: the resource manager is created once, complete
 or not at all

---
 src/framework/log.cpp      |  12 ++++
 src/framework/resmgr.cpp   | 115 +++++++++++++++++++++----------------
 src/framework/uima/log.hpp |   3 +
 3 files changed, 79 insertions(+), 51 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 361b1c3..f7ef17c 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -267,6 +267,18 @@ namespace uima {
     ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
   }
 
+  LogFacility::LogFacility(icu::UnicodeString const & crEngineName,
+                           LogStream::EnEntryType crLoggingLevel,
+                           std::vector<Logger*> & rLoggers):
+      iv_lLastUserCode(0),
+      iv_logStream(*this, crLoggingLevel),
+      vecLoggers(rLoggers),
+      iv_logLevel(crLoggingLevel) {
+
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
+  }
+
   LogFacility::~LogFacility() {
     flushLogStream();
   }
diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 8cefe62..5088e19 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -633,10 +633,17 @@ namespace uima {
   /*       Static implementation                                             */
   /* ----------------------------------------------------------------------- */
 
+  // the lock held while the instance is created or deleted
+  static std::recursive_mutex & getInstanceMutex() {
+    // never deleted: the instance may be deleted by a static destructor
+    static std::recursive_mutex * pMutex = new std::recursive_mutex();
+    return *pMutex;
+  }
+
   /* static */ ResourceManager & ResourceManager::createInstance(const TCHAR * cpszInstance, const TCHAR * cpszProductPrefix)
   /* ----------------------------------------------------------------------- */
   {
-    // acquire mutex
+    std::lock_guard<std::recursive_mutex> lock(getInstanceMutex());
     if (NOTEXISTS(cv_pclSingletonInstance)) {
 
       // First must initialize apr (re-init is OK)
@@ -651,59 +658,66 @@ namespace uima {
                            ErrorInfo::unrecoverable);
       }
 
-      cv_pclSingletonInstance = new ResourceManager(cpszInstance, cpszProductPrefix);
-      assert(EXISTS(cv_pclSingletonInstance));
-      // Initialize the ICU
-      UErrorCode status = U_ZERO_ERROR;
-      u_init(&status);
-      if (status != U_ZERO_ERROR) {
-        char buffer[100];
-        sprintf(buffer, "ICU init failed with %d", status);
-        UIMA_EXC_THROW_NEW(Uima_runtime_error,
-                           UIMA_MSG_ID_LITERAL_STRING,
-                           UIMA_MSG_ID_LITERAL_STRING,
-                           ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, buffer),
-                           ErrorInfo::unrecoverable);
-      }
+      // the instance is made known when it is complete: other threads may be looking
+      ResourceManager * pInstance = NULL;
+      bool xmlInitialized = false;
       try {
-        // initialize XML4C stuff
-        XMLPlatformUtils::Initialize();
-      } catch (XMLException& ) {
-        cv_pclSingletonInstance->iv_utLastErrorId = UIMA_ERR_RESMGR_COULD_NOT_INITIALIZE_XML4C;
-        assertWithMsg(false, "XML4C initialization failed");
-      }
-
-      //create the fileLogger if UIMACPP_LOGFILE env variable is set
-      /* determine log file name */
-      string str = UIMA_ENVVAR_LOG_FILE;
-      util::EnvironmentVariableQueryOnly clEnvVarLogFilePath(str.c_str());
-      UIMA_TPRINT(_TEXT("querying envvar: ") << str.c_str());
-      if (clEnvVarLogFilePath.hasValue()) {
-        const TCHAR *  cpszLogFile = clEnvVarLogFilePath.getValue();
-        UIMA_TPRINT(_TEXT("value: ") << cpszLogFile);
-
-        /* create an instance of FileLogger and register it. */
-        cv_pclSingletonInstance->iv_fileLogger = new FileLogger(cpszLogFile);
-
-        if (cv_pclSingletonInstance->iv_fileLogger == NULL) {   //Need to handle this better
-          //cerr << "Could not open the log file " << cpszLogFile << endl;
-          str = "Could not create FileLogger";
-          str += cpszLogFile;
+        pInstance = new ResourceManager(cpszInstance, cpszProductPrefix);
+        assert(EXISTS(pInstance));
+        // Initialize the ICU
+        UErrorCode status = U_ZERO_ERROR;
+        u_init(&status);
+        if (status != U_ZERO_ERROR) {
+          char buffer[100];
+          sprintf(buffer, "ICU init failed with %d", status);
           UIMA_EXC_THROW_NEW(Uima_runtime_error,
-                           UIMA_MSG_ID_LITERAL_STRING,
-                           UIMA_MSG_ID_LITERAL_STRING,
-                           ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, str.c_str()),
-                           ErrorInfo::unrecoverable);
-        } else {
-          cv_pclSingletonInstance->registerLogger(cv_pclSingletonInstance->iv_fileLogger);
+                             UIMA_MSG_ID_LITERAL_STRING,
+                             UIMA_MSG_ID_LITERAL_STRING,
+                             ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, buffer),
+                             ErrorInfo::unrecoverable);
+        }
+        try {
+          // initialize XML4C stuff
+          XMLPlatformUtils::Initialize();
+          xmlInitialized = true;
+        } catch (XMLException& ) {
+          pInstance->iv_utLastErrorId = UIMA_ERR_RESMGR_COULD_NOT_INITIALIZE_XML4C;
+          assertWithMsg(false, "XML4C initialization failed");
         }
-      } 
 
-      //instantiate framework logger
-      cv_pclSingletonInstance->iv_frameworkLogger = new LogFacility(icu::UnicodeString("org.apache.uima.cpp"), cv_pclSingletonInstance->iv_logLevel);
+        //create the fileLogger if UIMACPP_LOGFILE env variable is set
+        /* determine log file name */
+        string str = UIMA_ENVVAR_LOG_FILE;
+        util::EnvironmentVariableQueryOnly clEnvVarLogFilePath(str.c_str());
+        UIMA_TPRINT(_TEXT("querying envvar: ") << str.c_str());
+        if (clEnvVarLogFilePath.hasValue()) {
+          const TCHAR *  cpszLogFile = clEnvVarLogFilePath.getValue();
+          UIMA_TPRINT(_TEXT("value: ") << cpszLogFile);
+
+          /* create an instance of FileLogger and register it. */
+          pInstance->iv_fileLogger = new FileLogger(cpszLogFile);
+          pInstance->registerLogger(pInstance->iv_fileLogger);
+        }
 
-      cv_pclSingletonInstance->iv_frameworkLogger->logMessage("ResourceManager Instance created.");
-    } // release mutex
+        //instantiate framework logger
+        pInstance->iv_frameworkLogger = new LogFacility(icu::UnicodeString("org.apache.uima.cpp"), pInstance->iv_logLevel, pInstance->iv_loggers);
+
+        pInstance->iv_frameworkLogger->logMessage("ResourceManager Instance created.");
+      } catch (...) {
+        // undo what was done so that a later call can succeed
+        if (pInstance != NULL) {
+          delete pInstance->iv_frameworkLogger;
+          delete pInstance->iv_fileLogger;
+          delete pInstance;
+        }
+        if (xmlInitialized) {
+          XMLPlatformUtils::Terminate();
+        }
+        apr_terminate();
+        throw;
+      }
+      cv_pclSingletonInstance = pInstance;
+    }
     UIMA_TPRINT("ResourceManager instance created");
     return(*cv_pclSingletonInstance);
   }
@@ -723,7 +737,7 @@ namespace uima {
   /* ----------------------------------------------------------------------- */
   void ResourceManager::deleteInstance(void) {
     UIMA_TPRINT(_TEXT("deleting..."));
-    // acquire mutex
+    std::lock_guard<std::recursive_mutex> lock(getInstanceMutex());
     if (cv_pclSingletonInstance != 0 ) {
       try {
         XMLPlatformUtils::Terminate();
@@ -753,7 +767,6 @@ namespace uima {
       UIMA_TPRINT("ResMgr instance deleted");
     }
     assert( cv_pclSingletonInstance == 0 );
-    // release mutex
   }
 
   bool
diff --git a/src/framework/uima/log.hpp b/src/framework/uima/log.hpp
index 4f0e56f..241b330 100644
--- a/src/framework/uima/log.hpp
+++ b/src/framework/uima/log.hpp
@@ -279,6 +279,9 @@ namespace uima {
     bool           isLoggable(LogStream::EnEntryType) const;
 
 
+    /* used by the ResourceManager for its own facility, before it is available from getInstance() */
+    friend class ResourceManager;
+    LogFacility(icu::UnicodeString const &, LogStream::EnEntryType level, std::vector<Logger*> & rLoggers);
     /* COPY CONSTRUCTOR NOT SUPPORTED */
     LogFacility(const LogFacility & ); //lint !e1704
     /* ASSIGNMENT OPERATOR NOT SUPPORTED */
-- 
2.43.0


From 178ff3b7c27f1614818070607ad13a0505cbe765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 078/135] fix: a stream handler list without a colon

---
 src/framework/resmgr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 5088e19..a3bf847 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -270,6 +270,9 @@ namespace uima {
         while (*curptr == ' ')
           ++curptr;
         chptr = strchr(curptr, ':');
+        if (chptr == NULL) {       // no (further) uri:dllfilename pair
+          break;
+        }
 
         int len = chptr - curptr;
         if (len > 0) {
-- 
2.43.0


From f1cafcf239914e1719d4cb809a5f5bf019c4ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 079/135] fix: threads parsing descriptors at the same time
 share no buffer

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f450ae4..082faec 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -71,7 +71,8 @@ namespace uima {
 
   UIMA_EXC_CLASSIMPLEMENT(InvalidXMLException, uima::Exception);
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
+  // one per thread: threads parse descriptors independently of each other
+  static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
-- 
2.43.0


From f1782d7cbc501ac11b6029785a5344181f9ccb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 080/135] fix: type system descriptions are parsed from bytes
 that still exist

---
 src/framework/engine.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index ed349d6..5744304 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -498,12 +498,13 @@ namespace uima {
   TypeSystem * Framework::createTypeSystem(UChar const * cpBuffer,
       size_t uiLength,
       ErrorInfo& rErrorInfo) {
-    UnicodeStringRef usRef(cpBuffer, uiLength);
+    // the input source refers to these bytes while it is parsed
+    std::string xmlStr = UnicodeStringRef(cpBuffer, uiLength).asUTF8();
     XMLParser builder;
     AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *)usRef.asUTF8().c_str(),
-		                    usRef.asUTF8().length(),
+    MemBufInputSource memIS((XMLByte const *)xmlStr.c_str(),
+		                    xmlStr.length(),
 							"sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
@@ -587,11 +588,12 @@ namespace uima {
 
   //create TypeSystemDescription object from xml spec in buffer
   TypeSystemDescription * Framework::createTypeSystemDescription(UChar const * cpBuffer, size_t uiLength) {
-    UnicodeStringRef usRef(cpBuffer, uiLength);
+    // the input source refers to these bytes while it is parsed
+    std::string xmlStr = UnicodeStringRef(cpBuffer, uiLength).asUTF8();
     XMLParser builder;
     TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *) usRef.asUTF8().c_str(), 
-		                     usRef.asUTF8().length(), "sysID");
+    MemBufInputSource memIS((XMLByte const *) xmlStr.c_str(), 
+		                     xmlStr.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
-- 
2.43.0


From 02b3cffc8743a64d5d087174028b0e90a44fe037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 081/135] fix: a type system description is read from the file
 it names

---
 src/framework/engine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 5744304..65331b0 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -601,7 +601,8 @@ namespace uima {
   //read in xml from a file and create a TypeSystemDescription object
   TypeSystemDescription * Framework::createTypeSystemDescription(char const * crFileName) {
     XMLParser builder;
-	LocalFileInputSource fileIS((XMLCh const *)crFileName);
+    icu::UnicodeString ufn(crFileName);
+	LocalFileInputSource fileIS((XMLCh const *) ufn.getTerminatedBuffer());
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
     builder.parseTypeSystemDescription(*tsDesc,fileIS);
 	return tsDesc;
-- 
2.43.0


From 4301aa8ecb705d6c8f89a343d73a8fa7a38924a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 082/135] fix: error messages contain texts of parser errors,
 not their addresses

---
 src/framework/exceptions.cpp      | 8 ++++++++
 src/framework/uima/exceptions.hpp | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index e684f8d..3406e6f 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -278,6 +278,14 @@ namespace uima {
     return (os);
   }
 
+  void ErrorMessage::addParam(UChar const * cpUCText) {
+    std::string s;
+    if (cpUCText != NULL) {
+      UnicodeStringRef(cpUCText).extract(s);         // Convert to default encoding for platform
+    }
+    iv_vecParams.push_back(s);
+  }
+
   void ErrorMessage::reset(void) {
     iv_utMsgId = UIMA_MSG_ID_NO_MESSAGE_AVAILABLE;
     iv_vecParams.clear();
diff --git a/src/framework/uima/exceptions.hpp b/src/framework/uima/exceptions.hpp
index f340113..f1a1c4b 100644
--- a/src/framework/uima/exceptions.hpp
+++ b/src/framework/uima/exceptions.hpp
@@ -178,6 +178,12 @@ namespace uima {
       message << p;
       iv_vecParams.push_back(message.str());
 	}
+
+	///a text, which is not to be taken for a mere pointer
+	void addParam(UChar const * cpUCText);
+	void addParam(UChar * cpUCText) {
+	  addParam((UChar const *) cpUCText);
+	}
     /*------------------------- Attributes --------------------------------*/
     ///accessor for the message id
     TyMessageId                   getMessageID() const {
-- 
2.43.0


From 05633d07c6a2050927f7d5822be61deaba4f7fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 083/135] fix: threads writing XCAS at the same time share no
 view number

---
 src/cas/xmlwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 778e2cc..3e631cd 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -56,7 +56,6 @@ XERCES_CPP_NAMESPACE_USE
 char const * gs_cpszFSTagName = "fs";
 char const * gs_cpszFeatTagName = "feat";
 char const * gs_cpszXslFileName = "fsdump.xsl";
-int sofa;
 
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -672,6 +671,7 @@ namespace uima {
 
   void XCASWriter::write(ostream & os) {
     const uima::lowlevel::IndexRepository * ixRep;
+    int sofa;
     clear();
     os << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << endl;
     os << "<CAS>" << endl;
-- 
2.43.0


From b129ef548a0367ad62d7362e761293c0eea82f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 084/135] fix: threads reading type systems at the same time
 share no buffer

---
 src/cas/xmltypesystemreader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmltypesystemreader.cpp b/src/cas/xmltypesystemreader.cpp
index ec43b58..2b9a2b3 100644
--- a/src/cas/xmltypesystemreader.cpp
+++ b/src/cas/xmltypesystemreader.cpp
@@ -95,7 +95,8 @@ namespace uima {
   };
 
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
+  // one per thread: threads read type systems independently of each other
+  static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
   XMLCh const * convert(char const * cpBuf) {
     bool bTranscodeSuccess = XMLString::transcode( cpBuf, gs_tempXMLChBuffer, MAXXMLCHBUFF -1 );
-- 
2.43.0


From 65c8e4078e77b34a6a4bda772445ac821100130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 085/135] fix: XCAS input with damaged numbers, ids, references
 or sofas is refused, not followed out of memory

---
 src/cas/uima/xcasdeserializer_handler.hpp |   5 +-
 src/cas/xcasdeserializer_handler.cpp      | 200 +++++++++++-----------
 2 files changed, 107 insertions(+), 98 deletions(-)

diff --git a/src/cas/uima/xcasdeserializer_handler.hpp b/src/cas/uima/xcasdeserializer_handler.hpp
index f5f50fa..d7fa354 100644
--- a/src/cas/uima/xcasdeserializer_handler.hpp
+++ b/src/cas/uima/xcasdeserializer_handler.hpp
@@ -126,6 +126,9 @@ namespace uima {
     void handleFeature(Type & type, lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal,
                        bool lenient);
     void finalizeFS(FSInfo & fsInfo);
+    void registerFS(int id, FSInfo * fsInfo);
+    lowlevel::TyFS resolve(lowlevel::TyFS id);
+    void illFormed(icu::UnicodeString const & what, icu::UnicodeString const & value);
     void readArray(Type & type, const Attributes & attrs);
     void readArrayElement(icu::UnicodeString & qualifiedName, const Attributes & attrs);
     void addArrayElement(icu::UnicodeString & buffer);
@@ -169,7 +172,7 @@ namespace uima {
     std::vector<FSInfo*> idLess;
 
     //maps for deserializing v1.x format XCAS documents
-    std::vector<int> sofaRefMap;
+    std::map<int, int> sofaRefMap;
     std::vector<int> indexMap;
     int nextIndex;
 
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 76fa759..7f3e687 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -34,6 +34,7 @@
 #include "uima/pragmas.hpp"
 #include <iostream>
 #include <sstream>
+#include <memory>
 #include <algorithm>
 using namespace std;
 
@@ -59,12 +60,16 @@ using namespace std;
 
 namespace uima {
 
+  static icu::UnicodeString toUString(UnicodeStringRef const & ref) {
+    return icu::UnicodeString(ref.getBuffer(), ref.length());
+  }
+
 // ---------------------------------------------------------------------------
 //  XCASDeserialiserHandler: Constructors and Destructor
 // ---------------------------------------------------------------------------
 
   XCASDeserializerHandler::XCASDeserializerHandler(CAS & cas, AnnotatorContext * const ctx) : iv_cas(cas.getBaseCas() ),
-      iv_locator(NULL), iv_ctx(ctx),
+      iv_locator(NULL), iv_state(DOC_STATE), currentAddr(0), arrayPos(0), arrayType(0), oldTcas(NULL), nextIndex(2), iv_ctx(ctx),
       iv_casimpl( uima::internal::CASImpl::promoteCAS(*iv_cas)
             //    ,iv_typesystem(iv_casimpl.getHeap().getTypeSystem())
                 ) {
@@ -84,19 +89,16 @@ namespace uima {
     iv_typesystem = &crHeap.getTypeSystem();
 
     // add entry for baseCAS ... point non-compliant annotations at first Sofa
-    sofaRefMap.push_back(1);
+    sofaRefMap[0] = 1;
     // add entry for baseCAS ... _indexed=0 stays in 0
     indexMap.push_back(0);
   }
 
   XCASDeserializerHandler::~XCASDeserializerHandler()   {
     if (DEBUG) std::cout << " XCASDeserializerHandler::destructor " << std::endl;
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
-      if (fsinfo != 0) {
-        delete fsinfo->indexRep;
-        delete fsinfo;
-      }
+    for (std::map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      delete it->second->indexRep;
+      delete it->second;
     }
 
     for (size_t i = 0; i < idLess.size(); i++) {
@@ -226,7 +228,9 @@ namespace uima {
       // Set the value of the content feature.
       //if (!isAllWhitespace(buffer))
       //{
-      handleFeature(currentAddr, currentContentFeat, buffer, true);
+      if (currentAddr != 0) {
+        handleFeature(currentAddr, currentContentFeat, buffer, true);
+      }
       //}            }
       iv_state = FS_STATE;
       break;
@@ -255,15 +259,11 @@ namespace uima {
       // Set the document text without creating a documentAnnotation
       cas->setDocTextFromDeserializtion(UnicodeStringRef(buffer.getBuffer(), buffer.length()));
 
-      // and assume the new Sofa is at location 1!
-      int addr = 1;
       int id = 1;
-      sofaRefMap.push_back(id);
+      sofaRefMap[1] = id;
 
       // and register the id for this Sofa
-      FSInfo * fsInfo = new FSInfo(addr, new vector<int>);
-//           FSInfo * fsInfo = new FSInfo(addr, -1); //??? Should be 0 or -1 ???
-      fsTree[id] =  fsInfo;
+      registerFS(id, new FSInfo(uima::internal::FSPromoter::demoteFS(newSofa), new vector<int>));
 
       iv_state = FS_STATE;
       break;
@@ -278,10 +278,8 @@ namespace uima {
     //cout << " XCASDeserializerHandler::endDocument() " << endl;
 
     //update features that are FSs
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
-      if (fsinfo != 0)
-        finalizeFS(*fsinfo);
+    for (std::map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      finalizeFS(*it->second);
     }
     //update features that are FSs
     for (size_t i = 0; i < idLess.size(); i++) {
@@ -309,6 +307,34 @@ namespace uima {
 
 
 
+  void XCASDeserializerHandler::illFormed(icu::UnicodeString const & what, icu::UnicodeString const & value) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam( what );
+    msg.addParam( value );
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
+// Remember an FS under its id.
+  void XCASDeserializerHandler::registerFS(int id, FSInfo * fsInfo) {
+    if (id < 0) {
+      idLess.push_back(fsInfo);
+    } else if (!fsTree.insert(std::make_pair(id, fsInfo)).second) {
+      idLess.push_back(fsInfo);
+      illFormed("duplicate", ID_ATTR_NAME);
+    }
+  }
+
+// The address of the FS with an id, or 0 if there is none.
+  lowlevel::TyFS XCASDeserializerHandler::resolve(lowlevel::TyFS id) {
+    std::map<int, FSInfo*>::const_iterator it = fsTree.find((int) id);
+    return it == fsTree.end() ? 0 : it->second->addr;
+  }
+
 // Create a new FS.
   void XCASDeserializerHandler::readFS(icu::UnicodeString & qualifiedName, const Attributes & attrs) {
     icu::UnicodeString typeName(qualifiedName);
@@ -317,6 +343,7 @@ namespace uima {
 
     if (!type.isValid() ) {
       cout << "INFO: invalid type " << typeName << endl;
+      currentAddr = 0;
       iv_state = CONTENT_STATE;
     } else {
       if (iv_cas->getTypeSystem().isArrayType(typecode)) {
@@ -334,7 +361,8 @@ namespace uima {
 
     int id = -1;
 //       int sofaRef = -1; // 0 ==> baseCas indexRepository
-    vector<int>* sofaRef = new vector<int>;
+    int newSofaNum = 0;
+    std::unique_ptr<vector<int> > sofaRef(new vector<int>);
     icu::UnicodeString attrName;
     icu::UnicodeString attrValue;
     bool nameMapping = false;
@@ -354,6 +382,9 @@ namespace uima {
         cout << "ACK!" << endl;
       }
       const UChar* sofaID = attrs.getValue(ubuff);
+      if (sofaID == NULL) {
+        illFormed(CAS::TYPE_NAME_SOFA, CAS::FEATURE_BASE_NAME_SOFAID);
+      }
       if (0==UnicodeStringRef(sofaID).compare(icu::UnicodeString("_DefaultTextSofaName"))) {
         sofaID = ubuff;
       }
@@ -371,11 +402,17 @@ namespace uima {
         cout << "ACK!" << endl;
       }
       const UChar* aString = attrs.getValue(ubuff);
-      int thisSofaNum = atoi(UnicodeStringRef(aString).asUTF8().c_str());
+      int thisSofaNum = aString == NULL ? 0 : atoi(UnicodeStringRef(aString).asUTF8().c_str());
+      if (thisSofaNum < 1) {
+        illFormed(CAS::TYPE_NAME_SOFA, CAS::FEATURE_BASE_NAME_SOFANUM);
+      }
 
       // get the sofa's FeatureStructure id
       icu::UnicodeString(ID_ATTR_NAME).extract(ubuff,256, errorCode);
       aString = attrs.getValue(ubuff);
+      if (aString == NULL) {
+        illFormed(CAS::TYPE_NAME_SOFA, ID_ATTR_NAME);
+      }
       int sofaFsId = atoi(UnicodeStringRef(aString).asUTF8().c_str());
 
       // for v1 and v2 formats, create the index map
@@ -400,7 +437,6 @@ namespace uima {
             // the first Sofa not initial, but sofaNum > 1
             // must be a v2 format, and sofaNum better be 2
             indexMap.push_back(1);
-            assert (thisSofaNum == 2);
             indexMap.push_back(2);
             nextIndex = 3;
           } else {
@@ -425,17 +461,9 @@ namespace uima {
       }
 
       // Now update the mapping from annotation int to ref values
-      if (sofaRefMap.size() == thisSofaNum) {
-        // Sofa received in sofaNum order, add new one
-        sofaRefMap.push_back(sofaFsId);
-      } else if ((int)sofaRefMap.size() > thisSofaNum) {
-        // new Sofa has lower sofaNum than last one
-        sofaRefMap[thisSofaNum] =  sofaFsId;
-      } else {
-        // new Sofa has skipped ahead more than 1
-        sofaRefMap.resize(thisSofaNum + 1);
-        sofaRefMap[thisSofaNum] = sofaFsId;
-      }
+      sofaRefMap[thisSofaNum] = sofaFsId;
+      // the number of the view that this Sofa gets
+      newSofaNum = isInitialView ? 1 : nextIndex - 1;
     }
 
     Type type = uima::internal::FSPromoter::promoteType(heapValue, iv_cas->getTypeSystem().getLowlevelTypeSystem());
@@ -457,13 +485,10 @@ namespace uima {
 //               else if (!attrValue.compare("false") == 0)
 //                 sofaRef = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
 //             }
-          char indexes[256];
-          // we have a problem here if number of indexed views is ridiculously big
-          strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-          char* ptr = strtok (indexes," ");
-          while (ptr != NULL) {
-            sofaRef->push_back(atoi(ptr));
-            ptr = strtok (NULL, " ");
+          istringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+          string index;
+          while (indexes >> index) {
+            sofaRef->push_back(atoi(index.c_str()));
           }
         } else {
           handleFeature(type, addr, attrName, attrValue, false);
@@ -478,6 +503,8 @@ namespace uima {
       }
     }
     if (sofaTypeCode == heapValue) {
+      // handle v1.x sofanum values, remapping so that _InitialView always == 1
+      iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, newSofaNum);
       // If a Sofa, create CAS view to get new indexRepository
       SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
       //also add to indexes so we can retrieve the Sofa later
@@ -496,19 +523,14 @@ namespace uima {
     }
 
     // sofaRef.size()==0 means not indexed
-    FSInfo * fsInfo = new FSInfo(addr, sofaRef);
-    if (id < 0) {
-      idLess.push_back(fsInfo);
-    } else {
-      fsTree[id] =  fsInfo;
-    }
+    registerFS(id, new FSInfo(addr, sofaRef.release()));
     iv_state = CONTENT_STATE;
 
   }
 
   void XCASDeserializerHandler::readArray(Type & type, const Attributes  & attrs) {
 
-    vector<int>* indexRep = new vector<int>;
+    std::unique_ptr<vector<int> > indexRep(new vector<int>);
     int id = -1;
     int size=0;
     icu::UnicodeString attrName;
@@ -529,13 +551,10 @@ namespace uima {
 //                 indexRep = 1;
 //               else if (!attrValue.compare("false") == 0)
 //                 indexRep = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
-        char indexes[256];
-        // we have a problem here if number of indexed views is ridiculously big
-        strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-        char* ptr = strtok (indexes," ");
-        while (ptr != NULL) {
-          indexRep->push_back(atoi(ptr));
-          ptr = strtok (NULL, " ");
+        istringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+        string index;
+        while (indexes >> index) {
+          indexRep->push_back(atoi(index.c_str()));
         }
       } else {
         ErrorInfo errInfo;
@@ -552,18 +571,16 @@ namespace uima {
     }
 
 
+    if (size < 0) {
+      illFormed(toUString(type.getName()), ARRAY_SIZE_ATTR);
+    }
     arrayType = uima::internal::FSPromoter::demoteType(type);
     currentAddr = iv_casimpl.getHeap().createArrayFS(arrayType, size);
 
     arrayPos=0;
 
     // indexRep.size()==0 means not indexed
-    FSInfo * fsInfo = new FSInfo(currentAddr, indexRep);
-    if (id < 0) {
-      idLess.push_back(fsInfo);
-    } else {
-      fsTree[id] =  fsInfo;
-    }
+    registerFS(id, new FSInfo(currentAddr, indexRep.release()));
     iv_state = ARRAY_ELE_STATE;
 
   }
@@ -653,7 +670,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyShortArrayType: {
-        short val;
+        short val = 0;
         string strval;
         UnicodeStringRef(buffer).extractUTF8(strval);
         stringstream s;
@@ -664,7 +681,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyLongArrayType: {
-        INT64 val;
+        INT64 val = 0;
         stringstream s;
         s << UnicodeStringRef(buffer).asUTF8();
         s >> val;
@@ -679,9 +696,8 @@ namespace uima {
       }
     default: {    //array of FSs
       lowlevel::TyFS fsid = atoi(UnicodeStringRef(buffer).asUTF8().c_str());
-      FeatureStructure fsitem(fsid, *iv_cas);
-      ArrayFS fsArrayfs(fs);
-      fsArrayfs.set((size_t) arrayPos, fsitem);
+      // the id, until the end of the document
+      iv_cas->getHeap()->getCArrayFromFS(currentAddr)[arrayPos] = fsid;
     }
     }
 
@@ -700,22 +716,18 @@ namespace uima {
 
   void XCASDeserializerHandler::handleFeature(Type & type, lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal,
       bool lenient) {
-    char charFeatVal[10];
-
     // handle v1.x format annotations, mapping int to ref values
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
     if (0==featName.compare("sofa") &&
         iv_typesystem->subsumes(internal::gs_tyAnnotationBaseType, fstype)) {
       int ifeatval = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
-      sprintf(charFeatVal, "%d", sofaRefMap[ifeatval]);
-      featVal.setTo(icu::UnicodeString(charFeatVal));
-    }
-
-    // handle v1.x sofanum values, remapping so that _InitialView always == 1
-    if (0==featName.compare(CAS::FEATURE_BASE_NAME_SOFAID)
-        && sofaTypeCode == fstype) {
-      int sofaNum = iv_casimpl.getHeap().getIntValue(addr, internal::gs_tySofaNumFeature);
-      iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, indexMap[sofaNum]);
+      std::map<int, int>::const_iterator sofaRef = sofaRefMap.find(ifeatval);
+      if (sofaRef == sofaRefMap.end()) {
+        illFormed(featName, featVal);
+      }
+      stringstream charFeatVal;
+      charFeatVal << sofaRef->second;
+      featVal.setTo(icu::UnicodeString(charFeatVal.str().c_str()));
     }
 
     icu::UnicodeString prefix(REF_PREFIX);
@@ -783,7 +795,7 @@ namespace uima {
       case internal::gs_tyShortType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            short shortval;
+            short shortval = 0;
             stringstream s;
             s << strval.c_str();
             s >> shortval;
@@ -794,7 +806,7 @@ namespace uima {
       case internal::gs_tyLongType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            INT64 longval;
+            INT64 longval = 0;
             stringstream s;
             s << strval.c_str();
             s >> longval;
@@ -832,11 +844,14 @@ namespace uima {
       // Now add FS to all specified index repositories
       for (int i = 0; i < (int)fsInfo.indexRep->size(); i++) {
         lowlevel::IndexRepository *  pIndexRep;
-        if (indexMap.size() == 1) {
-          pIndexRep = indexRepositories[fsInfo.indexRep->at(i)];
-        } else {
-          pIndexRep = indexRepositories[indexMap[fsInfo.indexRep->at(i)]];
+        int index = fsInfo.indexRep->at(i);
+        if (indexMap.size() != 1) {
+          index = index >= 0 && index < (int) indexMap.size() ? indexMap[index] : -1;
         }
+        if (index < 0 || index >= (int) indexRepositories.size()) {
+          illFormed(toUString(type.getName()), INDEXED_ATTR_NAME);
+        }
+        pIndexRep = indexRepositories[index];
         assert(EXISTS(pIndexRep));
         pIndexRep->add(addr);
       }
@@ -853,7 +868,6 @@ namespace uima {
     vector<Feature> feats;
     type.getAppropriateFeatures(feats);
 
-    FSInfo * fsValInfo;
     for (size_t i = 0; i < feats.size(); i++) {
       Feature feat = (Feature) feats[i];
       Type rangeType;
@@ -867,17 +881,13 @@ namespace uima {
         if (!iv_cas->getTypeSystem().isPrimitive(rangetypecode)) {
           //get the current feature value which is the id
           lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
-          //get the FSInfo object for that id
-          fsValInfo = (FSInfo*) fsTree[featVal];
-          //if there is a FSInfo
           //set the feature value of this feature to the
-          //address in FSInfo else set it to NULL;
-          if (fsValInfo == NULL) {
-            //nothing to do, reference value already = 0!
-            //iv_casimpl.getHeap().setFSValue(addr, featcode, (lowlevel::TyFS) 0);
-          } else {
-            iv_casimpl.getHeap().setFSValue(addr, featcode, fsValInfo->addr);
+          //address of the FS with that id, else set it to NULL;
+          lowlevel::TyFS value = resolve(featVal);
+          if (value != 0 && !iv_typesystem->subsumes(rangetypecode, iv_casimpl.getHeap().getType(value))) {
+            illFormed(toUString(type.getName()), toUString(feat.getName()));
           }
+          iv_casimpl.getHeap().setFeatureInternal(addr, featcode, value);
         }
       }
     }
@@ -894,13 +904,9 @@ namespace uima {
     // *** WARNING ***  *** WARNING ***  *** WARNING ***  *** WARNING ***
     // if implementation of ArrayFS on the heap changes, this code will be invalid
     int size = (int)iv_cas->getHeap()->getHeap().getHeapValue(addr + 1);
-    FSInfo * fsValInfo;
     for (int i=0; i<size; i++) {
       lowlevel::TyFS id = iv_cas->getHeap()->getHeap().getHeapValue(addr + 2 + i);
-      fsValInfo = fsTree[id];
-      if (fsValInfo != NULL) {
-        iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo->addr);
-      }
+      iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, resolve(id));
     }
 
   }
-- 
2.43.0


From 393f767dad797d9bd743c052dbb0b24502e0ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 086/135] fix: a document annotation without a sofa or with a
 wrong end does not make the document text wild memory

---
 src/cas/cas.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index ddae93d..3f88f85 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1057,8 +1057,10 @@ namespace uima {
       return;
     }
     iv_tyDocumentAnnotation = internal::FSPromoter::demoteFS(ait.get());
-    iv_uiDocumentLength = ait.get().getEndPosition();
     uima::lowlevel::TyFS sofaAddr = iv_heap->getFSValue(iv_tyDocumentAnnotation, internal::gs_tySofaRefFeature);
+    if (sofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
+      return;
+    }
     UnicodeStringRef pDoc = iv_heap->getStringValue(sofaAddr, internal::gs_tySofaStringFeature);
     copyDocumentString(pDoc);
   }
-- 
2.43.0


From 56dac0fb3210ee229f3c38ae5e3a02c2a37d1761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 087/135] fix: XCASDeserializer frees its parser when the input
 is refused and takes file names of any length

---
 src/cas/xcasdeserializer.cpp | 77 +++++-------------------------------
 1 file changed, 9 insertions(+), 68 deletions(-)

diff --git a/src/cas/xcasdeserializer.cpp b/src/cas/xcasdeserializer.cpp
index 2bad3b6..b0c424b 100644
--- a/src/cas/xcasdeserializer.cpp
+++ b/src/cas/xcasdeserializer.cpp
@@ -84,11 +84,7 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(icu::UnicodeString & xcasFilename, CAS & cas) {
-    char buff[1024];
-    xcasFilename.extract(0, xcasFilename.length(), buff);
-	XMLCh* native = XMLString::transcode(buff);
-	LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS ((XMLCh const *) xcasFilename.getTerminatedBuffer());
     XCASDeserializer::deserialize(fileIS, cas);
   }
 
@@ -102,72 +98,20 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas) {
-    // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
-
-    //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, NULL);
-    parser->setContentHandler(contentHandler);
-
-    //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
-
-    // Parse the XML document.
-    // Document content sent to registered ContentHandler instance.
-    try {
-      parser->parse(crInputSource);
-    } catch (const XMLException& e) {
-      char* message = XMLString::transcode(e.getMessage());
-      cerr << "XMLException message is: \n"
-      << message << "\n";
-
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam((UChar const *) e.getMessage() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
-    }
-    catch (const SAXParseException& e) {
-      char* message = XMLString::transcode(e.getMessage());
-      cerr << "SaxParseException message is: \n"
-      << message << "\n";
-      ErrorInfo errInfo;
-      errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-      ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
-      assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
-      msg.addParam((UChar const *) e.getMessage() );
-      msg.addParam( 0 );
-      msg.addParam( 0 );
-      errInfo.setMessage(msg);
-      errInfo.setSeverity(ErrorInfo::unrecoverable);
-      ExcIllFormedInputError exc(errInfo);
-      throw exc;
-    }
-
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
+    XCASDeserializer::deserialize(crInputSource, cas, NULL);
   }
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas, uima::AnnotatorContext  * const ctx) {
     // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
+    std::unique_ptr<SAX2XMLReader> parser(XMLReaderFactory::createXMLReader());
 
     //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, ctx);
-    parser->setContentHandler(contentHandler);
+    XCASDeserializerHandler contentHandler(cas, ctx);
+    parser->setContentHandler(&contentHandler);
 
     //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
+    XMLErrorHandler errorHandler;
+    parser->setErrorHandler(&errorHandler);
 
     // Parse the XML document.
     // Document content sent to registered ContentHandler instance.
@@ -177,6 +121,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -194,6 +139,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
       ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
@@ -206,11 +152,6 @@ namespace uima {
       ExcIllFormedInputError exc(errInfo);
       throw exc;
     }
-
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
   }
 
 
-- 
2.43.0


From 49c52cc0ff2938ea00ad6e7ae909b24ad6178ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 088/135] fix: XMI input with damaged sofas, views or
 references is refused, not followed out of memory

---
 src/cas/uima/xmideserializer_handler.hpp |  2 +
 src/cas/uima/xmishareddata.hpp           |  2 +-
 src/cas/xmideserializer_handler.cpp      | 66 +++++++++++++++++-------
 3 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/cas/uima/xmideserializer_handler.hpp b/src/cas/uima/xmideserializer_handler.hpp
index 4911e1e..1a62365 100644
--- a/src/cas/uima/xmideserializer_handler.hpp
+++ b/src/cas/uima/xmideserializer_handler.hpp
@@ -120,6 +120,8 @@ namespace uima {
 			     icu::UnicodeString & featVal,
              bool lenient);
 
+    void clearMultiValuedFeatures();
+    void illFormed(icu::UnicodeString const & what, icu::UnicodeString const & value);
     void finalizeFS(int addr);
     void finalizeArray(Type & type, lowlevel::TyFS addr); 
   
diff --git a/src/cas/uima/xmishareddata.hpp b/src/cas/uima/xmishareddata.hpp
index 942efb4..a0fabe4 100644
--- a/src/cas/uima/xmishareddata.hpp
+++ b/src/cas/uima/xmishareddata.hpp
@@ -116,7 +116,7 @@ public:
      */
     std::map<std::string, std::vector<std::string>* > childElements;
 
-	OotsElementData() : elementName(0) {}
+	OotsElementData() : xmiId(0), elementName(0) {}
 
 	~OotsElementData() {
 	  if (elementName != NULL) {
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 6a3e53a..748886b 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -58,6 +58,10 @@ using namespace std;
 
 namespace uima {
 
+  static icu::UnicodeString toUString(UnicodeStringRef const & ref) {
+    return icu::UnicodeString(ref.getBuffer(), ref.length());
+  }
+
 // ---------------------------------------------------------------------------
 //  XmiDeserialiserHandler: Constructors and Destructor
 // ---------------------------------------------------------------------------
@@ -87,6 +91,9 @@ namespace uima {
 			//       uima::lowlevel::FSHeap::TyFSHeap const & tyTempHeap = crHeap.iv_clTemporaryHeap;
 			iv_typesystem = &crHeap.getTypeSystem();
 
+			iv_state=DOC_STATE;
+			currentAddr=0;
+			currentArrayId=-1;
 			ignoreDepth=0;
 			nextSofaNum=2;
 		}
@@ -94,6 +101,7 @@ namespace uima {
 		XmiDeserializerHandler::~XmiDeserializerHandler()   {
 			//cout << " XmiDeserializerHandler::destructor " << endl;
 
+			clearMultiValuedFeatures();
 			if (ownsSharedData)  {
 				delete sharedData;
 			}
@@ -105,6 +113,26 @@ namespace uima {
 //  XmiDeserializerHandler: Implementation of the SAX2 ContentHandler interface
 // ---------------------------------------------------------------------------
 
+  void XmiDeserializerHandler::clearMultiValuedFeatures() {
+    map<icu::UnicodeString, vector<icu::UnicodeString>*>::iterator mite;
+    for (mite=multiValuedFeatures.begin(); mite != multiValuedFeatures.end(); mite++) {
+      delete mite->second;
+    }
+    multiValuedFeatures.clear();
+  }
+
+  void XmiDeserializerHandler::illFormed(icu::UnicodeString const & what, icu::UnicodeString const & value) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam( what );
+    msg.addParam( value );
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
   void  XmiDeserializerHandler::setDocumentLocator(const Locator* const locator) {
     //cout << " XmiDeserializerHandler::setDocumentLocator() " << endl;
     iv_locator = locator;
@@ -186,14 +214,7 @@ namespace uima {
 			//readFS(typeName, attrs);
 			readFS(unsuri, ulocalname, qualifiedName, attrs);
 
-			map<icu::UnicodeString, vector<icu::UnicodeString>*>::iterator mite;
-            for (mite=multiValuedFeatures.begin();
-				mite != multiValuedFeatures.end(); mite++) {
-					if (mite->second != NULL) {
-						delete mite->second;
-					}
-			}
-			multiValuedFeatures.clear();
+			clearMultiValuedFeatures();
 			iv_state = FEAT_STATE;
 			break;	   
 									 }
@@ -480,7 +501,7 @@ namespace uima {
 
         //cout << "xmiId " << currentArrayId << " type=" << typeName << " elements=" << currentArrayElements << endl;
 				if (internal::FSPromoter::demoteType(type) == internal::gs_tyByteArrayType) {
-					int addr = createByteArray(currentArrayElements, currentArrayId);
+					currentAddr = createByteArray(currentArrayElements, currentArrayId);
 				} 
 
 			} else {
@@ -513,6 +534,9 @@ namespace uima {
 				// translate sofa's xmi:id into its sofanum
 				//cout << __LINE__ << " calling getFsAddrForXmiId " << sofaXmiId << endl;
 				int sofaAddr = getFsAddrForXmiId(sofaXmiId);
+				if (iv_casimpl.getHeap().getType(sofaAddr) != sofaTypeCode) {
+					illFormed("uima.cas.View", CAS::FEATURE_BASE_NAME_SOFA);
+				}
 
 				sofaNum = iv_cas->getHeap()->getIntValue(sofaAddr, internal::gs_tySofaNumFeature);
 			}
@@ -584,7 +608,7 @@ namespace uima {
 		bool nameMapping = false;
 		UChar ubuff[256];
 		UErrorCode errorCode = U_ZERO_ERROR;
-		int thisSofaNum;
+		int thisSofaNum = 0;
 		lowlevel::TyFS heapValue = iv_casimpl.getHeap().getType(addr);
 
 
@@ -594,6 +618,9 @@ namespace uima {
 				cout << "ACK!" << endl;
 			}
 			const UChar* sofaID = attrs.getValue(ubuff);
+			if (sofaID == NULL) {
+				illFormed(CAS::TYPE_NAME_SOFA, CAS::FEATURE_BASE_NAME_SOFAID);
+			}
 
 			if (0==UnicodeStringRef(sofaID).compare(icu::UnicodeString("_DefaultTextSofaName"))) {  
 				// initial view Sofa always has sofaNum = 1
@@ -633,6 +660,7 @@ namespace uima {
 		}
 
 		if (sofaTypeCode == heapValue) {
+			iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, thisSofaNum);
 			// If a Sofa, create CAS view to get new indexRepository
 			SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
 			//also add to indexes so we can retrieve the Sofa later
@@ -720,7 +748,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyShortArrayType: {
-        short val;
+        short val = 0;
         //string strval;
         //UnicodeStringRef(buffer).extractUTF8(strval);
         stringstream s;
@@ -731,7 +759,7 @@ namespace uima {
         break;
       }
     case internal::gs_tyLongArrayType: {
-        INT64 val;
+        INT64 val = 0;
         stringstream s;
         s << buffer;
         s >> val;
@@ -746,9 +774,8 @@ namespace uima {
       }
     default: {    //array of FSs
       lowlevel::TyFS fsid = atoi(buffer.c_str());
-      FeatureStructure fsitem(fsid, *iv_cas);
-      ArrayFS fsArrayfs(fs);
-      fsArrayfs.set((size_t) arrayPos, fsitem);
+      // the id, until the end of the document
+      iv_cas->getHeap()->getCArrayFromFS(addr)[arrayPos] = fsid;
     }
     } //swithch
   }
@@ -862,7 +889,7 @@ namespace uima {
       case internal::gs_tyShortType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          short shortval;
+          short shortval = 0;
           stringstream s;
           s << strval.c_str();
           s >> shortval;
@@ -873,7 +900,7 @@ namespace uima {
       case internal::gs_tyLongType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          INT64 longval;
+          INT64 longval = 0;
           stringstream s;
           s << strval.c_str();
           s >> longval;
@@ -1233,7 +1260,10 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
                       ((UnicodeStringRef)feat.getName()).asUTF8(), str.str());
                 }       
               }
-              iv_casimpl.getHeap().setFSValue(addr, featcode, fsValAddr);
+              if (fsValAddr != 0 && !iv_typesystem->subsumes(rangetypecode, iv_casimpl.getHeap().getType(fsValAddr))) {
+                illFormed(toUString(type.getName()), toUString(feat.getName()));
+              }
+              iv_casimpl.getHeap().setFeatureInternal(addr, featcode, fsValAddr);
             }
          }
       }
-- 
2.43.0


From 7c87da78878d7695115eda6abc7d7e089fb46ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 089/135] fix: XmiDeserializer takes file names of any length

---
 src/cas/xmideserializer.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/cas/xmideserializer.cpp b/src/cas/xmideserializer.cpp
index 846b944..a1590ca 100644
--- a/src/cas/xmideserializer.cpp
+++ b/src/cas/xmideserializer.cpp
@@ -84,11 +84,7 @@ namespace uima {
   }
 
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, CAS & cas, bool lenient) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, lenient);
   }
 
@@ -112,7 +108,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -133,7 +129,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -217,7 +213,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -238,7 +234,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -314,11 +310,7 @@ namespace uima {
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, 
 									CAS & cas,
 									XmiSerializationSharedData & sharedData) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, sharedData);
   }
 }
-- 
2.43.0


From dca601435b1e8c07e6b4ac9f359d1db75746c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 090/135] fix: descriptor parser failures of every kind are
 reported as ill-formed input

---
 src/framework/taespecifierbuilder.cpp | 246 ++++++++------------------
 1 file changed, 76 insertions(+), 170 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 082faec..06314ff 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -74,6 +74,66 @@ namespace uima {
   // one per thread: threads parse descriptors independently of each other
   static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
+  // report a failure of the parser that is not an exception of UIMA as every other ill-formed input
+  static void throwIllFormedInput(InputSource const & crInputSource, UChar const * cpMessage) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    if (crInputSource.getSystemId() != NULL) {
+      msg.addParam( (UChar const *) crInputSource.getSystemId() );
+    } else {
+      msg.addParam( "" );
+    }
+    msg.addParam( 0 );
+    msg.addParam( 0 );
+    msg.addParam( cpMessage );
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    throw ExcIllFormedInputError(errInfo);
+  }
+
+  // parse an XML document and return its root element
+  static DOMElement * parseDocument(XercesDOMParser & parser, InputSource const & crInputSource) {
+    try {
+      parser.parse( crInputSource );
+    } catch (XMLException const & e) {
+      throwIllFormedInput(crInputSource, (UChar const *) e.getMessage());
+    } catch (SAXException const & e) {
+      throwIllFormedInput(crInputSource, (UChar const *) e.getMessage());
+    } catch (DOMException const & e) {
+      throwIllFormedInput(crInputSource, (UChar const *) e.getMessage());
+    }
+    DOMDocument * doc = parser.getDocument();
+    DOMElement * rootElem = (doc == NULL) ? NULL : doc->getDocumentElement();
+    if (rootElem == NULL) {
+      icu::UnicodeString msg("no root element");
+      throwIllFormedInput(crInputSource, msg.getTerminatedBuffer());
+    }
+    return rootElem;
+  }
+
+  namespace {
+    // supplies an error handler while a document is parsed if the user has set none
+    class ErrorHandlerOwner {
+    public:
+      ErrorHandlerOwner(ErrorHandler * & rpHandler) : iv_rpHandler(rpHandler), iv_bOwner(rpHandler == NULL) {
+        if (iv_bOwner) {
+          iv_rpHandler = new XMLErrorHandler();
+        }
+      }
+      ~ErrorHandlerOwner() {
+        if (iv_bOwner) {
+          delete iv_rpHandler;
+          iv_rpHandler = NULL;
+        }
+      }
+    private:
+      ErrorHandler * & iv_rpHandler;
+      bool const iv_bOwner;
+    };
+  }
+
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
 
@@ -140,39 +200,14 @@ namespace uima {
       parser.setDoSchema(false);
     }
     parser.setExternalSchemaLocation( ResourceManager::getInstance().getSchemaInfo());
-    bool bHasOwnErrorHandler = false;
-    
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner handler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    
-    try {
-      parser.parse( crInputSource );
-    } catch (Exception e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw(e);      
-    }
-    
-    DOMDocument* doc = parser.getDocument();
-    assert(EXISTS(doc));
 
     // get top node
-    DOMElement * rootElem = doc->getDocumentElement();
-    assert(EXISTS(rootElem));
+    DOMElement * rootElem = parseDocument(parser, crInputSource);
 
     buildAnalysisEngineDescription(taeSpec, rootElem, convert(crInputSource.getSystemId()));
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
   }
 
 
@@ -183,39 +218,15 @@ namespace uima {
     parser.setDoNamespaces(true);
     parser.setDoSchema( ResourceManager::getInstance().isSchemaAvailable());
     parser.setExternalSchemaLocation( ResourceManager::getInstance().getSchemaInfo());
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner handler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
-
-
-    DOMDocument* doc = parser.getDocument();
-    assert(EXISTS(doc));
 
     // get top node
-    DOMElement * rootElem = doc->getDocumentElement();
-    assert(EXISTS(rootElem));
+    DOMElement * rootElem = parseDocument(parser, crInputSource);
 
     assert( XMLString::compareString(rootElem->getNodeName(), convert(TAG_TYPE_SYSTEM_DESC)) == 0);
     //TypeSystemDescription * tsSpec = buildTypeSystemDesc(rootElem);
     buildTypeSystemDesc(tsDesc, rootElem);
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
   }
 
@@ -229,33 +240,12 @@ namespace uima {
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
+    ErrorHandlerOwner handler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-    parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
 
-    DOMDocument* doc = parser.getDocument();
     // get top node
-    DOMElement * descElem = doc->getDocumentElement();
+    DOMElement * descElem = parseDocument(parser, crInputSource);
 
-    assert(EXISTS(descElem));
-
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
     buildFSIndexes(fsDesc, descElem);
   }
 
@@ -268,34 +258,12 @@ namespace uima {
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner handler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
 
-    DOMDocument* doc = parser.getDocument();
     // get top node
-    DOMElement * descElem = doc->getDocumentElement();
+    DOMElement * descElem = parseDocument(parser, crInputSource);
 
-    assert(EXISTS(descElem));
-
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
     buildTypePriorities(prioDesc, descElem);
   }
@@ -310,33 +278,12 @@ namespace uima {
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner handler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-    parser.parse( crInputSource );
-    } catch (Exception const & e){
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL; 
-      }
-      throw e;
-    }
 
-    DOMDocument* doc = parser.getDocument();
     // get top node
-    DOMElement * descElem = doc->getDocumentElement();
-    assert(EXISTS(descElem));
+    DOMElement * descElem = parseDocument(parser, crInputSource);
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
     buildSofaMappings(sofaMapDesc, descElem);
   }
@@ -1895,33 +1842,12 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
-
+    ErrorHandlerOwner handler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( fileIS );
-    } catch (Exception e) {
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler=NULL;
-      }
-      throw  e;
-    }
-    DOMDocument* doc = parser.getDocument();
-    // get top node
-    DOMElement * descElem = doc->getDocumentElement();
 
-    assert(EXISTS(descElem));
+    // get top node
+    DOMElement * descElem = parseDocument(parser, fileIS);
 
-    if (bHasOwnErrorHandler ) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler =  NULL;
-    }
     buildFSIndexCollection(fsDesc, descElem, alreadyImportedLocations, importfn);
   }
 
@@ -1977,32 +1903,12 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     parser.setDoSchema(false);
     parser.setExternalSchemaLocation(UIMA_XML_NAMESPACE " ");
 
-    bool bHasOwnErrorHandler = false;
-    if (iv_pXMLErrorHandler == NULL) {
-      iv_pXMLErrorHandler = new XMLErrorHandler();
-      assert( EXISTS(iv_pXMLErrorHandler) );
-      bHasOwnErrorHandler = true;
-    }
+    ErrorHandlerOwner handler(iv_pXMLErrorHandler);
     parser.setErrorHandler(iv_pXMLErrorHandler);
-    try {
-      parser.parse( fileIS );
-    } catch (Exception e) {
-      if (bHasOwnErrorHandler) {
-        delete iv_pXMLErrorHandler;
-        iv_pXMLErrorHandler = NULL;
-      }
-      throw e;
-    }
-    DOMDocument* doc = parser.getDocument();
-    // get top node
-    DOMElement * descElem = doc->getDocumentElement();
 
-    assert(EXISTS(descElem));
+    // get top node
+    DOMElement * descElem = parseDocument(parser, fileIS);
 
-    if (bHasOwnErrorHandler) {
-      delete iv_pXMLErrorHandler;
-      iv_pXMLErrorHandler = NULL;
-    }
 
     buildTypePriorities(aeDesc, descElem, importfn, alreadyImportedLocations);
   }
-- 
2.43.0


From 29c7630c0c1e8b6f664f027932dbeadd4924e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 091/135] fix: a description without metadata is refused by
 validation, not followed

---
 src/framework/taespecifier.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e7d4c62..5a4d668 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -647,6 +647,14 @@ namespace uima {
 
   void AnalysisEngineDescription::validate() {
     try {
+      //without metadata there is nothing an engine could be made from
+      if (getAnalysisEngineMetaData() == NULL) {
+        UIMA_EXC_THROW_NEW(ValidationException,
+                           UIMA_ERR_CONFIG_OBJECT_NOT_FOUND,
+                           ErrorMessage(UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC),
+                           UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                           ErrorInfo::unrecoverable);
+      }
       //first, validate the delegate specs
       AnalysisEngineDescription::TyMapDelegateSpecs delegates = getDelegates();
       AnalysisEngineDescription::TyMapDelegateSpecs::iterator ite = delegates.begin();
-- 
2.43.0


From 852c442778dfa49954d811f25cc4c593b086e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 092/135] fix: getCoveredText refuses an annotation outside of
 the text

---
 src/cas/cas.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 3f88f85..8e66ae2 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1329,11 +1329,13 @@ namespace uima {
       AnnotationFS* grr = const_cast<AnnotationFS*>(this);
       CAS * myCas = grr->getView();
       if (myCas->iv_uiDocumentLength > 0) {
-        assert( getEndPosition() <= myCas->iv_uiDocumentLength );
         size_t uiBegin = getBeginPosition();
-        UChar const * puc = myCas->iv_cpDocument;
-        puc += uiBegin;
-        return UnicodeStringRef( puc, getEndPosition()-uiBegin );
+        size_t uiEnd = getEndPosition();
+        if (uiBegin <= uiEnd && uiEnd <= myCas->iv_uiDocumentLength) {
+          UChar const * puc = myCas->iv_cpDocument;
+          puc += uiBegin;
+          return UnicodeStringRef( puc, uiEnd-uiBegin );
+        }
       }
     }
 
-- 
2.43.0


From 8b037a9943dd1cca90e65d8ee38ba1c7eabcae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 093/135] fix: a type that is its own supertype is refused, not
 followed forever

---
 src/framework/casdefinition.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ad6ea2c..e1ffe93 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -109,14 +109,23 @@ namespace uima {
     uima::lowlevel::TyFSType mergeType(uima::lowlevel::TypeSystem & rTypeSystem,
                                        icu::UnicodeString const & crTypeToBeCreated,
                                        TypeSystemDescription const & crTSDesc,
-                                       icu::UnicodeString const & crCreatorID) {
+                                       icu::UnicodeString const & crCreatorID,
+                                       size_t uiDepth = 0) {
+      // no chain of supertypes is longer than the list of types, unless it is circular
+      if (uiDepth > crTSDesc.getTypeDescriptions().size()) {
+        UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                           UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                           ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                           ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                           ErrorInfo::recoverable);
+      }
       uima::lowlevel::TyFSType typeToBeCreated = rTypeSystem.getTypeByName(crTypeToBeCreated);
       if (crTSDesc.hasTypeDescription(crTypeToBeCreated)) {
         TypeDescription const * cpTypeDesc = crTSDesc.getTypeDescription(crTypeToBeCreated);
         icu::UnicodeString const & crSuperTypeName = cpTypeDesc->getSuperTypeName();
 
         // first merge the parent
-        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID);
+        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID, uiDepth + 1);
 
         // if string sub type
         if (parent == uima::internal::gs_tyStringType) {
-- 
2.43.0


From 52980da9b257392384be2767a26e1ee9babb694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 094/135] fix: allowed values of a string subtype are compared
 for being the same set

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index e1ffe93..215ea13 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -153,7 +153,7 @@ namespace uima {
                 // check that string occurs in the allowed values
                 bool bContainsString = false;
                 for (j=0; j<uiStringNum; ++j) {
-                  if (crString != allowedStringValues[j]) {
+                  if (crString == allowedStringValues[j]) {
                     bContainsString = true;
                     break;
                   }
-- 
2.43.0


From 4da9c6ed9747c81e87897f49cc655fcd53ff8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:19 +0000
Subject: [PATCH 095/135] fix: file and annotator names with characters of
 several bytes fit their buffers

---
 src/framework/res_abase.cpp     | 22 +++++++++-------------
 src/framework/res_annotator.cpp |  9 ++++-----
 src/framework/resmgr.cpp        | 21 +++++++++++----------
 3 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/framework/res_abase.cpp b/src/framework/res_abase.cpp
index eb1307b..c474108 100644
--- a/src/framework/res_abase.cpp
+++ b/src/framework/res_abase.cpp
@@ -75,10 +75,9 @@ namespace uima {
     file.append(".");
     file.append(getKind());
 
-    char c[2056];
-    int32_t len = file.extract(0, file.length(), c);
-    assert( len == file.length());
-    iv_fileName.setNew( c );   // set filename from extracted C-string
+    std::string name;
+    UnicodeStringRef(file).extract(name);
+    iv_fileName.setNew( name.c_str() );   // set filename from extracted string
   }
 
   ////////////////////////////////////////////////////////////////
@@ -104,20 +103,17 @@ namespace uima {
 
 
   void LanguageKindFileResource::resolveFilename() {
-    const size_t bufLen = 2056;
-    char buf[bufLen];
-    icu::UnicodeString const & crKey = getKey();
-    int32_t iConvLen = crKey.extract(0, crKey.length(), buf);
-    assert( iConvLen < bufLen );
-    uima::Language lang(buf);
+    std::string key;
+    UnicodeStringRef(getKey()).extract(key);
+    uima::Language lang(key.c_str());
 
     icu::UnicodeString crExt(".");
     crExt.append(getKind());
-    iConvLen = crExt.extract(0, crExt.length(), buf);
-    assert( iConvLen < bufLen );
+    std::string ext;
+    UnicodeStringRef(crExt).extract(ext);
 
     ResourceManager::createFilenameForLanguage(lang,
-        buf,
+        ext.c_str(),
         iv_bTryAlternativeTerritories,
         ResourceManager::getInstance().getLocationData(),
         iv_fileName);
diff --git a/src/framework/res_annotator.cpp b/src/framework/res_annotator.cpp
index fe89f18..b2ce322 100644
--- a/src/framework/res_annotator.cpp
+++ b/src/framework/res_annotator.cpp
@@ -65,11 +65,10 @@ namespace uima {
       icu::UnicodeString const & crAnnotatorFileName = getKey();
 
       // first we must convert our unicode filename to single byte
-      size_t nameLen = crAnnotatorFileName.length();
-      char* buf = new char[1+nameLen];
-      crAnnotatorFileName.extract(0, nameLen, buf);
-      util::Filename filename(buf);
-      delete[] buf;
+      // (a character may need more than one byte)
+      std::string name;
+      UnicodeStringRef(crAnnotatorFileName).extract(name);
+      util::Filename filename(name.c_str());
 
       /* No longer optionally remove the path before loading, or add "itu" prefix.
          Now load only what we're given, i.e. a full filename with path,
diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index a3bf847..0fdff81 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -830,14 +830,15 @@ namespace uima {
   }
 
   icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
-    auto_array<char> filename_cstr( new char[filename.length() + 1] );
-    filename.extract(0, filename.length(), filename_cstr.get());
+    // a character may need more than one byte
+    std::string filename_str;
+    UnicodeStringRef(filename).extract(filename_str);
 
-    auto_array<char> lastFilename_cstr( new char[lastFilename.length() + 1] );
-    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get());
+    std::string lastFilename_str;
+    UnicodeStringRef(lastFilename).extract(lastFilename_str);
 
     //build the filename
-    util::Filename fileLoc(filename_cstr.get());
+    util::Filename fileLoc(filename_str.c_str());
 
     // don't try our search mimic for absolute paths
     if (fileLoc.isAbsolute()) {
@@ -850,8 +851,8 @@ namespace uima {
     }
 
     // try in the same directory as lastFilename
-    util::Filename locSameDirAsLast(lastFilename_cstr.get());
-    locSameDirAsLast.setNewName(filename_cstr.get());
+    util::Filename locSameDirAsLast(lastFilename_str.c_str());
+    locSameDirAsLast.setNewName(filename_str.c_str());
 
     if (locSameDirAsLast.isExistent()) {
       return locSameDirAsLast.getAsCString();
@@ -861,7 +862,7 @@ namespace uima {
     util::Location const & fallbackLoc = ResourceManager::getInstance().getLocationData();
 
     std::string nameInDataDir( fallbackLoc.getAsCString() );
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str;
     util::Filename fileInDataDir( nameInDataDir.c_str() );
     fileInDataDir.normalizeAbsolute();                // Normalize to native / or \ separators
     if (fileInDataDir.isExistent()) {
@@ -871,7 +872,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "descriptors/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str;
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
@@ -881,7 +882,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "specifiers/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str;
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
-- 
2.43.0


From e9cadf35760f7b46df5a2463458ca4f04800b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 096/135] fix: an aggregate without flow constraints is
 refused, not followed

---
 src/framework/annotator_mgr.cpp | 10 +++++++++-
 src/framework/taespecifier.cpp  |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 64244c2..b5c03b3 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -159,7 +159,15 @@ namespace uima {
 
       assert( ! crTAESpecifier.isPrimitive() );
       //BSIvector < icu::UnicodeString > const & crVecEngineNames = crTAESpecifier.getAnalysisEngineMetaData()->getFixedFlow()->getNodes();
-      vector < icu::UnicodeString > const & crVecEngineNames = crTAESpecifier.getAnalysisEngineMetaData()->getFlowConstraints()->getNodes();
+      FlowConstraints const * pFlow = crTAESpecifier.getAnalysisEngineMetaData()->getFlowConstraints();
+      if (pFlow == NULL) {
+        /* an aggregate must say in which order its delegates are called */
+        ErrorInfo errInfo;
+        errInfo.setErrorId(UIMA_ERR_CONFIG_OBJECT_NOT_FOUND);
+        rANC.getLogger().logError(errInfo);
+        return UIMA_ERR_CONFIG_OBJECT_NOT_FOUND;
+      }
+      vector < icu::UnicodeString > const & crVecEngineNames = pFlow->getNodes();
 
       // for all engines in the flow
       size_t ui;
diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 5a4d668..91eaf20 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -1326,7 +1326,7 @@ namespace uima {
     s.append("</configurationParameterSettings>");
 
     // flow constraints
-    if (!isPrimitive()) {
+    if (!isPrimitive() && md.getFlowConstraints() != NULL) {
       s.append("<flowConstraints>");
       FlowConstraints const * pFlow = md.getFlowConstraints();
       FlowConstraints * flow = CONST_CAST(FlowConstraints *, pFlow);
-- 
2.43.0


From bdac92b38656586514dcb114af53935bb3d9ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 097/135] fix: an analysis engine description that imports
 itself is refused, not followed forever

---
 src/framework/taespecifierbuilder.cpp      | 25 +++++++++++++++++++++-
 src/framework/uima/taespecifierbuilder.hpp |  1 +
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 06314ff..6e6f546 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -185,7 +185,30 @@ namespace uima {
     }
 
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() ); 
-    parseAnalysisEngineDescription(taeSpec, fileIS);
+
+    // a description that imports itself, directly or not, would never end
+    std::string name;
+    UnicodeStringRef(fn).extract(name);
+    util::Filename absoluteName(name.c_str());
+    absoluteName.normalizeAbsolute();
+    icu::UnicodeString const file(absoluteName.getAsCString());
+    for (size_t i=0; i < iv_filesBeingParsed.size(); i++) {
+      if (file.compare(iv_filesBeingParsed[i]) == 0) {
+        UIMA_EXC_THROW_NEW(InvalidXMLException,
+                           UIMA_ERR_CONFIG_CYCLIC_XINCLUSION,
+                           ErrorMessage(UIMA_MSG_ID_EXC_XINCLUSION_IS_CYCLIC, fn),
+                           UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                           ErrorInfo::unrecoverable);
+      }
+    }
+    iv_filesBeingParsed.push_back(file);
+    try {
+      parseAnalysisEngineDescription(taeSpec, fileIS);
+    } catch (...) {
+      iv_filesBeingParsed.pop_back();
+      throw;
+    }
+    iv_filesBeingParsed.pop_back();
   }
 
 
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index 9a6fc20..2c73df9 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -257,6 +257,7 @@ namespace uima {
 
   private:
     ErrorHandler * iv_pXMLErrorHandler;
+    std::vector<icu::UnicodeString> iv_filesBeingParsed;
 	bool doSchemaValidation;
 	TCHAR * schemaFileName;
    
-- 
2.43.0


From e92366e50847d63e2119c5fe8f4a39ea54807f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 098/135] fix: the service initialises every member of its
 connections and listeners

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index 7f3dc2b..cd17662 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -103,6 +103,7 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
                                       iv_pProducerSession(0),
                                       iv_pProducer(0),
                                       iv_pReplyMessage(0),
+                                      iv_prefetchSize(0),
                                       iv_replyDestinations(),
                                       iv_valid(false),
                                       iv_started(false),
@@ -713,6 +714,8 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
                             iv_replyToConnections(connection->iv_pConnFact, stats),
                             iv_timeLastRequestCompleted(0),
                             iv_busy(false),
+                            iv_stopProcessing(false),
+                            iv_pCas(NULL),
                             iv_count(0),
                             iv_aeDescriptor(),
                             iv_brokerURL(connection->getBrokerURL()),
@@ -1240,6 +1243,8 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
                                         iv_vecpConnections(),
                                         iv_vecpAnalysisEngines(),
                                         iv_vecpCas(),
+                                        iv_pConnFact(NULL),
+                                        iv_pgetMetaConnection(NULL),
                                         iv_closed(false),
                                         iv_listeners() {
     try {
-- 
2.43.0


From 91bd2e06449cb878b34a993a26734b90d83ae9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 099/135] fix: the service statistics start from zero

---
 src/utils/deployCppService.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/deployCppService.hpp b/src/utils/deployCppService.hpp
index 0e8ab63..5ec05f8 100644
--- a/src/utils/deployCppService.hpp
+++ b/src/utils/deployCppService.hpp
@@ -368,6 +368,9 @@ class Monitor {
       iv_serTime = 0;
       iv_annotatorTime = 0;
       iv_sendTime = 0;
+      iv_messageProcessTime = 0;
+      iv_cpcTime = 0;
+      iv_getmetaTime = 0;
       iv_startTime = apr_time_now();
       iv_numCasProcessed = 0;
       iv_errorThreshhold = processCasErrorThreshhold;
-- 
2.43.0


From c000db2480a06eb1e5c0325f83929519e15d2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 100/135] fix: the send time of a process reply is measured
 from its start

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index cd17662..c47e682 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -1026,6 +1026,7 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
         endTime = apr_time_now();
         //send reply
         LOGINFO(FINER,"AnalysisEngine::process() completed successfully. Sending reply.");
+        startSendResponse = apr_time_now();
         sendResponse(textMessage, timeToDeserializeCAS,
                       timeToSerializeCAS, timeInAnalytic,
                       timeIdle, endTime-startTime,
-- 
2.43.0


From bafc49064aca2aee3278e8995854a69dc11e78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 101/135] fix: the service answers with an error when the
 analysis returned an error code

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 23 ++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index c47e682..513243d 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -760,6 +760,23 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
 
 
 
+//an annotator that returns an error code failed as much as one that throws.
+static void throwOnFailure(TyErrorId rc, const char * what) {
+  if (rc != UIMA_ERR_NONE) {
+    stringstream str;
+    str << "AnalysisEngine " << what << "() failed with error code " << rc;
+    ErrorMessage msg(UIMA_MSG_ID_LOG_ERROR);
+    msg.addParam(str.str());
+    ErrorInfo errInfo;
+    errInfo.setMessage(msg);
+    UIMA_EXC_THROW_NEW(uima::Uima_runtime_error,
+            rc,
+            errInfo.getMessage(),
+            errInfo.getMessage().getMessageID(),
+            ErrorInfo::recoverable);
+  }
+}
+
 bool AMQListener::validateRequest(const TextMessage * textMessage, string & errmsg) {
   bool valid = true; 
   
@@ -990,7 +1007,7 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
           startAnnotatorProcess=apr_time_now();
           timeToDeserializeCAS = startAnnotatorProcess-startDeserialize;
 
-          iv_pEngine->process(*iv_pCas);
+          throwOnFailure(iv_pEngine->process(*iv_pCas), "process");
           startSerialize=apr_time_now();
           timeInAnalytic = startSerialize - startAnnotatorProcess;
 
@@ -1008,7 +1025,7 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
           startAnnotatorProcess=apr_time_now();
           timeToDeserializeCAS = startAnnotatorProcess-startDeserialize;
           LOGINFO(FINEST, "AMQListener::handleRequest() calling process.");
-          iv_pEngine->process(*iv_pCas);
+          throwOnFailure(iv_pEngine->process(*iv_pCas), "process");
           startSerialize=apr_time_now();
           timeInAnalytic = startSerialize - startAnnotatorProcess;
 
@@ -1049,7 +1066,7 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
         LOGINFO(FINE,"Process getMeta request finished.");			
       } else if (command ==  CPC_COMMAND ) { //CPC       			
         LOGINFO(FINE, "Processing CollectionProcessComplete request start");				
-        iv_pEngine->collectionProcessComplete();
+        throwOnFailure(iv_pEngine->collectionProcessComplete(), "collectionProcessComplete");
         endTime = apr_time_now();
         startSendResponse = apr_time_now();
         sendResponse(textMessage, 0,
-- 
2.43.0


From a2d68ce99a59db79f5f6b2afb302e22db7d8b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 102/135] fix: a request that fails with any other exception is
 answered too

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index 513243d..e87c0e8 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -1098,10 +1098,14 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
       iv_pMonitor->processingComplete(iv_id, command,false,endTime-startTime,0,0,0,endTime-startSendResponse);
     }	catch(...) {
       LOGERROR("AMQListener::handleRequest Unknown exception ");
-      //TODO: log / shurdown ?}   
       endTime = apr_time_now(); 
-      iv_pMonitor->processingComplete(iv_id, command,false,endTime-startTime,0,0,0,endTime-startTime);
-
+      startSendResponse = apr_time_now();
+      sendResponse(textMessage, timeToDeserializeCAS,
+                      timeToSerializeCAS, timeInAnalytic,
+                      timeIdle,endTime-startTime,
+                      "AMQListener::handleRequest Unknown exception ",true);
+      endTime = apr_time_now();
+      iv_pMonitor->processingComplete(iv_id, command,false,endTime-startTime,0,0,0,endTime-startSendResponse);
     }
   }
 
-- 
2.43.0


From 9a992ea547242dbf621e322218dad3c6664075c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 103/135] fix: the text of a request is not converted from the
 platform code page

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index e87c0e8..fc4de59 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -980,8 +980,6 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
         int payload = textMessage->getIntProperty("Payload");
         //get the text in the payload 
         string text = textMessage->getText().c_str();
-        UnicodeString utext(text.c_str());
-		text = UnicodeStringRef(utext).asUTF8();
         astr.str("");
         astr << "Payload: " << payload << " Content: " << text ;
         LOGINFO(FINER, astr.str());
-- 
2.43.0


From f76cbf564f6e36487204c0d43642863b1fbc1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 104/135] fix: the service does not miss an order to stop that
 comes before it waits, by signal or through errors

---
 src/utils/deployCppService.cpp | 14 +++++---
 src/utils/deployCppService.hpp | 63 +++++++++++++++++++++++++++-------
 2 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/utils/deployCppService.cpp b/src/utils/deployCppService.cpp
index 399bf4c..bdb0219 100644
--- a/src/utils/deployCppService.cpp
+++ b/src/utils/deployCppService.cpp
@@ -107,16 +107,13 @@ int main(int argc, char* argv[]) {
       assert(rv == APR_SUCCESS);
       //rv = apr_thread_join(&rv, thread);
       //assert(rv == APR_SUCCESS);
-      apr_thread_mutex_lock(singleton_pMonitor->cond_mutex);
-      apr_thread_cond_wait(singleton_pMonitor->cond, singleton_pMonitor->cond_mutex);
-      apr_thread_mutex_unlock(singleton_pMonitor->cond_mutex);
-
     }  else {
       uima::ResourceManager::getInstance().getLogger().logError(" not from java running ");
       apr_thread_t *stdinthread=0;
       rv = apr_thread_create(&stdinthread, thd_attr, readstdin, 0, pool);
-      rv = apr_thread_join(&rv, stdinthread);
     }  
+    //a signal, too many errors or a command may end the service
+    singleton_pMonitor->waitForStop(-1);
 
     //wait
 /**    if (cs) { 
@@ -125,6 +122,9 @@ int main(int argc, char* argv[]) {
       apr_thread_mutex_unlock(singleton_pMonitor->cond_mutex);    
     }
 **/
+    if (receivedSignal() != 0) {
+      cerr << __FILE__ << __LINE__ << " Received Signal: " << receivedSignal() << endl;
+    }
     if (singleton_pMonitor->getQuiesceAndStop()) {
       cerr << __FILE__ << " " << serviceDesc.getServiceName() << " Quiesce started. " << endl;
       //quiesce 
@@ -148,6 +148,10 @@ int main(int argc, char* argv[]) {
     }  
 
     /* cleanup */
+    if (!cs) {
+      //the thread that reads stdin may still use the monitor
+      exit(0);
+    }
     terminateService();
     
     if (pool) {
diff --git a/src/utils/deployCppService.hpp b/src/utils/deployCppService.hpp
index 5ec05f8..a48ff17 100644
--- a/src/utils/deployCppService.hpp
+++ b/src/utils/deployCppService.hpp
@@ -61,6 +61,12 @@ static int initialize(ServiceParameters &, apr_pool_t*);
 static void* APR_THREAD_FUNC handleCommands(apr_thread_t *thd, void *data);
 static int terminateService();
 static void signal_handler(int signum);
+//the signal that told the service to stop
+inline volatile sig_atomic_t & receivedSignal() {
+  //one for the whole program, whichever source file includes this
+  static volatile sig_atomic_t signum = 0;
+  return signum;
+}
 static void* APR_THREAD_FUNC readstdin(apr_thread_t *thd, void *data);
 
 
@@ -353,6 +359,7 @@ class Monitor {
     {
       iv_status = "Initializing";
       iv_quiesceandstop=false;
+      iv_stopping=false;
       iv_brokerURL = brokerURL;
       iv_queueName = queueName;
       iv_aeDescriptor = aeDesc;
@@ -392,18 +399,46 @@ class Monitor {
     void print();
 
     void shutdown() {
-      //apr_thread_mutex_unlock(mutex);
-      //  apr_thread_mutex_unlock(lmutex);
-      apr_thread_cond_signal(this->cond);
-      return ;
+      apr_thread_mutex_lock(cond_mutex);
+      iv_stopping = true;
+      apr_thread_cond_broadcast(this->cond);
+      apr_thread_mutex_unlock(cond_mutex);
     }
 
     void setQuiesceAndStop() {
-      //apr_thread_mutex_unlock(mutex);
-      //  apr_thread_mutex_unlock(lmutex);
+      apr_thread_mutex_lock(cond_mutex);
       this->iv_quiesceandstop = true;
-      apr_thread_cond_signal(this->cond);
-      return ;
+      iv_stopping = true;
+      apr_thread_cond_broadcast(this->cond);
+      apr_thread_mutex_unlock(cond_mutex);
+    }
+
+    //true as soon as the service was told to stop
+    bool isStopping() {
+      apr_thread_mutex_lock(cond_mutex);
+      bool stopping = iv_stopping || receivedSignal() != 0;
+      apr_thread_mutex_unlock(cond_mutex);
+      return stopping;
+    }
+
+    //waits until the service is told to stop or the time (in microseconds)
+    //has passed. A negative time waits for ever.
+    void waitForStop(apr_interval_time_t time) {
+      apr_time_t end = apr_time_now() + time;
+      apr_thread_mutex_lock(cond_mutex);
+      while (!iv_stopping && receivedSignal() == 0) {
+        //a signal handler cannot signal the condition: look now and then
+        apr_interval_time_t wait = 500000;
+        if (time >= 0) {
+          apr_interval_time_t left = end - apr_time_now();
+          if (left <= 0)
+            break;
+          if (left < wait)
+            wait = left;
+        }
+        apr_thread_cond_timedwait(cond, cond_mutex, wait);
+      }
+      apr_thread_mutex_unlock(cond_mutex);
     }
 
     bool getQuiesceAndStop() {
@@ -688,6 +723,7 @@ class Monitor {
     int iv_numInstances;
     int iv_prefetchSize;
     bool iv_quiesceandstop;
+    bool iv_stopping;
 
     INT64 iv_cpcErrors;
     INT64 iv_getmetaErrors;
@@ -749,10 +785,8 @@ static apr_sockaddr_t *sa=0;
 static apr_status_t rv=0;
 
 static void signal_handler(int signum) {
-  stringstream str;
-  str << __FILE__ << __LINE__ << " Received Signal: " << signum;
-  cerr << str.str() << endl;
-  singleton_pMonitor->shutdown();
+  //nothing else is safe here: the threads that wait look at it
+  receivedSignal() = signum;
   //terminateService();
   //activemq::library::ActiveMQCPP::shutdownLibrary();
   // exit(0);
@@ -949,7 +983,10 @@ static void* APR_THREAD_FUNC readstdin(apr_thread_t *thd, void *data) {
 
   
   while( str[0] == '\n' ) {
-    scanf("%s", str);
+    if (scanf("%1s", str) != 1) {
+      //end of the input: nobody will tell this service to stop here
+      break;
+    }
 
     if (str[0] == 's') {
       singleton_pMonitor->shutdown();
-- 
2.43.0


From 37c2ae3fbcab0a6272d26de5522a944be1c8b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 105/135] fix: the last of several listeners that stop at the
 same time ends the service

---
 src/utils/deployCppService.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/utils/deployCppService.hpp b/src/utils/deployCppService.hpp
index a48ff17..e0c2c2d 100644
--- a/src/utils/deployCppService.hpp
+++ b/src/utils/deployCppService.hpp
@@ -480,12 +480,11 @@ class Monitor {
 
     void listenerStopped(int id) {
       cout << "listener stopped " << id << endl;
-      if (id == iv_getmetaId || iv_numRunning == 1) {
+      apr_thread_mutex_lock(mutex);
+      bool last = id != iv_getmetaId && --iv_numRunning == 0;
+      apr_thread_mutex_unlock(mutex);
+      if (id == iv_getmetaId || last) {
         shutdown();
-      } else {
-        apr_thread_mutex_lock(mutex);
-        iv_numRunning--;
-        apr_thread_mutex_unlock(mutex);
       }
     }
 
-- 
2.43.0


From ad5d6de7c7481744361d4b20d05be7c9378b27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 106/135] fix: the service ends when it cannot reach its
 controller instead of using no monitor

---
 src/utils/deployCppService.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/deployCppService.cpp b/src/utils/deployCppService.cpp
index bdb0219..05169f9 100644
--- a/src/utils/deployCppService.cpp
+++ b/src/utils/deployCppService.cpp
@@ -78,7 +78,9 @@ int main(int argc, char* argv[]) {
     serviceDesc.print();
 
     /*set up logging and monitoring */
-    initialize(serviceDesc, pool);   
+    if (initialize(serviceDesc, pool) != 0) {
+      return -1;
+    }
 
     /*create service*/
     AMQAnalysisEngineService aeService(serviceDesc,singleton_pMonitor, pool);
-- 
2.43.0


From be4a035ef1881b29bb0eb73aca461f56db76a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 107/135] fix: the service is not killed by writing to a
 controller that has gone

---
 src/utils/deployCppService.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/deployCppService.hpp b/src/utils/deployCppService.hpp
index e0c2c2d..e5d0452 100644
--- a/src/utils/deployCppService.hpp
+++ b/src/utils/deployCppService.hpp
@@ -843,6 +843,10 @@ static int initialize(ServiceParameters & serviceDesc,  apr_pool_t * pool) {
   //register signal handler
   apr_signal(SIGINT, signal_handler);
   apr_signal(SIGTERM, signal_handler);
+#ifdef SIGPIPE
+  //a controller that has gone is noticed by the failing send
+  apr_signal(SIGPIPE, SIG_IGN);
+#endif
 
   /* set up connection to Java controller bean if a port is specified */
   int javaport=serviceDesc.getJavaPort();
-- 
2.43.0


From 0c7436ca39b14253d5d3199fab188b74fad7b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 108/135] fix: log records and statistics are sent whole when
 the socket takes them in parts

---
 src/utils/deployCppService.cpp |  5 +----
 src/utils/deployCppService.hpp | 25 +++++++++++++++++--------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/utils/deployCppService.cpp b/src/utils/deployCppService.cpp
index 05169f9..a259b7a 100644
--- a/src/utils/deployCppService.cpp
+++ b/src/utils/deployCppService.cpp
@@ -140,10 +140,7 @@ int main(int argc, char* argv[]) {
 
     //notify java controller
     if (cs) {
-      apr_size_t len = 4;
-      apr_status_t rv = apr_socket_send(cs, "DONE" , &len);
-      len = 1;
-      apr_socket_send(cs,"\n", &len);
+      apr_status_t rv = sendAll(cs, "DONE\n");
       if (rv != APR_SUCCESS) {
         cerr << " apr_socket_send() failed sending shutdown notification." << endl;
       }
diff --git a/src/utils/deployCppService.hpp b/src/utils/deployCppService.hpp
index e5d0452..549d8ca 100644
--- a/src/utils/deployCppService.hpp
+++ b/src/utils/deployCppService.hpp
@@ -291,6 +291,20 @@ class ServiceParameters {
     size_t iv_initialfsheapsize;
 };
 
+/* sends all of the bytes, of which a socket may take a part at a time. */
+static apr_status_t sendAll(apr_socket_t * socket, const string & bytes) {
+  size_t sent = 0;
+  while (sent < bytes.length()) {
+    apr_size_t len = bytes.length() - sent;
+    apr_status_t rv = apr_socket_send(socket, bytes.data() + sent, &len);
+    if (rv != APR_SUCCESS) {
+      return rv;
+    }
+    sent += len;
+  }
+  return APR_SUCCESS;
+}
+
 /* SocketLogger */
 class SocketLogger : public uima::Logger {
   private:
@@ -322,8 +336,7 @@ class SocketLogger : public uima::Logger {
       } 
       str << " " << message << endl;
 
-      apr_size_t len = str.str().length();
-      rv = apr_socket_send(socket, str.str().c_str(), &len);
+      rv = sendAll(socket, str.str());
 
       if (rv != APR_SUCCESS) {
         cerr << __FILE__ << __LINE__ <<   " apr_socket_send() failed " <<  str.str() << endl;
@@ -336,8 +349,7 @@ class SocketLogger : public uima::Logger {
       apr_thread_mutex_lock(mutex);
       stringstream str;
       str << message << endl;
-      apr_size_t len = str.str().length();
-      apr_status_t rv = apr_socket_send(socket, str.str().c_str(), &len);
+      apr_status_t rv = sendAll(socket, str.str());
 
       if (rv != APR_SUCCESS) {
         cerr << "apr_socket_send() failed " <<  str.str() << endl;
@@ -606,10 +618,7 @@ class Monitor {
       apr_thread_mutex_lock(mutex);
       stringstream str; 
       getStatistics(str);
-      apr_size_t len = str.str().length();
-      apr_status_t rv = apr_socket_send(cs, str.str().c_str(), &len);
-      len = 1;
-      apr_socket_send(cs,"\n", &len);
+      apr_status_t rv = sendAll(cs, str.str() + "\n");
       if (rv != APR_SUCCESS) {
         //TODO throw exception
         cout << "apr_socket_send() failed " << endl;
-- 
2.43.0


From c10eceb123484440b4d793aff1ea065b63d2371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:48 +0000
Subject: [PATCH 109/135] fix: commands of the controller are recognised
 however the connection splits or joins them

---
 src/utils/deployCppService.hpp | 60 ++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/utils/deployCppService.hpp b/src/utils/deployCppService.hpp
index 549d8ca..1b9f16d 100644
--- a/src/utils/deployCppService.hpp
+++ b/src/utils/deployCppService.hpp
@@ -913,40 +913,72 @@ static int initialize(ServiceParameters & serviceDesc,  apr_pool_t * pool) {
 } //initialize
 
 
+//takes the next whole command from the front of what was received.
+//Anything else up to the next separator is taken as an (invalid) command.
+static bool nextCommand(string & received, string & command) {
+  static const char * const commands[] = { "GETSTATS", "RESET", "QUIESCEANDSTOP", "SHUTDOWN" };
+  static const string separators(" \t\r\n\0", 5);
+  size_t start = received.find_first_not_of(separators);
+  received.erase(0, start);
+  if (received.empty()) {
+    return false;
+  }
+  for (size_t i=0; i < sizeof(commands)/sizeof(commands[0]); i++) {
+    string known = commands[i];
+    if (received.compare(0, known.length(), known) == 0) {
+      command = known;
+      received.erase(0, known.length());
+      return true;
+    }
+    if (known.compare(0, received.length(), received) == 0) {
+      return false; //more to come
+    }
+  }
+  size_t end = received.find_first_of(separators);
+  command = received.substr(0, end);
+  received.erase(0, end);
+  return true;
+}
+
 static void* APR_THREAD_FUNC handleCommands(apr_thread_t *thd, void *data) {
 
   //if we are here service initialization was successful, send message
   //to controller.
-  string msg = "0";
-  apr_size_t len = msg.length();
+  apr_status_t rv;
   apr_socket_timeout_set(cs, 5000000);
-  rv = apr_socket_send(cs, msg.c_str(), &len);
-  if (rv != APR_SUCCESS || len != msg.length() ) {
+  rv = sendAll(cs, "0\n");
+  if (rv != APR_SUCCESS) {
     singleton_pMonitor->shutdown();
     return 0;
   }
-  len = 1;
-  apr_socket_send(cs,"\n", &len);
   //cout << "sent 0 to controller " << endl;
   //receive JMX, admin requests from controller 
   char buf[16];
-  memset(buf,0,16);
-  len = 16;
+  apr_size_t len;
   apr_socket_timeout_set(cs,-1);
   bool doloop = true;
+  //what was received and is not a whole command yet: commands may arrive
+  //in parts or several at a time.
+  string received;
   //while ( (rv = apr_socket_recv(cs, buf, &len)) != APR_EOF) {
   while (doloop) {
-    rv = apr_socket_recv(cs,buf,&len);
+    string command;
+    rv = APR_SUCCESS;
+    if (!nextCommand(received, command)) {
+      len=16;
+      rv = apr_socket_recv(cs,buf,&len);
+      if (rv == APR_SUCCESS) {
+        received.append(buf, len);
+        continue;
+      }
+    }
     if (APR_STATUS_IS_TIMEUP(rv) ) continue;    
     if (APR_STATUS_IS_EOF(rv)  || APR_STATUS_IS_ECONNRESET(rv) ) {
       cerr << __FILE__ << __LINE__ << "::handleCommands Connection broken... apr_status=" << rv << endl;
       doloop = false;
       continue;
     }
-    string command = buf;
-    memset(buf,0,16);
-    cerr << rv << " " << len << " apr_socket_recv command=" << command << endl;
-    len=16;
+    cerr << rv << " apr_socket_recv command=" << command << endl;
     if (command.compare("GETSTATS")==0) {
       //singleton_pLogger->log(LogStream::EnMessage,"deployCppService","getStats","retrieving stats",0);
       singleton_pMonitor->writeStatistics(cs);
@@ -976,7 +1008,7 @@ static void* APR_THREAD_FUNC handleCommands(apr_thread_t *thd, void *data) {
         str << c;
         str << "deployCppService::handleCommand() aprerror=" << rv << " invalid command=" << command;
         cerr << str.str() << endl;
-        delete c;
+        delete[] c;
       }
     }
   }
-- 
2.43.0


From 0b9b93e447574abb514da997d16f3e7e1b345604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 110/135] fix: the controller can stop a service that is
 starting, and its commands end before the service is taken down

---
 src/utils/deployCppService.cpp | 23 +++++++++++++++++------
 src/utils/deployCppService.hpp |  9 ---------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/utils/deployCppService.cpp b/src/utils/deployCppService.cpp
index a259b7a..75b580a 100644
--- a/src/utils/deployCppService.cpp
+++ b/src/utils/deployCppService.cpp
@@ -82,6 +82,15 @@ int main(int argc, char* argv[]) {
       return -1;
     }
 
+    /* take commands of the controller: it may stop the service while it starts */
+    apr_thread_t *thread=0;
+    apr_threadattr_t *thd_attr=0;
+    if (cs) {
+      apr_threadattr_create(&thd_attr, pool);
+      rv = apr_thread_create(&thread, thd_attr, handleCommands, 0, pool);
+      assert(rv == APR_SUCCESS);
+    }
+
     /*create service*/
     AMQAnalysisEngineService aeService(serviceDesc,singleton_pMonitor, pool);
     aeService.setTraceLevel(serviceDesc.getTraceLevel());
@@ -100,13 +109,11 @@ int main(int argc, char* argv[]) {
     serviceDesc.getBrokerURL() << " Ready to process..." << endl;
     
     /* connect to java proxy if called from java */  
-    apr_thread_t *thread=0;
-    apr_threadattr_t *thd_attr=0;
-
     if (cs) {
-      apr_threadattr_create(&thd_attr, pool);
-      rv = apr_thread_create(&thread, thd_attr, handleCommands, 0, pool);
-      assert(rv == APR_SUCCESS);
+      //service initialization was successful, send message to controller.
+      if (sendAll(cs, "0\n") != APR_SUCCESS) {
+        singleton_pMonitor->shutdown();
+      }
       //rv = apr_thread_join(&rv, thread);
       //assert(rv == APR_SUCCESS);
     }  else {
@@ -151,6 +158,10 @@ int main(int argc, char* argv[]) {
       //the thread that reads stdin may still use the monitor
       exit(0);
     }
+    //wake the thread that takes commands and wait until it has ended
+    apr_socket_shutdown(cs, APR_SHUTDOWN_READ);
+    apr_status_t rvt;
+    apr_thread_join(&rvt, thread);
     terminateService();
     
     if (pool) {
diff --git a/src/utils/deployCppService.hpp b/src/utils/deployCppService.hpp
index 1b9f16d..776a531 100644
--- a/src/utils/deployCppService.hpp
+++ b/src/utils/deployCppService.hpp
@@ -942,16 +942,7 @@ static bool nextCommand(string & received, string & command) {
 
 static void* APR_THREAD_FUNC handleCommands(apr_thread_t *thd, void *data) {
 
-  //if we are here service initialization was successful, send message
-  //to controller.
   apr_status_t rv;
-  apr_socket_timeout_set(cs, 5000000);
-  rv = sendAll(cs, "0\n");
-  if (rv != APR_SUCCESS) {
-    singleton_pMonitor->shutdown();
-    return 0;
-  }
-  //cout << "sent 0 to controller " << endl;
   //receive JMX, admin requests from controller 
   char buf[16];
   apr_size_t len;
-- 
2.43.0


From 26e794b4df5cf7870060fc181bcef2be00e80b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 111/135] fix: every attempt to connect to the broker is
 followed by a pause, and a stopping service does not go on trying

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 22 ++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index fc4de59..8a7b74b 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -146,7 +146,6 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
                          << ". Retrying..." << endl;
               LOGWARN(str.str());
               retrying = true;
-              apr_sleep(30000000); //wait 30 seconds to reconnect
             }
           }
         } catch (cms::CMSException& e) {
@@ -157,9 +156,22 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
 			cout << e.getMessage() << endl;
             LOGWARN(str.str());
             retrying = true;
-            apr_sleep(30000000); //wait 30 seconds to reconnect
           }
         } 
+        if (iv_pConnection == NULL) {
+          this->iv_pMonitor->waitForStop(30000000); //wait 30 seconds to reconnect
+          if (this->iv_pMonitor->isStopping()) {
+            ErrorMessage msg(UIMA_MSG_ID_LOG_ERROR);
+            msg.addParam("AMQConnection() the service is stopping.");
+            ErrorInfo errInfo;
+            errInfo.setMessage(msg);
+            UIMA_EXC_THROW_NEW(uima::Uima_runtime_error, 
+              UIMA_ERR_RESMGR_COULD_NOT_INITIALIZE_RESOURCE,
+              errInfo.getMessage(),
+              errInfo.getMessage().getMessageID(),
+              ErrorInfo::unrecoverable);
+          }
+        }
       }
      
       if (retrying) {
@@ -553,7 +565,11 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
     try {
         this->iv_reconnecting = true;
         this->iv_pMonitor->reconnecting(iv_id);
-        apr_sleep(30000000); //wait 30 seconds to reconnect
+        this->iv_pMonitor->waitForStop(30000000); //wait 30 seconds to reconnect
+        if (this->iv_pMonitor->isStopping()) {
+          apr_sleep(100000); //until the listener is stopped too
+          return;
+        }
         //cout << "AMQConnection::reconnect() calling initialize >>>" << endl;
         this->initialize();
         this->createMessageConsumer(this->iv_inputQueueName,this->iv_selector, this->iv_prefetchSize);
-- 
2.43.0


From f824890481166b3494cd53d78de1bc592d54ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 112/135] fix: a connection that could not be re-established,
 or breaks while receiving, is tried again

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index 8a7b74b..d98dc51 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -541,6 +541,10 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
       delete this->iv_pProducerSession;
       this->iv_pProducerSession = NULL;
     }
+    if (this->iv_pInputQueue != NULL) {
+      delete this->iv_pInputQueue;
+      this->iv_pInputQueue = NULL;
+    }
     if (this->iv_pConnection != NULL) {
       delete this->iv_pConnection;
       this->iv_pConnection = NULL;
@@ -559,6 +563,7 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
     for (ite= iv_replyDestinations.begin();ite !=  iv_replyDestinations.end();ite++) {
       delete ite->second;
     }
+    iv_replyDestinations.clear();
   }
 
   void AMQConnection::reconnect() {
@@ -592,11 +597,16 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
 
   Message * AMQConnection::receive(const int delay) {
       if (iv_valid) {
-        return iv_pConsumer->receive(delay);
+        try {
+          return iv_pConsumer->receive(delay);
+        } catch (cms::CMSException & e) {
+          //the connection is broken
+          this->onException(e);
+          return NULL;
+        }
       } else {
         this->resetBeforeReconnect();
         this->reconnect();
-        this->iv_valid = true;
         return NULL;
       }
   }
-- 
2.43.0


From a45e40679eb8d9e7ffe79a068f28827e0c79793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 113/135] fix: stopping and closing connections that are broken
 or being re-established does not fail

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 38 ++++++++++++---------
 src/utils/ActiveMQAnalysisEngineService.hpp |  2 ++
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index d98dc51..48f82fa 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -138,7 +138,9 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
       bool retrying = false;
       while (iv_pConnection == NULL) {
         try {
-          iv_pConnection = iv_pConnFact->createConnection();
+          Connection * pConnection = iv_pConnFact->createConnection();
+          std::lock_guard<std::mutex> lock(iv_mutex);
+          iv_pConnection = pConnection;
           if (iv_pConnection == NULL ) {
             if (!retrying) {
               stringstream str;
@@ -285,7 +287,11 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
       this->iv_pInputQueue=NULL;
     }
     if (this->iv_pConnection != NULL) {
-      this->iv_pConnection->close();
+      try {
+        this->iv_pConnection->close();
+      } catch (cms::CMSException & e) {
+        LOGWARN("AMQConnection::~AMQConnection() " + e.getMessage());
+      }
       delete this->iv_pConnection;
       this->iv_pConnection = NULL;
     }
@@ -488,6 +494,7 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
 
 // must be called to start receiving messages 
   void AMQConnection::start() {
+    std::lock_guard<std::mutex> lock(iv_mutex);
     if (this->iv_pConnection != NULL) {
       this->iv_pConnection->start();
       LOGINFO(0,"AMQConnection::start() Start receiving messages.");
@@ -506,19 +513,16 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
 
 //stops receiving messages
   void AMQConnection::stop() {
+    //a connection that is broken or being re-established delivers nothing
+    std::lock_guard<std::mutex> lock(iv_mutex);
     if (this->iv_pConnection != NULL) {
-      this->iv_pConnection->stop();
+      try {
+        this->iv_pConnection->stop();
+      } catch (cms::CMSException & e) {
+        LOGWARN("AMQConnection::stop() " + e.getMessage());
+      }
     } else {
-      LOGERROR("AMQConnection::stop() invalid connection. ");
-      ErrorMessage msg(UIMA_MSG_ID_LOG_ERROR);
-      msg.addParam("stop() invalid connection.");
-      ErrorInfo errInfo;
-      errInfo.setMessage(msg);
-      UIMA_EXC_THROW_NEW(uima::Uima_runtime_error, 
-        UIMA_ERR_RESMGR_COULD_NOT_INITIALIZE_RESOURCE,
-        errInfo.getMessage(),
-        errInfo.getMessage().getMessageID(),
-        ErrorInfo::unrecoverable);
+      LOGWARN("AMQConnection::stop() invalid connection. ");
     }
   }
 
@@ -545,10 +549,12 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
       delete this->iv_pInputQueue;
       this->iv_pInputQueue = NULL;
     }
-    if (this->iv_pConnection != NULL) {
-      delete this->iv_pConnection;
-      this->iv_pConnection = NULL;
+    Connection * pConnection = NULL;
+    {
+      std::lock_guard<std::mutex> lock(iv_mutex);
+      std::swap(pConnection, this->iv_pConnection);
     }
+    delete pConnection;
 
     this->iv_started = false;
     this->iv_valid = false;
diff --git a/src/utils/ActiveMQAnalysisEngineService.hpp b/src/utils/ActiveMQAnalysisEngineService.hpp
index 125f6a0..9c3d9ef 100644
--- a/src/utils/ActiveMQAnalysisEngineService.hpp
+++ b/src/utils/ActiveMQAnalysisEngineService.hpp
@@ -31,6 +31,7 @@
 #include <cms/TextMessage.h>
 #include <cms/ExceptionListener.h>
 #include "time.h"
+#include <mutex>
 #include <apr_thread_proc.h>
 
 #include <activemq/transport/DefaultTransportListener.h>
@@ -75,6 +76,7 @@ private:
   string iv_brokerURL;
  
   Connection* iv_pConnection;
+  std::mutex iv_mutex;            //the service may stop a connection that is being reset
   bool iv_valid;
   bool iv_reconnecting;
   bool iv_started;
-- 
2.43.0


From 868973c1a8512212df6353dbc4c416fcb83c07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 114/135] fix: the service is taken down only when all of its
 listener threads have ended

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 48 +++++++++++++--------
 src/utils/ActiveMQAnalysisEngineService.hpp |  2 +
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index 48f82fa..cbf729d 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -888,7 +888,6 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
     //start receiving messages
     //this->iv_pConnection->start();
 
-    this->iv_stopProcessing = false;
     apr_time_t lastStatsTime = apr_time_now(); 
     while (!iv_stopProcessing) {
 
@@ -1278,7 +1277,13 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
 //AMQAnalysisEngineService
 //---------------------------------------------------
   AMQAnalysisEngineService::~AMQAnalysisEngineService() {
-    //stop();
+    //threads run when the service could not be started completely
+    if (!iv_listenerThreads.empty()) {
+      iv_pMonitor->shutdown();
+      stopListeners();
+      stop();
+      joinListeners();
+    }
     cleanup();
   }
 
@@ -1534,21 +1539,31 @@ void AMQAnalysisEngineService::start() {
   } 
 }	
 
+//tells all listeners to take no further messages
+void AMQAnalysisEngineService::stopListeners() {
+  map<int, AMQListener*>::iterator ite; 
+  for (ite= iv_listeners.begin();ite !=  iv_listeners.end();ite++) {
+    ite->second->stopProcessing();
+  }
+}
+
+//waits until the listener threads have ended
+void AMQAnalysisEngineService::joinListeners() {
+  apr_status_t rv;
+  for (size_t i=0; i < this->iv_listenerThreads.size(); i++) {
+    apr_thread_join(&rv, this->iv_listenerThreads.at(i));
+  }
+  iv_listenerThreads.clear();
+}
+
 void AMQAnalysisEngineService::shutdown() {
   //LOGWARN("AMQAnalysisEngineService::shutdown()");
 
+  stopListeners();
   stop();
 
   cout << "AMQAnalysisEngineService::shutdown() going to terminate threads " << endl;;
-  //terminate the threads
-  apr_status_t rv;
-  for (size_t i=0; i < this->iv_listenerThreads.size(); i++) {
-    //cout << "wait for thread " << i << " to end " << endl;
-    this->iv_listeners[i]->stopProcessing();
-    if (!iv_listeners[i]->isReconnecting()) {
-      apr_thread_join(&rv, this->iv_listenerThreads.at(i));
-    }
-  }
+  joinListeners();
   
   cout << "AMQAnalysisEngineService::shutdown stopped all connection" << endl;
   cleanup();
@@ -1589,19 +1604,14 @@ void  AMQAnalysisEngineService::quiesceAndStop() {
   
   //shutdown worker threads.
    cout << "AMQAnalysisEngineService::quiesceAndStop() going to terminate threads " << endl;;
-  if (this->iv_pMonitor->getQuiesceAndStop() ) {
-    for (size_t i=0; i < this->iv_listenerThreads.size(); i++) {
-      //cout << "wait for thread " << i << " to end " << endl;
-      this->iv_listeners[i]->stopProcessing();
-      apr_thread_join(&rv, this->iv_listenerThreads.at(i));
-    }
-  }
+  joinListeners();
 
   cleanup();
 }
 
 void  AMQAnalysisEngineService::quiesce() {
-  //stop connections - does not work
+  //the listeners take no further messages
+  stopListeners();
   stop();
 
   //check whether processing threads are finished.
diff --git a/src/utils/ActiveMQAnalysisEngineService.hpp b/src/utils/ActiveMQAnalysisEngineService.hpp
index 9c3d9ef..235ae98 100644
--- a/src/utils/ActiveMQAnalysisEngineService.hpp
+++ b/src/utils/ActiveMQAnalysisEngineService.hpp
@@ -328,6 +328,8 @@ private:
   bool iv_closed;
 
   void initialize(ServiceParameters & params);
+  void stopListeners();
+  void joinListeners();
 public:
   void cleanup();
   
-- 
2.43.0


From 372cdd4c3e17a89ac45566dc92a571a9ba73440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 115/135] fix: a reply to another broker is sent to that
 broker, which is tried once

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 30 +++++++++++++++++----
 src/utils/ActiveMQAnalysisEngineService.hpp |  5 +++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index cbf729d..c911870 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -88,7 +88,7 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
  };
 
  AMQConnection::AMQConnection(  ConnectionFactory * connFact, 
-                                      string brokerURL, Monitor * pMonitor, int id) :
+                                      string brokerURL, Monitor * pMonitor, int id, bool retry) :
                                       iv_id(id),
                                       iv_pConnFact(connFact),
                                       //iv_pMonitor(0),
@@ -104,6 +104,7 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
                                       iv_pProducer(0),
                                       iv_pReplyMessage(0),
                                       iv_prefetchSize(0),
+                                      iv_retry(retry),
                                       iv_replyDestinations(),
                                       iv_valid(false),
                                       iv_started(false),
@@ -151,6 +152,9 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
             }
           }
         } catch (cms::CMSException& e) {
+          if (!iv_retry) {
+            throw;
+          }
           if (!retrying) {
             stringstream str;
             str << "AMQConnection::initialize() Failed to connect to " << iv_brokerURL
@@ -632,6 +636,21 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
         delete ite->second;
       }	
     }	
+    map<string,ConnectionFactory*>::iterator itf;
+    for (itf = this->iv_factories.begin(); itf != this->iv_factories.end(); itf++) {
+      delete itf->second;
+    }
+  }
+
+//Connects to the specified broker, which need not be the one
+//that the service takes its requests from. It is tried once: other
+//requests must not wait until the sender of this one can be reached.
+  AMQConnection * AMQConnectionsCache::createConnection(string brokerURL) {
+    ConnectionFactory * & pConnFact = this->iv_factories[brokerURL];
+    if (pConnFact == NULL) {
+      pConnFact = ConnectionFactory::createCMSConnectionFactory(brokerURL);
+    }
+    return new AMQConnection(pConnFact, brokerURL, iv_pMonitor, -1, false);
   }
 
 //Retrieves a Connection from the cache if it 
@@ -649,7 +668,7 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
       if (ite == iv_connections.end()) {
         LOGINFO(FINE,"AMQConnectionsCache::getConnection() create new connection to " +
           brokerURL);
-        connection = new AMQConnection(iv_pConnFact, brokerURL, iv_pMonitor, iv_connections.size());
+        connection = createConnection(brokerURL);
         if (connection == NULL) {
           LOGERROR("AMQConnectionCache::getConnection Could not create a endpoint connection to " +
             brokerURL);
@@ -667,7 +686,7 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
             LOGWARN("AMQConnectionCache::getEndPoint() Existing connection invalid. Reconnecting to " + brokerURL );
             delete connection;
             this->iv_connections.erase(brokerURL);
-            connection = new AMQConnection(iv_pConnFact, brokerURL, iv_pMonitor, iv_connections.size());
+            connection = createConnection(brokerURL);
             if (connection == NULL) {
               LOGERROR("AMQConnectionCache::getConnection() could not connect to "
                 + brokerURL );
@@ -1179,13 +1198,14 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
            LOGINFO(FINER,"HTTP reply address: " + tmp);
          } else {  //send reply via tcp
            size_t begpos = tmp.find("tcp:",0);
-           tmp = tmp.substr(begpos);
-           size_t endpos = tmp.find_first_of(",");
+           size_t endpos;
 
            if (begpos == string::npos) { 
              LOGERROR("AMQListener::sendResponse() Could not find tcp URL in ServerURI header property.");	 
              return;
            }
+           tmp = tmp.substr(begpos);
+           endpos = tmp.find_first_of(",)");
            if (endpos == string::npos) {
              serverURI = tmp;
            } else {
diff --git a/src/utils/ActiveMQAnalysisEngineService.hpp b/src/utils/ActiveMQAnalysisEngineService.hpp
index 235ae98..514008e 100644
--- a/src/utils/ActiveMQAnalysisEngineService.hpp
+++ b/src/utils/ActiveMQAnalysisEngineService.hpp
@@ -79,6 +79,7 @@ private:
   std::mutex iv_mutex;            //the service may stop a connection that is being reset
   bool iv_valid;
   bool iv_reconnecting;
+  bool iv_retry;                  //try until the broker can be reached
   bool iv_started;
   int iv_id;
 
@@ -106,7 +107,7 @@ public:
   
 	/** Establish connection to the broker and create a Message Producer session. 
    */
-  AMQConnection ( ConnectionFactory * connFact, string brokerURL, Monitor * pStatistics, int id);
+  AMQConnection ( ConnectionFactory * connFact, string brokerURL, Monitor * pStatistics, int id, bool retry = true);
 
   /** Creates a MessageConsumer session and registers a listener. 
       Caller owns the listener. */
@@ -188,6 +189,8 @@ class AMQConnectionsCache : public CommonUtils  {
 private:
   ConnectionFactory * iv_pConnFact;
 	map<string, AMQConnection *> iv_connections; //key is brokerurl
+  map<string, ConnectionFactory *> iv_factories; //key is brokerurl
+  AMQConnection * createConnection(string brokerURL);
 	
 public:
 	AMQConnectionsCache(ConnectionFactory * pConnFact, Monitor * pStatistics); 
-- 
2.43.0


From 896a6249fe9c7f05561fb42ba4773e4226bd08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 116/135] fix: a connection that could not be set up is closed

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index c911870..8d8b6e7 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -114,7 +114,13 @@ static void* APR_THREAD_FUNC handleMessages(apr_thread_t *thd, void *data) {
       iv_brokerURL = iv_brokerURL.substr(0,pos);
     }
     iv_pMonitor = pMonitor;
-    initialize();
+    try {
+      initialize();
+    } catch (...) {
+      //nobody may call this object back
+      resetBeforeReconnect();
+      throw;
+    }
  }
  void AMQConnection::initialize( ) {
 
-- 
2.43.0


From 85496344975e5c45d2c4e0366290c286da4a3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 117/135] fix: a descriptor's text in a CDATA section is text
 too

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 6e6f546..69940cb 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2171,7 +2171,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     icu::UnicodeString spannedText;
     size_t i;
     for (i=0; i < children->getLength(); i++) {
-      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE) {
+      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE ||
+          children->item(i)->getNodeType() == DOMNode::CDATA_SECTION_NODE) {
         spannedText.append(convert(children->item(i)->getNodeValue()));
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
-- 
2.43.0


From c5b3f4f3d832bc59c97f775186927d2e9d9c5caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:22 +0000
Subject: [PATCH 118/135] fix: a variable reference that is empty or names an
 unset variable stands for nothing

---
 src/framework/taespecifierbuilder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 69940cb..c8e6730 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2177,9 +2177,11 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
         if (childTag.compare(TAG_ENV_VAR_REF) == 0) {
-          icu::UnicodeString envVarName(convert(children->item(i)->getFirstChild()->getNodeValue()));
+          icu::UnicodeString envVarName(getSpannedText(children->item(i)));
           util::EnvironmentVariableQueryOnly clEnvVar(UnicodeStringRef(envVarName).asUTF8().c_str());
-          spannedText.append(clEnvVar.getValue());
+          if (clEnvVar.hasValue()) {
+            spannedText.append(clEnvVar.getValue());
+          }
         } else {
           /**
           ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
-- 
2.43.0


From c77f3dad22355fe2578c45ff813df0fd152beae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:02 +0000
Subject: [PATCH 119/135] fix: a delegate whose capabilities are refused is
 deinitialized and deleted

---
 src/framework/annotator_mgr.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index b5c03b3..e303735 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -201,11 +201,21 @@ namespace uima {
 
         EngineEntry entry;
         entry.iv_pEngine = pEngine;
+        entry.iv_pCapabilityContainer = NULL;
+
+        /* add to set of delegate TAEs as managed by the AnnotatorManager: from here on it is deinitialized
+           and deleted whatever happens */
+        try {
+          iv_vecEntries.insert(iv_vecEntries.end(), entry);
+        } catch (...) {
+          delete pEngine;
+          throw;
+        }
 
         // create a capability container for each engine (the cap. container is used for faster lookup)
         uima::internal::CapabilityContainer * pCapContainer = new internal::CapabilityContainer();
         assert( EXISTS(pCapContainer) );
-        entry.iv_pCapabilityContainer = pCapContainer;
+        iv_vecEntries.back().iv_pCapabilityContainer = pCapContainer;
 
         vector<Capability*> const & crCapabilities = pDelegateANC->getTaeSpecifier().getAnalysisEngineMetaData()->getCapabilites();
 
@@ -243,8 +253,6 @@ namespace uima {
         UIMA_TPRINT("  is like dump ? " << pCapContainer->hasEmptyOutputTypeOrFeatures(uima::Language("en") ));
 #endif
 
-        /* add to set of delegate TAEs as managed by the AnnotatorManager */
-        iv_vecEntries.insert(iv_vecEntries.end(), entry);
       }
 
       UIMA_ANNOTATOR_TIMING(iv_clTimerLaunchInit.stop());
@@ -294,8 +302,8 @@ namespace uima {
         EngineEntry & rEntry =  (*it);
         AnalysisEngine * pEngine = rEntry.iv_pEngine;
         assert(EXISTS(pEngine));
+        /* NULL if the capabilities of the engine were refused */
         internal::CapabilityContainer * pCapContainer = rEntry.iv_pCapabilityContainer;
-        assert(EXISTS(pCapContainer));
         delete pEngine;
         delete pCapContainer;
       }
-- 
2.43.0


From 6f1a7fa9ef000db45c2f85a3632b9d53b419f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:23 +0000
Subject: [PATCH 120/135] fix: a capability's language of any length is read
 without overrunning a buffer

---
 src/framework/internal_capability_container.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index f8724ec..4166c38 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -62,29 +62,25 @@ namespace uima {
       Capability::TyVecCapabilityTofs const & vecTofs,
       Capability::TyVecCapabilityLanguages const & vecLangs,
       TypeSystem const & typeSystem) {
-      const int BUF_SIZE = 0x100;
-      char  cBuf[BUF_SIZE];
       Capability::TyVecCapabilityLanguages::const_iterator itLang;
       for (itLang = vecLangs.begin(); itLang != vecLangs.end(); ++itLang) {
         // convert unicode lang string to single-byte lang string
-        assert((*itLang).length() < BUF_SIZE);
         // Note: this conversion can be used only for invariant characters
-        u_UCharsToChars((*itLang).getBuffer(), cBuf, (*itLang).length());
-        // zero terminate single-byte buffer
-        cBuf[(*itLang).length()] = '\0';
+        std::string strLang((*itLang).length(), '\0');
+        u_UCharsToChars((*itLang).getBuffer(), &strLang[0], (*itLang).length());
         // Special workaround code for the new way to specify the unspecified language
-        if (strcasecmp(cBuf, "x-unspecified") == 0) {
-          strcpy(cBuf, Language::UNSPECIFIED);
+        if (strcasecmp(strLang.c_str(), "x-unspecified") == 0) {
+          strLang = Language::UNSPECIFIED;
         }
         // create a language object based on single-byte lang string
-        Language lang(cBuf);
+        Language lang(strLang.c_str());
         if (!lang.isValid()) {
           /* taph 06.02.2003: once we have more detailed information about
           the origin of the error we need to replace "unknown configuration file"
           with the filename of the XML file (and maybe line number?) */
           UIMA_EXC_THROW_NEW(uima::CapabilityException,          // exc-type
                              UIMA_ERR_ENGINE_LANGUAGE_INVALID,   // error code
-                             ErrorMessage(UIMA_MSG_ID_EXC_INVALID_LANGUAGE, cBuf), // error message
+                             ErrorMessage(UIMA_MSG_ID_EXC_INVALID_LANGUAGE, strLang.c_str()), // error message
                              ErrorMessage(UIMA_MSG_ID_EXCON_CHECKING_CAPABILITY_SPEC,"unknown configuration file"),  // error context message
                              ErrorInfo::recoverable);
         }
-- 
2.43.0


From 43176c210fc7749d3e011a1f86a14505c8edd6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 121/135] fix: the status the service reports is Running once
 it takes requests

---
 src/utils/ActiveMQAnalysisEngineService.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/ActiveMQAnalysisEngineService.cpp b/src/utils/ActiveMQAnalysisEngineService.cpp
index 8d8b6e7..035e20a 100644
--- a/src/utils/ActiveMQAnalysisEngineService.cpp
+++ b/src/utils/ActiveMQAnalysisEngineService.cpp
@@ -912,6 +912,7 @@ void AMQListener::receiveAndProcessMessages(apr_thread_t * thd) {
     cout << "Instance: " << iv_id << " ThreadId: " << apr_os_thread_current() <<  " started." << endl;
     //start receiving messages
     //this->iv_pConnection->start();
+    this->iv_pMonitor->running(this->iv_id);
 
     apr_time_t lastStatsTime = apr_time_now(); 
     while (!iv_stopProcessing) {
-- 
2.43.0


From a6e249b33ea35ce3439c63b3e1a133cb2a37e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:45 +0000
Subject: [PATCH 122/135] fix: a parameter setting with an empty array is read
 without crashing

---
 src/framework/config_param.cpp        | 15 ++++++++++-----
 src/framework/taespecifierbuilder.cpp |  4 +++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/framework/config_param.cpp b/src/framework/config_param.cpp
index a524c84..f87955f 100644
--- a/src/framework/config_param.cpp
+++ b/src/framework/config_param.cpp
@@ -265,8 +265,9 @@ namespace uima {
   }
 
   vector<bool> const & NameValuePair::extractBoolValues() const {
-    ensureType(ConfigurationParameter::BOOLEAN);
     ensureMultipleValues();
+    if (size() != 0)  //an array without entries does not show its type
+      ensureType(ConfigurationParameter::BOOLEAN);
     return(iv_boolValues);
   }
 
@@ -277,8 +278,9 @@ namespace uima {
   }
 
   vector<int> const & NameValuePair::extractIntValues() const {
-    ensureType(ConfigurationParameter::INTEGER);
     ensureMultipleValues();
+    if (size() != 0)  //an array without entries does not show its type
+      ensureType(ConfigurationParameter::INTEGER);
     return(iv_intValues);
   }
 
@@ -289,8 +291,9 @@ namespace uima {
   }
 
   vector<float> const & NameValuePair::extractFloatValues() const {
-    ensureType(ConfigurationParameter::FLOAT);
     ensureMultipleValues();
+    if (size() != 0)  //an array without entries does not show its type
+      ensureType(ConfigurationParameter::FLOAT);
     return(iv_fltValues);
   }
 
@@ -301,8 +304,9 @@ namespace uima {
   }
 
   vector<icu::UnicodeString> const & NameValuePair::extractStringValues() const {
-    ensureType(ConfigurationParameter::STRING);
     ensureMultipleValues();
+    if (size() != 0)  //an array without entries does not show its type
+      ensureType(ConfigurationParameter::STRING);
     return(iv_strValues);
   }
 
@@ -316,8 +320,9 @@ namespace uima {
   }
 
   void NameValuePair::extractSingleByteStringValues( vector<std::string*> &  vecStr ) const  {
-    ensureType(ConfigurationParameter::STRING);
     ensureMultipleValues();
+    if (size() != 0)  //an array without entries does not show its type
+      ensureType(ConfigurationParameter::STRING);
     for (size_t i=0; i < iv_strValues.size(); i++) {
       std::string * pvalue = new std::string(convert(iv_strValues[i]));
       vecStr.push_back(pvalue);
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index c8e6730..6ce9d79 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -855,7 +855,9 @@ namespace uima {
         DOMNodeList * arrayEntries = child->getChildNodes();
         assert( EXISTS(arrayEntries) );
         //the type must be the same for all elements in the array
-        nvPair.define(findTypeForValue(findFirstElementNode(arrayEntries)), ConfigurationParameter::MULTIPLE_VALUES);
+        DOMNode * firstEntry = findFirstElementNode(arrayEntries);
+        nvPair.define(EXISTS(firstEntry) ? findTypeForValue(firstEntry) : ConfigurationParameter::STRING,
+                      ConfigurationParameter::MULTIPLE_VALUES);
         //now iterate over entries, adding the values
         size_t j;
         for (j=0; j < arrayEntries->getLength(); j++) {
-- 
2.43.0


From 0a79b5bcfaca0cd6a1901c047ba198fc6b81656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:04 +0000
Subject: [PATCH 123/135] fix: a value assigned to a parameter is one the same
 context then finds

---
 src/framework/annotator_context.cpp      | 57 +++++++++++++++---------
 src/framework/uima/annotator_context.hpp |  9 +++-
 2 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index c63b0c1..c29ea08 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -305,7 +305,7 @@ namespace uima {
     nvPair.setName(paramName);
     nvPair.define(ConfigurationParameter::BOOLEAN, ConfigurationParameter::SINGLE_VALUE);
     nvPair.setValue(value);
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -317,7 +317,7 @@ namespace uima {
     for (size_t i=0; i < values.size(); i++) {
       nvPair.addValue(values[i]);
     }
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -327,7 +327,7 @@ namespace uima {
     nvPair.setName(paramName);
     nvPair.define(ConfigurationParameter::INTEGER, ConfigurationParameter::SINGLE_VALUE);
     nvPair.setValue(value);
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -339,7 +339,7 @@ namespace uima {
     for (size_t i=0; i < values.size(); i++) {
       nvPair.addValue(values[i]);
     }
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -349,7 +349,7 @@ namespace uima {
     nvPair.setName(paramName);
     nvPair.define(ConfigurationParameter::INTEGER, ConfigurationParameter::SINGLE_VALUE);
     nvPair.setValue((int)value);
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -361,7 +361,7 @@ namespace uima {
     for (size_t i=0; i < values.size(); i++) {
       nvPair.addValue((int)values[i]);
     }
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -371,7 +371,7 @@ namespace uima {
     nvPair.setName(paramName);
     nvPair.define(ConfigurationParameter::FLOAT, ConfigurationParameter::SINGLE_VALUE);
     nvPair.setValue(value);
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -383,7 +383,7 @@ namespace uima {
     for (size_t i=0; i < values.size(); i++) {
       nvPair.addValue(values[i]);
     }
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -393,7 +393,7 @@ namespace uima {
     nvPair.setName(paramName);
     nvPair.define(ConfigurationParameter::FLOAT, ConfigurationParameter::SINGLE_VALUE);
     nvPair.setValue((float)value);
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -405,7 +405,7 @@ namespace uima {
     for (size_t i=0; i < values.size(); i++) {
       nvPair.addValue((float)values[i]);
     }
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -415,7 +415,7 @@ namespace uima {
     nvPair.setName(paramName);
     nvPair.define(ConfigurationParameter::STRING, ConfigurationParameter::SINGLE_VALUE);
     nvPair.setValue(value);
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   TyErrorId AnnotatorContext::assignValue(const icu::UnicodeString & groupName,
@@ -427,7 +427,7 @@ namespace uima {
     for (size_t i=0; i <values.size(); i++) {
       nvPair.addValue(values[i]);
     }
-    return setNameValuePair(groupName, nvPair);
+    return setNameValuePair(groupName, nvPair, iv_pTaeSpecifier->getSearchStrategy());
   }
 
   const AnalysisEngineMetaData::TyVecpFSIndexDescriptions AnnotatorContext::getFSIndexDescriptions() const {
@@ -510,28 +510,45 @@ namespace uima {
     return pValueLocal;
   }
 
-  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair) {
+  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
-    if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(nvPair);
+    bool canBeFound = true;
+    try {
+      iv_pTaeSpecifier->getNameValuePair(nvPair.getName(), ancKey);
+    } catch (ConfigException & rclException) {
+      canBeFound = false;
+    }
+    if (canBeFound && EXISTS(iv_pParentAnC)) {
+      errId = iv_pParentAnC->setNameValuePair(nvPair, iv_AnCKey);
     }
 
-    if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
+    //there's either no parent or the nvPair couldn't be set at the parent
+    if (errId != UIMA_ERR_NONE && (canBeFound || ancKey.length() == 0)) {
       errId = iv_pTaeSpecifier->setNameValuePair(nvPair);
     }
     return errId;
   }
 
   TyErrorId AnnotatorContext::setNameValuePair(const icu::UnicodeString & groupName,
-      const NameValuePair & nvPair) {
+      const NameValuePair & nvPair,
+      AnalysisEngineMetaData::EnSearchStrategy strategy,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
-    if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair);
+    bool canBeFound = true;
+    try {
+      iv_pTaeSpecifier->getNameValuePair(groupName, nvPair.getName(), strategy, ancKey);
+    } catch (ConfigException & rclException) {
+      canBeFound = false;
+    }
+    if (canBeFound && EXISTS(iv_pParentAnC)) {
+      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair, strategy, iv_AnCKey);
     }
 
-    if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
+    //there's either no parent or the nvPair couldn't be set at the parent
+    if (errId != UIMA_ERR_NONE && (canBeFound || ancKey.length() == 0)) {
       errId = iv_pTaeSpecifier->setNameValuePair(groupName, nvPair);
     }
     return errId;
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 5b63687..491febd 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -418,17 +418,22 @@ namespace uima {
     /**
     * Sets nvPair in the parent (or one of its ancestors), if possible.
     * If not, it tries to set it in its own AnalysisEngineDescription.
+    * A value that the context with key ancKey could not look up here is not set here.
     * @see AnalysisEngineDescription::setNameValuePair
     **/
-    TyErrorId setNameValuePair(const NameValuePair & nvPair);
+    TyErrorId setNameValuePair(const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
     /**
     * Sets nvPair in group groupName of the parent (or one of its ancestors), if possible.
     * If not, it tries to set it in its own AnalysisEngineDescription.
+    * A value that the context with key ancKey could not look up here is not set here.
     * @see AnalysisEngineDescription::setNameValuePair
     **/
     TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
-                               const NameValuePair & nvPair);
+                               const NameValuePair & nvPair,
+                               AnalysisEngineMetaData::EnSearchStrategy strategy,
+                               const icu::UnicodeString & ancKey="");
 
     LogFacility * iv_pLogger;
     AnnotatorContext * iv_pParentAnC;
-- 
2.43.0


From 7ac8b0a3cd415f3c3563fda6ebf4584b7a57964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:24 +0000
Subject: [PATCH 124/135] fix: a descriptor written out is well-formed whatever
 its texts are

---
 src/framework/taespecifier.cpp | 91 ++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 43 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 91eaf20..15b0151 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -678,6 +678,11 @@ namespace uima {
     }
   }
 
+  //appends text so that an XML parser reads it back unchanged
+  static void appendText(icu::UnicodeString const & text, icu::UnicodeString & s) {
+    XMLWriterABase::normalize(UnicodeStringRef(text), s);
+  }
+
   void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
     size_t i;
     for (i=0; i<v.size(); ++i) {
@@ -685,7 +690,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -700,7 +705,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -736,10 +741,10 @@ namespace uima {
       ConfigurationParameter const * confParam = configParams[i];
       s.append("<configurationParameter>");
       s.append("<name>");
-      s.append(confParam->getName());
+      appendText(confParam->getName(), s);
       s.append("</name>");
       s.append("<description>");
-      s.append(confParam->getDescription());
+      appendText(confParam->getDescription(), s);
       s.append("</description>");
       s.append("<type>");
       ConfigurationParameter::EnParameterType paramType = confParam->getType();
@@ -777,7 +782,7 @@ namespace uima {
       NameValuePair const * nvp = nvps[i];
       s.append("<nameValuePair>");
       s.append("<name>");
-      s.append( nvp->getName() );
+      appendText(nvp->getName(), s);
       s.append("</name>");
 
       s.append("<value>");
@@ -818,7 +823,7 @@ namespace uima {
             vector<icu::UnicodeString> const & v = nvp->extractStringValues();
             for (j=0; j<v.size(); ++j) {
               s.append("<string>");
-              s.append(v[j]);
+              appendText(v[j], s);
               s.append("</string>");
             }
             break;
@@ -854,7 +859,7 @@ namespace uima {
         case ConfigurationParameter::STRING: {
             icu::UnicodeString const & v = nvp->extractStringValue();
             s.append("<string>");
-            s.append(v);
+            appendText(v, s);
             s.append("</string>");
             break;
           }
@@ -883,10 +888,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -915,7 +920,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
               s.append("<featureName>");
-              s.append(ixKeyDesc->getFeatureName());
+              appendText(ixKeyDesc->getFeatureName(), s);
               s.append("</featureName>");
 
               s.append("<comparator>");
@@ -959,7 +964,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -979,15 +984,15 @@ namespace uima {
       for (i=0; i<sofamappingVec.size(); ++i) {
         s.append("<sofaMapping>");
         s.append("<componentKey>");
-        s.append(sofamappingVec[i]->getComponentKey());
+        appendText(sofamappingVec[i]->getComponentKey(), s);
         s.append("</componentKey>");
 
         s.append("<componentSofaName>");
-        s.append(sofamappingVec[i]->getComponentSofaName());
+        appendText(sofamappingVec[i]->getComponentSofaName(), s);
         s.append("</componentSofaName>");
 
         s.append("<aggregateSofaName>");
-        s.append(sofamappingVec[i]->getAggregateSofaName());
+        appendText(sofamappingVec[i]->getAggregateSofaName(), s);
         s.append("</aggregateSofaName>");
 
         s.append("</sofaMapping>");
@@ -1008,7 +1013,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1038,7 +1043,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1076,7 +1081,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1128,7 +1133,7 @@ namespace uima {
 
     if (isCasConsumer) {
       s.append("<implementationName>");
-      s.append(getAnnotatorImpName());
+      appendText(getAnnotatorImpName(), s);
       s.append("</implementationName>");
     }
     // primitive
@@ -1141,7 +1146,7 @@ namespace uima {
       if (isPrimitive()) {
         // annotator implementation
         s.append("<annotatorImplementationName>");
-        s.append(getAnnotatorImpName());
+        appendText(getAnnotatorImpName(), s);
         s.append("</annotatorImplementationName>");
       } else {
         // delegates
@@ -1150,7 +1155,7 @@ namespace uima {
         TyMapDelegateSpecs::const_iterator cit;
         for (cit = delegates.begin(); cit != delegates.end(); ++cit) {
           s.append("<delegateAnalysisEngine key=\"");
-          s.append( (*cit).first );
+          appendText((*cit).first, s);
           s.append("\">");
           icu::UnicodeString delBuf;
           (*cit).second->toXMLBufferNoXMLHeader(delBuf);
@@ -1170,15 +1175,15 @@ namespace uima {
         for (i=0; i<sofamappingVec.size(); ++i) {
           s.append("<sofaMapping>");
           s.append("<componentKey>");
-          s.append(sofamappingVec[i]->getComponentKey());
+          appendText(sofamappingVec[i]->getComponentKey(), s);
           s.append("</componentKey>");
 
           s.append("<componentSofaName>");
-          s.append(sofamappingVec[i]->getComponentSofaName());
+          appendText(sofamappingVec[i]->getComponentSofaName(), s);
           s.append("</componentSofaName>");
 
           s.append("<aggregateSofaName>");
-          s.append(sofamappingVec[i]->getAggregateSofaName());
+          appendText(sofamappingVec[i]->getAggregateSofaName(), s);
           s.append("</aggregateSofaName>");
 
           s.append("</sofaMapping>");
@@ -1223,7 +1228,7 @@ namespace uima {
 
     //   version
     s.append("<version>");
-    s.append( md.getVersion() );
+    appendText(md.getVersion(), s);
     s.append("</version>");
 
     //   vendor
@@ -1240,7 +1245,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1270,7 +1275,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1308,7 +1313,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1338,7 +1343,7 @@ namespace uima {
       vector<icu::UnicodeString> const & v = flow->getNodes();
       for (i=0; i<v.size(); ++i) {
         s.append("<node>");
-        s.append(v[i]);
+        appendText(v[i], s);
         s.append("</node>");
       }
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
@@ -1362,7 +1367,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -1381,11 +1386,11 @@ namespace uima {
           ImportDescription const * pImport = importVec[i];
           if ( pImport->getName().length() > 0) {
             s.append("<import name=\"");
-            s.append(pImport->getName());
+            appendText(pImport->getName(), s);
             s.append("\"/>");
           } else {
             s.append("<import location=\"");
-            s.append(pImport->getLocation());
+            appendText(pImport->getLocation(), s);
             s.append("\"/>");
           }
         }
@@ -1396,7 +1401,7 @@ namespace uima {
           TypeDescription const * td = tdVec[i];
           s.append("<typeDescription>");
           s.append("<name>");
-          s.append(td->getName());
+          appendText(td->getName(), s);
           s.append("</name>");
 
           s.append("<description>");
@@ -1406,7 +1411,7 @@ namespace uima {
           s.append("</description>");
 
           s.append("<supertypeName>");
-          s.append(td->getSuperTypeName());
+          appendText(td->getSuperTypeName(), s);
           s.append("</supertypeName>");
 
           TypeDescription::TyVecpFeatureDescriptions const & fdVec = td->getFeatureDescriptions();
@@ -1416,7 +1421,7 @@ namespace uima {
               FeatureDescription const * fs = fdVec[j];
               s.append("<featureDescription>");
               s.append("<name>");
-              s.append(fs->getName());
+              appendText(fs->getName(), s);
               s.append("</name>");
               s.append("<description>");
               out.setTo("");
@@ -1424,11 +1429,11 @@ namespace uima {
               s.append(out);
               s.append("</description>");
               s.append("<rangeTypeName>");
-              s.append(fs->getRangeTypeName());
+              appendText(fs->getRangeTypeName(), s);
               s.append("</rangeTypeName>");
               if (0 < fs->getElementType().length() ) {
                 s.append("<elementType>");
-                s.append(fs->getElementType());
+                appendText(fs->getElementType(), s);
                 s.append("</elementType>");
               }
               if (fs->isMultipleReferencesAllowed() ) {
@@ -1448,7 +1453,7 @@ namespace uima {
               AllowedValue const * value = allowVec[j];
               s.append("<value>");
               s.append("<string>");
-              s.append(value->getName());
+              appendText(value->getName(), s);
               s.append("</string>");
               s.append("<description>");
               out.setTo("");
@@ -1475,11 +1480,11 @@ namespace uima {
         ImportDescription const * pImport = ixImportVec[i];
         if ( pImport->getName().length() > 0) {
           s.append("<import name=\"");
-          s.append(pImport->getName());
+          appendText(pImport->getName(), s);
           s.append("\"/>");
         } else {
           s.append("<import location=\"");
-          s.append(pImport->getLocation());
+          appendText(pImport->getLocation(), s);
           s.append("\"/>");
         }
       }
@@ -1493,10 +1498,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -1525,7 +1530,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
             s.append("<featureName>");
-            s.append(ixKeyDesc->getFeatureName());
+            appendText(ixKeyDesc->getFeatureName(), s);
             s.append("</featureName>");
 
             s.append("<comparator>");
@@ -1582,7 +1587,7 @@ namespace uima {
       Capability::TyVecCapabilityLanguages const & suppLangVec = cap->getSupportedLanguages();
       for (j=0; j<suppLangVec.size(); ++j) {
         s.append("<language>");
-        s.append(suppLangVec[j]);
+        appendText(suppLangVec[j], s);
         s.append("</language>");
       }
       s.append("</languagesSupported>");
-- 
2.43.0


From 28cdab5618952b44bacead8ba619d05e079550f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:24 +0000
Subject: [PATCH 125/135] fix: a float parameter value is written out without
 losing digits

---
 src/framework/taespecifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 15b0151..55d752b 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -723,7 +723,7 @@ namespace uima {
 
   void appendFloat(float f, icu::UnicodeString & s) {
     char c[256];
-    sprintf(c, "%f", f);
+    sprintf(c, "%.9g", f);
     s.append(c);
   }
 
-- 
2.43.0


From 08cbb8aeeb2cb8a921f74356b48db62c1de77784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:20 +0000
Subject: [PATCH 126/135] fix: the restriction of a parameter to some delegates
 is written out

---
 src/framework/taespecifier.cpp      | 11 +++++++++++
 src/framework/uima/config_param.hpp |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 55d752b..67df843 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -771,6 +771,17 @@ namespace uima {
       s.append("<mandatory>");
       appendBool(confParam->isMandatory(), s);
       s.append("</mandatory>");
+      vector<icu::UnicodeString> const & restrictions = confParam->getRestrictions();
+      if (restrictions.size() > 0) {
+        s.append("<restrictOverrideTo>");
+        for (size_t j=0; j<restrictions.size(); ++j) {
+          if (j > 0) {
+            s.append(" ");
+          }
+          appendText(restrictions[j], s);
+        }
+        s.append("</restrictOverrideTo>");
+      }
       s.append("</configurationParameter>");
     }
   }
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index f552377..5cbef89 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -153,9 +153,9 @@ namespace uima {
     * setting this parameter. If the vector is empty, all delegates
     * are possibly affected.
     **/
-    /*       const std::vector<icu::UnicodeString> & getRestrictions() const{ */
-    /*          return iv_vecRestrictedToDelegates;                           */
-    /*       }                                                                */
+    const std::vector<icu::UnicodeString> & getRestrictions() const {
+      return iv_vecRestrictedToDelegates;
+    }
 
   private:
     icu::UnicodeString iv_name;
-- 
2.43.0


From 0a1fe8d2813dec9a5fa35888af89e15997c3db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 127/135] fix: a directory that cannot be read to its end does
 not make a directory walk endless

---
 src/framework/uima/dirwalk.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/dirwalk.hpp b/src/framework/uima/dirwalk.hpp
index 9fa48c1..97eae42 100644
--- a/src/framework/uima/dirwalk.hpp
+++ b/src/framework/uima/dirwalk.hpp
@@ -155,7 +155,14 @@ namespace uima {
         // If open succeeds get name of first file
         if ( rv == APR_SUCCESS ) {
           haveEntry = TRUE;
-          setToNext();
+          try {
+            setToNext();
+          } catch (...) {
+            // the destructor will not run
+            apr_dir_close( aprDir );
+            apr_pool_destroy( dirPool );
+            throw;
+          }
         }
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -184,8 +191,19 @@ namespace uima {
 
       if ( haveEntry ) {
         rv = apr_dir_read( &aprInfo,APR_FINFO_TYPE|APR_FINFO_NAME,aprDir );
-        if ( APR_STATUS_IS_ENOENT(rv) )
+        if ( rv != APR_SUCCESS && ! APR_STATUS_IS_INCOMPLETE(rv) ) {
           haveEntry = FALSE;
+          // no more entries, or they cannot be read
+          if ( ! APR_STATUS_IS_ENOENT(rv) ) {
+            char errBuf[256];
+            apr_strerror(rv, errBuf, sizeof(errBuf));
+            UIMA_EXC_THROW_NEW(AprFailureException,
+                               UIMA_ERR_APR_FAILURE,
+                               ErrorMessage(UIMA_MSG_ID_EXC_APR_ERROR,errBuf),
+                               ErrorMessage(UIMA_MSG_ID_EXCON_APR_FUNCTION,"apr_dir_read"),
+                               ErrorInfo::unrecoverable);
+          }
+        }
       }
       return haveEntry;
     }
-- 
2.43.0


From 941b36edb1ff1da1e81fa95a30685a61554a0cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 128/135] fix: the runner ends with a failure status if a
 document could not be processed

---
 src/utils/runAECpp.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index a65c6ca..d63c6f5 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -30,6 +30,7 @@
 #include <stdio.h>
 #include <errno.h>
 #include <sys/stat.h>
+#include <atomic>
 
 
 #include "xercesc/framework/LocalFileInputSource.hpp"
@@ -61,6 +62,9 @@ static void tafCheckError(ErrorInfo const &);
 
 void processInputFiles(AnalysisEngine * pEngine);
 
+// some document could not be processed
+static std::atomic<bool> failed(false);
+
 // input file or directory
  std::string in;
 // output directory
@@ -113,7 +117,15 @@ void tell() {
 //-----------------------------------------------------------------
  static void* APR_THREAD_FUNC process(apr_thread_t *thd, void *data) {
    cout << endl << "ThreadId: " << apr_os_thread_current() << " runAECpp::processing... starting thread." << endl;
-   processInputFiles((AnalysisEngine *) data);
+   try {
+     processInputFiles((AnalysisEngine *) data);
+   } catch (Exception & e) {
+     cerr << "runAECpp: " << e << endl;
+     failed = true;
+   } catch (std::exception & e) {
+     cerr << "runAECpp: " << e.what() << endl;
+     failed = true;
+   }
    apr_thread_exit(thd, APR_SUCCESS);
    return NULL;
  }
@@ -310,6 +322,14 @@ int main(int argc, char * argv[]) {
     }
   } catch (Exception e) {
     cout << "runAECpp: " << e << endl;
+    return 1;
+  } catch (std::exception & e) {
+    cout << "runAECpp: " << e.what() << endl;
+    return 1;
+  }
+  if (failed) {
+    cerr << "runAECpp: not all input could be processed." << endl;
+    return 1;
   }
   /* If we got this far everything went OK */
   cout << "runAECpp: processing finished sucessfully! " << endl;
@@ -473,6 +493,15 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
     ErrorInfo errInfo = e.getErrorInfo();
     cerr << "runAECPP::Error " << errInfo.getErrorId() << " " << errInfo.getMessage() << endl;
     cerr << errInfo << endl;
+    failed = true;
+  } catch (XMLException & e) {
+    char * message = XMLString::transcode(e.getMessage());
+    cerr << "runAECPP::Error reading " << in << ": " << message << endl;
+    XMLString::release(&message);
+    failed = true;
+  } catch (std::exception & e) {
+    cerr << "runAECPP::Error processing " << in << ": " << e.what() << endl;
+    failed = true;
   }
 }
 
-- 
2.43.0


From aa2fddbd342b0a4454582ea7b79e21e9ef8f8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 129/135] fix: the runner does not process the part of a file
 that could be read

---
 src/utils/runAECpp.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index d63c6f5..5a7271d 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -396,7 +396,10 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
 
       /* allocate buffer for file contents */
       struct stat fstat;
-      stat(in.c_str(), &fstat);
+      if (stat(in.c_str(), &fstat) != 0) {
+        cerr << "RunAECpp: Error reading file " << in << endl;
+        exit(-1);
+      }
       filesize = fstat.st_size;
       char * pBuffer = new char[filesize+1];
       if (pBuffer == NULL) {
@@ -406,7 +409,12 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
 
       /* read the file */
       size_t numread = fread(pBuffer,1,filesize,pFile);
+      bool readError = ferror(pFile) != 0;
       fclose(pFile);
+      if (readError) {
+        cerr << "RunAECpp: Error reading file " << in << endl;
+        exit(-1);
+      }
       /* convert to unicode and set tcas document text*/
       icu::UnicodeString ustrInputText(pBuffer, (int32_t)numread, "utf-8");
       cas->setDocumentText(UnicodeStringRef(ustrInputText));
-- 
2.43.0


From cc0ef20fcfa017d711aa3bf12279d5a2517e3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 130/135] fix: the runner reports a result that could not be
 written

---
 src/utils/runAECpp.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index 5a7271d..90665bb 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -495,6 +495,10 @@ void process (AnalysisEngine * pEngine, CAS * cas, std::string in, std::string o
       XmiWriter writer(*cas, true);
       writer.write(file);
       file.close();
+      if ( !file ) {
+        cerr << "runAECpp: Error writing output xmi: " << outfn.c_str() << endl;
+        exit(99);
+      }
     }
 
   } catch (Exception e) {
@@ -538,6 +542,10 @@ void writeXmi (CAS & outCas, int num,  std::string in, std::string outfn)  {
   XmiWriter writer(outCas, true);
   writer.write(file);
   file.close();
+  if ( !file ) {
+    cerr << "Error writing output xmi: " << ofn.c_str() << endl;
+    exit(99);
+  }
 }
 
 void processInputFiles(AnalysisEngine * pEngine) {
-- 
2.43.0


From 644627699396f2b4dc46599d6a2f6e647932f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 131/135] fix: the exit status of the runner for an error is
 not 0

---
 src/utils/runAECpp.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index 90665bb..48082fe 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -62,6 +62,11 @@ static void tafCheckError(ErrorInfo const &);
 
 void processInputFiles(AnalysisEngine * pEngine);
 
+// an exit status has 8 bits, and must not be 0 for an error
+static int exitStatus(TyErrorId utErrorId) {
+  return (utErrorId & 0xff) != 0 ? (int) utErrorId : 1;
+}
+
 // some document could not be processed
 static std::atomic<bool> failed(false);
 
@@ -260,7 +265,7 @@ int main(int argc, char * argv[]) {
         << AnalysisEngine::getErrorIdAsCString(errorInfo.getErrorId()) << endl
         << "  UIMACPP Error info:" << endl
         << errorInfo << endl;
-        exit((int)errorInfo.getErrorId());
+        exit(exitStatus(errorInfo.getErrorId()));
       }
       processInputFiles(pEngine);
     } else {
@@ -287,7 +292,7 @@ int main(int argc, char * argv[]) {
           << AnalysisEngine::getErrorIdAsCString(errorInfo.getErrorId()) << endl
           << "  UIMACPP Error info:" << endl
           << errorInfo << endl;
-          exit((int)errorInfo.getErrorId());
+          exit(exitStatus(errorInfo.getErrorId()));
         }
         analysisEngines.push_back(pEngine);
       }
@@ -353,7 +358,7 @@ static void tafCheckError(TyErrorId utErrorId,
     const TCHAR * errStr = crEngine.getAnnotatorContext().getLogger().getLastErrorAsCStr();
     if (errStr != NULL)
       cerr << "  Last logged message : " << errStr << endl;
-    exit((int)utErrorId);
+    exit(exitStatus(utErrorId));
   }
 }
 
@@ -367,7 +372,7 @@ static void tafCheckError(ErrorInfo const & errInfo) {
     << AnalysisEngine::getErrorIdAsCString(errInfo.getErrorId()) << endl
     << "  UIMACPP Error info:" << endl
     << errInfo << endl;
-    exit((int)errInfo.getErrorId());
+    exit(exitStatus(errInfo.getErrorId()));
   }
 }
 
-- 
2.43.0


From 638248a8a845d0f35123af3a36c4aad3be4ede56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:58 +0000
Subject: [PATCH 132/135] fix: the runner reports a thread that could not be
 started

---
 src/utils/runAECpp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index 48082fe..b57f419 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -308,7 +308,11 @@ int main(int argc, char * argv[]) {
       for (int i=0; i < numinstances; i++) {
         apr_thread_t *thread=0;
         rv = apr_thread_create(&thread, thd_attr, process, analysisEngines.at(i), pool);
-        assert(rv == APR_SUCCESS);
+        if (rv != APR_SUCCESS) {
+          cerr << "ERROR: apr_thread_create() failed. " << endl;
+          failed = true;
+          break;
+        }
         processingThreads.push_back(thread);
         apr_sleep(10000); //required so that time function to distinctly seed randomizer.
       }
-- 
2.43.0


From b72105126f2cf69f379381ec70a617d254d8b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:39 +0000
Subject: [PATCH 133/135] fix: a single document is processed in an empty CAS
 in every run

---
 src/utils/runAECpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/runAECpp.cpp b/src/utils/runAECpp.cpp
index b57f419..ea020da 100644
--- a/src/utils/runAECpp.cpp
+++ b/src/utils/runAECpp.cpp
@@ -664,6 +664,9 @@ void processInputFiles(AnalysisEngine * pEngine) {
       } else {
         //process the cas
         process(pEngine,cas, in, out);
+
+        //reset the cas
+        cas->reset();
       }
       /* call collectionProcessComplete */
       utErrorId = pEngine->collectionProcessComplete();
-- 
2.43.0


From fc27e1a234fe1e062571b3a9e3846fb01f8a4d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:36 +0000
Subject: [PATCH 134/135] fix: an annotation without a Sofa does not lead to a
 view of some other number

---
 src/cas/featurestructure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index a842eab..6c49d3c 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -302,7 +302,8 @@ namespace uima {
             internal::FSPromoter::demoteType(internal::FSPromoter::promoteFS(resultAddr, *iv_cas).getType()))) {
       // an annotation. Check that sofaNum agrees with current CAS
       lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(resultAddr, internal::gs_tySofaRefFeature);
-      if ( annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
+      if ( annSofaAddr != uima::lowlevel::FSHeap::INVALID_FS
+           && annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
         int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
         CAS* annTcas = iv_cas->getViewBySofaNum(annSofaNum);
-- 
2.43.0


From e80e003a499935c293d359f9c82cdb7b2e4a2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:32 +0000
Subject: [PATCH 135/135] fix: a descriptor part imported under two names of
 the same file is imported once

---
 src/framework/resmgr.cpp                |  8 ++++++++
 src/framework/taespecifierbuilder.cpp   | 18 +++++++++---------
 src/framework/typesystemdescription.cpp |  7 +++++--
 src/framework/uima/resmgr.hpp           |  3 +++
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 0fdff81..22bf795 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -894,6 +894,14 @@ namespace uima {
     return filename;
   }
 
+  icu::UnicodeString ResourceManager::getAbsoluteFilename(icu::UnicodeString const & filename) {
+    std::string name;
+    UnicodeStringRef(filename).extract(name);
+    util::Filename absoluteName(name.c_str());
+    absoluteName.normalizeAbsolute();
+    return icu::UnicodeString(absoluteName.getAsCString());
+  }
+
 
 
 }
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 6ce9d79..bf4a010 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -187,11 +187,7 @@ namespace uima {
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() ); 
 
     // a description that imports itself, directly or not, would never end
-    std::string name;
-    UnicodeStringRef(fn).extract(name);
-    util::Filename absoluteName(name.c_str());
-    absoluteName.normalizeAbsolute();
-    icu::UnicodeString const file(absoluteName.getAsCString());
+    icu::UnicodeString const file(ResourceManager::getAbsoluteFilename(fn));
     for (size_t i=0; i < iv_filesBeingParsed.size(); i++) {
       if (file.compare(iv_filesBeingParsed[i]) == 0) {
         UIMA_EXC_THROW_NEW(InvalidXMLException,
@@ -1824,13 +1820,15 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
     icu::UnicodeString importfn = ResourceManager::resolveFilename(fileName, lastFileName);
 
+    // the same file may be named in different ways
+    icu::UnicodeString const importedFile(ResourceManager::getAbsoluteFilename(importfn));
     for (size_t i=0; i < alreadyImportedLocations.size() ;i++) {
-      if (importfn.compare(alreadyImportedLocations[i]) == 0 )  {
+      if (importedFile.compare(alreadyImportedLocations[i]) == 0 )  {
         return;
       }
     }
 
-    alreadyImportedLocations.push_back(importfn);
+    alreadyImportedLocations.push_back(importedFile);
     size_t uiLen = importfn.length();
     auto_array<UChar> arBuffer( new UChar[uiLen + 1] );
     assert( EXISTS(arBuffer.get()));
@@ -1885,12 +1883,14 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
     icu::UnicodeString importfn = ResourceManager::resolveFilename(fileName, lastFileName);
 
+    // the same file may be named in different ways
+    icu::UnicodeString const importedFile(ResourceManager::getAbsoluteFilename(importfn));
     for (size_t i=0; i < alreadyImportedLocations.size(); i++) {
-      if (importfn.compare(alreadyImportedLocations[i]) == 0 )  {
+      if (importedFile.compare(alreadyImportedLocations[i]) == 0 )  {
         return;
       }
     }
-    alreadyImportedLocations.push_back(importfn);
+    alreadyImportedLocations.push_back(importedFile);
 
     size_t uiLen = importfn.length();
     auto_array<UChar> arBuffer( new UChar[uiLen + 1] );
diff --git a/src/framework/typesystemdescription.cpp b/src/framework/typesystemdescription.cpp
index f69c3ff..406697c 100644
--- a/src/framework/typesystemdescription.cpp
+++ b/src/framework/typesystemdescription.cpp
@@ -30,6 +30,7 @@
 
 #include "uima/typesystemdescription.hpp"
 #include "uima/taespecifierbuilder.hpp"
+#include "uima/resmgr.hpp"
 #include <memory>
 #include "uima/msg.h"
 using namespace std;
@@ -221,9 +222,11 @@ namespace uima {
       if (pImport->getLocation().length() > 0) {
         const icu::UnicodeString & fileLocation = pImport->findAbsoluteUrl(iv_xmlFileLoc);
         //check it is not in already Imported list
+        //(the same file may be named in different ways)
+        icu::UnicodeString const importedFile(ResourceManager::getAbsoluteFilename(fileLocation));
 		bool needsToBeResolved=true;
         for (size_t j=0; j < alreadyImportedTypeSystemLocations.size() ;j++) {
-          if (fileLocation.compare(alreadyImportedTypeSystemLocations[j]) == 0 )  {
+          if (importedFile.compare(alreadyImportedTypeSystemLocations[j]) == 0 )  {
 			  needsToBeResolved=false;
 			  break;
 		  }
@@ -264,7 +267,7 @@ namespace uima {
     TypeSystemDescription * pDesc = builder.buildTypeSystemSpecifierFromFile(fileLocation);
     if (EXISTS(pDesc)) {
       //add this file to already imported list
-      alreadyImportedTypeSystemLocations.push_back(fileLocation);
+      alreadyImportedTypeSystemLocations.push_back(ResourceManager::getAbsoluteFilename(fileLocation));
 
       //resolve imports within this descriptor
       pDesc->resolveImports(alreadyImportedTypeSystemLocations);
diff --git a/src/framework/uima/resmgr.hpp b/src/framework/uima/resmgr.hpp
index b5d716d..b737ef9 100644
--- a/src/framework/uima/resmgr.hpp
+++ b/src/framework/uima/resmgr.hpp
@@ -241,6 +241,9 @@ namespace uima {
     static icu::UnicodeString resolveFilename(icu::UnicodeString const & filename,
         icu::UnicodeString const & lastFilename);
 
+    /** the absolute name of the file, without "." and ".." in it, to compare it with others */
+    static icu::UnicodeString getAbsoluteFilename(icu::UnicodeString const & filename);
+
 
     /**
       * Register Logger. Caller owns the logger instance.
-- 
2.43.0

