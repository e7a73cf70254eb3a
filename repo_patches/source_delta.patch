From e52eb0b1984abd05d2e6cdce351a3d8724c37579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 01/99] fix: accept every valid lexical form of numeric
 attribute values

FontSize, NumberOrNormal, YesNoNumber, Integer and PositiveIntegerOrEmpty attributes were
rejected when the text differed from the canonical print of the parsed value (1.50, +1, 01).
---
 Sourcecode/private/mx/core/FromXElement.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index bf3c2c4..237bb6a 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -624,7 +624,8 @@ namespace mx
             }
             hasAttribute = true;
             assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            Integer parsed;
+            if( !parsed.parse( iter->getValue() ) || parsed.getValue() != assignmentTarget.getValue() )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
@@ -710,8 +711,7 @@ namespace mx
                 return false;
             }
             hasAttribute = true;
-            assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            if( !assignmentTarget.parse( iter->getValue() ) )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
@@ -739,7 +739,7 @@ namespace mx
             }
             hasAttribute = true;
             assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            if( assignmentTarget.getIsNumber() && !Decimal{}.parse( iter->getValue() ) )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
@@ -770,7 +770,8 @@ namespace mx
             }
             hasAttribute = true;
             assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            Integer parsed;
+            if( assignmentTarget.getIsNumber() && ( !parsed.parse( iter->getValue() ) || parsed.getValue() != assignmentTarget.getValueNumber().getValue() ) )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
@@ -797,8 +798,7 @@ namespace mx
                 return false;
             }
             hasAttribute = true;
-            assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            if( !assignmentTarget.parse( iter->getValue() ) )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
-- 
2.43.0


From 7cfbdd05704681c7b6dbdce87a485e9ca4150930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 02/99] fix: write dash-length once on empty-line elements

---
 Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
index 9ebc909..e62f40c 100644
--- a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
@@ -63,7 +63,6 @@ namespace mx
         {
             if ( hasValues() )
             {
-                streamAttribute( os, dashLength, "dash-length", hasDashLength );
                 streamAttribute( os, lineShape, "line-shape", hasLineShape );
                 streamAttribute( os, lineType, "line-type", hasLineType );
                 streamAttribute( os, dashLength, "dash-length", hasDashLength );
-- 
2.43.0


From 1023c50ddc1528bbd352c51136d6428493f0799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 03/99] fix: read the xlink attributes of link and opus by
 their qualified names

---
 Sourcecode/private/mx/core/elements/LinkAttributes.cpp | 10 +++++-----
 Sourcecode/private/mx/core/elements/OpusAttributes.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
index 21f8475..ef6bd5c 100644
--- a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
@@ -91,7 +91,7 @@ namespace mx
             
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -99,10 +99,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, name, hasName, "name" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, element, hasElement, "element" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, position, hasPosition, "position" ) ) { continue; }
diff --git a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
index dd5aa18..e998866 100644
--- a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
@@ -63,7 +63,7 @@ namespace mx
         
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -71,10 +71,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
             }
         
             if( !isHrefFound )
-- 
2.43.0


From de72b96a27d5ef62c4118e3a88f95aec8791e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 04/99] fix: read links and bookmarks that follow the first
 credit-words from their own elements

---
 Sourcecode/private/mx/core/elements/Credit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Credit.cpp b/Sourcecode/private/mx/core/elements/Credit.cpp
index aa3d200..7ccbb9a 100644
--- a/Sourcecode/private/mx/core/elements/Credit.cpp
+++ b/Sourcecode/private/mx/core/elements/Credit.cpp
@@ -307,7 +307,7 @@ namespace mx
                         while( i != endIter && i->getName() == "link" )
                         {
                             auto link = makeLink();
-                            isSuccess &= link->fromXElement( message, xelement );
+                            isSuccess &= link->fromXElement( message, *i );
                             creditWordsGroup->addLink( link );
                             ++i;
                         }
@@ -316,7 +316,7 @@ namespace mx
                         while( i != endIter && i->getName() == "bookmark" )
                         {
                             auto bookmark = makeBookmark();
-                            isSuccess &= bookmark->fromXElement( message, xelement );
+                            isSuccess &= bookmark->fromXElement( message, *i );
                             creditWordsGroup->addBookmark( bookmark );
                             ++i;
                         }
-- 
2.43.0


From e4ffeb2a1de17e12902a28ffebf58bb33bb053f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 05/99] fix: accept other-notation within notations

---
 Sourcecode/private/mx/core/elements/Notations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Notations.cpp b/Sourcecode/private/mx/core/elements/Notations.cpp
index c04477a..c1d2ec2 100644
--- a/Sourcecode/private/mx/core/elements/Notations.cpp
+++ b/Sourcecode/private/mx/core/elements/Notations.cpp
@@ -265,7 +265,7 @@ namespace mx
                     isSuccess &= choice->getAccidentalMark()->fromXElement( message, *it );
                     myNotationsChoiceSet.push_back( choice );
                 }
-                else if ( elementName == "other-notations" )
+                else if ( elementName == "other-notation" )
                 {
                     auto choice = makeNotationsChoice();
                     choice->setChoice( NotationsChoice::Choice::otherNotation );
-- 
2.43.0


From b00acc3d5507ea6354c90538cbd688d436363b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 06/99] fix: read the children of percussion

---
 Sourcecode/private/mx/core/elements/Percussion.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Percussion.cpp b/Sourcecode/private/mx/core/elements/Percussion.cpp
index 689ecaf..669462e 100644
--- a/Sourcecode/private/mx/core/elements/Percussion.cpp
+++ b/Sourcecode/private/mx/core/elements/Percussion.cpp
@@ -86,7 +86,11 @@ namespace mx
         {
             bool isSuccess = true;
             isSuccess &= myAttributes->fromXElement( message, xelement );
-            isSuccess &= myChoice->fromXElement( message, xelement );
+            auto endIter = xelement.end();
+            for( auto it = xelement.begin(); it != endIter; ++it )
+            {
+                isSuccess &= myChoice->fromXElement( message, *it );
+            }
             MX_RETURN_IS_SUCCESS;
         }
 
-- 
2.43.0


From e3f17db0c245304b214fec3afe92012c17232566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 07/99] fix: read circular-arrow

---
 Sourcecode/private/mx/core/elements/Arrow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Arrow.cpp b/Sourcecode/private/mx/core/elements/Arrow.cpp
index e0a9d99..b4ed584 100644
--- a/Sourcecode/private/mx/core/elements/Arrow.cpp
+++ b/Sourcecode/private/mx/core/elements/Arrow.cpp
@@ -141,11 +141,11 @@ namespace mx
                 {
                     myChoice = Choice::circularArrow;
                     isSuccess &= myCircularArrow->fromXElement( message, *it );
-                    // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                    MX_RETURN_IS_SUCCESS;
                 }
                 myChoice = Choice::arrowGroup;
-                isSuccess = myArrowGroup->fromXElement( message, xelement );
-                // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                isSuccess &= myArrowGroup->fromXElement( message, xelement );
+                MX_RETURN_IS_SUCCESS;
             }
 
             MX_RETURN_IS_SUCCESS;
-- 
2.43.0


From 04c6f01d14e135cc77a637f05d53aa4825f487e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 08/99] fix: read the location attribute of hole-closed

---
 Sourcecode/private/mx/core/elements/HoleClosed.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/HoleClosed.cpp b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
index 2f6e7fb..bde3d4b 100644
--- a/Sourcecode/private/mx/core/elements/HoleClosed.cpp
+++ b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
@@ -3,7 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/core/elements/HoleClosed.h"
-#include "ezxml/XElement.h"
+#include "mx/core/FromXElement.h"
 #include <iostream>
 
 namespace mx
@@ -89,10 +89,10 @@ namespace mx
         
         bool HoleClosed::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            MX_UNUSED( message );
-            MX_UNUSED( xelement );
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
             myValue = parseHoleClosedValue( xelement.getValue() );
-            return true;
+            MX_RETURN_IS_SUCCESS;
         }
     }
 }
-- 
2.43.0


From f8c7c60657714dce7514de4fc93c9bd08ebd5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 09/99] fix: keep the syllabic that follows an elision

---
 Sourcecode/private/mx/core/FromXElement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index 237bb6a..466168c 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -330,6 +330,7 @@ namespace mx
                 {
                     
                     isSuccess &= elisionSyllabicTextGroup->getElisionSyllabicGroup()->getSyllabic()->fromXElement( message, *iter );
+                    elisionSyllabicTextGroup->getElisionSyllabicGroup()->setHasSyllabic( true );
                     elisionSyllabicTextGroup->setHasElisionSyllabicGroup( true );
                     ++iter;
                     isIterIncremented = true;
-- 
2.43.0


From 267b6be4654493e1de8d41c3a181be0c6af3fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 10/99] fix: do not replace or re-read the lyric content when
 end-line, end-paragraph, footnote or level follows

---
 Sourcecode/private/mx/core/elements/Lyric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Lyric.cpp b/Sourcecode/private/mx/core/elements/Lyric.cpp
index 4094400..0a4e1db 100644
--- a/Sourcecode/private/mx/core/elements/Lyric.cpp
+++ b/Sourcecode/private/mx/core/elements/Lyric.cpp
@@ -209,8 +209,9 @@ namespace mx
                     static_cast<int>( LyricTextChoice::Choice::humming ) ) )
                 { isLyricTextChoiceFound = true; continue; }
                 
-                else
+                else if( !isLyricTextChoiceFound )
                 {
+                    isLyricTextChoiceFound = true;
                     myLyricTextChoice->setChoice( LyricTextChoice::Choice::syllabicTextGroup );
                     SyllabicTextGroupPtr ptr = myLyricTextChoice->getSyllabicTextGroup();
                     importGroup( message, it, endIter, isSuccess, ptr );
-- 
2.43.0


From 998b7ab13982142fcfc7fe0bb4a18a57b6f4a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 11/99] fix: write the midi-instrument of a sound only when it
 is switched on

---
 Sourcecode/private/mx/core/elements/Sound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Sound.cpp b/Sourcecode/private/mx/core/elements/Sound.cpp
index eedab00..feb7e81 100644
--- a/Sourcecode/private/mx/core/elements/Sound.cpp
+++ b/Sourcecode/private/mx/core/elements/Sound.cpp
@@ -56,7 +56,7 @@ namespace mx
                 os << std::endl;
                 myMidiDevice->toStream( os, indentLevel+1 );
             }
-            if ( myMidiInstrument )
+            if ( myHasMidiInstrument )
             {
                 os << std::endl;
                 myMidiInstrument->toStream( os, indentLevel+1 );
-- 
2.43.0


From 6d32cfc394d3fe7a8cd58595643fb942cc2f2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 12/99] fix: read the children of notehead-text from their own
 elements

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index cb92a20..c9ef69f 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -102,7 +102,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::accidentalText );
-                    isSuccess &= item->getAccidentalText()->fromXElement( message, xelement );
+                    isSuccess &= item->getAccidentalText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
@@ -119,7 +119,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::displayText );
-                    isSuccess &= item->getDisplayText()->fromXElement( message, xelement );
+                    isSuccess &= item->getDisplayText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
-- 
2.43.0


From 3467a79db220e3206b7ddf83c7655bde153f3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 13/99] fix: read normal-type and normal-dot of
 metronome-tuplet

---
 .../private/mx/core/elements/MetronomeTuplet.cpp       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
index 0d20fcb..a40e2da 100644
--- a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
+++ b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
@@ -5,7 +5,9 @@
 #include "mx/core/elements/MetronomeTuplet.h"
 #include "mx/core/FromXElement.h"
 #include "mx/core/elements/ActualNotes.h"
+#include "mx/core/elements/NormalDot.h"
 #include "mx/core/elements/NormalNotes.h"
+#include "mx/core/elements/NormalType.h"
 #include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
 #include <iostream>
 
@@ -148,7 +150,13 @@ namespace mx
             {
                 if ( importElement( message, *it, isSuccess, *myActualNotes, isActualNotesFound ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myNormalNotes, isNormalNotesFound ) ) { continue; }
-                if ( importElement( message, *it, isSuccess, *myTimeModificationNormalTypeNormalDot, myHasTimeModificationNormalTypeNormalDot ) ) { continue; }
+                if ( importElement( message, *it, isSuccess, *myTimeModificationNormalTypeNormalDot->getNormalType(), myHasTimeModificationNormalTypeNormalDot ) ) { continue; }
+                if ( it->getName() == "normal-dot" )
+                {
+                    auto normalDot = makeNormalDot();
+                    isSuccess &= normalDot->fromXElement( message, *it );
+                    myTimeModificationNormalTypeNormalDot->addNormalDot( normalDot );
+                }
             }
 
             if( !isActualNotesFound )
-- 
2.43.0


From ee5108cbb2e9f87983b1c71f29d4ae65950dfcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 14/99] fix: read bezier-offset2, bezier-x2 and bezier-y2 of
 tied by their schema names

---
 Sourcecode/private/mx/core/elements/TiedAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
index abd228b..6f94347 100644
--- a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
@@ -123,11 +123,11 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, placement, hasPlacement, "placement", &parseAboveBelow ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, orientation, hasOrientation, "orientation", &parseOverUnder ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierOffset, hasBezierOffset, "bezier-offset" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierX, hasBezierX, "bezier-x" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierY, hasBezierY, "bezier-y" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x-2" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
             }
         
-- 
2.43.0


From e5d58efd22a0022e478bb31747f53d9237c4b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 15/99] fix: read the children and attributes of play instead
 of rejecting every document that has one

---
 Sourcecode/private/mx/core/elements/Play.cpp | 53 ++++++++++++--------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Play.cpp b/Sourcecode/private/mx/core/elements/Play.cpp
index bd489ab..5e3962d 100644
--- a/Sourcecode/private/mx/core/elements/Play.cpp
+++ b/Sourcecode/private/mx/core/elements/Play.cpp
@@ -172,29 +172,40 @@ namespace mx
 
         bool Play::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            if( xelement.getName() == "ipa" )
-            {
-                myChoice = Choice::ipa;
-                return getIpa()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "mute" )
-            {
-                myChoice = Choice::mute;
-                return getMute()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "semi-pitched" )
-            {
-                myChoice = Choice::semiPitched;
-                return getSemiPitched()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "other-play" )
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
+
+            auto endIter = xelement.end();
+            for( auto it = xelement.begin(); it != endIter; ++it )
             {
-                myChoice = Choice::otherPlay;
-                return getOtherPlay()->fromXElement( message, xelement );
+                if( it->getName() == "ipa" )
+                {
+                    myChoice = Choice::ipa;
+                    isSuccess &= getIpa()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "mute" )
+                {
+                    myChoice = Choice::mute;
+                    isSuccess &= getMute()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "semi-pitched" )
+                {
+                    myChoice = Choice::semiPitched;
+                    isSuccess &= getSemiPitched()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "other-play" )
+                {
+                    myChoice = Choice::otherPlay;
+                    isSuccess &= getOtherPlay()->fromXElement( message, *it );
+                }
+                else
+                {
+                    message << "Play: '" << it->getName() << "' is not valid" << std::endl;
+                    isSuccess = false;
+                }
             }
-            
-            message << "Encoding: '" << xelement.getName() << "' is not valid" << std::endl;
-            return false;
+
+            MX_RETURN_IS_SUCCESS;
         }
 
     }
-- 
2.43.0


From 0b3d20cc507fdfcf202fd624067f4497edd1daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 16/99] fix: clamp decimals that are too big for the integer
 type instead of converting them

---
 Sourcecode/private/mx/core/Decimals.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index eb11eb8..ab6c248 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -66,8 +66,8 @@ namespace mx
                 myIsNegative = false;
             }
 
-            const auto integer = static_cast<decltype( myInteger )>( inValue );
-            const bool isTooBig = integer > myMaxExpressibleInteger;
+            // compare before converting: a value which does not fit the integer type cannot be converted
+            const bool isTooBig = !( inValue < static_cast<DecimalType>( myMaxExpressibleInteger ) + 1 );
 
             if( isTooBig )
             {
@@ -76,6 +76,8 @@ namespace mx
                 return;
             }
 
+            const auto integer = static_cast<decltype( myInteger )>( inValue );
+
             const DecimalType decimalPartAsFloat = inValue - static_cast<DecimalType>( integer );
             const auto powerMultiplierAsFloat = std::pow( static_cast<DecimalType>( 10 ), static_cast<DecimalType>( getMaxDecimalDigits() ) );
             const auto powerMultiplier = static_cast<uint64_t>( std::ceil( powerMultiplierAsFloat - POINT_FIVE ) );
-- 
2.43.0


From a82f08db530ceceef5935291c12bde3d69523203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 17/99] fix: do not round decimals up beyond the largest
 expressible number

---
 Sourcecode/private/mx/core/Decimals.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index ab6c248..feb6680 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -86,6 +86,13 @@ namespace mx
 
             if( decimalDigits > myMaxExpressibleDecimal )
             {
+                if( integer >= myMaxExpressibleInteger )
+                {
+                    myInteger = myMaxExpressibleInteger;
+                    myDecimal = myMaxExpressibleDecimal;
+                    return;
+                }
+
                 myInteger = integer + 1;
                 myDecimal = 0;
                 return;
-- 
2.43.0


From 11cb2283bf4dba1355409297d7cb963012e31ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 18/99] fix: keep decimals with an exclusive minimum above it
 when they are rounded

---
 Sourcecode/private/mx/core/Decimals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index feb6680..148b329 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -363,7 +363,8 @@ namespace mx
 
         DecimalType minExclusive( DecimalType min, DecimalType val )
         {
-            if( val <= min )
+            // a smaller value would be rounded to the excluded minimum when it is stored
+            if( val < min + NON_ZERO_AMOUNT )
             {
                 return min + NON_ZERO_AMOUNT;
             }
-- 
2.43.0


From 02bc60da33d22bb9d9da15afeac86a453c621fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 19/99] fix: keep the text 'other' (and 'other-dynamics') given
 to types with custom values

---
 Sourcecode/private/mx/core/Enums.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index cbc51ea..9bf0fd6 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -822,7 +822,7 @@ namespace mx
         void DistanceType::setValue( const std::string& value )
         {
             const auto temp = tryParseDistanceTypeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != DistanceTypeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -984,7 +984,7 @@ namespace mx
         void DynamicsValue::setValue( const std::string& value )
         {
             const auto temp = tryParseDynamicsEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != DynamicsEnum::otherDynamics )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -1970,7 +1970,7 @@ namespace mx
         void LineWidthType::setValue( const std::string& value )
         {
             const auto temp = tryParseLineWidthTypeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != LineWidthTypeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -2316,7 +2316,7 @@ namespace mx
         void ModeValue::setValue( const std::string& value )
         {
             const auto temp = tryParseModeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != ModeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
-- 
2.43.0


From 2700f84b48d135d56c564cf7e1e5df679d4ce879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 20/99] fix: do not overflow when very large numbers of months
 or years are added to a date

---
 Sourcecode/private/mx/core/Date.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index 2f7b270..7b685ff 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -438,6 +438,9 @@ namespace mx
             void addMonths( int months )
             {
                 
+                // more than this reaches the first or last date in any case
+                months = constrainToRange( months, -12 * 9999, 12 * 9999 );
+
                 // modulus math is hard to understand when negative numbers are involved
                 // store the sign of 'months' as an int and make months positive
                 int direction = 1;
@@ -529,7 +532,7 @@ namespace mx
 
             void addYears( int years )
             {
-                int new_year = getYear() + years;
+                int new_year = getYear() + constrainToRange( years, -9999, 9999 );
                 //year( ( year() + years ) );
                 
                 // if day was a leap day and the new year is not a leap year
-- 
2.43.0


From f81e1ee5b7faac2f70d4accdfcea8a2f6bf9f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 21/99] fix: skip empty items when parsing comma separated text

---
 Sourcecode/private/mx/core/CommaSeparatedText.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/CommaSeparatedText.cpp b/Sourcecode/private/mx/core/CommaSeparatedText.cpp
index df95e2d..e60b2a0 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedText.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedText.cpp
@@ -40,7 +40,13 @@ namespace mx
             
             while( std::getline( iss, token, ',' ) )
             {
-                myValues.push_back( XsToken( token ) );
+                XsToken item( token );
+
+                // an empty item is not permitted in a comma separated list
+                if( !item.getValue().empty() )
+                {
+                    myValues.push_back( item );
+                }
             }
         }
         
-- 
2.43.0


From 78e1d4a1d142cb0a496c196cd2339f4c0c6af605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 22/99] fix: do not let an id start with a hyphen or a full
 stop

---
 Sourcecode/private/mx/core/XsID.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/XsID.cpp b/Sourcecode/private/mx/core/XsID.cpp
index 745041d..1a4f1b5 100644
--- a/Sourcecode/private/mx/core/XsID.cpp
+++ b/Sourcecode/private/mx/core/XsID.cpp
@@ -30,7 +30,7 @@ namespace mx
             {
                 scrubbed = "ID";
             }
-            else if ( isdigit( scrubbed[0] ) )
+            else if ( isdigit( scrubbed[0] ) || scrubbed[0] == '-' || scrubbed[0] == '.' )
             {
                 scrubbed = "ID" + scrubbed;
             }
-- 
2.43.0


From cd81f30d9aa7f9ea93fb9c00dc5b97806d7f4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 23/99] fix: escape quotes in attribute values

---
 .../private/mx/core/AttributesInterface.h      | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/AttributesInterface.h b/Sourcecode/private/mx/core/AttributesInterface.h
index ff21d60..b9a62d5 100644
--- a/Sourcecode/private/mx/core/AttributesInterface.h
+++ b/Sourcecode/private/mx/core/AttributesInterface.h
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <memory>
+#include <sstream>
 
 namespace ezxml
 {
@@ -46,7 +47,22 @@ namespace mx
                 os << " ";
                 os << attributeName;
                 os << "=\"";
-                os << value;
+                std::ostringstream valueStream;
+                valueStream << value;
+
+                for( const auto c : valueStream.str() )
+                {
+                    if( c == '"' )
+                    {
+                        // a quote would end the attribute value
+                        os << "&quot;";
+                    }
+                    else
+                    {
+                        os << c;
+                    }
+                }
+
                 os << "\"";
             }
             return os;
-- 
2.43.0


From ddf29358e8b24ba1b1e851e101e203c32f8fdb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 24/99] fix: escape the custom text of mode, distance,
 line-width and dynamics values

---
 Sourcecode/private/mx/core/Enums.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index 9bf0fd6..98d0735 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -4,6 +4,7 @@
 
 // self
 #include "mx/core/Enums.h"
+#include "mx/core/XsString.h"
 
 // std
 #include <sstream>
@@ -846,7 +847,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DistanceType& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString{ toString( value ) } );
         }
 
         std::ostream& operator<<( std::ostream& os, const DistanceType& value )
@@ -1008,7 +1009,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DynamicsValue& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString{ toString( value ) } );
         }
 
         std::ostream& operator<<( std::ostream& os, const DynamicsValue& value )
@@ -1994,7 +1995,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const LineWidthType& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString{ toString( value ) } );
         }
 
         std::ostream& operator<<( std::ostream& os, const LineWidthType& value )
@@ -2340,7 +2341,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const ModeValue& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString{ toString( value ) } );
         }
 
         std::ostream& operator<<( std::ostream& os, const ModeValue& value )
-- 
2.43.0


From fa1ef56ffd9f07f8c25b4ed1fe1595b3a7abb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 25/99] fix: keep text that consists of white space only when
 reading

---
 Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index de22ba2..73a4c4c 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -11,7 +11,8 @@ namespace ezxml
 {
 
     static constexpr unsigned int standardOptions =
-            pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi;
+            pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi |
+            pugi::parse_ws_pcdata_single; // text may consist of white space only
 
 
     PugiDoc::PugiDoc()
-- 
2.43.0


From 043b58342f45ce29c76930e39948b5bb2b26b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 26/99] fix: keep every piece of an element's text and drop
 empty text nodes in the XML layer

---
 .../ezxml/src/private/private/PugiElement.cpp | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 00ec2ea..2b83186 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -13,6 +13,15 @@
 
 namespace ezxml
 {
+    namespace
+    {
+        bool
+        isText( const pugi::xml_node& node )
+        {
+            return node.type() == pugi::node_pcdata || node.type() == pugi::node_cdata;
+        }
+    }
+
 
     PugiElement::PugiElement()
             : myNode(), myXDoc( XDocCPtr{ nullptr } ), myNodeType{ pugi::xml_node_type::node_null }, myEndIter{}
@@ -53,7 +62,7 @@ namespace ezxml
             return XElementType::null;
         }
 
-        if( std::string{ myNode.text().as_string() }.length() > 0 )
+        if( !getIsProcessingInstruction() && !getValue().empty() )
         {
             return XElementType::text;
         }
@@ -125,7 +134,16 @@ namespace ezxml
         }
         else
         {
-            return std::string{ myNode.text().as_string() };
+            // comments and CDATA sections split the text into several nodes
+            std::string value;
+            for( const auto& child : myNode.children() )
+            {
+                if( isText( child ) )
+                {
+                    value += child.value();
+                }
+            }
+            return value;
         }
     }
 
@@ -155,20 +173,24 @@ namespace ezxml
         {
             EZXML_THROW( "the object cannot hold both elements and text" );
         }
-        else if( xetype == XElementType::empty )
+
+
+        for( auto child = myNode.first_child(); child; )
         {
-            auto newnode = myNode.prepend_child( pugi::node_pcdata );
-            newnode.set_value( value.c_str() );
-            update();
-            return;
+            const auto next = child.next_sibling();
+            if( isText( child ) )
+            {
+                myNode.remove_child( child );
+            }
+            child = next;
         }
-        else if( xetype == XElementType::text )
+
+        if( !value.empty() )
         {
-            auto it = myNode.begin();
-            it->set_value( value.c_str() );
-            update();
-            return;
+            auto newnode = myNode.prepend_child( pugi::node_pcdata );
+            newnode.set_value( value.c_str() );
         }
+        update();
     }
 
 
-- 
2.43.0


From ca97006a358077901b56c4e959a91de526e61dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 27/99] fix: refuse misuse of XML elements as their interface
 documents

---
 .../ezxml/src/private/private/PugiElement.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 2b83186..1fceb05 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -206,7 +206,12 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        return XElementPtr{ new PugiElement{ myNode.parent(), myXDoc.lock() } };
+        const auto parent = myNode.parent();
+        if( parent.type() == pugi::node_document )
+        {
+            return XElementPtr{ new PugiElement{} };
+        }
+        return XElementPtr{ new PugiElement{ parent, myXDoc.lock() } };
     }
 
 
@@ -311,6 +316,10 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+        if( getType() == XElementType::text )
+        {
+            EZXML_THROW( "the object cannot hold both elements and text" );
+        }
         const auto result = XElementPtr{ new PugiElement{ myNode.append_child( name.c_str() ), myXDoc.lock() } };
         update();
         return result;
@@ -322,6 +331,10 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+        if( getType() == XElementType::text )
+        {
+            EZXML_THROW( "the object cannot hold both elements and text" );
+        }
         const auto result = XElementPtr{ new PugiElement{ myNode.prepend_child( name.c_str() ), myXDoc.lock() } };
         update();
         return result;
@@ -333,6 +346,10 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+        if( myNode.parent().type() == pugi::node_document )
+        {
+            EZXML_THROW( "the root element cannot have siblings" );
+        }
         auto newNode = myNode.parent().insert_child_after( newElementName.c_str(), myNode );
         const auto result = XElementPtr{ new PugiElement{ newNode, myXDoc.lock() } };
         update();
-- 
2.43.0


From 370df8dab7e1d236940d15246f4dfe9fbafd09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 28/99] fix: do not touch freed memory through elements and
 attributes of a destroyed XML document

---
 .../ezxml/src/private/private/PugiAttribute.cpp  | 16 ++++++++++++++++
 .../mx/ezxml/src/private/private/PugiElement.cpp |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
index 27a7a4f..71b3cc1 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
@@ -46,6 +46,10 @@ namespace ezxml
     std::string
     PugiAttribute::getName() const
     {
+        if( getIsNull() )
+        {
+            return std::string{};
+        }
         return myAttribute.name();
     }
 
@@ -53,6 +57,10 @@ namespace ezxml
     std::string
     PugiAttribute::getValue() const
     {
+        if( getIsNull() )
+        {
+            return std::string{};
+        }
         return myAttribute.value();
     }
 
@@ -60,6 +68,10 @@ namespace ezxml
     void
     PugiAttribute::setName( const std::string& name )
     {
+        if( getIsNull() )
+        {
+            return;
+        }
         myAttribute.set_name( name.c_str() );
     }
 
@@ -67,6 +79,10 @@ namespace ezxml
     void
     PugiAttribute::setValue( const std::string& value )
     {
+        if( getIsNull() )
+        {
+            return;
+        }
         myAttribute.set_value( value.c_str() );
     }
 }
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 1fceb05..578d03b 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -50,6 +50,10 @@ namespace ezxml
     XElementPtr
     PugiElement::clone() const
     {
+        if( getIsNull() )
+        {
+            return XElementPtr( new PugiElement{} );
+        }
         return XElementPtr( new PugiElement{ myNode, myXDoc.lock() } );
     }
 
@@ -360,6 +364,8 @@ namespace ezxml
     bool
     PugiElement::removeChild( const std::string& elementName )
     {
+        EZXML_CHECK_NULL_NODE;
+        EZXML_CHECK_NODE_ELEMENT;
         const auto result = myNode.remove_child( elementName.c_str() );
         update();
         return result;
@@ -393,6 +399,8 @@ namespace ezxml
     void
     PugiElement::removeAttribute( const XAttributeIterator& iter )
     {
+        EZXML_CHECK_NULL_NODE;
+        EZXML_CHECK_NODE_ELEMENT;
         auto it = myNode.attributes_begin();
         auto e = myNode.attributes_end();
         for( ; it != e; ++it )
-- 
2.43.0


From 391b0b13995d581c333025bb81b606b0f78f42d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 29/99] fix: find the doctype after processing instructions

---
 .../mx/ezxml/src/private/private/PugiDoc.cpp  | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index 73a4c4c..0422e5d 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -548,24 +548,15 @@ namespace ezxml
             return pugi::xml_node{};
         }
 
-        auto childrenIter = myDoc.begin();
-        if( childrenIter == myDoc.end() )
+        // comments and processing instructions can come before the doctype
+        for( const auto& child : myDoc.children() )
         {
-            return pugi::xml_node{};
-        }
-        if( childrenIter->type() == pugi::node_declaration )
-        {
-            ++childrenIter;
-        }
-        if( childrenIter == myDoc.end() ||
-            childrenIter->type() != pugi::node_doctype )
-        {
-            return pugi::xml_node{};
-        }
-        else
-        {
-            return *childrenIter;
+            if( child.type() == pugi::node_doctype )
+            {
+                return child;
+            }
         }
+        return pugi::xml_node{};
     }
 
 
-- 
2.43.0


From 1599c9eb157181410b43d9b4bd965f19d8c5ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 30/99] fix: compare every field of score data

---
 Sourcecode/include/mx/api/DefaultsData.h  | 2 ++
 Sourcecode/include/mx/api/DirectionData.h | 1 +
 Sourcecode/include/mx/api/FontData.h      | 1 +
 Sourcecode/include/mx/api/LyricData.h     | 1 +
 Sourcecode/include/mx/api/NoteData.h      | 1 +
 Sourcecode/include/mx/api/PartGroupData.h | 2 ++
 Sourcecode/include/mx/api/WordsData.h     | 1 +
 7 files changed, 9 insertions(+)

diff --git a/Sourcecode/include/mx/api/DefaultsData.h b/Sourcecode/include/mx/api/DefaultsData.h
index 81f254f..8f58b15 100644
--- a/Sourcecode/include/mx/api/DefaultsData.h
+++ b/Sourcecode/include/mx/api/DefaultsData.h
@@ -123,6 +123,8 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( DefaultsData )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingMillimeters )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingTenths )
         MXAPI_EQUALS_MEMBER( pageLayout )
         MXAPI_EQUALS_MEMBER( systemLayout )
         MXAPI_EQUALS_MEMBER( appearance )
diff --git a/Sourcecode/include/mx/api/DirectionData.h b/Sourcecode/include/mx/api/DirectionData.h
index 2a66026..a612bbc 100644
--- a/Sourcecode/include/mx/api/DirectionData.h
+++ b/Sourcecode/include/mx/api/DirectionData.h
@@ -122,6 +122,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( chords )
         MXAPI_EQUALS_MEMBER( segnos )
         MXAPI_EQUALS_MEMBER( codas )
+        MXAPI_EQUALS_MEMBER( rehearsals )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( DirectionData );
 	}
diff --git a/Sourcecode/include/mx/api/FontData.h b/Sourcecode/include/mx/api/FontData.h
index 4ce5697..4ee3960 100644
--- a/Sourcecode/include/mx/api/FontData.h
+++ b/Sourcecode/include/mx/api/FontData.h
@@ -94,6 +94,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( sizeCss )
         MXAPI_EQUALS_MEMBER( style )
         MXAPI_EQUALS_MEMBER( weight )
+        MXAPI_EQUALS_MEMBER( fontFamily )
         if( ! areVectorsEqual( lhs.fontFamily, rhs.fontFamily ) )
         {
             MX_SHOW_UNEQUAL( "FontData", "fontFamily" );
diff --git a/Sourcecode/include/mx/api/LyricData.h b/Sourcecode/include/mx/api/LyricData.h
index 877f587..59cb27a 100644
--- a/Sourcecode/include/mx/api/LyricData.h
+++ b/Sourcecode/include/mx/api/LyricData.h
@@ -19,6 +19,7 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( LyricData )
+        MXAPI_EQUALS_MEMBER( text )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( LyricData );
     }
diff --git a/Sourcecode/include/mx/api/NoteData.h b/Sourcecode/include/mx/api/NoteData.h
index 1c1539b..28f6874 100644
--- a/Sourcecode/include/mx/api/NoteData.h
+++ b/Sourcecode/include/mx/api/NoteData.h
@@ -138,6 +138,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( isTieStart )
         MXAPI_EQUALS_MEMBER( isTieStop )
         MXAPI_EQUALS_MEMBER( noteType )
+        MXAPI_EQUALS_MEMBER( notehead )
         MXAPI_EQUALS_MEMBER( pitchData )
         MXAPI_EQUALS_MEMBER( userRequestedVoiceNumber )
         MXAPI_EQUALS_MEMBER( stem )
diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index 42c7e66..e7b4cb7 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -72,6 +72,8 @@ namespace mx
         MXAPI_EQUALS_MEMBER( displayName )
         MXAPI_EQUALS_MEMBER( abbreviation )
         MXAPI_EQUALS_MEMBER( displayAbbreviation )
+        MXAPI_EQUALS_MEMBER( bracketType )
+        MXAPI_EQUALS_MEMBER( number )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( PartGroupData );
     }
diff --git a/Sourcecode/include/mx/api/WordsData.h b/Sourcecode/include/mx/api/WordsData.h
index 33362d4..65b46b4 100644
--- a/Sourcecode/include/mx/api/WordsData.h
+++ b/Sourcecode/include/mx/api/WordsData.h
@@ -34,6 +34,7 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( WordsData )
+        MXAPI_EQUALS_MEMBER( text )
         MXAPI_EQUALS_MEMBER( positionData )
         MXAPI_EQUALS_MEMBER( fontData )
         MXAPI_EQUALS_MEMBER( isColorSpecified )
-- 
2.43.0


From 4e344de41c099613400b15a90a82565d7d56aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 31/99] fix: initialise every member of score data structures

---
 Sourcecode/include/mx/api/PageTextData.h  | 2 +-
 Sourcecode/include/mx/api/PartGroupData.h | 1 +
 Sourcecode/include/mx/api/TempoData.h     | 6 +++---
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/include/mx/api/PageTextData.h b/Sourcecode/include/mx/api/PageTextData.h
index 80e0241..cc73587 100644
--- a/Sourcecode/include/mx/api/PageTextData.h
+++ b/Sourcecode/include/mx/api/PageTextData.h
@@ -22,7 +22,7 @@ namespace mx
         {
         public:
             std::string text;
-            int pageNumber;
+            int pageNumber = 0;
             PositionData positionData;
             FontData fontData;
             std::string description; // e.g. 'composer', 'page number', 'title', etc., this is metadata which does not appear on the printed page
diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index e7b4cb7..294ff38 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -59,6 +59,7 @@ namespace mx
             : firstPartIndex{ -1 }
             , lastPartIndex{ -1 }
             , name{}
+            , bracketType{ BracketType::unspecified }
             , number{ -1 }
             {
             
diff --git a/Sourcecode/include/mx/api/TempoData.h b/Sourcecode/include/mx/api/TempoData.h
index 5349baa..d888832 100644
--- a/Sourcecode/include/mx/api/TempoData.h
+++ b/Sourcecode/include/mx/api/TempoData.h
@@ -62,11 +62,11 @@ namespace mx
         class TempoData
         {
         public:
-            int tickTime;
-            Bool isParenthetical;
+            int tickTime = 0;
+            Bool isParenthetical = Bool::unspecified;
             PrintData printData;
             PositionData positionData;
-            TempoType tempoType;
+            TempoType tempoType = TempoType::unspecified;
             
             // only used when tempoType is 'beatsPerMinute'
             BeatsPerMinute beatsPerMinute;
-- 
2.43.0


From 5f64f87898d4c9d209123ce0d8f9d0a4ee3eb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 32/99] fix: keep the order of simultaneous notes, directions
 and clefs when sorting a score

---
 Sourcecode/private/mx/api/ScoreData.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/api/ScoreData.cpp b/Sourcecode/private/mx/api/ScoreData.cpp
index 912f0d0..a25b853 100644
--- a/Sourcecode/private/mx/api/ScoreData.cpp
+++ b/Sourcecode/private/mx/api/ScoreData.cpp
@@ -71,28 +71,28 @@ namespace mx
                     for ( auto& staff : measure.staves )
                     {
 
-                        const auto clefCompare = [&]( ClefData& inLeft, ClefData& inRight )
+                        const auto clefCompare = [&]( const ClefData& inLeft, const ClefData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
+                        std::stable_sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
 
-                        const auto directionCompare = [&]( DirectionData& inLeft, DirectionData& inRight )
+                        const auto directionCompare = [&]( const DirectionData& inLeft, const DirectionData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
+                        std::stable_sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
 
                         for ( auto& voice : staff.voices )
                         {
-                            const auto noteCompare = [&]( NoteData& inLeft, NoteData& inRight )
+                            const auto noteCompare = [&]( const NoteData& inLeft, const NoteData& inRight )
                             {
                                 return inLeft.tickTimePosition < inRight.tickTimePosition;
                             };
 
-                            std::sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
+                            std::stable_sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
                         }
                     }
                 }
-- 
2.43.0


From d918d89ca38c6c3bc3e989126424d35bc3e351ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 33/99] fix: convert the sharp-sharp accidental and the fa-up
 notehead

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 68345e7..0991219 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -67,6 +67,7 @@ namespace mx
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::re, api::Notehead::re },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::mi, api::Notehead::mi },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::fa, api::Notehead::fa },
+            std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::faUp, api::Notehead::faUp },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::la, api::Notehead::la },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::so  , api::Notehead::so },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::ti, api::Notehead::ti },
@@ -88,6 +89,7 @@ namespace mx
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::natural, api::Accidental::natural },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flat, api::Accidental::flat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::doubleSharp, api::Accidental::doubleSharp },
+            std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::sharpSharp, api::Accidental::sharpSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flatFlat, api::Accidental::flatFlat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalSharp, api::Accidental::naturalSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalFlat, api::Accidental::naturalFlat },
-- 
2.43.0


From 6669e8495fed61febee1c0a09eef2e6f49912f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 34/99] fix: read the font and color of dynamics in directions

---
 Sourcecode/private/mx/impl/DynamicsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DynamicsReader.cpp b/Sourcecode/private/mx/impl/DynamicsReader.cpp
index 6cfb3c1..585ae93 100644
--- a/Sourcecode/private/mx/impl/DynamicsReader.cpp
+++ b/Sourcecode/private/mx/impl/DynamicsReader.cpp
@@ -31,7 +31,7 @@ namespace mx
             markData.markType = markType;
             markData.tickTimePosition = myCursor.tickTimePosition;
             markData.name = myDynamic.getValue().getValueString();
-            markData.positionData = impl::getPositionData( *myDynamic.getAttributes() );
+            impl::parseMarkDataAttributes( *myDynamic.getAttributes(), markData );
             outMarks.emplace_back( std::move( markData ) );
         }
     }
-- 
2.43.0


From d5d7b096a28720187f74fabc1eddd74a086f91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 35/99] fix: give ottavas and brackets the time of their offset
 direction

---
 .../private/mx/impl/DirectionReader.cpp       | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 41ba238..2d9aba8 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -186,6 +186,26 @@ namespace mx
             {
                 mark.tickTimePosition = myOutDirectionData.tickTimePosition;
             }
+
+            for( auto& start : myOutDirectionData.ottavaStarts )
+            {
+                start.spannerStart.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
+
+            for( auto& stop : myOutDirectionData.ottavaStops )
+            {
+                stop.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
+
+            for( auto& start : myOutDirectionData.bracketStarts )
+            {
+                start.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
+
+            for( auto& stop : myOutDirectionData.bracketStops )
+            {
+                stop.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
         }
 
 
-- 
2.43.0


From 24295ce838f9f354a2f82b54ddccd63b8989679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 36/99] fix: write the print-object of chord extensions

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 57d1d11..076f891 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -494,6 +494,12 @@ namespace mx
                         case api::ExtensionAlter::none: degree->getDegreeAlter()->setValue( core::Semitones{ 0.0 } ); break;
                     }
 
+                    if( extension.printObject != api::Bool::unspecified )
+                    {
+                        degree->getAttributes()->hasPrintObject = true;
+                        degree->getAttributes()->printObject = myConverter.convert( extension.printObject );
+                    }
+
                     grp->addDegree( degree );
                 }
 
-- 
2.43.0


From ac8f840d556980fe2e2b9d9e6927ffbf6d2a8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 37/99] fix: write rehearsals, segnos and codas of directions

---
 .../private/mx/impl/DirectionReader.cpp       |  3 +
 .../private/mx/impl/DirectionWriter.cpp       | 67 +++++++++++++++++++
 2 files changed, 70 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 2d9aba8..861c916 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -346,6 +346,7 @@ namespace mx
                 const auto& attr = *rehearsalPtr->getAttributes();
                 outRehearsal.text = rehearsalPtr->getValue().getValue();
                 outRehearsal.positionData = getPositionData( attr );
+                outRehearsal.fontData = getFontData( attr );
                 outRehearsal.colorData = getColor( attr );
                 myOutDirectionData.rehearsals.emplace_back( std::move( outRehearsal ) );
             }
@@ -363,6 +364,7 @@ namespace mx
                 api::SegnoData outSegno;
                 const auto& attr = *segnoPtr->getAttributes();
                 outSegno.positionData = getPositionData( attr );
+                outSegno.isColorSpecified = attr.hasColor;
                 outSegno.colorData = getColor( attr );
                 myOutDirectionData.segnos.emplace_back( std::move( outSegno ) );
             }
@@ -395,6 +397,7 @@ namespace mx
                 api::CodaData outCoda;
                 const auto& attr = *codaPtr->getAttributes();
                 outCoda.positionData = getPositionData( attr );
+                outCoda.isColorSpecified = attr.hasColor;
                 outCoda.colorData = getColor( attr );
                 myOutDirectionData.codas.emplace_back( std::move( outCoda ) );
             }
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 076f891..40ed60a 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -333,6 +333,73 @@ namespace mx
                 }
             }
 
+            if( myDirectionData.rehearsals.size() > 0 )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::rehearsal );
+
+                for( const auto& rehearsalData : myDirectionData.rehearsals )
+                {
+                    auto outRehearsal = core::makeRehearsal();
+                    auto& attr = *outRehearsal->getAttributes();
+                    outRehearsal->setValue( core::XsString{ rehearsalData.text } );
+                    setAttributesFromPositionData( rehearsalData.positionData, attr );
+                    setAttributesFromFontData( rehearsalData.fontData, attr );
+                    outDirType->addRehearsal( outRehearsal );
+                }
+
+                outDirType->removeRehearsal( outDirType->getRehearsalSet().cbegin() );
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( myDirectionData.segnos.size() > 0 )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::segno );
+
+                for( const auto& segnoData : myDirectionData.segnos )
+                {
+                    auto outSegno = core::makeSegno();
+                    auto& attr = *outSegno->getAttributes();
+                    setAttributesFromPositionData( segnoData.positionData, attr );
+
+                    if( segnoData.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( segnoData.colorData, attr );
+                    }
+
+                    outDirType->addSegno( outSegno );
+                }
+
+                outDirType->removeSegno( outDirType->getSegnoSet().cbegin() );
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( myDirectionData.codas.size() > 0 )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::coda );
+
+                for( const auto& codaData : myDirectionData.codas )
+                {
+                    auto outCoda = core::makeCoda();
+                    auto& attr = *outCoda->getAttributes();
+                    setAttributesFromPositionData( codaData.positionData, attr );
+
+                    if( codaData.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( codaData.colorData, attr );
+                    }
+
+                    outDirType->addCoda( outCoda );
+                }
+
+                outDirType->removeCoda( outDirType->getCodaSet().cbegin() );
+                addDirectionType( outDirType, directionPtr );
+            }
+
             if( myIsFirstDirectionTypeAdded )
             {
                 auto directionMdc = core::makeMusicDataChoice();
-- 
2.43.0


From 60d7f11c21ae9060c850e6599b18641ca884db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 38/99] fix: write bracket stops and the number, position and
 line of brackets and ottavas

---
 .../private/mx/impl/DirectionWriter.cpp       | 18 +++++++++--
 Sourcecode/private/mx/impl/LineFunctions.h    | 31 +++++++++----------
 Sourcecode/private/mx/impl/SpannerFunctions.h | 22 ++++++++++++-
 3 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 40ed60a..2310d13 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -210,7 +210,7 @@ namespace mx
                 auto oStart = oStopDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
                 attr.type = core::UpDownStopContinue::stop;
-                MX_UNUSED( ottavaStop );
+                setAttributesFromSpannerStop( ottavaStop, attr );
             }
             
             for( const auto& ottavaStart : myDirectionData.ottavaStarts )
@@ -220,7 +220,7 @@ namespace mx
                 oStartDir->setChoice( core::DirectionType::Choice::octaveShift );
                 auto oStart = oStartDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
-                impl::setAttributesFromLineData( ottavaStart.spannerStart.lineData, attr );
+                setAttributesFromSpannerStart( ottavaStart.spannerStart, attr );
                 
                 attr.hasSize = true;
                 
@@ -261,9 +261,23 @@ namespace mx
                 outDirType->setChoice( core::DirectionType::Choice::bracket );
                 auto outElement = outDirType->getBracket();
                 auto& attr = *outElement->getAttributes();
+                attr.type = core::StartStopContinue::start;
+                attr.lineEnd = core::LineEnd::none;
                 setAttributesFromSpannerStart( item, attr );
             }
 
+            for( const auto& item : myDirectionData.bracketStops )
+            {
+                auto outDirType = core::makeDirectionType();
+                this->addDirectionType( outDirType, directionPtr );
+                outDirType->setChoice( core::DirectionType::Choice::bracket );
+                auto outElement = outDirType->getBracket();
+                auto& attr = *outElement->getAttributes();
+                attr.type = core::StartStopContinue::stop;
+                attr.lineEnd = core::LineEnd::none;
+                setAttributesFromSpannerStop( item, attr );
+            }
+
             for( const auto& tempo : myDirectionData.tempos )
             {
                 if( tempo.tempoType != api::TempoType::beatsPerMinute )
diff --git a/Sourcecode/private/mx/impl/LineFunctions.h b/Sourcecode/private/mx/impl/LineFunctions.h
index 4efb8d5..32213e3 100644
--- a/Sourcecode/private/mx/impl/LineFunctions.h
+++ b/Sourcecode/private/mx/impl/LineFunctions.h
@@ -17,8 +17,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_FUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
 
-        MX_ATTR_FUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_FUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_FUNC_OPTIONAL( hasLineEnd, HasLineEnd, bool, false );
+        MX_ATTR_FUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_FUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( dashLength, DashLength, long double, 0.0L );
@@ -26,8 +26,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( spaceLength, SpaceLength, long double, 0.0L );
         
-        MX_ATTR_FUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_FUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         api::LineData getLineData( const ATTRIBUTES_TYPE& inAttributes )
@@ -40,9 +40,9 @@ namespace mx
                 lineData.lineType = converter.convert( checkLineType<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
-            if( checkHasLineStop<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
-                lineData.lineHook = converter.convert( checkLineStop<ATTRIBUTES_TYPE>( &inAttributes ) );
+                lineData.lineHook = converter.convert( checkLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
             if( checkHasDashLength( &inAttributes ) )
@@ -57,10 +57,10 @@ namespace mx
                 lineData.spaceLength = checkSpaceLength( &inAttributes );
             }
             
-            if( checkHasStopLength<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasEndLength<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
                 lineData.isStopLengthSpecified = true;
-                lineData.endLength = checkStopLength<ATTRIBUTES_TYPE>( &inAttributes );
+                lineData.endLength = checkEndLength<ATTRIBUTES_TYPE>( &inAttributes );
             }
             
             return lineData;
@@ -69,8 +69,7 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_SETFUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_SETFUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( spaceLength, SpaceLength, long double, 0.0L );
@@ -78,8 +77,8 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( dashLength, DashLength, long double, 0.0L );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_SETFUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         void setAttributesFromLineData( const api::LineData& inLineData, ATTRIBUTES_TYPE& outAttributes )
@@ -95,9 +94,9 @@ namespace mx
                 lookForAndSetSpaceLength( inLineData.spaceLength, &outAttributes );
             }
             
-            if( lookForAndSetHasLineStop( inLineData.lineHook != api::LineHook::unspecified, &outAttributes ) )
+            if( inLineData.lineHook != api::LineHook::unspecified )
             {
-                lookForAndSetLineStop( converter.convert( inLineData.lineHook ), &outAttributes );
+                lookForAndSetLineEnd( converter.convert( inLineData.lineHook ), &outAttributes );
             }
             
             if( lookForAndSetHasLineType( inLineData.lineType != api::LineType::unspecified, &outAttributes ) )
@@ -105,9 +104,9 @@ namespace mx
                 lookForAndSetLineType( converter.convert( inLineData.lineType ), &outAttributes );
             }
             
-            if( lookForAndSetHasStopLength( inLineData.isStopLengthSpecified, &outAttributes ) )
+            if( lookForAndSetHasEndLength( inLineData.isStopLengthSpecified, &outAttributes ) )
             {
-                lookForAndSetStopLength( inLineData.endLength, &outAttributes );
+                lookForAndSetEndLength( inLineData.endLength, &outAttributes );
             }
         }
     }
diff --git a/Sourcecode/private/mx/impl/SpannerFunctions.h b/Sourcecode/private/mx/impl/SpannerFunctions.h
index 55e5fce..814fbb1 100644
--- a/Sourcecode/private/mx/impl/SpannerFunctions.h
+++ b/Sourcecode/private/mx/impl/SpannerFunctions.h
@@ -62,7 +62,27 @@ namespace mx
                 lookForAndSetHasNumber( false, &outAttributes );
                 lookForAndSetNumber( 1, &outAttributes );
             }
-            
+
+            setAttributesFromPositionData( start.positionData, outAttributes );
+            setAttributesFromPrintData( start.printData, outAttributes );
+            setAttributesFromLineData( start.lineData, outAttributes );
+        }
+
+        template <typename ATTRIBUTES_TYPE>
+        void setAttributesFromSpannerStop( const api::SpannerStop& stop, ATTRIBUTES_TYPE& outAttributes )
+        {
+            if( stop.numberLevel > 0 )
+            {
+                lookForAndSetHasNumber( true, &outAttributes );
+                lookForAndSetNumber( stop.numberLevel, &outAttributes );
+            }
+            else
+            {
+                lookForAndSetHasNumber( false, &outAttributes );
+                lookForAndSetNumber( 1, &outAttributes );
+            }
+
+            setAttributesFromPositionData( stop.positionData, outAttributes );
         }
     }
 }
-- 
2.43.0


From 1ab86a08efe93db41a69bbf67783a71207d9c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 39/99] fix: write the number of wedges

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 2310d13..b55f8e0 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -167,6 +167,12 @@ namespace mx
                 auto& attr = *wedgePtr->getAttributes();
                 attr.type = core::WedgeType::stop;
                 
+                if( wedgeStop.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStop.numberLevel };
+                }
+
                 if( wedgeStop.isSpreadSpecified )
                 {
                     attr.hasSpread = true;
@@ -189,6 +195,12 @@ namespace mx
                     attr.type = myConverter.convert( wedgeStart.wedgeType );
                 }
                 
+                if( wedgeStart.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStart.numberLevel };
+                }
+
                 if( wedgeStart.isSpreadSpecified )
                 {
                     attr.hasSpread = true;
-- 
2.43.0


From 163444855fb7ee35821226ce6e69ada6040208c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 40/99] fix: count chords and rehearsals as direction content

---
 Sourcecode/include/mx/api/DirectionData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/include/mx/api/DirectionData.h b/Sourcecode/include/mx/api/DirectionData.h
index a612bbc..18ab1e8 100644
--- a/Sourcecode/include/mx/api/DirectionData.h
+++ b/Sourcecode/include/mx/api/DirectionData.h
@@ -101,6 +101,8 @@ namespace mx
             directionData.ottavaStarts.size() == 0 &&
             directionData.ottavaStops.size() == 0 &&
             directionData.words.size() == 0 &&
+            directionData.chords.size() == 0 &&
+            directionData.rehearsals.size() == 0 &&
             directionData.segnos.size() == 0 &&
             directionData.codas.size() == 0;
         }
-- 
2.43.0


From 1d24694d6287397629c5f5313b92c7c9dfb6a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 41/99] fix: write the staff and placement of harmonies

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index b55f8e0..f9034c0 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -476,7 +476,7 @@ namespace mx
                 harmony->getOffset()->setValue( core::DivisionsValue{ static_cast<core::DecimalType>( inOffset ) } );
             }
 
-            if( myDirectionData.isStaffValueSpecified )
+            if( myDirectionData.isStaffValueSpecified || myCursor.staffIndex != 0 )
             {
                 harmony->setHasStaff( true );
                 harmony->getStaff()->setValue( core::PositiveInteger{ myCursor.staffIndex + 1 } );
@@ -495,6 +495,12 @@ namespace mx
                     isFirstChord = false;
                     auto& attributes = *harmony->getAttributes();
                     setAttributesFromPositionData( chordIter->positionData, attributes );
+
+                    if( myDirectionData.placement != api::Placement::unspecified )
+                    {
+                        attributes.hasPlacement = true;
+                        attributes.placement = myConverter.convert( myDirectionData.placement );
+                    }
                 }
 
                 core::HarmonyChordGroupPtr grp = nullptr;
-- 
2.43.0


From 5e1ebf609a1558d6e0d6252d7c3c24802b3eaf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 42/99] fix: write the print-object of print data

---
 Sourcecode/private/mx/impl/PrintFunctions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/PrintFunctions.h b/Sourcecode/private/mx/impl/PrintFunctions.h
index 9410869..93a7293 100644
--- a/Sourcecode/private/mx/impl/PrintFunctions.h
+++ b/Sourcecode/private/mx/impl/PrintFunctions.h
@@ -100,9 +100,10 @@ namespace mx
         template <typename ATTRIBUTES_TYPE>
         void setPrintObject( const api::Bool& inPrintObject, ATTRIBUTES_TYPE& outAttributes )
         {
-            if( !lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
+            if( lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
             {
-                lookForAndSetPrintObject( inPrintObject, &outAttributes );
+                Converter converter;
+                lookForAndSetPrintObject( converter.convert( inPrintObject ), &outAttributes );
             }
         }
         
@@ -129,6 +130,7 @@ namespace mx
                 lookForAndSetColor( core::Color{}, &outAttributes );
             }
             
+            setPrintObject( inPrintData.printObject, outAttributes );
             setAttributesFromFontData( inPrintData.fontData, outAttributes );
         }
     }
-- 
2.43.0


From a38f1dd8148a883d33dfdb16c220ed97772f2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 43/99] fix: leave the number of a bracket unspecified when it
 has none

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 861c916..d2439a6 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -498,7 +498,7 @@ namespace mx
             {
                 api::SpannerStop stop;
                 stop.tickTimePosition = myCursor.tickTimePosition;
-                stop.numberLevel = impl::checkNumber( &attr );
+                stop.numberLevel = attr.hasNumber ? impl::checkNumber( &attr ) : -1;
                 stop.positionData = this->parsePositionData( attr );
                 myOutDirectionData.bracketStops.emplace_back( std::move( stop ) );
                 return;
@@ -507,7 +507,7 @@ namespace mx
             {
                 api::SpannerStart start;
                 start.tickTimePosition = myCursor.tickTimePosition;
-                start.numberLevel = impl::checkNumber( &attr );
+                start.numberLevel = attr.hasNumber ? impl::checkNumber( &attr ) : -1;
                 start.positionData = this->parsePositionData( attr );
                 start.lineData = impl::getLineData( attr );
                 start.printData = impl::getPrintData( attr );
-- 
2.43.0


From 212d85eb39e921bc8127b2c29ec71cb807d79520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 44/99] fix: read the abbreviation display of a part from its
 own element

---
 Sourcecode/private/mx/impl/PartReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 2906af7..b5cdc00 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -31,6 +31,7 @@
 #include "mx/core/elements/PartGroupOrScorePart.h"
 #include "mx/core/elements/PartList.h"
 #include "mx/core/elements/PartName.h"
+#include "mx/core/elements/PartAbbreviationDisplay.h"
 #include "mx/core/elements/PartNameDisplay.h"
 #include "mx/core/elements/PartwisePart.h"
 #include "mx/core/elements/Properties.h"
@@ -208,7 +209,7 @@ namespace mx
             
             if( myScorePart.getHasPartAbbreviationDisplay() )
             {
-                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartNameDisplay()->getDisplayTextOrAccidentalTextSet() );
+                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() );
             }
             
             if( myScorePart.getScoreInstrumentSet().size() > 0 )
-- 
2.43.0


From cc97103c85de74bfc7e17ff57032f7cf630ca895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 45/99] fix: read a sharp accidental text as '#'

---
 Sourcecode/private/mx/impl/PartReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index b5cdc00..b71334d 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -239,7 +239,7 @@ namespace mx
                     {
                         ss << "b"; // TODO - support accidental text correctly
                     }
-                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::flat )
+                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::sharp )
                     {
                         ss << "#";
                     }
-- 
2.43.0


From e01da07f8e060646e1c782f58411956e30f05450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 46/99] fix: write the MIDI name and unpitched number of
 instruments

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index a34d9a2..3e872f7 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -166,6 +166,13 @@ namespace mx
                 midiGroup->setHasMidiDevice( true );
                 midiDevice.setValue( core::XsString{ myPartData.instrumentData.midiData.device } );
             }
+            if( myPartData.instrumentData.midiData.name.size() > 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiName( true );
+                midiInstrument.getMidiName()->setValue( core::XsString{ myPartData.instrumentData.midiData.name } );
+            }
             if( myPartData.instrumentData.midiData.bank >= 0 )
             {
                 addMidiElement = true;
@@ -187,6 +194,13 @@ namespace mx
                 midiInstrument.setHasMidiProgram( true );
                 midiInstrument.getMidiProgram()->setValue( core::Midi128{ myPartData.instrumentData.midiData.program } );
             }
+            if( myPartData.instrumentData.midiData.unpitched >= 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiUnpitched( true );
+                midiInstrument.getMidiUnpitched()->setValue( core::Midi128{ myPartData.instrumentData.midiData.unpitched } );
+            }
             if( myPartData.instrumentData.midiData.isElevationSpecified )
             {
                 addMidiElement = true;
-- 
2.43.0


From 37fe8f88ae9b71ff37ecd9369347d2c90b4363fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 47/99] fix: do not add system margins because a top system
 distance is given

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index 0a0a20a..c979fb1 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -195,7 +195,6 @@ namespace mx
                 const auto& top = inDefaults.systemLayout.topSystemDistance.value();
                 outScoreHeaderGroup.setHasDefaults( true );
                 layoutGroup.setHasSystemLayout( true );
-                systemLayout.setHasSystemMargins( true );
                 systemLayout.setHasTopSystemDistance( true );
                 systemLayout.getTopSystemDistance()->setValue( core::TenthsValue{ top } );
             }
-- 
2.43.0


From 463ffa35fd59f395392103e2edcfedd6cdf1050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 48/99] fix: write the abbreviation of part groups

---
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 661c0e8..ec53a6d 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -5,6 +5,7 @@
 #include "mx/core/elements/Creator.h"
 #include "mx/core/elements/Encoding.h"
 #include "mx/core/elements/GroupBarline.h"
+#include "mx/core/elements/GroupAbbreviation.h"
 #include "mx/core/elements/GroupName.h"
 #include "mx/core/elements/GroupSymbol.h"
 #include "mx/core/elements/Identification.h"
@@ -295,6 +296,12 @@ namespace mx
                 mxGrp->getGroupName()->setValue( core::XsString{ apiGrp.name} );
             }
 
+            if( apiGrp.abbreviation.size() > 0 )
+            {
+                mxGrp->setHasGroupAbbreviation( true );
+                mxGrp->getGroupAbbreviation()->setValue( core::XsString{ apiGrp.abbreviation } );
+            }
+
             Converter converter;
             if( apiGrp.bracketType != api::BracketType::unspecified )
             {
-- 
2.43.0


From a2ab5168930e969742da02cf42070980c77c5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 49/99] fix: write arranger and publisher and read them into
 their own fields

---
 Sourcecode/private/mx/impl/ScoreReader.cpp |  4 ++--
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index a6c3668..5ffa138 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -232,13 +232,13 @@ namespace mx
                     
                     if( a->type.getValue() == "arranger" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.arranger = i->getValue().getValue();
                         isArrangerFound = true;
                     }
                     
                     if( a->type.getValue() == "publisher" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.publisher = i->getValue().getValue();
                         isPublisherFound = true;
                     }
                 }
diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index ec53a6d..e4ac2b5 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -110,6 +110,26 @@ namespace mx
                 header->getIdentification()->addCreator( lyricist );
             }
             
+            if( !myScoreData.arranger.empty() )
+            {
+                auto arranger = core::makeCreator();
+                arranger->getAttributes()->hasType = true;
+                arranger->getAttributes()->type = core::XsToken( "arranger" );
+                arranger->setValue( core::XsString( myScoreData.arranger ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( arranger );
+            }
+            
+            if( !myScoreData.publisher.empty() )
+            {
+                auto publisher = core::makeCreator();
+                publisher->getAttributes()->hasType = true;
+                publisher->getAttributes()->type = core::XsToken( "publisher" );
+                publisher->setValue( core::XsString( myScoreData.publisher ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( publisher );
+            }
+            
             if( !myScoreData.copyright.empty() )
             {
                 auto copyright = core::makeRights();
-- 
2.43.0


From 8fb094e67d03d00b1fd3c934053a406af9aac453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 50/99] fix: write an encoding date only when all of it is
 valid

---
 Sourcecode/private/mx/impl/EncodingFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/EncodingFunctions.cpp b/Sourcecode/private/mx/impl/EncodingFunctions.cpp
index 389f94a..772c9d8 100644
--- a/Sourcecode/private/mx/impl/EncodingFunctions.cpp
+++ b/Sourcecode/private/mx/impl/EncodingFunctions.cpp
@@ -39,7 +39,7 @@ namespace mx
             const bool isYearValid = inEncoding.encodingDate.year == tryDate.getYear();
             const bool isMonthValid = inEncoding.encodingDate.month == tryDate.getMonth();
             const bool isDayValid = inEncoding.encodingDate.day == tryDate.getDay();
-            if( isYearValid || isMonthValid || isDayValid )
+            if( isYearValid && isMonthValid && isDayValid )
             {
                 header.setHasIdentification( true );
                 identification->setHasEncoding( true );
-- 
2.43.0


From a9b277378532337d76f24ed67e842b4e74ef5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 51/99] fix: read other-appearance as such and with its value

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index c979fb1..186f942 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -28,6 +28,8 @@
 #include "mx/core/elements/TopMargin.h"
 #include "mx/core/elements/TopSystemDistance.h"
 
+#include <cstdlib>
+
 namespace mx
 {
     namespace impl
@@ -418,11 +420,11 @@ namespace mx
             for( const auto& other : appearance.getOtherAppearanceSet() )
             {
                 api::AppearanceData data{};
-                data.appearanceType = api::AppearanceType::Distance;
+                data.appearanceType = api::AppearanceType::OtherAppearance;
                 data.appearanceSubType = core::toString( other->getAttributes()->type );
 
-                // TODO - fix
-                data.value = 0.0;//other->getValue().getValue();
+                // other-appearance holds free text, anything that is not a number becomes 0
+                data.value = std::strtold( other->getValue().getValue().c_str(), nullptr );
                 outDefaults.appearance.emplace_back( std::move( data ) );
             }
         }
-- 
2.43.0


From 44ccafeb8c63f967738b4db1db77102d4db13ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 52/99] fix: keep the staff and time of non-traditional keys

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 25 ++++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index b9cc2a4..4588fb2 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -463,9 +463,20 @@ namespace mx
                 const auto keyChoiceObj = *key.getKeyChoice();
                 const auto keyType = keyChoiceObj.getChoice();
 
+                api::KeyData keyData;
+                keyData.tickTimePosition = myCurrentCursor.tickTimePosition;
+
+                if( attr.hasNumber )
+                {
+                    keyData.staffIndex = attr.number.getValue() - 1;
+                    if( keyData.staffIndex > myCurrentCursor.getNumStaves() - 1 )
+                    {
+                        keyData.staffIndex = -1;
+                    }
+                }
+
                 if( keyType == core::KeyChoice::Choice::nonTraditionalKey )
                 {
-                    api::KeyData keyData;
                     const auto& nonTraditionalKeyParts = key.getKeyChoice()->getNonTraditionalKeySet();
                     for( const auto& nonTraditionalKeyPart : nonTraditionalKeyParts )
                     {
@@ -492,19 +503,9 @@ namespace mx
                     continue;
                 }
                 
-                api::KeyData keyData;
                 // TODO - do position attributes
                 const auto& traditionalKey = *keyChoiceObj.getTraditionalKey();
                 
-                if( attr.hasNumber )
-                {
-                    keyData.staffIndex = attr.number.getValue() - 1;
-                    if( keyData.staffIndex > myCurrentCursor.getNumStaves() - 1 )
-                    {
-                        keyData.staffIndex = -1;
-                    }
-                }
-                
                 keyData.fifths = traditionalKey.getFifths()->getValue().getValue();
                 if( traditionalKey.getHasCancel() )
                 {
@@ -528,8 +529,6 @@ namespace mx
                         keyData.mode = api::KeyMode::unsupported;
                     }
                 }
-                keyData.tickTimePosition = myCurrentCursor.tickTimePosition;
-                
                 myOutMeasureData.keys.emplace_back( std::move( keyData ) );
             }
             importClefs( inMxProperties.getClefSet() );
-- 
2.43.0


From 41ae7b8c22be2a90523c2d32da3785deaed48fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 53/99] fix: write every mid-measure key with its staff

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index a196952..7454740 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -451,13 +451,10 @@ namespace mx
                         previousChordTickPosition = currentChordTickPosition;
                     }
 
-                    if( myMeasureKeysIter != myMeasureKeysEnd )
+                    while( myMeasureKeysIter != myMeasureKeysEnd && myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
                     {
-                        if( myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
-                        {
-                            myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                            ++myMeasureKeysIter;
-                        }
+                        myPropertiesWriter->writeKey( myMeasureKeysIter->staffIndex, *myMeasureKeysIter );
+                        ++myMeasureKeysIter;
                     }
                     
                     while( clefIter != clefEnd && clefIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
@@ -521,13 +518,9 @@ namespace mx
                     myPropertiesWriter->writeClef( myHistory.getCursor().staffIndex, clef );
                 }
                 
-                if( myMeasureKeysIter != myMeasureKeysEnd )
+                for( ; myMeasureKeysIter != myMeasureKeysEnd; ++myMeasureKeysIter )
                 {
-                    if( myMeasureKeysIter->tickTimePosition )
-                    {
-                        myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                        ++myMeasureKeysIter;
-                    }
+                    myPropertiesWriter->writeKey( myMeasureKeysIter->staffIndex, *myMeasureKeysIter );
                 }
                 
                 for( ; staffKeyIter != staffKeyEnd; ++staffKeyIter )
-- 
2.43.0


From 998de4b8f46a545cf5203e1a03f886d7c52ca3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 54/99] fix: write the diatonic part of a transposition unless
 the reader would guess it

---
 Sourcecode/private/mx/impl/Converter.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 0991219..a4a9c03 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -1839,19 +1839,22 @@ namespace mx
             return std::make_pair( intAlter, myCents );
         }
 
+        inline int figureOutDiatonic( int inChromatic );
+
         mx::core::TransposePtr Converter::convertToTranspose( const mx::api::TransposeData& inTransposeData )
         {
             // the transpose element uses an octave-change element for intervals larger than an octave.
             // mx::api does away with the octave-change concept. so a translation is necessary.
             mx::core::TransposePtr transposePtr = mx::core::makeTranspose();
             int octave = 0;
+            int chromatic = 0;
 
             if( inTransposeData.chromatic != 0 )
             {
                 octave = inTransposeData.chromatic / 12;
                 const auto negative = inTransposeData.chromatic < 0;
                 const auto absMod = std::abs( inTransposeData.chromatic ) % 12;
-                const auto chromatic = negative ? -1 * absMod : absMod;
+                chromatic = negative ? -1 * absMod : absMod;
                 if( octave != 0 )
                 {
                     transposePtr->setHasOctaveChange( true );
@@ -1867,19 +1870,14 @@ namespace mx
                         });
             }
 
-            if( inTransposeData.diatonic != 0 )
+            // an absent diatonic element is guessed from the chromatic one, so it can only be left
+            // out when the guess is right.
+            const auto harmonic = inTransposeData.diatonic - octave * 7;
+            if( harmonic != 0 || figureOutDiatonic( chromatic ) != 0 )
             {
-                auto harmonic = inTransposeData.diatonic;
-                if( octave != 0 )
-                {
-                    harmonic += octave * -7;
-                }
-                if( harmonic != 0 )
-                {
-                    transposePtr->setHasDiatonic( true );
-                    auto dia = transposePtr->getDiatonic();
-                    dia->setValue( mx::core::Integer{ harmonic } );
-                }
+                transposePtr->setHasDiatonic( true );
+                auto dia = transposePtr->getDiatonic();
+                dia->setValue( mx::core::Integer{ harmonic } );
             }
 
             return transposePtr;
-- 
2.43.0


From 36137c905e87a3509a31e6b7f9ccf8024eccacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 55/99] fix: write a score instrument for a sound id alone

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 3e872f7..6c63af9 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -144,6 +144,7 @@ namespace mx
             
             if( myPartData.instrumentData.soundID != api::SoundID::unspecified && myPartData.instrumentData.soundID != api::SoundID::errorBadString )
             {
+                addScoreInstrument = true;
                 scoreIntstrument->setHasInstrumentSound( true );
                 Converter c;
                 scoreIntstrument->getInstrumentSound()->setValue( c.convert( myPartData.instrumentData.soundID ) );
-- 
2.43.0


From f40c06d8ecd5cf57132916491a450865f52f6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 56/99] fix: read position and print data of a fermata

---
 Sourcecode/private/mx/impl/FermataFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/FermataFunctions.cpp b/Sourcecode/private/mx/impl/FermataFunctions.cpp
index 3728bca..14f82b5 100644
--- a/Sourcecode/private/mx/impl/FermataFunctions.cpp
+++ b/Sourcecode/private/mx/impl/FermataFunctions.cpp
@@ -88,9 +88,9 @@ namespace mx
             // Unfortunately, without doing a lot of guess word, we can't
             // know whether the correct glyph is "above" or "below"
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             
             return markData;
         }
-- 
2.43.0


From 5d5c15659c36705b35ebfb1b81f3752f2ee1ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 57/99] fix: convert the fingernails mark

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index a4a9c03..0ca94ca 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -328,7 +328,7 @@ namespace mx
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::tap, api::MarkType::unspecified },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::heel, api::MarkType::heel },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::toe, api::MarkType::toe },
-            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::unspecified },
+            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::fingernails },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::hole, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::arrow, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::handbell, api::MarkType::unspecified },
-- 
2.43.0


From 5b8a2dc455c77db4a64167cc9e52e12b90280259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 58/99] fix: read position and print data of arpeggiate marks

---
 Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp    | 2 +-
 Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
index e84fe4f..a99dd7a 100644
--- a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
@@ -36,7 +36,7 @@ namespace mx
                 }
             }
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             return markData;
diff --git a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
index 0fa01a9..f1f9109 100644
--- a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
@@ -21,7 +21,7 @@ namespace mx
         {
             const auto& attr = myNonArpeggiate.getAttributes();
             api::MarkData markData{ api::MarkType::nonArpeggiate };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             return markData;
         }
-- 
2.43.0


From b2fa84e89963d6a4efe1c161da5e3179182473f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 59/99] fix: do not write the tied notation twice

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index f3502e6..c99bb75 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -48,6 +48,8 @@
 #include "mx/impl/NotationsWriter.h"
 #include "mx/impl/ScoreWriter.h"
 
+#include <algorithm>
+
 namespace mx
 {
     namespace impl
@@ -218,7 +220,7 @@ namespace mx
         }
         
         template<typename CHOICE_OBJ_TYPE>
-        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj, core::NotePtr outNote )
+        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj, core::NotePtr outNote, const api::NoteAttachmentData& attachments )
         {
             auto tie = core::makeTie();
             
@@ -232,7 +234,20 @@ namespace mx
             }
             
             choiceObj->addTie( tie );
-            
+
+            // when the note has tie curves of its own, the NotationsWriter will write the 'tied' notation
+            const auto isTie = []( const auto& curve ){ return curve.curveType == api::CurveType::tie; };
+
+            if( isStart && std::any_of( attachments.curveStarts.cbegin(), attachments.curveStarts.cend(), isTie ) )
+            {
+                return;
+            }
+
+            if( !isStart && std::any_of( attachments.curveStops.cbegin(), attachments.curveStops.cend(), isTie ) )
+            {
+                return;
+            }
+
             core::NotationsPtr notations = nullptr;
             core::NotationsChoicePtr notationsChoice = nullptr;
             
@@ -241,7 +256,6 @@ namespace mx
                 notations = outNote->getNotationsSet().front();
                 notationsChoice = core::makeNotationsChoice();
                 notations->addNotationsChoice( notationsChoice );
-                outNote->addNotations( notations );
             }
             else
             {
@@ -296,12 +310,12 @@ namespace mx
 
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj, myOutNote, myNoteData.noteAttachmentData );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj, myOutNote, myNoteData.noteAttachmentData );
                     }
                     
                     break;
@@ -316,12 +330,12 @@ namespace mx
                     
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj, myOutNote, myNoteData.noteAttachmentData );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj, myOutNote, myNoteData.noteAttachmentData );
                     }
                     
                     break;
-- 
2.43.0


From 65b82a7eb1b99010170e067cb5bcdba92d92f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 60/99] fix: write arpeggiate and accidental marks

---
 .../mx/impl/AccidentalMarkFunctions.cpp       |  2 +-
 .../private/mx/impl/NotationsWriter.cpp       | 34 +++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp b/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
index ef3d82f..8f74472 100644
--- a/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
+++ b/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
@@ -28,7 +28,7 @@ namespace mx
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             markData.name = core::toString( accidentalValue );
-            markData.positionData = impl::getPositionData( *myAccidentalMark.getAttributes() );
+            impl::parseMarkDataAttributes( *myAccidentalMark.getAttributes(), markData );
             
             return markData;
         }
diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 2ad0656..2bc805d 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -4,6 +4,8 @@
 
 #include "mx/impl/NotationsWriter.h"
 #include "mx/core/elements/Accent.h"
+#include "mx/core/elements/AccidentalMark.h"
+#include "mx/core/elements/Arpeggiate.h"
 #include "mx/core/elements/Arrow.h"
 #include "mx/core/elements/Articulations.h"
 #include "mx/core/elements/ArticulationsChoice.h"
@@ -274,6 +276,38 @@ namespace mx
                     DynamicsWriter dynamicsWriter{ mark, myCursor };
                     dynamicNotationsChoice->setDynamics( dynamicsWriter.getDynamics() );
                 }
+                else if( isMarkArpeggiate( mark.markType ) )
+                {
+                    auto arpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( arpeggiateNotationsChoice );
+                    arpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::arpeggiate );
+                    auto& attr = *arpeggiateNotationsChoice->getArpeggiate()->getAttributes();
+                    impl::setAttributesFromMarkData( mark, attr );
+                    
+                    if( mark.markType != api::MarkType::arpeggiate )
+                    {
+                        attr.hasDirection = true;
+                        attr.direction = mark.markType == api::MarkType::arpeggiateUp ? core::UpDown::up : core::UpDown::down;
+                    }
+                }
+                else if( myConverter.convertAccidentalMark( myConverter.convertAccidentalMark( mark.markType ) ) == mark.markType )
+                {
+                    auto accidentalMark = core::makeAccidentalMark();
+                    accidentalMark->setValue( myConverter.convertAccidentalMark( mark.markType ) );
+                    impl::setAttributesFromMarkData( mark, *accidentalMark->getAttributes() );
+
+                    if( ornaments->getOrnamentsChoiceSet().size() > 0 )
+                    {
+                        ornaments->addAccidentalMark( accidentalMark );
+                    }
+                    else
+                    {
+                        auto accidentalNotationsChoice = core::makeNotationsChoice();
+                        myOutNotations->addNotationsChoice( accidentalNotationsChoice );
+                        accidentalNotationsChoice->setChoice( core::NotationsChoice::Choice::accidentalMark );
+                        accidentalNotationsChoice->setAccidentalMark( accidentalMark );
+                    }
+                }
                 else if( isMarkFermata( mark.markType ) )
                 {
                     auto fermataNotationsChoice = core::makeNotationsChoice();
-- 
2.43.0


From c676a393c8e9be03e2aae5f04abcf5b2793cecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 61/99] fix: write the position of tuplets

---
 Sourcecode/private/mx/impl/NotationsWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 2bc805d..898dee4 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -177,6 +177,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::stop;
+                impl::setAttributesFromPositionData( tupletStop.positionData, *tuplet->getAttributes() );
                 
                 if( tupletStop.numberLevel > 0 )
                 {
@@ -192,6 +193,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::start;
+                impl::setAttributesFromPositionData( tupletStart.positionData, *tuplet->getAttributes() );
                 tuplet->setHasTupletActual( true );
                 tuplet->setHasTupletNormal( true );
 
-- 
2.43.0


From 606815fcb61cf737aeb4059385788d4a8b8cdb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 62/99] fix: keep the type and message of a file reading error

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index a206ce0..fe9f765 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -87,7 +87,7 @@ namespace mx
                     MX_THROW( ss.str() );
                 }
 
-                throw e;
+                throw;
             }
 
             auto mxdoc = mx::core::makeDocument();
-- 
2.43.0


From 062395a09db2679fcbfbfa75984e56faf4043378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 63/99] fix: convert scores whose parts differ in length or are
 not listed

---
 .../private/mx/core/ScoreConversions.cpp      | 146 +++++++++---------
 1 file changed, 72 insertions(+), 74 deletions(-)

diff --git a/Sourcecode/private/mx/core/ScoreConversions.cpp b/Sourcecode/private/mx/core/ScoreConversions.cpp
index 9ffa559..dca3ee4 100644
--- a/Sourcecode/private/mx/core/ScoreConversions.cpp
+++ b/Sourcecode/private/mx/core/ScoreConversions.cpp
@@ -7,12 +7,11 @@
 #include "mx/core/elements/PartwiseMeasure.h"
 #include "mx/core/elements/PartwisePart.h"
 #include "mx/core/elements/TimewisePart.h"
-#include "mx/core/elements/ScorePart.h"
-#include "mx/core/elements/PartList.h"
-#include "mx/core/elements/PartGroup.h"
-#include "mx/core/elements/PartGroupOrScorePart.h"
 
-#include <algorithm>
+#include <map>
+#include <string>
+#include <utility>
+#include <vector>
 
 namespace mx
 {
@@ -55,52 +54,32 @@ namespace mx
                     score_new->addTimewiseMeasure( newMeasure );
                 }
                 
-                /* Create a simple list of parts from the score header */
-                std::vector<ScorePartPtr> partlist;
-                partlist.push_back( inScore->getScoreHeaderGroup()->getPartList()->getScorePart() );
-                for ( auto pgosp : inScore->getScoreHeaderGroup()->getPartList()->getPartGroupOrScorePartSet() )
+                /* Nested Loop, for each Part which has this Measure */
+                bool isFirst = true;
+                for ( auto p : inScore->getPartwisePartSet() )
                 {
-                    if ( pgosp->getChoice() == PartGroupOrScorePart::Choice::scorePart )
+                    if ( currentMeasureIndex >= p->getPartwiseMeasureSet().size() )
                     {
-                        partlist.push_back( pgosp->getScorePart() );
+                        continue;
                     }
-                }
-                
-                /* First Nested Loop, for each Part */
-                bool isFirst = true;
-                for ( auto sp : partlist )
-                {
-                    /* Find the Correct Part */
-                    auto partIter = std::find_if( inScore->getPartwisePartSet().cbegin(),
-                                  inScore->getPartwisePartSet().cend(),
-                                  [&]( const PartwisePartPtr& searchingForThis )
+                    
+                    const auto& measure = *( p->getPartwiseMeasureSet().cbegin() + currentMeasureIndex );
+                    
+                    /* Create and add the Part Music to the outer loop's Measure */
+                    TimewisePartPtr newPart;
+                    if ( isFirst )
                     {
-                        return searchingForThis->getAttributes()->id.getValue() == sp->getAttributes()->id.getValue();
-                    });
-                    if ( partIter != inScore->getPartwisePartSet().cend() )
+                        newPart = *( newMeasure->getTimewisePartSet().cbegin() );
+                        isFirst = false;
+                    }
+                    else
                     {
-                        auto measureIter = (*partIter)->getPartwiseMeasureSet().cbegin();
-                        /* Find the Correct Measure Within The Part */
-                        for( Intz x = 0;
-                            x < currentMeasureIndex;
-                            ++measureIter, ++x ) {}
-                        
-                        /* Create and add the Part Music to the outer loop's Measure */
-                        TimewisePartPtr newPart;
-                        if ( isFirst )
-                        {
-                            newPart = *( newMeasure->getTimewisePartSet().cbegin() );
-                            isFirst = false;
-                        }
-                        else
-                        {
-                            newPart = makeTimewisePart();
-                            newMeasure->addTimewisePart( newPart );
-                        }
-                        newPart->getAttributes()->id = (*partIter)->getAttributes()->id;
-                        newPart->setMusicDataGroup( (*measureIter)->getMusicDataGroup() );
-                        newMeasure->setAttributes( (*measureIter)->getAttributes() );
+                        newPart = makeTimewisePart();
+                        newMeasure->addTimewisePart( newPart );
                     }
+                    newPart->getAttributes()->id = p->getAttributes()->id;
+                    newPart->setMusicDataGroup( measure->getMusicDataGroup() );
+                    newMeasure->setAttributes( measure->getAttributes() );
                 }
             }
             return score_new;
@@ -117,50 +96,69 @@ namespace mx
             attr_new->version = attr_old->version;
             PartwisePartSet pwParts;
             
-            /* Create and add a ScorePartwisePart for each part in the main list */
-            auto firstPart = makePartwisePart();
-            firstPart->getAttributes()->id = inScore->getScoreHeaderGroup()->getPartList()->getScorePart()->getAttributes()->id;
-            score_new->addPartwisePart( firstPart );
-            score_new->removePartwisePart( score_new->getPartwisePartSet().cbegin() );
-            for ( auto pgosp : inScore->getScoreHeaderGroup()->getPartList()->getPartGroupOrScorePartSet() )
+            /* a part is known by its id, and by its position among the parts of a measure which have the same id */
+            using PartKey = std::pair<std::string, int>;
+            std::vector<std::map<PartKey, TimewisePartPtr>> measures;
+            std::vector<std::pair<PartKey, XsIDREF>> parts;
+            std::map<PartKey, size_t> measureCounts;
+            
+            for ( auto m : inScore->getTimewiseMeasureSet() )
             {
-                if ( pgosp->getChoice() == PartGroupOrScorePart::Choice::scorePart )
+                measures.emplace_back();
+                std::map<std::string, int> occurrences;
+                
+                for ( auto p : m->getTimewisePartSet() )
                 {
-                    auto additionalPart = makePartwisePart();
-                    additionalPart->getAttributes()->id = pgosp->getScorePart()->getAttributes()->id;
-                    score_new->addPartwisePart( additionalPart );
+                    const auto& id = p->getAttributes()->id;
+                    const PartKey key{ id.getValue(), occurrences[id.getValue()]++ };
+                    measures.back()[key] = p;
+                    
+                    if ( measureCounts.find( key ) == measureCounts.cend() )
+                    {
+                        parts.emplace_back( key, id );
+                    }
+                    
+                    measureCounts[key] = measures.size();
                 }
             }
-            /* outter loop: for each scorepart in score_new */
-            for ( auto p : score_new->getPartwisePartSet() )
+            
+            /* outer loop: for each part, in order of appearance */
+            bool isFirstPart = true;
+            for ( const auto& part : parts )
             {
-                /* inner loop: for each measure in inScore */
-                bool isFirst = true;
-                for ( auto m : inScore->getTimewiseMeasureSet() )
+                PartwisePartPtr newPart;
+                if ( isFirstPart )
+                {
+                    newPart = *( score_new->getPartwisePartSet().cbegin() );
+                    isFirstPart = false;
+                }
+                else
+                {
+                    newPart = makePartwisePart();
+                    score_new->addPartwisePart( newPart );
+                }
+                newPart->getAttributes()->id = part.second;
+                
+                /* inner loop: for each measure up to the last one in which the part appears */
+                auto measureIter = inScore->getTimewiseMeasureSet().cbegin();
+                for ( size_t m = 0; m < measureCounts[part.first]; ++m, ++measureIter )
                 {
                     PartwiseMeasurePtr newMeasure;
-                    if ( isFirst )
+                    if ( m == 0 )
                     {
-                        newMeasure = *( p->getPartwiseMeasureSet().cbegin() );
-                        isFirst = false;
+                        newMeasure = *( newPart->getPartwiseMeasureSet().cbegin() );
                     }
                     else
                     {
                         newMeasure = makePartwiseMeasure();
-                        p->addPartwiseMeasure( newMeasure );
+                        newPart->addPartwiseMeasure( newMeasure );
                     }
-                    newMeasure->setAttributes( m->getAttributes() );
+                    newMeasure->setAttributes( std::make_shared<MeasureAttributes>( *( *measureIter )->getAttributes() ) );
                     
-                    /* find the correct music data */
-                    auto partIter = std::find_if( m->getTimewisePartSet().cbegin(),
-                                                  m->getTimewisePartSet().cend(),
-                                                 [&]( const TimewisePartPtr& searchingForThis )
-                    {
-                        return searchingForThis->getAttributes()->id.getValue() == p->getAttributes()->id.getValue();
-                    });
-                    if ( partIter != m->getTimewisePartSet().cend() )
+                    const auto found = measures[m].find( part.first );
+                    if ( found != measures[m].cend() )
                     {
-                        newMeasure->setMusicDataGroup( (*partIter)->getMusicDataGroup() );
+                        newMeasure->setMusicDataGroup( found->second->getMusicDataGroup() );
                     }
                 }
             }
-- 
2.43.0


From 1553a2fbac34df1874e781d585a0c4ca940c9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 64/99] fix: extract data from a timewise document without
 converting it

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index fe9f765..0ac93db 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -6,6 +6,7 @@
 #include "mx/impl/ScoreReader.h"
 #include "mx/impl/ScoreWriter.h"
 #include "mx/core/Document.h"
+#include "mx/core/ScoreConversions.h"
 #include "ezxml/XFactory.h"
 #include "mx/utility/Throw.h"
 
@@ -189,23 +190,17 @@ namespace mx
                 return ScoreData{};
             }
             
-            bool wasTimewise = false;
-
             if( it->second->getChoice() == core::DocumentChoice::timewise )
             {
-                wasTimewise = true;
-                it->second->convertContents();
+                const auto scorePartwise = core::timewisePartwise( it->second->getScoreTimewise() );
+                impl::ScoreReader reader{ *scorePartwise };
+                auto score = reader.getScoreData();
+                score.musicXmlType = "timewise";
+                return score;
             }
 
             impl::ScoreReader reader{ *it->second->getScorePartwise() };
-            auto score = reader.getScoreData();
-
-            if( wasTimewise )
-            {
-                score.musicXmlType = "timewise";
-                it->second->convertContents();
-            }
-            return score;
+            return reader.getScoreData();
         }
         
         
-- 
2.43.0


From 7ec0cf5b2b0f3a3d71460311b679430f333f8be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 65/99] fix: refuse time values an int cannot hold instead of
 overflowing

---
 Sourcecode/private/mx/impl/Cursor.cpp        | 23 ++++++++++++++++++--
 Sourcecode/private/mx/impl/Cursor.h          |  4 ++++
 Sourcecode/private/mx/impl/LcmGcd.cpp        |  9 ++++++--
 Sourcecode/private/mx/impl/MeasureReader.cpp |  4 ++--
 Sourcecode/private/mx/impl/ScoreReader.cpp   |  3 ++-
 5 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/Sourcecode/private/mx/impl/Cursor.cpp b/Sourcecode/private/mx/impl/Cursor.cpp
index a0e832a..2a89b26 100644
--- a/Sourcecode/private/mx/impl/Cursor.cpp
+++ b/Sourcecode/private/mx/impl/Cursor.cpp
@@ -4,11 +4,30 @@
 
 #include "mx/impl/Cursor.h"
 #include "mx/core/elements/Duration.h"
+#include "mx/utility/Throw.h"
+
+#include <cmath>
+#include <limits>
 
 namespace mx
 {
     namespace impl
     {
+        int roundToTicks( long double value )
+        {
+            const long double rounded = std::ceil( value - 0.5L );
+            const auto least = static_cast<long double>( std::numeric_limits<int>::min() );
+            const auto greatest = static_cast<long double>( std::numeric_limits<int>::max() );
+
+            if( !( rounded >= least && rounded <= greatest ) )
+            {
+                MX_THROW( "a time value is too large" );
+            }
+
+            return static_cast<int>( rounded );
+        }
+
+
         Cursor::Cursor( int numStaves, int globalTicksPerQuarter )
         : timeSignature{}
         , ticksPerQuarter( globalTicksPerQuarter )
@@ -57,13 +76,13 @@ namespace mx
         {
             if( this->ticksPerQuarter == this->getGlobalTicksPerQuarter() )
             {
-                return static_cast<int>( std::ceil( durationValue - 0.5L ) );
+                return roundToTicks( durationValue );
             }
             
             const long double currentTicksPerQuarter = static_cast<long double>( this->ticksPerQuarter );
             const long double globalTicksPerQuarter = static_cast<long double>( this->getGlobalTicksPerQuarter() );
             const long double convertedVal = durationValue * ( globalTicksPerQuarter / currentTicksPerQuarter );
-            return static_cast<int>( std::ceil( convertedVal - 0.5L ) );
+            return roundToTicks( convertedVal );
         }
 
 
diff --git a/Sourcecode/private/mx/impl/Cursor.h b/Sourcecode/private/mx/impl/Cursor.h
index a964cc5..566b125 100644
--- a/Sourcecode/private/mx/impl/Cursor.h
+++ b/Sourcecode/private/mx/impl/Cursor.h
@@ -17,6 +17,10 @@ namespace mx
 
     namespace impl
     {
+        // rounds to the nearest whole number of ticks, throws when an int
+        // cannot represent the result
+        int roundToTicks( long double value );
+
         class Cursor
         {
         public:
diff --git a/Sourcecode/private/mx/impl/LcmGcd.cpp b/Sourcecode/private/mx/impl/LcmGcd.cpp
index f8b3613..df1bf64 100644
--- a/Sourcecode/private/mx/impl/LcmGcd.cpp
+++ b/Sourcecode/private/mx/impl/LcmGcd.cpp
@@ -7,6 +7,7 @@
 
 #include <exception>
 #include <cmath>
+#include <limits>
 #include <set>
 
 namespace mx
@@ -71,12 +72,16 @@ namespace mx
             // http://stackoverflow.com/a/4229930/2779792
             auto temp = greatestCommonDivisor(a, b);
             
-            auto answer = temp ? (a / temp * b) : 0;
+            auto answer = temp ? ( static_cast<long long>( a / temp ) * b ) : 0;
             if ( answer < 0 )
             {
                 answer *= -1;
             }
-            return answer;
+            if ( answer > std::numeric_limits<int>::max() )
+            {
+                MX_THROW( "the least common multiple is too large" );
+            }
+            return static_cast<int>( answer );
         }
         
         
diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index 4588fb2..b70d5d5 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -437,7 +437,7 @@ namespace mx
             if( inMxProperties.getHasDivisions() )
             {
                 const auto newDivisionsValueDecimal = inMxProperties.getDivisions()->getValue().getValue();
-                myCurrentCursor.ticksPerQuarter = static_cast<int>(std::ceil(newDivisionsValueDecimal - 0.5));
+                myCurrentCursor.ticksPerQuarter = roundToTicks( newDivisionsValueDecimal );
             }
             
             // TODO - continue work on measure numbering and style etc
@@ -896,7 +896,7 @@ namespace mx
             record.amount = amount;
             record.timeBefore = myCurrentCursor.tickTimePosition;
             record.cursorBefore = myCurrentCursor;
-            myCurrentCursor.tickTimePosition += amount;
+            myCurrentCursor.tickTimePosition = roundToTicks( static_cast<long double>( record.timeBefore ) + amount );
             record.cursorAfter = myCurrentCursor;
             record.timeAfter = myCurrentCursor.tickTimePosition;
 
diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 5ffa138..3275928 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -54,6 +54,7 @@
 #include "mx/impl/Converter.h"
 #include "mx/impl/EncodingFunctions.h"
 #include "mx/impl/LayoutFunctions.h"
+#include "mx/impl/Cursor.h"
 #include "mx/impl/LcmGcd.h"
 #include "mx/impl/PageTextFunctions.h"
 #include "mx/impl/PartReader.h"
@@ -611,7 +612,7 @@ namespace mx
                         
                         const auto& divisions = *props.getDivisions();
                         const auto tempDiv = divisions.getValue().getValue();
-                        const int tempDivInt = static_cast<int>( std::ceil( tempDiv - 0.5 ) );
+                        const int tempDivInt = roundToTicks( tempDiv );
                         if( tempDivInt > 0 )
                         {
                             foundDivisions.insert( tempDivInt );
-- 
2.43.0


From a37018d5d8d6c49b5170bbdab01fcbb363f16d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 66/99] fix: read a direction's offset in the score's ticks

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 13 +++++++++----
 Sourcecode/private/mx/impl/DirectionReader.h   |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index d2439a6..787e827 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -117,22 +117,27 @@ namespace mx
         }
 
 
+        void DirectionReader::addOffset( long double offset )
+        {
+            const long double position = myOutDirectionData.tickTimePosition;
+            myOutDirectionData.tickTimePosition = roundToTicks( position + myCursor.convertDurationToGlobalTickScale( offset ) );
+        }
+
+
         void DirectionReader::updateTimeForOffset()
         {
             if( myDirection )
             {
                 if( myDirection->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myDirection->getOffset()->getValue().getValue() - 0.5 ) );
-                    myOutDirectionData.tickTimePosition += offset;
+                    addOffset( myDirection->getOffset()->getValue().getValue() );
                 }
             }
             else if( myHarmony )
             {
                 if( myHarmony->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myHarmony->getOffset()->getValue().getValue() - 0.5 ) );
-                    myOutDirectionData.tickTimePosition += offset;
+                    addOffset( myHarmony->getOffset()->getValue().getValue() );
                 }
             }
         }
diff --git a/Sourcecode/private/mx/impl/DirectionReader.h b/Sourcecode/private/mx/impl/DirectionReader.h
index 3b384d8..95ee761 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.h
+++ b/Sourcecode/private/mx/impl/DirectionReader.h
@@ -44,6 +44,7 @@ namespace mx
             
     	private:
             mx::api::DirectionData initializeData();
+            void addOffset( long double offset );
             void updateTimeForOffset();
             void parsePlacement();
             void parseValues();
-- 
2.43.0


From 33634e41f158dd3a510319b48b843cdcb26f4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 67/99] fix: refuse numbers an int cannot hold instead of
 overflowing

---
 Sourcecode/private/mx/impl/Converter.cpp      | 16 ++++++-------
 Sourcecode/private/mx/impl/Cursor.cpp         | 16 ++-----------
 Sourcecode/private/mx/impl/CurveFunctions.h   |  3 ++-
 .../private/mx/impl/DirectionWriter.cpp       | 10 ++++----
 Sourcecode/private/mx/impl/DirectionWriter.h  |  2 +-
 Sourcecode/private/mx/utility/Round.h         | 23 ++++++++++++++++++-
 6 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 0ca94ca..4596539 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -6,6 +6,7 @@
 #include "mx/core/elements/Diatonic.h"
 #include "mx/core/elements/OctaveChange.h"
 #include "mx/impl/Converter.h"
+#include "mx/utility/Round.h"
 #include "mx/utility/Throw.h"
 
 #include <algorithm>
@@ -1827,7 +1828,7 @@ namespace mx
         std::pair<int, double> Converter::convertToSemitonesAndCents( mx::core::DecimalType xmlAlter )
         {
             double myCents = 0.0;
-            const auto intAlter = static_cast<int>( xmlAlter );
+            const auto intAlter = utility::truncateTo<int>( xmlAlter );
             const auto micro = xmlAlter - static_cast<mx::core::DecimalType> ( intAlter );
             const auto microDistance = std::abs( micro );
             if( microDistance >= 0.000000000001 )
@@ -1853,7 +1854,7 @@ namespace mx
             {
                 octave = inTransposeData.chromatic / 12;
                 const auto negative = inTransposeData.chromatic < 0;
-                const auto absMod = std::abs( inTransposeData.chromatic ) % 12;
+                const auto absMod = std::abs( inTransposeData.chromatic % 12 );
                 chromatic = negative ? -1 * absMod : absMod;
                 if( octave != 0 )
                 {
@@ -1872,7 +1873,7 @@ namespace mx
 
             // an absent diatonic element is guessed from the chromatic one, so it can only be left
             // out when the guess is right.
-            const auto harmonic = inTransposeData.diatonic - octave * 7;
+            const auto harmonic = utility::truncateTo<int>( inTransposeData.diatonic - octave * 7.0L );
             if( harmonic != 0 || figureOutDiatonic( chromatic ) != 0 )
             {
                 transposePtr->setHasDiatonic( true );
@@ -1922,7 +1923,7 @@ namespace mx
             // we do our best if the transpose element is used incorrectly, or the diatonic element (which is 
             // optional in musicxml) is not present. TransposeData does away with the octave-change concept and
             // requires use of the diatonic value, so we translate as necessary.
-            const int specifiedChromatic = static_cast<int>( inTranspose.getChromatic()->getValue().getValue() );
+            const int specifiedChromatic = utility::truncateTo<int>( inTranspose.getChromatic()->getValue().getValue() );
             std::optional<int> specifiedOctave;
             if( inTranspose.getHasOctaveChange() )
             {
@@ -1948,14 +1949,13 @@ namespace mx
             {
                 // the transpose element is badly misused, make shit up
                 const int octaves = specifiedChromatic / 12;
-                int semitones = std::abs( specifiedChromatic ) % 12;
-                semitones *= specifiedChromatic < 0 ? -1 : 1;
+                const int semitones = specifiedChromatic % 12;
                 diatonic = figureOutDiatonic( semitones );
                 diatonic += octaves * 7;
             }
             const auto octaves = specifiedOctave.has_value() ? specifiedOctave.value() : 0;
-            diatonic += octaves * 7;
-            const auto chromatic = specifiedChromatic + ( octaves * 12 );
+            diatonic = utility::truncateTo<int>( diatonic + octaves * 7.0L );
+            const auto chromatic = utility::truncateTo<int>( specifiedChromatic + octaves * 12.0L );
             return mx::api::TransposeData{ chromatic, diatonic };
         }
     }
diff --git a/Sourcecode/private/mx/impl/Cursor.cpp b/Sourcecode/private/mx/impl/Cursor.cpp
index 2a89b26..393b28e 100644
--- a/Sourcecode/private/mx/impl/Cursor.cpp
+++ b/Sourcecode/private/mx/impl/Cursor.cpp
@@ -4,10 +4,7 @@
 
 #include "mx/impl/Cursor.h"
 #include "mx/core/elements/Duration.h"
-#include "mx/utility/Throw.h"
-
-#include <cmath>
-#include <limits>
+#include "mx/utility/Round.h"
 
 namespace mx
 {
@@ -15,16 +12,7 @@ namespace mx
     {
         int roundToTicks( long double value )
         {
-            const long double rounded = std::ceil( value - 0.5L );
-            const auto least = static_cast<long double>( std::numeric_limits<int>::min() );
-            const auto greatest = static_cast<long double>( std::numeric_limits<int>::max() );
-
-            if( !( rounded >= least && rounded <= greatest ) )
-            {
-                MX_THROW( "a time value is too large" );
-            }
-
-            return static_cast<int>( rounded );
+            return utility::roundTo<long double, int>( value );
         }
 
 
diff --git a/Sourcecode/private/mx/impl/CurveFunctions.h b/Sourcecode/private/mx/impl/CurveFunctions.h
index 6d39800..1d43e5f 100644
--- a/Sourcecode/private/mx/impl/CurveFunctions.h
+++ b/Sourcecode/private/mx/impl/CurveFunctions.h
@@ -9,6 +9,7 @@
 #include "mx/impl/PositionFunctions.h"
 #include "mx/impl/LineFunctions.h"
 #include "mx/impl/PrintFunctions.h"
+#include "mx/utility/Round.h"
 
 namespace mx
 {
@@ -36,7 +37,7 @@ namespace mx
             if( inAttributes.hasBezierOffset )
             {
                 p.isBezierOffsetSpecified = true;
-                p.bezierOffset = static_cast<int>( std::ceil( inAttributes.bezierOffset.getValue() - 0.5 ) );
+                p.bezierOffset = utility::roundTo<long double, int>( inAttributes.bezierOffset.getValue() );
             }
             
             return p;
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index f9034c0..f2bc5e4 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -98,13 +98,13 @@ namespace mx
                 directionPtr->getStaff()->setValue( core::PositiveInteger{ myCursor.staffIndex + 1 } );
             }
 
-            int offset = 0;
+            core::DecimalType offset = 0;
 
             if( myDirectionData.tickTimePosition != myCursor.tickTimePosition )
             {
-                offset = myDirectionData.tickTimePosition - myCursor.tickTimePosition;
+                offset = static_cast<core::DecimalType>( myDirectionData.tickTimePosition ) - myCursor.tickTimePosition;
                 directionPtr->setHasOffset( true );
-                directionPtr->getOffset()->setValue( core::DivisionsValue{ static_cast<core::DecimalType>( offset ) } );
+                directionPtr->getOffset()->setValue( core::DivisionsValue{ offset } );
                 directionPtr->getOffset()->getAttributes()->hasSound = true;
                 directionPtr->getOffset()->getAttributes()->sound = core::YesNo::yes;
             }
@@ -457,7 +457,7 @@ namespace mx
         }
 
 
-        core::MusicDataChoiceSet DirectionWriter::createHarmonyElements( int inOffset )
+        core::MusicDataChoiceSet DirectionWriter::createHarmonyElements( core::DecimalType inOffset )
         {
             if( myDirectionData.chords.empty() )
             {
@@ -473,7 +473,7 @@ namespace mx
             if( inOffset != 0 )
             {
                 harmony->setHasOffset( true );
-                harmony->getOffset()->setValue( core::DivisionsValue{ static_cast<core::DecimalType>( inOffset ) } );
+                harmony->getOffset()->setValue( core::DivisionsValue{ inOffset } );
             }
 
             if( myDirectionData.isStaffValueSpecified || myCursor.staffIndex != 0 )
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.h b/Sourcecode/private/mx/impl/DirectionWriter.h
index 9b67581..7d36c3b 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.h
+++ b/Sourcecode/private/mx/impl/DirectionWriter.h
@@ -35,7 +35,7 @@ namespace mx
 
         private:
             void addDirectionType( const core::DirectionTypePtr& directionType, const core::DirectionPtr& ioDirection );
-            core::MusicDataChoiceSet createHarmonyElements( int inOffset );
+            core::MusicDataChoiceSet createHarmonyElements( core::DecimalType inOffset );
             void addMusicDataChoices( const core::MusicDataChoiceSet& inMdcs, core::MusicDataChoiceSet& ioOutputSet );
 
         private:
diff --git a/Sourcecode/private/mx/utility/Round.h b/Sourcecode/private/mx/utility/Round.h
index 9d13fa4..2f4c8bc 100644
--- a/Sourcecode/private/mx/utility/Round.h
+++ b/Sourcecode/private/mx/utility/Round.h
@@ -4,14 +4,35 @@
 
 #pragma once
 
+#include "mx/utility/Throw.h"
+
+#include <cmath>
+#include <limits>
+
 namespace mx
 {
     namespace utility
     {
+        // drops the fraction, throws when the OUTPUT type cannot represent the result
+        template<typename OUTPUT>
+        inline OUTPUT truncateTo( long double inValue )
+        {
+            const long double truncated = std::trunc( inValue );
+            const auto least = static_cast<long double>( std::numeric_limits<OUTPUT>::min() );
+            const auto greatest = static_cast<long double>( std::numeric_limits<OUTPUT>::max() );
+
+            if( !( truncated >= least && truncated <= greatest ) )
+            {
+                MX_THROW( "the value is too large" );
+            }
+
+            return static_cast<OUTPUT>( truncated );
+        }
+
         template<typename INPUT, typename OUTPUT>
         inline OUTPUT roundTo( INPUT inValue )
         {
-            return static_cast<OUTPUT>( std::ceil( inValue - static_cast<INPUT>( 0.5 ) ) );
+            return truncateTo<OUTPUT>( std::ceil( inValue - static_cast<INPUT>( 0.5 ) ) );
         }
     }
 }
-- 
2.43.0


From aeb009e7d4e03fa29b5c564043e9ea2d898322f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 68/99] fix: write the display step and octave of rests

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index c99bb75..0b06c9f 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -357,7 +357,8 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::rest );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
-                    auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
+                    myOutFullNoteTypeChoice->getRest()->setHasDisplayStepOctaveGroup( true );
+                    auto pitch = myOutFullNoteTypeChoice->getRest()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
                 }
@@ -374,6 +375,7 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::unpitched );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
+                    myOutFullNoteTypeChoice->getUnpitched()->setHasDisplayStepOctaveGroup( true );
                     auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
-- 
2.43.0


From 9d758efc7ba97243d2ebeccbf0ad79b2d0d8a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 69/99] fix: write accidental parentheses, cautionary,
 editorial and bracket

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 0b06c9f..2188cda 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -101,6 +101,31 @@ namespace mx
             {
                 myOutNote->setHasAccidental( true );
                 myOutNote->getAccidental()->setValue( myConverter.convert( myNoteData.pitchData.accidental ) );
+                auto& accidentalAttr = *myOutNote->getAccidental()->getAttributes();
+
+                if( myNoteData.pitchData.isAccidentalParenthetical )
+                {
+                    accidentalAttr.hasParentheses = true;
+                    accidentalAttr.parentheses = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalCautionary )
+                {
+                    accidentalAttr.hasCautionary = true;
+                    accidentalAttr.cautionary = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalEditorial )
+                {
+                    accidentalAttr.hasEditorial = true;
+                    accidentalAttr.editorial = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalBracketed )
+                {
+                    accidentalAttr.hasBracket = true;
+                    accidentalAttr.bracket = core::YesNo::yes;
+                }
             }
             
             auto beamIndex = 0;
-- 
2.43.0


From 4b4466b66f5eb1aacd6afc49518f0f19986f1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 70/99] fix: write the print data of notes

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 2188cda..5422c87 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -34,6 +34,7 @@
 #include "mx/core/elements/Octave.h"
 #include "mx/core/elements/Pitch.h"
 #include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/core/elements/Rest.h"
 #include "mx/core/elements/Staff.h"
 #include "mx/core/elements/Stem.h"
@@ -90,6 +91,7 @@ namespace mx
             NotationsWriter notationsWriter{ myNoteData, myCursor, myScoreWriter };
             auto& noteAttr = *myOutNote->getAttributes();
             impl::setAttributesFromPositionData(myNoteData.positionData, noteAttr);
+            impl::setAttributesFromPrintData( myNoteData.printData, noteAttr );
 
             auto notations = notationsWriter.getNotations();
             if( notations->getNotationsChoiceSet().size() > 0 )
-- 
2.43.0


From 61af58361f68042ec8388e630560857e12b1d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 71/99] fix: take a tuplet's normal number from the time
 modification's normal notes

---
 Sourcecode/private/mx/impl/TupletReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/TupletReader.cpp b/Sourcecode/private/mx/impl/TupletReader.cpp
index 2f63fd8..6b1b8d5 100644
--- a/Sourcecode/private/mx/impl/TupletReader.cpp
+++ b/Sourcecode/private/mx/impl/TupletReader.cpp
@@ -139,7 +139,7 @@ namespace mx
                 return;
             }
             const auto& timeMod = *myNote.getTimeModification();
-            outTupletStart.actualNumber = timeMod.getActualNotes()->getValue().getValue();
+            outTupletStart.normalNumber = timeMod.getNormalNotes()->getValue().getValue();
             
             Converter converter;
             if( timeMod.getHasNormalTypeNormalDotGroup() )
@@ -164,7 +164,7 @@ namespace mx
                 return;
             }
             const auto& timeMod = *myNote.getTimeModification();
-            outTupletStart.normalNumber = timeMod.getNormalNotes()->getValue().getValue();
+            outTupletStart.actualNumber = timeMod.getActualNotes()->getValue().getValue();
             
             Converter converter;
             if( timeMod.getHasNormalTypeNormalDotGroup() )
-- 
2.43.0


From dd39b5a0e438e8474c73ec6c6e2f2a3eddf8af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 72/99] fix: write the time modification normal type of the
 note

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 5422c87..f939ae6 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -152,6 +152,23 @@ namespace mx
                 timeMod->getActualNotes()->setValue( core::NonNegativeInteger{ myNoteData.durationData.timeModificationActualNotes } );
                 timeMod->getNormalNotes()->setValue( core::NonNegativeInteger{ myNoteData.durationData.timeModificationNormalNotes } );
 
+                const auto normalType = myNoteData.durationData.timeModificationNormalType;
+                const auto normalTypeDots = myNoteData.durationData.timeModificationNormalTypeDots;
+
+                if( normalType != api::DurationName::unspecified
+                    && ( normalType != myNoteData.durationData.durationName || normalTypeDots > 0 ) )
+                {
+                    timeMod->setHasNormalTypeNormalDotGroup( true );
+                    timeMod->getNormalTypeNormalDotGroup()->getNormalType()->setValue( myConverter.convert( normalType ) );
+
+                    for( int i = 0; i < normalTypeDots; ++i )
+                    {
+                        timeMod->getNormalTypeNormalDotGroup()->addNormalDot( mx::core::makeNormalDot() );
+                    }
+
+                    return myOutNote;
+                }
+
                 // find the tuplet start note and TupletStart object
                 bool isTupletStartFound = false;
                 int tupletStartIndex = myNoteIndex;
-- 
2.43.0


From c2023f536e88a86f2a824f7b2bb46535d43d082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 73/99] fix: leave unspecified tuplet numbers and types out

---
 .../private/mx/impl/NotationsWriter.cpp       | 32 ++++++++++++++-----
 Sourcecode/private/mx/impl/TupletReader.cpp   | 12 +++++--
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 898dee4..6ca3dff 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -197,24 +197,40 @@ namespace mx
                 tuplet->setHasTupletActual( true );
                 tuplet->setHasTupletNormal( true );
 
-                tuplet->getTupletActual()->getTupletNumber()->setValue( core::NonNegativeInteger{ tupletStart.actualNumber } );
-                tuplet->getTupletActual()->setHasTupletType( true );
-                tuplet->getTupletActual()->getTupletType()->setValue( myConverter.convert( tupletStart.actualDurationName ) );
+                if( tupletStart.actualNumber >= 0 )
+                {
+                    tuplet->getTupletActual()->setHasTupletNumber( true );
+                    tuplet->getTupletActual()->getTupletNumber()->setValue( core::NonNegativeInteger{ tupletStart.actualNumber } );
+                }
+
+                if( tupletStart.actualDurationName != api::DurationName::unspecified )
+                {
+                    tuplet->getTupletActual()->setHasTupletType( true );
+                    tuplet->getTupletActual()->getTupletType()->setValue( myConverter.convert( tupletStart.actualDurationName ) );
+                }
+
                 for( int d = 0; d < tupletStart.actualDots; ++d )
                 {
                     tuplet->getTupletActual()->addTupletDot( core::makeTupletDot() );
                 }
 
-                tuplet->getTupletNormal()->getTupletNumber()->setValue( core::NonNegativeInteger{ tupletStart.normalNumber } );
-                tuplet->getTupletNormal()->setHasTupletType( true );
-                tuplet->getTupletNormal()->getTupletType()->setValue( myConverter.convert( tupletStart.normalDurationName ) );
+                if( tupletStart.normalNumber >= 0 )
+                {
+                    tuplet->getTupletNormal()->setHasTupletNumber( true );
+                    tuplet->getTupletNormal()->getTupletNumber()->setValue( core::NonNegativeInteger{ tupletStart.normalNumber } );
+                }
+
+                if( tupletStart.normalDurationName != api::DurationName::unspecified )
+                {
+                    tuplet->getTupletNormal()->setHasTupletType( true );
+                    tuplet->getTupletNormal()->getTupletType()->setValue( myConverter.convert( tupletStart.normalDurationName ) );
+                }
+
                 for( int d = 0; d < tupletStart.normalDots; ++d )
                 {
                     tuplet->getTupletNormal()->addTupletDot( core::makeTupletDot() );
                 }
 
-                tuplet->getTupletNormal()->setHasTupletNumber( true );
-                tuplet->getTupletActual()->setHasTupletNumber( true );
                 
                 if( tupletStart.numberLevel > 0 )
                 {
diff --git a/Sourcecode/private/mx/impl/TupletReader.cpp b/Sourcecode/private/mx/impl/TupletReader.cpp
index 6b1b8d5..d78e393 100644
--- a/Sourcecode/private/mx/impl/TupletReader.cpp
+++ b/Sourcecode/private/mx/impl/TupletReader.cpp
@@ -147,7 +147,11 @@ namespace mx
                 const auto& grp = *timeMod.getNormalTypeNormalDotGroup();
                 const auto durName = converter.convert( grp.getNormalType()->getValue() );
                 outTupletStart.normalDurationName = durName;
-                outTupletStart.normalDots = static_cast<int>( grp.getNormalDotSet().size() );
+
+                if( grp.getNormalDotSet().size() > 0 )
+                {
+                    outTupletStart.normalDots = static_cast<int>( grp.getNormalDotSet().size() );
+                }
             }
             else if ( myNote.getHasType() )
             {
@@ -172,7 +176,11 @@ namespace mx
                 const auto& grp = *timeMod.getNormalTypeNormalDotGroup();
                 const auto durName = converter.convert( grp.getNormalType()->getValue() );
                 outTupletStart.actualDurationName = durName;
-                outTupletStart.actualDots = static_cast<int>( grp.getNormalDotSet().size() );
+
+                if( grp.getNormalDotSet().size() > 0 )
+                {
+                    outTupletStart.actualDots = static_cast<int>( grp.getNormalDotSet().size() );
+                }
             }
             else if ( myNote.getHasType() )
             {
-- 
2.43.0


From 73a5669951ba5a366006cf234ceb33922ad760b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 74/99] fix: leave the type of a note out when it is
 unspecified

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index f939ae6..c5c8a6c 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -460,7 +460,8 @@ namespace mx
         
         void NoteWriter::setDurationNameAndDots() const
         {
-            if( !myNoteData.isRest || !myNoteData.isMeasureRest )
+            if( myNoteData.durationData.durationName != api::DurationName::unspecified
+                && ( !myNoteData.isRest || !myNoteData.isMeasureRest ) )
             {
                 myOutNote->setHasType( true );
                 myOutNote->getType()->setValue( myConverter.convert( myNoteData.durationData.durationName ) );
-- 
2.43.0


From 95755e07c2caff26bbedbe2880ec2a884e752d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 75/99] fix: derive the type of a note without one from the
 divisions in force

---
 Sourcecode/private/mx/impl/NoteFunctions.cpp | 22 +++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteFunctions.cpp b/Sourcecode/private/mx/impl/NoteFunctions.cpp
index c775e19..323882b 100644
--- a/Sourcecode/private/mx/impl/NoteFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NoteFunctions.cpp
@@ -192,7 +192,7 @@ namespace mx
         api::DurationName NoteFunctions::deriveNoteTypeFromDurationValue( const NoteReader& reader ) const
         {
             const long double durationValue = reader.getDurationValue();
-            const long double ticksPerQuarter = static_cast<long double>( myCursor.getGlobalTicksPerQuarter() );
+            const long double ticksPerQuarter = static_cast<long double>( myCursor.ticksPerQuarter );
             
             if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_QUARTER * ticksPerQuarter ) )
             {
@@ -209,6 +209,21 @@ namespace mx
                 return api::DurationName::whole;
             }
             
+            if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_BREVE * ticksPerQuarter ) )
+            {
+                return api::DurationName::breve;
+            }
+            
+            if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_LONGA * ticksPerQuarter ) )
+            {
+                return api::DurationName::longa;
+            }
+            
+            if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_MAXIMA * ticksPerQuarter ) )
+            {
+                return api::DurationName::maxima;
+            }
+            
             if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_EIGHTH * ticksPerQuarter ) )
             {
                 return api::DurationName::eighth;
@@ -234,6 +249,11 @@ namespace mx
                 return api::DurationName::dur128th;
             }
             
+            if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_256TH * ticksPerQuarter ) )
+            {
+                return api::DurationName::dur256th;
+            }
+            
             if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_512TH * ticksPerQuarter ) )
             {
                 return api::DurationName::dur512th;
-- 
2.43.0


From 204e590cff7c3d59240555629e03ab0d292d8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 76/99] fix: escape carriage returns in written text

---
 Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
index 90c48b2..7f286ad 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
@@ -1869,7 +1869,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  2,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  1,  0,     // 48-63
-- 
2.43.0


From d9a773eb2f63da077e4326e551c3b3324f3df125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 77/99] fix: write carriage returns, and line feeds and tabs in
 attributes, as character references

---
 Sourcecode/private/mx/core/AttributesInterface.h | 5 +++++
 Sourcecode/private/mx/core/XsString.cpp          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Sourcecode/private/mx/core/AttributesInterface.h b/Sourcecode/private/mx/core/AttributesInterface.h
index b9a62d5..f5a670d 100644
--- a/Sourcecode/private/mx/core/AttributesInterface.h
+++ b/Sourcecode/private/mx/core/AttributesInterface.h
@@ -57,6 +57,11 @@ namespace mx
                         // a quote would end the attribute value
                         os << "&quot;";
                     }
+                    else if( c == '\n' || c == '\t' )
+                    {
+                        // a reader turns literal white space in an attribute into spaces
+                        os << ( c == '\n' ? "&#10;" : "&#9;" );
+                    }
                     else
                     {
                         os << c;
diff --git a/Sourcecode/private/mx/core/XsString.cpp b/Sourcecode/private/mx/core/XsString.cpp
index bf29c5a..d5043f9 100644
--- a/Sourcecode/private/mx/core/XsString.cpp
+++ b/Sourcecode/private/mx/core/XsString.cpp
@@ -71,6 +71,11 @@ namespace mx
                         os << "&amp;";
                         break;
                         
+                    case '\r':
+                        // a reader turns a literal carriage return into a line feed
+                        os << "&#13;";
+                        break;
+                        
                     default:
                         os << c;
                         break;
-- 
2.43.0


From 4ef615ed4143f65ace0f06094c67961e150878c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 78/99] fix: write barlines in the middle of a measure at their
 time

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 7454740..f1e66ee 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -469,6 +469,7 @@ namespace mx
                     }
 
                     myPropertiesWriter->flushBuffer();
+                    writeBarlines( myHistory.getCursor().tickTimePosition );
 
                     int minDirectionTime = myHistory.getCursor().tickTimePosition;
                     int maxDirectionTime = minDirectionTime + noteIter->durationData.durationTimeTicks;
-- 
2.43.0


From 3c77cb09bcce2601c1327df1d643da028f7dfbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 79/99] fix: write tempo texts

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index f2bc5e4..b67edf4 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -292,9 +292,9 @@ namespace mx
 
             for( const auto& tempo : myDirectionData.tempos )
             {
-                if( tempo.tempoType != api::TempoType::beatsPerMinute )
+                if( tempo.tempoType != api::TempoType::beatsPerMinute && tempo.tempoType != api::TempoType::tempoText )
                 {
-                    MX_THROW( "Only api::TempoType::beatsPerMinute is supported, others are not implemented" );
+                    MX_THROW( "Only beatsPerMinute and tempoText are supported, others are not implemented" );
                 }
                 
                 auto outDirType = core::makeDirectionType();
@@ -317,7 +317,8 @@ namespace mx
                 auto pmobuc = bpm->getPerMinuteOrBeatUnitChoice();
                 pmobuc->setChoice( core::PerMinuteOrBeatUnitChoice::Choice::perMinute );
                 auto pm = pmobuc->getPerMinute();
-                auto str = std::to_string( tempo.beatsPerMinute.beatsPerMinute );
+                const bool isText = tempo.tempoType == api::TempoType::tempoText;
+                auto str = isText ? tempo.tempoText.tempoText : std::to_string( tempo.beatsPerMinute.beatsPerMinute );
                 pm->setValue( core::XsString{ str } );
                 //auto& attr = *outElement->getAttributes();
                 //setAttributesFromSpannerStart( item, attr );
-- 
2.43.0


From 188ed9ae95644df40c13fc0abee9a47c2e829af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 80/99] fix: separate a voice that starts where the previous
 one ended

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index f1e66ee..a218555 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -393,6 +393,8 @@ namespace mx
             auto directionIter = inStaff.directions.cbegin();
             auto directionEnd = inStaff.directions.cend();
 
+            bool isAnyVoiceWritten = false;
+
             for( const auto& voice : inStaff.voices )
             {
                 bool isFirstNote = true;
@@ -421,6 +423,15 @@ namespace mx
 
                     myHistory.setChord( noteIter->isChord );
                     const auto& apiNote = *noteIter;
+
+                    // a backup is what separates the voices of a staff when the measure is read
+                    const int cursorTime = myHistory.getCursor().tickTimePosition;
+                    if( isFirstNote && isAnyVoiceWritten && cursorTime > 0 && apiNote.tickTimePosition >= cursorTime )
+                    {
+                        myPropertiesWriter->flushBuffer();
+                        backup( cursorTime );
+                    }
+
                     writeForwardOrBackupIfNeeded( apiNote );
                     
                     if ( noteIter->isChord )
@@ -494,6 +505,7 @@ namespace mx
                     advanceCursorIfNeeded( apiNote, noteIter, noteEnd );
                     myPreviousCursor = myHistory.getCursor();
                     isFirstNote = false;
+                    isAnyVoiceWritten = true;
 
                 } // foreach note
 
-- 
2.43.0


From 5dcd6013f943a3c61118135415448b90907f3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 81/99] fix: keep the normal type of a time modification
 without dots when reading

---
 Sourcecode/private/mx/impl/NoteFunctions.cpp | 2 +-
 Sourcecode/private/mx/impl/NoteReader.cpp    | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteFunctions.cpp b/Sourcecode/private/mx/impl/NoteFunctions.cpp
index 323882b..1eb09ea 100644
--- a/Sourcecode/private/mx/impl/NoteFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NoteFunctions.cpp
@@ -158,7 +158,7 @@ namespace mx
 
             const core::NoteTypeValue timeModType = reader.getTimeModificationNormalType();
             const int timeModTypeDots = reader.getTimeModificationNormalTypeDots();
-            bool isTimeModTypeSpecified = ( timeModTypeDots > 0 ) && ( timeModType != reader.getDurationType() );
+            bool isTimeModTypeSpecified = ( timeModTypeDots > 0 ) || ( timeModType != reader.getDurationType() );
             
             if( isTimeModTypeSpecified )
             {
diff --git a/Sourcecode/private/mx/impl/NoteReader.cpp b/Sourcecode/private/mx/impl/NoteReader.cpp
index 495d2c7..cb14f6b 100644
--- a/Sourcecode/private/mx/impl/NoteReader.cpp
+++ b/Sourcecode/private/mx/impl/NoteReader.cpp
@@ -323,6 +323,8 @@ namespace mx
             {
                 myTimeModificationActualNotes = 1;
                 myTimeModificationNormalNotes = 1;
+                myTimeModificationNormalType = myDurationType;
+                myTimeModificationNormalTypeDots = 0;
                 return;
             }
             
-- 
2.43.0


From a20551ee2a6103a2114408e173bca23d8d0c7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 82/99] fix: write multi-measure rests

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp    |  5 +++++
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 11 +++++++++++
 Sourcecode/private/mx/impl/PropertiesWriter.h   |  1 +
 3 files changed, 17 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index a218555..8e0185b 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -265,6 +265,11 @@ namespace mx
                     myPropertiesWriter->writeTranspose( part.transposition.value() );
                 }
             }
+
+            if( myMeasureData.multiMeasureRest > 0 )
+            {
+                myPropertiesWriter->writeMultiMeasureRest( myMeasureData.multiMeasureRest );
+            }
         }
 
 
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index 12e4c3c..42fd753 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -15,6 +15,8 @@
 #include "mx/core/elements/Key.h"
 #include "mx/core/elements/Level.h"
 #include "mx/core/elements/MeasureStyle.h"
+#include "mx/core/elements/MeasureStyleChoice.h"
+#include "mx/core/elements/MultipleRest.h"
 #include "mx/core/elements/PartSymbol.h"
 #include "mx/core/elements/StaffDetails.h"
 #include "mx/core/elements/Staves.h"
@@ -288,6 +290,15 @@ namespace mx
             auto transposePtr = Converter::convertToTranspose( inTransposeData );
             myProperties->addTranspose( transposePtr );
         }
+
+        void PropertiesWriter::writeMultiMeasureRest( int value )
+        {
+            auto measureStyle = core::makeMeasureStyle();
+            auto choice = measureStyle->getMeasureStyleChoice();
+            choice->setChoice( core::MeasureStyleChoice::Choice::multipleRest );
+            choice->getMultipleRest()->setValue( core::PositiveIntegerOrEmpty{ core::PositiveInteger{ value } } );
+            myProperties->addMeasureStyle( measureStyle );
+        }
         
         void PropertiesWriter::allocate()
         {
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.h b/Sourcecode/private/mx/impl/PropertiesWriter.h
index 5ca3093..30a0416 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.h
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.h
@@ -60,6 +60,7 @@ namespace mx
             void writeNumStaves( int value );
             void writeClef( int staffIndex, const api::ClefData& inClefData );
             void writeTranspose( const api::TransposeData& inTransposeData );
+            void writeMultiMeasureRest( int value );
 
         private:
             void allocate();
-- 
2.43.0


From 3f70206f17aa0e88f091f5b39dd6195527a873f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 83/99] fix: give the midi-instrument the generated
 score-instrument id

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 6c63af9..e8187cd 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -235,6 +235,7 @@ namespace mx
                     ss << "ID";
                     ss << api::DocumentManager::getInstance().getUniqueId();
                     scoreIntstrument->getAttributes()->id = core::XsID{ ss.str() };
+                    midiInstrument.getAttributes()->id = core::XsID{ ss.str() };
                 }
                 else
                 {
-- 
2.43.0


From cb5892ecf6686a18b77fcf3db57aee62331b79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 84/99] fix: write the data of a processing instruction so that
 it cannot end it

---
 Sourcecode/private/mx/core/ProcessingInstruction.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/ProcessingInstruction.cpp b/Sourcecode/private/mx/core/ProcessingInstruction.cpp
index 6ff144d..12a5a86 100644
--- a/Sourcecode/private/mx/core/ProcessingInstruction.cpp
+++ b/Sourcecode/private/mx/core/ProcessingInstruction.cpp
@@ -68,7 +68,15 @@ namespace mx
             os << "<?";
             os << getName();
             os << " ";
-            os << getData();
+
+            // the data cannot contain the end of the processing instruction
+            StringType data = getData();
+            for( auto pos = data.find( "?>" ); pos != StringType::npos; pos = data.find( "?>", pos ) )
+            {
+                data.insert( pos + 1, " " );
+            }
+
+            os << data;
             os << "?>";
             return os;
         }
-- 
2.43.0


From 2f5dd30dd5eddd07ffc30a4e4073cd9ea6eee298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 85/99] fix: do not overflow the staff number of a key or the
 length of a tuplet

---
 Sourcecode/private/mx/impl/NoteWriter.cpp       | 2 +-
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index c5c8a6c..77d57a1 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -221,7 +221,7 @@ namespace mx
                 // calculate the distance between the two
                 if( isTupletStartFound && isTupletStopFound )
                 {
-                    const auto tickTimeDistance = ( tupletStopNote.tickTimePosition + tupletStopNote.durationData.durationTimeTicks ) - tupletStartNote.tickTimePosition;
+                    const auto tickTimeDistance = static_cast<long long>( tupletStopNote.tickTimePosition ) + tupletStopNote.durationData.durationTimeTicks - tupletStartNote.tickTimePosition;
 
                     if( tickTimeDistance > 0 && tupletStart.normalNumber != 0 && tupletStart.actualNumber != 0 )
                     {
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index 42fd753..2bafe83 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -106,6 +106,9 @@
 #include "mx/core/elements/Voice.h"
 #include "mx/impl/NoteWriter.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace mx
 {
 	namespace impl
@@ -158,8 +161,9 @@ namespace mx
 
             if( staffIndex >= 0 )
             {
+                const int maxIndex = std::numeric_limits<int>::max() - 1;
                 key->getAttributes()->hasNumber = true;
-                key->getAttributes()->number = core::StaffNumber{ staffIndex + 1 };
+                key->getAttributes()->number = core::StaffNumber{ std::min( staffIndex, maxIndex ) + 1 };
             }
 
             if( inKeyData.nonTraditional.empty() )
-- 
2.43.0


From fa6579527780f849a06ae643236f2735c9730cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 86/99] fix: move the time position by the duration of a
 chord's first note when reading

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 9 ++++++++-
 Sourcecode/private/mx/impl/MeasureReader.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index b70d5d5..d7e9f38 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -87,6 +87,7 @@ namespace mx
         , myOutMeasureData{}
         , myCurrentCursor{ cursor }
         , myPreviousMeasureCursor{ previousMeasureCursor }
+        , myChordDuration{ 0 }
         , myHistory{}
         {
             HistoryRecord initialCursorRecord;
@@ -348,9 +349,15 @@ namespace mx
             bool isThisNotePartOfAChord = noteData.isChord || isNextNotePartOfAChord;
             noteData.isChord = isThisNotePartOfAChord;
             
+            // the first note of a chord is the one whose duration moves the time position
+            if( !noteReader.getIsChord() )
+            {
+                myChordDuration = noteData.durationData.durationTimeTicks;
+            }
+
             if( !isThisNotePartOfAChord || !isNextNotePartOfAChord )
             {
-                advanceTickTimePosition( noteData.durationData.durationTimeTicks, "note" );
+                advanceTickTimePosition( myChordDuration, "note" );
             }
             
             MX_ASSERT( noteDataStaffIndex >= 0 );
diff --git a/Sourcecode/private/mx/impl/MeasureReader.h b/Sourcecode/private/mx/impl/MeasureReader.h
index c4f84cc..b4588e9 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.h
+++ b/Sourcecode/private/mx/impl/MeasureReader.h
@@ -55,6 +55,7 @@ namespace mx
             mutable api::MeasureData myOutMeasureData;
             mutable MeasureCursor myCurrentCursor;
             mutable MeasureCursor myPreviousMeasureCursor;
+            mutable int myChordDuration;
 
             class HistoryRecord
             {
-- 
2.43.0


From 99a329b737ed46197cf2f33a6481f0f9b3b23754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 87/99] fix: keep track of the written time position over
 chords and grace notes

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 72 ++++++--------------
 Sourcecode/private/mx/impl/MeasureWriter.h   |  2 +-
 2 files changed, 23 insertions(+), 51 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 8e0185b..57838b6 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -403,8 +403,8 @@ namespace mx
             for( const auto& voice : inStaff.voices )
             {
                 bool isFirstNote = true;
-                int currentChordTickPosition = -1;
-                int previousChordTickPosition = -2;
+                bool isChordOpen = false;
+                int chordDuration = 0;
                 myHistory.setVoiceIndex( voice.first );
                 auto noteIter = voice.second.notes.cbegin();
                 auto noteEnd = voice.second.notes.cend();
@@ -421,11 +421,6 @@ namespace mx
                 {
                     bool isStartOfChord = false;
 
-                    // if we are in a chord, and the next note is part of the same chord, then the next note is NOT independent
-                    // if we are in a chord, and the next note is NOT part of the same chord, then the next note IS independent
-                    // if we are NOT in a chord, then the next note IS independent
-                    bool isNextNoteIndependent = true;
-
                     myHistory.setChord( noteIter->isChord );
                     const auto& apiNote = *noteIter;
 
@@ -441,30 +436,7 @@ namespace mx
                     
                     if ( noteIter->isChord )
                     {
-                        currentChordTickPosition = myHistory.getCursor().tickTimePosition;
-                        if( isFirstNote )
-                        {
-                            isStartOfChord = true;
-                        }
-                        else if( currentChordTickPosition != previousChordTickPosition )
-                        {
-                            isStartOfChord = true;
-                        }
-
-                        const auto localNextNoteIter = noteIter + 1;
-
-                        if( localNextNoteIter != noteEnd )
-                        {
-                            if( localNextNoteIter->isChord )
-                            {
-                                if( localNextNoteIter->tickTimePosition == currentChordTickPosition )
-                                {
-                                    isNextNoteIndependent = false;
-                                }
-                            }
-                        }
-
-                        previousChordTickPosition = currentChordTickPosition;
+                        isStartOfChord = isFirstNote || !isChordOpen;
                     }
 
                     while( myMeasureKeysIter != myMeasureKeysEnd && myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
@@ -487,19 +459,7 @@ namespace mx
                     myPropertiesWriter->flushBuffer();
                     writeBarlines( myHistory.getCursor().tickTimePosition );
 
-                    int minDirectionTime = myHistory.getCursor().tickTimePosition;
-                    int maxDirectionTime = minDirectionTime + noteIter->durationData.durationTimeTicks;
-                    auto nextNote = noteIter + 1;
-
-                    if( nextNote != noteEnd )
-                    {
-                        maxDirectionTime = nextNote->tickTimePosition;
-                    }
-
-
-                    {
-                        writeDirections( directionIter, directionEnd, noteIter, std::cbegin(voice.second.notes), noteEnd );
-                    }
+                    writeDirections( directionIter, directionEnd, noteIter, std::cbegin(voice.second.notes), noteEnd );
 
                     auto mdc = core::makeMusicDataChoice();
                     mdc->setChoice( core::MusicDataChoice::Choice::note );
@@ -507,7 +467,16 @@ namespace mx
                     mdc->setNote( writer.getNote(isStartOfChord) );
                     myOutMeasure->getMusicDataGroup()->addMusicDataChoice( mdc );
                     myHistory.log( "addNote cursorTime " + std::to_string( myHistory.getCursor().tickTimePosition ) + ", noteTime " + std::to_string( apiNote.tickTimePosition ) );
-                    advanceCursorIfNeeded( apiNote, noteIter, noteEnd );
+
+                    // the first note of a chord is the one whose duration moves the time position
+                    if( !isChordOpen )
+                    {
+                        const bool isGrace = apiNote.noteType == api::NoteType::grace;
+                        chordDuration = isGrace ? 0 : apiNote.durationData.durationTimeTicks;
+                    }
+
+                    isChordOpen = !isAdvanceNeeded( apiNote, noteIter, noteEnd );
+                    advanceCursorIfNeeded( apiNote, noteIter, noteEnd, chordDuration );
                     myPreviousCursor = myHistory.getCursor();
                     isFirstNote = false;
                     isAnyVoiceWritten = true;
@@ -625,7 +594,9 @@ namespace mx
                 else
                 {
                     const auto nextNoteTime = nextNoteIter->tickTimePosition;
-                    if( nextNoteTime != currentNote.tickTimePosition )
+                    const bool isGrace = currentNote.noteType == api::NoteType::grace;
+                    const bool isNextGrace = nextNoteIter->noteType == api::NoteType::grace;
+                    if( nextNoteTime != currentNote.tickTimePosition || !nextNoteIter->isChord || isGrace != isNextGrace )
                     {
                         return true;
                     }
@@ -639,13 +610,14 @@ namespace mx
         }
 
         
-        void MeasureWriter::advanceCursorIfNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd )
+        void MeasureWriter::advanceCursorIfNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd, int inDuration )
         {
             if( isAdvanceNeeded( currentNote, inIter, inEnd ) )
             {
                 const auto curTime = std::max( myHistory.getCursor().tickTimePosition, 0 );
-                const auto duration = std::max( currentNote.durationData.durationTimeTicks, 0 );
-                const auto newTime = curTime + duration;
+                const auto duration = std::max( inDuration, 0 );
+                // refuses a time which does not fit
+                const auto newTime = roundToTicks( static_cast<long double>( curTime ) + duration );
                 myHistory.setTime( newTime, "advance cursor" );
                 myPreviousCursor = myHistory.getCursor();
             }
@@ -707,7 +679,7 @@ namespace mx
                     return;
                 }
 
-                const int currentNoteEndTime = myHistory.getCursor().tickTimePosition + std::max(0, inNoteIter->durationData.durationTimeTicks);
+                const auto currentNoteEndTime = static_cast<long long>( myHistory.getCursor().tickTimePosition ) + std::max(0, inNoteIter->durationData.durationTimeTicks);
 
                 for ( ; directionIter != directionEnd && directionIter->tickTimePosition < currentNoteEndTime;
                      ++directionIter )
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.h b/Sourcecode/private/mx/impl/MeasureWriter.h
index a7d68dd..622a5fd 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.h
+++ b/Sourcecode/private/mx/impl/MeasureWriter.h
@@ -217,7 +217,7 @@ namespace mx
             void backup( const int ticks );
             void forward( const int ticks );
             bool isAdvanceNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd );
-            void advanceCursorIfNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd );
+            void advanceCursorIfNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd, int inDuration );
             void writeBarlines( int tickTimePosition );
             using dirs = std::vector<api::DirectionData>;
             using dIter = dirs::const_iterator;
-- 
2.43.0


From b86eca8f74cf59113abaf48aa25f8b3713670358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 88/99] fix: each dot adds half of what the one before it added

---
 Sourcecode/include/mx/api/DurationData.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/include/mx/api/DurationData.h b/Sourcecode/include/mx/api/DurationData.h
index d63a0b3..aebf50b 100644
--- a/Sourcecode/include/mx/api/DurationData.h
+++ b/Sourcecode/include/mx/api/DurationData.h
@@ -51,12 +51,12 @@ namespace mx
         inline long double applyDots( long double inUnDottedValue, int inNumDots )
         {
             long double outValue = inUnDottedValue;
-            long double valueToAdd = inUnDottedValue / 0.5;
+            long double valueToAdd = inUnDottedValue / 2;
 
             for( int i = 0; i < inNumDots; ++i )
             {
                 outValue += valueToAdd;
-                valueToAdd /= 0.5;
+                valueToAdd /= 2;
             }
 
             return outValue;
-- 
2.43.0


From acf7b574f8d574b7823dcb18a319abb3bcfa5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 89/99] fix: no location is valid in a score, part or measure
 that is empty

---
 Sourcecode/private/mx/api/MeasureLocation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/api/MeasureLocation.cpp b/Sourcecode/private/mx/api/MeasureLocation.cpp
index ed40c2e..736dd93 100644
--- a/Sourcecode/private/mx/api/MeasureLocation.cpp
+++ b/Sourcecode/private/mx/api/MeasureLocation.cpp
@@ -25,21 +25,21 @@ namespace mx
                 return false;
             }
             
-            if( static_cast<size_t>( partIndex ) > scoreData.parts.size() - 1 )
+            if( static_cast<size_t>( partIndex ) >= scoreData.parts.size() )
             {
                 return false;
             }
             
             const auto& part = scoreData.parts.at( static_cast<size_t>( partIndex ) );
             
-            if( static_cast<size_t>( measureIndex) > part.measures.size() - 1 )
+            if( static_cast<size_t>( measureIndex) >= part.measures.size() )
             {
                 return false;
             }
             
             const auto& measure = part.measures.at( static_cast<size_t>( measureIndex ) );
             
-            if( static_cast<size_t>( staffIndex ) > measure.staves.size() - 1 )
+            if( static_cast<size_t>( staffIndex ) >= measure.staves.size() )
             {
                 return false;
             }
-- 
2.43.0


From 6db9a4b381304ede32f7d708f2693273fe6937b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 90/99] fix: put the soprano and mezzo-soprano clefs on lines
 one and two

---
 Sourcecode/private/mx/api/ClefData.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/api/ClefData.cpp b/Sourcecode/private/mx/api/ClefData.cpp
index 440bad2..de6f112 100644
--- a/Sourcecode/private/mx/api/ClefData.cpp
+++ b/Sourcecode/private/mx/api/ClefData.cpp
@@ -84,7 +84,7 @@ namespace mx
     	void ClefData::setSoprano()
         {
             symbol = ClefSymbol::c;
-            line = 0;
+            line = 1;
             octaveChange = 0;
         }
 
@@ -92,7 +92,7 @@ namespace mx
     	void ClefData::setMezzoSoprano()
         {
             symbol = ClefSymbol::c;
-            line = 1;
+            line = 2;
             octaveChange = 0;
         }
 
@@ -129,13 +129,13 @@ namespace mx
         
     	bool ClefData::isSoprano() const
         {
-            return ( symbol == ClefSymbol::c ) && ( line == 0 ) && ( octaveChange == 0 );
+            return ( symbol == ClefSymbol::c ) && ( line == 1 ) && ( octaveChange == 0 );
         }
 
         
     	bool ClefData::isMezzoSoprano() const
         {
-            return ( symbol == ClefSymbol::c ) && ( line == 1 ) && ( octaveChange == 0 );
+            return ( symbol == ClefSymbol::c ) && ( line == 2 ) && ( octaveChange == 0 );
         }
     }
 }
-- 
2.43.0


From 1242abed6081fb633ad93cd2c377a0932ccece4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 91/99] fix: black is all zeros

---
 Sourcecode/include/mx/api/ColorData.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/include/mx/api/ColorData.h b/Sourcecode/include/mx/api/ColorData.h
index 541d5f3..d5eb4e3 100644
--- a/Sourcecode/include/mx/api/ColorData.h
+++ b/Sourcecode/include/mx/api/ColorData.h
@@ -18,7 +18,7 @@ namespace mx
             bool isAlphaSpecified;
             uint8_t alpha;
 
-            inline bool isBlack() { return ( red == 255 && green == 255 && blue == 255 ) && ( ( !isAlphaSpecified ) || ( alpha == 255 ) ); }
+            inline bool isBlack() { return ( red == 0 && green == 0 && blue == 0 ) && ( ( !isAlphaSpecified ) || ( alpha == 255 ) ); }
             ColorData()
             : red{ 255 }
             , green{ 255 }
-- 
2.43.0


From 92fd08b25263f31cff4e05fd941ad6b828ddc8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 92/99] fix: a notehead-text keeps its last child

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index c9ef69f..93d7216 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -68,7 +68,10 @@ namespace mx
         {
             if ( value != myNoteheadTextChoiceSet.cend() )
             {
-                myNoteheadTextChoiceSet.erase( value );
+                if ( myNoteheadTextChoiceSet.size() > 1 )
+                {
+                    myNoteheadTextChoiceSet.erase( value );
+                }
             }
         }
         
-- 
2.43.0


From da5666707d79415fe9b14d4ff30b3a8dc23c79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 93/99] fix: a time keeps its last time signature

---
 Sourcecode/private/mx/core/elements/TimeChoice.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/TimeChoice.cpp b/Sourcecode/private/mx/core/elements/TimeChoice.cpp
index 59fa17a..8fd2234 100644
--- a/Sourcecode/private/mx/core/elements/TimeChoice.cpp
+++ b/Sourcecode/private/mx/core/elements/TimeChoice.cpp
@@ -94,7 +94,10 @@ namespace mx
         {
             if ( value != myTimeSignatureGroupSet.cend() )
             {
-                myTimeSignatureGroupSet.erase( value );
+                if ( myTimeSignatureGroupSet.size() > 1 )
+                {
+                    myTimeSignatureGroupSet.erase( value );
+                }
             }
         }
         
-- 
2.43.0


From 0eb902101e67b1f646664255e188fb54483920cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 94/99] fix: a timewise measure keeps its last part

---
 Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
index bd546f5..ac06009 100644
--- a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
+++ b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
@@ -98,7 +98,10 @@ namespace mx
         {
             if ( value != myTimewisePartSet.cend() )
             {
-                myTimewisePartSet.erase( value );
+                if ( myTimewisePartSet.size() > 1 )
+                {
+                    myTimewisePartSet.erase( value );
+                }
             }
         }
 
@@ -106,6 +109,7 @@ namespace mx
         void TimewiseMeasure::clearTimewisePartSet()
         {
             myTimewisePartSet.clear();
+            myTimewisePartSet.push_back( makeTimewisePart() );
         }
 
 
-- 
2.43.0


From 164dd4ae96ee0dcee46651e19b864a883adeccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 95/99] fix: Time::setTimeChoice ignores nullptr

---
 Sourcecode/private/mx/core/elements/Time.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Time.cpp b/Sourcecode/private/mx/core/elements/Time.cpp
index ebb7e62..74a2940 100644
--- a/Sourcecode/private/mx/core/elements/Time.cpp
+++ b/Sourcecode/private/mx/core/elements/Time.cpp
@@ -77,7 +77,10 @@ namespace mx
 
         void Time::setTimeChoice( const TimeChoicePtr& value )
         {
-            myChoice = value;
+            if ( value )
+            {
+                myChoice = value;
+            }
         }
 
 
-- 
2.43.0


From 2c72105d38d91d3123813ba8130b37a6c54be729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 96/99] fix: setNoteRelationNote ignores nullptr

---
 .../mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
index 6dee9d5..5f61084 100644
--- a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
+++ b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
@@ -100,7 +100,10 @@ namespace mx
 
         void BeatUnitPerOrNoteRelationNoteChoice::setNoteRelationNote( const NoteRelationNotePtr& value )
         {
-            myNoteRelationNote = value;
+            if ( value )
+            {
+                myNoteRelationNote = value;
+            }
         }
 
 
-- 
2.43.0


From e65475ec09292634da4722ac109e5b79e8861b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 97/99] fix: CurvePoints::isSpecified sees relative positions
 and placement

---
 Sourcecode/include/mx/api/CurveData.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sourcecode/include/mx/api/CurveData.h b/Sourcecode/include/mx/api/CurveData.h
index 7bed4ad..fbd03a8 100644
--- a/Sourcecode/include/mx/api/CurveData.h
+++ b/Sourcecode/include/mx/api/CurveData.h
@@ -79,6 +79,9 @@ namespace mx
             {
                 return positionData.isDefaultXSpecified
                 || positionData.isDefaultYSpecified
+                || positionData.isRelativeXSpecified
+                || positionData.isRelativeYSpecified
+                || positionData.placement != Placement::unspecified
                 || isBezierXSpecified
                 || isBezierYSpecified
                 || isBezierOffsetSpecified;
-- 
2.43.0


From a837b30ad7592eaabed616671f5f4a877fe168ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 98/99] fix: damp-all is not a rehearsal mark

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 787e827..75136d8 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -293,7 +293,7 @@ namespace mx
                 }
                 case core::DirectionType::Choice::dampAll:
                 {
-                    parseRehearsal( directionType );
+                    parseDampAll( directionType );
                     break;
                 }
                 case core::DirectionType::Choice::eyeglasses:
-- 
2.43.0


From 19c158368ddb5f057ab9fcb49cbc94794c506a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:07 +0000
Subject: [PATCH 99/99] fix: read and write numbers in the classic locale
 whatever the global one is

---
 Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp | 4 ++--
 Sourcecode/private/mx/core/Date.cpp                           | 2 +-
 Sourcecode/private/mx/core/Decimals.cpp                       | 4 +++-
 Sourcecode/private/mx/core/Integers.cpp                       | 4 +++-
 Sourcecode/private/mx/impl/PartWriter.cpp                     | 2 +-
 5 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index a7c62c9..0b2dc94 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -117,7 +117,7 @@ namespace mx
             {
                 if( isfirst )
                 {
-                    os << x;
+                    os << std::to_string( x );
                     isfirst = false;
                 }
                 else
@@ -127,7 +127,7 @@ namespace mx
                     {
                         os << " ";
                     }
-                    os << x;
+                    os << std::to_string( x );
                 }
             }
             return os;
diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index 7b685ff..57200ce 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -12,7 +12,7 @@ namespace
     {
         char prev_fillch = os.fill ('0');
         std::streamsize prev_width = os.width( width );
-        os << value;
+        os << std::to_string( value );
         os.fill( prev_fillch );
         os.width( prev_width );
         return os;
diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 148b329..dab0d0c 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -10,6 +10,7 @@
 
 // std
 #include <cmath>
+#include <locale>
 #include <sstream>
 
 namespace mx
@@ -135,7 +136,7 @@ namespace mx
                 os << "-";
             }
 
-            os << myInteger;
+            os << std::to_string( myInteger );
 
             if( myDecimal == 0 )
             {
@@ -310,6 +311,7 @@ namespace mx
         bool Decimal::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.imbue( std::locale::classic() );
             DecimalType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
diff --git a/Sourcecode/private/mx/core/Integers.cpp b/Sourcecode/private/mx/core/Integers.cpp
index c13b327..57f4799 100644
--- a/Sourcecode/private/mx/core/Integers.cpp
+++ b/Sourcecode/private/mx/core/Integers.cpp
@@ -6,6 +6,7 @@
 #include "mx/core/Integers.h"
 
 // std
+#include <locale>
 #include <sstream>
 
 namespace mx
@@ -37,6 +38,7 @@ namespace mx
         bool Integer::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.imbue( std::locale::classic() );
             IntType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
@@ -55,7 +57,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const Integer& value )
         {
-            return os << value.getValue();
+            return os << std::to_string( value.getValue() );
         }
 
 
diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index e8187cd..f32c4d2 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -233,7 +233,7 @@ namespace mx
                 {
                     std::stringstream ss;
                     ss << "ID";
-                    ss << api::DocumentManager::getInstance().getUniqueId();
+                    ss << std::to_string( api::DocumentManager::getInstance().getUniqueId() );
                     scoreIntstrument->getAttributes()->id = core::XsID{ ss.str() };
                     midiInstrument.getAttributes()->id = core::XsID{ ss.str() };
                 }
-- 
2.43.0

