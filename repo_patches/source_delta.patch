From 02fe1e805bce79a8602ce761fb9a43d6f46aed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:22 +0000
Subject: [PATCH 01/72] fix: keep the TPC parameters alive when the same object
 is registered again

GearMgrImpl::setTPCParameters deleted the object before storing the very same pointer.
---
 src/gearimpl/GearMgrImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index d7cb6a2..0e76778 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -406,7 +406,8 @@ namespace gear{
   
   void GearMgrImpl::setTPCParameters( TPCParameters* tpcParameters ) {
     
-    if(  _tpcParameters ) 
+    // the same object may be set again - don't delete it in that case
+    if(  _tpcParameters && _tpcParameters != tpcParameters ) 
       delete _tpcParameters ;
 
     _tpcParameters = tpcParameters ;
-- 
2.43.0


From f2eba78e7c7f30b230a91bbeeebe0f19190b2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 02/72] fix: keep a parameter section alive when the same
 object is registered again

GearMgrImpl::setGearParameters deleted the object before storing the very same pointer.
---
 src/gearimpl/GearMgrImpl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index 0e76778..a076b41 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -392,7 +392,9 @@ namespace gear{
 
     if( it != _map.end() ) {
       
-      delete it->second ;
+      // the same object may be set again - don't delete it in that case
+      if( it->second != parameters )
+	delete it->second ;
       it->second = parameters ;
       
     } else {
-- 
2.43.0


From 7af7fb20fa2e4b78a95aff3cd2530577b3179683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 03/72] fix: keep the whole text of string parameters when
 reading XML

---
 src/gearxml/GearParametersXML.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index e04a9a8..d2aca09 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -265,7 +265,11 @@ namespace gear {
 	
       } else if( type == "string" ){
 	
-	gearParams->setStringVal( name ,  stringValues[0]    )   ;
+	// keep the whole text, only blanks around it are not part of the value
+	std::string::size_type first = value.find_first_not_of( ' ' ) ;
+	std::string::size_type last  = value.find_last_not_of( ' ' ) ;
+
+	gearParams->setStringVal( name ,  value.substr( first , last - first + 1 )    )   ;
 	
       } else if( type == "IntVec" ){
 
-- 
2.43.0


From 2b26d086bc17ad8ab928e4fc30cc8c9dcb9788b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 04/72] fix: do not write behind the end of the FTD petal frame
 vector

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 6535cc9..28f236f 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -259,8 +259,7 @@ std::vector<vframe> FTDLayerLayoutImpl::getframe( const Layer & l )
 	double sigma = atan( l.width/((l.lengthMax-l.lengthMin)/2.0) );
 	vframe e3(0.0,cos(sigma),sin(sigma));
 
-	std::vector<vframe> fr;
-	fr.reserve(3);
+	std::vector<vframe> fr(3);
 	fr[0] = e1;
 	fr[1] = e2;
 	fr[2] = e3;
-- 
2.43.0


From d98214c3af586f00bdd996118a589d31c249048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 05/72] fix: map the index of mirrored FTD disks for any number
 of disks

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 28f236f..57edaf0 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -71,14 +71,14 @@ namespace gear
 }
 
 
-// Correct the index of the layer in order to return a value < 7
+// Correct the index of the layer in order to return a value < N
 // (layers symmetric in z)
 int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 {
 //FIXME: TO DEBUG!!
 	int correctedId = -1;
 	// Using the index of the vectors 0->2N-1
-	if( layerIndex > 6)
+	if( layerIndex >= getNLayers() )
 	{
 		correctedId = layerIndex-getNLayers();
 	}
@@ -91,7 +91,7 @@ int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 	{
 		std::cout << "The disk layer introduced is not in the right format. Use the description:\n " <<
 			"Z-Positives disks: 0,1,...,N-1\n " <<
-			"Z-negatives disks: 7,8,...,2N-1\n" << std::endl;
+			"Z-negatives disks: N,N+1,...,2N-1\n" << std::endl;
 	}
 
 	return correctedId;
-- 
2.43.0


From 0ae22ac87948636f4f068752a422855f53be98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 06/72] fix: answer maximum radius, start phi and thickness of
 FTD for the mirrored disks too

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 57edaf0..93f62e2 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -171,11 +171,11 @@ double FTDLayerLayoutImpl::getMaxRadius(const int & layerIndex, const bool & sen
 	Layer l ;
 	if(!sensitive) 
 	{
-		l = _lVec.at( layerIndex );
+		l = _lVec.at( getEquivLayer(layerIndex) );
 	}
 	else 
 	{
-		l = _sVec.at( layerIndex );
+		l = _sVec.at( getEquivLayer(layerIndex) );
 	}
 	
 	return l.rInner+l.width;
@@ -188,10 +188,10 @@ double FTDLayerLayoutImpl::getMaxRadius(const int & layerIndex, const bool & sen
 	Layer l ;
 	if ( !sensitive ) 
 	{
-		l = _lVec.at( layerIndex ) ;
+		l = _lVec.at( getEquivLayer(layerIndex) ) ;
 	}
 	else {
-		l = _sVec.at( layerIndex ) ;
+		l = _sVec.at( getEquivLayer(layerIndex) ) ;
 	}
 
 	const double endphi = 0.0; // FIXME: PROV getPhiPetalCd(layerIndex,petalIndex,sensitive);
@@ -214,10 +214,10 @@ double FTDLayerLayoutImpl::getThicknessForAngle(const int & layerIndex,const dou
 {
 	Layer l ;
 	if (!sensitive) {
-		l = _lVec.at( layerIndex ) ;
+		l = _lVec.at( getEquivLayer(layerIndex) ) ;
 	}
 	else {
-		l = _sVec.at( layerIndex ) ;
+		l = _sVec.at( getEquivLayer(layerIndex) ) ;
 	}
 	
 	double angularThickness ;
-- 
2.43.0


From b987de8dedfa684265f7249ad350208bd30ccbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 07/72] fix: write the sensor rotations and x/y resolutions of
 silicon planes to XML

---
 src/gearxml/SiPlanesParametersXML.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index bc5730f..f8ebbd5 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -133,6 +133,9 @@ namespace gear {
       sens.SetDoubleAttribute( "positionX" , siplanesLayers.getSensitivePositionX( i ) ) ;
       sens.SetDoubleAttribute( "positionY" , siplanesLayers.getSensitivePositionY( i ) ) ;
       sens.SetDoubleAttribute( "positionZ" , siplanesLayers.getSensitivePositionZ( i ) ) ;
+      sens.SetDoubleAttribute( "rotationXY" , siplanesLayers.getSensitiveRotationXY( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZX" , siplanesLayers.getSensitiveRotationZX( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZY" , siplanesLayers.getSensitiveRotationZY( i ) ) ;
       sens.SetDoubleAttribute( "sizeX" , siplanesLayers.getSensitiveSizeX( i ) ) ;
       sens.SetDoubleAttribute( "sizeY" , siplanesLayers.getSensitiveSizeY( i ) ) ;
       sens.SetDoubleAttribute( "thickness" , siplanesLayers.getSensitiveThickness( i ) ) ;
@@ -141,6 +144,8 @@ namespace gear {
       sens.SetDoubleAttribute( "pitchX" , siplanesLayers.getSensitivePitchX( i ) ) ;
       sens.SetDoubleAttribute( "pitchY" , siplanesLayers.getSensitivePitchY( i ) ) ;
       sens.SetDoubleAttribute( "resolution" , siplanesLayers.getSensitiveResolution( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionX" , siplanesLayers.getSensitiveResolutionX( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionY" , siplanesLayers.getSensitiveResolutionY( i ) ) ;
       sens.SetDoubleAttribute( "rotation1" , siplanesLayers.getSensitiveRotation1( i ) ) ;
       sens.SetDoubleAttribute( "rotation2" , siplanesLayers.getSensitiveRotation2( i ) ) ;
       sens.SetDoubleAttribute( "rotation3" , siplanesLayers.getSensitiveRotation3( i ) ) ;
-- 
2.43.0


From 3a9ec3748b951cc447e6a5c5a5c06031218413ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 08/72] fix: write tracker planes layers where the reader looks
 for them, with their ID and info

---
 src/gearxml/TrackerPlanesParametersXML.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 9aca3ba..1dfa77e 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -60,6 +60,9 @@ namespace gear {
       TrackerPlanesLayerImpl* layer = const_cast<gear::TrackerPlanesLayerImpl*  > (trackerplanesLayerLayout.getLayer(il));
       if( layer == 0 ) continue;
 
+      xmlLayer.SetAttribute( "ID" , layer->getID() ) ;
+      xmlLayer.SetAttribute( "info" , layer->getInfo() ) ;
+
       TrackerPlanesMaterialLayerImplVec& material = layer->getMaterialLayerVec();
 
       TrackerPlanesSensitiveLayerImplVec& sensitive = layer->getSensitiveLayerVec();
@@ -111,9 +114,11 @@ namespace gear {
            xmlLayer.InsertEndChild( xmlSensor ) ;
        }
 
-      det.InsertEndChild( xmlLayer ) ;
+      layers.InsertEndChild( xmlLayer ) ;
     }
 
+    det.InsertEndChild( layers ) ;
+
     // Assemble Detector
     GearParametersXML::getXMLForParameters( &det , &parameters ) ;
 
-- 
2.43.0


From 2468e2237463ae6c2da587f243c65bde5410fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 09/72] fix: keep the layout type of tracker planes in XML

---
 src/gearxml/TrackerPlanesParametersXML.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 1dfa77e..6f15fd5 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -45,6 +45,10 @@ namespace gear {
     det.InsertEndChild( setup_id ) ;
 
 
+    TiXmlElement layout_type( "LayoutType" ) ;
+    layout_type.SetAttribute("type", param->getLayoutType()) ;
+    det.InsertEndChild( layout_type ) ;
+
     TiXmlElement nplanes( "LayoutNumberOfLayers" ) ;
     nplanes.SetAttribute("number", param->getLayoutNumberOfLayers()) ;
     det.InsertEndChild( nplanes ) ;
@@ -134,6 +138,12 @@ namespace gear {
     int setupID = atoi( getXMLAttribute( trackerplanesID , "ID" ).c_str() ) ;
 
     int intType = 0;
+
+    // optional, not present in older files
+    const TiXmlElement* trackerplanesType = xmlElement->FirstChildElement( "LayoutType" ) ;
+    if( trackerplanesType != 0 ) {
+      intType = atoi( getXMLAttribute( trackerplanesType , "type" ).c_str() ) ;
+    }
  
     const TiXmlElement* trackerplanesNumber = xmlElement->FirstChildElement( "LayoutNumberOfLayers" ) ;
     int nplanes = atoi( getXMLAttribute( trackerplanesNumber , "number" ).c_str() ) ;
-- 
2.43.0


From 4b59dee0b1c36a09f791a22c7517585a0bd87810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:44 +0000
Subject: [PATCH 10/72] fix: write the number of pads of a fixed pad angle
 layout under the name the reader expects

---
 src/gearxml/FixedPadAngleDiskLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/FixedPadAngleDiskLayoutXML.cc b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
index 44d6fd0..e52f54b 100644
--- a/src/gearxml/FixedPadAngleDiskLayoutXML.cc
+++ b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
@@ -40,7 +40,7 @@ namespace gear {
     
     padRowLayout2DXML.SetDoubleAttribute("phiMax", (fixedPadLayout->getPlaneExtent())[3]);
     
-    padRowLayout2DXML.SetAttribute("nPadInRow",fixedPadLayout->getNPadsInRow());
+    padRowLayout2DXML.SetAttribute("nPadsInRow",fixedPadLayout->getNPadsInRow());
     
     return padRowLayout2DXML ;
   }
-- 
2.43.0


From 86acd637e68a72c89815252ae8d5b681851ccc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:44 +0000
Subject: [PATCH 11/72] fix: write the repeat count of a rectangular pad layout
 under the name the reader expects

---
 src/gearxml/RectangularPadRowLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 5f9f91a..470f8a6 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -32,7 +32,7 @@ namespace gear {
     int repeatRowCount =  rectangularPadLayout->getRepeatRowCount() ;
 
     if( repeatRowCount > 1 )
-      padRowLayout2DXML.SetDoubleAttribute( "RepeatRows", repeatRowCount );
+      padRowLayout2DXML.SetAttribute( "repeatRows", repeatRowCount );
 
 
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
-- 
2.43.0


From 123eb9f1ef28973d124646df542b82bb05c8b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:44 +0000
Subject: [PATCH 12/72] fix: write and read versatile disk layout rows with
 pitch, width and offset in mm

---
 src/gearxml/VersatileDiskRowLayoutXML.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 26a5efc..8ef4d9d 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -38,12 +38,11 @@ namespace gear {
 	TiXmlElement rowElement("row");
     
 	rowElement.SetAttribute("nPad", rowIter->getNPads() ) ;
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
+	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch_mm() ) ; 
 	rowElement.SetDoubleAttribute("rowHeight", rowIter->getRowHeight() ) ; 
-	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth() ) ; 
+	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth_mm() ) ; 
 	rowElement.SetDoubleAttribute("padHeight", rowIter->getPadHeight() ) ;
-	rowElement.SetDoubleAttribute("offset", rowIter->getOffset() ) ;
+	rowElement.SetDoubleAttribute("offset", rowIter->getOffset_mm() ) ;
 
 	padRowLayout2DXML.InsertEndChild( rowElement ) ;	
     }
@@ -65,7 +64,7 @@ namespace gear {
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
 	  double rowHeight =  atof(  getXMLAttribute( xmlRow , "rowHeight" ) .c_str() ) ;
 
-	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidtht" , "0.0" ).c_str() ) ;
+	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidth" , "0.0" ).c_str() ) ;
 	  double padHeight = atof(  getOptionalXMLAttribute( xmlRow , "padHeight" , "0.0" ).c_str() ) ;
 	  double offset    = atof(  getOptionalXMLAttribute( xmlRow , "offset"    , "0.0" ).c_str() ) ;
 	  int    repeat    = atoi(  getOptionalXMLAttribute( xmlRow , "repeat"    , "1" ).c_str() ) ;
-- 
2.43.0


From ba588b056be3b7e54c6a4da002f2eb2658ba7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:44 +0000
Subject: [PATCH 13/72] fix: read the readout frequency of a TPC module as a
 real number

---
 src/gearxml/TPCModuleXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/TPCModuleXML.cc b/src/gearxml/TPCModuleXML.cc
index 2ff34ba..b9e9061 100644
--- a/src/gearxml/TPCModuleXML.cc
+++ b/src/gearxml/TPCModuleXML.cc
@@ -99,7 +99,7 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
     {
 	throw ParseException("TPCModuleXML: No readoutFrequency in TPCModule" ) ;
     }
-    double 	readoutFrequency = atoi( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
+    double 	readoutFrequency = atof( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
     
     // get the pad layout
     const TiXmlElement* padLayoutElement = moduleElement->FirstChildElement( "PadRowLayout2D" );
-- 
2.43.0


From 48609dfbcfff40068f25328e508d4f92b4c5cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:44 +0000
Subject: [PATCH 14/72] fix: read the drift velocity of a modular TPC

---
 src/gearxml/TPCParametersXML.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 9f02c92..8f3b39c 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -143,6 +143,9 @@ namespace gear {
         // create the modular TPC
         modularTPC = new TPCParametersImpl( maxDriftLength ,coordinateType ) ;
 
+	// the drift velocity is optional in the modular syntax
+	modularTPC->setDriftVelocity( atof( getOptionalChildElementValue( xmlElement, "driftVelocity", "0." ).c_str() )) ;
+
 	// try to find a default module
 //	const TiXmlElement* defaultModuleElement = xmlElement->FirstChildElement("default");
 //	// no need to check whether the default module was found, the module parser can run without
-- 
2.43.0


From 6b983cedb65e175d1b5d38123ae7252bbd4ff013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 15/72] fix: recompute the extents of a TPC module when its z
 position changes

---
 src/gearimpl/TPCModuleImpl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 0c07290..91a79f3 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1507,6 +1507,12 @@ namespace gear {
     {
       _zPosition = z;
       _zPositionIsSet = true;
+      // the half of the TPC decides on the mirroring: recalculate the plane extents
+      checkLocalIsGlobal();
+      // (there is no extent for cartesian pads in a polar TPC, which is not implemented)
+      if ( _momsCoordinateType == PadRowLayout2D::CARTESIAN ||
+	   _padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR )
+	convertLocalPlaneToGlobalPlaneExtend();
     }
 
     void TPCModuleImpl::setAngle(double angle)
-- 
2.43.0


From b407361d691b76a9869de5978b1e66b0c5df09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 16/72] fix: let every repeated row of a versatile disk layout
 enlarge its extent

---
 src/gearimpl/VersatileDiskRowLayout.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 1e8c11f..3509514 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -85,14 +85,16 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 			     padWidth, padHeight, offset ) ); 
 	_padIndices.push_back( 0 );
 	rCentre += rowHeight;
+
+	// every row can enlarge the plane extent
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
+	    _extent[2] = _rows.back().getPhiMin();
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
+	    _extent[3] = _rows.back().getPhiMax();
     }
 
     // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-	_extent[2] = _rows.back().getPhiMin();
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
-	_extent[3] = _rows.back().getPhiMax();
     
     if ( (_extent[3] - _extent[2]) > 2*M_PI )
     {
-- 
2.43.0


From da14cc70f3b7ef85008125aa62054e97eee9d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 17/72] fix: write every row of a rectangular pad layout whose
 rows are repeated

---
 src/gearxml/RectangularPadRowLayoutXML.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 470f8a6..79b3fd7 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -29,22 +29,12 @@ namespace gear {
     padRowLayout2DXML.SetDoubleAttribute( "xMax", rectangularPadLayout->getPlaneExtent()[1] );
     padRowLayout2DXML.SetDoubleAttribute( "yMin", rectangularPadLayout->getPlaneExtent()[2] );
 
-    int repeatRowCount =  rectangularPadLayout->getRepeatRowCount() ;
-
-    if( repeatRowCount > 1 )
-      padRowLayout2DXML.SetAttribute( "repeatRows", repeatRowCount );
-
-
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
     int theRow = 0 ;
 
+    // this includes the rows added by repeatRows() and thereafter
     int rowNum  = rowNumbers.size() ; 
     
-    if( repeatRowCount > 1  ) 
-      rowNum /=  repeatRowCount ;
-
-    
-    
     for(int i=0 ; i< rowNum ; ++i){
       
       TiXmlElement rowElement("row");    
-- 
2.43.0


From 403ff0d0df41199839e9e967e793a09ead81e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:25 +0000
Subject: [PATCH 18/72] fix: keep the angular range of a rotated full circle
 TPC module

---
 src/gearimpl/TPCModuleImpl.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 91a79f3..0e91c2f 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -465,17 +465,15 @@ namespace gear {
 	// first check if the two origins are identical (to avoid divide by zero)
 	if (_offset[0]==0) // r is 0, no offset
 	{
-	    double phiMin = std::numeric_limits<double>::max();
-		double phiMax = std::numeric_limits<double>::min();
+	    double phiMin;
+	    double phiMax;
 
 	    if ( _zPosition > 0 )
 	    {
-	      phiMin = localExtent[2] + _angle;
 	      phiMax = localExtent[3] + _angle;
 	    }
 	    else // Negative half TPC, the angles are flipped at the y axis.
 	    {    // This means the phi_minus is pi -  phi_minus and max and min are exchanged
-	      phiMin = M_PI - localExtent[3] - _angle;
 	      phiMax = M_PI - localExtent[2] - _angle;
 	    }
 
@@ -483,9 +481,9 @@ namespace gear {
 	    while (phiMax > 2*M_PI)  phiMax -= 2*M_PI;
 	    while (phiMax <  0     )  phiMax += 2*M_PI;
 	    
-	    // force phiMin to be smaller than phiMax, but max 
-	    while ( phiMin > phiMax          )  phiMin -= 2*M_PI;
-	    while ( phiMin < phiMax - 2*M_PI )  phiMin += 2*M_PI;
+	    // phiMin is smaller than phiMax by the (unchanged) angular range. Do not wrap it 
+	    // separately: a full circle would collapse due to rounding errors
+	    phiMin = phiMax - ( localExtent[3] - localExtent[2] );
 
 	    std::vector<double> globalExtent;
 	    globalExtent.push_back(localExtent[0]);
-- 
2.43.0


From 114ed3d536f7f9aad4ee437b24e6c4a437f9f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:47 +0000
Subject: [PATCH 19/72] fix: do not shrink a TPC module whose border closes the
 circle

---
 src/gearimpl/TPCModuleImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 0e91c2f..3f17398 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -231,7 +231,8 @@ namespace gear {
 		    if (phiMax - phiMin > 2*M_PI)
 		    {
 			// the border should be half of the gap between the pad layout edged
-			phiBorder = (2*M_PI - phiMax + phiMin)/2.;
+			phiBorder = ( 2*M_PI - ( _padRowLayout->getPlaneExtent()[3] 
+						 - _padRowLayout->getPlaneExtent()[2] ) )/2.;
 			phiMin = _padRowLayout->getPlaneExtent()[2] - phiBorder;
 			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
 		    }
-- 
2.43.0


From 64fd00abb4c2fdb8fb0de9a3c66c48fb29e540a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:47 +0000
Subject: [PATCH 20/72] fix: no division by zero for the border of a TPC module
 which starts at radius 0

---
 src/gearimpl/TPCModuleImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 3f17398..981c5ac 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -213,7 +213,7 @@ namespace gear {
 		
 		    // first calculate the angle which corresponds to the border
 		    double phiBorder;
-		    if (_padRowLayout->getPlaneExtent()[1] > 0) // inner radius of pad plane > 0
+		    if (_padRowLayout->getPlaneExtent()[0] > 0) // inner radius of pad plane > 0
 			                                        // to avoid divide by 0
 		    {
 			//phiBorder = _border/_padRowLayout->getPlaneExtent()[1] * 2. *M_PI;
-- 
2.43.0


From d266852e8840b5f22dfb6597f23d8483fb524e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:12 +0000
Subject: [PATCH 21/72] fix: leave the number format of the stream as it was
 when printing a material

---
 src/gearimpl/Util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index ca96647..8383d29 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -220,6 +220,7 @@ namespace gear{
   std::ostream& operator<< (  std::ostream& s, const  SimpleMaterial& m ) {
 
     const std::streamsize old_precision = s.precision(); // save current
+    const std::ios_base::fmtflags old_flags = s.flags();
     
     s << "    " << m.getName() 
       <<  std::showpos << std::scientific << std::setprecision(8) 
@@ -228,9 +229,11 @@ namespace gear{
       << ", density [kg/m3]= "         << m.getDensity() 
       << ", radiation length [mm]= "   << m.getRadLength() 
       << ", interaction length [mm]= " << m.getIntLength() 
-      <<  std::noshowpos << std::fixed << std::setprecision(old_precision) << std::dec
       << std::endl ;
 
+    s.flags( old_flags ) ; // do not change the format of what is printed next
+    s.precision( old_precision ) ;
+
     return s ;
   }
 
-- 
2.43.0


From bb746b147c948d2a9283a7a150a93022fa5c581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:23 +0000
Subject: [PATCH 22/72] fix: print a title only for what is registered, and SIT
 and SET once

---
 src/gearimpl/Util.cc | 69 +++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index 8383d29..87570a7 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -61,116 +61,125 @@ namespace gear{
     }
 
 
+    // get the parameters first: nothing is printed for what is not there
     try{ 
       // VXD parameters
+      const ZPlanarParameters& p = m.getVXDParameters() ;
       s << "   ----  VXD    ---- "  <<  std::endl
-	<<  m.getVXDParameters() <<  std::endl  ;
+	<<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
 
     try{ 
       // FTD parameters
-      s <<  m.getFTDParameters() <<  std::endl  ;
+      const FTDParameters& p = m.getFTDParameters() ;
+      s <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     try{ 
       // SIT parameters
+      const ZPlanarParameters& p = m.getSITParameters() ;
       s << "   ----  SIT    ---- "  <<  std::endl
-	<<  m.getSITParameters() <<  std::endl  ;
+	<<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
 
 
     try{ 
       // SET parameters
+      const ZPlanarParameters& p = m.getSETParameters() ;
       s << "   ----  SET    ---- "  <<  std::endl
-	<<  m.getSETParameters() <<  std::endl  ;
+	<<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
 
 
-    try{ 
-      // SIT parameters
-      s <<  m.getSITParameters() <<  std::endl  ;
-    } catch(UnknownParameterException &e){}
-
-
-    try{ 
-      // SET parameters
-      s <<  m.getSETParameters() <<  std::endl  ;
-    } catch(UnknownParameterException &e){}
-
     try{ 
       // TPC parameters
-      s <<  m.getTPCParameters() <<  std::endl  ;
+      const TPCParameters& p = m.getTPCParameters() ;
+      s <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     // Calorimeter parameters
      try{ 
+      const CalorimeterParameters& p = m.getEcalBarrelParameters() ;
       s << "   ----  Ecal barrel    ---- "  << std::endl 
-	<< m.getEcalBarrelParameters() <<  std::endl  ;
+	<< p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     try{ 
+      const CalorimeterParameters& p = m.getEcalEndcapParameters() ;
       s  << "   ----  Ecal endcap   ---- "  << std::endl 
-	 <<  m.getEcalEndcapParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     try{ 
+      const CalorimeterParameters& p = m.getEcalPlugParameters() ;
       s  << "   ----  Ecal plug   ---- "  << std::endl 
-	 <<  m.getEcalPlugParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
 
 	try{ 
+      const CalorimeterParameters& p = m.getYokeBarrelParameters() ;
       s << "   ----  Yoke barrel    ---- "  << std::endl 
-	<< m.getYokeBarrelParameters() <<  std::endl  ;
+	<< p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     try{ 
+      const CalorimeterParameters& p = m.getYokeEndcapParameters() ;
       s  << "   ----  Yoke endcap   ---- "  << std::endl 
-	 <<  m.getYokeEndcapParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     try{ 
+      const CalorimeterParameters& p = m.getYokePlugParameters() ;
       s  << "   ----  Yoke plug   ---- "  << std::endl 
-	 <<  m.getYokePlugParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     try{ 
+      const CalorimeterParameters& p = m.getHcalBarrelParameters() ;
       s  << "   ----  Hcal barrel    ---- "  << std::endl 
-	 <<  m.getHcalBarrelParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
     
     try{ 
+      const CalorimeterParameters& p = m.getHcalEndcapParameters() ;
       s  << "   ----  Hcal endcap    ---- "  << std::endl 
-	 <<  m.getHcalEndcapParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
        
     try{ 
+      const CalorimeterParameters& p = m.getHcalRingParameters() ;
       s  << "   ----  Hcal ring    ---- "  << std::endl 
-	 <<  m.getHcalRingParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
        
     try{ 
+      const CalorimeterParameters& p = m.getLcalParameters() ;
       s  << "   ----  Lcal   ---- "  << std::endl 
-	 <<  m.getLcalParameters() <<  std::endl  ;
+	 <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){ }
 
     try{ 
+        const CalorimeterParameters& p = m.getLHcalParameters() ;
         s  << "   ----  LHcal   ---- "  << std::endl 
-            <<  m.getLHcalParameters() <<  std::endl  ;
+            <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
 
     try{ 
+        const CalorimeterParameters& p = m.getBeamCalParameters() ;
         s  << "   ----  BeamCal   ---- "  << std::endl 
-            <<  m.getBeamCalParameters() <<  std::endl  ;
+            <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}
        
     try{ 
+      const TrackerPlanesParameters& p = m.getTrackerPlanesParameters() ;
       s  << "   ----  TrackerPlanes ---- "  << std::endl 
-         <<  m.getTrackerPlanesParameters() <<  std::endl  ;
+         <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}  
     
     try{ 
+      const SiPlanesParameters& p = m.getSiPlanesParameters() ;
       s  << "   ----  SiPlanes ---- "  << std::endl 
-         <<  m.getSiPlanesParameters() <<  std::endl  ;
+         <<  p <<  std::endl  ;
     } catch(UnknownParameterException &e){}  
 
     //------------------------------------------------------------------
-- 
2.43.0


From 8e3e17f10c10b4b3032b5fcdffd33dffc8788546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:39 +0000
Subject: [PATCH 23/72] fix: print planes with long info texts without
 overrunning the buffer

---
 include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h | 12 +++++++++---
 src/gearimpl/Util.cc                                 |  8 ++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index 5b473d2..c36130c 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -442,12 +442,15 @@ sprintf(buffer,"|------------------|--------------------------------------------
 /** */
 	virtual void PrintLayers( std::ostream& s) const {
 
-            	char buffer[1024] ;
                 const char* a=""; 
 
 		for( TrackerPlanesLayerImplVec::const_iterator it = _layerVec.begin(); it != _layerVec.end(); it++ ) {  
 			TrackerPlanesLayerImpl* layer = const_cast<TrackerPlanesLayerImpl* > (&(*it)) ;
 
+                // room for the info text and the longest numbers
+                std::vector<char> buf( 16384 + layer->getInfo().size() ) ;
+                char* buffer = &buf[0] ;
+
  		sprintf(buffer,"|%3d %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
 			, layer->getID() 
 			, layer->getInfo().c_str()
@@ -461,6 +464,8 @@ sprintf(buffer,"|------------------|--------------------------------------------
                 TrackerPlanesSensitiveLayerImplVec::const_iterator se = layer->getSensitiveLayerVec().end();
 
                 for( TrackerPlanesMaterialLayerImplVec::const_iterator ml = mb ; ml < me; ml++) {
+                  buf.resize( 16384 + (*ml).getInfo().size() ) ;
+                  buffer = &buf[0] ;
       		  sprintf(buffer,"|%3s %14s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
                       , a,a
                       , (*ml).getID() 
@@ -481,6 +486,8 @@ sprintf(buffer,"|------------------|--------------------------------------------
                 }
 	
                 for( TrackerPlanesSensitiveLayerImplVec::const_iterator sl = sb ; sl < se; sl++) {
+        buf.resize( 16384 + (*sl).getInfo().size() ) ;
+        buffer = &buf[0] ;
 	sprintf(buffer,"|%3s %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f`%5d %5d %5.4f %5.4f %5.4f %5.4f|\n"
                       , a,a,   a,a,  a,a,  a,a,  a,a,  a,a,  a,a
  		      , (*sl).getID() 
@@ -506,8 +513,7 @@ sprintf(buffer,"|------------------|--------------------------------------------
 		  s << buffer ;
                   }
                 }
-sprintf(buffer,"|--------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
-      		s << buffer ;
+      		s << "|--------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------|\n" ;
 
 	}
         
diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index 87570a7..fe2f581 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -530,7 +530,7 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
+      char buffer1[16384] ; // holds the longest numbers
       sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 	      , l.getNLadders(i) 
 	      , l.getLadderDistance(i) 
@@ -589,7 +589,7 @@ namespace gear{
 	  
 	  for( int i = 0 ; i < l.getNLayers() ; i++ ) 
 	  {
-		  char buffer1[1024] ;
+		  char buffer1[16384] ; // holds the longest numbers
 		  sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 				  , l.getNPetals(i) 
 				  , l.getSupportLengthMin(i) 
@@ -671,7 +671,7 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
+      char buffer1[16384] ; // holds the longest numbers
       sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%5.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%6.4f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getID(i) 
 	      , l.getLayerPositionX(i) 
@@ -727,7 +727,7 @@ namespace gear{
       sprintf(buffer,"  |----------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
       s << buffer ;
       
-      char buffer1[1024] ;
+      char buffer1[16384] ; // holds the longest numbers
       sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getDUTID() 
 	      , l.getDUTPositionX() 
-- 
2.43.0


From 37774f21928ac5a5097dae8bd69f1cb4112b2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:42 +0000
Subject: [PATCH 24/72] fix: a failed read left an incomplete description
 behind that the next call handed out

---
 src/gearxml/GearXML.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index d2cc492..cbc5788 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -482,6 +482,11 @@ namespace gear{
 
     }
     
+    // forget the incomplete description if reading fails, so that the next call reads again
+    struct Guard {
+      GearMgrImpl*& mgr ; bool complete ;
+      ~Guard() { if( ! complete ) { delete mgr ; mgr = 0 ; } }
+    } guard = { _gearMgr , false } ;
     
     // parse the XML file
     
@@ -641,6 +646,8 @@ namespace gear{
 
 
 
+    guard.complete = true ;
+
     return _gearMgr ;
   }
   
-- 
2.43.0


From 229b1020a26e1bef96112ee6c80b20e2ea636530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:00 +0000
Subject: [PATCH 25/72] fix: reading a detector with a missing mandatory
 element crashed instead of reporting it

---
 src/gearxml/FTDParametersXML.cc           | 2 ++
 src/gearxml/SiPlanesParametersXML.cc      | 4 ++++
 src/gearxml/TrackerPlanesParametersXML.cc | 2 ++
 src/gearxml/XMLHandlerMgr.cc              | 6 +++---
 src/gearxml/ZPlanarParametersXML.cc       | 2 ++
 5 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 9d4efcc..b9fb628 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -104,6 +104,8 @@ namespace gear
 		
 		// layers
 		const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+		if( xmlLayers == 0 )
+		  throw ParseException( "FTDParametersXML::fromXML: missing element \"layers\"" ) ;
 		const TiXmlNode* xmlLayer = 0 ;
 		
 		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index f8ebbd5..a0da5f0 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -207,6 +207,8 @@ namespace gear {
 
     if (intType == SiPlanesParameters::TelescopeWithDUT) {
       const TiXmlNode* xmlDUT = xmlElement->FirstChildElement( "dut" ) ;
+      if( xmlDUT == 0 )
+        throw ParseException( "SiPlanesParametersXML::fromXML: missing element \"dut\"" ) ;
       const TiXmlNode* xmlDUTLad = xmlDUT->FirstChildElement( "dut_ladder" ) ;
       const TiXmlNode* xmlDUTSen = xmlDUT->FirstChildElement( "dut_sensitive" ) ;
       
@@ -242,6 +244,8 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 )
+      throw ParseException( "SiPlanesParametersXML::fromXML: missing element \"layers\"" ) ;
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 6f15fd5..3061d09 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -154,6 +154,8 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 )
+      throw ParseException( "TrackerPlanesParametersXML::fromXML: missing element \"layers\"" ) ;
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 710c9c1..1a587ad 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -88,7 +88,7 @@ namespace gear{
 
   std::string getXMLAttribute(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
     if( el == 0 ) {
        std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -129,7 +129,7 @@ namespace gear{
 
   std::string getChildElementValue(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
     if( el == 0 ) {
         std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -157,7 +157,7 @@ namespace gear{
 					  const std::string& defaultValue)
   {
       
-      const TiXmlElement* el = node->ToElement() ;
+      const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
       if( el == 0 ) 
 	  throw ParseException("XMLParser::getAttribute not an XMLElement " ) ;
 	
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 3f0d660..ebbe39a 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -167,6 +167,8 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+    if( xmlLayers == 0 )
+      throw ParseException( "ZPlanarParametersXML::fromXML: missing element \"layers\"" ) ;
     const TiXmlNode* xmlLayer = 0 ;
     
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
-- 
2.43.0


From 08b8c0bbda6e84100cec9f80269c7ee3c7e66362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 26/72] fix: XML that ends early or repeats an attribute was
 accepted with everything behind that point missing

---
 src/gearxml/tinyxmlparser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 311ae5a..5c4b61e 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1082,7 +1082,11 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			++p;
 			p = ReadValue( p, data, encoding );		// Note this is an Element method, and will set the error if one happens.
 			if ( !p || !*p )
+			{
+				// We were looking for the end tag, but the text ends before it.
+				if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
 				return 0;
+			}
 
 			// We should find the end tag now
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
@@ -1122,6 +1126,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			if ( node )
 			{
 				node->SetValue( attrib->Value() );
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
 				delete attrib;
 				return 0;
 			}
-- 
2.43.0


From 7212684b21153a7c9acd03003ab378ed1fe4afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 27/72] fix: merging two files that share a parameter or
 material crashed

---
 src/gearxml/MergeXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f25b50a..7ff7c46 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -162,7 +162,7 @@ namespace gear{
 	  }
  
 	  // start mergeNode for subordniate nodes
-	  if ( hasAttribute(loopNode) && !((loopNode->FirstChild())->ToText()) ) {
+	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
-- 
2.43.0


From 9e051a3ba05fd16d9a72a58ecc24b60fd6d700a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 28/72] fix: merging crashed or lost sections that only one of
 the files has

---
 src/gearxml/MergeXML.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 7ff7c46..78205e6 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -64,19 +64,24 @@ namespace gear{
 
     // go to specified nodes
     TiXmlNode* nodeGear1      = _file1->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobal1    = nodeGear1->FirstChild( global ) ;
-    TiXmlNode* nodeDetectors1 = nodeGear1->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterials1 = nodeGear1->FirstChild( materials ) ;
-    
     TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobalMerged    = nodeGearMerged->FirstChild( global ) ;
-    TiXmlNode* nodeDetectorsMerged = nodeGearMerged->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterialsMerged = nodeGearMerged->FirstChild( materials ) ;
-    
-    // loop through all nodes
-    mergeNode( nodeGlobal1, nodeGlobalMerged ) ;
-    mergeNode( nodeDetectors1, nodeDetectorsMerged ) ;
-    mergeNode( nodeMaterials1, nodeMaterialsMerged ) ;
+
+    // merge the sections both files have, and add those only one file has
+    TiXmlNode* section = 0 ;
+    while (( section = nodeGear1->IterateChildren( section ) )) {
+
+      if( ! section->ToElement() ) continue ;
+
+      const std::string sectionName = section->Value() ;
+      TiXmlNode* sectionMerged = nodeGearMerged->FirstChild( sectionName ) ;
+
+      if( sectionMerged == NULL ) {
+	nodeGearMerged->InsertEndChild( *section ) ;
+      }
+      else if( sectionName == global || sectionName == detectors || sectionName == materials ) {
+	mergeNode( section, sectionMerged ) ;
+      }
+    }
     
     // save file
     return _fileMerged->SaveFile( fileName ) ;
-- 
2.43.0


From 85de843a2c6d04c58bff0c2915ceb35311fbac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 29/72] fix: a second merge with the first file dominant took
 the other file as dominant

---
 include/gear/gearxml/MergeXML.h |  7 -------
 src/gearxml/MergeXML.cc         | 24 +++++++-----------------
 2 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index ec01d9d..9dbc069 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -49,7 +49,6 @@ namespace gear {
     MergeXML() : 
       _file1(NULL),
       _file2(NULL),
-      _fileSwap(NULL),
       _fileMerged(NULL),
       _domFile(2),
       _name(NAME_STR) {
@@ -61,9 +60,6 @@ namespace gear {
     //checks whether file can be read in
     bool checkXML( const std::string& fileName ) ;
 
-    //get files correct: dominant will be _file2 and recessiv will be _file1
-    void correctDominantFile() ;
-
     //compare nodes
     void mergeNode( TiXmlNode* node, TiXmlNode* domNode ) ;
 
@@ -91,9 +87,6 @@ namespace gear {
     //file2
     TiXmlDocument* _file2 ;
 
-    //fileSwap - if dominant changes
-    TiXmlDocument* _fileSwap ;
-
     //fileMerged - final document
     TiXmlDocument* _fileMerged ;
 
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 78205e6..4169ec7 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -22,17 +22,6 @@ namespace gear{
   }
 
 
-  void MergeXML::correctDominantFile() {
-    
-    if ( _domFile == 1 ) {
-      _fileSwap = new TiXmlDocument ;
-      *_fileSwap = *_file1 ;
-      *_file1 = *_file2 ;
-      *_file2 = *_fileSwap ;
-    }
-  }
-
-
   bool MergeXML::mergeFiles (const std::string& fileName) {
 
     // debug information
@@ -44,16 +33,17 @@ namespace gear{
     const std::string detectors = "detectors" ;
     const std::string materials = "materials" ;
 
-    // correct the files for dominancy
-    correctDominantFile() ;
+    // the file that overrules and the one that is overruled
+    TiXmlDocument* fileDom = ( _domFile == 1 ) ? _file1 : _file2 ;
+    TiXmlDocument* fileRec = ( _domFile == 1 ) ? _file2 : _file1 ;
 
     // copy all dominant information in final file
     _fileMerged = new TiXmlDocument( fileName ) ;
-    *_fileMerged = *_file2 ;
+    *_fileMerged = *fileDom ;
     
     // check if files are geartype
-    if ( not ( _file1->FirstChild( gear ) && _fileMerged->FirstChild( gear )
-	       && (_file1->FirstChild( gear ))->FirstChild( detectors ) 
+    if ( not ( fileRec->FirstChild( gear ) && _fileMerged->FirstChild( gear )
+	       && (fileRec->FirstChild( gear ))->FirstChild( detectors ) 
 	       && (_fileMerged->FirstChild( gear ))->FirstChild( detectors )
 	       )) {
       
@@ -63,7 +53,7 @@ namespace gear{
     }
 
     // go to specified nodes
-    TiXmlNode* nodeGear1      = _file1->FirstChild( gear ) ;
+    TiXmlNode* nodeGear1      = fileRec->FirstChild( gear ) ;
     TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
 
     // merge the sections both files have, and add those only one file has
-- 
2.43.0


From b7be3d505de6d3cfacb9d549285b153f1e875a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 30/72] fix: merging without two readable files crashed or
 merged the readable part

---
 src/gearxml/MergeXML.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 4169ec7..55f78b0 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -8,17 +8,29 @@ namespace gear{
 
   bool MergeXML::setFile1( const std::string& fileName ) {
 
+    delete _file1 ;
     _file1 = new TiXmlDocument( fileName ) ;
-    
-    return _file1->LoadFile( fileName ) ;
+
+    if( _file1->LoadFile( fileName ) ) return true ;
+
+    // do not merge what could not be read
+    delete _file1 ;
+    _file1 = NULL ;
+    return false ;
   }
 
 
   bool MergeXML::setFile2( const std::string& fileName ) {
     
+    delete _file2 ;
     _file2 = new TiXmlDocument( fileName ) ;
-    
-    return _file2->LoadFile( fileName ) ;
+
+    if( _file2->LoadFile( fileName ) ) return true ;
+
+    // do not merge what could not be read
+    delete _file2 ;
+    _file2 = NULL ;
+    return false ;
   }
 
 
@@ -37,6 +49,9 @@ namespace gear{
     TiXmlDocument* fileDom = ( _domFile == 1 ) ? _file1 : _file2 ;
     TiXmlDocument* fileRec = ( _domFile == 1 ) ? _file2 : _file1 ;
 
+    // both files are needed
+    if( fileDom == NULL || fileRec == NULL ) return false ;
+
     // copy all dominant information in final file
     _fileMerged = new TiXmlDocument( fileName ) ;
     *_fileMerged = *fileDom ;
-- 
2.43.0


From e04064b39efa769b35c543d5af20722498d31498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:14 +0000
Subject: [PATCH 31/72] fix: a remark that occurs twice made merging fail

---
 src/gearxml/MergeXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 55f78b0..2f56866 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -129,7 +129,7 @@ namespace gear{
 	//std::cout << " counter in rec: " << countRec << "   counter in dom: " << countDom << std::endl ;
 
 	// if multiple occurences and number does not match throw
-	if ( ((countRec > 1) || (countDom >1)) &&  ( countDom != countRec ) ) {
+	if ( loopNode->ToElement() && ((countRec > 1) || (countDom >1)) &&  ( countDom != countRec ) ) {
 
 	    // throw 
 	  std::stringstream s ;
-- 
2.43.0


From 9fc9cd148971ac4533da112132c448781245a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:14 +0000
Subject: [PATCH 32/72] fix: merging overruled a dominant parameter whose value
 is given as text

---
 src/gearxml/MergeXML.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 2f56866..aa95cef 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -310,7 +310,8 @@ namespace gear{
 	// get same attribute in dominant element
 	const char* domAttribute = domElement->Attribute( attName ) ;
 
-	if( domAttribute == NULL ) {
+	// (a dominant value may also be given as text)
+	if( domAttribute == NULL && !( attName == "value" && domElement->FirstChild() ) ) {
 
 	  // add to domElement 
 	  domElement->SetAttribute( attName, loopAttribute->Value() ) ;
-- 
2.43.0


From 2e6efe1edc1e6d7468cebae5a8586926e75ccf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 33/72] fix: getPadIndex accepted negative rows and pads and
 rows of an empty layout

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 8 ++++----
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 8 ++++----
 src/gearimpl/RectangularPadRowLayout.cc | 8 ++++----
 src/gearimpl/VersatileDiskRowLayout.cc  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 33bd24c..478da09 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -188,16 +188,16 @@ namespace gear {
 
   int FixedPadAngleDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-      if( rowNum  > _nRow - 1 )
+      if( rowNum < 0 || rowNum  > _nRow - 1 )
       {
-	  throw std::out_of_range(" FixedPadAngleDiskLayout::getPadIndex row number too large !");
+	  throw std::out_of_range(" FixedPadAngleDiskLayout::getPadIndex row number out of range !");
       }
     
-    if( padNum > _nPadsInRow - 1 ) {
+    if( padNum < 0 || padNum > _nPadsInRow - 1 ) {
       
       std::stringstream sstr ;
       
-      sstr << "FixedPadAngleDiskLayout::getPadIndex: pad number too large: "
+      sstr << "FixedPadAngleDiskLayout::getPadIndex: pad number out of range: "
 	   << padNum << ", only " <<   _nPadsInRow << " pads in row " << rowNum ;
 
       throw std::out_of_range( sstr.str() );
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 7466118..118dd1b 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -237,16 +237,16 @@ namespace gear {
 
   int FixedPadSizeDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
 
-      throw std::out_of_range(" FixedPadSizeDiskLayout::getPadIndex row number too large !");
+      throw std::out_of_range(" FixedPadSizeDiskLayout::getPadIndex row number out of range !");
     }
 
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
 
       std::stringstream sstr ;
 
-      sstr << "FixedPadSizeDiskLayout::getPadIndex: pad number too large: "
+      sstr << "FixedPadSizeDiskLayout::getPadIndex: pad number out of range: "
 	   << padNum << " only " <<   _rows[rowNum].NPad << " pads in row " << rowNum ;
 
       throw std::out_of_range( sstr.str() );
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 4be80a1..ab20cec 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -274,16 +274,16 @@ namespace gear {
   int RectangularPadRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
-      throw std::out_of_range(" RectangularPadRowLayout::getPadIndex row number too large !");
+      throw std::out_of_range(" RectangularPadRowLayout::getPadIndex row number out of range !");
     }
     
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
       
       std::stringstream sstr ;
       
-      sstr << "RectangularPadRowLayout::getPadIndex: pad number too large: "
+      sstr << "RectangularPadRowLayout::getPadIndex: pad number out of range: "
 	   << padNum << " only " <<   _rows[rowNum].NPad << " pads in row " << rowNum ;
 
       throw std::out_of_range( sstr.str() );
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 3509514..fed77b9 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -227,16 +227,16 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   int VersatileDiskRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
-      throw std::out_of_range(" VersatileDiskRowLayout::getPadIndex row number too large !");
+      throw std::out_of_range(" VersatileDiskRowLayout::getPadIndex row number out of range !");
     }
     
-    if( padNum > _rows[rowNum].getNPads() - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].getNPads() - 1 ) {
       
       std::stringstream sstr ;
       
-      sstr << "VersatileDiskRowLayout::getPadIndex: pad number too large: "
+      sstr << "VersatileDiskRowLayout::getPadIndex: pad number out of range: "
 	   << padNum << " only " <<   _rows[rowNum].getNPads() << " pads in row " << rowNum ;
 
       throw std::out_of_range( sstr.str() );
-- 
2.43.0


From b9b8e3c8b7f43aab5980d6c8eca383832f10172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 34/72] fix: copies of a rectangular layout lost the lists of
 pads, self-assignment of a layout left it with freed ones

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 2 ++
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 2 ++
 src/gearimpl/RectangularPadRowLayout.cc | 4 +++-
 src/gearimpl/VersatileDiskRowLayout.cc  | 2 ++
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 478da09..c1880e0 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -114,6 +114,8 @@ namespace gear {
 
   FixedPadAngleDiskLayout & FixedPadAngleDiskLayout::operator = ( const FixedPadAngleDiskLayout & right) 
   {
+      if ( this == &right )
+          return *this;
       cleanup();
       copy_and_assign(right);
       return *this;
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 118dd1b..5f49891 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -125,6 +125,8 @@ namespace gear {
 
   FixedPadSizeDiskLayout & FixedPadSizeDiskLayout::operator = ( const FixedPadSizeDiskLayout & right)
   {
+      if ( this == &right )
+          return *this;
       cleanup();
       copy_and_assign(right);
       return *this;
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index ab20cec..1366f44 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -44,7 +44,7 @@ namespace gear {
       // In every instance, also the copied ones, it is filled only at first
       // usage to save memory
       // just like in the constructor
-      _padIndices.resize( _nRow ) ;
+      _padIndices.resize( _rows.size() ) ;
       for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
 	   rowIter < _padIndices.end(); rowIter++)
       {
@@ -212,6 +212,8 @@ namespace gear {
     
     RectangularPadRowLayout & RectangularPadRowLayout::operator = (const  RectangularPadRowLayout & right)
     {
+	if ( this == &right )
+	    return *this;
 	cleanup();
 	copy_and_assign(right);
 	return *this;
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index fed77b9..7a34e93 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -165,6 +165,8 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     
     VersatileDiskRowLayout & VersatileDiskRowLayout::operator = (const  VersatileDiskRowLayout & right)
     {
+	if ( this == &right )
+	    return *this;
 	cleanup();
 	copy_and_assign(right);
 	return *this;
-- 
2.43.0


From d9839ce21896c6b499a59bf0c9c938f432b567d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 35/72] fix: refused rows were counted in the number of pads

---
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 src/gearimpl/VersatileDiskRowLayout.cc  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 1366f44..07902d8 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -89,8 +89,6 @@ namespace gear {
 
     Row row ; 
 
-    _nPad += abs( nRow ) * abs( nPad )  ;
-    
     row.WidthPerPad = rowWidth / nPad ;
 
     if( rowHeight == 0.0 ) 
@@ -127,6 +125,8 @@ namespace gear {
       _padIndices.push_back( 0 ) ;
     }
 
+    _nPad += abs( nRow ) * abs( nPad )  ;
+
     _nRows.push_back( nRow ) ; // keep track of nRows as they are added
 
   }
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 7a34e93..c764617 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -77,8 +77,6 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
     double rCentre = _extent[1] + rowHeight*0.5;
 
-    _nPad +=  repeat*nPads ;
-
     for (int i = 0; i < repeat; i++)
     {
 	_rows.push_back( Row(_rows.size(), nPads, rCentre, padPitch , rowHeight , 
@@ -93,6 +91,8 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 	    _extent[3] = _rows.back().getPhiMax();
     }
 
+    _nPad +=  repeat*nPads ;
+
     // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
     
-- 
2.43.0


From 048bed9e80e267fdba63a47cd0e80fd890e39b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 36/72] fix: the distance to a pad of a disk layout depended on
 the turn in which phi is given

---
 src/gearimpl/FixedDiskLayoutBase.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index 0bc1124..484d60d 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -26,6 +26,10 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	double r_max = padCenter[0] + getRowHeight( getRowNumber(padIndex) ) /2.;
 	double phi_min = padCenter[1]- getPadPitch( padIndex ) /2.;
 	double phi_max = padCenter[1]+ getPadPitch( padIndex ) /2.;
+
+	// wrap phi to a symmetric range of 2*pi around the center of the pad
+	while( phi < padCenter[1] - M_PI ) {  phi += 2. * M_PI  ; }
+	while( phi > padCenter[1] + M_PI ) {  phi -= 2. * M_PI  ; }
 	
 //      if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 //	  (phi < padCenter[1]- _padAngle/2.)  || (phi < padCenter[1]+_padAngle/2. ) )
-- 
2.43.0


From dd237e645e22e5da02987155f9b48db07a61deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 37/72] fix: FixedPadAngleDiskLayout::getNearestPad failed on
 the upper edge and took the wrong row beside the layout

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index c1880e0..029789d 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -226,6 +226,9 @@ namespace gear {
     {
 	// This is easy, the pad number in the row is the one corresponding to the angle
 	int padNumber = static_cast<int>( (phi - _phiMin) / _padAngle );
+
+	if( padNumber >= _nPadsInRow ) // phi is on the upper edge
+	    padNumber = _nPadsInRow - 1 ;
 	
 	int rowNum = r < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
     
@@ -256,7 +259,7 @@ namespace gear {
 	//    double m_min =  r * (cos(phi)*sin(_phiMin) - sin(phi)*cos(_phiMin));
       
 	// determine the nearest pad on the rightmost edge
-	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r_intersect_min - _rMin ) / _rowHeight  ) ;
 	if( rowNum_right >= _nRow  )       
 	    rowNum_right = _nRow -1 ;
     }
@@ -273,7 +276,7 @@ namespace gear {
 	//    double m_max =  r * (cos(phi)*sin(_phiMax) - sin(phi)*cos(_phiMax));
 
 	// determine the nearest pad on the leftmost edge
-	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r_intersect_max - _rMin ) / _rowHeight  ) ;
 	if( rowNum_left >= _nRow  )       
 	    rowNum_left = _nRow -1 ;
     }
-- 
2.43.0


From 3925ab9054301920805543ac020ffb3277708482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 38/72] fix: FixedPadAngleDiskLayout::isInsidePad depended on
 the turn in which phi is given

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 029789d..7dac181 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -338,6 +338,10 @@ namespace gear {
 //     }
       Vector2D padCenter = getPadCenter( padIndex);
 
+      // wrap phi to a symmetric range of 2*pi around the center of the pad
+      while( phi < padCenter[1] - M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > padCenter[1] + M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 	  (phi < padCenter[1]- _padAngle/2.)  || (phi > padCenter[1]+_padAngle/2. ) )
 	  return false ;
@@ -347,6 +351,12 @@ namespace gear {
 
   bool FixedPadAngleDiskLayout::isInsidePad(double r, double phi) const {
 
+      double phiMean = (_phiMax+_phiMin)/2.;
+
+      // wrap phi to a symmetric range of 2*pi around the mean angle of the module
+      while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > phiMean+M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r < _rMin) || (r > _rMax) || (phi < _phiMin) || (phi > _phiMax) )
 	  return false ;
       else
-- 
2.43.0


From 4fa256d7216c394afcc1c36923fba5a682ec95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:29 +0000
Subject: [PATCH 39/72] fix: FixedPadSizeDiskLayout::getNearestPad took the pad
 on the wrong edge of a partial disk

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 5f49891..866dd46 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -277,8 +277,10 @@ namespace gear {
 	
 	} else {
 	 
-	  while( phi < -2*M_PI       ) {  phi += 2. * M_PI  ; }
-	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+	  // wrap phi to a symmetric range of 2*pi around the mean angle, so that
+	  // a point outside is on the side of the closer edge
+	  while( phi < 0.5*_phiMax - M_PI ) {  phi += 2. * M_PI  ; }
+	  while( phi > 0.5*_phiMax + M_PI ) {  phi -= 2. * M_PI  ; }
 	  
 	  rProjectedOnPhiMax = r * cos(phi - _phiMax);
 	  rProjectedOnPhiMin = r * cos(phi - 0.);
-- 
2.43.0


From 0c53b3f003731e94d8e3dc71226118059ec63178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 40/72] fix: RectangularPadRowLayout::getNearestPad could loop
 forever, read outside of the rows and miss the nearest pad

---
 src/gearimpl/RectangularPadRowLayout.cc | 131 ++++++++----------------
 1 file changed, 45 insertions(+), 86 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 07902d8..aea27d3 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -358,99 +358,58 @@ int RectangularPadRowLayout::getNearestPadOld(double x, double y) const {
 
 int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 
-    //  move from outside of pad plane to edge of pad plane
-    if(  x < _extent[0] ) x =  _extent[0] ;
-    if(  x > _extent[1] ) x =  _extent[1] ;
-    if(  y < _extent[2] ) y =  _extent[2] ;
-    if(  y > _extent[3] ) y =  _extent[3] ;
+    const int nRows = _rows.size() ;
 
-	// make a best guess at the starting row by assuming all rows are the same height
-    int row_number = (int)( round( (_rows.size() - 1) * (y - _extent[2]) / (_extent[3] - _extent[2]) ) );
-
-    // do a binary search for the nearest row
-	while( true ) {
-
-		const Row &row = _rows[row_number];
-		const double y_displacement = y - row.Center;
-		
-		//std::cout << "Checking row " << row_number << ", centre: " << row.Center << ", displacement: " << y_displacement << "mm" << std::endl;
-
-		if( fabs(y_displacement) <= (row.PadHeight/2) ) {
-
-			// this is the correct row
-			break;
-		}
-		else if( fabs(y_displacement) <= (row.Height/2) ) {
-			
-			// check the next row of pads, it could be closer to them then this row
-			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
-			const Row &next_row = _rows[next_row_number];
-
-			const double y_distance_from_pads = fabs(y_displacement) - (row.PadHeight/2);
-			const double y_distance_from_next_pads = fabs(y - next_row.Center) - (next_row.PadHeight/2);
-
-			row_number = (y_distance_from_next_pads < y_distance_from_pads)? next_row_number: row_number;
-			break;
-		}
-		else {
-			// it wasn't in this row... find the next best guess
-			int remaining_rows;
-			double remaining_distance;
-			double offset;
-
-			if( y_displacement < 0 ) {
-				
-				remaining_rows = row_number;
-				remaining_distance = row.Center - _extent[2] - (row.Height/2.);
-				offset = y_displacement + (row.Height/2);
-			}
-			else {
-				
-				remaining_rows = _rows.size() - row_number - 1;
-				remaining_distance = _extent[3] - row.Center - (row.Height/2.);
-				offset = y_displacement - (row.Height/2);
-			}
-
-			const double param = remaining_rows * (offset / remaining_distance);
-			const int delta_row = (int)((param < 0)? floor(param): ceil(param));
-
-			if (delta_row==0)
-			{
-			  // hm, something went wrong in the logic. The next best guess should not be the
-			  // same row. This can happen due to rounding errors. So within numerical precision
-			  // we already found the nearest row. Breaking here avouids an endless loop.
-			  std::cout << "delta_row is 0, breaking loop" << std::endl;
-			  break;
-			}
-
-			row_number += delta_row;
-		}
-		
-		/*std::cout << "Hit Enter to continue... \n";
-		std::cin.get();*/
-	}
+    if( nRows == 0 )
+      throw Exception("RectangularPadRowLayout::getNearestPad: no pad rows defined !") ;
 
-	// we have the row number... find the pad number
-    int pad_number = 0 ;
-    
-    // now that we have the row we need the closest pad
-    const Row& row =  _rows[row_number] ;
-    
-    if( x <= (  _extent[0] + row.LeftOffset  ) ) {
-      
-      pad_number = 0 ;  
-        
-    } else if( x >= (  _extent[1] - row.RightOffset ) ) {
-      
-      pad_number = row.NPad - 1;
+    // do a binary search for the row at y (first or last row for points outside of the pad plane)
+    int startRow = 0 ;
+    int lastRow = nRows - 1 ;
 
-    } else {
+    while( startRow < lastRow ) {
 
-      pad_number =  (int) ( ( x - (  _extent[0] + row.LeftOffset ) )  /  row.WidthPerPad ) ;  
+      const int middle = ( startRow + lastRow ) / 2 ;
 
+      if( y > _rows[middle].Center + _rows[middle].Height / 2. )
+	startRow = middle + 1 ;
+      else
+	lastRow = middle ;
+    }
+
+    // The pads of this row need not be the nearest ones, as pads can be lower than their row and rows
+    // can have offsets: look at the rows above and below for as long as they could have a closer pad.
+    int nearestRow = -1 ;
+    int nearestPad = -1 ;
+    double dMin = 0. ;
+
+    for( int step = 1 ; step >= -1 ; step -= 2 ) {
+
+      for( int i = ( step > 0 ? startRow : startRow - 1 ) ; i >= 0 && i < nRows ; i += step ) {
+
+	const Row& row = _rows[i] ;
+
+	if( nearestRow >= 0 && fabs( y - row.Center ) - row.Height / 2. > dMin ) break ;
+
+	// the closest pad in this row
+	double padNumber = floor( ( x - ( _extent[0] + row.LeftOffset ) ) / row.WidthPerPad ) ;
+
+	if( padNumber < 0. ) padNumber = 0. ;
+	if( padNumber > row.NPad - 1 ) padNumber = row.NPad - 1 ;
+
+	const int pad = (int) padNumber ;
+	const double d = getDistanceToPad( x , y , getPadIndex( i , pad ) ) ;
+
+	if( nearestRow < 0 || d < dMin ) {
+
+	  dMin = d ;
+	  nearestRow = i ;
+	  nearestPad = pad ;
+	}
+      }
     }
 
-    return getPadIndex( row_number , pad_number ) ;
+    return getPadIndex( nearestRow , nearestPad ) ;
   }
 
   
-- 
2.43.0


From e0515c52beadb2432f711bee2bf4291ab2eec636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 41/72] fix: VersatileDiskRowLayout turned large row offsets
 the wrong way and left the outer radius of rows unset

---
 src/gearimpl/VersatileDiskRowLayout.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index c764617..c62c3b5 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -358,16 +358,16 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     _offset   = _offset_mm / rCentre;
 
     // wrap offset to +- 2*pi
-    if (_offset < - 2. * M_PI)
+    while (_offset < - 2. * M_PI)
     {
 	_offset += 2. * M_PI;
 	_offset_mm += rCentre*2. * M_PI;
     }
 
-    if (_offset >=  2. * M_PI)
+    while (_offset >=  2. * M_PI)
     {
 	_offset -= 2. * M_PI;
-	_offset_mm += rCentre*2. * M_PI;	
+	_offset_mm -= rCentre*2. * M_PI;
     }
 
     _padPitch = _padPitch_mm / rCentre;
@@ -384,7 +384,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
     _phiMax = _offset + _padPitch*_nPads;
     _rMin = _rCentre - rowHeight*0.5;
-    _rMin = _rCentre + rowHeight*0.5;    
+    _rMax = _rCentre + rowHeight*0.5;
 }
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
-- 
2.43.0


From 307fbeb1358534a07b4fd1203e6ac111ce3d7125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 42/72] fix: VersatileDiskRowLayout closed rows to a ring that
 do not cover the full circle

---
 src/gearimpl/VersatileDiskRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index c62c3b5..01009c3 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -259,7 +259,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     if(pn == -1)
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(_rows[rn].getPhiMax() - _rows[rn].getPhiMin() - 2*M_PI) < 1e-6 )
 	    pn =  _rows[rn].getNPads() -1 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getRightNeighbour: no right neighbour pad !");
@@ -278,7 +278,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     if (pn == _rows[rn].getNPads())
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(_rows[rn].getPhiMax() - _rows[rn].getPhiMin() - 2*M_PI) < 1e-6 )
 	    pn = 0 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getLeftNeighbour: no left neighbour pad !");
-- 
2.43.0


From 48049028f34d9d905145eaca7822762d52c539a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 43/72] fix: VersatileDiskRowLayout::isInsidePad depended on
 the turn in which phi is given

---
 src/gearimpl/VersatileDiskRowLayout.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 01009c3..665a286 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -325,10 +325,10 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     double phiMin = row.getOffset() + row.getPadPitch()*pn;
 
     // wrap phi to phiMin .. phiMin + 2*pi
-    if (phi < phiMin)
+    while (phi < phiMin)
 	phi += 2. * M_PI;
 
-    if (phi >= phiMin + 2*M_PI)
+    while (phi >= phiMin + 2*M_PI)
 	phi -= 2. * M_PI;
 
     double phiMax = phiMin + row.getPadPitch();
@@ -340,8 +340,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   bool VersatileDiskRowLayout::isInsidePad(double r, double phi) const {
 
     //  outside of pad plane
-    if( r < _extent[0] || r > _extent[1] || 
-	phi < _extent[2] || phi > _extent[3] )
+    if( _rows.empty() || r < _extent[0] || r > _extent[1] )
       
       return false ;
     
-- 
2.43.0


From 5c0a1054ae580b3aae5272e3ba87a8dadcbfe415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 44/72] fix: VersatileDiskRowLayout::getNearestPad returned
 pads that do not exist or are not the nearest

---
 .../gear/gearimpl/VersatileDiskRowLayout.h    |   2 +
 src/gearimpl/VersatileDiskRowLayout.cc        | 107 +++++++-----------
 2 files changed, 40 insertions(+), 69 deletions(-)

diff --git a/include/gear/gearimpl/VersatileDiskRowLayout.h b/include/gear/gearimpl/VersatileDiskRowLayout.h
index ad9b824..2fedb75 100644
--- a/include/gear/gearimpl/VersatileDiskRowLayout.h
+++ b/include/gear/gearimpl/VersatileDiskRowLayout.h
@@ -49,6 +49,8 @@ class VersatileDiskRowLayout : public FixedDiskLayoutBase {
 
 	    double distanceToPhiMin(double r, double phi) const;
 	    double distanceToPhiMax(double r, double phi) const;
+	    double distanceToRadialEdge(double r, double deltaPhi) const; ///< distance to an edge deltaPhi away
+	    double wrapToRow(double phi) const; ///< wrap phi to +- pi around the middle of the row
 
 	public:
 	    Row(int rowNumber, int nPads, double rCentre, double padPitch_mm, double rowHeight,
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 665a286..8f4ebfc 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -386,42 +386,25 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     _rMax = _rCentre + rowHeight*0.5;
 }
 
-int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
+int VersatileDiskRowLayout::Row::getNearestPad(double /*r*/, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	
-	//
+    phi = wrapToRow( phi );
 
-    // if the angle is in the active angle one can easily calculate the pad number
-    //if (phi < _offset + _nPads * _padPitch )
-    if (phi < _offset + _nPads * _padPitch)
-    {
-	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
-	
-	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
-    }
-    else //outside the active angle
-    { // it can only be one of the edge pad
-	double distance1 = distanceToPhiMin( r , phi);
-	double distance2 = distanceToPhiMax( r , phi);
+    // Outside the active angle it can only be one of the edge pads, and phi is on the side of the closer one
+    int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
 
-	if ( distance1 < distance2)
-	    return (_rowNumber << 16); // pad 0 in the row
-	else
-	    return ( (_rowNumber<< 16) | (0x000ffff & (_nPads-1)) );
-    }
+    if (padNumber < 0)
+	padNumber = 0;
+    if (padNumber > _nPads - 1)
+	padNumber = _nPads - 1;
+
+    return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
 }
 
 double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	
+    phi = wrapToRow( phi );
+
     // copy the code from getDistanceToPad....
 
     double r_min = _rCentre - _rowHeight*0.5;
@@ -458,52 +441,38 @@ double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
     
 double VersatileDiskRowLayout::Row::distanceToPhiMin(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	
-	//
-
-	double r_min   = _rCentre - _rowHeight*0.5;
-	double r_max   = _rCentre + _rowHeight*0.5;	
-	double phi_min = _offset;
-	
-	double distanceToCorner[2];
-	
-	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_min - phi);
-	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_min - phi);
-	
-	return sqrt(
-		distanceToCorner[0] > distanceToCorner[1] ?
-		distanceToCorner[1] : distanceToCorner[0]
-	);
+    return distanceToRadialEdge( r, phi - _offset );
 }
 
 double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	
-	//
-	
-	double r_min   = _rCentre - _rowHeight*0.5;
-	double r_max   = _rCentre + _rowHeight*0.5;	
-	double phi_max = _offset + _nPads * _padPitch;
-	
-	double distanceToCorner[2];
-	
-	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_max - phi);
-	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_max - phi);
+    return distanceToRadialEdge( r, phi - _offset - _nPads * _padPitch );
+}
+
+double VersatileDiskRowLayout::Row::distanceToRadialEdge(double r, double deltaPhi) const
+{
+    double r_min = _rCentre - _rowHeight*0.5;
+    double r_max = _rCentre + _rowHeight*0.5;
+
+    // the radius of the point of closest approach on the edge
+    double r_edge = r * cos(deltaPhi);
+    if ( r_edge < r_min )
+	r_edge = r_min;
+    if ( r_edge > r_max )
+	r_edge = r_max;
+
+    return hypot( r_edge - r * cos(deltaPhi), r * sin(deltaPhi) );
+}
+
+double VersatileDiskRowLayout::Row::wrapToRow(double phi) const
+{
+    double phiMean = 0.5 * ( _offset + _phiMax );
 
-	return sqrt(
-		distanceToCorner[0] > distanceToCorner[1] ?
-		distanceToCorner[1] : distanceToCorner[0]
-	);
-}    
+    while( phi < phiMean - M_PI ) {  phi += 2. * M_PI  ; }
+    while( phi > phiMean + M_PI ) {  phi -= 2. * M_PI  ; }
 
+    return phi;
+}
 
 } // namespace
 
-- 
2.43.0


From 54cb40a25919881ab68755c7c36c7dd9b4c54206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 45/72] fix: MeasurementSurfaceStore: a filling refused because
 of a repeated ID left its first surfaces behind, so that a correct filling
 was refused too

---
 src/gearsurf/MeasurementSurfaceStore.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gearsurf/MeasurementSurfaceStore.cc b/src/gearsurf/MeasurementSurfaceStore.cc
index 691c128..72002c1 100644
--- a/src/gearsurf/MeasurementSurfaceStore.cc
+++ b/src/gearsurf/MeasurementSurfaceStore.cc
@@ -111,8 +111,15 @@ namespace gear{
       
       std::vector<MeasurementSurface*>::iterator it;
       
-      for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
-        this->addMeasurementSurface(*it);
+      try {
+        for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
+          this->addMeasurementSurface(*it);
+        }
+      }
+      catch( ... ) {
+        // do not keep the surfaces of a filling that failed
+        _measurement_surface_map.clear();
+        throw;
       }
       
       _store_filled = true;
-- 
2.43.0


From 97dba83f3d67df1de3d18319c5e12540beff3660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 46/72] fix: copying or assigning a TPCParametersImpl recursed
 without end

---
 src/gearimpl/TPCParametersImpl.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index ff2a2c8..a1472c0 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -77,8 +77,7 @@ namespace gear {
 	_cathodePosition = right._cathodePosition;
 
 	// call the assignment operator of the GearParametersImpl mother class:
-	// *dynamic_cast<GearParametersImpl*>(this) = *dynamic_cast<GearParametersImpl const *>(&right);
-        this->operator = (right);
+	GearParametersImpl::operator = (right);
     }
 
     /// Destructor.
-- 
2.43.0


From b5f9204851e56a4a086cdeffecb2db6f5ba60c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 47/72] fix: assigning a TPC module or TPC to itself used its
 modules and layouts after deleting them

---
 src/gearimpl/TPCModuleImpl.cc     | 2 ++
 src/gearimpl/TPCParametersImpl.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 981c5ac..2368a3d 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1205,6 +1205,8 @@ namespace gear {
 
     TPCModuleImpl & TPCModuleImpl::operator = (const TPCModuleImpl &right)
     {
+	if ( this == &right ) return *this;
+
 	cleanup();
 	copy_and_assign( right);
 	return *this;
diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index a1472c0..8a8dcd0 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -89,6 +89,8 @@ namespace gear {
     ///Assignment operator
     TPCParametersImpl & TPCParametersImpl::operator = (  const TPCParametersImpl & right)
     {
+	if ( this == &right ) return *this;
+
 	cleanup();
 	copy_and_assign( right );
 
-- 
2.43.0


From 20c1dee35e02837ce0e17419e4728f530359bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 48/72] fix: copies of a TPC module lost its user parameters

---
 src/gearimpl/TPCModuleImpl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 2368a3d..c8c4d56 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1214,6 +1214,9 @@ namespace gear {
 
     void TPCModuleImpl::copy_and_assign(const  TPCModuleImpl & right)
     {
+	// the user parameters
+	GearParametersImpl::operator = (right);
+
 	_planeExtent  = right._planeExtent;
 	_moduleExtent = right._moduleExtent;
 	_localModuleExtent = right._localModuleExtent;
-- 
2.43.0


From 8e8b54ca50444565c8fb58819cfe0c6a7a7876e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 49/72] fix: a new TPC module with polar pads in a cartesian
 TPC gave its polar extent as cartesian one

---
 src/gearimpl/TPCModuleImpl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index c8c4d56..a15683f 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1196,6 +1196,11 @@ namespace gear {
 	  _zPositionIsSet = false;
 
 	  checkLocalIsGlobal();
+
+	  // polar pads in a cartesian TPC: the extent has to be converted to global coordinates
+	  if ( _momsCoordinateType == PadRowLayout2D::CARTESIAN &&
+	       _padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR )
+	    convertLocalPlaneToGlobalPlaneExtend();
     }
 
     TPCModuleImpl::TPCModuleImpl(const TPCModuleImpl &right)
-- 
2.43.0


From 74c630fbdc67852e23c2070b1ea765d114119aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 50/72] fix: extents of TPC modules missed the extreme points
 of sectors given in another turn of phi

---
 src/gearimpl/TPCModuleImpl.cc | 80 ++++++++++-------------------------
 1 file changed, 22 insertions(+), 58 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index a15683f..e9c0533 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -6,6 +6,15 @@
 #include <iostream>
 #include <limits>
 
+namespace {
+    /* Is the direction phi between phiMin and phiMax, regardless of the turns in which they are given? */
+    bool isInPhiRange( double phi, double phiMin, double phiMax )
+    {
+	phi -= 2*M_PI * std::floor( ( phi - phiMin ) / ( 2*M_PI ) );
+	return ( phi > phiMin ) && ( phi < phiMax );
+    }
+}
+
 namespace gear {
     /* Transforms a point from the global coordinates to Layout2D coordinates.*/
     gear::Vector2D TPCModuleImpl::globalToLocal(double c0,double c1)const 
@@ -381,16 +390,9 @@ namespace gear {
 	// inverted for negative half TPC. Just let loicalToGlobal take care of it.
 	Vector2D localOriginInGlobalCoordinates = localToGlobal( 0 , 0 );
 	double testYMax = localOriginInGlobalCoordinates[1] + localExtent[1]; // module centre + rMax
-	double localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMax )[1];
-	// test for [0:2pi] and [-2pi:0]
-	double localPhi2 ;
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	double localPhi = globalToLocal( localOriginInGlobalCoordinates[0], testYMax )[1];
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi, localExtent[2], localExtent[3] ) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMax = testYMax;
@@ -400,18 +402,9 @@ namespace gear {
 
 	// test the possible new yMin
 	double testYMin = localOriginInGlobalCoordinates[1] - localExtent[1]; // module centre - rMax
-	localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMin )[1];
-	// std::cout <<"#DEBUG localPhi1 for ymin "<< localPhi1<<std::endl;
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
-	//std::cout <<"#DEBUG localPhi2 for ymin "<< localPhi2<<std::endl;
-
+	localPhi = globalToLocal( localOriginInGlobalCoordinates[0], testYMin )[1];
 	// change yMin if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi, localExtent[2], localExtent[3] ) )
 	{   // testYMin is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMin = testYMin;
@@ -419,15 +412,9 @@ namespace gear {
 
 	// test tho possible new xMax
 	double testXMax = localOriginInGlobalCoordinates[0] + localExtent[1]; // module centre + rMax
-	localPhi1 = globalToLocal( testXMax, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	localPhi = globalToLocal( testXMax, localOriginInGlobalCoordinates[1] )[1];
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi, localExtent[2], localExtent[3] ) )
 	{   // testXMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMax = testXMax;
@@ -435,15 +422,9 @@ namespace gear {
 
 	// test the possible new xMin
 	double testXMin = localOriginInGlobalCoordinates[0] - localExtent[1]; // module centre - rMax
-	localPhi1 = globalToLocal( testXMin, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	localPhi = globalToLocal( testXMin, localOriginInGlobalCoordinates[1] )[1];
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInPhiRange( localPhi, localExtent[2], localExtent[3] ) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMin = testXMin;
@@ -519,18 +500,9 @@ namespace gear {
 	    }
 
 	    // test if rMin direction is in pad plane
-	    // test for [0:2pi] and [-2pi:0]
-	    double phiTest1 =  fmod(globalOriginInLocal[1], 2*M_PI);
-	    double phiTest2;
-	    if ( phiTest1 < 0 )
-		phiTest2 = phiTest1 + 2*M_PI;
-	    else
-		phiTest2 = phiTest1 - 2*M_PI;
-	    
 	    double rMin;
-	    // one of the two has to be in the active area for this to be the real rMin
-	    if ( ( (phiTest1 > localExtent[2]) && (phiTest1 < localExtent[3]) ) ||
-		 ( (phiTest2 > localExtent[2]) && (phiTest2 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMin
+	    if ( isInPhiRange( globalOriginInLocal[1], localExtent[2], localExtent[3] ) )
 	    {
 
 		//std::cout << "#rmin in active area"<< std::endl;
@@ -620,18 +592,10 @@ namespace gear {
 	    }
 
 	    // now rMax
-	    // test for [0:2pi] and [-2pi:0], the direction opposite of the origin
-	    double phiTest3 =  fmod(globalOriginInLocal[1] + M_PI, 2*M_PI);
-	    double phiTest4;
-	    if ( phiTest3 < 0 )
-		phiTest4 = phiTest3 + 2*M_PI;
-	    else
-		phiTest4 = phiTest3 - 2*M_PI;
-				
+	    // the direction opposite of the origin
 	    double rMax;
-	    // one of the two has to be in the active area for this to be the real rMax
-	    if ( ( (phiTest3 > localExtent[2]) && (phiTest3 < localExtent[3]) ) ||
-		 ( (phiTest4 > localExtent[2]) && (phiTest4 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMax
+	    if ( isInPhiRange( globalOriginInLocal[1] + M_PI, localExtent[2], localExtent[3] ) )
 	    {
 		//std::cout << "#rmax in active area"<< std::endl;
 		// rMax is the sum of local rMax and the distance to the origin
-- 
2.43.0


From 8aa494ed91312fd9b5c8c9459cd93a64539dcac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 51/72] fix: distances to pads and modules of polar layouts
 were not a number at their corners due to rounding

---
 src/gearimpl/FixedDiskLayoutBase.cc | 8 ++++----
 src/gearimpl/TPCModuleImpl.cc       | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index 484d60d..4cd39ed 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -62,12 +62,12 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	    {
 		// you can check this formula by calculaing sqrt( (x-x_min)^2 - (y-y_min)^2 )
 		// where x_min = r_min cos(phi_min) etc.
-		distance_phiMin = sqrt( r*r + r_min*r_min -2 * r_min * r_intersect_phiMin );
+		distance_phiMin = hypot( r_intersect_phiMin - r_min, m_phiMin );
 	    }
 	    else
 	    if ( r_intersect_phiMin > r_max ) 
 	    {
-		distance_phiMin = sqrt( r*r + r_max*r_max -2 * r_max * r_intersect_phiMin );
+		distance_phiMin = hypot( r_intersect_phiMin - r_max, m_phiMin );
 	    }
 	    else
 		distance_phiMin =  fabs( m_phiMin );
@@ -82,12 +82,12 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	    {
 		// you can check this formula by calculaing sqrt( (x-x_max)^2 - (y-y_max)^2 )
 		// where x_max = r_min cos(phi_max) etc.
-		distance_phiMax = sqrt( r*r + r_min*r_min -2 * r_min * r_intersect_phiMax );
+		distance_phiMax = hypot( r_intersect_phiMax - r_min, m_phiMax );
 	    }
 	    else
 	    if ( r_intersect_phiMax > r_max ) 
 	    {
-		distance_phiMax = sqrt( r*r + r_max*r_max -2 * r_max * r_intersect_phiMax );
+		distance_phiMax = hypot( r_intersect_phiMax - r_max, m_phiMax );
 	    }
 	    else
 		distance_phiMax =  fabs( m_phiMax );
diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index e9c0533..1d47fd0 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1397,13 +1397,12 @@ namespace gear {
 		{
 		    // you can check this formula by calculaing sqrt( (x-x_min)^2 - (y-y_min)^2 )
 		    // where x_min = r_min cos(phi_min) etc.
-		    distance_phiMin = sqrt( localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMin );
+		    distance_phiMin = hypot( r_intersect_phiMin - _localModuleExtent[0], m_phiMin );
 		}
 		else
 		    if ( r_intersect_phiMin > _localModuleExtent[1] ) 
 		    {
-			distance_phiMin = sqrt( localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] 
-						-2 * _localModuleExtent[1] * r_intersect_phiMin );
+			distance_phiMin = hypot( r_intersect_phiMin - _localModuleExtent[1], m_phiMin );
 		    }
 		    else
 			distance_phiMin =  fabs( m_phiMin );
@@ -1418,12 +1417,12 @@ namespace gear {
 		{
 		    // you can check this formula by calculaing sqrt( (x-x_max)^2 - (y-y_max)^2 )
 		    // where x_max = r_min cos(phi_max) etc.
-		    distance_phiMax = sqrt( localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMax );
+		    distance_phiMax = hypot( r_intersect_phiMax - _localModuleExtent[0], m_phiMax );
 		}
 		else
 		    if ( r_intersect_phiMax > _localModuleExtent[1] ) 
 		    {
-			distance_phiMax = sqrt( localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] -2 * _localModuleExtent[1] * r_intersect_phiMax );
+			distance_phiMax = hypot( r_intersect_phiMax - _localModuleExtent[1], m_phiMax );
 		    }
 		    else
 			distance_phiMax =  fabs( m_phiMax );
-- 
2.43.0


From 90a33deffc0cc2b176c6fe0ad84ecc14b857dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 52/72] fix: points straight below the axis were not found in
 the ladder they lie in

---
 src/gearimpl/ZPlanarParametersImpl.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index ce5d268..181ea03 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -832,22 +832,8 @@ namespace gear{
     // see comment at the top !
 
     // get phi of point in projection 2D
-    double pPhi = 0. ;
-    if( ( p[0] >= 0 ) && ( p[1] == 0 ) )
-      pPhi = -M_PI/2 ;
-    
-    if( ( p[0] < 0 ) && ( p[1] == 0 ) )
-      pPhi = M_PI/2 ;
-    
-    if( ( p[0] == 0 ) && ( p[1] < 0 ) ) 
-      pPhi = 0 ;
-    
-    if( ( p[0] != 0 ) && ( p[1] < 0 ) )
-      pPhi = atan( p[0] / p[1] ) + M_PI ;
-    
-    else
-      pPhi = atan( p[0] / p[1] ) ;
-    
+    double pPhi = atan2( p[0] , p[1] ) ;
+
     pPhi = correctPhiRange( pPhi ) ;  
     
     return pPhi ;
-- 
2.43.0


From 45f91c896ebd898e02d365cd6c804c6f6bb32984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 53/72] fix: ladders of layers with phi0 beyond about a half
 turn were not found

---
 src/gearimpl/ZPlanarParametersImpl.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 181ea03..ec3e42c 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -814,9 +814,8 @@ namespace gear{
   
   double ZPlanarParametersImpl::correctPhiRange( double Phi ) const {
     
-    if( Phi > M_PI ) {
-      return ( Phi - 2 * M_PI ) ;
-    }
+    Phi = remainder( Phi , 2 * M_PI ) ;
+
     if( Phi <= -M_PI ) {
       return ( Phi + 2 * M_PI ) ;
     } 
-- 
2.43.0


From 7cfd53a2da70cbb581c71e9aa7d30ca20a9f6e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 54/72] fix: points in ladders with an offset larger than half
 their width were not found

---
 src/gearimpl/ZPlanarLayerLayout.cc    | 4 ++--
 src/gearimpl/ZPlanarParametersImpl.cc | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 2be0227..9141d9a 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -95,7 +95,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getStartOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if ( !sensitive ) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
@@ -108,7 +108,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getEndOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if ( !sensitive ) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index ec3e42c..a56a64c 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -93,8 +93,9 @@ namespace gear{
       
       // find out delta phi between each ladder
       double deltaPhi = ( 2 * M_PI ) / _layer.getNLadders( possibleLayer ) ;
-      double startPhi = _layer.getStartInnerPhi( possibleLayer , sensitive ) ;
-      double endPhi = _layer.getEndInnerPhi( possibleLayer , sensitive ) ;
+      // offset ladders can reach further on their side away from the IP
+      double startPhi = fmin( _layer.getStartInnerPhi( possibleLayer , sensitive ) , _layer.getStartOuterPhi( possibleLayer , sensitive ) ) ;
+      double endPhi = fmax( _layer.getEndInnerPhi( possibleLayer , sensitive ) , _layer.getEndOuterPhi( possibleLayer , sensitive ) ) ;
 
       // go through all ladders/sensitive
       int nLadders = _layer.getNLadders( possibleLayer ) ;
-- 
2.43.0


From 2a6d33623aba5e783b9f0cf2489431819be683df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 55/72] fix: nearest ladder was searched in neighbouring
 directions only, missing it for one or two ladders, wide ladders and points
 on the z axis

---
 src/gearimpl/ZPlanarParametersImpl.cc | 31 ---------------------------
 1 file changed, 31 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index a56a64c..8c5e4a9 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -202,26 +202,10 @@ namespace gear{
       return origin ;
     }
     
-    // check if point is origin
-
-    if( origin.x() == p.x() &&  origin.y() == p.y() && origin.z() == p.z()  ) {
-
-       if( _layer.getNLayers() > 0 ){
-
- 	// simply use first ladder - distance d , phi0 , gap/2  :
-	 //fg: fixme: review definition of phi...
- 	return Vector3D( _layer.getLadderDistance(0) ,  -_layer.getInternalPhi0(0)  , _shellGap/2  , Vector3D::cylindrical ) ;
-       }
-
-       return origin ;
-    }
-
     //fg:  FIXME: this code needs to be cleaned up and checked 
     //  it can also probably be made a bit faster ...
 
 
-    double pPhi = getPhiPoint( p ) ;
-
     // this Point is solution
     Vector3D vPointPlane ;
     double minDistance = 99999.99 ;
@@ -257,21 +241,6 @@ namespace gear{
 	double phi = _layer.getInternalPhi0( nearestLayer ) + i*deltaPhi ;
 	phi = correctPhiRange( phi ) ;
 
-	// check start and end phi for this layer
-	double sPhi = correctPhiRange( phi - deltaPhi ) ;
-	double ePhi = correctPhiRange( phi + deltaPhi ) ;
-			
-	// check if point is in range of ladder
-	bool isInRange = 
-	  ( ( sPhi <= pPhi )  && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi >= sPhi ) ) ;
-	
-	if ( !isInRange ) {
-	  
-	  continue ;
-	}
-	
 	// take normal vector of planes, Base, Side, Z and spacePoint
 //fg: ------- test vector3d ---------------------------
 // 	Vector3D nBase, nSide, nZ ;
-- 
2.43.0


From 1c31ed04aeb60071b129bc5a386f9c420941d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 56/72] fix: tracks never hit the ladders at negative z

---
 src/gearimpl/ZPlanarParametersImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 8c5e4a9..d57b655 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -439,8 +439,8 @@ namespace gear{
 	  zStart = _shellGap /2 ;
 	}
 	else {
-	  zEnd = - zEnd ;
-	  zStart = - _shellGap/2 ;
+	  zStart = - zEnd ;
+	  zEnd = - _shellGap/2 ;
 	}
 
 	// go through all ladders/sensitive
-- 
2.43.0


From 4b25b9740256c0ad2a7dc9b3736c5e58c36b49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 57/72] fix: tracks parallel to or leading away from a ladder
 plane were taken to hit the ladder at the origin

---
 src/gearimpl/ZPlanarParametersImpl.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index d57b655..4e29b69 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -412,6 +412,7 @@ namespace gear{
     // return values
     double currentLength = 99999 ;
     Vector3D currentPoint (0. , 0. , 0. ) ;
+    const Vector3D noIntersection (0. , 0. , 0. ) ;  // as returned by planeLineIntersection
     
     for ( int takeLayer=0 ; takeLayer < _layer.getNLayers() ; takeLayer++ ) {
 
@@ -505,7 +506,7 @@ namespace gear{
 	    Vector3D inBorder = correctToBorderPoint( vn, nSide, nZ, left, right, zStart, zEnd ) ;
 	    
 	    // check if point has not changed -> intersects with detector
-	    if ( isEqual( inBorder , vn ) ) {
+	    if ( isEqual( inBorder , vn ) && !isEqual( interSection , noIntersection ) ) {
 	      
 	      // check if this is closest intersection
 	      double thisLength = sqrt( vip[0]*vip[0] + vip[1]*vip[1] +vip[2]*vip[2] ) ;
@@ -561,7 +562,7 @@ namespace gear{
 	    // correct in Plane
 	    Vector3D inBorder = correctToBorderPoint( vn, nBase, nZ, 0, thick, zStart, zEnd ) ;
 
-	    if ( isEqual( inBorder , vn )) {
+	    if ( isEqual( inBorder , vn ) && !isEqual( interSection , noIntersection ) ) {
 	      // check if this is closest intersection
 	      double thisLength = sqrt( vip[0]*vip[0] + vip[1]*vip[1] + vip[2]*vip[2] ) ;
 	      if( thisLength < currentLength ) {
@@ -612,7 +613,7 @@ namespace gear{
 	    // correct in Plane
 	    Vector3D inBorder = correctToBorderPoint( vn, nBase, nSide, 0, thick, left, right ) ;
 
-	    if ( isEqual( inBorder , vn ) ) {
+	    if ( isEqual( inBorder , vn ) && !isEqual( interSection , noIntersection ) ) {
 	      // check if this is closest intersection
 	      double thisLength = sqrt( vip[0]*vip[0] + vip[1]*vip[1] + vip[2]*vip[2] ) ;
 	      if( thisLength < currentLength ) {
-- 
2.43.0


From 304ae92ca8e60ca5bedc986f671c55b7c78af87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:21 +0000
Subject: [PATCH 58/72] fix: material maps missed their last layer of grid
 points by rounding, or never ended or wrote outside of the grid for ranges
 without steps

---
 src/geartgeo/MaterialMap.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index 70755df..a0c1af4 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -47,6 +47,11 @@ namespace gear {
       }
     
     
+    //a range of a single value has only one layer of grid points
+    if(xmax==xmin) nxsteps=0;
+    if(ymax==ymin) nysteps=0;
+    if(zmax==zmin) nzsteps=0;
+
     const GearDistanceProperties &gDP=gearMgr->getDistanceProperties();
     _xmin   =xmin    ;   
     _xmax   =xmax    ;
@@ -86,12 +91,15 @@ namespace gear {
     initial[1]=0;
     initial[2]=0;
     
-    for(double x= xmin;x<=xmax;x+=_xstep)//or r
+    for(int ix=0;ix<=nxsteps;++ix)//or r
       {
-	for(double y= ymin;y<=ymax;y+=_ystep)// or phi or theta
+	const double x=xmin+ix*_xstep;
+	for(int iy=0;iy<=nysteps;++iy)// or phi or theta
 	  {
-	    for(double z= zmin;z<=zmax;z+=_zstep) //or theta
+	    const double y=ymin+iy*_ystep;
+	    for(int iz=0;iz<=nzsteps;++iz) //or theta
 	      {
+		const double z=zmin+iz*_zstep;
 		//GearDistanceProperties need coordinates in cartesian x,y,z
 		switch (coord)
 		  {
@@ -129,9 +137,7 @@ namespace gear {
 		    _values.first=gDP.getNRadlen( initial, final);
 		    _values.second=gDP.getNIntlen( initial, final);     
 		  }
-		std::vector<int> pos;
-		calculateGridIndex(pos,x,y,z);
-		_myMap[pos[0]][pos[1]][pos[2]]=_values;
+		_myMap[ix][iy][iz]=_values;
 	      }//z
 	  }//y
       }//x
-- 
2.43.0


From 22a2e96346336cd5c182dba927e48e62fa237343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 59/72] fix: interpolation in material maps dropped or took the
 wrong neighbouring grid points by rounding

---
 src/geartgeo/MaterialMap.cc | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index a0c1af4..1c6af31 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -1,5 +1,6 @@
 #include <string>
 #include <vector>
+#include <algorithm>
 #include <math.h>
 
 #include "gear/GEAR.h"
@@ -178,27 +179,16 @@ namespace gear {
   void MaterialMap::interpolateOnGrid(std::pair<double,double> &result, double x, double y, double z) const
   {
     //find eight neighbouring grid points
-    double px[2],py[2],pz[2];
-    px[0]=x-fmod(x-_xmin,_xstep);
-    px[1]=px[0]+_xstep;
-    py[0]=y-fmod(y-_ymin,_ystep);
-    py[1]=py[0]+_ystep;
-    pz[0]=z-fmod(z-_zmin,_zstep);
-    pz[1]=pz[0]+_zstep;
-    //check wether they are within grid
-    int xcount=0,ycount=0,zcount=0;
-    if(_xmin<=px[0] && px[0]<=_xmax) 
-      xcount++;      
-    if(_xmin<=px[1] && px[1]<=_xmax)
-      xcount++;
-    if(_ymin<=py[0] && py[0]<=_ymax)
-      ycount++;
-    if(_ymin<=py[1] && py[1]<=_ymax)
-      ycount++;
-    if(_zmin<=pz[0] && pz[0]<=_zmax)
-      zcount++;
-    if(_zmin<=pz[1] && pz[1]<=_zmax)
-      zcount++;
+    //(from the lower index on every axis, there is none above the last layer)
+    const int gx=std::max(0,std::min(int(floor((x-_xmin)/_xstep)),_nxsteps));
+    const int gy=std::max(0,std::min(int(floor((y-_ymin)/_ystep)),_nysteps));
+    const int gz=std::max(0,std::min(int(floor((z-_zmin)/_zstep)),_nzsteps));
+    const double px[2]={_xmin+gx*_xstep,_xmin+(gx+1)*_xstep};
+    const double py[2]={_ymin+gy*_ystep,_ymin+(gy+1)*_ystep};
+    const double pz[2]={_zmin+gz*_zstep,_zmin+(gz+1)*_zstep};
+    const int xcount=(gx<_nxsteps) ? 2 : 1;
+    const int ycount=(gy<_nysteps) ? 2 : 1;
+    const int zcount=(gz<_nzsteps) ? 2 : 1;
     //calculate distances from x,y,z to each neighbour
     int counter=0;
     double sumIntL=0,sumRadL=0,sumWeight=0;
@@ -210,9 +200,7 @@ namespace gear {
 	    for(int iz=0;iz<zcount;iz++)
 	      {
 		double d=sqrt((x-px[ix])*(x-px[ix])+(y-py[iy])*(y-py[iy])+(z-pz[iz])*(z-pz[iz]));
-		std::vector<int>  gpos;
-		calculateGridIndex(gpos,px[ix],py[iy],pz[iz]);
-		std::pair<double,double> vals=_myMap[gpos[0]][gpos[1]][gpos[2]];
+		std::pair<double,double> vals=_myMap[gx+ix][gy+iy][gz+iz];
 		counter++;
 		if(fabs(d)<1e-5)//point in querry is a grid point
 		  {
-- 
2.43.0


From 4aa991a4dd25389b1525b5e264704caaebf7ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 60/72] fix: the factory of material maps returned the map of
 another coordinate system

---
 src/geartgeo/MaterialMapFactory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geartgeo/MaterialMapFactory.cc b/src/geartgeo/MaterialMapFactory.cc
index 243875c..8cb8282 100644
--- a/src/geartgeo/MaterialMapFactory.cc
+++ b/src/geartgeo/MaterialMapFactory.cc
@@ -16,9 +16,9 @@ namespace gear {
 					 double zmin, double zmax, int nzsteps, 
 					 int coord)
   {
-    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps)};
+    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps),double(coord)};
     std::vector<double> gridV;
-    gridV.assign(gridA,gridA+9);
+    gridV.assign(gridA,gridA+10);
 
     if(_managerMap.find(gridV)==_managerMap.end())
 	_managerMap[gridV]=new MaterialMap(_gearMgr,xmin,xmax,nxsteps,ymin,ymax,nysteps,zmin,zmax,nzsteps,coord);
-- 
2.43.0


From 443cf95646e36ea8521a8f33f1c1cbad7ffdd54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 61/72] fix: reading XML that ends within a text, comment,
 attribute or character read beyond its end

---
 include/gear/gearxml/tinyxml.h | 3 +++
 src/gearxml/tinyxmlparser.cc   | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index 2882a83..2139ce4 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -291,6 +291,9 @@ protected:
 		}
 		else if ( *length )
 		{
+			// The text may end within a character.
+			if ( strnlen( p, *length ) < (size_t) *length )
+				return 0;
 			strncpy( _value, p, *length );
 			return p + (*length);
 		}
diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 5c4b61e..362a45c 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -621,7 +621,8 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	return p + strlen( endTag );
+	// Without its end tag the text is incomplete, and there is nothing behind it.
+	return ( p && *p ) ? p + strlen( endTag ) : 0;
 }
 
 #ifdef TIXML_USE_STL
-- 
2.43.0


From 1a9e22e6d7770e6a44a32af51c715ceee52c9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 62/72] fix: a refused path, or one between a point and itself,
 left the lists of materials without the next answer

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 26 +++++++++-------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index a27cf66..a10bdcf 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -22,8 +22,9 @@ namespace gear {
     if(p0==_p0 && p1==_p1)
       return;
     else{
+      //nothing is known about the way to p1 until it has been followed to the end
       _p0=p0;
-      _p1=p1;
+      _p1=p0;
       _volNames.clear();
       _matNames.clear();
       _distance.clear();
@@ -31,6 +32,9 @@ namespace gear {
       _radLen.clear();
     }
     
+    //check if p0 and p1 are the same point, if so don't do anything, no material in between
+    if(p0==p1)
+      return;
 
     // printf( " ----- beamOn  called :  %1.8e   %1.8e   %1.8e   %1.8e   %1.8e   %1.8e \n" , 
     // 	    p0[0], p0[1], p0[2], p1[0], p1[1], p1[2] ) ;
@@ -125,17 +129,15 @@ namespace gear {
       }
     _tgeomanager->ClearTracks();
     _tgeomanager->CleanGarbage();
+
+    _p1=p1;
   }
 
   /** List of matrial names along the distance between [p0,p1] .
    */
   const std::vector<std::string>&  TGeoGearDistanceProperties::getMaterialNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _matNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _matNames;
   }
@@ -144,11 +146,7 @@ namespace gear {
    */
   const std::vector<std::string>  TGeoGearDistanceProperties::getVolumeNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _volNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _volNames;
   }
@@ -158,11 +156,7 @@ namespace gear {
    */
   const std::vector<double>&  TGeoGearDistanceProperties::getMaterialThicknesses(const Vector3D & p0, const Vector3D & p1) const {
         
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _distance.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _distance;
   }
-- 
2.43.0


From d91b9a6b9881b6c8006d267fbe98e01ebf0105d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:35 +0000
Subject: [PATCH 63/72] fix: material along a path lost the last volume before
 the world was left and the length of volumes entered with a tiny step

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 24 ++++++++++------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index a10bdcf..014a09e 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -59,33 +59,28 @@ namespace gear {
     if(!node1)
       throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
     
+    //end of the part of the way that is already in the lists
+    Vector3D lastPos( p0 ) ;
+
     while (!_tgeomanager->IsOutside()) 
       {
 	TGeoNode *node2;
 	TVirtualGeoTrack *track; 
 	node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 	
-	if(!node2 || _tgeomanager->IsOutside())
-	  break;
-	
 	const double *position =(double*) _tgeomanager->GetCurrentPoint();
-	const double *previouspos =(double*) _tgeomanager->GetLastPoint();
-	double length=_tgeomanager->GetStep();
 	track = _tgeomanager->GetLastTrack();
 	//protection against infinitive loop in root which should not happen, but well it does...
 	//work around until solution within root can be found when the step gets very small e.g. 1e-10
 	//and the next boundary is never reached
 	
-	if(length<MINSTEP)
+	if(_tgeomanager->GetStep()<MINSTEP && !_tgeomanager->IsOutside())
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
-	    length=_tgeomanager->GetStep();
 	    node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 
 	    //fg: need to update positions as well !?
 	    position = (const double*) _tgeomanager->GetCurrentPoint();
-	    previouspos = (const double*) _tgeomanager->GetLastPoint();
-
 	  }
 
 	//	printf( " --  step length :  %1.8e %1.8e   %1.8e   %1.8e   %1.8e   %1.8e   %1.8e   - %s \n" , length ,
@@ -101,9 +96,7 @@ namespace gear {
 	//if we travelled too far:
 	 if( currDistance > totDist  )
 	  {
-	    length=sqrt(pow(endpoint[0]-previouspos[0],2)
-			+pow(endpoint[1]-previouspos[1],2)
-			+pow(endpoint[2]-previouspos[2],2));
+	    double length=( p1 - lastPos ).r();
 	
 	    track->AddPoint(endpoint[0], endpoint[1], endpoint[2], 0.);
 	    _distance.push_back(length);
@@ -117,7 +110,8 @@ namespace gear {
 	  }
 	
 	track->AddPoint(position[0], position[1], position[2], 0.);
-	_distance.push_back(length);
+	_distance.push_back(( posV - lastPos ).r());
+	lastPos=posV;
 	std::string svoln(node1->GetName());
 	std::string svolm(node1->GetMedium()->GetMaterial()->GetName());
 	_volNames.push_back(svoln);
@@ -125,6 +119,10 @@ namespace gear {
 	_intLen.push_back(node1->GetMedium()->GetMaterial()->GetIntLen());
 	_radLen.push_back(node1->GetMedium()->GetMaterial()->GetRadLen());
 	
+	//the world volume has been left
+	if(!node2)
+	  break;
+
 	node1=node2;
       }
     _tgeomanager->ClearTracks();
-- 
2.43.0


From 48f412680362e6883b73c2c26ade5ca24c6e3613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:35 +0000
Subject: [PATCH 64/72] fix: material behind a very thin volume was taken to be
 that of the thin volume

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 014a09e..461f226 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -77,6 +77,8 @@ namespace gear {
 	if(_tgeomanager->GetStep()<MINSTEP && !_tgeomanager->IsOutside())
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
+	    //the tiny step might have crossed a very thin volume
+	    node1=node2;
 	    node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 
 	    //fg: need to update positions as well !?
-- 
2.43.0


From d18a451152d282b5b7bfa72dc14e745f722da856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:35 +0000
Subject: [PATCH 65/72] fix: the local position was given in the volume of the
 previous question

---
 src/geartgeo/TGeoGearPointProperties.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geartgeo/TGeoGearPointProperties.cc b/src/geartgeo/TGeoGearPointProperties.cc
index 133ba11..1a45952 100644
--- a/src/geartgeo/TGeoGearPointProperties.cc
+++ b/src/geartgeo/TGeoGearPointProperties.cc
@@ -139,6 +139,10 @@ namespace gear {
     const Double_t global[3]={pos[0],pos[1],pos[2]};
     Double_t local[3];
 
+    //the local coordinates are those of the volume at pos
+    if(!_tgeomanager->FindNode(global[0],global[1],global[2]))
+      throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
+
     _tgeomanager->MasterToLocal(global, local);
     
     return Vector3D(local[0],local[1],local[2]) ;
-- 
2.43.0


From b1441a70c2eb1825b33def01133a52bfc0325cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 66/72] fix: merging paired repeated elements wrongly when
 other nodes stand between them

---
 src/gearxml/MergeXML.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index aa95cef..52e225b 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -96,10 +96,6 @@ namespace gear{
   // compare nodes
   void MergeXML::mergeNode( TiXmlNode* node, TiXmlNode* domNode ) {
 
-    // during the loop count occurences of same Name
-    int occurence = 0 ;
-    std::string lastName ;
-
 
     // debug information
 //     if ( node->ToComment() ) std::cout << "node is Comment." << std::endl;
@@ -143,14 +139,14 @@ namespace gear{
 	}
 	
 
-	// count occurences of same name
-	if ( lastName == getNodeName( loopNode ) ) {
-	     occurence ++ ;
-	}
-	else {
-	  occurence = 1 ;
+	// count occurences of same name (other nodes may be in between)
+	int occurence = 1 ;
+	for( TiXmlNode* previous = loopNode->PreviousSibling() ; previous ; previous = previous->PreviousSibling() ) {
+
+	  if ( ( getNodeName( previous ) == getNodeName( loopNode ) ) && ( hasAttribute( previous ) == hasAttribute( loopNode ) ) ) {
+	    occurence ++ ;
+	  }
 	}
-	lastName = getNodeName( loopNode ) ;
 
 	// get the appropriate child note from dominant node
 	TiXmlNode* domChildNode = getChildNode( loopNode, domNode, occurence ) ;
-- 
2.43.0


From 608862d849f843bb3daf57c14fd7f937a9b1f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 67/72] fix: ladders further away than 100 m were taken to be
 at the point itself and not hit by tracks

---
 src/gearimpl/ZPlanarParametersImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 4e29b69..36e4c77 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -208,7 +208,7 @@ namespace gear{
 
     // this Point is solution
     Vector3D vPointPlane ;
-    double minDistance = 99999.99 ;
+    double minDistance = HUGE_VAL ;
 
     // go through all layers
     for ( int nearestLayer=0 ; nearestLayer < _layer.getNLayers() ; nearestLayer++ ) {
@@ -410,7 +410,7 @@ namespace gear{
   Vector3D ZPlanarParametersImpl::intersectionLadder( Vector3D p , Vector3D v , bool sensitive ) const {
     
     // return values
-    double currentLength = 99999 ;
+    double currentLength = HUGE_VAL ;
     Vector3D currentPoint (0. , 0. , 0. ) ;
     const Vector3D noIntersection (0. , 0. , 0. ) ;  // as returned by planeLineIntersection
     
-- 
2.43.0


From 0778f9eee1b2b2da2bf54415da00070d154fc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:03 +0000
Subject: [PATCH 68/72] fix: RectangularPadRowLayout::addRow refuses illegal
 rows with an exception instead of aborting

---
 src/gearimpl/RectangularPadRowLayout.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index aea27d3..2988ccd 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -5,7 +5,6 @@
 #include <iostream>
 #include <stdexcept>
 #include <sstream>
-#include <assert.h>
 #include <cstdlib>
 
 namespace gear {
@@ -63,13 +62,13 @@ namespace gear {
     
 
     // a few sanity checks:
-    assert( nRow > 0 ) ;
-    assert( nPad > 0 ) ;
-    assert( ! ( padWidth < 0. )  ) ;
-    assert( ! ( padHeight < 0. )  ) ;
-    assert( ! ( rowHeight < 0. )  ) ;
-    assert( ! ( leftOffset < 0. )  ) ;
-    assert( ! ( rightOffset < 0. )  ) ;
+    if( nRow <= 0 || nPad <= 0 || padWidth < 0. || padHeight < 0. || rowHeight < 0. || leftOffset < 0. || rightOffset < 0. ) {
+
+      std::stringstream sstr ;
+      sstr << "RectangularPadRowLayout::addRow: illegal parameters for " << nRow << " rows of " << nPad << " pads " ;
+
+      throw Exception( sstr.str() ) ;
+    }
 
 
     double xMin = _extent[0] + leftOffset ;
-- 
2.43.0


From e4244c4a805a4bbe2bd82d64ce9626bdfe8654af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:03 +0000
Subject: [PATCH 69/72] fix: RectangularPadRowLayout::repeatRows refuses 0 (or
 negative) repetitions instead of looping endlessly

---
 src/gearimpl/RectangularPadRowLayout.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 2988ccd..56d0552 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <stdexcept>
 #include <sstream>
+#include <limits>
 #include <cstdlib>
 
 namespace gear {
@@ -132,6 +133,10 @@ namespace gear {
 
   void RectangularPadRowLayout::repeatRows(unsigned count) {
 
+    // also a negative number converted to unsigned is none
+    if( count == 0 || count > unsigned( std::numeric_limits<int>::max() ) )
+      throw Exception( "RectangularPadRowLayout::repeatRows: illegal number of repetitions !" ) ;
+
     if( _repeatRows > 0  ) // ignore all but first call
       return ;
 
-- 
2.43.0


From 00533caa2afc77082b33b2df22ca68a69a3fdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:03 +0000
Subject: [PATCH 70/72] fix: FixedPadAngleDiskLayout refuses numbers of rows or
 pads that are not positive

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 7dac181..fb1e528 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -35,6 +35,16 @@ namespace gear {
 	  _nPadsInRow( nPadsInRow ) 
   {
     
+    if( nRow <= 0 || nPadsInRow <= 0 ) {
+
+      std::stringstream s ;
+      s << " FixedPadAngleDiskLayout: illegal parameters"
+	<< " - nRow: " << nRow 
+	<< " - nPadsInRow : " << nPadsInRow ;
+
+      throw Exception( s.str() ) ;
+    }
+
     _rowHeight =  ( rMax - rMin ) / _nRow ;
     _padAngle  =  (phiMax - phiMin) / nPadsInRow;
 
-- 
2.43.0


From e5a2b784c029b774f49f583c9130f8628d3189c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:03 +0000
Subject: [PATCH 71/72] fix: empty texts and empty lists of user parameters are
 read back from the XML file

---
 src/gearxml/GearParametersXML.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index d2aca09..be234df 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -244,16 +244,15 @@ namespace gear {
       std::for_each( value.begin(), value.end(), t ) ; 
 
 
-	  // fg: protect against empty value strings  in the gear file
-	  if( stringValues.size() == 0 )
-
-		  continue ;
-
- 
-
       std::string name = getXMLAttribute( par, "name" ) ;
       std::string type = getXMLAttribute( par, "type" ) ;
 
+      // fg: protect against empty value strings  in the gear file
+      // ( a text or a list may well be empty, a number not )
+      if( stringValues.size() == 0 && ( type == "int" || type == "double" ) )
+
+	continue ;
+
 
       if( type == "int" ){
 
@@ -269,7 +268,7 @@ namespace gear {
 	std::string::size_type first = value.find_first_not_of( ' ' ) ;
 	std::string::size_type last  = value.find_last_not_of( ' ' ) ;
 
-	gearParams->setStringVal( name ,  value.substr( first , last - first + 1 )    )   ;
+	gearParams->setStringVal( name ,  stringValues.size() == 0 ? std::string() : value.substr( first , last - first + 1 )    )   ;
 	
       } else if( type == "IntVec" ){
 
-- 
2.43.0


From 61441b17f45c760a7b367a82477836d52e927611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:44 +0000
Subject: [PATCH 72/72] fix: texts holding '&#x' are escaped in the XML file
 like any other text

---
 src/gearxml/tinyxml.cc | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 0217409..032b8a2 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -61,30 +61,9 @@ void TiXmlBase::PutString( const TIXML_STRING& str, TIXML_STRING* outString )
 	{
 		unsigned char c = (unsigned char) str[i];
 
-		if (    c == '&' 
-		     && i < ( (int)str.length() - 2 )
-			 && str[i+1] == '#'
-			 && str[i+2] == 'x' )
-		{
-			// Hexadecimal character reference.
-			// Pass through unchanged.
-			// &#xA9;	-- copyright symbol, for example.
-			//
-			// The -1 is a bug fix from Rob Laveaux. It keeps
-			// an overflow from happening if there is no ';'.
-			// There are actually 2 ways to exit this loop -
-			// while fails (error case) and break (semicolon found).
-			// However, there is no mechanism (currently) for
-			// this function to return an error.
-			while ( i<(int)str.length()-1 )
-			{
-				outString->append( str.c_str() + i, 1 );
-				++i;
-				if ( str[i] == ';' )
-					break;
-			}
-		}
-		else if ( c == '&' )
+		// The text is not encoded yet: every '&' is a plain character, the one of
+		// "&#x41;" too (read back unescaped, it would be taken for an 'A').
+		if ( c == '&' )
 		{
 			outString->append( entity[0].str, entity[0].strLength );
 			++i;
-- 
2.43.0

