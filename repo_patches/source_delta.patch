From ba676846f41b416d3014df79e4d028f7673b8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 01/55] fix: GridAxisDescriptorVariable xiValues are 16-bit
 integers, not objects

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..784bd1c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2134,7 +2134,7 @@ class GridAxisDescriptorVariable:
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
         for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_short(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2150,8 +2150,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_short()
             self.xiValues.append(element)
 
 
-- 
2.43.0


From 4f5fa4a9765c775e5b84cc9b2b06ecf2ff55a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 02/55] fix: SilentEntitySystem appearance records are 32-bit
 values, not objects

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 784bd1c..303141f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2204,7 +2204,7 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
         for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2212,8 +2212,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.appearanceRecordList.append(element)
 
 
-- 
2.43.0


From c2dae57945bac554ec8d9956746b630af5cae75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 03/55] fix: StandardVariableSpecification parses its standard
 variable records

---
 opendis/dis7.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 303141f..f2cb98f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2608,8 +2608,10 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
+            element = parseStandardVariableRecord(
+                inputStream,
+                StandardVariableRecord
+            )
             self.standardVariables.append(element)
 
 
-- 
2.43.0


From 9281e8df34e5da5961bfee9730fac3b6e6465dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 04/55] fix: RecordSpecification parses its record sets

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f2cb98f..3b2cf48 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3285,7 +3285,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
-- 
2.43.0


From 4359168e629c49890e9662223efc551656d0963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 05/55] fix: IntercomSignalPdu data is a sequence of octets, as
 in SignalPdu

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3b2cf48..97540d1 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4260,7 +4260,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
         for anObj in self.data:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4275,8 +4275,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
 
-- 
2.43.0


From 1796398bc999bf04595a0e51452d9754934c63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 06/55] fix: ResupplyReceivedPdu parses its supply quantities

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 97540d1..60c3d78 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4349,7 +4349,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
-- 
2.43.0


From 96e2d7ff707b056bd1e10044313b228207ef375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 07/55] fix: RecordQueryReliablePdu record IDs are 32-bit
 integers, not objects

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 60c3d78..0b1097f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6562,7 +6562,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
         for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6575,8 +6575,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
 
 
-- 
2.43.0


From 0a4c376a3a3df3e8d9fd823d44bccc77fee21666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 08/55] fix: SeesPdu parses its propulsion and vectoring nozzle
 systems

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 0b1097f..563a509 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7107,12 +7107,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From 98c3050f48a181c05fd0e2f03b3f012e244326ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 09/55] fix: MinefieldResponseNackPdu missing PDU sequence
 numbers are octets, not objects

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 563a509..8075611 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7281,7 +7281,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
         for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7292,8 +7292,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
 
 
-- 
2.43.0


From 002c9cc94497b2ef73e242552608b32dd56f6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 10/55] fix: LinearObjectStatePdu could not be constructed

---
 opendis/dis7.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8075611..830c49d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4133,8 +4133,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
-        """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
         self.objectType = objectType or ObjectType()
-- 
2.43.0


From 04cea084196bd40648ab090894b0970e200e7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 11/55] fix: SilentAggregateSystem serializes its aggregate
 type

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 830c49d..5efe9b6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2232,7 +2232,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-- 
2.43.0


From 96d1ba9468e24f4f8b4c9d2d4fd7a37c04ebb9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 12/55] fix: Environment record serializes the padding field it
 defines

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5efe9b6..9ac0016 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2658,14 +2658,14 @@ class Environment:
         outputStream.write_unsigned_int(self.environmentType)
         outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
-        outputStream.write_unsigned_byte(self.padding)
+        outputStream.write_unsigned_byte(self.padding0)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
         self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
-        self.padding = inputStream.read_unsigned_byte()
+        self.padding0 = inputStream.read_unsigned_byte()
 
 
 class AcousticEmitter:
-- 
2.43.0


From 583d61f08aefcf5cce99b45482cc4e87a13b4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 13/55] fix: EnvironmentGeneral can be serialized by default
 and carries a 16-bit length

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 9ac0016..a136d43 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3177,14 +3177,14 @@ class EnvironmentGeneral:
                  environmentType: enum32 = 0,  # [UID 250]
                  length: uint16=0,
                  index: uint8 = 0,
-                 geometry=None):
+                 geometry: uint8 = 0):
         self.environmentType = environmentType
         """Record type"""
         self.length = length
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
@@ -3193,7 +3193,7 @@ class EnvironmentGeneral:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.environmentType)
-        outputStream.write_unsigned_byte(self.length)
+        outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
         outputStream.write_unsigned_byte(self.padding1)
         outputStream.write_unsigned_byte(self.geometry)
@@ -3202,7 +3202,7 @@ class EnvironmentGeneral:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
-        self.length = inputStream.read_unsigned_byte()
+        self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_byte()
         self.geometry = inputStream.read_unsigned_byte()
-- 
2.43.0


From d958a10ed7a808e91bc7ac650170cb5d1cce1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 14/55] fix: DirectedEnergyFirePdu serializes its cumulative
 shot time

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a136d43..756593e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6359,7 +6359,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6379,7 +6379,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From 6aac89be7be40ca23a598114310c9a62b7da6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 15/55] fix: PDU type 6 is Resupply Offer, not Collision
 Elastic

---
 opendis/PduFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..b8dd6a9 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
-- 
2.43.0


From a04acb45ac54d41f1d9c7617a8eedfc6d5fb6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 16/55] fix: PDU type 41 is not a Point Object State PDU

---
 opendis/PduFactory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index b8dd6a9..18eff9e 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -42,7 +42,6 @@ PduTypeDecoders = {
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
-- 
2.43.0


From 2f01b7e0b9c35f8043b11d8d7d318355025ce175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 17/55] fix: decode SEES, Start/Resume-R and Directed Energy
 Fire PDUs

---
 opendis/PduFactory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 18eff9e..9a85717 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -36,6 +36,7 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
@@ -47,6 +48,7 @@ PduTypeDecoders = {
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
@@ -59,6 +61,7 @@ PduTypeDecoders = {
     , 63 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
  }
 
-- 
2.43.0


From ccd21187cfb1f4e0de1542facbe938e198d9de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 18/55] fix: AttributePdu declares its PDU type so it can be
 serialized

---
 opendis/dis7.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 756593e..57ce72e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5335,6 +5335,7 @@ class AttributePdu(EntityInformationFamilyPdu):
     See 5.3.6 for the information requirements and issuance and receipt rules
     for this PDU. INCOMPLETE
     """
+    pduType: enum8 = 72  # [UID 4]
 
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
-- 
2.43.0


From 83111ae3b524f4f310ee4dc49004d69fb5834d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 19/55] fix: AttachedParts serializes its attached part type

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 57ce72e..ee2605d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -800,7 +800,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -808,7 +808,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
-- 
2.43.0


From 5453a4da8d70d2645ec6424235e90b71af5dab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 20/55] fix: ArticulatedParts parameter value is a 32-bit float

---
 opendis/dis7.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ee2605d..78f3554 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -889,6 +889,7 @@ class ArticulatedParts:
         """the type of parameter represented, 32 bit enumeration"""
         self.parameterValue = parameterValue
         """The definition of the 64 bits shall be determined based on the type of parameter specified in the Parameter Type field"""
+        self.padding: uint32 = 0
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -896,7 +897,8 @@ class ArticulatedParts:
         outputStream.write_unsigned_byte(self.changeIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        outputStream.write_float(self.parameterValue)
+        outputStream.write_unsigned_int(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -904,7 +906,8 @@ class ArticulatedParts:
         self.changeIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.parameterValue = inputStream.read_float()
+        self.padding = inputStream.read_unsigned_int()
 
 
 class ObjectType:
-- 
2.43.0


From d842e3697f78a3f85797a36e7de6146e7319db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 21/55] fix: SeparationVP station location is a record, not an
 integer

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 78f3554..68b40ab 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3611,7 +3611,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3621,7 +3621,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From 29efb80e285aea79f31dcbcab9d620737b209934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 22/55] fix: StorageFuelReload reload times are 32-bit integers

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 68b40ab..eb04c89 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2980,8 +2980,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2991,8 +2991,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
-- 
2.43.0


From 30d73fc7527c936fcd621ec9d3965061eb275c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 23/55] fix: EngineFuel honours its constructor arguments

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index eb04c89..41516d3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1974,13 +1974,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
-- 
2.43.0


From 65988d944d2e85554eabbe10ffdfcca47fb2afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 24/55] fix: AngularVelocityVector honours its constructor
 arguments

---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 41516d3..ec0a661 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2711,11 +2711,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From 35fe6d3c3d348f4cfb66732e36f34e12b00a8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 25/55] fix: AggregateMarking honours its constructor arguments

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ec0a661..2038f43 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2743,7 +2743,7 @@ class AggregateMarking:
                  characters=None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From 74b8dea7c490d0c97a072641e2fceb8b24478bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 26/55] fix: DataQueryPdu honours its constructor arguments

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2038f43..8472001 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4072,8 +4072,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From 0ff59595201ae4191eabc8cf07cc6ff6c3513e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 27/55] fix: PduHeader length is 16 bits and status 8 bits

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8472001..bf5adef 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3408,8 +3408,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3419,8 +3419,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From 1e1de86dc27eb638ba9a4758a53597e988f90480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 28/55] fix: EventReportReliablePdu event type is 32 bits

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index bf5adef..3a6fb1c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7238,14 +7238,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From b8fbefbb96ee7e7bcfd1c87dbb6ceb78cb034fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 29/55] fix: ClockTime hour is a signed 32-bit integer

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3a6fb1c..a0cb350 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1346,12 +1346,12 @@ class ClockTime:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_unsigned_int(self.hour)
+        outputStream.write_int(self.hour)
         outputStream.write_unsigned_int(self.timePastHour)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-        self.hour = inputStream.read_unsigned_int()
+        self.hour = inputStream.read_int()
         self.timePastHour = inputStream.read_unsigned_int()
 
 
-- 
2.43.0


From 6e58700341ac7dfafeb8a9c7f4065260d1013bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 30/55] fix: DesignatorPdu dead reckoning algorithm is an
 unsigned octet

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a0cb350..99a2b21 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4731,7 +4731,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4747,7 +4747,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
-- 
2.43.0


From 5225da55362238d201b32582938ca49b5aa0117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 31/55] fix: UaPdu state change indicator is an unsigned octet

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 99a2b21..7ddef11 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6830,7 +6830,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).serialize(outputStream)
         self.emittingEntityID.serialize(outputStream)
         self.eventID.serialize(outputStream)
-        outputStream.write_byte(self.stateChangeIndicator)
+        outputStream.write_unsigned_byte(self.stateChangeIndicator)
         outputStream.write_byte(self.pad)
         outputStream.write_unsigned_short(self.passiveParameterIndex)
         outputStream.write_unsigned_byte(self.propulsionPlantConfiguration)
@@ -6849,7 +6849,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).parse(inputStream)
         self.emittingEntityID.parse(inputStream)
         self.eventID.parse(inputStream)
-        self.stateChangeIndicator = inputStream.read_byte()
+        self.stateChangeIndicator = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_byte()
         self.passiveParameterIndex = inputStream.read_unsigned_short()
         self.propulsionPlantConfiguration = inputStream.read_unsigned_byte()
-- 
2.43.0


From 15fd216d830c73cba0258e9c4046d9e06ae82ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 32/55] fix: EntityMarking characters are unsigned octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 7ddef11..c0615c9 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1237,14 +1237,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From a6c318d073fab2bb424bfc96f926b4d23e811fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 33/55] fix: EventReportPdu exposes its datum records like its
 sibling PDUs

---
 opendis/dis7.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index c0615c9..8f715a3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5488,6 +5488,22 @@ class EventReportPdu(SimulationManagementFamilyPdu):
         self._datums = DatumSpecification(fixedDatumRecords or [],
                                           variableDatumRecords or [])
 
+    @property
+    def numberOfFixedDatumRecords(self) -> int:
+        return self._datums.numberOfFixedDatumRecords
+
+    @property
+    def numberOfVariableDatumRecords(self) -> int:
+        return self._datums.numberOfVariableDatumRecords
+
+    @property
+    def fixedDatumRecords(self) -> list["FixedDatum"]:
+        return self._datums.fixedDatumRecords
+
+    @property
+    def variableDatumRecords(self) -> list["VariableDatum"]:
+        return self._datums.variableDatumRecords
+
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportPdu, self).serialize(outputStream)
-- 
2.43.0


From 260f6a944af1fc7f651ef76b7a55540a0df9ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 34/55] fix: IFFData record length includes its type and length
 fields

---
 opendis/dis7.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8f715a3..48179f8 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -184,7 +184,8 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        # The record length includes the 6 bytes of the type and length fields
+        outputStream.write_unsigned_short(6 + len(self.iffData))
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From bd0aeab036fe390e9b485d955577a40e98617625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 35/55] fix: VariableDatum keeps the last octet of lengths that
 are not whole octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 48179f8..ada5a96 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3323,7 +3323,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3334,7 +3334,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From 5fda1307ea5985335a8ac75653a773db071396bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 36/55] fix: signal PDUs keep the last octet of bit lengths
 that are not whole octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ada5a96..2c835b9 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4276,7 +4276,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         self.samples = inputStream.read_unsigned_short()
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
-        for idx in range(0, dataLength // 8):
+        for idx in range(0, (dataLength + 7) // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
@@ -7027,7 +7027,7 @@ class SignalPdu(RadioCommunicationsFamilyPdu):
         self.sampleRate = inputStream.read_unsigned_int()
         dataLength = inputStream.read_unsigned_short()
         self.samples = inputStream.read_unsigned_short()
-        for idx in range(0, dataLength // 8):
+        for idx in range(0, (dataLength + 7) // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
-- 
2.43.0


From ec935c91c71ce7060496e57d4892fa5441b4cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 37/55] fix: IntercomControlPdu can be constructed, serialized
 and parsed

---
 opendis/dis7.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2c835b9..befec1c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6908,7 +6908,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: "list[IntercomCommunicationsParameters] | None" = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6927,14 +6927,13 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
+        self.intercomParameters = intercomParameters or []
         """^^^This is wrong the length of the data field is variable. Using a long for now."""
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        # Length in bytes; each record is serialized as 8 bytes
+        return 8 * len(self.intercomParameters)
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6968,7 +6967,10 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        for _ in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From da0278ae2aa4fe2819691ad7f79d5439b8452eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 38/55] fix: IntercomControlPdu source communications device ID
 is 16 bits

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index befec1c..2a1fe84 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6941,7 +6941,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6958,7 +6958,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
-- 
2.43.0


From e7871000eca57cb47fddaa7dc74167be9c902049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 39/55] fix: FastEntityStatePdu bytes, counts and bit records
 are unsigned, as in EntityStatePdu

---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2a1fe84..855d75f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5786,7 +5786,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5810,10 +5810,10 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.psi)
         outputStream.write_float(self.theta)
         outputStream.write_float(self.phi)
-        outputStream.write_int(self.entityAppearance)
+        outputStream.write_unsigned_int(self.entityAppearance)
         outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         for idx in range(0, 15):
-            outputStream.write_byte(self.otherParameters[idx])
+            outputStream.write_unsigned_byte(self.otherParameters[idx])
 
         outputStream.write_float(self.xAcceleration)
         outputStream.write_float(self.yAcceleration)
@@ -5822,9 +5822,9 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.yAngularVelocity)
         outputStream.write_float(self.zAngularVelocity)
         for idx in range(0, 12):
-            outputStream.write_byte(self.marking[idx])
+            outputStream.write_unsigned_byte(self.marking[idx])
 
-        outputStream.write_int(self.capabilities)
+        outputStream.write_unsigned_int(self.capabilities)
         for anObj in self.variableParameters:
             anObj.serialize(outputStream)
 
@@ -5835,7 +5835,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
@@ -5859,11 +5859,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.psi = inputStream.read_float()
         self.theta = inputStream.read_float()
         self.phi = inputStream.read_float()
-        self.entityAppearance = inputStream.read_int()
+        self.entityAppearance = inputStream.read_unsigned_int()
         self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.otherParameters = [0] * 15
         for idx in range(0, 15):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.otherParameters[idx] = val
 
@@ -5875,11 +5875,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.zAngularVelocity = inputStream.read_float()
         self.marking = [0] * 12
         for idx in range(0, 12):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.marking[idx] = val
 
-        self.capabilities = inputStream.read_int()
+        self.capabilities = inputStream.read_unsigned_int()
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
-- 
2.43.0


From ca340c8356bd510a66a04fa0e1633fa70f75c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 40/55] fix: read_uint64 is unsigned

---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..2e43fe7 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return uint64(struct.unpack('>Q', self.stream.read(8))[0])
 
 
 class DataOutputStream:
-- 
2.43.0


From b543fd3cd2c4b06721cff6d72537c512412c869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 41/55] fix: read_char8 and write_char8 use one unsigned octet

---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 2e43fe7..4e20734 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -71,7 +71,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -151,7 +151,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From 66de5643cc4f21d1264b73c4d5031dd0fd4a1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 42/55] fix: reading bytes past the end of a stream raises
 instead of returning less

---
 opendis/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 4e20734..d8e7e31 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -67,7 +67,12 @@ class DataInputStream:
 
     def read_bytes(self, n: int) -> bytes:
         """Read n bytes from the stream."""
-        return self.stream.read(n)
+        if n < 0:
+            raise ValueError(f"n must be non-negative, got {n!r}")
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise EOFError(f"expected {n} bytes, got {len(data)}")
+        return data
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From 8edda19fa50ac1ccb7070b20d56d44ba33a8816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 43/55] fix: SpreadSpectrum and DEFireFlags keep their padding
 bits

---
 opendis/record/radio/__init__.py | 1 +
 opendis/record/warfare/enums.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..1830305 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -213,6 +213,7 @@ class SpreadSpectrum(base.Record):
         self.frequencyHopping = bool(record_bitfield.frequencyHopping)
         self.pseudoNoise = bool(record_bitfield.pseudoNoise)
         self.timeHopping = bool(record_bitfield.timeHopping)
+        self.padding = record_bitfield.padding
 
 
 class ModulationType(base.Record):
diff --git a/opendis/record/warfare/enums.py b/opendis/record/warfare/enums.py
index 01d188a..b6a9e97 100644
--- a/opendis/record/warfare/enums.py
+++ b/opendis/record/warfare/enums.py
@@ -29,6 +29,7 @@ class DEFireFlags(base.Record):
         self._struct(
             self.weaponOn,
             self.stateUpdateFlag,
+            self.padding,
         ).serialize(outputStream)
 
     def parse(self, inputStream: DataInputStream) -> None:
-- 
2.43.0


From 6d4617acc8305867616deccb4c8f1fcd4d3ddb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 44/55] fix: UnknownAntennaPattern reads its whole declared
 length

---
 opendis/record/radio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 1830305..36d6f97 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -96,7 +96,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
         # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
-- 
2.43.0


From 4bae02bcf852af8082f26a185528c806051a929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 45/55] fix: standard variable record header is written once,
 with a 16-bit length

---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From b9c7d909d3a61a436d163fe91ea997791f70efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 46/55] fix: unrecognised standard variable records satisfy the
 expected type

---
 opendis/record/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..3482a94 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,7 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From 2e71af4e313e56b80959a9025a4298a84ed4088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 47/55] fix: DirectedEnergyAreaAimpoint counts its whole header
 and pads to 64 bits

---
 opendis/record/warfare/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..7ed80fc 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -126,14 +126,18 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     def directedEnergyTargetEnergyDepositionCount(self) -> uint16:
         return len(self.directedEnergyTargetEnergyDepositions)
 
-    def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+    def _unpaddedSize(self) -> int:
+        size = 12  # recordType, recordLength, padding, record counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
             size += record.marshalledSize()
         return size
-    
+
+    def marshalledSize(self) -> int:
+        size = self._unpaddedSize()
+        return size + -size % 8  # padded to a multiple of 64 bits
+
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
         outputStream.write_uint16(self.padding)
@@ -146,6 +150,9 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
 
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
+        outputStream.write_bytes(
+            bytes(self.recordLength - self._unpaddedSize())
+        )
 
     def parse(self,
               inputStream: DataInputStream,
@@ -163,6 +170,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
+        inputStream.read_bytes(bytelength - self._unpaddedSize())
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From 0f039ab148a3fba49b4595d0ca151ceab194c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 48/55] fix: the lengths in a Transmitter PDU delimit its
 modulation and antenna records

---
 opendis/dis7.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 855d75f..7ffd632 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5081,16 +5081,16 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
                     radio = SimpleIntercomRadio()
                 else:
                     radio = GenericRadio()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem in (2, 3, 4):  # HAVE QUICK I | II | HAVE QUICK IIA
                 radio = BasicHaveQuickMP()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem == 6:  # CCTT SINCGARS
                 radio = CCTTSincgarsMP()
-                radio.parse(inputStream)
             else:  # Other | Unknown
                 radio = UnknownRadio()
-                radio.parse(inputStream, bytelength=modulationParametersLength)
+            if radio.marshalledSize() != modulationParametersLength:
+                # The length on the wire delimits the record
+                radio = UnknownRadio()
+            radio.parse(inputStream, bytelength=modulationParametersLength)
             self.modulationParameters = radio
         else:
             self.modulationParameters = None
@@ -5099,13 +5099,15 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         if antennaPatternLength > 0:
             if self.antennaPatternType == 1:
                 self.antennaPattern = BeamAntennaPattern()
-                self.antennaPattern.parse(inputStream)
             else:
                 self.antennaPattern = UnknownAntennaPattern()
-                self.antennaPattern.parse(
-                    inputStream,
-                    bytelength=antennaPatternLength
-                )
+            if self.antennaPattern.marshalledSize() != antennaPatternLength:
+                # The length on the wire delimits the record
+                self.antennaPattern = UnknownAntennaPattern()
+            self.antennaPattern.parse(
+                inputStream,
+                bytelength=antennaPatternLength
+            )
         else:
             self.antennaPattern = None
         
-- 
2.43.0


From 76f6c19ba5eaa3bb9762d921bbcafd5d71e3c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 49/55] fix: ecef2lla converges to the right latitude and
 altitude everywhere, poles included

---
 opendis/RangeCoordinates.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..8209441 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -128,8 +128,6 @@ class GPS:
         lon = atan2(y, x)
 
         # Initialize the variables to calculate lat and alt
-        alt = 0
-        N = self.wgs84.a
         p = sqrt(x**2 + y**2)
         lat = 0
         previousLat = 90
@@ -148,10 +146,13 @@ class GPS:
         # Iterate until tolerance is reached
         while abs(lat - previousLat) >= tolerance:
             previousLat = lat
-            sinLat = z / (N * (1 - self.wgs84.e**2) + alt)
-            lat = atan((z + self.wgs84.e**2 * N * sinLat) / p)
+            sinLat = sin(lat)
             N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sinLat)**2)
-            alt = p / cos(lat) - N
+            lat = atan((z + self.wgs84.e**2 * N * sinLat) / p)
+
+        # Unlike p / cos(lat) - N, this is well-conditioned close to the poles
+        alt = p * cos(lat) + z * sin(lat) - \
+            self.wgs84.a * sqrt(1 - (self.wgs84.e * sin(lat))**2)
 
         # Return the lla coordinates
         return (rad2deg(lat), rad2deg(lon), alt)
-- 
2.43.0


From 40f47ac15701487488510e83d488643fe2d40eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 50/55] fix: UTM latitude band X extends to 84 degrees

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 8209441..71633eb 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -561,7 +561,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From 8af39423f6004f022153b718c12535c4208cdb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 51/55] fix: longitude 180 degrees lies in UTM zone 60, not 61

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 71633eb..85dd022 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -344,7 +344,7 @@ class GPS:
         lon = lla[1]
         alt = lla[2]
         #Determine the zone number
-        zoneNumber = int((lon+180.)/6) + 1
+        zoneNumber = min(int((lon+180.)/6) + 1, 60)
         #Special zone for Norway
         if (56. <= lat < 64.) and (3. <= lon < 12.):
             zoneNumber = 32
-- 
2.43.0


From b8ac07f2e139203e997d82292af16a6ea3c1e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 52/55] fix: UTM northings of the southern hemisphere are
 offset by 10,000 km

---
 opendis/RangeCoordinates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 85dd022..a261bc4 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -391,6 +391,9 @@ class GPS:
                 A**2/2. + \
                 (5.-T+9.*C+4.*C**2)*A**4/24. + \
                 (61.-58.*T+T**2+600.*C-330.*ePrimeSquared)*A**6/720.))
+        #False northing of the southern hemisphere
+        if lat < 0:
+            y += 10000000.
         #Calculate scale factor
         k = k0*(1 + \
             (1+C)*A**2/2. + \
-- 
2.43.0


From b43941252e97e64002def81e8ff8faf040be50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 53/55] fix: bit fields refuse values that do not fit instead
 of truncating them

---
 opendis/record/bitfield.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index a3df951..0355619 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -95,10 +95,21 @@ def bitfield(name: str,
     for field_name, ftype, bits in fields:
         struct_fields.append(_field(field_name, ftype, bits, base_ctype))
 
+    field_bits = {field_name: bits for field_name, _, bits in fields}
+
     # Create the struct class
     class Bitfield(BigEndianStructure):
         _fields_ = struct_fields
 
+        def __setattr__(self, name: str, value: int) -> None:
+            # ctypes would silently drop the bits that do not fit the field
+            bits = field_bits.get(name)
+            if bits is not None and not 0 <= value < 1 << bits:
+                raise ValueError(
+                    f"{name} must fit in {bits} bits, got {value!r}"
+                )
+            super().__setattr__(name, value)
+
         @staticmethod
         def marshalledSize() -> int:
             return bytesize
-- 
2.43.0


From 783e2bf743b572f05cd67fb341600f78526da68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 54/55] fix: rotate_3x3 accepts the column vector its
 documentation asks for

---
 opendis/RangeCoordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index a261bc4..be8bc3a 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -521,6 +521,7 @@ class GPS:
         Note: dot product a vector with the result of this function to perform
               the rotation.
         """
+        normal_vec = array(normal_vec).reshape(3)
 
         n_x = array([[      0  , -normal_vec[2], normal_vec[1] ],
                      [normal_vec[2] ,       0  , -normal_vec[0]],
-- 
2.43.0


From 35b6ac750961d098cf77d1b3a67bd69f0b8e17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:41 +0000
Subject: [PATCH 55/55] fix: euclideanDistance does not overflow on vectors of
 fixed-width integers

---
 opendis/RangeCoordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index be8bc3a..1526387 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -63,9 +63,9 @@ def euclideanDistance(data, dataRef=None):
     total = 0
     for index in range(len(data)):
         if dataRef is None:
-            total += data[index]**2
+            total += float(data[index])**2
         else:
-            total += (data[index] - dataRef[index])**2
+            total += (float(data[index]) - float(dataRef[index]))**2
     return sqrt(total)
 
 
-- 
2.43.0

