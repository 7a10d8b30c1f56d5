From 15fec4baa6745482094bd160bb178206b813dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 01/60] fix: create_package raises on duplicate names instead
 of returning the exception

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..77e67af 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2887,7 +2887,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3063,7 +3063,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From cf19006a36d52075b6247276cce07b809019f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 02/60] fix: find returns None for paths that name nothing
 below an element

---
 src/autosar/xml/element.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 77e67af..0cd3775 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1929,6 +1929,16 @@ class ImplementationDataTypeElement(Identifiable):
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
 
+    def find(self, ref: str) -> Any:
+        """
+        Finds item by reference
+        """
+        parts = ref.partition('/')
+        elem = self._find_by_name(self.sub_elements, parts[0])
+        if (elem is not None) and (len(parts[2]) > 0):
+            return elem.find(parts[2])
+        return elem
+
     def ref(self) -> AbstractImplementationDataTypeElementRef | None:
         """
         Returns a reference to this element or None if the element
@@ -1997,8 +2007,11 @@ class ImplementationDataType(AutosarDataType):
         """
         Finds item by reference
         """
-        assert "/" not in ref
-        return self._find_by_name(self.sub_elements, ref)
+        parts = ref.partition('/')
+        elem = self._find_by_name(self.sub_elements, parts[0])
+        if (elem is not None) and (len(parts[2]) > 0):
+            return elem.find(parts[2])
+        return elem
 
 
 class DataPrototype(Identifiable):
@@ -2904,7 +2917,8 @@ class Package(CollectableElement):
         item = self._collection_map.get(parts[0], None)
         if item is not None:
             if len(parts[2]) > 0:
-                return item.find(parts[2])
+                # Elements without named sub-elements don't have a find method
+                return item.find(parts[2]) if hasattr(item, "find") else None
         return item
 
     def filter(self, *names: str) -> Iterator[ARElement]:
@@ -4918,11 +4932,7 @@ class SwComponentType(ARElement, Searchable):
         """
         Searches port names for a match in ref
         """
-        parts = ref.partition('/')
-        for elem in self.ports:
-            if elem.name == parts[0]:
-                return elem
-        return None
+        return self._find_by_name(self.ports, ref)
 
     def create_p_port(self,
                       name: str,
@@ -5392,12 +5402,11 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         """
         Searches components and connectors for a match in ref
         """
-        parts = ref.partition('/')
         for elem in self.components:
-            if elem.name == parts[0]:
+            if elem.name == ref:
                 return elem
         for elem in self.connectors:
-            if elem.name == parts[0]:
+            if elem.name == ref:
                 return elem
         return super().find(ref)
 
-- 
2.43.0


From e67707d3e9e85d36f52028717b9b97427e1540af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 03/60] fix: sub-elements of implementation data types get
 their parent

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0cd3775..7475cef 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1925,6 +1925,7 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -1991,6 +1992,7 @@ class ImplementationDataType(AutosarDataType):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
-- 
2.43.0


From 5b800615a2c317379cdd704bfb6252296fbdad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 04/60] fix: appending something other than a package to a
 package collection raises

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7475cef..1527627 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3050,6 +3050,8 @@ class PackageCollection:
             package.parent = self
             self.packages.append(package)
             self._package_dict[package.name] = package
+        else:
+            raise TypeError(f"Invalid type {str(type(package))}")
 
     def find(self, ref: str | BaseRef) -> Any:
         """
-- 
2.43.0


From 78b5458a0b6498dc7dded31461c50cb9eb52b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 05/60] fix: write the UUID of every identifiable element

---
 src/autosar/xml/writer.py | 110 +++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..bb7ee88 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1588,7 +1588,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1625,7 +1625,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        self._add_child("IMPLEMENTATION-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1676,7 +1676,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1701,7 +1701,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        self._add_child("ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1731,7 +1731,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        self._add_child("APPLICATION-RECORD-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1755,7 +1755,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1780,7 +1780,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2784,7 +2784,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        self._add_child("MODE-DECLARATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2814,7 +2814,7 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        self._add_child("MODE-TRANSITION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2912,7 +2912,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        self._add_child("NV-DATA-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2937,7 +2937,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        self._add_child("PARAMETER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2962,7 +2962,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        self._add_child("SENDER-RECEIVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3016,7 +3016,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        self._add_child("APPLICATION-ERROR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3036,7 +3036,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        self._add_child("CLIENT-SERVER-OPERATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3068,7 +3068,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        self._add_child("CLIENT-SERVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3097,7 +3097,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        self._add_child("MODE-SWITCH-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3169,7 +3169,7 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3591,7 +3591,7 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        self._add_child("P-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3616,7 +3616,7 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        self._add_child("R-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3643,7 +3643,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        self._add_child("PR-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3707,7 +3707,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3721,7 +3721,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        self._add_child("SW-COMPONENT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3764,7 +3764,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        self._add_child("ASSEMBLY-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3780,7 +3780,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        self._add_child("DELEGATION-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3802,7 +3802,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3818,7 +3818,7 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3852,7 +3852,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        self._add_child("SWC-IMPLEMENTATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4109,7 +4109,7 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        self._add_child(tag, self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4186,7 +4186,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4200,7 +4200,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4217,7 +4217,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4238,7 +4238,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4268,7 +4268,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        self._add_child("INTERNAL-TRIGGERING-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4283,7 +4283,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4321,7 +4321,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        self._add_child("MODE-SWITCH-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4376,7 +4376,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        self._add_child("PARAMETER-ACCESS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4399,7 +4399,7 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        self._add_child("WAIT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4473,7 +4473,7 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        self._add_child("RUNNABLE-ENTITY", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4591,7 +4591,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4606,7 +4606,7 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        self._add_child("BACKGROUND-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4619,7 +4619,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4634,7 +4634,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        self._add_child("DATA-RECEIVED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4649,7 +4649,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        self._add_child("DATA-SEND-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4664,7 +4664,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4679,7 +4679,7 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4694,7 +4694,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        self._add_child("INIT-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4707,7 +4707,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4722,7 +4722,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        self._add_child("MODE-SWITCHED-ACK-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4737,7 +4737,7 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        self._add_child("OPERATION-INVOKED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4752,7 +4752,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4767,7 +4767,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        self._add_child("SWC-MODE-SWITCH-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4796,7 +4796,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        self._add_child("TIMING-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4813,7 +4813,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4911,7 +4911,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        self._add_child("EXCLUSIVE-AREA", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4922,7 +4922,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        self._add_child("SWC-INTERNAL-BEHAVIOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From c83ec41ee217517b99899bced888894f23c9bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 06/60] fix: identifiable elements accept introduction,
 annotations and admin data

---
 src/autosar/xml/element.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1527627..5368fb8 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -234,13 +234,14 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union[list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
         self.category = None
-        self.admin_data = None
-        self.introduction = None
-        self.annotations = None
+        self.introduction: Union["DocumentationBlock", None] = None
+        self.annotations: Union[list["Annotation"], None] = None
         self.uuid = None
         self.admin_data: Union["AdminData", None] = None
         if desc is not None:
@@ -254,6 +255,13 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('admin_data', admin_data, AdminData)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        if annotations is not None:
+            for annotation in annotations:
+                if not isinstance(annotation, Annotation):
+                    raise TypeError(f"Invalid type for argument 'annotations': {str(type(annotation))}")
+            self.annotations = list(annotations)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
-- 
2.43.0


From e8f50589af6e4aba53a0055d17f313d4b05331a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 07/60] fix: read and write SERVICE-KIND

---
 src/autosar/xml/enumeration.py | 54 ++++++++++++++++++++++++++++++++++
 src/autosar/xml/reader.py      |  4 ++-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 554e614..d3b3c48 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1089,6 +1089,33 @@ xml_to_enum_map: dict[str, dict] = {
         "USE-ARRAY-BASE-TYPE": ServerArgImplPolicy.USE_ARRAY_BASED_TYPE,
         "USE-VOID": ServerArgImplPolicy.USE_VOID
     },
+    "ServiceKind": {
+        "ANY-STANDARDIZED": ServiceKind.ANY_STANDARDIZED,
+        "BASIC-SOFTWARE-MODE-MANAGER": ServiceKind.BASIC_SOFTWARE_MODE_MANAGER,
+        "COM-MANAGER": ServiceKind.COM_MANAGER,
+        "CRYPTO-KEY-MANAGEMENT": ServiceKind.CRYPTO_KEY_MANAGEMENT,
+        "CRYPTO-SERVICE-MANAGER": ServiceKind.CRYPTO_SERVICE_MANAGER,
+        "DEFAULT-ERROR-TRACER": ServiceKind.DEFAULT_ERROR_TRACER,
+        "DEVELOPMENT-ERROR-TRACER": ServiceKind.DEVELOPMENT_ERROR_TRACER,
+        "DIAGNOSTIC-COMMUNICATION-MANAGER": ServiceKind.DIAGNOSTIC_COMMUNICATION_MANAGER,
+        "DIAGNOSTIC-EVENT-MANAGER": ServiceKind.DIAGNOSTIC_EVENT_MANAGER,
+        "DIAGNOSTIC-LOG-AND-TRACE": ServiceKind.DIAGNOSTIC_LOG_AND_TRACE,
+        "ECU-MANAGER": ServiceKind.ECU_MANAGER,
+        "ERROR-TRACER": ServiceKind.ERROR_TRACER,
+        "FUNCTION-INHIBITION-MANAGER": ServiceKind.FUNCTION_INHIBITION_MANAGER,
+        "HARDWARE-TEST-MANAGER": ServiceKind.HARDWARE_TEST_MANAGER,
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT": ServiceKind.INTRUSION_DETECTION_SECURITY_MANAGEMENT,
+        "J-1939-DCM": ServiceKind.J1939_DCM,
+        "J-1939-REQUEST-MANAGER": ServiceKind.J1939_REQUEST_MANAGER,
+        "NON-VOLATILE-RAM-MANAGER": ServiceKind.NON_VOLATILE_RAM_MANAGER,
+        "OPERATING-SYSTEM": ServiceKind.OPERATING_SYSTEM,
+        "SECURE-ON-BOARD-COMMUNICATION": ServiceKind.SECURE_ON_BOARD_COMMUNICATION,
+        "SYNC-BASE-TIME-MANAGER": ServiceKind.SYNC_BASE_TIME_MANAGER,
+        "V-2-X-FACILITIES": ServiceKind.V2X_FACILITIES,
+        "V-2-X-MANAGEMENT": ServiceKind.V2X_MANAGEMENT,
+        "VENDOR-SPECIFIC": ServiceKind.VENDOR_SPECIFIC,
+        "WATCH-DOG-MANAGER": ServiceKind.WATCH_DOG_MANAGER,
+    },
     "SupportBufferLocking": {
         "DOES-NOT-SUPPORT-BUFFER-LOCKING": SupportBufferLocking.DOES_NOT_SUPPORT_BUFFER_LOCKING,
         "SUPPORTS-BUFFER-LOCKING": SupportBufferLocking.SUPPORTS_BUFFER_LOCKING
@@ -1497,6 +1524,33 @@ enum_to_xml_map: dict[str, list] = {
         "USE-ARRAY-BASE-TYPE",  # 1
         "USE-VOID",             # 2
     ],
+    "ServiceKind": [
+        "ANY-STANDARDIZED",                         # 0
+        "BASIC-SOFTWARE-MODE-MANAGER",              # 1
+        "COM-MANAGER",                              # 2
+        "CRYPTO-SERVICE-MANAGER",                   # 3
+        "DEFAULT-ERROR-TRACER",                     # 4
+        "DEVELOPMENT-ERROR-TRACER",                 # 5
+        "DIAGNOSTIC-COMMUNICATION-MANAGER",         # 6
+        "DIAGNOSTIC-EVENT-MANAGER",                 # 7
+        "DIAGNOSTIC-LOG-AND-TRACE",                 # 8
+        "ECU-MANAGER",                              # 9
+        "FUNCTION-INHIBITION-MANAGER",              # 10
+        "J-1939-REQUEST-MANAGER",                   # 11
+        "NON-VOLATILE-RAM-MANAGER",                 # 12
+        "OPERATING-SYSTEM",                         # 13
+        "SECURE-ON-BOARD-COMMUNICATION",            # 14
+        "SYNC-BASE-TIME-MANAGER",                   # 15
+        "VENDOR-SPECIFIC",                          # 16
+        "WATCH-DOG-MANAGER",                        # 17
+        "ERROR-TRACER",                             # 18
+        "HARDWARE-TEST-MANAGER",                    # 19
+        "V-2-X-FACILITIES",                         # 20
+        "V-2-X-MANAGEMENT",                         # 21
+        "J-1939-DCM",                               # 22
+        "CRYPTO-KEY-MANAGEMENT",                    # 23
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT",  # 24
+    ],
     "SupportBufferLocking": [
         "DOES-NOT-SUPPORT-BUFFER-LOCKING",  # 0
         "SUPPORTS-BUFFER-LOCKING"           # 1
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..9e88b19 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3337,7 +3337,9 @@ class Reader:
         if inner_elem is not None:
             data['is_service'] = self._read_boolean(inner_elem.text)
         xml_elements.skip('NAMESPACES')  # Not supported
-        xml_elements.skip('SERVICE-KIND')  # Implement later
+        inner_elem = xml_elements.get('SERVICE-KIND')
+        if inner_elem is not None:
+            data['service_kind'] = ar_enum.xml_to_enum("ServiceKind", inner_elem.text)
 
     def _read_nv_data_interface(self, xml_element: ElementTree.Element) -> ar_element.NvDataInterface:
         """
-- 
2.43.0


From a69848a1fe46b70a45cb21fbdf67c7f91ffc982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 08/60] fix: escape markup characters in written texts and
 attributes

---
 src/autosar/xml/writer.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index bb7ee88..2a081c9 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -4,6 +4,7 @@ ARXML writer module
 # pylint: disable=consider-using-with, duplicate-code
 from io import StringIO
 from typing import TextIO
+from xml.sax.saxutils import escape
 import sys
 import math
 import decimal
@@ -72,6 +73,26 @@ class _XMLWriter:
     def _add_inline_text(self, text):
         self.fh.write(text)
 
+    def _add_inline_content(self, content: str):
+        """
+        Writes character data in mixed content
+        """
+        self._add_inline_text(self._escape_content(content))
+
+    def _escape_content(self, text: str) -> str:
+        """
+        Escapes character data. The carriage return is escaped since
+        XML parsers would otherwise turn it into a newline
+        """
+        return escape(text, {'\r': '&#13;'})
+
+    def _escape_attribute(self, text: str) -> str:
+        """
+        Escapes attribute value. Whitespace is escaped since
+        XML parsers would otherwise turn it into space characters
+        """
+        return escape(text, {'"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
+
     def _add_child(self, tag: str, attr: TupleList = None):
         if attr:
             self._add_line(f'<{tag} {self._attr_to_str(attr)}>')
@@ -102,6 +123,7 @@ class _XMLWriter:
 
     def _add_content(self, tag: str, content: str = '', attr: TupleList = None, inline: bool = False):
         assert isinstance(content, str)
+        content = self._escape_content(content)
         if attr:
             if content:
                 text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
@@ -121,7 +143,7 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}="{self._escape_attribute(str(elem[1]))}"' for elem in attr]
         return ' '.join(parts)
 
     def _format_float(self, value: float) -> str:
@@ -705,7 +727,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_content(part)
             elif isinstance(part, ar_element.EmphasisText):
                 self._write_emphasis_text(part, inline=True)
             elif isinstance(part, ar_element.IndexEntry):
@@ -785,7 +807,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_content(part)
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -815,7 +837,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_content(part)
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -845,7 +867,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_content(part)
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -925,7 +947,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_content(part)
             elif isinstance(part, ar_element.Subscript):
                 self._write_subscript(part)
             elif isinstance(part, ar_element.Superscript):
-- 
2.43.0


From 7d3c5b4e1607ea7a9e15228608b0c4d8fa66f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 09/60] fix: write annotations inside one ANNOTATIONS element

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 2a081c9..1a23cc1 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -598,10 +598,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From b316b4e6af91469577ae5e7732ea81789b25a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 10/60] fix: write MAY-BE-UNCONNECTED after the required com
 specs

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1a23cc1..5ca8859 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -3649,13 +3649,13 @@ class Writer(_XMLWriter):
         """
         Writes group AR:R-PORT-PROTOTYPE
         """
-        if elem.allow_unconnected is not None:
-            self._add_content("MAY-BE-UNCONNECTED", self._format_boolean(elem.allow_unconnected))
         if elem.com_spec:
             self._add_child("REQUIRED-COM-SPECS")
             for com_spec_elem in elem.com_spec:
                 self._write_required_com_spec(com_spec_elem)
             self._leave_child()
+        if elem.allow_unconnected is not None:
+            self._add_content("MAY-BE-UNCONNECTED", self._format_boolean(elem.allow_unconnected))
         if elem.port_interface_ref is not None:
             self._write_port_interface_ref(elem.port_interface_ref, "REQUIRED-INTERFACE-TREF")
 
-- 
2.43.0


From 1c4ba70af1f193fee5a74b927d8745f79f527097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 11/60] fix: language paragraphs accept superscripts and breaks

---
 src/autosar/xml/element.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 5368fb8..b35701a 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -599,11 +599,11 @@ class MixedContentForLongName(LanguageSpecific):
         super().__init__(language)
         self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Superscript | IndexEntry):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -622,11 +622,12 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
         # TRACE-REF: Complex type
         # XREF: AR:-XREF-TARGET
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self,
+               part: str | Break | EmphasisText | IndexEntry | Subscript | Superscript | TechnicalTerm):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -807,11 +808,11 @@ class MixedContentForParagraph(LanguageSpecific):
         # XREF-TARGET: AR:-XREF-TARGET
 
     def append(self,
-               part: str | Break | EmphasisText | IndexEntry | Subscript | Subscript | TechnicalTerm):
+               part: str | Break | EmphasisText | IndexEntry | Subscript | Superscript | TechnicalTerm):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
-- 
2.43.0


From a1392036bb0324d65568e1190f956680e5c9d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 12/60] fix: PRPortPrototype accepts a list of provided com
 specs

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b35701a..8eaea40 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4840,7 +4840,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
-- 
2.43.0


From 436b773ff6a87a9115675a19175f730b7471f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 13/60] fix: a unit name given as string is one part

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8eaea40..0c2dea0 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -986,7 +986,7 @@ class SingleLanguageUnitNames(MixedContentForUnitNames):
     def __init__(self, parts: str | list | None = None) -> None:
         super().__init__()
         if parts is not None:
-            if isinstance(parts, Iterable):
+            if isinstance(parts, Iterable) and not isinstance(parts, str):
                 for part in parts:
                     self.append(part)
             else:
-- 
2.43.0


From b62127682213a93ddef4148177da2a3076af0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 14/60] fix: read all elements and texts of mixed content

---
 src/autosar/xml/reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 9e88b19..5195987 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -866,13 +866,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -923,7 +923,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -932,7 +932,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -978,7 +978,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -993,7 +993,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1009,7 +1009,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1018,7 +1018,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1123,7 +1123,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From 940099000f39d358b06ec40952aaea548bf5416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 15/60] fix: read the validity of scale constraints

---
 src/autosar/xml/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5195987..48d117e 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1447,6 +1447,9 @@ class Reader:
             limit, interval_type = self._read_limit(xml_child)
             data["upper_limit"] = limit
             data["upper_limit_type"] = interval_type
+        validity = xml_element.attrib.get("VALIDITY")
+        if validity is not None:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", validity)
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
-- 
2.43.0


From 50fd6fe5e5ef7fd426180b1b710a434031347bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 16/60] fix: read rational functions without numerator

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0c2dea0..1b07c2e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1104,7 +1104,7 @@ class CompuRational(ARObject):
     """
 
     def __init__(self,
-                 numerator: tuple[int | float] | list[int | float] | None,
+                 numerator: tuple[int | float] | list[int | float] | None = None,
                  denominator: tuple[int | float] | list[int | float] | None = None) -> None:
         if numerator is not None:
             if not isinstance(numerator, (tuple, list)):
-- 
2.43.0


From 93c14cb4e502aee90751c1c5994b226860528418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 17/60] fix: check ARRAY-IMPL-POLICY against the document's
 schema version

---
 src/autosar/xml/reader.py | 3 ++-
 src/autosar/xml/writer.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 48d117e..2c610cf 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1877,7 +1877,8 @@ class Reader:
         """
         xml_child = child_elements.get("ARRAY-IMPL-POLICY")
         if xml_child is not None:
-            data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text)
+            data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text,
+                                                               self.schema_version)
         xml_child = child_elements.get("ARRAY-SIZE")
         if xml_child is not None:
             data["array_size"] = int(xml_child.text)
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 5ca8859..a90c07f 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1623,7 +1623,8 @@ class Writer(_XMLWriter):
         Type: Abstract
         """
         if elem.array_impl_policy is not None:
-            self._add_content("ARRAY-IMPL-POLICY", ar_enum.enum_to_xml(elem.array_impl_policy))
+            self._add_content("ARRAY-IMPL-POLICY", ar_enum.enum_to_xml(elem.array_impl_policy,
+                                                                       self.schema_version))
         if elem.array_size is not None:
             self._add_content("ARRAY-SIZE", str(elem.array_size))
         if elem.array_size_handling is not None:
-- 
2.43.0


From da307b1b29544de1ae9c1b6e4e4e78d718872bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 18/60] fix: write numbers of any magnitude and notation
 without loss

---
 src/autosar/xml/writer.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index a90c07f..865ee0e 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -151,14 +151,17 @@ class _XMLWriter:
         Formats a float into a printable number string.
         The fractional part will automatically be stripped if possible
         """
+        if isinstance(value, int):
+            return str(value)
         if math.isinf(value):
             return '-INF' if value < 0 else 'INF'
         if math.isnan(value):
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
-            return str(result)
+            if abs(tmp) < 10**16 and tmp == tmp.to_integral():
+                return str(tmp.quantize(decimal.Decimal(1)))
+            return str(tmp.normalize())
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
         """
@@ -183,12 +186,15 @@ class _XMLWriter:
     def _format_numerical_value(self, number: ar_element.NumericalValue) -> str:
         if number.value_format in (ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL):
             return self._format_number(number.value)
-        elif number.value_format == ar_enum.ValueFormat.HEXADECIMAL:
-            return f"0x{number.value:x}"
-        elif number.value_format == ar_enum.ValueFormat.BINARY:
-            return f"0b{number.value:b}"
+        elif number.value_format in (ar_enum.ValueFormat.HEXADECIMAL, ar_enum.ValueFormat.BINARY):
+            if isinstance(number.value, int) and number.value >= 0:
+                is_hex = number.value_format == ar_enum.ValueFormat.HEXADECIMAL
+                return f"0x{number.value:x}" if is_hex else f"0b{number.value:b}"
+            return self._format_number(number.value)  # AUTOSAR has no such notation for negative or real numbers
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            if math.isfinite(number.value):
+                return f"{decimal.Decimal(str(number.value)):e}"
+            return self._format_number(number.value)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 3d1a874a8093ece3709445f9cf9974e90d6b8b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 19/60] fix: check every reference given to an element

Units of compu methods and physical constraints and the types of data type
maps were stored unchecked, a physical dimension given as string took the
display name, references of application elements were refused as context,
and a missing ambiguous destination raised the wrong error.
---
 src/autosar/xml/base.py    |  2 +-
 src/autosar/xml/element.py | 25 ++++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 06d67fe..860c19d 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -179,7 +179,7 @@ class BaseRef(ARObject, abc.ABC):
                 dest = list(self.accepted_sub_types())[0]
             else:
                 msg_part1 = "Value of dest cannot be None. Accepted values are: "
-                msg_part2 = ",".join([str(x) for x in sorted(list(self.accepted_sub_types()))])
+                msg_part2 = ",".join(sorted(str(x) for x in self.accepted_sub_types()))
                 raise ValueError(msg_part1 + msg_part2)
         if dest in self.accepted_sub_types():
             self.dest = dest
diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1b07c2e..d514be9 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1280,8 +1280,9 @@ class CompuMethod(ARElement):
         super().__init__(name, **kwargs)
         self.int_to_phys = int_to_phys        # .COMPU-INTERNAL-TO-PHYS
         self.phys_to_int = phys_to_int        # .COMPU-PHYS-TO-INTERNAL
-        self.unit_ref = unit_ref              # .UNIT-REF
+        self.unit_ref: UnitRef | None = None  # .UNIT-REF
         self.display_format = display_format  # .DISPLAY-FORMAT
+        self._assign_optional("unit_ref", unit_ref, UnitRef)
 
     def ref(self) -> CompuMethodRef | None:
         """
@@ -1423,7 +1424,8 @@ class PhysicalConstraint(ConstraintBase):
                          monotony,
                          lower_limit_type,
                          upper_limit_type)
-        self.unit_ref = unit_ref
+        self.unit_ref: UnitRef | None = None
+        self._assign_optional("unit_ref", unit_ref, UnitRef)
 
 
 class DataConstraintRule(ARObject):
@@ -1550,7 +1552,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
@@ -2340,8 +2342,10 @@ class DataTypeMap(ARObject):
                  appl_data_type_ref: ApplicationDataTypeRef | None = None,
                  impl_data_type_ref: ImplementationDataTypeRef | None = None,
                  ) -> None:
-        self.appl_data_type_ref = appl_data_type_ref   # .APPLICATION-DATA-TYPE-REF
-        self.impl_data_type_ref = impl_data_type_ref   # .IMPLEMENTATION-DATA-TYPE-REF
+        self.appl_data_type_ref: ApplicationDataTypeRef | None = None     # .APPLICATION-DATA-TYPE-REF
+        self.impl_data_type_ref: ImplementationDataTypeRef | None = None  # .IMPLEMENTATION-DATA-TYPE-REF
+        self._assign_optional("appl_data_type_ref", appl_data_type_ref, ApplicationDataTypeRef)
+        self._assign_optional("impl_data_type_ref", impl_data_type_ref, ImplementationDataTypeRef)
 
 
 class DataTypeMappingSet(ARElement):
@@ -5819,20 +5823,23 @@ class VariableInAtomicSWCTypeInstanceRef(ARObject):
                               root_variable_data_prototype_ref, VariableDataPrototypeRef)
         self._assign_optional("target_data_prototype_ref", target_data_prototype_ref, DataPrototypeRef)
         if context_data_prototype_refs is not None:
-            if isinstance(context_data_prototype_refs, ApplicationCompositeElementDataPrototypeRef):
-                self.append_context_data_protype_ref(context_data_prototype_refs)
-            elif isinstance(context_data_prototype_refs, list):
+            if isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                self.append_context_data_protype_ref(context_data_prototype_refs)
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: ApplicationCompositeElementDataPrototypeRef):
         """
         Appends datatype reference to internal list of context data type references
         """
+        if isinstance(context_data_prototype_ref, (ApplicationArrayElementRef, ApplicationRecordElementRef)):
+            context_data_prototype_ref = ApplicationCompositeElementDataPrototypeRef(context_data_prototype_ref.value,
+                                                                                     context_data_prototype_ref.dest)
         if isinstance(context_data_prototype_ref, ApplicationCompositeElementDataPrototypeRef):
             self.context_data_prototype_refs.append(context_data_prototype_ref)
         else:
-            raise TypeError("context_data_prototype_ref must be of type AbstractImplementationDataTypeElementRef")
+            raise TypeError("context_data_prototype_ref must be of type ApplicationCompositeElementDataPrototypeRef")
 
 
 class AutosarVariableRef(ARObject):
-- 
2.43.0


From d51b1243325068c69ab51ddd11a5be78ad4ac9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 20/60] fix: every sub-element knows the element it was added
 to

Array and record elements, arguments, mode groups and internal behaviors
given to a constructor, mode transitions and connectors had no or a wrong
parent, and other types were accepted or ignored.
---
 src/autosar/xml/element.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d514be9..a3aa262 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2250,6 +2250,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if self.element is not None:
+            self.element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2304,12 +2306,15 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
                 self.append(elements)
             elif isinstance(elements, list):
                 self.extend(elements)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ApplicationRecordElement) -> None:
         """
         Appends element to elements list
         """
         if isinstance(element, ApplicationRecordElement):
+            element.parent = self
             self.elements.append(element)
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
@@ -3296,7 +3301,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
@@ -3700,6 +3705,7 @@ class ClientServerOperation(Identifiable):
         Appends argument to internal list of arguments
         """
         if isinstance(argument, ArgumentDataPrototype):
+            argument.parent = self
             self.arguments.append(argument)
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
@@ -3806,7 +3812,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
@@ -3892,6 +3898,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if self.mode_group is not None:
+            self.mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
@@ -5176,6 +5184,8 @@ class AtomicSoftwareComponentType(SwComponentType):
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
         self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        if self._internal_behavior is not None:
+            self._internal_behavior.parent = self
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
 
     @property
@@ -5190,9 +5200,11 @@ class AtomicSoftwareComponentType(SwComponentType):
         """
         Internal behavior setter
         """
-        self._internal_behavior = value
         if value is not None:
+            if not isinstance(value, SwcInternalBehavior):
+                raise TypeError(f"internal_behavior: Expected type SwcInternalBehavior, got '{str(type(value))}'")
             value.parent = self
+        self._internal_behavior = value
 
     def create_internal_behavior(self, name: str = None, **kwargs) -> "SwcInternalBehavior":
         """
@@ -5561,7 +5573,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5571,7 +5583,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
-- 
2.43.0


From 47ee6441e671481b7526b29f1d617c01d219f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 21/60] fix: code descriptors and activation reasons know their
 parent; wrong disabled modes and nesting orders are refused

---
 src/autosar/xml/element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a3aa262..39232ab 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -474,6 +474,7 @@ class Implementation(ARElement):
         Appends code descriptor to internal list of descriptors
         """
         if isinstance(code_descriptors, Code):
+            code_descriptors.parent = self
             self.code_descriptors.append(code_descriptors)
         else:
             raise TypeError("code_descriptors must be of type Code")
@@ -6070,6 +6071,8 @@ class ExecutableEntity(Identifiable):
             elif isinstance(exclusive_area_nesting_order, list):
                 for elem in exclusive_area_nesting_order:
                     self.append_exclusive_area_nesting_order(elem)
+            else:
+                raise TypeError("exclusive_area_nesting_order must be of type ExclusiveAreaNestingOrderRef or list")
         self._assign_optional("minimum_start_interval", minimum_start_interval, float)
         self._assign_optional("reentrancy_level", reentrancy_level, ar_enum.ReentrancyLevel)
         if runs_insides is not None:
@@ -6085,6 +6088,7 @@ class ExecutableEntity(Identifiable):
         Appends activation_reason to internal list of activation reasons
         """
         if isinstance(activation_reason, ExecutableEntityActivationReason):
+            activation_reason.parent = self
             self.activation_reasons.append(activation_reason)
         else:
             raise TypeError("activation_reason must be of type ExecutableEntityActivationReason")
@@ -7183,6 +7187,8 @@ class RteEvent(Identifiable):
             elif isinstance(disabled_modes, list):
                 for disabled_mode in disabled_modes:
                     self.append_disabled_mode(disabled_mode)
+            else:
+                raise TypeError("disabled_modes must be of type RModeInAtomicSwcInstanceRef or list")
         self._assign_optional("start_on_event", start_on_event, RunnableEntityRef)
 
     def append_disabled_mode(self, disabled_mode: RModeInAtomicSwcInstanceRef) -> None:
-- 
2.43.0


From 5b2a54528ac4fb7e700ac02d1ee4f06debcbb959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 22/60] fix: writing configured documents leaves the workspace
 as it is and can be repeated

---
 src/autosar/xml/workspace.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..754b808 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -22,12 +22,11 @@ class DocumentConfig:
     """
 
     def __init__(self, file_path: str, package_refs: list[str] | str | None = None) -> None:
-        self.document = ar_document.Document()
         self.file_path = file_path
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
@@ -227,16 +226,15 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
         file_path = document_config.file_path
-        package_refs = document_config.package_refs
-        document.schema_version = schema_version
-        for package_ref in package_refs:
+        for package_ref in document_config.package_refs:
             package = self.find(package_ref)
-            if package is not None:
-                if not isinstance(package, ar_element.Package):
-                    raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+            if not isinstance(package, ar_element.Package):
+                raise ValueError(f"'{package_ref}' does not reference a package element")
+            if any(package.name == other.name for other in document.packages):
+                raise ValueError(f"Document '{file_path}' already has a package named '{package.name}'")
+            document.packages.append(package)  # The package remains owned by the workspace
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
-- 
2.43.0


From 8734471fa9db56ab3b6b7ebfd00481167a8a3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 23/60] fix: document mappings leave the workspace as it is,
 single suffix text

---
 src/autosar/xml/workspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 754b808..a870629 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -46,7 +46,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
@@ -261,12 +261,12 @@ class Workspace(ar_element.PackageCollection):
                         if len(suffix) > 0:
                             name = matched_element.name + suffix
                             extra_element = element_map.get(name, None)
-                            if extra_element is not None:
+                            if extra_element is not None and extra_element not in element_list:
                                 element_list.append(extra_element)
                 document = ar_document.Document(schema_version=schema_version)
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
-                    new_package.append(element)
+                    new_package.elements.append(element)  # The element remains owned by the workspace
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From f9541a43ec57bf31d8f1d7fed2773ffa8df4c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 24/60] fix: a relative base path of a namespace is applied
 once

---
 src/autosar/xml/workspace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a870629..6719cd7 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -109,12 +109,11 @@ class Workspace(ar_element.PackageCollection):
         if not isinstance(role, (ar_enum.PackageRole, str)):
             raise TypeError(f"role must be of type PackageRole or str. Got {str(type(role))}")
         namespace = self.get_namespace(namespace_name)
-        base_ref = namespace.base_ref
         try:
-            rel_path = namespace.package_map[role]
+            package_path = namespace.package_map[role]
         except KeyError as ex:
             raise ValueError(f"Role '{str(role)}'not in namespace map") from ex
-        return posixpath.normpath(posixpath.join(base_ref, rel_path))
+        return posixpath.normpath(package_path)
 
     def create_package_map(self, mapping: dict[str, str]) -> None:
         """
-- 
2.43.0


From 7e5990d192b355bdb3875323f3e471c1d7911053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 25/60] fix: element types of a document mapping must be
 classes

---
 src/autosar/xml/workspace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 6719cd7..bb3db75 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -308,10 +308,10 @@ class Workspace(ar_element.PackageCollection):
         else:
             raise ValueError(f"element_types: Invalid type '{str(type(value))}'")
         for elem_name in elem_names:
-            try:
-                element_types.append(getattr(ar_element, elem_name))
-            except AttributeError as exc:
-                raise ValueError(f"element_types: '{elem_name}' is not a valid element name") from exc
+            element_type = getattr(ar_element, elem_name, None)
+            if not isinstance(element_type, type):
+                raise ValueError(f"element_types: '{elem_name}' is not a valid element name")
+            element_types.append(element_type)
         if len(element_types) == 0:
             raise ValueError("element_types: At least one element type must be given")
         value = mapping.get("suffix_filters")
-- 
2.43.0


From 97a78ef509fdf912ea18eb30eb7b5e7ca7d1c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 26/60] fix: behavior settings have no settings but the known
 ones

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 39232ab..a5d4842 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3013,7 +3013,7 @@ class BehaviorSettings:
         """
         Updates a single value with error check
         """
-        if hasattr(self, name):
+        if name in vars(self):
             if not isinstance(value, str):
                 raise TypeError(f"value: Expected string type. Got {str(type(value))}")
             setattr(self, name, value)
@@ -3036,7 +3036,7 @@ class BehaviorSettings:
         """
         Returns named value only if it's not None
         """
-        value = getattr(self, name)
+        value = vars(self).get(name)
         if value is None:
             raise ValueError(f"{name} is not set in behavior settings")
         return value
-- 
2.43.0


From 2dd421ff72d92efdbf0d498b965c06f9dee5e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 27/60] fix: a reader does not carry the schema version or file
 name of one document over to the next

---
 src/autosar/xml/reader.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 2c610cf..2a7ac27 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -125,6 +125,7 @@ class Reader:
         self.observed_unsupported_elements = None
         self.schema_file: str = ''
         self.schema_version = schema_version
+        self.default_schema_version = schema_version
         self.document: ar_document.Document = None
         self.stop_on_error = False
         self.switcher_collectable = {  # Collectable elements
@@ -351,11 +352,10 @@ class Reader:
         """
         Reads ARXML document file
         """
-        self.document = None
+        self._reset()
         self.xml_root = ElementTree.ElementTree().parse(file_path)
         self.file_path = file_path
         self.file_base_name = os.path.basename(file_path)
-        self.observed_unsupported_elements = set()
         self.stop_on_error = stop_on_error
         self._clean_namespace('http://autosar.org/schema/r4.0')
         self._read_root_element()
@@ -366,8 +366,7 @@ class Reader:
         """
         Reads ARXML document from string.
         """
-        self.observed_unsupported_elements = set()
-        self.document = None
+        self._reset()
         self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
         self.file_path = ""
         self.file_base_name = ""
@@ -382,7 +381,7 @@ class Reader:
         Reads a concrete ARXML element from string.
         This is primarily used for unit-testing.
         """
-        self.observed_unsupported_elements = set()
+        self._reset()
         elem = ElementTree.fromstring(xml)
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
@@ -395,6 +394,19 @@ class Reader:
 
     # --- Utility methods
 
+    def _reset(self) -> None:
+        """
+        Forgets everything about previously read documents
+        """
+        self.document = None
+        self.xml_root = None
+        self.file_path = None
+        self.file_base_name = None
+        self.observed_unsupported_elements = set()
+        self.schema_file = ''
+        self.schema_version = self.default_schema_version
+        self.stop_on_error = False
+
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
         Reports about unprocessed child elements
-- 
2.43.0


From 09bfa74c2a533ebb0aed9fbbb4f108e8ec40fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 28/60] fix: every malformed element is reported and skipped

---
 src/autosar/xml/reader.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 2a7ac27..185472f 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -668,19 +668,20 @@ class Reader:
                     element = read_method(xml_child_elem)
                     assert isinstance(element, ar_element.ARElement)
                     package.append(element)
-                except ar_exception.ParseError as exc:
-                    msg = "Parse error encountered while reading element starting on this line"
-                    message = self._element_error_message(xml_child_elem, msg)
-                    if self.stop_on_error:
-                        raise ar_exception.ParseError(message) from exc
-                    print(message + ":")
-                    print("    " + str(exc))
                 except ar_exception.DuplicateElement as exc:
                     message = self._element_error_message(xml_child_elem,
                                                           str(exc))
                     if self.stop_on_error:
                         raise ar_exception.DuplicateElement(message) from exc
                     print(message)
+                except (ar_exception.ParseError, ar_exception.VersionError, ValueError, KeyError, TypeError,
+                        AttributeError, AssertionError, NotImplementedError) as exc:
+                    msg = "Parse error encountered while reading element starting on this line"
+                    message = self._element_error_message(xml_child_elem, msg)
+                    if self.stop_on_error:
+                        raise ar_exception.ParseError(message) from exc
+                    print(message + ":")
+                    print("    " + str(exc))
             else:
                 self._report_unprocessed_element(xml_child_elem)
 
-- 
2.43.0


From db03c4538f49e7aea3ad14f6a74ba3ab7f071aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 29/60] fix: a writer does not carry the schema version of one
 document over to the next

---
 src/autosar/xml/writer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 865ee0e..c46972d 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -524,7 +524,14 @@ class Writer(_XMLWriter):
     # AUTOSAR Document
 
     def _write_document(self, document: ar_document.Document, skip_root_attr: bool = False):
+        own_schema_version = self.schema_version
         self.schema_version = document.schema_version
+        try:
+            self._write_document_content(document, skip_root_attr)
+        finally:
+            self.schema_version = own_schema_version
+
+    def _write_document_content(self, document: ar_document.Document, skip_root_attr: bool):
         self._add_line('<?xml version="1.0" encoding="utf-8"?>')
         if skip_root_attr:
             self._add_child("AUTOSAR")
-- 
2.43.0


From e8d487a46cc290989213f0f6e07ab2edad8090c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 30/60] fix: unsupported events, com specs and values inside an
 element are reported, not fatal to the element

---
 src/autosar/xml/reader.py | 54 +++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 185472f..183ec56 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -2948,7 +2948,8 @@ class Reader:
             elements = []
             for xml_child_elem in xml_elements.findall('./*'):
                 element = self._read_value_specification_element(xml_child_elem)
-                elements.append(element)
+                if element is not None:
+                    elements.append(element)
             data["elements"] = elements
 
     def _read_record_value_specification(self,
@@ -2975,7 +2976,8 @@ class Reader:
             fields = []
             for xml_child_elem in xml_elements.findall('./*'):
                 field = self._read_value_specification_element(xml_child_elem)
-                fields.append(field)
+                if field is not None:
+                    fields.append(field)
             data["fields"] = fields
 
     def _read_value_specification_group(self, child_elements: ChildElementMap, data: dict) -> None:
@@ -3021,15 +3023,16 @@ class Reader:
 
     def _read_value_specification_element(self,
                                           xml_element: ElementTree.Element
-                                          ) -> ar_element.ValueSpecificationElement:
+                                          ) -> ar_element.ValueSpecificationElement | None:
         """
-        Reads any ValueSpecificationElement
+        Reads any ValueSpecificationElement, unsupported ones are reported
         """
         read_method = self.switcher_value_specification.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
         else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+            self._report_unprocessed_element(xml_element)
+            return None
 
     def _read_constant_specification(self,
                                      xml_element: ElementTree.Element) -> ar_element.ConstantSpecification:
@@ -4144,25 +4147,27 @@ class Reader:
                 com_spec_props.append(self._read_e2e_transformation_com_spec_props(xml_grand_child))
             data["transformation_com_spec_props"] = com_spec_props
 
-    def _read_provided_com_spec(self, xml_element: ElementTree.Element) -> ProvidePortComSpecElement:
+    def _read_provided_com_spec(self, xml_element: ElementTree.Element) -> ProvidePortComSpecElement | None:
         """
-        Reads com-spec element for p-port
+        Reads com-spec element for p-port, unsupported ones are reported
         """
         read_method = self.switcher_provided_com_spec.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
         else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+            self._report_unprocessed_element(xml_element)
+            return None
 
-    def _read_required_com_spec(self, xml_element: ElementTree.Element) -> RequirePortComSpecElement:
+    def _read_required_com_spec(self, xml_element: ElementTree.Element) -> RequirePortComSpecElement | None:
         """
-        Reads com-spec element for r-port
+        Reads com-spec element for r-port, unsupported ones are reported
         """
         read_method = self.switcher_required_com_spec.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
         else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+            self._report_unprocessed_element(xml_element)
+            return None
 
     def _read_provide_port_prototype(self, xml_element: ElementTree.Element) -> ar_element.ProvidePortPrototype:
         """
@@ -4186,7 +4191,9 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_provided_com_spec(xml_grand_child))
+                com_spec = self._read_provided_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["com_spec"] = com_spec_list
         xml_child = child_elements.get("PROVIDED-INTERFACE-TREF")
         if xml_child is not None:
@@ -4214,7 +4221,9 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_required_com_spec(xml_grand_child))
+                com_spec = self._read_required_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["com_spec"] = com_spec_list
         xml_child = child_elements.get("MAY-BE-UNCONNECTED")
         if xml_child is not None:
@@ -4245,13 +4254,17 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_provided_com_spec(xml_grand_child))
+                com_spec = self._read_provided_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["provided_com_spec"] = com_spec_list
         xml_child = child_elements.get("REQUIRED-COM-SPECS")
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_required_com_spec(xml_grand_child))
+                com_spec = self._read_required_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["required_com_spec"] = com_spec_list
         xml_child = child_elements.get("PROVIDED-REQUIRED-INTERFACE-TREF")
         if xml_child is not None:
@@ -5745,7 +5758,9 @@ class Reader:
         if xml_child is not None:
             events = []
             for xml_grand_child in xml_child.findall("./*"):
-                events.append(self._read_rte_event_element(xml_grand_child))
+                event = self._read_rte_event_element(xml_grand_child)
+                if event is not None:
+                    events.append(event)
             data["events"] = events
         child_elements.skip("EXCLUSIVE-AREA-POLICYS")
         child_elements.skip("EXPLICIT-INTER-RUNNABLE-VARIABLES")
@@ -5774,12 +5789,13 @@ class Reader:
         child_elements.skip("VARIATION-POINT-PROXYS")
         child_elements.skip("VARIATION-POINT")
 
-    def _read_rte_event_element(self, xml_element: ElementTree.Element) -> RteEventElement:
+    def _read_rte_event_element(self, xml_element: ElementTree.Element) -> RteEventElement | None:
         """
-        Reads one RTE event element
+        Reads one RTE event element, unsupported ones are reported
         """
         read_method = self.switcher_rte_event.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
         else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+            self._report_unprocessed_element(xml_element)
+            return None
-- 
2.43.0


From b3e5aebfaff714459c5cac2189164ee09a0f3ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 31/60] fix: only component prototypes are read as components
 of a composition

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 183ec56..e33dcdd 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4460,7 +4460,7 @@ class Reader:
         xml_child = child_elements.get("COMPONENTS")
         if xml_child is not None:
             component_list = []
-            for xml_grand_child in xml_child.findall("./*"):
+            for xml_grand_child in xml_child.findall("./SW-COMPONENT-PROTOTYPE"):
                 component_list.append(self._read_sw_component_prototype(xml_grand_child))
             data["components"] = component_list
         xml_child = child_elements.get("CONNECTORS")
-- 
2.43.0


From e5463e9c2e51432d5ace391fe13a74f6e6d57afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 32/60] fix: a single com-spec object given to create_p_port or
 create_r_port is used

---
 src/autosar/xml/element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a5d4842..c64a472 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4974,6 +4974,8 @@ class SwComponentType(ARElement, Searchable):
             if isinstance(com_spec, dict):
                 com_spec = ProvidePortComSpec.make_from_port_interface(port_interface, **com_spec)
                 assert com_spec is not None
+            elif isinstance(com_spec, ProvidePortComSpec):
+                pass  # Use as is
             elif isinstance(com_spec, Iterable):
                 processed = []
                 unprocessed = {}
@@ -5023,6 +5025,8 @@ class SwComponentType(ARElement, Searchable):
             if isinstance(com_spec, dict):
                 com_spec = RequirePortComSpec.make_from_port_interface(port_interface, **com_spec)
                 assert com_spec is not None
+            elif isinstance(com_spec, RequirePortComSpec):
+                pass  # Use as is
             elif isinstance(com_spec, Iterable):
                 processed = []
                 unprocessed = {}
-- 
2.43.0


From 17fb0750be87ed3317007593be017a73ca08a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 33/60] fix: named com-specs work with interfaces that have a
 single element

---
 src/autosar/xml/element.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index c64a472..04d0afd 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4960,6 +4960,24 @@ class SwComponentType(ARElement, Searchable):
         """
         return self._find_by_name(self.ports, ref)
 
+    def _com_spec_args_by_name(self, port_interface: PortInterface, args: dict[str, dict]) -> dict:
+        """
+        Port interfaces with a single element expect com-spec arguments without the name of the element
+        """
+        names = None
+        if isinstance(port_interface, SenderReceiverInterface):
+            names = [data_element.name for data_element in port_interface.data_elements]
+        elif isinstance(port_interface, ClientServerInterface):
+            names = [operation.name for operation in port_interface.operations]
+        elif isinstance(port_interface, ModeSwitchInterface) and port_interface.mode_group is not None:
+            names = [port_interface.mode_group.name]
+        if names is None or len(names) != 1:
+            return args
+        unknown = [name for name in args if name not in names]
+        if unknown:
+            raise ValueError(f"{port_interface.name}: Not found in port interface: '{', '.join(unknown)}'")
+        return args[names[0]]
+
     def create_p_port(self,
                       name: str,
                       port_interface: PortInterface | None = None,
@@ -4990,7 +5008,9 @@ class SwComponentType(ARElement, Searchable):
                     else:
                         raise TypeError(f"Unsupported type in com-spec element: {str(type(elem))}")
                 if len(unprocessed):
-                    processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
+                    unprocessed = self._com_spec_args_by_name(port_interface, unprocessed)
+                    created = ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed)
+                    processed.extend(created if isinstance(created, list) else [created])
                 com_spec = processed
             else:
                 com_spec = None  # Clear when not implemented
@@ -5041,7 +5061,9 @@ class SwComponentType(ARElement, Searchable):
                     else:
                         raise TypeError(f"Unsupported type in com-spec element: {str(type(elem))}")
                 if len(unprocessed):
-                    processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
+                    unprocessed = self._com_spec_args_by_name(port_interface, unprocessed)
+                    created = RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed)
+                    processed.extend(created if isinstance(created, list) else [created])
                 com_spec = processed
             else:
                 com_spec = None  # Clear when not implemented
-- 
2.43.0


From 6ab873ed6732971e03fff2669e21b0ce1472ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 34/60] fix: connectors join ports of fitting directions,
 pr-ports included

---
 src/autosar/xml/element.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 04d0afd..5fb3de7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5507,28 +5507,32 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
-            return self._create_pass_through_connector(port1, port2)
+            if self._is_provider_of(port1, port2):
+                return self._create_pass_through_connector(port1, port2)
+            elif self._is_provider_of(port2, port1):
+                return self._create_pass_through_connector(port2, port1)
+            raise ValueError('cannot create pass-through connector between two ports of same direction')
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
         elif component2 is None:
             return self._create_delegation_connector(component1, port1, port2)
         else:
-            requester_component: SwComponentPrototype = None
-            provider_component: SwComponentPrototype = None
-            provide_port: PortPrototype = None
-            require_port: PortPrototype = None
-            if isinstance(port1, RequirePortPrototype) and isinstance(port2, ProvidePortPrototype):
-                requester_component, provider_component = component1, component2
-                require_port, provide_port = port1, port2
-            elif isinstance(port1, ProvidePortPrototype) and isinstance(port2, RequirePortPrototype):
-                requester_component, provider_component = component2, component1
-                require_port, provide_port = port2, port1
-            elif isinstance(port1, RequirePortPrototype) and isinstance(port2, RequirePortPrototype):
+            if self._is_provider_of(port1, port2):
+                return self._create_assembly_connector(component1, port1, component2, port2)
+            elif self._is_provider_of(port2, port1):
+                return self._create_assembly_connector(component2, port2, component1, port1)
+            elif isinstance(port1, RequirePortPrototype):
                 raise ValueError('cannot create assembly connector between two require-ports')
             else:
                 raise ValueError('cannot create assembly connector between two provide-ports')
-            return self._create_assembly_connector(provider_component, provide_port,
-                                                   requester_component, require_port)
+
+    @staticmethod
+    def _is_provider_of(port1: PortPrototype, port2: PortPrototype) -> bool:
+        """
+        True if port1 can act as provider for port2
+        """
+        return isinstance(port1, (ProvidePortPrototype, PRPortPrototype)) and \
+            isinstance(port2, (RequirePortPrototype, PRPortPrototype))
 
     def _analyze_port_ref(self,
                           workspace: Searchable,
@@ -5556,6 +5560,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                             msg = f"Component '{component.name}' does not seem to have a port with name '{port_name}'"
                             raise ValueError(msg)
                         return port, elem
+                raise ValueError(f"Composition '{self.name}' does not have a component with name '{parts[0]}'")
             else:
                 raise ValueError(f"Invalid format: '{port_ref}'")
         else:  # Format is 'port_name'
@@ -5592,6 +5597,9 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                                      inner_component: SwComponentPrototype,
                                      inner_port: PortPrototype,
                                      outer_port: PortPrototype) -> DelegationSwConnector:
+        if (isinstance(inner_port, ProvidePortPrototype) and isinstance(outer_port, RequirePortPrototype)) or \
+           (isinstance(inner_port, RequirePortPrototype) and isinstance(outer_port, ProvidePortPrototype)):
+            raise ValueError('cannot create delegation connector between ports of opposite direction')
         if isinstance(outer_port, ProvidePortPrototype):
             connector_name = '_'.join([inner_component.name, inner_port.name, outer_port.name])
         else:
-- 
2.43.0


From 59d9013ab15ddfa2a814f9b8f55c3a1f0cc9ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 35/60] fix: names made unique do not clash with names already
 numbered

---
 src/autosar/xml/element.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 5fb3de7..30b0dd9 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -321,9 +321,9 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
     has_index = False
     highest_index = 0
     unpatched_elem: Referrable | None = None
-    expr = re.compile(base_name + r'_(\d+)')
+    expr = re.compile(re.escape(base_name) + r'_(\d+)')
     for element in elements:
-        result = expr.match(element.name)
+        result = expr.fullmatch(element.name)
         if result is not None:
             has_index = True
             index = int(result.group(1))
@@ -331,7 +331,11 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
         elif element.name == base_name:
             unpatched_elem = element
     if unpatched_elem is not None:
-        unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
+        patched_name = '_'.join([base_name, '0'])
+        if any(element.name == patched_name for element in elements):
+            highest_index += 1
+            patched_name = '_'.join([base_name, str(highest_index)])
+        unpatched_elem.name = patched_name
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
     else:
-- 
2.43.0


From 58f7602bc31e49246acaa6e68cdf8fa9282e3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 36/60] fix: a refused event leaves the names of existing
 events as they are

---
 src/autosar/xml/element.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 30b0dd9..e482e10 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8173,8 +8173,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " background_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = BackgroundEvent(unique_event_name, runnable.ref(), **kwargs)
+        event = BackgroundEvent(event_name, runnable.ref(), **kwargs)
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
@@ -8220,12 +8220,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceiveErrorEvent.make(unique_event_name,
+        event = DataReceiveErrorEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_data_element.ref(),
                                            **kwargs)
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
@@ -8271,12 +8271,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceivedEvent.make(unique_event_name,
+        event = DataReceivedEvent.make(event_name,
                                        runnable.ref(),
                                        context_port.ref(),
                                        target_data_element.ref(),
                                        **kwargs)
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
@@ -8338,8 +8338,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " init_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = InitEvent(unique_event_name, runnable.ref(), **kwargs)
+        event = InitEvent(event_name, runnable.ref(), **kwargs)
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
@@ -8382,12 +8382,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " operation_invoked_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = OperationInvokedEvent.make(unique_event_name,
+        event = OperationInvokedEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_provided_operation.ref(),
                                            **kwargs)
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
@@ -8425,12 +8425,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_manager_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = SwcModeManagerErrorEvent.make(unique_event_name,
+        event = SwcModeManagerErrorEvent.make(event_name,
                                               runnable.ref(),
                                               context_port.ref(),
                                               context_mode_declaration_group.ref(),
                                               **kwargs)
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
@@ -8464,14 +8464,13 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_switch_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
         expected_formats = "Expected formats: '<PortName>', '<PortName>/<ModeDeclarationName>', tuple[str, str]"
         if isinstance(mode_ref, str):
             if len(mode_ref) == 0:
                 raise ValueError("mode_ref: Invalid argument. " + expected_formats)
             context_port, context_mode_declaration_group, target_mode_declaration = (
                 self._get_swc_mode_switch_event_args(workspace, swc, mode_ref))
-            event = SwcModeSwitchEvent.make(unique_event_name,
+            event = SwcModeSwitchEvent.make(event_name,
                                             runnable.ref(),
                                             activation,
                                             context_port.ref(),
@@ -8493,13 +8492,14 @@ class SwcInternalBehavior(InternalBehavior):
                                                                      target_mode_declaration.ref()))
                 else:
                     raise TypeError(f"mode_ref: Invalid type '{str(type(ref))}'. " + expected_formats)
-            event = SwcModeSwitchEvent(unique_event_name,
+            event = SwcModeSwitchEvent(event_name,
                                        runnable.ref(),
                                        activation,
                                        (instance_refs[0], instance_refs[1]),
                                        **kwargs)
         else:
             raise TypeError(f"mode_ref: Unsupported type '{str(type(mode_ref))}'")
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
@@ -8526,8 +8526,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " timing_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = TimingEvent(unique_event_name, runnable.ref(), period, offset, **kwargs)
+        event = TimingEvent(event_name, runnable.ref(), period, offset, **kwargs)
+        event.name = self._make_unique_event_name(event_name)
         self.append_event(event)
         return event
 
-- 
2.43.0


From ae08da3faa9fcc65af47e472a546e05444e1c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 37/60] fix: port access requests can be used again, single
 parameters can be left out

---
 src/autosar/xml/element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e482e10..3c5896e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6751,6 +6751,8 @@ class RunnableEntity(ExecutableEntity):
         for elem in elements:
             if isinstance(elem, tuple):
                 text, access_point_args = elem
+                if access_point_args is not None:
+                    access_point_args = dict(access_point_args)  # the request itself remains as it is
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
@@ -6944,7 +6946,7 @@ class RunnableEntity(ExecutableEntity):
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
-- 
2.43.0


From 4c244594ae13badb158c938332c6c674a70c1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 38/60] fix: port accesses a port does not offer are refused

---
 src/autosar/xml/element.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3c5896e..9d50ce0 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6503,6 +6503,7 @@ class PortAccessOptions:
     result: ar_enum.ReadResult = ar_enum.ReadResult.BY_ARGUMENT
     mode: ar_enum.ModeAccess | None = None
     call: ar_enum.CallPoint = ar_enum.CallPoint.SYNC
+    prefix: str | None = None
 
 
 class RunnableEntity(ExecutableEntity):
@@ -6774,6 +6775,7 @@ class RunnableEntity(ExecutableEntity):
         """
         Parses port access prefix
         """
+        options.prefix = text
         if text == 'ASYNC':
             options.call = ar_enum.CallPoint.ASYNC
         elif text == "SYNC":
@@ -6805,6 +6807,7 @@ class RunnableEntity(ExecutableEntity):
         """
         Helper function for creating port access
         """
+        self._check_port_access_offered(port, port_interface, options.prefix)
         if isinstance(port_interface, (SenderReceiverInterface, NvDataInterface)):
             self._create_data_based_port_access(port, port_interface, element_name,
                                                 settings, options.access, options.result, access_point_args)
@@ -6819,6 +6822,36 @@ class RunnableEntity(ExecutableEntity):
         else:
             raise NotImplementedError(str(type(port_interface)))
 
+    def _check_port_access_offered(self,
+                                   port: PortPrototypeElement,
+                                   port_interface: PortInterface,
+                                   prefix: str | None) -> None:
+        """
+        Verifies that the port (together with its port interface) offers the requested kind of access
+        """
+        offered: set[str] | None = set()
+        if isinstance(port_interface, (SenderReceiverInterface, NvDataInterface)):
+            if isinstance(port, RequirePortPrototype):
+                offered = {"ARGUMENT", "ARG", "VALUE", "VAL", "READ"}
+            elif isinstance(port, ProvidePortPrototype):
+                offered = {"WRITE", "SEND"}
+        elif isinstance(port_interface, ModeSwitchInterface):
+            if isinstance(port, RequirePortPrototype):
+                offered = {"ACCESS"}
+            elif isinstance(port, ProvidePortPrototype):
+                offered = {"ACCESS", "SWITCH"}
+            else:
+                offered = None
+        elif isinstance(port_interface, ClientServerInterface):
+            if isinstance(port, (RequirePortPrototype, PRPortPrototype)):
+                offered = {"ASYNC", "SYNC"}
+            else:
+                offered = None
+        if offered is None:
+            raise ValueError(f"Port '{port.name}' doesn't support port access ({str(type(port))})")
+        if prefix is not None and prefix not in offered:
+            raise ValueError(f"Access option '{prefix}' is not supported by port '{port.name}'")
+
     def _create_data_based_port_access(self,
                                        port: PortPrototypeElement,
                                        port_interface: SenderReceiverInterface | NvDataInterface,
-- 
2.43.0


From cb5ed0db12432aae9057dc940d7e0fd78e956734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 39/60] fix: port api options naming an unknown port add
 nothing

---
 src/autosar/xml/element.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 9d50ce0..a159a5c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8614,7 +8614,6 @@ class SwcInternalBehavior(InternalBehavior):
         """
         swc = self.get_valid_parent()
         # names of ports to process.
-        # The bool is used to check if it has been handled or not
         ports_to_process: dict[str, bool] = {}
         if isinstance(port_name, str):
             if port_name == "*":
@@ -8628,9 +8627,12 @@ class SwcInternalBehavior(InternalBehavior):
         else:
             raise TypeError(f"port_name: Expected type string or list of string. Got {str(type(port_name))}")
         if len(ports_to_process):
+            port_names = {port.name for port in swc.ports}
+            for key in ports_to_process:
+                if key not in port_names:
+                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
             for port in sorted(swc.ports, key=lambda x: x.name.lower()):
                 if port.name in ports_to_process:
-                    ports_to_process[port.name] = True
                     option = self._create_port_api_option_internal(port,
                                                                    enable_take_address,
                                                                    indirect_api,
@@ -8639,9 +8641,6 @@ class SwcInternalBehavior(InternalBehavior):
                                                                    supported_features,
                                                                    transformer_status_forwarding)
                     self.append_port_api_option(option)
-            for key, value in ports_to_process.items():
-                if not value:
-                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
 
     def _create_port_api_option_internal(self,
                                          port: PortPrototypeElement,
-- 
2.43.0


From c3cf6a64cb3ddfdd4320f287196345546db16884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 40/60] fix: exclusive areas given by reference are kept when
 others are given by name

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a159a5c..3776884 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8150,6 +8150,8 @@ class SwcInternalBehavior(InternalBehavior):
                     if not value:
                         raise ValueError(f"can_enter_leave: '{key}' does not name an exclusive area in "
                                          "this SwcInternalBehavior object")
+                if not isinstance(can_enter_leave, str):
+                    exclusive_area_refs.extend(elem for elem in can_enter_leave if not isinstance(elem, str))
                 can_enter_leave = exclusive_area_refs
 
         data = {"can_be_invoked_concurrently": can_be_invoked_concurrently,
-- 
2.43.0


From 019d4abc69481e8052d2ce073e740158193b73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 41/60] fix: mode switch events take modes, not mode
 transitions

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3776884..ead9e79 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8592,7 +8592,7 @@ class SwcInternalBehavior(InternalBehavior):
         if target_mode_declaration_group is None:
             raise ar_except.InvalidReferenceError(str(context_mode_declaration_group.type_ref))
         target_mode_declaration: ModeDeclaration | None = target_mode_declaration_group.find(mode_declaration_name)
-        if target_mode_declaration is None:
+        if not isinstance(target_mode_declaration, ModeDeclaration):
             raise ValueError(f"mode_ref: '{mode_ref}' does not name a valid mode declaration in ModeDeclarationGroup")
         return context_port, context_mode_declaration_group, target_mode_declaration
 
-- 
2.43.0


From dcdcfcf4428d7ea046b42f90d71311ec3d3984dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 42/60] fix: a default pattern is refused for values that do
 not take one

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ead9e79..06079ae 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2633,6 +2633,8 @@ class ValueSpecification(ARObject):
                 label, value = data
             elif len(data) == 3:
                 label, value, default_pattern = data
+                if value is not None:
+                    raise ValueError(f"Only not available values take a default pattern: {repr(data)}")
             else:
                 raise ValueError(f"Too many elements in tuple: {repr(data)}")
         else:
-- 
2.43.0


From 643047d25797202f49b35cb9249454580375a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 43/60] fix: check_value takes an absent limit as no limit

---
 src/autosar/xml/element.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 06079ae..a0ee2f2 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1326,16 +1326,18 @@ class LimitObject(ARObject):
         """
         Checks if given value is inside the constraint limits
         """
-        if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
-            if value < self.lower_limit:
+        if self.lower_limit is not None:
+            if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
+                if value < self.lower_limit:
+                    return False
+            elif value <= self.lower_limit:
                 return False
-        elif value <= self.lower_limit:
-            return False
-        if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
-            if value > self.upper_limit:
+        if self.upper_limit is not None:
+            if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
+                if value > self.upper_limit:
+                    return False
+            elif value >= self.upper_limit:
                 return False
-        elif value >= self.upper_limit:
-            return False
         return True
 
 
-- 
2.43.0


From 54a87dcdc9f111b1f586b0900054a1dc994b467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 44/60] fix: computations refuse default values of an
 unsupported type

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a0ee2f2..256ed3a 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1203,6 +1203,8 @@ class Computation(ARObject):
             self.default_value = default_value
         elif isinstance(default_value, (int, float, str)):
             self.default_value = CompuConst(default_value)
+        elif default_value is not None:
+            raise TypeError(f"Invalid type for 'default_value': {str(type(default_value))}")
 
     @classmethod
     def make_value_table(cls: "Computation",
-- 
2.43.0


From dfb31bbdb738d36132421945bb4286fd8c08a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 45/60] fix: implementation model sources are the types
 requested successfully, whenever they were created

---
 src/autosar/model/implementation.py | 44 ++++++++++++++++-------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..e8e2403 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -50,27 +50,10 @@ class ImplementationModel:
         Creates new application element from xml-based element
         """
         elem_ref = element.ref()
-
         if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
-            if isinstance(element, ar_element.SwBaseType):
-                return self._create_base_type(element)
-            elif isinstance(element, ar_element.ImplementationDataType):
-                assert isinstance(element.category, str)
-                if element.category == "VALUE":
-                    return self._create_scalar_type_from_element(element)
-                if element.category == "TYPE_REFERENCE":
-                    return self._create_ref_type_from_element(element)
-                if element.category == "ARRAY":
-                    return self._create_array_type_from_element(element)
-                if element.category == "STRUCTURE":
-                    return self._create_struct_type_from_element(element)
-                if element.category == "DATA_REFERENCE":
-                    return self._create_ptr_type_from_element(element)
-                raise NotImplementedError("ImplementationDataType::" + str(element.category))
-            else:
-                raise NotImplementedError(str(type(element)))
+            self._create_data_type(element)
+        if is_source:
+            self.source_type_refs.add(str(elem_ref))
         return self.data_types[str(elem_ref)]
 
     def gen_type_dependency_trees(self) -> list[Node]:
@@ -99,6 +82,27 @@ class ImplementationModel:
                 que.append(child)
         return reversed(result)
 
+    def _create_data_type(self, element: ar_element.ARElement) -> rte_element.DataType:
+        """
+        Creates new data type from xml-based element and adds it to internal model
+        """
+        if isinstance(element, ar_element.SwBaseType):
+            return self._create_base_type(element)
+        if isinstance(element, ar_element.ImplementationDataType):
+            assert isinstance(element.category, str)
+            if element.category == "VALUE":
+                return self._create_scalar_type_from_element(element)
+            if element.category == "TYPE_REFERENCE":
+                return self._create_ref_type_from_element(element)
+            if element.category == "ARRAY":
+                return self._create_array_type_from_element(element)
+            if element.category == "STRUCTURE":
+                return self._create_struct_type_from_element(element)
+            if element.category == "DATA_REFERENCE":
+                return self._create_ptr_type_from_element(element)
+            raise NotImplementedError("ImplementationDataType::" + str(element.category))
+        raise NotImplementedError(str(type(element)))
+
     def _create_base_type(self, element: ar_element.SwBaseType) -> rte_element.BaseType:
         """
         Creates new Base type and adds it to internal model using the given key.
-- 
2.43.0


From e35179942fb72b8f82c19131e6201cd59a374f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 46/60] fix: implementation model refuses elements outside of
 packages

---
 src/autosar/model/implementation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index e8e2403..847567d 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -50,6 +50,8 @@ class ImplementationModel:
         Creates new application element from xml-based element
         """
         elem_ref = element.ref()
+        if elem_ref is None:
+            raise ValueError(f"{element.name}: Element is not part of a package")
         if str(elem_ref) not in self.data_types:
             self._create_data_type(element)
         if is_source:
-- 
2.43.0


From 23c56bb604c76d79cbc6c420a60b30bd6b3e54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 47/60] fix: type references keep their type emitter

---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 847567d..3427f77 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -143,7 +143,7 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol, type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From 5c7c832b37f44096763976b3b7c19485386b49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 48/60] fix: array properties reach the implementation model

---
 src/autosar/model/implementation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 3427f77..68660aa 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -160,12 +160,7 @@ class ImplementationModel:
             sub_element = self._create_array_type_element_from_ref_type(elem_ref, last_element)
         else:
             raise NotImplementedError(last_element.category)
-        if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
-        if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
-        if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+        self._set_array_properties(sub_element, last_element)
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
@@ -175,6 +170,16 @@ class ImplementationModel:
         self.data_types[str(elem_ref)] = data_type
         return data_type
 
+    def _set_array_properties(self,
+                              sub_element: rte_element.ArrayTypeElement,
+                              element: ar_element.ImplementationDataTypeElement) -> None:
+        if element.array_impl_policy is not None:
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[element.array_impl_policy.name]
+        if element.array_size_handling is not None:
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[element.array_size_handling.name]
+        if element.array_size_semantics is not None:
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[element.array_size_semantics.name]
+
     def _create_array_type_element_from_scalar_type(self,
                                                     parent_ref: str,
                                                     element: ar_element.ImplementationDataTypeElement
-- 
2.43.0


From aad4ebb1ab8182f9f61254c54866ac34e472ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 49/60] fix: arrays with more than one dimension

---
 src/autosar/generator/type_generator.py | 4 +++-
 src/autosar/model/implementation.py     | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..b265820 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -129,7 +129,9 @@ class TypeGenerator:
             target_type = C.type(last_element.data_type.impl_type.name)
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
-        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=last_element.array_size)))
+        # One pair of brackets per dimension
+        array_size = "][".join(str(element.array_size) for element in data_type.sub_elements)
+        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=array_size)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 68660aa..8850c73 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -164,8 +164,9 @@ class ImplementationModel:
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-            assert isinstance(xml_ref.array_size, int)
+            assert isinstance(ar_sub_elem.array_size, int)
             rte_sub_element = rte_element.ArrayTypeElement(xml_ref, ar_sub_elem.name, ar_sub_elem.array_size)
+            self._set_array_properties(rte_sub_element, ar_sub_elem)
             data_type.sub_elements.insert(0, rte_sub_element)
         self.data_types[str(elem_ref)] = data_type
         return data_type
-- 
2.43.0


From bb3c0f4cfbec7820623778c7a26cdf58dca9051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 50/60] fix: pointer types can be generated

---
 src/autosar/generator/type_generator.py | 2 ++
 src/autosar/model/implementation.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index b265820..77164e6 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -109,6 +109,8 @@ class TypeGenerator:
                 code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.base_type.name))))
             elif isinstance(data_type, rte_element.RefType):
                 code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.impl_type.name))))
+            elif isinstance(data_type, rte_element.PointerType):
+                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.target_type.name, pointer=True))))
             elif isinstance(data_type, rte_element.ArrayType):
                 code.append(self._gen_array_type_def(data_type))
             elif isinstance(data_type, rte_element.RecordType):
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 8850c73..c7a2f8c 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -285,6 +285,8 @@ class ImplementationModel:
             node.add_child(self._create_tree_node(data_type.base_type))
         elif isinstance(data_type, rte_element.RefType):
             node.add_child(self._create_tree_node(data_type.impl_type))
+        elif isinstance(data_type, rte_element.PointerType):
+            node.add_child(self._create_tree_node(data_type.target_type))
         elif isinstance(data_type, rte_element.ArrayType):
             last_element: rte_element.ArrayTypeElement = data_type.sub_elements[-1]
             self._process_array_or_record_element_tree_node(node, last_element.data_type)
-- 
2.43.0


From 7bd56618afcd84c6aa3af8f96a86ee92e6367319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 51/60] fix: linkage specification of the type header is for
 C++ only

---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 77164e6..06af83f 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From bae18dba7f1ec156a7abf2c618b33243dd079c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 52/60] fix: generated types use the symbol of their data type

---
 src/autosar/generator/type_generator.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 06af83f..0d9e8c9 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -97,6 +97,12 @@ class TypeGenerator:
         writer = cfile.Writer(cfile.StyleOptions())
         return writer.write_str(code)
 
+    def _c_name(self, data_type: rte_element.DataType) -> str:
+        """
+        Name of the data type in C: a symbol replaces the short name
+        """
+        return data_type.symbol_name if isinstance(data_type, rte_element.ImplementationType) else data_type.name
+
     def _gen_type_defs(self, data_types: Iterator[rte_element.Element]) -> cfile.core.Sequence:
         """
         Generates typedefs section
@@ -106,11 +112,12 @@ class TypeGenerator:
             if isinstance(data_type, rte_element.BaseType):
                 code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.native_declaration))))
             elif isinstance(data_type, rte_element.ScalarType):
-                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.base_type.name))))
+                code.append(C.statement(C.declaration(C.typedef(self._c_name(data_type), data_type.base_type.name))))
             elif isinstance(data_type, rte_element.RefType):
-                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.impl_type.name))))
+                code.append(C.statement(C.declaration(C.typedef(self._c_name(data_type), self._c_name(data_type.impl_type)))))
             elif isinstance(data_type, rte_element.PointerType):
-                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.target_type.name, pointer=True))))
+                target_name = self._c_name(data_type.target_type)
+                code.append(C.statement(C.declaration(C.typedef(self._c_name(data_type), target_name, pointer=True))))
             elif isinstance(data_type, rte_element.ArrayType):
                 code.append(self._gen_array_type_def(data_type))
             elif isinstance(data_type, rte_element.RecordType):
@@ -128,12 +135,12 @@ class TypeGenerator:
             else:
                 target_type = C.type(scalar_type.base_type.name)
         elif isinstance(last_element.data_type, rte_element.RefType):
-            target_type = C.type(last_element.data_type.impl_type.name)
+            target_type = C.type(self._c_name(last_element.data_type.impl_type))
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
         # One pair of brackets per dimension
         array_size = "][".join(str(element.array_size) for element in data_type.sub_elements)
-        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=array_size)))
+        return C.statement(C.declaration(C.typedef(self._c_name(data_type), target_type, array=array_size)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
@@ -145,13 +152,13 @@ class TypeGenerator:
                 else:
                     target_type = C.type(scalar_type.base_type.name)
             elif isinstance(element.data_type, rte_element.RefType):
-                target_type = C.type(element.data_type.impl_type.name)
+                target_type = C.type(self._c_name(element.data_type.impl_type))
             else:
                 raise NotImplementedError(str(type(element.data_type)))
             members.append(C.struct_member(element.name, target_type))
-        struct_name = "Rte_struct_" + data_type.name
+        struct_name = "Rte_struct_" + self._c_name(data_type)
         code = C.sequence()
         struct = C.struct(struct_name, members)
         code.append(C.statement(C.declaration(struct)))
-        code.append(C.statement(C.declaration(C.typedef(data_type.name, struct))))
+        code.append(C.statement(C.declaration(C.typedef(self._c_name(data_type), struct))))
         return code
-- 
2.43.0


From e53850da512307a3c539468ae9de22f8825284c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 53/60] fix: unsupported tags inside constraints, mappings,
 policies, idents and areas are reported

---
 src/autosar/xml/reader.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index e33dcdd..174cc70 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1368,6 +1368,7 @@ class Reader:
         xml_child = child_elements.get("INTERNAL-CONSTRS")
         if xml_child is not None:
             data["internal"] = self._read_internal_constraint(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataConstraintRule(**data)
 
     def _read_internal_constraint(self, xml_element: ElementTree.Element) -> ar_element.InternalConstraint:
@@ -1379,6 +1380,7 @@ class Reader:
         data = {}
         child_elements = ChildElementMap(xml_element)
         self._read_constraint_base(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InternalConstraint(**data)
 
     def _read_physical_constraint(self, xml_element: ElementTree.Element) -> ar_element.PhysicalConstraint:
@@ -1393,6 +1395,7 @@ class Reader:
         xml_child = child_elements.get("UNIT-REF")
         if xml_child is not None:
             data["unit_ref"] = self._read_unit_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PhysicalConstraint(**data)
 
     def _read_constraint_base(self, child_elements: ChildElementMap, data: dict[str, Any]) -> None:
@@ -1463,6 +1466,7 @@ class Reader:
         validity = xml_element.attrib.get("VALIDITY")
         if validity is not None:
             data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", validity)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
@@ -1695,6 +1699,7 @@ class Reader:
         xml_child = child_elements.get("SW-DATA-DEF-PROPS-VARIANTS")
         if xml_child is not None:
             data['variants'] = self._read_sw_data_def_props_variants(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.SwDataDefProps(**data)
 
     def _read_sw_data_def_props_variants(self,
@@ -2145,6 +2150,7 @@ class Reader:
         xml_child = child_elements.get("IMPLEMENTATION-DATA-TYPE-REF")
         if xml_child is not None:
             data["impl_data_type_ref"] = self._read_impl_data_type_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataTypeMap(**data)
 
     def _read_data_type_mapping_set(self, xml_element: ElementTree.Element) -> ar_element.DataTypeMappingSet:
@@ -3241,6 +3247,7 @@ class Reader:
         xml_child = child_elements.get('ERROR-REACTION-POLICY')
         if xml_child is not None:
             data["error_reaction_policy"] = ar_enum.xml_to_enum("ModeErrorReactionPolicy", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeErrorBehavior(**data)
 
     def _read_mode_transition(self, xml_element: ElementTree.Element) -> ar_element.ModeTransition:
@@ -3470,6 +3477,7 @@ class Reader:
         xml_child = child_elements.get("HANDLE-INVALID")
         if xml_child is not None:
             data["handle_invalid"] = ar_enum.xml_to_enum("HandleInvalid", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InvalidationPolicy(**data)
 
     def _read_application_error(self, xml_element: ElementTree.Element) -> ar_element.ApplicationError:
@@ -4524,6 +4532,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_p_operation_in_atomic_swc_instance_ref(self,
@@ -4601,6 +4610,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.RModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_r_operation_in_atomic_swc_instance_ref(self,
@@ -4911,6 +4921,7 @@ class Reader:
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExternalTriggeringPointIdent(**data)
 
     def _read_external_triggering_point(self, xml_element: ElementTree.Element) -> ar_element.ExternalTriggeringPoint:
@@ -4962,6 +4973,7 @@ class Reader:
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
         self._read_async_server_call_result_point_group(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPointIdent(**data)
 
     def _read_mode_access_point(self, xml_element: ElementTree.Element) -> ar_element.ModeAccessPoint:
@@ -5709,6 +5721,7 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExclusiveArea(**data)
 
     def _read_swc_internal_behavior(self, xml_element: ElementTree.Element) -> ar_element.SwcInternalBehavior:
-- 
2.43.0


From 91333fed5282ea239a05fc1e7171afdcea6b2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 54/60] fix: elements are read whatever parts of the admin data
 are left out

---
 src/autosar/xml/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 174cc70..223d4c2 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -557,7 +557,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None and len(xml_sdgs):
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
@@ -577,14 +577,14 @@ class Reader:
         """
         group_key = xml_element.attrib['GID']
         xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        special_data = {} if xml_sd is None else self._read_admin_data_sd(xml_sd)
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
         """
         Reads Complex-type AR:SD
         """
-        key = xml_element.attrib['GID']
+        key = xml_element.attrib.get('GID')
         value = xml_element.text
         return {key: value}
 
-- 
2.43.0


From 0b59da73e5a03b04cb94a97d700679aa906fcc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 55/60] fix: values, fields and context references of unknown
 type are refused instead of ignored

---
 src/autosar/xml/element.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 256ed3a..36a03ce 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2476,6 +2476,8 @@ class SwValues(ARObject):
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
+            else:
+                raise TypeError(f"values: Invalid type '{str(type(values))}'")
 
     def append(self, value: SwValueElement) -> None:
         """
@@ -2740,6 +2742,8 @@ class ArrayValueSpecification(ValueSpecification):
             elif isinstance(elements, list):
                 for element in elements:
                     self.append(element)
+            else:
+                raise TypeError(f"elements: Invalid type '{str(type(elements))}'")
 
     def append(self, element: ValueSpecificationElement):
         """
@@ -2768,6 +2772,8 @@ class RecordValueSpecification(ValueSpecification):
             elif isinstance(fields, list):
                 for field in fields:
                     self.append(field)
+            else:
+                raise TypeError(f"fields: Invalid type '{str(type(fields))}'")
 
     def append(self, field: ValueSpecificationElement):
         """
@@ -5839,6 +5845,8 @@ class ArVariableInImplementationDataInstanceRef(ARObject):
             elif isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                raise TypeError(f"context_data_prototype_refs: Invalid type '{str(type(context_data_prototype_refs))}'")
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: AbstractImplementationDataTypeElementRef):
         """
-- 
2.43.0


From 71f06d636bc97d4303b414afae43b21f5c8a8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:53 +0000
Subject: [PATCH 56/60] fix: comments and processing instructions do not cut
 off the text around them

---
 src/autosar/xml/reader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 223d4c2..8e28c70 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -353,7 +353,7 @@ class Reader:
         Reads ARXML document file
         """
         self._reset()
-        self.xml_root = ElementTree.ElementTree().parse(file_path)
+        self.xml_root = ElementTree.ElementTree().parse(file_path, self._create_parser())
         self.file_path = file_path
         self.file_base_name = os.path.basename(file_path)
         self.stop_on_error = stop_on_error
@@ -367,7 +367,7 @@ class Reader:
         Reads ARXML document from string.
         """
         self._reset()
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -382,7 +382,7 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self._reset()
-        elem = ElementTree.fromstring(xml)
+        elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
         else:
@@ -394,6 +394,12 @@ class Reader:
 
     # --- Utility methods
 
+    def _create_parser(self) -> ElementTree.XMLParser:
+        """
+        Comments and processing instructions carry no meaning, not even in the middle of a text
+        """
+        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+
     def _reset(self) -> None:
         """
         Forgets everything about previously read documents
-- 
2.43.0


From 7ebcb929ae500cc8038662cc76e933e712572630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 57/60] fix: a document is read from a string whatever encoding
 it declares

---
 src/autosar/xml/reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 8e28c70..6f45c32 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -367,7 +367,7 @@ class Reader:
         Reads ARXML document from string.
         """
         self._reset()
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser(encoding="utf-8"))
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -394,11 +394,12 @@ class Reader:
 
     # --- Utility methods
 
-    def _create_parser(self) -> ElementTree.XMLParser:
+    def _create_parser(self, encoding: str | None = None) -> ElementTree.XMLParser:
         """
-        Comments and processing instructions carry no meaning, not even in the middle of a text
+        Comments and processing instructions carry no meaning, not even in the middle of a text.
+        An encoding given here overrides the one the document declares.
         """
-        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+        return ElementTree.XMLParser(encoding=encoding, remove_comments=True, remove_pis=True)
 
     def _reset(self) -> None:
         """
-- 
2.43.0


From c142b6c6d925ac3c3d3849bb7b06569436cde3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 58/60] fix: integers and numbers are read in every AUTOSAR
 notation

---
 src/autosar/base.py        |  9 +++++++++
 src/autosar/xml/element.py |  4 ++--
 src/autosar/xml/reader.py  | 25 ++++++++++++++-----------
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/autosar/base.py b/src/autosar/base.py
index 5471a6c..d7e5a39 100644
--- a/src/autosar/base.py
+++ b/src/autosar/base.py
@@ -1,6 +1,7 @@
 """Shared declarations"""
 from typing import Any
 import abc
+import re
 
 DEFAULT_SCHEMA_VERSION = 51
 
@@ -25,6 +26,14 @@ def split_ref_strict(ref: str) -> list[str] | None:
     return ref.split(sep)
 
 
+def parse_integer(text: str) -> int:
+    """
+    Converts text of AR:INTEGER which can be decimal, hexadecimal, binary or octal (having a leading zero)
+    """
+    is_octal = re.fullmatch(r"\s*0[0-7]+\s*", text) is not None
+    return int(text, 8 if is_octal else 0)
+
+
 class Searchable(abc.ABC):
     """
     Searchable interface
diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 36a03ce..6d00d13 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -9,7 +9,7 @@ from typing import Any, Union
 from collections import OrderedDict
 
 
-from autosar.base import split_ref, split_ref_strict, Searchable
+from autosar.base import parse_integer, split_ref, split_ref_strict, Searchable
 from autosar.xml.base import ARObject, BaseRef
 import autosar.xml.enumeration as ar_enum
 import autosar.xml.exception as ar_except
@@ -162,7 +162,7 @@ class PositiveIntegerValue:
     def _validate_value(self, value: int | str) -> int:
         if isinstance(value, str):
             try:
-                value = int(value, 0)
+                value = parse_integer(value)
             except ValueError as err:
                 raise TypeError("Unable to convert to integer") from err
         if isinstance(value, int):
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 6f45c32..b01daaf 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -479,8 +479,11 @@ class Reader:
         except ValueError:
             try:
                 value = float(text)
-            except ValueError as exc:
-                raise ar_exception.ParseError(f"Not a number: {text}") from exc
+            except ValueError:
+                try:
+                    value = int(text, 0)  # hexadecimal or binary
+                except ValueError as exc:
+                    raise ar_exception.ParseError(f"Not a number: {text}") from exc
         return value
 
     def _read_integer(self, text: str) -> int:
@@ -488,7 +491,7 @@ class Reader:
         Reads AR:INTEGER
         """
         try:
-            value = int(text, 0)
+            value = ar_base.parse_integer(text)
         except ValueError as exc:
             raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
         return value
@@ -1244,7 +1247,7 @@ class Reader:
             data["desc"] = self._read_multi_language_overview_paragraph(xml_child)
         xml_child = child_elements.get("MASK")
         if xml_child is not None:
-            data["mask"] = int(xml_child.text)
+            data["mask"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("LOWER-LIMIT")
         if xml_child is not None:
             limit, interval_type = self._read_limit(xml_child)
@@ -1368,7 +1371,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("CONSTR-LEVEL")
         if xml_child is not None:
-            data["level"] = int(xml_child.text)
+            data["level"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("PHYS-CONSTRS")
         if xml_child is not None:
             data["physical"] = self._read_physical_constraint(xml_child)
@@ -1688,10 +1691,10 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         bit_position = child_elements.get('BIT-POSITION')
         if bit_position is not None:
-            data['position'] = int(bit_position.text)
+            data['position'] = self._read_integer(bit_position.text)
         number_of_bits = child_elements.get('NUMBER-OF-BITS')
         if number_of_bits is not None:
-            data['num_bits'] = int(number_of_bits.text)
+            data['num_bits'] = self._read_integer(number_of_bits.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.SwBitRepresentation(**data)
 
@@ -1758,8 +1761,8 @@ class Reader:
         xml_child = child_elements.get('SW-ALIGNMENT')
         if xml_child is not None:
             try:
-                sw_alignment = int(xml_child.text, 0)
-            except ValueError:
+                sw_alignment = self._read_integer(xml_child.text)
+            except ar_exception.ParseError:
                 sw_alignment = xml_child.text
             data['alignment'] = sw_alignment
         xml_child = child_elements.get('BASE-TYPE-REF')
@@ -1906,7 +1909,7 @@ class Reader:
                                                                self.schema_version)
         xml_child = child_elements.get("ARRAY-SIZE")
         if xml_child is not None:
-            data["array_size"] = int(xml_child.text)
+            data["array_size"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE-HANDLING")
         if xml_child is not None:
             data["array_size_handling"] = ar_enum.xml_to_enum("ArraySizeHandling", xml_child.text)
@@ -2057,7 +2060,7 @@ class Reader:
             data["index_data_type_ref"] = self._read_index_data_type_ref(xml_child)
         xml_child = child_elements.get("MAX-NUMBER-OF-ELEMENTS")
         if xml_child is not None:
-            data["max_number_of_elements"] = int(xml_child.text)
+            data["max_number_of_elements"] = self._read_integer(xml_child.text)
 
     def _read_application_record_element(self, xml_element: ElementTree.Element) -> ar_element.ApplicationRecordElement:
         """
-- 
2.43.0


From 87498b484d03961c317ef92c57f0914c0f757cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 59/60] fix: hexadecimal and binary notation is recognised with
 upper-case prefix

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6d00d13..d38d3aa 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -111,9 +111,9 @@ class NumericalValue:
                  ) -> None:
         self._value = self._validate_value(value)
         if isinstance(value, str):
-            if value.startswith("0x"):
+            if value.lower().startswith("0x"):
                 value_format = ar_enum.ValueFormat.HEXADECIMAL
-            elif value.startswith("0b"):
+            elif value.lower().startswith("0b"):
                 value_format = ar_enum.ValueFormat.BINARY
         self.value_format = value_format
 
-- 
2.43.0


From 3619c6cd7772101018e42ec40a15ea75cf011c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 60/60] fix: a mode switch event refuses more than two modes,
 which were dropped when written

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d38d3aa..bb0d2ec 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -7696,6 +7696,8 @@ class SwcModeSwitchEvent(RteEvent):
             if isinstance(mode, RModeInAtomicSwcInstanceRef):
                 self.mode = mode
             elif isinstance(mode, tuple):
+                if len(mode) != 2:
+                    raise ValueError(f"mode: Expected a tuple with two values, got {len(mode)}")
                 if (isinstance(mode[0], RModeInAtomicSwcInstanceRef) and  # noqa W504
                         isinstance(mode[1], RModeInAtomicSwcInstanceRef)):
                     self.mode = mode
-- 
2.43.0

