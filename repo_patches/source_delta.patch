From 68788facee3af2cb511a10f054294fab0ace78d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 01/50] fix: deleting a field in the pure-Python descriptor
 removes the value and announces it

---
 vrml/field.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 95b8e09..34ea18e 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -166,20 +166,21 @@ else:
             return defaultobj
 
         def __delete__(self, client):
-            """Delete our value from client's dictionary"""
-            try:
-                client.__dict__[self.name]
-            except KeyError:
-                raise AttributeError(self.name)
+            """Delete our value from client's dictionary (notifies)"""
+            self.fdel(client)
 
         def fdel(self, client, notify=True):
             """Delete with notify"""
-            self.__delete__(client)
+            try:
+                value = client.__dict__.pop(self.name)
+            except KeyError:
+                raise AttributeError(self.name)
             if notify:
                 dispatcher.send(
                     ('del', self),
                     client,
                 )
+            return value
 
 
 class Field(BaseField):
-- 
2.43.0


From dc255b99f123560e22a3ef8cd8fe2aa498e903a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 02/50] fix: OList item deletion and clear() remove the items
 they announce as removed

---
 vrml/olist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/olist.py b/vrml/olist.py
index c129852..51a9559 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -87,8 +87,12 @@ class OList( list ):
             return current 
         else:
             value = self[index]
+            super( OList,self ).__delitem__( index )
             self._sendRemoved( value )
         return value
+    def clear( self ):
+        """Remove all items"""
+        self.__delitem__( slice(None) )
     def __delslice__( self, i,j):
         return self.__delitem__( slice(i,j))
     def __setitem__( self, index, value ):
-- 
2.43.0


From a7588804161c6c614d8964d6fbd941b13c13c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 03/50] fix: OList += returns the list itself instead of just
 the added items

---
 vrml/olist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index 51a9559..bc93607 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -123,8 +123,11 @@ class OList( list ):
             return value 
     def __setslice__( self, i,j, iterable ):
         return self.__setitem__( slice(i,j), iterable)
+    def extend( self, iterable ):
+        """Append all of the items in iterable"""
+        return self.__setitem__( slice(len(self),len(self)), iterable )
     def __iadd__( self, iterable ):
         """Do an in-place add"""
-        return self.__setitem__( slice(len(self),len(self)), iterable )
-    extend = __iadd__
+        self.extend( iterable )
+        return self
     
-- 
2.43.0


From 77e35e716735ad6b4c1f4716cdcd6525727b557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 04/50] fix: getField returns the field found by storage name,
 not the name

---
 vrml/protofunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index fd1fa1b..6f495a6 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -129,11 +129,11 @@ def getField(cls, field):
         # OK, may be a space-prefixed name...
         for fieldObject in getFields(cls):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be an event with space-prefixed name
         for fieldObject in getFields(cls, 1):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be one of the "component" events
         # of a field...
         if field.startswith("set_"):
-- 
2.43.0


From 15124299546fc107056dbd3206a4df06c1a38c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 05/50] fix: vector fields accept a single number (it was
 overwritten before being read)

---
 vrml/fieldtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 5911c56..7f2a1f6 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -519,8 +519,9 @@ class _SFVec(object):
         if isinstance(value, (str, unicode)):
             value = [float(x) for x in value.replace(',', ' ').split()]
         if isinstance(value, (int, long, float)):
+            scalar = float(value)
             value = arrays.zeros(self.dimension, self.targetType)
-            value[:] = float(value)
+            value[:] = scalar
         elif isinstance(value, arrays.ArrayType):
             if arrays.typeCode(value) not in self.acceptedTypes:
                 value = value.astype(self.targetType)
-- 
2.43.0


From ec971a392984b6b6bb316fcac9d736cda33c5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 06/50] fix: matrix fields accept sequences (the reshaped array
 was discarded)

---
 vrml/fieldtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 7f2a1f6..670191a 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -528,7 +528,7 @@ class _SFVec(object):
             value = value.reshape(self.dimension)
         elif isinstance(value, field.SEQUENCE_TYPES):
             value = arrays.asarray([float(x) for x in collapse(value)], self.targetType)
-            value.reshape(self.dimension)
+            value = value.reshape(self.dimension)
         else:
             try:
                 value = arrays.asarray(value, self.targetType)
@@ -538,7 +538,7 @@ class _SFVec(object):
                     % (self.typeName(), repr(value))
                 )
             else:
-                value.reshape(self.dimension)
+                value = value.reshape(self.dimension)
         if value.shape != self.dimension:
             raise ValueError(
                 """%s value of incorrect shape (is %s, should be %s)"""
-- 
2.43.0


From 037290ce125cc3357cfc412b8a381b186f658b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 07/50] fix: SFArray and multi-vector fields accept strings
 (missing replace argument)

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 670191a..a71a5f5 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -591,7 +591,7 @@ class _SFArray(object):
         if isinstance(value, (str, unicode)):
             value = [
                 float(x)
-                for x in value.replace(',', ' ').replace('[', ' ').replace(']').split()
+                for x in value.replace(',', ' ').replace('[', ' ').replace(']', ' ').split()
             ]
         if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
             value = list(value)
-- 
2.43.0


From edfc2143f24cf8e9c6ab01f78ac18a6d5a9fa202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 08/50] fix: the length of a vector field type can be read (it
 assigned to itself)

---
 vrml/fieldtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index a71a5f5..13837d1 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -507,8 +507,7 @@ class _SFVec(object):
     def length(self):
         import operator
 
-        self.length = reduce(operator.mul, self.dimension)
-        return self.length
+        return reduce(operator.mul, self.dimension)
 
     def defaultDefault(self):
         """Default default value for vectors/colours"""
-- 
2.43.0


From b20b7b55b568f4f508929af2438d2345bc898d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 09/50] fix: MFVec2d stores double precision like the other
 double types

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 13837d1..c0ea3e8 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -1050,7 +1050,7 @@ class MFVec2fEvt(
     fieldType = 'MFVec2f'
 
 
-class MFVec2d(_MFVec2f, field.Field):
+class MFVec2d(_MFVec2d, field.Field):
     """MFVec2d Field class"""
 
 
-- 
2.43.0


From af7e5fc5d9aa0bb19c0eba266bc0c61f28b211dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 10/50] fix: MFString.check accepts lists of strings

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index c0ea3e8..e983943 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -230,7 +230,7 @@ class _MFString(object):
     def check(self, value):
         "Raise ValueError if isn't correct type"
         if isinstance(value, list):
-            if not filter(None, [isinstance(item, (str, unicode)) for item in value]):
+            if all(isinstance(item, (str, unicode)) for item in value):
                 return 1
         return 0
 
-- 
2.43.0


From 6a3c32868c1b5d49dbe920e0a82e607c4f9e3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 11/50] fix: string lists are linearised as strings instead of
 as lists of nodes

---
 vrml/vrml97/linearise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index daeac81..1812bcb 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -469,6 +469,10 @@ class Lineariser:
         Nodes, ProtoTypes and ExternProtos (well, not according to the
         parsers, but someone might attempt it).
         '''
+        if isinstance(anyobj, list) and not field.nodes:
+            # a list of simple values (MFString), not a list of nodes
+            self.buffer.write(field.vrmlstr(anyobj, self))
+            return
         try:
             if field is node.RootScenegraphNode:
                 return
-- 
2.43.0


From 9cb0044146eb4eb1cbaf4688f3258e197dad7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 12/50] fix: array values only compare equal to their default
 when every component does

---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 2c765f9..27e2c78 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -75,7 +75,7 @@ def safeCompare(first, second):
     if isinstance(first, (int, float, str)):
         return first == second
     if isinstance(first, ArrayType) and isinstance(second, ArrayType):
-        return bool(any(first == second))
+        return first.shape == second.shape and bool(all(first == second))
     elif type(first) != type(second):
         return False
     return bool(first == second)
-- 
2.43.0


From b1b49c97e9ebdd15f43710c6936a5d9a2e6c8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 13/50] fix: scale-only path matrices are recalculated when a
 transform's center changes

---
 vrml/vrml97/nodepath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index c5db622..1361455 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -75,6 +75,7 @@ class _NodePath( object ):
                     holder.depend( item, 'scaleOrientation' )
                 if rotate:
                     holder.depend( item, 'rotation' )
+                if scale or rotate:
                     holder.depend( item, 'center' )
             return child_holder.data[inverse]
         matrix = transformmatrix.compressMatrices( 
-- 
2.43.0


From aed1df571cd5411805fab5f0cda92bff01fea268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 14/50] fix: transformmatrix.center works for non-null
 translations and centers

---
 vrml/vrml97/transformmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/transformmatrix.py b/vrml/vrml97/transformmatrix.py
index 2cd2ca3..1cef5a4 100644
--- a/vrml/vrml97/transformmatrix.py
+++ b/vrml/vrml97/transformmatrix.py
@@ -188,6 +188,6 @@ def center(
     T,T1 = transMatrix( translation )
     C,C1 = transMatrix( center )
     for x in (T,C):
-        if x:
+        if x is not None:
             parentMatrix = dot( x, parentMatrix)
     return dot( ORIGINPOINT, parentMatrix )
-- 
2.43.0


From 0c511f561ab598314b957f8e44d9c0694c3a4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 15/50] fix: reading the default appearance of a ShaderGeometry
 no longer raises

---
 vrml/vrml97/shaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/shaders.py b/vrml/vrml97/shaders.py
index 225daa7..50ab4bb 100644
--- a/vrml/vrml97/shaders.py
+++ b/vrml/vrml97/shaders.py
@@ -23,7 +23,7 @@ class ShaderGeometry( nodetypes.Children, nodetypes.Rendering, node.Node ):
     attributes = field.newField( 'attributes','MFNode',1,list )
     slices = field.newField( 'slices', 'MFNode',1,list )
     uniforms = field.newField( 'uniforms','MFNode',1,list )
-    appearance = field.newField( 'appearance', 'SFNode',1,list )
+    appearance = field.newField( 'appearance', 'SFNode',1,node.NULL )
 
 class ShaderSlice( node.Node ):
     """Segment of a shader geometry element to render"""
-- 
2.43.0


From 78898de100b44ffaa4e8d70205f69ae650adb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 16/50] fix: NULL equals NULL and nothing else, and is hashable

---
 vrml/node.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 7fbcc36..00f1e13 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -282,11 +282,11 @@ class NullNode(Node):
 
     def __eq__(self, other):
         """Compare the NULL node to other objects"""
-        try:
-            if protoName(self) == protoName(other):
-                return 0
-        except (AttributeError, TypeError, ValueError):
-            return -1  # could be 1, doesn't really matter
+        return isinstance(other, NullNode)
+
+    def __hash__(self):
+        """All NULL nodes are equal, so they hash alike"""
+        return hash(self.PROTO)
 
     def clone(self):
         """Replicate the null object (return another pointer to it)"""
-- 
2.43.0


From eb4a9ebd50aba90f0f440538149ad86a9584b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 17/50] fix: child lists assigned as attributes or created by
 default announce their changes

---
 vrml/node.py | 66 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 00f1e13..9a598f1 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -377,6 +377,10 @@ class SFNode(_SFNode, field.Field):
     a sub-class of _SFNode and field.Field
     """
 
+    def __set__(self, client, value):
+        """Attribute assignment has all of the effects of fset"""
+        self.fset(client, value)
+
 
 SFNode.requiredTypes = (Node,)
 
@@ -440,16 +444,23 @@ assert PrototypedNode.scenegraph.name == " scenegraph", PrototypedNode.scenegrap
 assert Node.rootSceneGraph.name == " root", Node.rootSceneGraph.name
 
 
-def _changeSender(nodeRef, field):
-    """Utility function to send node-change messages on olist updates"""
+def _changeSender(nodeRef, watched, listRef):
+    """Utility function to send node-change messages on olist updates
+
+    Messages about other fields of the node, or about a list which is
+    no longer the value of the field, are ignored.
+    """
 
-    def onOListChange(sender, signal, value):
+    def onOListChange(sender, signal, value, field=None):
         client = nodeRef()
-        if client:
+        current = listRef()
+        if client is None or current is None or field is not watched:
+            return
+        if client.__dict__.get(watched.name) is current:
             dispatcher.send(
-                ('set', field),
+                ('set', watched),
                 client,
-                value=sender,
+                value=current,
                 subsignal=signal,
                 subvalue=value,
             )
@@ -488,20 +499,7 @@ class _MFNode(object):
             # there's an update to the list... a bit wasteful, as
             # our clients might want to know about just the changed
             # values, but for now...
-            value.setSender(client, field=self)
-            cs = _changeSender(weakref.ref(client), self)
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.DEL_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.NEW_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
+            self._watchList(client, value)
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -511,6 +509,23 @@ class _MFNode(object):
                         Node.rootSceneGraph.fset(val, clientRoot, notify=0)
         return value
 
+    def _watchList(self, client, value):
+        """Send field-change messages from client when the list is mutated"""
+        value.setSender(client, field=self)
+        cs = _changeSender(weakref.ref(client), self, weakref.ref(value))
+        dispatcher.connect(
+            cs,
+            sender=client,
+            signal=olist.OList.DEL_CHILD_EVT,
+            weak=False,  # don't weakref receiver so it will hang around...
+        )
+        dispatcher.connect(
+            cs,
+            sender=client,
+            signal=olist.OList.NEW_CHILD_EVT,
+            weak=False,  # don't weakref receiver so it will hang around...
+        )
+
     def coerce(self, value):
         """Coerce value to an MFNode list-of-objects"""
         SF = self.__class__.baseSFNode
@@ -545,6 +560,17 @@ class _MFNode(object):
 class MFNode(_MFNode, field.Field):
     """MFNode Field class"""
 
+    def __set__(self, client, value):
+        """Attribute assignment has all of the effects of fset"""
+        self.fset(client, value)
+
+    def getDefault(self, client=None):
+        """Get the default list, stored in (and watched for) client if given"""
+        value = super(MFNode, self).getDefault(client)
+        if client is not None and not isinstance(client, type):
+            self._watchList(client, value)
+        return value
+
 
 class MFNodeEvt(_MFNode, field.Event):
     """MFNode Event class"""
-- 
2.43.0


From 4cd9e2b648ec4f715a638b9ee112ff937604d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 18/50] fix: weak node fields hold weak references on attribute
 assignment and read back the node

---
 vrml/field.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vrml/field.py b/vrml/field.py
index 34ea18e..962a744 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -341,6 +341,16 @@ class Field(BaseField):
 class WeakField(object):
     """A Mix-in for fields which stores weak-references to values"""
 
+    def __get__(self, client, cls=None):
+        """Attribute access retrieves the node, not the weak reference"""
+        if client is None:
+            return self
+        return self.fget(client)
+
+    def __set__(self, client, value):
+        """Attribute assignment stores a weak reference, as fset does"""
+        self.fset(client, value)
+
     def fset(self, client, value, notify=1):
         """Set the client's value for this property
 
-- 
2.43.0


From 4b6b5884c435c31c38b82d48ab9550c5aa5af787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 19/50] fix: values routed to an eventIn/eventOut reach the
 rest of the cascade, once

---
 vrml/route.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vrml/route.py b/vrml/route.py
index 1297887..98a7869 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -96,9 +96,18 @@ class ROUTE( node.Node ):
                     traceback.print_exc()
             else:
                 try:
-                    value = destinationField.__set__( destination, value )
+                    destinationField.__set__( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                else:
+                    # announced here, rather than by __set__, so that 
+                    # the announcement is part of this event cascade
+                    dispatcher.send(
+                        signal = ('set',destinationField),
+                        sender = destination,
+                        value = value,
+                        event = event,
+                    )
             dispatcher.send(
                 signal = ('route',destinationField),
                 sender = destination,
-- 
2.43.0


From a72917c5873c7e9c9d2d022c85cae25282a91dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 20/50] fix: slices of node paths are node paths on Python 3

---
 vrml/nodepath.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index db38c3f..8823658 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -47,9 +47,12 @@ class NodePath( list ):
         if isinstance( other, node.Node ):
             other = [other]
         return self.__class__( super(NodePath, self).__add__( other))
-    def __getslice__(self, start, stop):
-        """Return a new path with our items from start to stop"""
-        return self.__class__(super (NodePath, self).__getslice__(start, stop))
+    def __getitem__(self, index):
+        """Return our item at index, or a new path for a slice"""
+        result = super (NodePath, self).__getitem__(index)
+        if isinstance( index, slice ):
+            return self.__class__(result)
+        return result
     def __eq__( self, other ):
         """Check whether we are equal to another path"""
         if len(self) != len(other):
-- 
2.43.0


From a325229f03172a7ecc55e1e74087503c19b5fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 21/50] fix: WeakList works on Python 3 (iteration, item
 assignment, slices, +=, sort)

---
 vrml/weaklist.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index bfff2e0..225d228 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -1,5 +1,6 @@
 """list sub-class which holds weak references to objects"""
 
+import functools
 import weakref
 import types
 
@@ -52,7 +53,7 @@ class WeakList( list ):
         """
         return [
             self.unwrap(obj)
-            for obj in super( WeakList,self).__getslice__(0,len(self))
+            for obj in super( WeakList,self).__iter__()
         ]
     def __iter__( self ):
         """Iterate over the list, yielding strong references"""
@@ -66,7 +67,7 @@ class WeakList( list ):
         if isinstance( index, slice ):
             item = [self.wrap(x) for x in item]
         else:
-            item = self.wrap(x)
+            item = self.wrap(item)
         return super( WeakList,self).__setitem__(
             index, item
         )
@@ -84,11 +85,17 @@ class WeakList( list ):
         return super( WeakList, self).extend([
             self.wrap(obj) for obj in sequence 
         ])
-    __iadd__ = extend
+    def __iadd__( self, sequence ):
+        """Extend this list in-place"""
+        self.extend( sequence )
+        return self
 
     def __getitem__( self, index ):
-        """Get the item at the given index"""
-        return self.unwrap(super (WeakList,self).__getitem__( index))
+        """Get the item at the given index (or list of items for a slice)"""
+        result = super (WeakList,self).__getitem__( index)
+        if isinstance( index, slice ):
+            return [self.unwrap(obj) for obj in result]
+        return self.unwrap(result)
     def pop( self, index=-1 ):
         """Pop an item from the list, removing it and returning it"""
         return self.unwrap( super(WeakList,self).pop(index))
@@ -116,7 +123,7 @@ class WeakList( list ):
         """
         t = self.get()
         if function is not None:
-            result = t.sort( function )
+            result = t.sort( key = functools.cmp_to_key( function ) )
         else:
             result = t.sort( )
         self[:] = t
-- 
2.43.0


From 4053afd84f4c08515aad7b75c981e59be9f62383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 22/50] fix: a ProtoNamespace can be copied (dict has no
 __copy__)

---
 vrml/protonamespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index 38cd565..f41c477 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -9,5 +9,5 @@ class ProtoNamespace( dict ):
         raise AttributeError( '%r object has no %r attribute'%( self.__class__.__name__, key))
     def __copy__( self ):
         """Produce a ProtoNamespace copy of self"""
-        return self.__class__( super(ProtoNamespace,self).__copy__())
+        return self.__class__( self )
     
-- 
2.43.0


From ea90fb31c9473b1c2c90f1d6c539ce5af28a1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 23/50] fix: prototype instances and node copies do not share
 sub-nodes with their source

---
 vrml/field.py             |  8 +++++++
 vrml/node.py              | 48 ++++++++++++++++++++++++++-------------
 vrml/vrml97/scenegraph.py |  5 ++--
 3 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 962a744..080f853 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -384,6 +384,14 @@ class WeakField(object):
             return None  # super( WeakField, self).fget( client )
         return value
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier, refers to the copy of value if there is one"""
+        if not value:
+            return value
+        if copier is not None:
+            value = copier.use(value) or value
+        return weakref.ref(value)
+
 
 class Event(object):
     """An Event-handling Port definition
diff --git a/vrml/node.py b/vrml/node.py
index 9a598f1..514a3d1 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -130,13 +130,16 @@ class Node(object):
         previous = copier.use(self)
         if previous is not None:
             return previous
-        dictionary = {}
-        for field in getFields(self):
-            if field.fhas(self):
-                dictionary[field.name] = field.copy(self, copier)
         newNode = type(self).__new__(type(self))
-        newNode.__dict__.update(dictionary)
+        # registered first, so that references back to us (such as those
+        # of the routes of our scenegraph) are to the copy
         copier.use(self, newNode)
+        for field in getFields(self):
+            if field.fhas(self):
+                value = field.copy(self, copier)
+                newNode.__dict__[field.name] = value
+                if isinstance(field, MFNode):
+                    field._watchList(newNode, value)
         return newNode
 
     def toString(self, **namedargs):
@@ -198,6 +201,8 @@ class PrototypedNode(object):
         for fieldName, mappings in isMappings:
             sourceField = getField(self, fieldName)
             for destination, destinationField in mappings:
+                # the mapping is to the template's node, we want our own copy
+                destination = destination.copy(copier)
                 r = route.IS(
                     source=self,
                     sourceField=fieldName,
@@ -205,16 +210,17 @@ class PrototypedNode(object):
                     destinationField=destinationField,
                 )
                 sg.routes.append(r)
-            if hasattr(sourceField, 'getDefault'):
-                default = sourceField.getDefault()
-                try:
-                    getField(destination, destinationField).fset(
-                        destination,
-                        default,
-                        notify=0,
-                    )
-                except AttributeError:
-                    pass
+                if hasattr(sourceField, 'getDefault'):
+                    default = sourceField.getDefault()
+                    try:
+                        getField(destination, destinationField).fset(
+                            destination,
+                            default,
+                            # nested prototypes have mappings of their own
+                            notify=isinstance(destination, PrototypedNode),
+                        )
+                    except AttributeError:
+                        pass
         PrototypedNode.scenegraph.fset(self, sg)
 
     def renderedChildren(self, types=None):
@@ -292,6 +298,10 @@ class NullNode(Node):
         """Replicate the null object (return another pointer to it)"""
         return self
 
+    def copy(self, copier=None):
+        """Copy the null object (return another pointer to it)"""
+        return self
+
     def __str__(self):
         """Get a human-friendly representation of the NULL node"""
         return "NULL"
@@ -377,6 +387,12 @@ class SFNode(_SFNode, field.Field):
     a sub-class of _SFNode and field.Field
     """
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier"""
+        if isinstance(value, Node):
+            return value.copy(copier)
+        return value
+
     def __set__(self, client, value):
         """Attribute assignment has all of the effects of fset"""
         self.fset(client, value)
@@ -548,7 +564,7 @@ class _MFNode(object):
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
         SF = self.__class__.baseSFNode
-        return [SF.copyValue(node, copier) for node in value]
+        return self.baseObjectType([SF.copyValue(node, copier) for node in value])
 
 
 ##class WeakMFNode( MFNode ):
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 83eedf2..98cb844 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -2,7 +2,7 @@
 from vrml import node, protofunctions, protonamespace, fieldtypes, route
 from vrml import copier as copiermodule
 from vrml.vrml97 import nodetypes
-import weakref
+import copy, weakref
 from .._bytes import unicode
 
 class SceneGraph( nodetypes.Traversable, node.Node ):
@@ -168,7 +168,7 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
             for key,value in self.protoTypes.items():
                 newPrototypes[key] = protofunctions.copyProto( value, copier )
         else:
-            newPrototypes = self.protoTypes.copy()
+            newPrototypes = copy.copy( self.protoTypes )
         newDefs = {}
         for key,value in self.defNames.items():
             if (not key) or value is None:
@@ -177,5 +177,6 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
         node = super( SceneGraph, self).copy( copier )
         node.protoTypes = newPrototypes
         node.defNames = newDefs
+        node.root = self.root
         return node
     
-- 
2.43.0


From 0e9533d1b73233e0855a530d461e60486b769186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 24/50] fix: rotation matrices of a zero axis work without the
 extensions too (they divided by zero)

---
 vrml/vrml97/_transformmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index f9de42a..a1c1123 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -22,6 +22,9 @@ def rotMatrix( source=None ):
     else:
         (x,y,z, a) = source
     if a % TWOPI:
+        if x == y == z == 0.0:
+            # no axis, as the accelerated version
+            y = 1.0
         # normalize the rotation vector!
         squared = x*x + y*y + z*z
         if squared != 1.0:
-- 
2.43.0


From dfa8e90953817aaca197975cbf28414a7d96b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 25/50] fix: observable lists announce in-place repetition (l
 *= n)

---
 vrml/olist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/olist.py b/vrml/olist.py
index bc93607..a3cb336 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -130,4 +130,8 @@ class OList( list ):
         """Do an in-place add"""
         self.extend( iterable )
         return self
+    def __imul__( self, count ):
+        """Do an in-place repetition"""
+        self[:] = list(self) * count
+        return self
     
-- 
2.43.0


From d0c398315fcdd3cbd755cb44e9ed2518e0921f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 26/50] fix: a write starts one event cascade, shared by all
 routes of the written field

---
 accelerate/src/fieldaccel2.pyx | 3 +++
 vrml/field.py                  | 8 +++++++-
 vrml/node.py                   | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 9abc0bb..210d439 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -1,4 +1,5 @@
 from pydispatch.dispatcher import send
+from vrml.event import Event
 _NULL = object()
 
 cdef class BaseField( object ):
@@ -71,6 +72,7 @@ cdef class BaseField( object ):
             send(
                 ('del',self), 
                 client, 
+                event=Event(),
             )
         return value
     cdef _set(self, client, value, int notify ):
@@ -90,5 +92,6 @@ cdef class BaseField( object ):
                 ('set',self), 
                 client, 
                 value=value,
+                event=Event(),
             )
         return value 
diff --git a/vrml/field.py b/vrml/field.py
index 080f853..3098b42 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -4,6 +4,7 @@ from pydispatch import dispatcher, robustapply
 import weakref
 import sys
 from vrml import protonamespace
+from vrml import event as eventmodule
 
 # conditional import via package entry points
 try:
@@ -112,6 +113,7 @@ else:
                 ('set', self),
                 client,
                 value=value,
+                event=eventmodule.Event(),
             )
             # return value
 
@@ -122,6 +124,7 @@ else:
                     ('set', self),
                     client,
                     value=value,
+                    event=eventmodule.Event(),
                 )
             return value
 
@@ -179,6 +182,7 @@ else:
                 dispatcher.send(
                     ('del', self),
                     client,
+                    event=eventmodule.Event(),
                 )
             return value
 
@@ -423,7 +427,9 @@ class Event(object):
         client.__dict__[self.name] = value
         # and then send event letting world know...
         if notify:
-            dispatcher.send(('set', self), client, value=value)
+            dispatcher.send(
+                ('set', self), client, value=value, event=eventmodule.Event()
+            )
 
     def __get__(self, client=None, cls=None):
         """Get an event's last value"""
diff --git a/vrml/node.py b/vrml/node.py
index 514a3d1..023576a 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -7,6 +7,7 @@ extensive use of properties
 from vrml import field, fieldtypes, weaklist, weakkeydictfix
 from vrml import copier as copiermodule
 from vrml import olist
+from vrml import event as eventmodule
 from vrml.protofunctions import *
 from pydispatch import dispatcher
 import weakref
@@ -479,6 +480,7 @@ def _changeSender(nodeRef, watched, listRef):
                 value=current,
                 subsignal=signal,
                 subvalue=value,
+                event=eventmodule.Event(),
             )
 
     return onOListChange
-- 
2.43.0


From 214e44ec2e13dd12ba3aab75c23ac825566bd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 27/50] fix: a replaced cache holder no longer removes the
 holder which replaced it

---
 vrml/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/cache.py b/vrml/cache.py
index 56d04be..f8c2f72 100644
--- a/vrml/cache.py
+++ b/vrml/cache.py
@@ -232,6 +232,9 @@ class CacheHolder( object ):
             if current is None:
                 return 0
             try:
+                if current[ self.key ] is not self:
+                    # replaced by another holder since
+                    return 0
                 del current[ self.key ]
                 if not current:
                     try:
-- 
2.43.0


From 8bd18fd6c2859f32f0843b2bb71e2f975efa8194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 28/50] fix: five CSS colour names denoted other colours than
 the CSS ones

---
 vrml/csscolors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 7e424c4..336c654 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -77,10 +77,10 @@ cssColors = {
     'beige' : (0.9608,0.9608,0.8627),
     'lightyellow' : (1.0,1.0,0.8784),
     'lightgoldenrodyellow' : (0.9804,0.9804,0.8235),
-    'darkgoldenrod' : (0.7216,0.7137,0.0431),
+    'darkgoldenrod' : (0.7216,0.5255,0.0431),
     'olive' : (0.502,0.502,0.0),
     'yellow' : (1.0,1.0,0.0),
-    'yellowgreen' : (0.6627,0.8039,0.1961),
+    'yellowgreen' : (0.6039,0.8039,0.1961),
     'olivedrab' : (0.4196,0.5569,0.1373),
     'darkolivegreen' : (0.3333,0.4196,0.1843),
     'greenyellow' : (0.6784,1.0,0.1843),
@@ -118,7 +118,7 @@ cssColors = {
     'powderblue' : (0.6902,0.8784,0.902),
     'lightblue' : (0.6784,0.8471,0.902),
     'deepskyblue' : (0.0,0.749,1.0),
-    'skyblue' : (0.5294,0.8078,0.9294),
+    'skyblue' : (0.5294,0.8078,0.9216),
     'lightskyblue' : (0.5294,0.8078,0.9804),
     'steelblue' : (0.2745,0.5098,0.7059),
     'aliceblue' : (0.9412,0.9725,1.0),
@@ -127,7 +127,7 @@ cssColors = {
     'dodgerblue' : (0.1176,0.5647,1.0),
     'lightsteelblue' : (0.6902,0.7686,0.8706),
     'cornflowerblue' : (0.3922,0.5843,0.9294),
-    'royalblue' : (0.0157,0.0863,0.5647),
+    'royalblue' : (0.2549,0.4118,0.8824),
     'ghostwhite' : (0.9725,0.9725,1.0),
     'lavender' : (0.902,0.902,0.9804),
     'midnightblue' : (0.098,0.098,0.4392),
@@ -157,7 +157,7 @@ cssColors = {
     'hotpink' : (1.0,0.4118,0.7059),
     'lavenderblush' : (1.0,0.9412,0.9608),
     'palevioletred' : (0.8588,0.4392,0.5765),
-    'pink' : (1.0,0.7529,0.8039),
+    'pink' : (1.0,0.7529,0.7961),
     'crimson' : (0.8627,0.0784,0.2353),
     'lightpink' : (1.0,0.7137,0.7569),
 }
-- 
2.43.0


From 1d97fcdbe9a900db799fb14154443ef96763619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 29/50] fix: '#' colours with a sign, prefix, blanks or
 underscores were accepted

---
 vrml/csscolors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 336c654..d871b0d 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -7,6 +7,8 @@ def stringToColor( value ):
         return possible
     if value and value[0] == '#':
         # HTML-style #hex encoding
+        if value[1:].strip( '0123456789abcdef' ):
+            raise ValueError( """String %(value)r isn't # followed by hexadecimal digits"""%locals())
         possible = int( value[1:],16)
         return toFloat(possible,16),toFloat(possible,8), toFloat(possible,0)
     else:
-- 
2.43.0


From e4884bbf53990966b774ca3137fc95d0797b6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 30/50] fix: numbers beyond a field type's range are refused
 with ValueError like other values

---
 accelerate/src/fieldaccel2.pyx | 2 +-
 vrml/field.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 210d439..e0b981c 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -79,7 +79,7 @@ cdef class BaseField( object ):
         """Set value to give value, with coercion"""
         try:
             value = self.coerce( value )
-        except ValueError as x:
+        except (ValueError, OverflowError) as x:
             raise ValueError( """Field %s could not accept value %s (%s)"""%( self, value, x))
         except TypeError as x:
             raise ValueError( """Field %s could not accept value %s of type %s (%s)"""%( self, value, type(value), x))
diff --git a/vrml/field.py b/vrml/field.py
index 3098b42..165d0b7 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -131,7 +131,7 @@ else:
         def _set(self, client, value):
             try:
                 value = self.coerce(value)
-            except ValueError as x:
+            except (ValueError, OverflowError) as x:
                 raise ValueError(
                     """Field %s could not accept value %s (%s)""" % (self, value, x)
                 )
-- 
2.43.0


From 691dbcb2bd3dd0b133920047978983c125a8c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 31/50] fix: structured arrays stored in SFArray fields are
 copied like other arrays

---
 vrml/fieldtypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index e983943..c90b8aa 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -616,7 +616,9 @@ class _SFArray(object):
                     % (self.typeName(), repr(value))
                 )
         # special casing, again, for explicitly structured arrays
-        if not arrays.typeCode(value) == 'V':
+        if arrays.typeCode(value) == 'V':
+            value = value.copy()
+        else:
             value = arrays.contiguous(self.reshape(value))
         return value
 
-- 
2.43.0


From 678daabd77ee5b0c8c2a781cbb63bb05a71cb169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 32/50] fix: values of every numeric field type can be parsed
 (double, 4-component, matrix and SFUInt32 fields had no handler)

---
 vrml/vrml97/parseprocessor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 670236e..3a24f95 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -373,6 +373,8 @@ class ParseProcessor(DispatchProcessor):
         (tup,) = table
         return int(getString(tup, buffer), 0)
 
+    SFUInt32 = SFInt32
+
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
 
@@ -380,6 +382,8 @@ class ParseProcessor(DispatchProcessor):
         return [float(getString(item, buffer)) for item in table]
 
     SFColor = SFVec3f
+    SFVec4f = SFVec2d = SFVec3d = SFVec4d = SFVec3f
+    SFMatrix3f = SFMatrix4f = SFMatrix3d = SFMatrix4d = SFVec3f
 
     def SFRotation(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -412,6 +416,8 @@ class ParseProcessor(DispatchProcessor):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     MFColor = MFRotation = MFVec2f = MFVec3f = MFTime = MFFloat32 = MFFloat
+    MFVec4f = MFVec2d = MFVec3d = MFVec4d = MFFloat
+    MFMatrix3f = MFMatrix4f = MFMatrix3d = MFMatrix4d = MFFloat
 
     def MFString(self, tuples, buffer):
         bigresult = []
-- 
2.43.0


From 5a8b522ba9696916fb579c9ee6dec322bcca1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 33/50] fix: matrices are linearised as numbers (their rows
 were written in numpy's notation)

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index c90b8aa..b68a8d7 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -553,7 +553,7 @@ class _SFVec(object):
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
         return _linvalues(lineariser)['numsep'].join(
-            [SFFloat_vrmlstr(obj, lineariser) for obj in value]
+            [SFFloat_vrmlstr(obj, lineariser) for obj in arrays.ravel(value)]
         )
 
     def copyValue(self, value, copier=None):
-- 
2.43.0


From efb2cd5c9cabfb8c5ab6d8fdecf28b0c5c437974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 34/50] fix: SFArray values are written and parsed with all
 components and digits (numpy's notation abbreviated them)

---
 vrml/fieldtypes.py            | 6 +++++-
 vrml/vrml97/parseprocessor.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index b68a8d7..038ecb7 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -638,7 +638,11 @@ class _SFArray(object):
 
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
-        return str(value)
+        if arrays.shape(value):
+            return '[%s]' % _linvalues(lineariser)['numsep'].join(
+                [self.vrmlstr(item, lineariser) for item in value]
+            )
+        return SFFloat_vrmlstr(value, lineariser)
 
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 3a24f95..cec1fed 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -397,9 +397,11 @@ class ParseProcessor(DispatchProcessor):
             else:
                 result.append(float(buffer[start:stop]))
         if final:
-            result = array(result, 'f')
+            result = array(result, 'd')
         return result
 
+    SFArray32 = SFArray
+
     def MFInt32(self, tuples, buffer):
         # localisation
         if not tuples:
-- 
2.43.0


From b16a21f70c746c40c2a2909f0f130ab9aa3f52a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 35/50] fix: single-precision numbers are written so that they
 survive being read in double precision

---
 vrml/fieldtypes.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 038ecb7..76b569b 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -100,9 +100,21 @@ def MFString_vrmlstr(value, lineariser=None):
         return linvalues['subelspacer'].join(anyobject)
 
 
+def _number_str(value):
+    """Get text for the number which is read back as precisely the same number
+
+    Numbers are read in double precision, rounding that once more gives
+    another single-precision number than the one written for a few texts
+    """
+    rpr = str(value)
+    if isinstance(value, arrays.float32) and arrays.float32(float(rpr)) != value:
+        rpr = str(float(value))
+    return rpr
+
+
 def SFFloat_vrmlstr(value, lineariser=None):
     """Convert floats to (compact) VRML97 representation"""
-    rpr = str(value)
+    rpr = _number_str(value)
     if rpr == '0.0':
         return '0'
     elif rpr[:2] == '0.':
@@ -118,7 +130,7 @@ def SFFloat_vrmlstr(value, lineariser=None):
 def MFSimple_vrmlstr(value, lineariser=None):
     """Convert value to a VRML97 representation"""
     linvalues = _linvalues(lineariser)
-    stringreps = [str(obj) for obj in value]
+    stringreps = [_number_str(obj) for obj in value]
     stringsets = []
     setLength = 100  # 100 is arbitrary
     while stringreps:
@@ -696,7 +708,7 @@ class _MFVec(_SFArray):
             pass
         linvalues = _linvalues(lineariser)
         sets = [
-            linvalues['numsep'].join([str(obj) for obj in vector.ravel()])
+            linvalues['numsep'].join([_number_str(obj) for obj in vector.ravel()])
             for vector in value
         ]
         setLength = int(100 / self.length)  # 100 is arbitrary
-- 
2.43.0


From 555f87c5ff51a058148289a98dc64932115f68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 36/50] fix: names may begin with a keyword (types and
 attributes such as TRUEx, ScriptX or USEful were misread)

---
 vrml/vrml97/parser.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 7538e50..c2292ce 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -19,44 +19,46 @@ from simpleparse.common import chartypes
 grammar = r'''
 header         := -[\n]*
 vrmlFile       := header, vrmlScene, !, EOF
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+Proto          := 'PROTO',kw,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
 fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
-fieldExposure  := 'field'/'exposedField'
+fieldExposure  := ('field'/'exposedField'),kw
 dataType       := ('SF'/'MF')?,name
 eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
-eventDirection := 'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+eventDirection := ('eventIn'/'eventOut'),kw
+ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',kw,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',kw,ts,!,name,ts)?,'Script',kw,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS',kw,ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS',kw,ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL',kw,ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',kw,ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
 name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),kw
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
+# keywords end where a name would, so that names may begin with them
+<kw>           :=  ?[][{}\000-\020"'#,.\\ ]/EOF
 <ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
 '''
 
-- 
2.43.0


From b22e89625a8e2759adeebac456d415705d06d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 37/50] fix: errors about things at the beginning of a line
 give that line, not the one before

---
 vrml/vrml97/parseprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index cec1fed..10ef0f0 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -134,7 +134,7 @@ class ParseProcessor(DispatchProcessor):
                 """Prototype %s used without declaration on line %s"""
                 % (
                     GI,
-                    lines(end=start, buffer=buffer),
+                    lines(end=start + 1, buffer=buffer),
                 )
             )
         newNode = prototype()
@@ -199,7 +199,7 @@ class ParseProcessor(DispatchProcessor):
                 """Use of un-DEF'd name %s on line %s"""
                 % (
                     name,
-                    lines(end=tup[1], buffer=buffer),
+                    lines(end=tup[1] + 1, buffer=buffer),
                 )
             )
         return node
@@ -215,7 +215,7 @@ class ParseProcessor(DispatchProcessor):
                     """ROUTE of un-DEF'd name %s on line %s"""
                     % (
                         name,
-                        lines(end=start, buffer=buffer),
+                        lines(end=start + 1, buffer=buffer),
                     )
                 )
         self.sceneGraphStack[-1].addRoute(
@@ -324,7 +324,7 @@ class ParseProcessor(DispatchProcessor):
                 % (
                     name,
                     protoName(clientNode),
-                    lines(end=start, buffer=buffer),
+                    lines(end=start + 1, buffer=buffer),
                 )
             )
         if value[0] == 'IS':
-- 
2.43.0


From 16d594836512c82a58446e9508ce6ead305b6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 38/50] fix: a method, constant or event given as an attribute
 is reported like an unknown field, with its line

---
 vrml/vrml97/parseprocessor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 10ef0f0..a1d682a 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -317,7 +317,13 @@ class ParseProcessor(DispatchProcessor):
         name = getString(name, buffer)
         clientNode = self.nodeStack[-1]
         try:
-            field = getField(clientNode, name)
+            fieldObject = getField(clientNode, name)
+            # methods and the like are no attributes, events have no value
+            allowed = [field.Field]
+            if value[0] == 'IS':
+                allowed.append(field.Event)
+            if not isinstance(fieldObject, tuple(allowed)):
+                raise AttributeError(name)
         except AttributeError:
             raise AttributeError(
                 """Unknown field name %s for node type %s on line %s"""
@@ -332,14 +338,14 @@ class ParseProcessor(DispatchProcessor):
             set = node.ismaps(self.prototypeStack[-1])
             set.setdefault(mapName, []).append((clientNode, name))
         else:
-            self.fieldTypeStack.append(field.typeName())
+            self.fieldTypeStack.append(fieldObject.typeName())
             try:
                 value = dispatch(self, value, buffer)
                 if isinstance(clientNode, node.PrototypedNode):
                     # prototyped nodes get IS-value updates
-                    field.fset(clientNode, value, notify=1)
+                    fieldObject.fset(clientNode, value, notify=1)
                 else:
-                    field.fset(clientNode, value, notify=0)
+                    fieldObject.fset(clientNode, value, notify=0)
             finally:
                 self.fieldTypeStack.pop()
 
-- 
2.43.0


From aa15f533fa14173386f26dd51c7c950a45c10d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 39/50] fix: a prototype called sceneGraph or ROUTE does not
 replace the classes scenes are parsed into

---
 vrml/vrml97/parseprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index a1d682a..e35d553 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -79,7 +79,8 @@ class ParseProcessor(DispatchProcessor):
             protoTypes = None
         else:
             root = None
-            protoTypes = self.basePrototypes
+            # a copy, as prototypes of the file are added to it
+            protoTypes = self.basePrototypes.copy()
         self.sceneGraphStack.append(
             self.basePrototypes.get('sceneGraph')(
                 root=root,
-- 
2.43.0


From b55e25daed4d16d2e432e1b28fe5bfdf62ead484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 40/50] fix: making a node of a prototype does not give DEF
 names of nodes in its field defaults back to these nodes

---
 vrml/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index 023576a..5615653 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -424,6 +424,7 @@ class RootScenegraphNode(WeakSFNode):
 
         TODO: this will blow up on cyclic graphs!
         """
+        previous = self.fget(client)
         result = super(RootScenegraphNode, self).fset(client, value, notify)
         for field in getFields(client.__class__):
             if (
@@ -443,7 +444,8 @@ class RootScenegraphNode(WeakSFNode):
                         self.fset(child, value, notify=False)
                 except AttributeError:
                     pass
-            elif field.name == ' DEF':
+            elif field.name == ' DEF' and previous is not value:
+                # (in its own scenegraph the name may by now be another node's)
                 try:
                     DEF = field.__get__(client)
                     value.regDefName(DEF, client)
-- 
2.43.0


From db291305b4251f8d0cb6c0fcf943314a140616e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 41/50] fix: files without any statement are valid

A scene without children is written as the header only (and blank lines),
which the grammar refused, as blanks were only accepted around statements.
---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index c2292ce..0e44c50 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -18,7 +18,7 @@ from simpleparse.common import chartypes
 #print file
 grammar = r'''
 header         := -[\n]*
-vrmlFile       := header, vrmlScene, !, EOF
+vrmlFile       := header, ts, vrmlScene, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-- 
2.43.0


From 3d68f876b29ed032dc6cb076320fe2541de1fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 42/50] fix: named nodes of a copied scenegraph have the copy
 as root

They were copied before the scenegraph itself, so that their root was
still the source, whose name table then changed with the copied nodes.
---
 vrml/vrml97/scenegraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 98cb844..286dbba 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -169,12 +169,13 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
                 newPrototypes[key] = protofunctions.copyProto( value, copier )
         else:
             newPrototypes = copy.copy( self.protoTypes )
+        node = super( SceneGraph, self).copy( copier )
+        # named nodes after the scenegraph, so that their root is the copy
         newDefs = {}
         for key,value in self.defNames.items():
             if (not key) or value is None:
                 continue
             newDefs[key] = value.copy( copier )
-        node = super( SceneGraph, self).copy( copier )
         node.protoTypes = newPrototypes
         node.defNames = newDefs
         node.root = self.root
-- 
2.43.0


From 9286af5ccbfc8b126e532f95d542b38aca65a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 43/50] fix: prototype instances and copies have default nodes
 of their own

An SFNode or MFNode default was the same node in every instance of a
prototype (and in the bodies it was mapped to), and in a node and its
copies, so that changes of one showed in the others.
---
 vrml/node.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vrml/node.py b/vrml/node.py
index 5615653..3302d72 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -136,6 +136,9 @@ class Node(object):
         # of the routes of our scenegraph) are to the copy
         copier.use(self, newNode)
         for field in getFields(self):
+            if field.nodes and not field.fhas(self) and field.getDefault():
+                # default nodes are ours, the copy gets copies of them
+                field.fget(self)
             if field.fhas(self):
                 value = field.copy(self, copier)
                 newNode.__dict__[field.name] = value
@@ -213,6 +216,9 @@ class PrototypedNode(object):
                 sg.routes.append(r)
                 if hasattr(sourceField, 'getDefault'):
                     default = sourceField.getDefault()
+                    if sourceField.nodes and default:
+                        # default nodes are this instance's own
+                        default = sourceField.fget(self)
                     try:
                         getField(destination, destinationField).fset(
                             destination,
@@ -398,6 +404,13 @@ class SFNode(_SFNode, field.Field):
         """Attribute assignment has all of the effects of fset"""
         self.fset(client, value)
 
+    def getDefault(self, client=None):
+        """Get the default node, instances of prototypes get a copy of their own"""
+        value = super(SFNode, self).getDefault(client)
+        if isinstance(client, PrototypedNode):
+            value = client.__dict__[self.name] = self.copyValue(value)
+        return value
+
 
 SFNode.requiredTypes = (Node,)
 
@@ -587,6 +600,10 @@ class MFNode(_MFNode, field.Field):
     def getDefault(self, client=None):
         """Get the default list, stored in (and watched for) client if given"""
         value = super(MFNode, self).getDefault(client)
+        if isinstance(client, PrototypedNode):
+            # with nodes of its own
+            value = self.copyValue(value, copiermodule.Copier())
+            client.__dict__[self.name] = value
         if client is not None and not isinstance(client, type):
             self._watchList(client, value)
         return value
-- 
2.43.0


From 7f9a7a894cb1cd7a16380fc41f13ee70d93778d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 44/50] fix: routes are copied like other nodes (once, with
 their names)

Copying a route without a copier raised TypeError, and a route occurring
twice, or under a DEF name, became several routes.
---
 vrml/route.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vrml/route.py b/vrml/route.py
index 98a7869..e875e91 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -1,6 +1,7 @@
 """ROUTE and ISRoute Implementations (event-processing)"""
 import traceback
 from vrml import field, fieldtypes, protofunctions, node
+from vrml import copier as copiermodule
 from pydispatch import dispatcher
 
 class ROUTE( node.Node ):
@@ -114,16 +115,15 @@ class ROUTE( node.Node ):
                 value = value,
                 event = event,
             )
-    def copy( self, copier ):
-        """Copy the route for the copier object"""
-        source = self.source.copy(copier)
-        destination = self.destination.copy( copier )
-        return self.__class__(
-            source = source,
-            destination = destination,
-            sourceField = self.sourceField,
-            destinationField = self.destinationField,
-        )
+    def copy( self, copier=None ):
+        """Copy the route for the copier object, connects the copies of its nodes"""
+        if copier is None:
+            copier = copiermodule.Copier()
+        newRoute = copier.use( self )
+        if newRoute is None:
+            newRoute = super( ROUTE, self ).copy( copier )
+            newRoute.bind()
+        return newRoute
     def __str__( self ):
         """Get a friendly representation of the Node"""
         return """%s %r.%s TO %r.%s"""%(
-- 
2.43.0


From bf9d46f9c235fbb82dad76f2dfeca59c95e51949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 45/50] fix: DEF-less nodes occurring twice are written again,
 with USE of the named nodes in them

The text was copied, DEFs included, so that named nodes shared through an
unnamed one became two nodes of one name.
---
 vrml/vrml97/linearise.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 1812bcb..ab1b039 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -515,23 +515,15 @@ class Lineariser:
             if DEF:
                 return 'USE ' + DEF
             # else have to linearise again, should warn the user
+            # (again, as a copy of the text would repeat the DEFs in it)
+            elif isinstance(self.alreadydone[id(clientNode)], tuple):
+                self.buffer.write(
+                    '#WARNING HERE -- USE of node with no DEF name, Node duplicated\n'
+                )
             else:
-                keyvals = self.alreadydone[id(clientNode)]
-                index = self.buffer.tell()
-                try:
-                    start, stop = keyvals
-                    self.buffer.seek(start)
-                    val = self.buffer.read(stop - start)
-                    self.buffer.seek(index)
-                    return (
-                        '#WARNING HERE -- USE of node with no DEF name, Node duplicated\n'
-                        + val
-                    )
-                except TypeError:
-                    return '''#ERROR HERE -- USE of a parent node that has no DEF name USE ignored'''
-        else:
-            ind = self.alreadydone[id(clientNode)] = self.buffer.tell()
-            return ind
+                return '''#ERROR HERE -- USE of a parent node that has no DEF name USE ignored'''
+        ind = self.alreadydone[id(clientNode)] = self.buffer.tell()
+        return ind
 
     def _nullNode(self, clientNode):
         self.buffer.write('NULL')
-- 
2.43.0


From 458b643d8a92f2dd9031c65250d676f8ec624978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 46/50] fix: names made up for routed nodes are not those of
 unregistered nodes

DEF names are registered when a node gets its root only; the name made up
for the end of a route could be that of a node added or named later.
---
 vrml/vrml97/linearise.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index ab1b039..d33f173 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -431,13 +431,30 @@ class Lineariser:
             if not DEF:
                 count = 0
                 PROTO = protoName(child)
+                # (not every name in the scene need be registered)
+                used = self._usedNames(sceneGraph)
                 while 1:
                     name = "%s_%s" % (PROTO, count)
-                    if sceneGraph.getDEF(name) is None:
+                    if sceneGraph.getDEF(name) is None and name not in used:
                         sceneGraph.regDefName(name, child)
                         break
                     count += 1
 
+    def _usedNames(self, sceneGraph):
+        """Get the set of DEF names of all of the nodes in the sceneGraph"""
+        names, seen, todo = set(), set(), list(sceneGraph.children)
+        while todo:
+            current = todo.pop()
+            if not current or id(current) in seen:
+                continue
+            seen.add(id(current))
+            names.add(defName(current))
+            for field in getFields(current):
+                if field.nodes and field.name[0] != ' ':
+                    value = field.fget(current)
+                    todo.extend(value if isinstance(value, list) else [value])
+        return names
+
     def _route(self, clientNode):
         '''Linearise a route'''
         # should check here to make sure the ROUTEs are valid
-- 
2.43.0


From 44bc364b985ecc60643636596ad8c7fb8117d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 47/50] fix: Scripts are written with their own field values

The declarations in the Script gave the default values of its fields, so
that values set since were lost.
---
 vrml/field.py            | 11 +++++++++--
 vrml/vrml97/linearise.py |  7 +++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 165d0b7..4872953 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -288,9 +288,12 @@ class Field(BaseField):
         """Convert the given value to a VRML97 representation"""
         return ""
 
-    def fieldVrmlstr(self, lineariser):
+    def fieldVrmlstr(self, lineariser, client=None):
         """Write the field's definition to the lineariser
 
+        client -- if given, the node whose value to write,
+            otherwise the default value is written
+
         Basically this gives you a VRML97 fragment
         which can be used for creating a PROTO which
         will have the equivalent of this field available.
@@ -307,11 +310,15 @@ class Field(BaseField):
                 self.name,
             )
         )
+        if client is not None:
+            value = self.fget(client)
+        else:
+            value = self.getDefault()
         result = self.vrmlstr(
             # coerce is necessary because the
             # default values are often not in
             # the canonical representation
-            self.coerce(self.getDefault()),
+            self.coerce(value),
             lineariser,
         )
         if result:
diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index d33f173..fd20c04 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -332,6 +332,7 @@ class Lineariser:
             getPrototype(clientNode),
             requireDefault=1,
             skipFields=(' DEF', 'url', 'directOutput', 'mustEvaluate'),
+            instance=clientNode,
         )
         self._dedent()
         self._attrDict(clientNode)
@@ -406,7 +407,9 @@ class Lineariser:
             field.eventVrmlstr(self)
             # XXX do IS-mapping here!
 
-    def _fieldDict(self, clientNode, requireDefault=1, skipFields=('DEF',)):
+    def _fieldDict(
+        self, clientNode, requireDefault=1, skipFields=('DEF',), instance=None
+    ):
         buffer = self.buffer
         fields = [
             field
@@ -418,7 +421,7 @@ class Lineariser:
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self)
+            field.fieldVrmlstr(self, instance)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From dd5eb36b1dc4b5fa98bfcba8f7994da457082a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 48/50] fix: nodes which contain themselves can be given a root
 (making an instance of a prototype with such a default recursed for ever)

---
 vrml/node.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 3302d72..cb4bf5d 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -432,11 +432,17 @@ class WeakSFNode(_SFNode, field.WeakField, field.Field):
 class RootScenegraphNode(WeakSFNode):
     fieldType = 'RootScenegraphNode'
 
-    def fset(self, client, value, notify=1):
+    def fset(self, client, value, notify=1, visited=None):
         """Set the root scenegraph node (recursively)
 
-        TODO: this will blow up on cyclic graphs!
+        visited -- id: node for the nodes reached already, as nodes may
+            contain themselves (e.g. in fields of Scripts)
         """
+        if visited is None:
+            visited = {}
+        elif id(client) in visited:
+            return value
+        visited[id(client)] = client
         previous = self.fget(client)
         result = super(RootScenegraphNode, self).fset(client, value, notify)
         for field in getFields(client.__class__):
@@ -450,11 +456,11 @@ class RootScenegraphNode(WeakSFNode):
                 except ValueError:
                     pass
                 else:
-                    self.fset(child, value, notify=False)
+                    self.fset(child, value, notify=False, visited=visited)
             elif isinstance(field, MFNode):
                 try:
                     for child in field.__get__(client):
-                        self.fset(child, value, notify=False)
+                        self.fset(child, value, notify=False, visited=visited)
                 except AttributeError:
                     pass
             elif field.name == ' DEF' and previous is not value:
-- 
2.43.0


From 83c12e7f963ede23eec8a776d577e8fffd150ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:26 +0000
Subject: [PATCH 49/50] fix: names in X3D files may begin with a keyword, and
 blank lines may follow the header

The grammar for X3D took the keyword at the beginning of a name (USEful, DEFault,
TRUEish) for the keyword, as that for VRML97 did: keywords end where a name would.
---
 vrml/vrml200x/parser.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index afa1964..522e477 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -30,48 +30,50 @@ importStatement := 'IMPORT',ts,name,ts,'.',ts,name,(ts,asClause)?,ts
 exportStatement := 'EXPORT',ts,name,(ts,asClause)?,ts
 asClause       := 'AS',ts,name
 
-vrmlFile       := header, vrmlScene, !, EOF
+vrmlFile       := header, ts, vrmlScene, !, EOF
 vrmlScene      := rootItem*
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+Proto          := 'PROTO',kw,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
 fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
 
 # inputOutput/initializeOnly not in the grammar
-fieldExposure  := 'inputOutput'/'initializeOnly'/'field'/'exposedField'
+fieldExposure  := ('inputOutput'/'initializeOnly'/'field'/'exposedField'),kw
 dataType       := ('SF'/'MF')?,name
 eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
 
 # inputOnly/outputOnly not in the grammar
-eventDirection := 'inputOnly'/'outputOnly'/'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+eventDirection := ('inputOnly'/'outputOnly'/'eventIn'/'eventOut'),kw
+ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',kw,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',kw,ts,!,name,ts)?,'Script',kw,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS',kw,ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS',kw,ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL',kw,ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',kw,ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((SFNumber/SFBool/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)+
 
 name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),kw
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
+# keywords end where a name would, so that names may begin with them
+<kw>           :=  ?[][{}\000-\020"'#,.\\ ]/EOF
 <ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
 '''
 
-- 
2.43.0


From 9e12f2772b11019d2ef37a26a9fb231c18d907be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:26 +0000
Subject: [PATCH 50/50] fix: inputOutput fields of X3D files are exposed,
 outputOnly events go out

Declarations with the words of X3D were made unexposed fields and incoming events,
the grammar accepts those of X3D and of VRML97.
---
 vrml/vrml97/parseprocessor.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index e35d553..84ea202 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,11 @@ def getString(*args, **named):
     return as_str(base)
 
 
+# fields and events values can be routed from, in VRML97 and in X3D
+EXPOSED = ('exposedField', 'inputOutput')
+OUTPUT = ('eventOut', 'outputOnly')
+
+
 class ParseProcessor(DispatchProcessor):
     """Builds in-memory node-graph from VRML97 parse-tree"""
 
@@ -240,7 +245,7 @@ class ParseProcessor(DispatchProcessor):
                 field.newField(
                     getString(name, buffer),
                     datatype,
-                    getString(exposure, buffer) == 'exposedField',
+                    getString(exposure, buffer) in EXPOSED,
                     value,
                 ),
             )
@@ -256,7 +261,7 @@ class ParseProcessor(DispatchProcessor):
             field.newField(
                 getString(name, buffer),
                 datatype,
-                getString(exposure, buffer) == 'exposedField',
+                getString(exposure, buffer) in EXPOSED,
             ),
         )
 
@@ -268,7 +273,7 @@ class ParseProcessor(DispatchProcessor):
             field.newEvent(
                 getString(name, buffer),
                 datatype,
-                getString(direction, buffer) == 'eventOut',
+                getString(direction, buffer) in OUTPUT,
             ),
         )
 
@@ -280,7 +285,7 @@ class ParseProcessor(DispatchProcessor):
         else:
             mapName = None
         return (
-            field.newEvent(name, datatype, direction == 'eventOut'),
+            field.newEvent(name, datatype, direction in OUTPUT),
             mapName,
         )
 
@@ -296,7 +301,7 @@ class ParseProcessor(DispatchProcessor):
                 fieldObject = field.newField(
                     getString(name, buffer),
                     datatype,
-                    getString(exposure, buffer) == 'exposedField',
+                    getString(exposure, buffer) in EXPOSED,
                 )
             else:
                 mapName = None
@@ -304,7 +309,7 @@ class ParseProcessor(DispatchProcessor):
                 fieldObject = field.newField(
                     getString(name, buffer),
                     datatype,
-                    getString(exposure, buffer) == 'exposedField',
+                    getString(exposure, buffer) in EXPOSED,
                     value,
                 )
             return (fieldObject, mapName)
-- 
2.43.0

