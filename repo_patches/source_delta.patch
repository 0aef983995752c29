From 89bd5b8f320afe38b1ea5daaf26182105187306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 01/26] fix: mat: do not use the np.object alias removed in
 NumPy 1.24

Saving or loading any List failed with AttributeError.
---
 dsch/backends/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..c9fa766 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -87,7 +87,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -99,12 +99,12 @@ class List(npz.List):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=numpy.object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From 2e27c82fbfaa8678669e96b16c19547736bc8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 02/26] fix: mat: restore array shapes, list items, empty
 strings and booleans on load

loadmat(squeeze_me=True) removed every dimension of length 1 and merged the
dimensions of nested cell arrays, so a stored array, list, string or struct
came back with a different shape or could not be loaded at all.
---
 dsch/backends/mat.py | 92 +++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 27 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index c9fa766..9ecab72 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -5,17 +5,51 @@ from . import npz
 from .. import data, schema
 
 
+class _ItemNode(npz._ItemNode):
+    """Common base class for data nodes for the mat backend."""
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        In MATLAB files, every value is an array with at least two dimensions,
+        so the additional dimensions must be removed again.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        super()._init_from_storage(np.squeeze(data_storage))
+
+
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
 
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Only dimensions added by the file format are removed, so that arrays
+        retain their shape even if some dimensions are of length 1 or 0.
+        Boolean arrays are stored as MATLAB ``logical``, which
+        :func:`scipy.io.loadmat` represents as ``uint8``.
 
-class Bytes(npz.Bytes):
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if self.schema_node.ndim == 1 and (data_storage.size == 0 or
+                                           data_storage.shape[0] == 1):
+            data_storage = data_storage.reshape(-1)
+        if data_storage.dtype == 'uint8' and self.schema_node.dtype == 'bool':
+            data_storage = data_storage.astype('bool')
+        super()._init_from_storage(data_storage)
+
+
+class Bytes(_ItemNode, npz.Bytes):
     """Bytes-type data node for the mat backend."""
     pass
 
 
-class Bool(npz.Bool):
+class Bool(_ItemNode, npz.Bool):
     """Bool-type data node for the mat backend."""
     pass
 
@@ -37,19 +71,16 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # scipy.io.loadmat returns structs as arrays of size 1. For a struct
+        # without any fields, the only element is None.
+        data_storage = np.squeeze(data_storage)[()]
+        field_names = (() if data_storage is None
+                       else data_storage.dtype.names or ())
 
         for node_name, subnode in self.schema_node.subnodes.items():
-            # Work around the fact that we cannot use
-            # data_storage.get(node_name) because data_storage is not a dict,
-            # but a numpy.ndarray.
-            try:
+            if node_name in field_names:
                 node_storage = data_storage[node_name]
-            except ValueError:
+            else:
                 node_storage = None
 
             self._subnodes[node_name] = data.data_node_from_schema(
@@ -57,12 +88,12 @@ class Compilation(npz.Compilation):
                 data_storage=node_storage)
 
 
-class Date(npz.Date):
+class Date(_ItemNode, npz.Date):
     """Date-type data node for the mat backend."""
     pass
 
 
-class DateTime(npz.DateTime):
+class DateTime(_ItemNode, npz.DateTime):
     """DateTime-type data node for the mat backend."""
     pass
 
@@ -84,12 +115,7 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        for field in data_storage.reshape(-1):
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
@@ -110,7 +136,7 @@ class List(npz.List):
         return data_storage
 
 
-class Scalar(npz.Scalar):
+class Scalar(_ItemNode, npz.Scalar):
     """Scalar-type data node for the mat backend."""
     pass
 
@@ -129,8 +155,8 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        file_ = sio.loadmat(self.storage_path)
+        self.schema_node = schema.node_from_json(file_['schema'][0])
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -145,11 +171,23 @@ class Storage(npz.Storage):
         sio.savemat(self.storage_path, store_data)
 
 
-class String(npz.String):
+class String(_ItemNode, npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Empty strings are loaded as arrays without elements.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if data_storage.size == 0:
+            data_storage = np.array('', dtype='U')
+        super()._init_from_storage(data_storage)
 
 
-class Time(npz.Time):
+class Time(_ItemNode, npz.Time):
     """Time-type data node for the mat backend."""
     pass
-- 
2.43.0


From 1706e7eb63ca2a1f5818315d3e1022a2d9a617f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 03/26] fix: mat: store Bytes as uint8 arrays

Loading a Bytes value from a mat file returned UTF-32 data padded with blanks.
---
 dsch/backends/mat.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 9ecab72..85788a7 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -44,9 +44,29 @@ class Array(npz.Array):
         super()._init_from_storage(data_storage)
 
 
-class Bytes(_ItemNode, npz.Bytes):
-    """Bytes-type data node for the mat backend."""
-    pass
+class Bytes(npz.Bytes):
+    """Bytes-type data node for the mat backend.
+
+    MATLAB character arrays do not represent arbitrary byte strings, so values
+    are stored as ``uint8`` arrays.
+    """
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        self._storage = np.frombuffer(new_value, dtype='uint8')
+
+    def _value(self):
+        """Return the actual node data, independent of the backend in use.
+
+        Returns:
+            Node data.
+        """
+        return self._storage.tobytes()
 
 
 class Bool(_ItemNode, npz.Bool):
-- 
2.43.0


From b72c48fc56af6074add43ecc138ebcfa2d9b3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 04/26] fix: npz: keep empty Bytes values

An empty Bytes value was read back as a single NUL byte.
---
 dsch/backends/npz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..30646b6 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -60,7 +60,10 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='bytes')
+        # NumPy pads an empty item to a single NUL byte, so an empty value is
+        # represented by an array without any items instead.
+        self._storage = np.array([] if new_value == b'' else new_value,
+                                 dtype='bytes')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From ad924c9309058d8b5211b46b80b2958dd028cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 05/26] fix: hdf5: support empty Bytes and replacing Bytes by
 values of other lengths

Replacing a Bytes value truncated or NUL-padded the new value to the length of
the previous one; an empty value could not be stored at all.
---
 dsch/backends/hdf5.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..f729214 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -126,11 +126,15 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
+        # HDF5 does not support opaque types of size zero, so empty values are
+        # represented by a dataset without any elements.
+        if new_value == b'':
+            repr_data = h5py.Empty('V1')
         else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+            repr_data = np.void(new_value)
+        # The opaque type has a fixed size, so an existing dataset cannot be
+        # reused if the length of the value changes.
+        super().replace(repr_data)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
@@ -138,6 +142,8 @@ class Bytes(_ItemNode):
         Returns:
             Node data.
         """
+        if self._storage.shape is None:
+            return b''
         return self._storage[()].tobytes()
 
 
-- 
2.43.0


From 3fca8a8c431e133838964b5a0613defe674b60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 06/26] fix: load_from: copy empty nodes instead of raising
 NodeEmptyError

create_from() and save_as() failed for any storage with an empty field, even
if that field is optional.
---
 dsch/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..8e0c737 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -151,7 +151,7 @@ class ItemNode:
         This is effectively a shorthand for ``self.replace(source_node.value)``
         with additional checking of node compatibility. Two nodes are
         considered compatible if their ``schema_node`` attributes are
-        identical.
+        identical. If the source node is empty, the node is cleared.
 
         Args:
             source_node: Data node to copy value from.
@@ -159,7 +159,10 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            self.replace(source_node.value)
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 4de1b4f753d04d82436462121e1d069accb64aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 07/26] fix: List.load_from: replace existing items

Loading into a non-empty List overwrote the leading items and appended empty
ones.
---
 dsch/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsch/data.py b/dsch/data.py
index 8e0c737..5b17e8b 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -797,6 +797,7 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From a91f9f6814fe50f586eb0a058153ade2dcb5822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 08/26] fix: load_from: do not share arrays between source and
 destination

Changing the copy of an Array in place changed the source as well, and vice
versa.
---
 dsch/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 5b17e8b..fa609c8 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -162,7 +163,9 @@ class ItemNode:
         if source_node.empty:
             self.clear()
         else:
-            self.replace(source_node.value)
+            # The source node's value may be a mutable object (i.e. an array)
+            # that must not be shared between both nodes.
+            self.replace(copy.deepcopy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 5dc0d822fc4596ed1db991d9df5f308a129de7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 09/26] fix: do not re-initialize cleared set_on_create nodes
 when loading

A Date, DateTime or Time node that was saved empty came back with the current
date or time each time the storage was loaded.
---
 dsch/backends/hdf5.py | 4 ++++
 dsch/backends/mat.py  | 6 ++++++
 dsch/backends/npz.py  | 3 +++
 dsch/data.py          | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index f729214..a56d60d 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -196,6 +196,8 @@ class Compilation(data.Compilation):
                 new_params_sub = {'name': node_name, 'parent': data_storage}
                 self._subnodes[node_name] = data.data_node_from_schema(
                     subnode, self.__module__, self, new_params=new_params_sub)
+                # Empty nodes must not be initialized again during loading.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -390,6 +392,8 @@ class Storage(storage.FileStorage):
                 self.data = data.data_node_from_schema(self.schema_node,
                                                        self.__module__, None,
                                                        new_params=new_params)
+                # Empty nodes must not be initialized again during loading.
+                self.data.clear()
                 return
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 85788a7..2654d3e 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -106,6 +106,9 @@ class Compilation(npz.Compilation):
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # Empty nodes must not be initialized again during loading.
+                self._subnodes[node_name].clear()
 
 
 class Date(_ItemNode, npz.Date):
@@ -181,6 +184,9 @@ class Storage(npz.Storage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # Empty nodes must not be initialized again during loading.
+            self.data.clear()
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 30646b6..522ec21 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -251,6 +251,9 @@ class Storage(storage.FileStorage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # Empty nodes must not be initialized again during loading.
+            self.data.clear()
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index fa609c8..edcd93b 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -473,6 +473,9 @@ class Compilation:
             self._subnodes[node_name] = data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # Empty nodes must not be initialized again during loading.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
-- 
2.43.0


From 931a9245f4b226539cd2f86101bfb6f4159c26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 10/26] fix: preserve empty List items when saving and loading

Lists with empty items could not be saved (mat) or loaded (npz, hdf5), or lost
their trailing items. All backends now store the position of empty items.
---
 dsch/backends/hdf5.py | 22 +++++++++++++++++---
 dsch/backends/mat.py  | 13 ++++++++++--
 dsch/backends/npz.py  | 47 ++++++++++++++++++++++++++++++++++++++-----
 dsch/data.py          |  3 +++
 4 files changed, 75 insertions(+), 10 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index a56d60d..5e7639f 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -300,6 +300,7 @@ class List(data.List):
                                              self.__module__, self,
                                              new_params=new_params)
         self._subnodes.append(subnode)
+        self._storage.attrs['length'] = len(self)
         if value is not None:
             subnode.replace(value)
 
@@ -307,19 +308,34 @@ class List(data.List):
         """Clear all subnodes."""
         for name in self._storage.keys():
             del self._storage[name]
+        self._storage.attrs['length'] = 0
         super().clear()
 
     def _init_from_storage(self, data_storage):
         """Create a new data node from a data storage object.
 
         This initializes the data node using the given data storage object.
+        Since there is no HDF5 object for empty items, the number of items is
+        given by the attribute ``length``.
 
         Args:
-            data_storage (h5py.Dataset): Data storage object to be
-                imported.
+            data_storage (h5py.Group): Data storage object to be imported.
         """
-        super()._init_from_storage(data_storage)
         self._storage = data_storage
+        for idx in range(data_storage.attrs.get('length', len(data_storage))):
+            name = 'item_{}'.format(idx)
+            if name in data_storage:
+                subnode = data.data_node_from_schema(
+                    self.schema_node.subnode, self.__module__, self,
+                    data_storage=data_storage[name])
+            else:
+                new_params = {'name': name, 'parent': data_storage}
+                subnode = data.data_node_from_schema(
+                    self.schema_node.subnode, self.__module__, self,
+                    new_params=new_params)
+                # Empty nodes must not be initialized again during loading.
+                subnode.clear()
+            self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 2654d3e..1ffcde0 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -139,23 +139,32 @@ class List(npz.List):
                 storage object to load.
         """
         for field in data_storage.reshape(-1):
+            if field.dtype == object and field.size == 1 and (
+                    field.item() is None):
+                # Struct without any fields, representing an empty item.
+                field = None
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
+            if field is None:
+                # Empty nodes must not be initialized again during loading.
+                subnode.clear()
             self._subnodes.append(subnode)
 
     def save(self):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``. Items without any
+        data are represented by a struct without any fields.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
-            data_storage[idx] = node.save()
+            node_storage = node.save()
+            data_storage[idx] = {} if node_storage is None else node_storage
         return data_storage
 
 
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 522ec21..adc7b37 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -112,9 +112,16 @@ class Compilation(data.Compilation):
             dict: Data storage object with the node's data.
         """
         data_storage = {}
-        for name, node in [(na, no) for na, no in self._subnodes.items()
-                           if not no.empty]:
-            data_storage[name] = node.save()
+        for name, node in self._subnodes.items():
+            node_storage = node.save()
+            if isinstance(node, (data.Compilation, data.List)):
+                # Lists of empty items are considered empty, but still need to
+                # be stored to preserve the number of items.
+                skip = len(node_storage) == 0
+            else:
+                skip = node_storage is None
+            if not skip:
+                data_storage[name] = node_storage
         return data_storage
 
 
@@ -173,19 +180,36 @@ class DateTime(data.DateTime, _ItemNode):
 class List(data.List):
     """List-type data node for the npz backend."""
 
+    def _init_from_storage(self, data_storage):
+        """Initialize List from the given data storage object.
+
+        Args:
+            data_storage (dict): Backend-specific data storage object to load.
+        """
+        super()._init_from_storage({
+            name: None if _is_empty_item(node_storage) else node_storage
+            for name, node_storage in data_storage.items()
+        })
+
     def save(self):
         """Export the node data as a data storage object.
 
         For :class:`List`, data is represented as a :class:`dict` containing
         the sub-node's data storage objects as values and keys of the form
-        ``item_X``, where ``X`` is the list index.
+        ``item_X``, where ``X`` is the list index. Items without any data are
+        represented by an empty array of type ``void``, so that the position of
+        all other items is preserved.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = {}
         for idx, node in enumerate(self._subnodes):
-            data_storage['item_{}'.format(idx)] = node.save()
+            node_storage = node.save()
+            if node_storage is None or (isinstance(node_storage, dict) and
+                                        not node_storage):
+                node_storage = np.zeros(0, dtype='V1')
+            data_storage['item_{}'.format(idx)] = node_storage
         return data_storage
 
 
@@ -326,6 +350,19 @@ class Time(data.Time, _ItemNode):
         return datetime.time(*self._storage.tolist())
 
 
+def _is_empty_item(node_storage):
+    """Check whether the given data storage object represents an empty item.
+
+    Args:
+        node_storage: Data storage object of a list item.
+
+    Returns:
+        bool: ``True`` for the placeholder used by :meth:`List.save`.
+    """
+    return (getattr(node_storage, 'dtype', None) == 'V1' and
+            node_storage.size == 0)
+
+
 def _inflate_dotted(input_dict):
     """Convert flat dict with dotted key notation into nested dict.
 
diff --git a/dsch/data.py b/dsch/data.py
index edcd93b..0ebe51e 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -779,6 +779,9 @@ class List:
             subnode = data_node_from_schema(self.schema_node.subnode,
                                             self.__module__, self,
                                             data_storage=node_storage)
+            if node_storage is None:
+                # Empty nodes must not be initialized again during loading.
+                subnode.clear()
             self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
-- 
2.43.0


From 5efadf42699a2577c408b9b4ce7417e2d3186631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 11/26] fix: schema: keep nodes equal to their JSON
 representation

Shapes, depends_on and optionals given as tuples were loaded as lists, so the
loaded schema was not equal to the original one although their hashes match.
---
 dsch/schema.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..222d2a7 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -184,8 +184,9 @@ class Array(SchemaNode):
 
         self.dtype = dtype
         self.unit = unit
-        self.max_shape = max_shape
-        self.min_shape = min_shape
+        # Values loaded from JSON are lists instead of tuples.
+        self.max_shape = None if max_shape is None else tuple(max_shape)
+        self.min_shape = None if min_shape is None else tuple(min_shape)
         if max_shape or min_shape:
             self.ndim = len(max_shape or min_shape)
         else:
@@ -195,7 +196,8 @@ class Array(SchemaNode):
         if isinstance(depends_on, str):
             self.depends_on = (depends_on,)
         else:
-            self.depends_on = depends_on
+            self.depends_on = (None if depends_on is None
+                               else tuple(depends_on))
         if self.depends_on and len(self.depends_on) != self.ndim:
             raise ValueError('Number of independent variables must be equal '
                              'to the number of array dimensions.')
@@ -422,7 +424,8 @@ class Compilation(SchemaNode):
                 checking for completeness.
         """
         self.subnodes = subnodes
-        self.optionals = optionals or []
+        self.optionals = (list(optionals) if isinstance(optionals, tuple)
+                          else optionals or [])
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 00b03feb54d8725dcd04f0a3303deb435703b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 12/26] fix: schema: support numpy.dtype objects as dtype

The documentation of Array and Scalar allows numpy.dtype objects, but those
could not be serialized, so no storage could be created.
---
 dsch/schema.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 222d2a7..b8df254 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -213,7 +213,7 @@ class Array(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_shape': self.max_shape,
             'min_shape': self.min_shape,
@@ -728,7 +728,7 @@ class Scalar(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_value': self.max_value,
             'min_value': self.min_value,
@@ -882,6 +882,22 @@ class Time(SchemaNode):
                                   type(test_data))
 
 
+def _dtype_name(dtype):
+    """Convert a dtype specification to a serializable string.
+
+    Args:
+        dtype (numpy.dtype or type or str): Type specification as supported by
+            :class:`numpy.dtype`.
+
+    Returns:
+        str: Name of the given type.
+    """
+    if not isinstance(dtype, (np.dtype, type)):
+        return dtype
+    dtype = np.dtype(dtype)
+    return dtype.name if dtype.isnative and dtype.kind in 'biufc' else dtype.str
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From 6ec36e73b87c5001a1ff4606f51407fb87e43d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 13/26] fix: schema: enforce maximum lengths and sizes of zero

---
 dsch/schema.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index b8df254..2d80a37 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -259,7 +259,7 @@ class Array(SchemaNode):
                                   self.ndim, test_data.ndim)
         if self.max_shape:
             for nominal, actual in zip(self.max_shape, test_data.shape):
-                if nominal and actual > nominal:
+                if nominal is not None and actual > nominal:
                     raise ValidationError('Maximum array shape exceeded.',
                                           self.max_shape, test_data.shape)
         if self.min_shape:
@@ -339,7 +339,7 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -660,7 +660,7 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -818,7 +818,7 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
-- 
2.43.0


From 4a6097404ae1a6292a3710075e70ff50d07787f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 14/26] fix: Array: match independent variables to their
 dimension

With None in depends_on, the remaining independent variables were compared to
the leading dimensions instead of their own.
---
 dsch/data.py   | 2 ++
 dsch/schema.py | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 0ebe51e..5b8847f 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -320,6 +320,8 @@ class Array(ItemNode):
             if node_name:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
+            else:
+                independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index 2d80a37..2c4e7a4 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -236,7 +236,8 @@ class Array(SchemaNode):
         in contrast to other node types, this method requires a second
         argument, supplying a tuple of :class:`numpy.ndarray` representing the
         independent variables. The tuple's length must consequently be equal to
-        :attr:`ndim` and to the length of :attr:`depends_on`.
+        :attr:`ndim` and to the length of :attr:`depends_on`. Dimensions without
+        an independent variable are given as ``None``.
 
         If validation succeeds, the method terminates silently. Otherwise, an
         exception is raised.
@@ -278,6 +279,9 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    # No independent variable for this dimension.
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From 8da958ae1d40db233cab459f008bd27951177f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 15/26] fix: npz: support any file name and field name when
 saving

numpy.savez appends '.npz' to other file names, so the data was written to a
different file, and fields named 'file' or 'allow_pickle' were mistaken for
its arguments.
---
 dsch/backends/npz.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index adc7b37..f7b03b9 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -5,6 +5,7 @@ This backend provides support for NumPy's npz format. For details, see
 enhancement proposal <https://docs.scipy.org/doc/numpy/neps/npy-format.html>`_.
 """
 import datetime
+import zipfile
 
 import numpy as np
 
@@ -296,8 +297,15 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        if '_schema' in store_data:
+            raise ValueError('The field name "_schema" is reserved.')
+        store_data['_schema'] = self.schema_node.to_json()
+        # numpy.savez is not used, because it may change the file name and
+        # reserves some of the field names for its own arguments.
+        with zipfile.ZipFile(self.storage_path, 'w', allowZip64=True) as file_:
+            for name, value in store_data.items():
+                with file_.open(name + '.npy', 'w', force_zip64=True) as item:
+                    np.lib.format.write_array(item, np.asanyarray(value))
 
 
 class String(_ItemNode):
-- 
2.43.0


From 84490522fef742b0f84dcf281407ac45b50d9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 16/26] fix: PseudoStorage: do not keep a storage with an
 invalid schema

If opening failed because of the schema, the storage was still available
through the attribute storage, and close() saved it.
---
 dsch/frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..239de3d 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,8 +255,9 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
+                self.storage = storage
             else:
                 self.storage = create(self._data_storage,
                                       schema_node=self._schema_node)
-- 
2.43.0


From c8e90a6cff6c5f9d0aebe23aeb4cc82c1bd90471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 17/26] fix: Array.resize: keep element positions and support
 loaded arrays

For backends based on NumPy arrays, resizing failed for arrays that were loaded
from a file or referenced elsewhere, and changed the position of elements in
multi-dimensional arrays.
---
 dsch/backends/hdf5.py |  8 ++++++++
 dsch/data.py          | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 5e7639f..b00f389 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -104,6 +104,14 @@ class Array(data.Array, _ItemNode):
             maxshape=maxshape,
         )
 
+    def resize(self, size):
+        """Resize the array to the desired size.
+
+        Args:
+            size (tuple): Desired array size.
+        """
+        self._storage.resize(size)
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
diff --git a/dsch/data.py b/dsch/data.py
index 5b8847f..4604a4e 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -16,6 +16,7 @@ import datetime
 import importlib
 
 import asciitree
+import numpy as np
 
 from . import exceptions
 
@@ -294,10 +295,20 @@ class Array(ItemNode):
     def resize(self, size):
         """Resize the array to the desired size.
 
+        Existing elements keep their position. New elements are initialized
+        with zero.
+
         Args:
             size (tuple): Desired array size.
         """
-        self._storage.resize(size)
+        size = tuple(np.atleast_1d(size))
+        if len(size) != self._storage.ndim:
+            raise ValueError('Number of array dimensions cannot be changed.')
+        resized = np.zeros(size, dtype=self._storage.dtype)
+        overlap = tuple(slice(min(old, new)) for old, new in
+                        zip(self._storage.shape, size))
+        resized[overlap] = self._storage[overlap]
+        self._storage = resized
 
     def __setitem__(self, key, value):
         """Pass slicing/indexing operations directly to NumPy array."""
-- 
2.43.0


From 3dd183e2eba236ede696a6093a441b4754b635a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 18/26] fix: mat: support field names of up to 63 characters

---
 dsch/backends/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 1ffcde0..e39ebf4 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -203,7 +203,7 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data)
+        sio.savemat(self.storage_path, store_data, long_field_names=True)
 
 
 class String(_ItemNode, npz.String):
-- 
2.43.0


From 608887b544f2ec38e72aa41b2663a91cebf64b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 19/26] fix: hdf5: Keep the length of Lists from files of
 earlier versions

Lists that were loaded from a file without the length attribute lost empty
items at the end when they were saved and loaded again.
---
 dsch/backends/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index b00f389..056c167 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -330,7 +330,11 @@ class List(data.List):
             data_storage (h5py.Group): Data storage object to be imported.
         """
         self._storage = data_storage
-        for idx in range(data_storage.attrs.get('length', len(data_storage))):
+        if 'length' not in data_storage.attrs:
+            # Files from earlier versions do not contain the number of items,
+            # which must not depend on whether the items become empty later.
+            data_storage.attrs['length'] = len(data_storage)
+        for idx in range(data_storage.attrs['length']):
             name = 'item_{}'.format(idx)
             if name in data_storage:
                 subnode = data.data_node_from_schema(
-- 
2.43.0


From 3870bae551d9a5b3fb5c7d4c02ae821f3ba30481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 20/26] fix: mat: Restore boolean arrays for any notation of
 the dtype

The dtype of a schema node can be given as '?' or as a dtype object, too.
---
 dsch/backends/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index e39ebf4..1e6c3b8 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -39,7 +39,8 @@ class Array(npz.Array):
         if self.schema_node.ndim == 1 and (data_storage.size == 0 or
                                            data_storage.shape[0] == 1):
             data_storage = data_storage.reshape(-1)
-        if data_storage.dtype == 'uint8' and self.schema_node.dtype == 'bool':
+        if (data_storage.dtype == 'uint8' and
+                np.dtype(self.schema_node.dtype) == 'bool'):
             data_storage = data_storage.astype('bool')
         super()._init_from_storage(data_storage)
 
-- 
2.43.0


From 887135a1f83bb6825b85f414f6b86b3db4b2fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 21/26] fix: mat: load column vectors as one-dimensional arrays

Files written by other programs commonly contain column vectors, which were
accepted before the shapes of arrays were retained.
---
 dsch/backends/mat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 1e6c3b8..07f19f3 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -36,8 +36,9 @@ class Array(npz.Array):
             data_storage (numpy.ndarray): Backend-specific data storage object
                 to load.
         """
-        if self.schema_node.ndim == 1 and (data_storage.size == 0 or
-                                           data_storage.shape[0] == 1):
+        if self.schema_node.ndim == 1 and (
+                data_storage.size in (0, max(data_storage.shape))):
+            # Other programs may use row or column vectors.
             data_storage = data_storage.reshape(-1)
         if (data_storage.dtype == 'uint8' and
                 np.dtype(self.schema_node.dtype) == 'bool'):
-- 
2.43.0


From f131403d061507d8f21b144cba8c2bdc4441cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 22/26] fix: mat: load Bytes that earlier versions stored as
 text

---
 dsch/backends/mat.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 07f19f3..4da3f78 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -62,6 +62,20 @@ class Bytes(npz.Bytes):
         """
         self._storage = np.frombuffer(new_value, dtype='uint8')
 
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Earlier versions stored the value as text.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if data_storage.dtype.kind == 'U':
+            self.replace(''.join(data_storage.ravel()).encode('utf-8'))
+        else:
+            super()._init_from_storage(data_storage)
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
-- 
2.43.0


From 0b9474a0b07d5b0747187228ddb54974556f131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 23/26] fix: copy the arrays loaded from MATLAB files

Arrays returned by scipy.io.loadmat may share their memory with immutable
bytes objects. Changing an element of a loaded array with a single one-byte
element changed that interned object, and thereby the data of other storages.
---
 dsch/backends/mat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 4da3f78..4763627 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -28,7 +28,9 @@ class Array(npz.Array):
         """Create a new data node from a data storage object.
 
         Only dimensions added by the file format are removed, so that arrays
-        retain their shape even if some dimensions are of length 1 or 0.
+        retain their shape even if some dimensions are of length 1 or 0. The
+        data is copied, because :func:`scipy.io.loadmat` returns arrays whose
+        memory may be shared with other (immutable) objects.
         Boolean arrays are stored as MATLAB ``logical``, which
         :func:`scipy.io.loadmat` represents as ``uint8``.
 
@@ -43,7 +45,7 @@ class Array(npz.Array):
         if (data_storage.dtype == 'uint8' and
                 np.dtype(self.schema_node.dtype) == 'bool'):
             data_storage = data_storage.astype('bool')
-        super()._init_from_storage(data_storage)
+        super()._init_from_storage(data_storage.copy())
 
 
 class Bytes(npz.Bytes):
-- 
2.43.0


From ec8ad23d3051e49259886bd9391e89205a3e62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 24/26] fix: do not change an empty file when loading it as an
 HDF5 file

HDF5 turns an empty file into an HDF5 file when it is opened for writing, so
that loading a file that is no HDF5 file at all changed it.
---
 dsch/backends/hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 056c167..d6dc426 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -4,6 +4,7 @@ This backend provides support for the HDF5 file format. :mod:`h5py` is used as
 the interface.
 """
 import datetime
+import os
 
 import h5py
 import numpy as np
@@ -405,6 +406,10 @@ class Storage(storage.FileStorage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
+        # Opening an empty file for writing would turn it into an HDF5 file.
+        if (os.path.exists(self.storage_path) and
+                not h5py.is_hdf5(self.storage_path)):
+            raise OSError('Not an HDF5 file: {}'.format(self.storage_path))
         self._storage = h5py.File(self.storage_path, 'r+')
         self.schema_node = schema.node_from_json(
             self._storage.attrs['dsch_schema'])
-- 
2.43.0


From b0c0e72e3ebd946e12866c83c61a49ceb6257cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 25/26] fix: copying a list node onto itself removed its items

---
 dsch/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 4604a4e..6367077 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -819,6 +819,9 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            # Clearing the node would remove the data to be copied.
+            return
         self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
-- 
2.43.0


From d893e75ab410fb27314997d2cc078573573080c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 26/26] fix: mat: another file was read or written if the path
 was a directory

---
 dsch/backends/mat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 4763627..1ed2734 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -205,7 +205,8 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path)
+        # By default, SciPy falls back to another file name with '.mat' added.
+        file_ = sio.loadmat(self.storage_path, appendmat=False)
         self.schema_node = schema.node_from_json(file_['schema'][0])
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
@@ -221,7 +222,8 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data, long_field_names=True)
+        sio.savemat(self.storage_path, store_data, appendmat=False,
+                    long_field_names=True)
 
 
 class String(_ItemNode, npz.String):
-- 
2.43.0

