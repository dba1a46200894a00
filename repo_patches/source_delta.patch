From 38203f0e6fbba5c8a52f21dfaf62a0ee42d91b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 01/84] fix: use numpy.floating for the upcast test of
 single-precision data

numpy.float was only an alias of the builtin and no longer exists, so every
DataNode and every ReadNode evaluation raised AttributeError.
---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index f38615b..a23b969 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -124,7 +124,7 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.float) and array.dtype.itemsize < 8:
+        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
 
         # Store data
@@ -262,7 +262,7 @@ class ReadNode(FlowNode):
             data = ncvar[index12]
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.float) and ncvar.dtype.itemsize < 8:
+            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
 
             # Read the positive attribute, if available
-- 
2.43.0


From 7db112e46e946d6550aaceb67588dbcb9188f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 02/84] fix: reduce PhysArrays over several dimensions at once
 and sum when asked to sum

sum() over a list of dimensions computed means, and both sum() and mean()
removed the axes in ascending order while the remaining ones shifted.
---
 pyconform/physarray.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d6b1ca0..593bfd7 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -640,9 +640,7 @@ class PhysArray(numpy.ma.MaskedArray):
             meanval = self.view(numpy.ma.MaskedArray).mean(axis=axis)
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
-            meanval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                meanval = meanval.mean(axis=a)
+            meanval = self.view(numpy.ma.MaskedArray).mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
@@ -672,9 +670,7 @@ class PhysArray(numpy.ma.MaskedArray):
             sumval = self.view(numpy.ma.MaskedArray).sum(axis=axis)
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
-            sumval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                sumval = sumval.mean(axis=a)
+            sumval = self.view(numpy.ma.MaskedArray).sum(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 81147da1696e7ddae2bfc9abe5f87b19034553b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 03/84] fix: do not negate the caller's data when matching
 positive directions

_match_positive_ flipped the right operand in place although it only holds a
view of the caller's array, so 'a + b' negated b's data.
---
 pyconform/physarray.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 593bfd7..f46547e 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -433,7 +433,8 @@ class PhysArray(numpy.ma.MaskedArray):
             elif self.positive == "down":
                 other.down()
         else:
-            other.flip()
+            other = other.copy().flip()
+        return other
 
     def _check_inplace_(self, other):
         other = PhysArray(other)
@@ -451,8 +452,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __add__(self, other):
         result = PhysArray(self)
@@ -507,8 +507,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _mul_div_init_(self, other):
         other = self._broadcast_(PhysArray(other))
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __mul__(self, other):
         result = PhysArray(self)
-- 
2.43.0


From 63f4c307cb56d121c7c5927cc1e1d27a554524f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 04/84] fix: keep the positive direction in unit conversions

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index f46547e..3998246 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -217,7 +217,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             new_name = "convert({}, from={}, to={})".format(obj.name, u1_str, u2_str)
             return PhysArray(
-                new_array, name=new_name, units=u2, dimensions=obj.dimensions
+                new_array,
+                name=new_name,
+                units=u2,
+                dimensions=obj.dimensions,
+                positive=obj.positive,
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-- 
2.43.0


From 29048966189d3aa00d17cf496467099168c5ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 05/84] fix: report the units in the sqrt units error instead
 of failing on the node

---
 pyconform/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0be9232..d378189 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -267,7 +267,9 @@ class SquareRootFunction(Function):
                 units = data_info.units.root(2)
             except:
                 raise UnitsError(
-                    "sqrt: Cannot take square-root of units {!r}".format(data.units)
+                    "sqrt: Cannot take square-root of units {!r}".format(
+                        data_info.units
+                    )
                 )
             self._units = units
         else:
-- 
2.43.0


From aba14d11e4998dd51d6a1257b4edfaa10c9c161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 06/84] fix: sum, min and max reduce over every dimension they
 are given

sum used only the first dimension, and min and max assumed four-dimensional
data reduced over its second dimension.
---
 pyconform/functions.py | 48 ++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index d378189..7d69e5a 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -324,13 +324,8 @@ class SumFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        for d in dimensions:
-            # print d, 'in', data.dimensions, '?'
-            if d in data.dimensions:
-                # print 'will append ', data.dimensions.index(d)
-                indims.append(data.dimensions.index(d))
-        return np.sum(data, indims[0])
+        indims = [d for d in dimensions if d in data.dimensions]
+        return data.sum(dimensions=indims)
 
 
 class MinFunction(Function):
@@ -348,23 +343,25 @@ class MinFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
+        indims = [d for d in dimensions if d in data.dimensions]
+        new_dims = tuple(d for d in data.dimensions if d not in indims)
+        new_name = "min({},{})".format(data.name, dimensions)
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+                np.zeros((0,) * len(new_dims)),
+                name=new_name,
+                positive=data.positive,
+                units=data.units,
+                dimensions=new_dims,
             )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
-        new_name = "min({},{})".format(data.name, dimensions)
-        m = np.amin(data, axis=indims[0])
+        axes = tuple(data.dimensions.index(d) for d in indims)
+        m = np.amin(np.ma.asarray(data), axis=axes)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
@@ -383,24 +380,25 @@ class MaxFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
+        indims = [d for d in dimensions if d in data.dimensions]
+        new_dims = tuple(d for d in data.dimensions if d not in indims)
+        new_name = "max({},{})".format(data.name, dimensions[0])
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
+                np.zeros((0,) * len(new_dims)),
+                name=new_name,
+                positive=data.positive,
                 units=data.units,
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+                dimensions=new_dims,
             )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
-        new_name = "max({},{})".format(data.name, dimensions[0])
-        m = np.amax(data, axis=indims[0])
+        axes = tuple(data.dimensions.index(d) for d in indims)
+        m = np.amax(np.ma.asarray(data), axis=axes)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
-- 
2.43.0


From bf50d7d65d931676e2a6355fc286e362c3a7dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 07/84] fix: up, down and limit work on a copy instead of their
 argument's data

---
 pyconform/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 7d69e5a..36984fb 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -411,7 +411,7 @@ class PositiveUpFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).up()
+        return PhysArray(data).copy().up()
 
 
 class PositiveDownFunction(Function):
@@ -423,7 +423,7 @@ class PositiveDownFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).down()
+        return PhysArray(data).copy().down()
 
 
 class ChangeUnitsFunction(Function):
@@ -505,6 +505,7 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
+        data = PhysArray(data).copy()
         above_str = ""
         if above_val is not None:
             above_ind = where(data > above_val)
-- 
2.43.0


From 1fb919aedb1593a39b964ec5a6e147181beb6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 08/84] fix: validate against bounds of zero and keep values
 equal to a bound

A declared bound of 0 was ignored, and data equal to valid_min or valid_max
were masked although they are valid.
---
 pyconform/flownodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a23b969..8f762c5 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -542,27 +542,27 @@ class ValidateNode(FlowNode):
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
         # Validate minimum
-        if valid_min:
+        if valid_min is not None:
             dmin = numpy.min(indata)
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata <= valid_min, indata)
+                indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
-        if valid_max:
+        if valid_max is not None:
             dmax = numpy.max(indata)
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata >= valid_max, indata)
+                indata = numpy.ma.masked_where(indata > valid_max, indata)
 
         # Compute mean of the absolute value, if necessary
-        if ok_min_mean_abs or ok_max_mean_abs:
+        if ok_min_mean_abs is not None or ok_max_mean_abs is not None:
             mean_abs = numpy.mean(numpy.abs(indata))
 
         # Validate minimum mean abs
-        if ok_min_mean_abs:
+        if ok_min_mean_abs is not None:
             if mean_abs < ok_min_mean_abs:
                 msg = "ok_min_mean_abs: {} < {} ({!r})".format(
                     mean_abs, ok_min_mean_abs, self.label
@@ -570,7 +570,7 @@ class ValidateNode(FlowNode):
                 warn(msg, ValidationWarning)
 
         # Validate maximum mean abs
-        if ok_max_mean_abs:
+        if ok_max_mean_abs is not None:
             if mean_abs > ok_max_mean_abs:
                 msg = "ok_max_mean_abs: {} > {} ({!r})".format(
                     mean_abs, ok_max_mean_abs, self.label
-- 
2.43.0


From df80bee770fc651f29778ea8a1025f835d374c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 09/84] fix: resolve a negative integer index against the
 length left by the first index

---
 pyconform/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/indexing.py b/pyconform/indexing.py
index 843c71c..c9313e9 100644
--- a/pyconform/indexing.py
+++ b/pyconform/indexing.py
@@ -157,7 +157,7 @@ def join(shape0, index1, index2):
             else:
                 if i2 < -l1 or i2 >= l1:
                     raise IndexError("Second index out of range in array")
-                idx12.append(start1 + i2 * step1)
+                idx12.append(start1 + (i2 % l1) * step1)
         else:
             if i1 < -l0 or i1 >= l0:
                 raise IndexError("First index out of range in array")
-- 
2.43.0


From 9943cb2060dccbaccb080b70a1b77f529a950ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 10/84] fix: report an incomplete definition as a parsing error

---
 pyconform/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/parsing.py b/pyconform/parsing.py
index f35f720..0167dab 100644
--- a/pyconform/parsing.py
+++ b/pyconform/parsing.py
@@ -275,7 +275,8 @@ def p_expression_binary(p):
 
 
 def p_error(p):
-    raise TypeError("Parsing error at {!r}".format(p.value))
+    where = "end of definition" if p is None else repr(p.value)
+    raise TypeError("Parsing error at {}".format(where))
 
 
 yacc.yacc(debug=False)
-- 
2.43.0


From 53d78dd93bc2d7fc1d60099ff2da7c26514e4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 11/84] fix: open files for reading in read-only mode in the
 netCDF4 port

---
 pyconform/climIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e0a0697..9dcae9e 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -347,7 +347,7 @@ class NetCDF4PyPort(object):
         Returns:
             open_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
-        open_file = netCDF4.Dataset(file_name, "r+")
+        open_file = netCDF4.Dataset(file_name, "r")
         return open_file
 
     def read_slice(self, open_file, var, index, all_values=False):
-- 
2.43.0


From bb889fb064a99d91adb08b4e6cedf13cf254e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 12/84] fix: give netCDF4 port variables their attributes under
 their own names

create_var set every attribute name as the value of one attribute called like
the variable, and could not set a fill value after creation.
---
 pyconform/climIO.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 9dcae9e..89ad6a7 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -447,6 +447,7 @@ class NetCDF4PyPort(object):
         Returns:
             var (netCDF4.Variable): Returns a netCDF4.Variable object.
         """
+        fill_value = attrib.get("_FillValue", None)
         if self.compressionLevel > 0:
             var = new_file.createVariable(
                 var_name,
@@ -454,11 +455,15 @@ class NetCDF4PyPort(object):
                 tuple(dims),
                 zlib=True,
                 complevel=int(self.compressionLevel),
+                fill_value=fill_value,
             )
         else:
-            var = new_file.createVariable(var_name, typeCode, tuple(dims))
-        for att in attrib:
-            var.setncattr(var_name, att)
+            var = new_file.createVariable(
+                var_name, typeCode, tuple(dims), fill_value=fill_value
+            )
+        for k, v in attrib.items():
+            if k != "_FillValue":
+                var.setncattr(k, v)
         return var
 
     def get_var_info(self, template_file, var_name):
-- 
2.43.0


From c7a29c3ad7e689d2e1e64ced603606e52a96a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 13/84] fix: store the compression level of the file format as
 an integer

---
 pyconform/climIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 89ad6a7..d5c9674 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -161,7 +161,7 @@ class PyNioPort(object):
         if "netcdf4c" in ncformat:
             opt.Format = "NetCDF4Classic"
             if ncformat[-1].isdigit():
-                opt.CompressionLevel = ncformat[-1]
+                opt.CompressionLevel = int(ncformat[-1])
         elif ncformat == "netcdf4":
             opt.Format = "NetCDF4Classic"
         elif ncformat == "netcdf":
@@ -401,7 +401,7 @@ class NetCDF4PyPort(object):
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
             if ncformat[-1].isdigit():
-                self.compressionLevel = ncformat[-1]
+                self.compressionLevel = int(ncformat[-1])
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
-- 
2.43.0


From 5fc6e8432f434e3068b7c35efcd2d678ad2bb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 14/84] fix: use calls that exist to cast integers and to close
 PyNio files

---
 pyconform/climIO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index d5c9674..513ae22 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -135,7 +135,7 @@ class PyNioPort(object):
         Parameters:
             open_file (NioFile): A pointer to an open NioFile object.
         """
-        Nio.close(open_file)
+        open_file.close()
 
     def create_file(self, new_file_name, ncformat, hist_string=None):
         """
@@ -312,7 +312,7 @@ class PyNioPort(object):
         import numpy as np
 
         if all_vars[var_name].typecode() == "i":
-            t = np.long
+            t = int
         else:
             t = np.float32
 
@@ -568,7 +568,7 @@ class NetCDF4PyPort(object):
         import numpy as np
 
         if all_vars[var_name].datatype == "i":
-            t = np.long
+            t = int
         else:
             t = np.float32
 
-- 
2.43.0


From 739097df5be6ff6c9d211b2a9cf123d8edf89193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 15/84] fix: close the template file when a file has been
 defined from it

---
 pyconform/climIO.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 513ae22..5dc19da 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -251,8 +251,16 @@ class PyNioPort(object):
             new_file (NioFile): A pointer to a NioFile object.
 
         """
-        all_vars = {}
         temp_file = self.open_file(template_file)
+        try:
+            return self._define_from_(
+                new_file, var_name, meta_list, temp_file, template_var
+            )
+        finally:
+            self.close_file(temp_file)
+
+    def _define_from_(self, new_file, var_name, meta_list, temp_file, template_var):
+        all_vars = {}
         # Create attributes, dimensions, and variables
         attr = temp_file.attributes
         dims = temp_file.dimensions
@@ -509,8 +517,16 @@ class NetCDF4PyPort(object):
             new_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
 
         """
-        all_vars = {}
         temp_file = self.open_file(template_file)
+        try:
+            return self._define_from_(
+                new_file, var_name, meta_list, temp_file, template_var
+            )
+        finally:
+            self.close_file(temp_file)
+
+    def _define_from_(self, new_file, var_name, meta_list, temp_file, template_var):
+        all_vars = {}
         # Create attributes, dimensions, and variables
         attr = temp_file.ncattrs()
         dims = temp_file.dimensions
-- 
2.43.0


From 13051420e1ce51e403e42220e122de58b82dc50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 16/84] fix: write the time variable at the requested time
 index

---
 pyconform/climIO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 5dc19da..365dd50 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -331,7 +331,8 @@ class PyNioPort(object):
                 all_vars[var_name][index] = values.astype(t)
         else:
             if "time" == var_name:
-                all_vars[var_name][0] = values[0].astype(t)
+                time_index = 0 if index == -99 else index
+                all_vars[var_name][time_index] = values[0].astype(t)
             else:
                 if index == -99:
                     all_vars[var_name][:] = values[:].astype(t)
@@ -595,7 +596,8 @@ class NetCDF4PyPort(object):
                 all_vars[var_name][index] = values.astype(t)
         else:
             if "time" == var_name:
-                all_vars[var_name][0] = values[0].astype(t)
+                time_index = 0 if index == -99 else index
+                all_vars[var_name][time_index] = values[0].astype(t)
             else:
                 if index == -99:
                     all_vars[var_name][0, :] = values[:].astype(t)
-- 
2.43.0


From 7bd251794652a8747dab2015e4482697089539b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 17/84] fix: do not compress a file because an earlier one was
 compressed

---
 pyconform/climIO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 365dd50..665aeb3 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -407,6 +407,7 @@ class NetCDF4PyPort(object):
             new_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
         # The netcdf output format
+        self.compressionLevel = 0
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
             if ncformat[-1].isdigit():
-- 
2.43.0


From 956587c32a535a67809f9b9eaeb18ca7d61585ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 18/84] fix: close the files whose times have been read

---
 pyconform/mapdates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 01f7c84..87fc03c 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -280,7 +280,10 @@ def get_files_in_order(files, alignment=True):
     for fl in files:
         fn = os.path.basename(fl)
         f = ncdf.open_file(fl)
-        ave, date = __get_time_info__(f, ncdf)
+        try:
+            ave, date = __get_time_info__(f, ncdf)
+        finally:
+            ncdf.close_file(f)
         date["fn"] = fn
         date_info[ave] = date
         if alignment:
-- 
2.43.0


From 4e3f6f77d3bbf18da9bbd14099baa96a2f1a1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 19/84] fix: order files with equal mean times and return a
 status without checks

Files with the same mean time replaced each other, the check between files
depended on the length of the last file name, and the status was unbound when
the check inside files was switched off.
---
 pyconform/mapdates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 87fc03c..eec0be2 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -276,6 +276,7 @@ def get_files_in_order(files, alignment=True):
     date_info = {}
     counts = []
     file_list = []
+    error = 0
 
     for fl in files:
         fn = os.path.basename(fl)
@@ -285,7 +286,7 @@ def get_files_in_order(files, alignment=True):
         finally:
             ncdf.close_file(f)
         date["fn"] = fn
-        date_info[ave] = date
+        date_info[ave, len(date_info)] = date
         if alignment:
             error = __check_date_alignment_in_file__(date)
             if error != 0:
@@ -296,7 +297,7 @@ def get_files_in_order(files, alignment=True):
         counts.append(date_info[d]["cnt"])
 
     # If there are more than 1 files, make sure the dates are aligned correctly
-    if len(fl) > 1:
+    if len(files) > 1:
         error = __check_date_alignment__(sorted(date_info.keys()), date_info)
         if error != 0:
             return file_list, counts, error
-- 
2.43.0


From 220e8074733fe35f77a35bc95d8606c2ef6460d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 20/84] fix: compare times of different files in one unit

The step was kept in the file's own units and compared with first and last
times converted to days, and those were decoded with the file's units, so gaps
between files in other units went unnoticed.
---
 pyconform/mapdates.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index eec0be2..300f2a4 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -15,6 +15,8 @@ from dateutil import parser
 
 from . import climIO
 
+STANDARD_UNITS = "days since 1-1-1 0:0:0"
+
 
 def __get_time_info__(f, io):
     """
@@ -35,7 +37,7 @@ def __get_time_info__(f, io):
     """
     date_info = {}
     _tc, _dim, att = io.get_var_info(f, "time")
-    stand_cal = cf_units.Unit("days since 1-1-1 0:0:0", calendar=att["calendar"])
+    stand_cal = cf_units.Unit(STANDARD_UNITS, calendar=att["calendar"])
     cal_unit = cf_units.Unit(att["units"], calendar=att["calendar"])
     if "bounds" in att.keys():
         # print 'Using bounds'
@@ -84,8 +86,11 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(d0, stand_cal)
-    date_info["tn"] = cal_unit.convert(dn, stand_cal)
+    date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
+    date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
+    date_info["t_days"] = cal_unit.convert(float(d2), stand_cal) - cal_unit.convert(
+        float(d1), stand_cal
+    )
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
     date_info["units"] = att["units"]
@@ -117,14 +122,14 @@ def __check_date_alignment__(keys, date_info):
             first/last step(t0 and tn), slice counts(cnt).
     """
     prev_last = date_info[keys[0]]["tn"]
-    t_step = date_info[keys[0]]["t_step"]
+    t_step = date_info[keys[0]]["t_days"]
 
     if date_info[keys[0]]["t_per"] == "mon":
         date = parser.parse(
             str(
                 cf_units.num2date(
                     date_info[keys[0]]["tn"],
-                    date_info[keys[0]]["units"],
+                    STANDARD_UNITS,
                     calendar=date_info[keys[0]]["calendar"],
                 )
             )
@@ -143,7 +148,7 @@ def __check_date_alignment__(keys, date_info):
                 str(
                     cf_units.num2date(
                         date_info[keys[i]]["t0"],
-                        date_info[keys[i]]["units"],
+                        STANDARD_UNITS,
                         calendar=date_info[keys[i]]["calendar"],
                     )
                 )
@@ -153,7 +158,7 @@ def __check_date_alignment__(keys, date_info):
                     str(
                         cf_units.num2date(
                             date_info[keys[i]]["tn"],
-                            date_info[keys[i]]["units"],
+                            STANDARD_UNITS,
                             calendar=date_info[keys[i]]["calendar"],
                         )
                     )
@@ -166,7 +171,7 @@ def __check_date_alignment__(keys, date_info):
                 print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
                 return 1
         else:
-            if next_val == date_info[keys[i]]["t0"]:
+            if abs(next_val - date_info[keys[i]]["t0"]) <= 1e-6 * abs(t_step):
                 # print "Looks
                 # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
                 prev_last = date_info[keys[i]]["tn"]
-- 
2.43.0


From 8f512e02ad0f6092adc03e9178d72ce89f49da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 21/84] fix: notice gaps of whole years in monthly files

Only the month numbers were compared, so January to December of one year
followed by any later January counted as contiguous.
---
 pyconform/mapdates.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 300f2a4..2ed414e 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -134,10 +134,7 @@ def __check_date_alignment__(keys, date_info):
                 )
             )
         ).timetuple()
-        if date[1] == 12:
-            next_val = 1
-        else:
-            next_val = date[1] + 1
+        next_val = 12 * date[0] + date[1] + 1
 
     else:
         next_val = prev_last + t_step
@@ -153,7 +150,7 @@ def __check_date_alignment__(keys, date_info):
                     )
                 )
             ).timetuple()
-            if next_val == new_date[1]:
+            if next_val == 12 * new_date[0] + new_date[1]:
                 date = parser.parse(
                     str(
                         cf_units.num2date(
@@ -163,12 +160,9 @@ def __check_date_alignment__(keys, date_info):
                         )
                     )
                 ).timetuple()
-                if date[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date[1] + 1
+                next_val = 12 * date[0] + date[1] + 1
             else:
-                print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
+                print("Disconnect? Expected: ", next_val, " Got: ", 12 * new_date[0] + new_date[1])
                 return 1
         else:
             if abs(next_val - date_info[keys[i]]["t0"]) <= 1e-6 * abs(t_step):
@@ -211,15 +205,12 @@ def __check_date_alignment_in_file__(date):
             date1 = parser.parse(
                 str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
             ).timetuple()
-            if date1[1] == 12:
-                next_val = 1
-            else:
-                next_val = date1[1] + 1
+            next_val = 12 * date1[0] + date1[1] + 1
         for i in range(1, len(t)):
             new_date = parser.parse(
                 str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
             ).timetuple()
-            if next_val == new_date[1]:
+            if next_val == 12 * new_date[0] + new_date[1]:
                 date1 = parser.parse(
                     str(
                         cf_units.num2date(
@@ -227,16 +218,13 @@ def __check_date_alignment_in_file__(date):
                         )
                     )
                 ).timetuple()
-                if date1[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date1[1] + 1
+                next_val = 12 * date1[0] + date1[1] + 1
             else:
                 print(
                     "Disconnect? Expected: ",
                     next_val,
                     " Got: ",
-                    new_date[1],
+                    12 * new_date[0] + new_date[1],
                     " around time step: ",
                     i,
                 )
-- 
2.43.0


From 1dd18233f2d53c83257bb13f21ea5b58ccd64830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 22/84] fix: leave the caller's chunks as they are in debug
 mode

---
 pyconform/dataflow.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index dbf0db6..e13a945 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -362,8 +362,7 @@ class DataFlow(object):
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
         if len(sumlike_chunk_dims) > 0:
             if debug:
-                for d in sumlike_chunk_dims:
-                    chunks.pop(d)
+                chunks = {d: chunks[d] for d in chunks if d not in sumlike_chunk_dims}
             else:
                 raise ValueError(
                     'Cannot chunk over dimensions that are summed over (or "sum-like")'
-- 
2.43.0


From c7b675ce5d9c5a8d685668cc08c934c69ef7b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 23/84] fix: allow output datasets in which no variable is
 computed

---
 pyconform/dataflow.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index e13a945..d9eb67c 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -189,14 +189,13 @@ class DataFlow(object):
     def _compute_dimension_maps_(self, definfos):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
-        nodeorder = list(
-            zip(
-                *sorted(
-                    (len(self._ods.variables[vname].dimensions), vname)
-                    for vname in definfos
-                )
+        nodeorder = [
+            vname
+            for _, vname in sorted(
+                (len(self._ods.variables[vname].dimensions), vname)
+                for vname in definfos
             )
-        )[1]
+        ]
 
         # Now, we construct the dimension maps
         i2omap = {}
-- 
2.43.0


From 9bf07fb8f4e8573395d502d5a715b053b5b01cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 24/84] fix: reject output dimensions that cannot be mapped one
 to one

---
 pyconform/dataflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index d9eb67c..8a29abf 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -208,7 +208,11 @@ class DataFlow(object):
             mapped_inp = tuple(o2imap[d] for d in out_dims if d in o2imap)
             unmapped_inp = tuple(d for d in inp_dims if d not in mapped_inp)
 
-            if len(unmapped_out) != len(unmapped_inp):
+            if (
+                len(unmapped_out) != len(unmapped_inp)
+                or any(d not in inp_dims for d in mapped_inp)
+                or any(d in i2omap for d in unmapped_inp)
+            ):
                 map_str = ", ".join("{}-->{}".format(k, i2omap[k]) for k in i2omap)
                 err_msg = (
                     "Cannot map dimensions {} to dimensions {} in output variable {} "
-- 
2.43.0


From b42041e5dbd8690b0c1d7fc4769258d489b822da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 25/84] fix: load user modules without the removed imp module

---
 pyconform/cli/xconform.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 5dd4f8f..78891fe 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -14,9 +14,10 @@ LICENSE: See the LICENSE.rst file for details
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from imp import load_source
+from importlib.util import module_from_spec, spec_from_file_location
 from json import load as json_load
 from os.path import exists
+from sys import modules
 from warnings import simplefilter
 
 from asaptools.partition import Duplicate
@@ -27,6 +28,15 @@ from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
 from pyconform.flownodes import ValidationWarning
 
 
+def load_source(name, path):
+    """Load a Python source file as the named module"""
+    spec = spec_from_file_location(name, path)
+    module = module_from_spec(spec)
+    modules[name] = module
+    spec.loader.exec_module(module)
+    return module
+
+
 def chunk(arg):
     try:
         name, size_str = arg.split(",")
-- 
2.43.0


From 740b6919e8b0bf9a5be36fcc5ead57cd159376d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 26/84] fix: stop on all ranks when no input files are given

---
 pyconform/cli/xconform.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 78891fe..dc20c71 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -190,18 +190,18 @@ def main(argv=None):
         for infile in args.infiles:
             infiles.extend(glob(infile))
 
-        # If no input files, stop here
+        # If no input files, there is no input dataset
         if len(infiles) == 0:
             print("Standardization file validated.")
-            return
-
-        # Parse the input Dataset
-        print(
-            "Creating input dataset descriptor from {} input files...".format(
-                len(infiles)
+            inpds = None
+        else:
+            # Parse the input Dataset
+            print(
+                "Creating input dataset descriptor from {} input files...".format(
+                    len(infiles)
+                )
             )
-        )
-        inpds = InputDatasetDesc(filenames=infiles)
+            inpds = InputDatasetDesc(filenames=infiles)
 
     else:
         inpds = None
@@ -212,6 +212,10 @@ def main(argv=None):
     # Sync and continue process on all nodes
     scomm.sync()
 
+    # If no input files, stop here on all nodes
+    if inpds is None:
+        return
+
     # Check for warn/error
     if args.error:
         simplefilter("error", ValidationWarning)
-- 
2.43.0


From 62bdce3b6240ad394ad0877e6438c503dbde76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 27/84] fix: report a missing specification file option as a
 missing file

---
 pyconform/cli/xconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index dc20c71..68485f9 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -160,7 +160,7 @@ def main(argv=None):
     if scomm.is_manager():
 
         # Check that the specfile exists
-        if not exists(args.stdfile):
+        if args.stdfile is None or not exists(args.stdfile):
             raise OSError(
                 ("Output specification file {!r} not " "found").format(args.stdfile)
             )
-- 
2.43.0


From 4c6f27b5b98f308555af71e0e441517d0c21ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 28/84] fix: keep definitions that contain an equals sign

---
 pyconform/cli/vardeps.py  | 2 +-
 pyconform/cli/xconform.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index ede2fe6..8984625 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -117,7 +117,7 @@ def main(argv=None):
                 line = line.strip()
                 if "#" in line:
                     line = line.split("#")[0].strip()
-                split = line.split("=")
+                split = line.split("=", 1)
                 if len(split) == 2:
                     vardefs[split[0].strip()] = split[1].strip()
                 elif len(line) > 0:
diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 68485f9..262d4ac 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -14,7 +14,8 @@ LICENSE: See the LICENSE.rst file for details
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from importlib.util import module_from_spec, spec_from_file_location
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, spec_from_loader
 from json import load as json_load
 from os.path import exists
 from sys import modules
@@ -30,7 +31,7 @@ from pyconform.flownodes import ValidationWarning
 
 def load_source(name, path):
     """Load a Python source file as the named module"""
-    spec = spec_from_file_location(name, path)
+    spec = spec_from_loader(name, SourceFileLoader(name, path))
     module = module_from_spec(spec)
     modules[name] = module
     spec.loader.exec_module(module)
-- 
2.43.0


From d43a12f250a0ab5a8eb1fa341eafa65fec9681e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 29/84] fix: report the dependencies of variables that have a
 frequency but no realm

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 8984625..9ae8090 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -152,7 +152,7 @@ def main(argv=None):
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                 alldeps.update(vdeps)
                 fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm[var])
+                    " [{},{}]".format(varfreqs[var], varrealm.get(var))
                     if var in varfreqs
                     else ""
                 )
-- 
2.43.0


From 431f73a98e84aeb5e702fd1824c9c03f6e1a97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 30/84] fix: report a specification that needs no input
 variables

---
 pyconform/cli/vardeps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 9ae8090..fe85ad4 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -165,7 +165,8 @@ def main(argv=None):
 
     print()
     print("Complete Specification Requires the Following Input Variables:")
-    print_columnar(sorted(alldeps), indent=3)
+    if len(alldeps) > 0:
+        print_columnar(sorted(alldeps), indent=3)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 662d0dad2974b2817de33d30053f718d15e30f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 31/84] fix: keep the string length last when dimensions are
 given as a tuple or by number

---
 pyconform/physarray.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 3998246..df60c0a 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -785,7 +785,13 @@ class CharArray(PhysArray):
         return new_self
 
     def transpose(self, *dims):
-        if set(dims) == set(self.dimensions) and dims[-1] != self.dimensions[-1]:
+        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
+            dims = tuple(dims[0])
+        named = set(dims) == set(self.dimensions)
+        strdim = self.dimensions[-1] if named else self.ndim - 1
+        if set(dims) in (set(self.dimensions), set(range(self.ndim))) and (
+            dims[-1] != strdim
+        ):
             raise DimensionsError(
                 "The last dimension of a CharArray must always be the string length. "
                 "Cannot transpose."
-- 
2.43.0


From 626c47a96343828f000bb459682b1068c5e877fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 32/84] fix: accept global attributes without grids or realm

---
 pyconform/cli/iconform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3d61371..b8ffced 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -372,8 +372,9 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 )
                 attr["further_info_url"] = "https://furtherinfo.es-doc.org/" + info_url
     if "grid" in attr.keys():
-        if len(attr["realm"]) > 0:
-            attr["grid"] = grids[attr["realm"].split()[0]]
+        if len(attr.get("realm", "")) > 0:
+            model = attr["realm"].split()[0]
+            attr["grid"] = grids.get(model, attr["grid"])
         else:
             attr["grid"] = "CAN NOT FIND GRID - NO REALM IN DATAREQ"
 
@@ -389,6 +390,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
 
     attributes = dict(attr)
 
+    grids = {}
     if "grids" in attributes.keys():
         p1 = attributes["grids"].split(";")
         grids = {}
-- 
2.43.0


From 11f0176a8610fb2f49f7bd8e3e0c28776f03811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 33/84] fix: accept global attributes without external
 variables

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index b8ffced..5ba2c85 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -250,7 +250,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 elif "variable_id" in a and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
-    if "FILL" in attr["external_variables"]:
+    if "FILL" in attr.get("external_variables", ""):
         attr.pop("external_variables")
 
     if "branch_method" in attr.keys():
-- 
2.43.0


From 064f8c4994aae856985c8b29b8ae17a0b4327cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 34/84] fix: write the compression level under the name that is
 read

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 5ba2c85..f5ebbcd 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -531,7 +531,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     var["file"]["filename"] = f_name
     var["file"]["format"] = f_format
     if compression is not None:
-        var["file"]["compression"] = compression
+        var["file"]["deflate"] = int(compression)
     if shuffle is not None:
         var["file"]["shuffle"] = shuffle
 
-- 
2.43.0


From e3dbbb9d19bd1ae90d26b296d50ffc85b17b239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 35/84] fix: fill in attributes without changing the dictionary
 being iterated

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index f5ebbcd..f33f586 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -175,7 +175,7 @@ def load(defs, key=None):
 
 def fill_missing_glob_attributes(attr, table, v, grids):
 
-    for a, d in attr.items():
+    for a, d in list(attr.items()):
         if d is not None:
             if "__FILL__" in d:
                 if "activity_id" in a and "activity_id" in table:
-- 
2.43.0


From ec19b84e1ffa73d0b6a1d1aa0e00dc8486ac0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 36/84] fix: list the same types for the file formats as for
 variables

---
 pyconform/datasets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c743ae..059ff61 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -770,9 +770,10 @@ class OutputDatasetDesc(DatasetDesc):
     """
 
     _NC_TYPES_ = {
-        3: ["byte", "char", "short", "int", "float", "double"],
+        3: ["byte", "char", "short", "int", "float", "real", "double"],
         4: [
             "byte",
+            "ubyte",
             "char",
             "short",
             "ushort",
-- 
2.43.0


From cc9c89c616ad1ecd909bc28987a7625744f34c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 37/84] fix: report an unknown MIP table type

---
 pyconform/miptableparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 09895db..a29d6b3 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -136,6 +136,8 @@ def mip_table_parser(
         p = ParseCmorTable()
     elif type == "xml":
         p = ParseXML()
+    else:
+        raise ValueError("Unknown type of MIP table: {!r}".format(type))
     return p.parse_table(
         exp,
         mip,
-- 
2.43.0


From f7ab76cb529c5ee7be018a17f0942b713d4407e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 38/84] fix: use text for the names of axes in MIP tables

---
 pyconform/miptableparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index a29d6b3..c78b017 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -251,7 +251,7 @@ class ParseExcel(object):
                         variables[vn]["coordinates"] = (
                             variables[vn]["dimensions"].strip().replace(" ", "|")
                         )
-                        dims = variables[vn]["dimensions"].encode("utf-8").split()
+                        dims = variables[vn]["dimensions"].split()
                         for dim in dims:
                             if dim not in axes.keys():
                                 axes[dim] = {}
@@ -328,7 +328,7 @@ class ParseCmorTable(object):
                 )
                 variables[var]["frequency"] = mt["Header"]["frequency"]
                 variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
-                dims = v["dimensions"].encode("utf-8").split()
+                dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in mt["axis_entry"].keys():
                         axes[dim] = mt["axis_entry"][dim]
-- 
2.43.0


From d354076c0f59627cd705f06d5a23d379473a8349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 39/84] fix: take all variables of every CMOR table when none
 are named

---
 pyconform/miptableparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index c78b017..09c9b46 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -314,11 +314,13 @@ class ParseCmorTable(object):
                 mt = json.load(f)
 
             if len(v_list) == 0:
-                v_list = list(mt["variable_entry"].keys())
+                table_vars = list(mt["variable_entry"].keys())
+            else:
+                table_vars = v_list
 
             variables = {}
             axes = {}
-            for var in v_list:
+            for var in table_vars:
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From c54b18170c39171581fadcf1232c36adbbcf294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 40/84] fix: divide whole numbers by whole numbers in sizes and
 dates of module functions

---
 pyconform/modules/commonfunctions.py | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7edc5f1..80b0eb8 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -224,12 +224,12 @@ class monthtoyear_noleapFunction(Function):
 
         if len(data.dimensions) == 3:
             a = np.ma.zeros(
-                (data.data.shape[0] / 12, data.data.shape[1], data.data.shape[2])
+                (data.data.shape[0] // 12, data.data.shape[1], data.data.shape[2])
             )
         elif len(data.dimensions) == 4:
             a = np.ma.zeros(
                 (
-                    data.data.shape[0] / 12,
+                    data.data.shape[0] // 12,
                     data.data.shape[1],
                     data.data.shape[2],
                     data.data.shape[3],
@@ -242,7 +242,7 @@ class monthtoyear_noleapFunction(Function):
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             a[i, ...] = np.ma.average(
                 dataD[start : start + 12, ...], axis=0, weights=days_in_month
@@ -293,9 +293,9 @@ class monthtoyear_noleap_timeFunction(Function):
 
         time_bnds = p_time_bnds.data
 
-        b = np.zeros((time_bnds.shape[0] / 12))
+        b = np.zeros((time_bnds.shape[0] // 12))
         time = time_bnds.shape[0]
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             end = (i * 12) + 11
             b[i] = ((time_bnds[start][0] + time_bnds[end][1]) / 2) - 365
@@ -332,9 +332,9 @@ class monthtoyear_noleap_timebndsFunction(Function):
             )
 
         time_bound = p_time_bound.data
-        b = np.zeros((time_bound.shape[0] / 12, 2))
+        b = np.zeros((time_bound.shape[0] // 12, 2))
 
-        for i in range(len(time_bound) / 12):
+        for i in range(len(time_bound) // 12):
             b[i][0] = time_bound[i * 12][0] - 365
             b[i][1] = time_bound[(i * 12) + 11][1] - 365
         new_name = "monthtoyear_noleap_timebnds({})".format(p_time_bound.name)
@@ -474,8 +474,8 @@ class AgeofAirFunction(Function):
 
         # Unpack month and year.  Adjust to compensate for the output
         # convention in h0 files
-        year = date / 10000
-        month = date / 100 % 100
+        year = date // 10000
+        month = date // 100 % 100
         # day = date - 10000 * year - 100 * month
 
         month = month - 1
@@ -1050,21 +1050,21 @@ class hemisphereFunction(Function):
         # dim0?
         if dim in p_data.dimensions[0]:
             if ">" in dr:
-                return p_data[(data.shape[0] / 2) : data.shape[0], :, :]
+                return p_data[(data.shape[0] // 2) : data.shape[0], :, :]
             elif "<" in dr:
-                return p_data[0 : (data.shape[0] / 2), :, :]
+                return p_data[0 : (data.shape[0] // 2), :, :]
         # dim1?
         if dim in p_data.dimensions[1]:
             if ">" in dr:
-                return p_data[:, (data.shape[1] / 2) : data.shape[1], :]
+                return p_data[:, (data.shape[1] // 2) : data.shape[1], :]
             elif "<" in dr:
-                return p_data[:, 0 : (data.shape[1] / 2), :]
+                return p_data[:, 0 : (data.shape[1] // 2), :]
         # dim2?
         if dim in p_data.dimensions[2]:
             if ">" in dr:
-                return p_data[:, :, (data.shape[2] / 2) : data.shape[2]]
+                return p_data[:, :, (data.shape[2] // 2) : data.shape[2]]
             elif "<" in dr:
-                return p_data[:, :, 0 : (data.shape[2] / 2)]
+                return p_data[:, :, 0 : (data.shape[2] // 2)]
 
 
 class cice_whereFunction(Function):
-- 
2.43.0


From de7cc6d0667c6e503defd52be9124ab7324680d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 41/84] fix: honour the name of the bounds dimension in module
 functions

---
 pyconform/modules/commonfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 80b0eb8..a29b1d2 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -137,7 +137,7 @@ class oclim_timebndsFunction(Function):
     key = "oclim_timebnds"
 
     def __init__(self, time, bdim="bnds"):
-        super(oclim_timebndsFunction, self).__init__(time, bdim="d2")
+        super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -315,7 +315,7 @@ class monthtoyear_noleap_timebndsFunction(Function):
     key = "monthtoyear_noleap_timebnds"
 
     def __init__(self, time_bound, bdim="bnds"):
-        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim="d2")
+        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
-- 
2.43.0


From 43c1d2e74e896639c323184cbd0f1f5b37c8ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 42/84] fix: announce the units of module function results for
 the null index

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      |  2 ++
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py |  1 +
 pyconform/modules/atm_funcs.py                |  3 +++
 pyconform/modules/commonfunctions.py          | 27 ++++++++++++++++---
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 3101987..e40d17f 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -77,6 +77,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
             else:
                 return PhysArray(
@@ -86,6 +87,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
 
         EFLX_LH_TOT = pEFLX_LH_TOT.data
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 9717b97..61dbaf9 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -87,6 +87,7 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
                     plat.dimensions[0],
                     plon.dimensions[0],
                 ],
+                units=pGPP.units,
             )
 
         GPP = pGPP.data
diff --git a/pyconform/modules/atm_funcs.py b/pyconform/modules/atm_funcs.py
index 99dd5a8..46001bc 100644
--- a/pyconform/modules/atm_funcs.py
+++ b/pyconform/modules/atm_funcs.py
@@ -30,6 +30,7 @@ class delpFunction(Function):
                     p_PS.dimensions[1],
                     p_PS.dimensions[2],
                 ],
+                units="Pa",
             )
 
         PO = p_PO.data
@@ -79,6 +80,7 @@ class rhoFunction(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="cm-3",
             )
 
         PO = p_PO.data
@@ -120,6 +122,7 @@ class pm25Function(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="kg/kg",
             )
 
         PO = p_PO.data
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index a29b1d2..69c7c2b 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -462,6 +462,7 @@ class AgeofAirFunction(Function):
                     p_lev.dimensions[0],
                     p_lat.dimensions[0],
                 ],
+                units="yr",
             )
 
         spc_zm = p_spc_zm.data
@@ -520,6 +521,7 @@ class YeartoMonth_dataFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -575,6 +577,7 @@ class YeartoMonth_data3DFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -693,6 +696,7 @@ class POP_bottom_layerFunction(Function):
                     p_data.dimensions[2],
                     p_data.dimensions[3],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -825,7 +829,11 @@ class POP_surf_meanFunction(Function):
         p_FIELD = self.arguments[2][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         TAREA = p_TAREA.data
@@ -861,7 +869,11 @@ class POP_3D_meanFunction(Function):
         p_FIELD = self.arguments[3][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         dz = p_dz.data
@@ -899,7 +911,9 @@ class sftofFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0)), dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]]
+                np.zeros((0, 0)),
+                dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]],
+                units=p_KMT.units,
             )
 
         KMT = p_KMT.data
@@ -1023,6 +1037,7 @@ class masked_invalidFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -1084,6 +1099,7 @@ class cice_whereFunction(Function):
             return PhysArray(
                 a1.data,
                 dimensions=[a1.dimensions[0], a1.dimensions[1], a1.dimensions[2]],
+                units=var.units,
             )
 
         a = np.ma.zeros(a1.shape)
@@ -1297,6 +1313,7 @@ class burntFractionFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -1599,6 +1616,7 @@ class emilnoxFunction(Function):
                     p_PS.dimensions[1],
                     p_PS.dimensions[2],
                 ],
+                units="mol s-1",
             )
 
         p0 = p_PO.data
@@ -1729,6 +1747,7 @@ class delpFunction(Function):
             return PhysArray(
                 np.zeros((0, 0, 0)),
                 dimensions=[p_PS.dimensions[0], p_PS.dimensions[1], p_PS.dimensions[2]],
+                units="Pa",
             )
 
         PO = p_PO
@@ -1777,6 +1796,7 @@ class rhoFunction(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="cm-3",
             )
 
         PO = p_PO
@@ -1818,6 +1838,7 @@ class pm25Function(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="kg/kg",
             )
 
         PO = p_PO
-- 
2.43.0


From 8312fbc113c31ec8399f27aaac09d63f0b05c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 43/84] fix: name the axes of module function results

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      | 43 ++++++++++--
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py | 11 +++-
 pyconform/modules/atm_funcs.py                |  8 ++-
 pyconform/modules/commonfunctions.py          | 66 +++++++++++++++----
 4 files changed, 105 insertions(+), 23 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index e40d17f..64cdb8b 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -234,25 +234,56 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         varo_lut[varo_lut >= 1e15] = 1e20
         mvaro_lut = np.ma.masked_values(varo_lut, 1e20)
 
+        dimensions = [
+            pntim.dimensions[0],
+            pnlat.dimensions[0],
+            pnlon.dimensions[0],
+        ]
+
         if "crop" in vegType:
             return PhysArray(
-                mvaro_lut[:, crop, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, crop, :, :],
+                name=new_name,
+                dimensions=dimensions,
+                units=pEFLX_LH_TOT.units,
             )
         elif "veg" in vegType:
             return PhysArray(
-                mvaro_lut[:, veg, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, veg, :, :],
+                name=new_name,
+                dimensions=dimensions,
+                units=pEFLX_LH_TOT.units,
             )
         elif "urban" in vegType:
             return PhysArray(
-                mvaro_lut[:, urban, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, urban, :, :],
+                name=new_name,
+                dimensions=dimensions,
+                units=pEFLX_LH_TOT.units,
             )
         elif "pasture" in vegType:
             return PhysArray(
-                mvaro_lut[:, pasture, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, pasture, :, :],
+                name=new_name,
+                dimensions=dimensions,
+                units=pEFLX_LH_TOT.units,
             )
         elif "nlut" in vegType:
             return PhysArray(
-                mvaro_lut[:, nlut, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, nlut, :, :],
+                name=new_name,
+                dimensions=dimensions,
+                units=pEFLX_LH_TOT.units,
             )
         elif "all" in vegType:
-            return PhysArray(mvaro_lut, name=new_name, units=pEFLX_LH_TOT.units)
+            return PhysArray(
+                mvaro_lut,
+                name=new_name,
+                dimensions=[
+                    pntim.dimensions[0],
+                    landUse.dimensions[0],
+                    pnlat.dimensions[0],
+                    pnlon.dimensions[0],
+                ],
+                units=pEFLX_LH_TOT.units,
+            )
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 61dbaf9..a69707e 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -265,7 +265,16 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         varo_vegType[varo_vegType >= 1e16] = 1e20
         ma_varo_vegType = np.ma.masked_values(varo_vegType, 1e20)
 
-        return PhysArray(ma_varo_vegType, name=new_name, units=pGPP.units)
+        return PhysArray(
+            ma_varo_vegType,
+            name=new_name,
+            dimensions=[
+                ptime.dimensions[0],
+                plat.dimensions[0],
+                plon.dimensions[0],
+            ],
+            units=pGPP.units,
+        )
 
 
 def main(argv=None):
diff --git a/pyconform/modules/atm_funcs.py b/pyconform/modules/atm_funcs.py
index 46001bc..7b1ce26 100644
--- a/pyconform/modules/atm_funcs.py
+++ b/pyconform/modules/atm_funcs.py
@@ -96,7 +96,9 @@ class rhoFunction(Function):
             p_PO.name, p_PS.name, p_hyam.name, p_hybm.name, p_T.name
         )
 
-        return PhysArray(rho, name=new_name, units="cm-3")
+        return PhysArray(
+            rho, name=new_name, dimensions=list(p_T.dimensions), units="cm-3"
+        )
 
 
 class pm25Function(Function):
@@ -139,7 +141,9 @@ class pm25Function(Function):
             p_PO.name, p_PS.name, p_hyam.name, p_hybm.name, p_T.name, p_PM25_o.name
         )
 
-        return PhysArray(pm25, name=new_name, units="kg/kg")
+        return PhysArray(
+            pm25, name=new_name, dimensions=list(p_T.dimensions), units="kg/kg"
+        )
 
 
 # class tozFunction(Function):
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 69c7c2b..941b7df 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -498,7 +498,12 @@ class AgeofAirFunction(Function):
             p_spc_zm.name, p_date.name, p_time.name, p_lat.name, p_lev.name
         )
 
-        return PhysArray(a, name=new_name, units="yr")
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[p_time.dimensions[0], p_lev.dimensions[0], p_lat.dimensions[0]],
+            units="yr",
+        )
 
 
 class YeartoMonth_dataFunction(Function):
@@ -710,7 +715,16 @@ class POP_bottom_layerFunction(Function):
 
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[2],
+                p_data.dimensions[3],
+            ],
+            units=p_data.units,
+        )
 
 
 class diff_axis1_ind0bczero_4dFunction(Function):
@@ -1031,12 +1045,8 @@ class masked_invalidFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[
-                    p_data.dimensions[0],
-                    p_data.dimensions[1],
-                    p_data.dimensions[2],
-                ],
+                np.zeros((0,) * len(p_data.dimensions)),
+                dimensions=list(p_data.dimensions),
                 units=p_data.units,
             )
 
@@ -1046,7 +1056,12 @@ class masked_invalidFunction(Function):
 
         new_name = "masked_invalid({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=list(p_data.dimensions),
+            units=p_data.units,
+        )
 
 
 class hemisphereFunction(Function):
@@ -1336,7 +1351,16 @@ class burntFractionFunction(Function):
         a[a >= 1e16] = 1e20
         new_name = "burntFraction({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[1],
+                p_data.dimensions[2],
+            ],
+            units=p_data.units,
+        )
 
 
 class reduce_luFunction(Function):
@@ -1443,7 +1467,16 @@ class get_nonwoodyvegFunction(Function):
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
         )
         if index is None:
-            return data
+            return PhysArray(
+                data,
+                dimensions=[
+                    p_pct_nat_pft.dimensions[0],
+                    p_landUse.dimensions[0],
+                    p_pct_nat_pft.dimensions[2],
+                    p_pct_nat_pft.dimensions[3],
+                ],
+                units=p_pct_nat_pft.units,
+            )
 
         data[:, 0, :, :] = (
             pct_nat_pft[:, 12, :, :]
@@ -1475,8 +1508,8 @@ class get_nonwoodyvegFunction(Function):
             dimensions=[
                 p_pct_nat_pft.dimensions[0],
                 p_landUse.dimensions[0],
-                p_pct_nat_pft.dimensions[1],
                 p_pct_nat_pft.dimensions[2],
+                p_pct_nat_pft.dimensions[3],
             ],
             units=p_pct_nat_pft.units,
         )
@@ -1745,8 +1778,13 @@ class delpFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[p_PS.dimensions[0], p_PS.dimensions[1], p_PS.dimensions[2]],
+                np.zeros((0, 0, 0, 0)),
+                dimensions=[
+                    p_hyai.dimensions[0],
+                    p_PS.dimensions[0],
+                    p_PS.dimensions[1],
+                    p_PS.dimensions[2],
+                ],
                 units="Pa",
             )
 
-- 
2.43.0


From a022b4d088063cf0672466748f62b5eab17451b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 44/84] fix: register dimensions collapsed by module functions

---
 pyconform/modules/CLM_landunit_to_CMIP6_Lut.py |  6 +++++-
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py  |  6 +++++-
 pyconform/modules/commonfunctions.py           | 17 +++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 64cdb8b..f69c913 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -5,7 +5,7 @@ import sys
 
 import numpy as np
 
-from pyconform.functions import Function
+from pyconform.functions import Function, is_constant
 from pyconform.physarray import PhysArray
 
 
@@ -48,6 +48,10 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
             land1d_wtgcell,
             landUse,
         )
+        EFLX_LH_TOT_info = EFLX_LH_TOT if is_constant(EFLX_LH_TOT) else EFLX_LH_TOT[None]
+        if not isinstance(EFLX_LH_TOT_info, PhysArray):
+            raise TypeError("CLM_landunit_to_CMIP6_Lut: EFLX_LH_TOT must be a PhysArray")
+        self.add_sumlike_dimensions(*EFLX_LH_TOT_info.dimensions[1:])
 
     def __getitem__(self, index):
 
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index a69707e..5233907 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -5,7 +5,7 @@ import sys
 import netCDF4 as nc
 import numpy as np
 
-from pyconform.functions import Function
+from pyconform.functions import Function, is_constant
 from pyconform.physarray import PhysArray
 
 
@@ -55,6 +55,10 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
             pfts1d_wtgcell,
             pfts1d_wtlunit,
         )
+        GPP_info = GPP if is_constant(GPP) else GPP[None]
+        if not isinstance(GPP_info, PhysArray):
+            raise TypeError("CLM_pft_to_CMIP6_vegtype: GPP must be a PhysArray")
+        self.add_sumlike_dimensions(*GPP_info.dimensions[1:])
 
     def __getitem__(self, index):
 
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 941b7df..34fb6cd 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -17,6 +17,7 @@ class ZonalMeanFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("mean: Data must be a PhysArray")
+        self.add_sumlike_dimensions(*data_info.dimensions[3:4])
 
     def __getitem__(self, index):
         data = self.arguments[0][index]
@@ -31,6 +32,7 @@ class OclimFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("oclim: Data must be a PhysArray")
+        self.add_sumlike_dimensions(*data_info.dimensions[:1])
 
     def __getitem__(self, index):
 
@@ -193,6 +195,7 @@ class monthtoyear_noleapFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("monthtoyear_noleap: Data must be a PhysArray")
+        self.add_sumlike_dimensions(*data_info.dimensions[:1])
 
     def __getitem__(self, index):
 
@@ -688,6 +691,10 @@ class POP_bottom_layerFunction(Function):
 
     def __init__(self, KMT, data):
         super(POP_bottom_layerFunction, self).__init__(KMT, data)
+        data_info = data if is_constant(data) else data[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("POP_bottom_layer: data must be a PhysArray")
+        self.add_sumlike_dimensions(*data_info.dimensions[1:2])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -836,6 +843,7 @@ class POP_surf_meanFunction(Function):
             raise TypeError("POP_surf_mean: FIELD must be a PhysArray")
         if len(FIELD_info.dimensions) != 3:
             raise DimensionsError("POP_surf_mean: FIELD can only be 3D")
+        self.add_sumlike_dimensions(*FIELD_info.dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -875,6 +883,7 @@ class POP_3D_meanFunction(Function):
             raise TypeError("POP_3D_mean: FIELD must be a PhysArray")
         if len(FIELD_info.dimensions) != 4:
             raise DimensionsError("POP_3D_mean: FIELD can only be 4D")
+        self.add_sumlike_dimensions(*FIELD_info.dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -954,6 +963,10 @@ class POP_bottom_layer_multaddFunction(Function):
 
     def __init__(self, KMT, data1, data2):
         super(POP_bottom_layer_multaddFunction, self).__init__(KMT, data1, data2)
+        data2_info = data2 if is_constant(data2) else data2[None]
+        if not isinstance(data2_info, PhysArray):
+            raise TypeError("POP_bottom_layer_multadd: data2 must be a PhysArray")
+        self.add_sumlike_dimensions(*data2_info.dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -992,6 +1005,10 @@ class POP_layer_sum_multFunction(Function):
 
     def __init__(self, KMT, data1, data2):
         super(POP_layer_sum_multFunction, self).__init__(KMT, data1, data2)
+        data2_info = data2 if is_constant(data2) else data2[None]
+        if not isinstance(data2_info, PhysArray):
+            raise TypeError("POP_layer_sum_mult: data2 must be a PhysArray")
+        self.add_sumlike_dimensions(*data2_info.dimensions[1:2])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
-- 
2.43.0


From f1b3a82fbb9cd162c1b2bbf4fa8ee38592aaf095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 45/84] fix: raise for an integer index into an empty slice
 when joining indices

---
 pyconform/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/indexing.py b/pyconform/indexing.py
index c9313e9..fbd59b1 100644
--- a/pyconform/indexing.py
+++ b/pyconform/indexing.py
@@ -139,7 +139,7 @@ def join(shape0, index1, index2):
         if isinstance(i1, slice):
             i2 = idx2_l.pop(0)
             start1, stop1, step1 = i1.indices(l0)
-            l1 = (abs(stop1 - start1) - 1) // abs(step1) + 1
+            l1 = len(range(start1, stop1, step1))
             if isinstance(i2, slice):
                 if (stop1 - start1) * step1 > 0:
                     start2, stop2, step2 = i2.indices(l1)
-- 
2.43.0


From e2c4ecc218a08eda56ceab542b2a71d1886a023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 46/84] fix: refuse chunk sizes that are not positive

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 8a29abf..6a38adb 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -360,6 +360,12 @@ class DataFlow(object):
                         odname, odsize
                     )
                 )
+            if odsize < 1:
+                raise ValueError(
+                    "Chunk size not positive for output dimension {!r}: {}".format(
+                        odname, odsize
+                    )
+                )
 
         # Check that we are not chunking over any "sum-like" dimensions
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
-- 
2.43.0


From eb7a9b55aa3581b20455d4c985e4bb49b32ac8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 47/84] fix: translate the index requested of renamed
 dimensions

---
 pyconform/functions.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 36984fb..cc9e5c2 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -547,17 +547,29 @@ class RenameDimensionsFunction(Function):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
     def __getitem__(self, index):
-        data = (
-            self.arguments[0]
-            if is_constant(self.arguments[0])
-            else self.arguments[0][index]
-        )
-        if len(self.arguments) == 1:
-            return data
         dims = self.arguments[1:]
+        if is_constant(self.arguments[0]):
+            data = self.arguments[0]
+        else:
+            if len(dims) > 0 and isinstance(index, dict):
+                # Translate the requested index to the original dimensions
+                old_dims = self.arguments[0][None].dimensions
+                index = {
+                    old: index[new]
+                    for old, new in zip(old_dims, self._rename(old_dims, dims))
+                    if new in index
+                }
+            data = self.arguments[0][index]
+        if len(dims) == 0:
+            return data
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
-        new_dims = list(data.dimensions)
+        new_dims = self._rename(data.dimensions, dims)
+        return PhysArray(data, name=new_name, dimensions=new_dims)
+
+    @staticmethod
+    def _rename(old_dims, dims):
+        new_dims = list(old_dims)
         dlen = min(len(dims), len(new_dims))
         new_dims[:dlen] = dims[:dlen]
-        return PhysArray(data, name=new_name, dimensions=new_dims)
+        return new_dims
-- 
2.43.0


From 9db822fcd7b9f71f28ab5315a35075036361de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 48/84] fix: register the axes module functions take
 differences or single levels of

---
 pyconform/modules/commonfunctions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 34fb6cd..8468017 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -744,6 +744,7 @@ class diff_axis1_ind0bczero_4dFunction(Function):
             raise TypeError("diff_axis1_ind0bczero_4d: data must be a PhysArray")
         if len(data_info.dimensions) != 4:
             raise DimensionsError("diff_axis1_ind0bczero_4d: data can only be 4D")
+        self.add_sumlike_dimensions(*data_info.dimensions[1:2])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -791,6 +792,7 @@ class rsdoabsorbFunction(Function):
             raise TypeError("rsdoabsorb: QSW_3D must be a PhysArray")
         if len(QSW_3D_info.dimensions) != 4:
             raise DimensionsError("rsdoabsorb: QSW_3D can only be 4D")
+        self.add_sumlike_dimensions(*QSW_3D_info.dimensions[1:2])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -1385,6 +1387,8 @@ class reduce_luFunction(Function):
 
     def __init__(self, p_data, p_lu):
         super(reduce_luFunction, self).__init__(p_data, p_lu)
+        data_info = p_data if is_constant(p_data) else p_data[None]
+        self.add_sumlike_dimensions(*data_info.dimensions[1:2])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1469,6 +1473,9 @@ class get_nonwoodyvegFunction(Function):
         super(get_nonwoodyvegFunction, self).__init__(
             p_pct_nat_pft, p_pct_crop, p_landfrac, p_landUse
         )
+        for pct in (p_pct_nat_pft, p_pct_crop):
+            pct_info = pct if is_constant(pct) else pct[None]
+            self.add_sumlike_dimensions(*pct_info.dimensions[1:2])
 
     def __getitem__(self, index):
         p_pct_nat_pft = self.arguments[0][index]
@@ -1574,6 +1581,8 @@ class ocean_basinFunction(Function):
 
     def __init__(self, p_data1, p_comp, p_basin):
         super(ocean_basinFunction, self).__init__(p_data1, p_comp, p_basin)
+        data1_info = p_data1 if is_constant(p_data1) else p_data1[None]
+        self.add_sumlike_dimensions(*data1_info.dimensions[1:3])
 
     def __getitem__(self, index):
         p_data1 = self.arguments[0][index]
-- 
2.43.0


From 950ea33555fae411f82aaf2056b2f1d5d963aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 49/84] fix: cice_regions no longer zeroes large velocities
 inside its inputs' own data

---
 pyconform/modules/commonfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 8468017..b049b4e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1176,8 +1176,8 @@ class cice_regionsFunction(Function):
         multiple = self.arguments[6]
 
         aice = p_aice.data
-        uvel = p_uvel.data
-        vvel = p_vvel.data
+        uvel = p_uvel.data.copy()
+        vvel = p_vvel.data.copy()
         HTE = p_HTE.data
         HTN = p_HTN.data
         siline = p_siline.data
-- 
2.43.0


From a0c7e57fed4f25c581f0364fb35272cca7e46177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 50/84] fix: variables of one name with differently ordered
 dimensions are no longer taken for the same

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 059ff61..548aeb0 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -318,7 +318,7 @@ class VariableDesc(object):
             return False
         if self.datatype != other.datatype:
             return False
-        if self.dimensions.keys() != other.dimensions.keys():
+        if tuple(self.dimensions) != tuple(other.dimensions):
             return False
         return True
 
-- 
2.43.0


From 5ee97e6c748a79407a53fd25ab03def5daadecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 51/84] fix: bounds of variables that a file includes by
 reference are included in the file too

---
 pyconform/datasets.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 548aeb0..ca00f08 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -944,10 +944,12 @@ class OutputDatasetDesc(DatasetDesc):
                     ).issubset(fdims):
                         vlist[mvname] = vdesc
 
-            # Loop through the current list of variables and check for any "bounds" or "coordinates" attributes
-            mvnames = set()
-            for vname in vlist:
-                vdesc = vlist[vname]
+            # Loop through the current list of variables and add the variables referenced by any "bounds" or
+            # "coordinates" attributes, and the variables that these reference in turn
+            pending = list(vlist)
+            while len(pending) > 0:
+                vdesc = vlist[pending.pop(0)]
+                mvnames = []
                 if "bounds" in vdesc.attributes:
                     mvname = vdesc.attributes["bounds"]
                     if mvname not in variables:
@@ -957,7 +959,7 @@ class OutputDatasetDesc(DatasetDesc):
                                 "found"
                             ).format(vdesc.name, mvname)
                         )
-                    mvnames.add(mvname)
+                    mvnames.append(mvname)
                 if "coordinates" in vdesc.attributes:
                     for mvname in vdesc.attributes["coordinates"].split():
                         if mvname not in variables:
@@ -967,12 +969,11 @@ class OutputDatasetDesc(DatasetDesc):
                                     "found"
                                 ).format(vdesc.name, mvname)
                             )
-                        mvnames.add(mvname)
-
-            # Add the bounds and coordinates to the list of variables
-            for mvname in mvnames:
-                if mvname not in vlist:
-                    vlist[mvname] = variables[mvname]
+                        mvnames.append(mvname)
+                for mvname in mvnames:
+                    if mvname not in vlist:
+                        vlist[mvname] = variables[mvname]
+                        pending.append(mvname)
 
             # Create the file descriptor
             fdict["variables"] = [vlist[vname] for vname in vlist]
-- 
2.43.0


From 4c0a7634a5a63cc3e81343141d16e4d0a722da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 52/84] fix: close the input file of the vegetation type script
 when reading it fails

---
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py | 43 +++++++++----------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 5233907..797f6f7 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -289,29 +289,26 @@ def main(argv=None):
     f_dir = "/glade2/scratch2/mickelso/CMIP6_LND_SCRIPTS/DATA/"
     f_outfir = "/glade2/scratch2/mickelso/CMIP6_LND_SCRIPTS/new/OUTDIR/"
 
-    cdf_file = nc.Dataset(f_dir + f_in, "r")
-
-    ntim = cdf_file.variables["time"][:]
-    nlat = cdf_file.variables["lat"][:]
-    nlon = cdf_file.variables["lon"][:]
-
-    grid1d_ixy = cdf_file.variables["grid1d_ixy"][:]
-    grid1d_jxy = cdf_file.variables["grid1d_jxy"][:]
-    grid1d_lon = cdf_file.variables["grid1d_lon"][:]
-    grid1d_lat = cdf_file.variables["grid1d_lat"][:]
-    land1d_lon = cdf_file.variables["land1d_lon"][:]
-    land1d_lat = cdf_file.variables["land1d_lat"][:]
-    land1d_ityplunit = cdf_file.variables["land1d_ityplunit"][:]
-    pfts1d_lon = cdf_file.variables["pfts1d_lon"][:]
-    pfts1d_lat = cdf_file.variables["pfts1d_lat"][:]
-    pfts1d_active = cdf_file.variables["pfts1d_active"][:]
-    pfts1d_itype_veg = cdf_file.variables["pfts1d_itype_veg"][:]
-    pfts1d_wtgcell = cdf_file.variables["pfts1d_wtgcell"][:]
-    pfts1d_wtlunit = cdf_file.variables["pfts1d_wtlunit"][:]
-
-    GPP = cdf_file.variables["GPP"][:]
-
-    cdf_file.close()
+    with nc.Dataset(f_dir + f_in, "r") as cdf_file:
+        ntim = cdf_file.variables["time"][:]
+        nlat = cdf_file.variables["lat"][:]
+        nlon = cdf_file.variables["lon"][:]
+
+        grid1d_ixy = cdf_file.variables["grid1d_ixy"][:]
+        grid1d_jxy = cdf_file.variables["grid1d_jxy"][:]
+        grid1d_lon = cdf_file.variables["grid1d_lon"][:]
+        grid1d_lat = cdf_file.variables["grid1d_lat"][:]
+        land1d_lon = cdf_file.variables["land1d_lon"][:]
+        land1d_lat = cdf_file.variables["land1d_lat"][:]
+        land1d_ityplunit = cdf_file.variables["land1d_ityplunit"][:]
+        pfts1d_lon = cdf_file.variables["pfts1d_lon"][:]
+        pfts1d_lat = cdf_file.variables["pfts1d_lat"][:]
+        pfts1d_active = cdf_file.variables["pfts1d_active"][:]
+        pfts1d_itype_veg = cdf_file.variables["pfts1d_itype_veg"][:]
+        pfts1d_wtgcell = cdf_file.variables["pfts1d_wtgcell"][:]
+        pfts1d_wtlunit = cdf_file.variables["pfts1d_wtlunit"][:]
+
+        GPP = cdf_file.variables["GPP"][:]
 
     out_file = nc.Dataset(f_outfir + f_out, "w")
 
-- 
2.43.0


From 1be6b64b244e09afd31439564a5afb2188e057e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 53/84] fix: a keyword given twice in a definition is an error

---
 pyconform/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/parsing.py b/pyconform/parsing.py
index 0167dab..ba511ec 100644
--- a/pyconform/parsing.py
+++ b/pyconform/parsing.py
@@ -163,6 +163,8 @@ def p_keyword_dict_setitem(p):
     """
     keyword_dict : keyword_dict ',' NAME '=' argument
     """
+    if p[3] in p[1]:
+        raise TypeError("Keyword {!r} is repeated".format(p[3]))
     p[1][p[3]] = p[5]
     p[0] = p[1]
 
-- 
2.43.0


From 7b18ff6f8dec51356d63617281d128f58c8cc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 54/84] fix: a missing argument in a definition is an error

---
 pyconform/parsing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/parsing.py b/pyconform/parsing.py
index ba511ec..eec1b7e 100644
--- a/pyconform/parsing.py
+++ b/pyconform/parsing.py
@@ -119,6 +119,8 @@ def p_function_with_arguments_and_keywords(p):
     """
     function : NAME '(' argument_list ',' keyword_dict ')'
     """
+    if not p[3]:
+        raise TypeError("Missing argument before ','")
     p[0] = FuncType(p[1], p[3], p[5])
 
 
@@ -140,6 +142,8 @@ def p_argument_list_append(p):
     """
     argument_list : argument_list ',' argument
     """
+    if not p[1]:
+        raise TypeError("Missing argument before ','")
     p[0] = p[1] + [p[3]]
 
 
-- 
2.43.0


From 7dad96815c67887e752f7828c6d9e55564e50ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 55/84] fix: vardeps reports a definition that cannot be parsed
 instead of listing no dependencies

---
 pyconform/cli/vardeps.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index fe85ad4..2854cde 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -149,17 +149,22 @@ def main(argv=None):
     for var in outvars:
         if var in vardefs:
             try:
-                vdeps = variable_search(parsing.parse_definition(vardefs[var]))
-                alldeps.update(vdeps)
-                fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm.get(var))
-                    if var in varfreqs
-                    else ""
-                )
-                vheader = "   {}{}:".format(var, fheader)
-                print_columnar(sorted(vdeps), header=vheader)
-            except:
+                pdef = parsing.parse_definition(vardefs[var])
+            except Exception as err:
+                print("   {}: Could not parse definition: {}".format(var, err))
+                continue
+            vdeps = variable_search(pdef)
+            if len(vdeps) == 0:
                 print("   {}: No dependencies.".format(var))
+                continue
+            alldeps.update(vdeps)
+            fheader = (
+                " [{},{}]".format(varfreqs[var], varrealm.get(var))
+                if var in varfreqs
+                else ""
+            )
+            vheader = "   {}{}:".format(var, fheader)
+            print_columnar(sorted(vdeps), header=vheader)
         else:
             print("   {}: Not defined.".format(var))
 
-- 
2.43.0


From e19bb82730025ad8e9ea95b935d3e7edd78c1d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 56/84] fix: MapNode keeps its own copy of the dimension map,
 not the caller's or the shared default

---
 pyconform/flownodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 8f762c5..37bae7e 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -354,7 +354,7 @@ class MapNode(FlowNode):
             raise TypeError("Dimension map must be a dictionary")
 
         # Store the dimension input-to-output map
-        self._i2omap = dmap
+        self._i2omap = dict(dmap)
 
         # Construct the reverse mapping
         self._o2imap = dict((v, k) for k, v in dmap.items())
-- 
2.43.0


From 2c3576cc75b1f738103447d5d9289d8bbfbdb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 57/84] fix: ReadNode keeps its own copy of the index its label
 was composed from

---
 pyconform/flownodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 37bae7e..47de67f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -8,6 +8,7 @@ LICENSE: See the LICENSE.rst file for details
 """
 
 from collections import OrderedDict
+from copy import copy
 from datetime import datetime
 from os import makedirs, rename
 from os.path import dirname, exists
@@ -199,7 +200,7 @@ class ReadNode(FlowNode):
             is_all = True
 
         # Store the reading index
-        self._index = index
+        self._index = copy(index)
 
         # Call the base class initializer
         if is_all:
-- 
2.43.0


From 7f5da6b34b48495d35a3104fbbd6bc14ef81544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 58/84] fix: the last time step of a file with bounds starts at
 its own lower bound, not a day before its upper one

---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 2ed414e..b9b9d42 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -46,7 +46,7 @@ def __get_time_info__(f, io):
         d0 = tb[0, 0]
         d1 = tb[1, 0]
         d2 = tb[2, 0]
-        dn = tb[j - 1, 1] - 1
+        dn = tb[j - 1, 0]
         time = tb[:, 0]
     else:
         # print 'Using time'
-- 
2.43.0


From 58e8ce6be5fd3ba54fa4a75896d086d9607a30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 59/84] fix: values are written with the precision of the
 variable, not of a 32 bit float

---
 pyconform/climIO.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 665aeb3..aeb96f2 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -317,12 +317,7 @@ class PyNioPort(object):
             var_name (str): The name of the variable.
             index (int): Optional.  The time index to write.  Default time index is set to 0.
         """
-        import numpy as np
-
-        if all_vars[var_name].typecode() == "i":
-            t = int
-        else:
-            t = np.float32
+        t = all_vars[var_name].typecode()
 
         if not values.shape:
             if index == -99:
@@ -583,12 +578,7 @@ class NetCDF4PyPort(object):
             var_name (str): The name of the variable.
             index (int): Optional.  The time index to write.  Default time index is set to 0.
         """
-        import numpy as np
-
-        if all_vars[var_name].datatype == "i":
-            t = int
-        else:
-            t = np.float32
+        t = all_vars[var_name].datatype
 
         if not values.shape:
             if index == -99:
-- 
2.43.0


From 426db0064dd953bccab20cd3b2f01fc4475b2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 60/84] fix: both ports write at the same time index, also
 variables with one dimension

---
 pyconform/climIO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index aeb96f2..f970dac 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -330,7 +330,7 @@ class PyNioPort(object):
                 all_vars[var_name][time_index] = values[0].astype(t)
             else:
                 if index == -99:
-                    all_vars[var_name][:] = values[:].astype(t)
+                    all_vars[var_name][0] = values[:].astype(t)
                 else:
                     all_vars[var_name][index] = values[:].astype(t)
 
@@ -591,6 +591,6 @@ class NetCDF4PyPort(object):
                 all_vars[var_name][time_index] = values[0].astype(t)
             else:
                 if index == -99:
-                    all_vars[var_name][0, :] = values[:].astype(t)
+                    all_vars[var_name][0] = values[:].astype(t)
                 else:
-                    all_vars[var_name][index, :] = values[:].astype(t)
+                    all_vars[var_name][index] = values[:].astype(t)
-- 
2.43.0


From de9957263f75aed8b8e51475c379c2ff5bcb784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 61/84] fix: the documented file formats are those that are
 created

---
 pyconform/climIO.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index f970dac..ddcf815 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -160,11 +160,10 @@ class PyNioPort(object):
         # The netcdf output format
         if "netcdf4c" in ncformat:
             opt.Format = "NetCDF4Classic"
-            if ncformat[-1].isdigit():
-                opt.CompressionLevel = int(ncformat[-1])
-        elif ncformat == "netcdf4":
+            opt.CompressionLevel = int(ncformat[-1]) if ncformat[-1].isdigit() else 1
+        elif ncformat in ("netcdf4", "NetCDF4Classic"):
             opt.Format = "NetCDF4Classic"
-        elif ncformat == "netcdf":
+        elif ncformat in ("netcdf", "Classic"):
             opt.Format = "Classic"
         elif ncformat == "netcdfLarge":
             opt.Format = "64BitOffset"
@@ -405,11 +404,10 @@ class NetCDF4PyPort(object):
         self.compressionLevel = 0
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
-            if ncformat[-1].isdigit():
-                self.compressionLevel = int(ncformat[-1])
-        elif ncformat == "netcdf4":
+            self.compressionLevel = int(ncformat[-1]) if ncformat[-1].isdigit() else 1
+        elif ncformat in ("netcdf4", "NetCDF4Classic"):
             Format = "NETCDF4_CLASSIC"
-        elif ncformat == "netcdf":
+        elif ncformat in ("netcdf", "Classic"):
             Format = "NETCDF3_CLASSIC"
         elif ncformat == "netcdfLarge":
             Format = "NETCDF3_64BIT"
-- 
2.43.0


From 94cf356fe1600e4da41f22e67fcb20b6a09fdc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 62/84] fix: asking for an unknown I/O library exits with an
 error message

---
 pyconform/climIO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index ddcf815..02b009e 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -60,6 +60,9 @@ def init_climIO(override=None):
         else:
             print("ERROR: Could not find netCDF4 in PYTHONPATH")
             sys.exit(10)
+    else:
+        print("ERROR: Unknown I/O library: ", override)
+        sys.exit(10)
     print("I/O Library: ", use)
     return io_ver
 
-- 
2.43.0


From 9187bc1b247cf2cff5a40eb2f7f55ca1a68f87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 63/84] fix: attributes named like members of the netCDF4
 variable are read from the file

---
 pyconform/climIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 02b009e..a45c0ce 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -494,7 +494,7 @@ class NetCDF4PyPort(object):
 
         attribs = {}
         for n in var_hndl.ncattrs():
-            attribs[n] = var_hndl.__getattribute__(n)
+            attribs[n] = var_hndl.getncattr(n)
 
         return typeCode, dimnames, attribs
 
-- 
2.43.0


From 6e6a8826341c0fc9cf060ebdf0ed242a48d8331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 64/84] fix: iconform: attribute file without a netCDF type

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index f33f586..bc94603 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -449,7 +449,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     if "--ALL--" in experiment:
         experiment = "None"
 
-    f_format = attributes["netcdf_type"]
+    f_format = attributes.get("netcdf_type", "NETCDF4_CLASSIC")
     valid_formats = [
         "NETCDF4",
         "NETCDF4_CLASSIC",
-- 
2.43.0


From dbcce96058e653f5bc25300d0508fc572289d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 65/84] fix: iconform: parent attributes without a parent
 activity or a source

---
 pyconform/cli/iconform.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index bc94603..51052b4 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -275,21 +275,16 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                         attr["branch_time_in_parent"] = attr[
                             "branch_time_in_parent"
                         ].split("D")[0]
-            if "parent_mip_era" in attr.keys() and len(attr["parent_activity_id"]) > 2:
-                attr["parent_mip_era"] = attr["mip_era"]
+            has_parent = len(attr.get("parent_activity_id", "")) > 2
+            if "parent_mip_era" in attr.keys() and has_parent:
+                attr["parent_mip_era"] = attr.get("mip_era", "")
             else:
                 attr["parent_mip_era"] = "no parent"
-            if (
-                "parent_source_id" in attr.keys()
-                and len(attr["parent_activity_id"]) > 2
-            ):
-                attr["parent_source_id"] = attr["source_id"]
+            if "parent_source_id" in attr.keys() and has_parent:
+                attr["parent_source_id"] = attr.get("source_id", "")
             else:
                 attr["parent_source_id"] = ""
-            if (
-                "parent_time_units" in attr.keys()
-                and len(attr["parent_activity_id"]) > 2
-            ):
+            if "parent_time_units" in attr.keys() and has_parent:
                 attr["parent_time_units"] = "days since 0001-01-01 00:00:00"
             else:
                 attr["parent_time_units"] = "none"
-- 
2.43.0


From 2e4ab0d6e0cbb2665f3abe6b232afac0f19cc0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 66/84] fix: iconform: filling one attribute overwrote others
 whose names it contains, and failed for numbers

---
 pyconform/cli/iconform.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 51052b4..ab76c27 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -176,17 +176,17 @@ def load(defs, key=None):
 def fill_missing_glob_attributes(attr, table, v, grids):
 
     for a, d in list(attr.items()):
-        if d is not None:
+        if isinstance(d, str):
             if "__FILL__" in d:
-                if "activity_id" in a and "activity_id" in table:
+                if a == "activity_id" and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-                elif "creation_date" in a:
+                elif a == "creation_date":
                     attr["creation_date"] = ""
-                elif "data_specs_version" in a and "data_specs_version" in table:
+                elif a == "data_specs_version" and "data_specs_version" in table:
                     attr["data_specs_version"] = table["data_specs_version"]
-                elif "experiment" in a and "experiment" in table:
+                elif a == "experiment" and "experiment" in table:
                     attr["experiment"] = table["experiment"]
-                elif "external_variables" in a:
+                elif a == "external_variables":
                     if "cell_measures" in v.keys():
                         if "areacello" in v["cell_measures"]:
                             if (
@@ -239,15 +239,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                                     attr["external_variables"] + " volcello"
                                 )
 
-                elif "frequency" in a:
+                elif a == "frequency":
                     attr["frequency"] = v["frequency"]
-                elif "realm" in a and "realm" in v.keys():
+                elif a == "realm" and "realm" in v.keys():
                     attr["realm"] = v["realm"]
-                elif "table_id" in a:
+                elif a == "table_id":
                     attr["table_id"] = v["mipTable"]
-                elif "tracking_id" in a:
+                elif a == "tracking_id":
                     attr["tracking_id"] = "hdl:21.14100/" + str(uuid.uuid4())
-                elif "variable_id" in a and "variable_id" in v.keys():
+                elif a == "variable_id" and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
     if "FILL" in attr.get("external_variables", ""):
-- 
2.43.0


From 87d01609b68552b07c8340e5b63116a2232bdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 67/84] fix: iconform: branch time that is not a number in a
 run without parent

---
 pyconform/cli/iconform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index ab76c27..6c9fe0d 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -290,9 +290,12 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 attr["parent_time_units"] = "none"
         else:
             if "branch_time_in_child" in attr.keys():
-                attr["branch_time_in_child"] = float(
-                    attr["branch_time_in_child"].split("D")[0]
-                )
+                try:
+                    attr["branch_time_in_child"] = float(
+                        attr["branch_time_in_child"].split("D")[0]
+                    )
+                except ValueError:
+                    pass
             if "branch_time_in_parent" in attr.keys():
                 attr["branch_time_in_parent"] = 0.0
             if "parent_mip_era" in attr.keys():
-- 
2.43.0


From 8e92abc59d26b8d4efc1ac31ea198fe69b3aa78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 68/84] fix: iconform: variant label that is left to be filled

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 6c9fe0d..df937d7 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -317,7 +317,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
         if "parent_time_units" in attr.keys():
             attr["parent_time_units"] = "no parent"
 
-    if "variant_label" in attr.keys():
+    if attr.get("variant_label", "__FILL__") not in ("", "__FILL__"):
         pre = attr["variant_label"].split("r")[1]
         attr["realization_index"] = int(pre.split("i")[0])
         pre = pre.split("i")[1]
-- 
2.43.0


From 3dbe05d17746d4294da87c39b1343d143478806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 69/84] fix: iconform: options of the file became global
 attributes of netCDF3 files

---
 pyconform/cli/iconform.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index df937d7..74ea0fb 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -466,20 +466,13 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     attributes.pop("netcdf_type", None)
 
     if "NETCDF4" in f_format:
-        if "compression" in attributes.keys():
-            compression = attributes["compression"]
-            attributes.pop("compression", None)
-        else:
-            compression = None
-
-        if "shuffle" in attributes.keys():
-            shuffle = attributes["shuffle"]
-            attributes.pop("shuffle", None)
-        else:
-            shuffle = None
+        compression = attributes.get("compression", None)
+        shuffle = attributes.get("shuffle", None)
     else:
         compression = None
         shuffle = None
+    attributes.pop("compression", None)
+    attributes.pop("shuffle", None)
 
     # Put together the filename
     mipTable = v["mipTable"]
-- 
2.43.0


From e02934903c93cf1120c36b9c7b6b2b3c3645d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 70/84] fix: iconform: attributes of an earlier file were
 forgotten

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 74ea0fb..2b05681 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -881,7 +881,7 @@ def main(argv=None):
                     attributes.update(ga)
                 else:
                     with open(gaFile) as y_attributes:
-                        attributes = load(y_attributes, key="ga")["ga"]
+                        attributes.update(load(y_attributes, key="ga")["ga"])
             else:
                 if args.globalAttrFile and not os.path.isfile(args.globalAttrFile):
                     print(
-- 
2.43.0


From 8a7d8a71d525a0b471d03f720dcdf670228cb264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 71/84] fix: iconform: axis without a type

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 2b05681..c78c32d 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -580,7 +580,7 @@ def defineAxes(v, name):
 
     # put everything into a variable dictionary
     var["attributes"] = v2
-    if "type" in v.keys():
+    if v.get("type") not in (None, "", "None"):
         var["datatype"] = data_types[v["type"]]
     if "requested" in v.keys():
         if v["requested"] != "":
-- 
2.43.0


From d3c5ae024ada9269726d7db40a1c325011eeab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 72/84] fix: iconform: scalar variables had a dimension without
 a name

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index c78c32d..6b262f9 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -550,7 +550,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     if "requested" in v.keys():
         if v["requested"] != "":
             var["definition"] = v["requested"]
-    if "coordinates" in v.keys():
+    if v.get("coordinates") not in (None, ""):
         var["dimensions"] = list(reversed(v["coordinates"].split("|")))
         var["attributes"]["coordinates"] = " ".join(
             list(reversed(v["coordinates"].split("|")))
-- 
2.43.0


From 4216737e5a43c3e27d679d4821ebb738dfd6b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 73/84] fix: iconform: attributes given by the user decided
 under which name a variable is stored

---
 pyconform/cli/iconform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 6b262f9..4599583 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -668,7 +668,7 @@ def create_output(
                     )
                     realm = d["realm"].replace(" ", "_")
                     ts_key = (
-                        var_list[v]["file"]["attributes"]["activity_id"]
+                        var_list[v]["file"]["attributes"].get("activity_id", "")
                         + "_"
                         + var_list[v]["attributes"]["mipTable"]
                         + "_"
@@ -676,9 +676,7 @@ def create_output(
                     )
                     if ts_key not in TableSpec.keys():
                         TableSpec[ts_key] = {}
-                    TableSpec[ts_key][
-                        var_list[v]["file"]["attributes"]["variable_id"]
-                    ] = var_list[v]
+                    TableSpec[ts_key][d["variable_id"]] = var_list[v]
                     t_realm = "NoRealm"
                     for k1, v1 in definitions.items():
                         if "Coords" in k1:
-- 
2.43.0


From eb02ba905846528299be7829182e33f052de88ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 74/84] fix: iconform: generic levels replaced axes described
 by the table

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 4599583..85f7ee7 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -649,7 +649,7 @@ def create_output(
             g_levels = table_info["generic_levels"]
             g_split = g_levels.split(" ")
             for i in g_split:
-                axes[i] = {}
+                axes.setdefault(i, {})
 
         # identifier = t
         var_list = {}
-- 
2.43.0


From b5378e2e5d10e8567395b862e6c662332dc9a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 75/84] fix: iconform: variables of tables without definitions
 were not reported

---
 pyconform/cli/iconform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 85f7ee7..e70c6dc 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -720,6 +720,7 @@ def create_output(
                 else:
                     print("missing:", v)
             else:
+                print("missing:", v)
                 AllMissing[t].append(v)
 
         ReqSpec["variables"] = var_list
-- 
2.43.0


From fca20f3515ee988e53edb308e1ca3145b7d9acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 76/84] fix: iconform: branch times given as numbers

---
 pyconform/cli/iconform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index e70c6dc..74e11e9 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -256,6 +256,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
     if "branch_method" in attr.keys():
         if "no parent" not in attr["branch_method"]:
             if "branch_time_in_child" in attr.keys():
+                attr["branch_time_in_child"] = str(attr["branch_time_in_child"])
                 if len(attr["branch_time_in_child"]) > 0:
                     try:
                         attr["branch_time_in_child"] = float(
@@ -266,6 +267,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                             "branch_time_in_child"
                         ].split("D")[0]
             if "branch_time_in_parent" in attr.keys():
+                attr["branch_time_in_parent"] = str(attr["branch_time_in_parent"])
                 if len(attr["branch_time_in_parent"]) > 0:
                     try:
                         attr["branch_time_in_parent"] = float(
@@ -292,7 +294,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
             if "branch_time_in_child" in attr.keys():
                 try:
                     attr["branch_time_in_child"] = float(
-                        attr["branch_time_in_child"].split("D")[0]
+                        str(attr["branch_time_in_child"]).split("D")[0]
                     )
                 except ValueError:
                     pass
-- 
2.43.0


From 7a81f26bbf3481317a74f43373f6fc103e2cb5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 77/84] fix: CMOR tables: skip listed variables that are in
 another table

---
 pyconform/miptableparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 09c9b46..2af1652 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -321,6 +321,9 @@ class ParseCmorTable(object):
             variables = {}
             axes = {}
             for var in table_vars:
+                if var not in mt["variable_entry"]:
+                    print("Can not add variable: " + var + " is not in " + t)
+                    continue
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From 4fc09c52d5c44a7eca77bd4e3a32c896ce419155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 78/84] fix: CMOR tables: headers without a realm or a
 frequency, tables without axes

---
 pyconform/miptableparser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 2af1652..91d2985 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -320,6 +320,7 @@ class ParseCmorTable(object):
 
             variables = {}
             axes = {}
+            axis_entry = mt.get("axis_entry", {})
             for var in table_vars:
                 if var not in mt["variable_entry"]:
                     print("Can not add variable: " + var + " is not in " + t)
@@ -327,16 +328,20 @@ class ParseCmorTable(object):
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-                variables[var]["realm"] = mt["Header"]["realm"]
+                variables[var]["realm"] = mt["Header"].get(
+                    "realm", v.get("modeling_realm", "")
+                )
                 variables[var]["mipTable"] = mt["Header"]["table_id"].replace(
                     "Table ", ""
                 )
-                variables[var]["frequency"] = mt["Header"]["frequency"]
+                variables[var]["frequency"] = mt["Header"].get(
+                    "frequency", v.get("frequency", "")
+                )
                 variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
                 dims = v["dimensions"].split()
                 for dim in dims:
-                    if dim not in axes.keys() and dim in mt["axis_entry"].keys():
-                        axes[dim] = mt["axis_entry"][dim]
+                    if dim not in axes.keys() and dim in axis_entry.keys():
+                        axes[dim] = axis_entry[dim]
 
             # Combine three separate dictionaries into the table summary dictionary
             table_dict["variables"] = variables
-- 
2.43.0


From 570cc4d35af425b484817cf233ccf02766ffff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 79/84] fix: CMOR and spreadsheet tables: one dimension per
 word

---
 pyconform/miptableparser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 91d2985..3f864c7 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -248,10 +248,8 @@ class ParseExcel(object):
                             variables[vn][cols[c]] = s.rows[r][c].value
                         variables[vn]["variable_id"] = vn
                         variables[vn]["mipTable"] = sheet
-                        variables[vn]["coordinates"] = (
-                            variables[vn]["dimensions"].strip().replace(" ", "|")
-                        )
                         dims = variables[vn]["dimensions"].split()
+                        variables[vn]["coordinates"] = "|".join(dims)
                         for dim in dims:
                             if dim not in axes.keys():
                                 axes[dim] = {}
@@ -337,7 +335,7 @@ class ParseCmorTable(object):
                 variables[var]["frequency"] = mt["Header"].get(
                     "frequency", v.get("frequency", "")
                 )
-                variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
+                variables[var]["coordinates"] = "|".join(v["dimensions"].split())
                 dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in axis_entry.keys():
-- 
2.43.0


From 5a572a8bd7eb8988ec4ebde8d0c29e31365c6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 80/84] fix: spreadsheet tables: only the listed variables,
 with the present interface of openpyxl

---
 pyconform/miptableparser.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 3f864c7..989358d 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -192,7 +192,7 @@ class ParseExcel(object):
         exp,
         mip,
         table,
-        variables,
+        v_list,
         table_var_fields,
         table_axes_fields,
         table_fields,
@@ -231,21 +231,22 @@ class ParseExcel(object):
 
         for t in table:
             wb = load_workbook(t)
-            for sheet in wb.get_sheet_names():
+            for sheet in wb.sheetnames:
                 if sheet != "Notes":
-                    s = wb.get_sheet_by_name(sheet)
+                    s = wb[sheet]
                     variables = {}
                     axes = {}
-                    cols = []
                     table_info = {}
-                    for c in range(0, len(s.columns)):
-                        cols.append(s.rows[0][c].value)
-                    for r in range(1, len(s.rows)):
+                    rows = list(s.rows)
+                    cols = [c.value for c in rows[0]]
+                    for row in rows[1:]:
                         vnc = cols.index("Variable Name")
-                        vn = s.rows[r][vnc].value
+                        vn = row[vnc].value
+                        if len(v_list) > 0 and vn not in v_list:
+                            continue
                         variables[vn] = {}
-                        for c in range(0, len(s.columns)):
-                            variables[vn][cols[c]] = s.rows[r][c].value
+                        for c in range(0, len(cols)):
+                            variables[vn][cols[c]] = row[c].value
                         variables[vn]["variable_id"] = vn
                         variables[vn]["mipTable"] = sheet
                         dims = variables[vn]["dimensions"].split()
-- 
2.43.0


From 398ea5041468c23b9778e289f02524b877509184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 81/84] fix: data request: all extra dimensions of a variable,
 listed by name

---
 pyconform/miptableparser.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 989358d..e8cbf9d 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -553,7 +553,7 @@ class ParseXML(object):
                                                 var["coordinates"] = dq.inx.uid[
                                                     s_var.cids[0]
                                                 ].label
-                                                c = dq.inx.uid[s_var.cids[0]]
+                                                c = dq.inx.uid[s_var.cids[0]].label
                                                 if (
                                                     c not in axes_list
                                                     and c != ""
@@ -577,15 +577,18 @@ class ParseXML(object):
                                     # Is there did?
                                     if hasattr(s_var, "dids"):
                                         if isinstance(s_var.dids, tuple):
-                                            extra_dim = dq.inx.uid[s_var.dids[0]].label
-                                            if "coordinates" not in var.keys():
-                                                var["coordinates"] = extra_dim
-                                            else:
-                                                var["coordinates"] = (
-                                                    extra_dim + "|" + var["coordinates"]
-                                                )
-                                            if extra_dim not in axes_list:
-                                                axes_list.append(extra_dim)
+                                            for did in reversed(s_var.dids):
+                                                extra_dim = dq.inx.uid[did].label
+                                                if "coordinates" not in var.keys():
+                                                    var["coordinates"] = extra_dim
+                                                else:
+                                                    var["coordinates"] = (
+                                                        extra_dim
+                                                        + "|"
+                                                        + var["coordinates"]
+                                                    )
+                                                if extra_dim not in axes_list:
+                                                    axes_list.append(extra_dim)
 
                                     # Set what we can from the spatial section
                                     if hasattr(s_var, "spid"):
-- 
2.43.0


From d3d29c4a6df5ddfaf78b775081ad10565b72c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 82/84] fix: data request: axes of variables without spatial
 dimensions

---
 pyconform/miptableparser.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index e8cbf9d..52f113d 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -618,18 +618,6 @@ class ParseXML(object):
                                                     ].replace(
                                                         "grid_latitude", "gridlatitude"
                                                     )
-                                                dims = var["coordinates"].split("|")
-                                                for d in dims:
-                                                    if (
-                                                        d not in axes_list
-                                                        and d != ""
-                                                        and d != "None"
-                                                    ):
-                                                        if (
-                                                            "copy" not in var["id"]
-                                                            and "?" not in d
-                                                        ):
-                                                            axes_list.append(d)
 
                                     if "coordinates" in var.keys():
                                         if len(var["coordinates"]) > 1:
@@ -637,6 +625,17 @@ class ParseXML(object):
                                                 var["coordinates"] = var["coordinates"][
                                                     :-1
                                                 ]
+                                        for d in var["coordinates"].split("|"):
+                                            if (
+                                                d not in axes_list
+                                                and d != ""
+                                                and d != "None"
+                                            ):
+                                                if (
+                                                    "copy" not in var.get("id", "")
+                                                    and "?" not in d
+                                                ):
+                                                    axes_list.append(d)
 
                                 # Set what we can from the variable section
                                 if hasattr(c_var, "vid"):
-- 
2.43.0


From 68f014689b7d35650b5765121e3b2324dbdbd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:48 +0000
Subject: [PATCH 83/84] fix: rho delivers its axes in the order it announces

---
 pyconform/modules/commonfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index b049b4e..b5e8357 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1870,7 +1870,7 @@ class rhoFunction(Function):
         t = p_T
 
         p = (hyam * PO) + (hybm * PS)
-        rho = p / (287.04 * t)
+        rho = (p / (287.04 * t)).transpose(p_T.dimensions)
 
         new_name = "rho({}{}{}{}{})".format(
             p_PO.name, p_PS.name, p_hyam.name, p_hybm.name, p_T.name
-- 
2.43.0


From a8a6fb00452183e06be223410be681641f71d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:07 +0000
Subject: [PATCH 84/84] fix: history of cice_where, cice_regions and
 get_nonwoodyveg names their arguments

---
 pyconform/modules/commonfunctions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index b5e8357..6111055 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1149,7 +1149,9 @@ class cice_whereFunction(Function):
             elif ">" in condition:
                 a[t, :, :] = np.ma.where(a1[t, :, :] > a2, var, value)
 
-        new_name = "cice_where()".format()
+        new_name = "cice_where({}{}{}, {}, {})".format(
+            a1.name, condition, a2, var.name, value
+        )
         return PhysArray(
             a,
             name=new_name,
@@ -1321,7 +1323,9 @@ class cice_regionsFunction(Function):
 
         a = a * multiple
 
-        new_name = "cice_regions()".format()
+        new_name = "cice_regions({}{}{}{}{}{})".format(
+            p_aice.name, p_uvel.name, p_vvel.name, p_HTE.name, p_HTN.name, p_siline.name
+        )
         return PhysArray(
             a,
             name=new_name,
@@ -1525,7 +1529,9 @@ class get_nonwoodyvegFunction(Function):
         data[data >= 1e16] = 1e20
         data = np.ma.masked_values(data, 1e20)
 
-        new_name = "get_nonwoodyveg({})".format(p_pct_nat_pft.name)
+        new_name = "get_nonwoodyveg({}{}{}{})".format(
+            p_pct_nat_pft.name, p_pct_crop.name, p_landfrac.name, p_landUse.name
+        )
         return PhysArray(
             data,
             name=new_name,
-- 
2.43.0

