From 1d5b5e7284df5d8b136e815d06cb03a2bd6f904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 01/55] fix: report binary data-sets in get_set_formats

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..4c6bb1b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -227,7 +227,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From c5e9491ba05589d958c0529f6353fed8e856f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 02/55] fix: refresh forgets the data-sets of a file that
 became empty or was deleted

---
 pyuff/pyuff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 4c6bb1b..0b02401 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -169,6 +169,11 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        # Forget the previous content; the file can have less sets now (or none)
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
-- 
2.43.0


From 3b7712cafc3c0a252acd323dd4e307a77c94a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 03/55] fix: read_sets() without a number counts the data-sets
 after the automatic refresh

---
 pyuff/pyuff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 0b02401..a67dbe1 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -262,6 +262,11 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
+        if not self.file_exists():
+            raise Exception('Cannot read from a non-existing file: ' + self._filename)
+        if not self._refreshed:
+            if not self.refresh():
+                raise Exception('Cannot read from the file: ' + self._filename)
         if setn is None:
             read_range = range(0, self._n_sets)
         else:
@@ -269,11 +274,6 @@ class UFF:
                 read_range = [setn]
             else:
                 read_range = setn
-        if not self.file_exists():
-            raise Exception('Cannot read from a non-existing file: ' + self._filename)
-        if not self._refreshed:
-            if not self.refresh():
-                raise Exception('Cannot read from the file: ' + self._filename)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From a0c7e0d52d79ac18763e0d1c4ddcf5a206609cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 04/55] fix: message of a failing data-set read is built from
 text only

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index a67dbe1..91c1da4 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -365,7 +365,7 @@ class UFF:
                     block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')
             except:
                 fh.close()
-                raise Exception('Error reading data-set #: ' + int(n))
+                raise Exception('Error reading data-set #: ' + str(int(n)))
             else:
                 fh.close()
         # Extracts the dset
-- 
2.43.0


From 5d8a9a692e212366e9cae8fd96ac01d0abfa20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 05/55] fix: overwriting with a binary data-set 58 keeps its
 header and payload

---
 pyuff/datasets/dataset_58.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..ca4c982 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,21 +960,12 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[2::3] = dset['data'].imag
         # always write data in double precision
         if dset['binary']:
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
-            # write data
+            # write data behind the header, through the binary layer of the file
+            fh.flush()
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From e6db704e20b15531ff39bace05140a5422936bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 06/55] fix: binary data-set 58 in single precision is written
 as the header says

---
 pyuff/datasets/dataset_58.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index ca4c982..e57fbd7 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -958,14 +958,12 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[0:-2:3] = dset['x']
                 data[1:-1:3] = dset['data'].real
                 data[2::3] = dset['data'].imag
-        # always write data in double precision
+        # binary data are written in the precision given by the header
         if dset['binary']:
             # write data behind the header, through the binary layer of the file
             fh.flush()
-            if bo == 1:
-                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
-            else:
-                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+            fmt = ('<' if bo == 1 else '>') + ('d' if is_double else 'f')
+            [fh.buffer.write(struct.pack(fmt, datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 1bb004cdcf0c7dee2693c011f9281dd579b5d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 07/55] fix: byte count in the header of binary data-set 58
 covers all the values

---
 pyuff/datasets/dataset_58.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index e57fbd7..f827a29 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -888,18 +888,18 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
 
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-            n_bytes = num_pts * 8
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
-            n_bytes = num_pts * 4
-
-        if 'n_bytes' in dset.keys():
-            dset['n_bytes'] = n_bytes
 
         ord_data_type = dset['ord_data_type']
 
         is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
 
+        # bytes of all the values written: ordinate (1 or 2 per point) and uneven abscissa
+        n_bytes = num_pts * ((1 if is_r else 2) + (0 if is_even else 1)) * (8 if is_double else 4)
+        if 'n_bytes' in dset.keys():
+            dset['n_bytes'] = n_bytes
+
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-- 
2.43.0


From 10c6c461e61b8bf41054c3656766f552fe5b974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 08/55] fix: a data-set that cannot be written leaves the file
 as it was

---
 pyuff/pyuff.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 91c1da4..e895927 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -40,6 +40,7 @@ Notes:
     >>> uff_file.file_exists()
     True
 """
+import io
 import os
 import numpy as np
 import warnings
@@ -421,20 +422,11 @@ class UFF:
         an alias (aka pointer), this is reflected at the caller too.
         
         """
-        if mode.lower() == 'overwrite':
-            # overwrite mode
-            try:
-                fh = open(self._filename, 'wt', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
-        elif mode.lower() == 'add':
-            # add (append) mode
-            try:
-                fh = open(self._filename, 'at', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
-        else:
+        if mode.lower() not in ('overwrite', 'add'):
             raise Exception('Unknown mode: ' + mode)
+        # The data-set is composed in memory, so that the file remains as it was
+        # when the data-set cannot be written
+        fh = io.TextIOWrapper(io.BytesIO(), encoding='utf-8')
         try:
             # Actual writing
             try:
@@ -479,11 +471,16 @@ class UFF:
             else:
                 # Unsupported data-set - do nothing
                 pass
-        except:
-            fh.close()
-            raise  # re-raise the last exception
-        else:
+            fh.flush()
+            data = fh.buffer.getvalue()
+        finally:
             fh.close()
+        try:
+            fh = open(self._filename, 'wb' if mode.lower() == 'overwrite' else 'ab')
+        except:
+            raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
+        with fh:
+            fh.write(data)
         self.refresh()
 
 
-- 
2.43.0


From 4f0688ebab36f3e718a8e74bcba0f8cd215a04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 09/55] fix: adding to a file without final end of line starts
 a new line

---
 pyuff/pyuff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index e895927..ab88e28 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -480,6 +480,12 @@ class UFF:
         except:
             raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
         with fh:
+            if data and fh.tell() > 0:
+                # start on a new line, even if the last line of the file is not ended
+                with open(self._filename, 'rb') as end:
+                    end.seek(-1, os.SEEK_END)
+                    if end.read(1) not in (b'\n', b'\r'):
+                        fh.write(os.linesep.encode())
             fh.write(data)
         self.refresh()
 
-- 
2.43.0


From 5d68e35a7bb48ed0d880e35ca785467b05da971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 10/55] fix: a field of value -1 or binary data that ends like
 a tag does not split a data-set

---
 pyuff/pyuff.py | 64 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index ab88e28..fc57600 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -42,6 +42,7 @@ Notes:
 """
 import io
 import os
+import re
 import numpy as np
 import warnings
 warnings.simplefilter("default")
@@ -66,6 +67,50 @@ from .datasets.dataset_2467 import _write2467, _extract2467, get_structure_2467
 _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
 
 
+# A closing tag can follow the last data on the same line (see ``fix_58b``); it
+# is told from a field of value -1 by what comes next: the end of the file or
+# the start of another data-set
+_AFTER_CLOSING_TAG = re.compile(rb'\s*\Z| *(?:\r\n|\n|\r)    -1 *(?:\r\n|\n|\r) *\d+ *[bB\r\n]')
+
+
+def _is_tag(data, ind):
+    """Returns True if the characters '    -1' at ind are the last ones on the line."""
+    end = ind + 6
+    return data[ind:end] == b'    -1' and (
+        end == len(data) or                         # end of the file
+        data[end] in [10, 13] or                    # LF or CR
+        data[end:ind + 80] == b' ' * 74)            # blanks up to character 80
+
+
+def _find_tags(data):
+    """Returns the offsets of the '    -1' tags that start and end the data-sets."""
+    tags = []
+    ind = data.find(b'    -1')
+    while ind != -1:
+        opened = len(tags) % 2 == 1
+        on_own_line = ind == 0 or data[ind - 1] in [10, 13]
+        if _is_tag(data, ind) and (not opened or on_own_line or binary or
+                                   _AFTER_CLOSING_TAG.match(data, ind + 6)):
+            tags.append(ind)
+            binary = False
+            if not opened:
+                # binary data can contain anything, also tags: pass over them
+                header = data[ind:ind + 13 * 256].splitlines(True)[:13]
+                binary = len(header) == 13 and header[1][:7].lower() == b'    58b'
+                if binary:
+                    try:
+                        end = ind + len(b''.join(header)) + int(header[1][31:43])
+                    except ValueError:
+                        end = ind
+                    for eol in (b'', b'\n', b'\r\n'):
+                        if data[end:end + len(eol)] == eol and end > ind and \
+                                _is_tag(data, end + len(eol)):
+                            ind = end + len(eol) - 1
+                            break
+        ind = data.find(b'    -1', ind + 1)
+    return tags
+
+
 class UFF:
     """
     Manages data reading and writing from/to the UFF file.
@@ -187,24 +232,7 @@ class UFF:
                 # Parses the entire file for '    -1' tags and extracts
                 # the corresponding indices
                 data = fh.read()
-                data_len = len(data)
-                ind = -1
-                block_ind = []
-                while True:
-                    ind = data.find(b'    -1', ind + 1)
-                    if ind == -1:
-                        break
-                    if ind+6 == data_len:
-                        block_ind.append(ind)
-                    # Check if the block is valid and ends with LF or CR
-                    elif ind+6 < data_len and data[ind+6] in [10, 13]:
-                        block_ind.append(ind)
-                    # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
-                        b'                                                                          ':
-                        block_ind.append(ind)
-                    
-                block_ind = np.asarray(block_ind, dtype='int64')
+                block_ind = np.asarray(_find_tags(data), dtype='int64')
 
                 # Constructs block indices of start and end values; each pair
                 # points to start and end offset of the data-set (block) data,
-- 
2.43.0


From 79e9a381978c11402b5feec9c69d1031c5f800b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 11/55] fix: data-set 82 with repeated nodes is written with
 all the nodes

---
 pyuff/datasets/dataset_82.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..0e1a64a 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -50,11 +50,7 @@ def _write82(fh, dset):
         dset = _opt_fields(dset, {'id': 'NONE',
                                         'color': 0})
         # write strings to the file
-        # removed jul 2017: unique_nodes = set(dset['nodes'])
-        # removed jul 2017:if 0 in unique_nodes: unique_nodes.remove(0)
-        # number of changes of node need to
-        # n_nodes = len(dset['nodes'])
-        n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
+        n_nodes = len(dset['nodes'])
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80s\n' % dset['id'])
@@ -87,6 +83,9 @@ def _extract82(block_data):
         split_data = ''.join(split_data[4:])
         split_data = split_data.split()
         dset['nodes'] = np.asarray([float(str) for str in split_data])
+        # the last line can be filled with zeros
+        if not np.any(dset['nodes'][dset['n_nodes']:]):
+            dset['nodes'] = dset['nodes'][:dset['n_nodes']]
     except:
         raise Exception('Error reading data-set #82')
     return dset
-- 
2.43.0


From b00cdec4fc884b445ce12b13bd2129f96b387c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 12/55] fix: first record of data-set 1858 is written in the 12
 character fields of the format

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..1017d81 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From d07123a862e83b056d0187bcdc7ecc318cdc2008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 13/55] fix: beam data-set 2412 elements other than rods are
 written with their beam record

---
 pyuff/datasets/dataset_2412.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..be1a72a 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -44,6 +44,9 @@ Records 1 - 3 are repeated for each beam element in the model.
     else:
         print(out)   
 
+# Elements that are seen as rods and are written and read as 3 lines
+rods_dict = {11, 21, 22, 23, 24}
+
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
@@ -60,7 +63,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in rods_dict:
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
@@ -80,9 +83,6 @@ def _extract2412(block_data):
     dset = {'type': 2412}
     # Define dictionary of possible elements types for legacy interface
     elt_type_dict = {41: 'triangle', 44: 'quad'}
-    # Elements that are seen as rods and read as 3 lines
-    rods_dict = {11, 21, 22, 23, 24}
-
     # Read data
     try:
         split_data = block_data.splitlines()
-- 
2.43.0


From a78971009fb5b4dee989a73043693cc40be5dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 14/55] fix: data-set 2412 elements with more than 8 nodes
 continue on the next line

---
 pyuff/datasets/dataset_2412.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index be1a72a..daa082d 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -70,9 +70,9 @@ def _write2412(fh, dset):
                         elem['beam_foreend_cross'],
                         elem['beam_aftend_cross']
                     ))
-                for ii in elem['nodes_nums']:
-                    fh.write('%10i' % ii)
-                fh.write('\n')
+                # 8 nodes per line
+                for ii in range(0, len(elem['nodes_nums']), 8):
+                    fh.write(''.join(['%10i' % node for node in elem['nodes_nums'][ii:ii + 8]]) + '\n')
         fh.write('%6i\n' % -1)
     except:
         raise Exception('Error writing data-set #2412')
@@ -104,12 +104,16 @@ def _extract2412(block_data):
                 dict_tmp['beam_orientation'] = int(split_data[i+1][0])
                 dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
                 dict_tmp['beam_aftend_cross'] = int(split_data[i + 1][2])
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+2]]
-                i += 3
+                i += 2
             else:
                 # element is no rod and covers 2 lines
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+1]]
-                i += 2
+                i += 1
+            # the nodes continue on the next line after every 8 nodes
+            dict_tmp['nodes_nums'] = [int(e) for e in split_data[i]]
+            i += 1
+            while len(dict_tmp['nodes_nums']) < dict_tmp['num_nodes'] and len(dict_tmp['nodes_nums']) % 8 == 0:
+                dict_tmp['nodes_nums'].extend([int(e) for e in split_data[i]])
+                i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
                 dset[desc] = []
-- 
2.43.0


From 4c7daef08e4e4f54776fb560459db6c1bb2cf2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 15/55] fix: elements given by the legacy interface of data-set
 2412 are written

---
 pyuff/datasets/dataset_2412.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index daa082d..73a6a9a 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -50,11 +50,19 @@ rods_dict = {11, 21, 22, 23, 24}
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
-        for el_type in dset:
-            if type(el_type) is not int:
-                # Skip 'type', 'triangle' and 'quad' indices
-                continue
-            for elem in dset[el_type]:
+        # Skip 'type', 'triangle' and 'quad' indices
+        el_types = {el_type: dset[el_type] for el_type in dset if type(el_type) is int}
+        if not el_types:
+            # only the legacy interface is given: arrays of values, one per element
+            for el_type in ('triangle', 'quad'):
+                if el_type in dset:
+                    legacy = _opt_fields(dict(dset[el_type]), {
+                        'color': [0] * len(dset[el_type]['element_nums']),
+                        'num_nodes': [len(nodes) for nodes in dset[el_type]['nodes_nums']]})
+                    names = [name for name in legacy if name != 'type']
+                    el_types[el_type] = [dict(zip(names, values)) for values in zip(*[legacy[name] for name in names])]
+        for el_type in el_types:
+            for elem in el_types[el_type]:
                 fh.write('%10i%10i%10i%10i%10i%10i\n' % (
                     elem['element_nums'],
                     elem['fe_descriptor'],
-- 
2.43.0


From 7117d58d5ab04cb246067596611b03c32247ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 16/55] fix: negative values in records 12 and 13 of data-set
 2414 keep to their columns

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..fd57159 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From fd98937a65c78b73d841ef45cbd5af891258d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 17/55] fix: data-set 2414 with data at points is closed

---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index fd57159..d4b58fe 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From be8693d51040d7e4837a0c29c0e38636ca963265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 18/55] fix: double precision complex data of data-set 2414 are
 read

---
 pyuff/datasets/dataset_2414.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d4b58fe..332f7af 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -752,7 +752,7 @@ def _extract2414(block_data):
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
-            if dset['data_type'] == 5 :
+            if dset['data_type'] in (5, 6):
                 values = np.asarray([float(str) for str in split_data], 'd')
                 dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
                 
-- 
2.43.0


From d9dcf59f6f8db6d456a904470747717db5f092f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 19/55] fix: data-set 2414 values continue on the next line
 after 6 values

---
 pyuff/datasets/dataset_2414.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 332f7af..d50d9fa 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -541,6 +541,24 @@ Dataset class: Data at points
     else:
         print(out)   
 
+def _write_values(fh, values):
+    """Writes the values of one record 15, 6 per line."""
+    for i in range(0, max(len(values), 1), 6):
+        fh.write(''.join(['%13.5e' % value for value in values[i:i + 6]]) + '\n')
+
+
+def _join_values(lines):
+    """Joins the lines of each record 15, so that records 14 and 15 alternate."""
+    joined = []
+    for line in lines:
+        # a full line of values is continued by a line of reals; record 14 has integers only
+        if joined and len(joined) % 2 == 0 and '.' in line and len(joined[-1].split()) % 6 == 0:
+            joined[-1] += ' ' + line
+        else:
+            joined.append(line)
+    return joined
+
+
 def _write2414(fh, dset):
     """
     DS2414_num is iterative number for each DS2414
@@ -670,20 +688,16 @@ def _write2414(fh, dset):
             if dset['dataset_location'] == 1:
                 for index in range(dset['node_nums'].shape[0]):
                     fh.write('%10i\n' % (dset['node_nums'][index]))
-                    for field in dset['data_at_node'][index]:
-                        # number of values unknown, so loop
-                        fh.write('%13.5e' % (field))
-                    fh.write('\n')
+                    # number of values unknown, so loop
+                    _write_values(fh, dset['data_at_node'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 2:
                 for index in range(dset['element_nums'].shape[0]):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
-                    for field in dset['data_at_element'][index]:
-                        # number of values in record15 unknown, so loop
-                        fh.write('%13.5e' % (field))
-                    fh.write('\n')
+                    # number of values in record15 unknown, so loop
+                    _write_values(fh, dset['data_at_element'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 3:
@@ -789,6 +803,7 @@ def _extract2414(block_data):
             split_data = split_data.splitlines()
             if dset['dataset_location'] == 1:
                 # Data at nodes
+                split_data = _join_values(split_data)
                 record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
                 # record 15 not always same number of fields, so a list of ndarray
                 record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
@@ -797,6 +812,7 @@ def _extract2414(block_data):
 
             elif dset['dataset_location'] == 2:
                 # Data on elements
+                split_data = _join_values(split_data)
                 record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
                 ## record 15 not always same number of fields, so a list of ndarray
                 record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
-- 
2.43.0


From db51ea8e5f35df9ff375d2236cac8a4a276c03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 20/55] fix: data-set 2429 is written with all its groups and
 entities

---
 pyuff/datasets/dataset_2429.py | 54 ++++++++++++++++------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..7e52ee2 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -111,36 +111,32 @@ def _write2429(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0 }
 
-        dset = _opt_fields(dset, dict)
+        # the groups are in a list; a single group can also be given directly
+        groups = dset['groups'] if 'groups' in dset else [dset]
         fh.write('%6i\n%6i\n' % (-1, 2429))
 
-        # Record 1
-        # Field 8 (last field) contains the number or entities in the group
-        fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['group_number'], 
-                                                            dset['active_constraint_set_no_for_group'],
-                                                            dset['active_restraint_set_no_for_group'],
-                                                            dset['active_load_set_no_for_group'],
-                                                            dset['active_dof_set_no_for_group'],
-                                                            dset['active_temperature_set_no_for_group'],
-                                                            dset['active_contact_set_no_for_group'],
-                                                            len(dset['entity_type_code'])))
-        # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
-
-        # Record 3-N
-        # Write the full lines (which have 4 pairs)
-        for i in range(len(dset['entity_type_code']) // 4):
-            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4],
-                                                                dset['entity_type_code'][i * 4 + 1], dset['entity_tag'][i * 4 + 1],
-                                                                dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
-                                                                dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
-        # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
-            # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
-        # Write the missing line break, but only if a non full last line has been written
-        if (len(dset['entity_type_code']) % 4 != 0):
-            fh.write('\n')
+        for group in groups:
+            group = _opt_fields(group, dict)
+            # Record 1
+            # Field 8 (last field) contains the number or entities in the group
+            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'], 
+                                                                group['active_constraint_set_no_for_group'],
+                                                                group['active_restraint_set_no_for_group'],
+                                                                group['active_load_set_no_for_group'],
+                                                                group['active_dof_set_no_for_group'],
+                                                                group['active_temperature_set_no_for_group'],
+                                                                group['active_contact_set_no_for_group'],
+                                                                len(group['entity_type_code'])))
+            # Record 2
+            fh.write('%-40.40s\n' % (group['group_name']))
+
+            # Record 3-N
+            # Write the lines, 4 pairs on each except the last one, which can have less
+            n = len(group['entity_type_code'])
+            for i in range(0, n, 4):
+                for j in range(i, min(i + 4, n)):
+                    fh.write('%10i%10i' % (group['entity_type_code'][j], group['entity_tag'][j]))
+                fh.write('\n')
 
         fh.write('%6i\n' % -1)
 
@@ -156,7 +152,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data) - 1:
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From 241034bfa9454549b47f89f6e55a0e98f45508e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 21/55] fix: temperature and contact set numbers of a prepared
 group are the given ones

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 7e52ee2..b0635a5 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -255,8 +255,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..40f96de 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -240,8 +240,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From 48e2235afa5d66725f2fe2e5be051d1b2bc8d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 22/55] fix: prepare_2467 checks the values of each group by
 their own fields

---
 pyuff/datasets/dataset_2467.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 40f96de..4acb605 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -282,6 +282,8 @@ def prepare_2467(
             item['group_name'],
             item['entity_type_code'],
             item['entity_tag'],
+            item['entity_node_leaf_id'],
+            item['entity_component_id'],
             item['active_constraint_set_no_for_group'],
             item['active_restraint_set_no_for_group'],
             item['active_load_set_no_for_group'],
-- 
2.43.0


From f65329adbe5ae6e1e4d9cdedc1a48d31a317d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 23/55] fix: reading data-set 2467 prints nothing

---
 pyuff/datasets/dataset_2467.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 4acb605..e7893e8 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -124,7 +124,6 @@ def _extract2467(block_data):
     lineIndex = 0
     while lineIndex < len(split_data):
         group = {}
-        print(f"<{split_data[lineIndex]}>")
         group.update(
             _parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                ['group_number', 'active_constraint_set_no_for_group',
@@ -141,8 +140,6 @@ def _extract2467(block_data):
         group['entity_tag'] = np.array(values[1::4].copy(), dtype=int)
         group['entity_node_leaf_id'] = np.array(values[2::4].copy(), dtype=int)
         group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)
-        print(group)
-        print("\n\n")
         dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
 
         lineIndex = indexLastLineForGroup
-- 
2.43.0


From f6df8ff75db8f090d6e964dc37ec6524eecc1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 24/55] fix: written date and time of prepare_151 are written
 to the file

---
 pyuff/datasets/dataset_151.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..1ae60e9 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -57,8 +57,8 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': ds,
-                                        'time_file_written': ts})
+                                        'date_file_written': dset.get('date_db_written', ds),
+                                        'time_file_written': dset.get('time_db_written', ts)})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80s\n' % dset['model_name'])
-- 
2.43.0


From b409295bd025937124732d6a89c0c6cfa44fa4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 25/55] fix: too long texts of data-sets 58, 151, 164, 1858 and
 2400 do not shift the fields that follow

---
 pyuff/datasets/dataset_151.py  |  6 +++---
 pyuff/datasets/dataset_164.py  |  2 +-
 pyuff/datasets/dataset_1858.py |  2 +-
 pyuff/datasets/dataset_2400.py |  2 +-
 pyuff/datasets/dataset_58.py   | 10 +++++-----
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 1ae60e9..4da32b4 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -64,12 +64,12 @@ def _write151(fh, dset):
         fh.write('%-80s\n' % dset['model_name'])
         fh.write('%-80s\n' % dset['description'])
         fh.write('%-80s\n' % dset['db_app'])
-        fh.write('%-10s%-10s%10s%10s%10s\n' % (dset['date_db_created'],
+        fh.write('%-10.10s%-10.10s%10s%10s%10s\n' % (dset['date_db_created'],
                                                 dset['time_db_created'], dset['version_db1'], dset['version_db2'],
                                                 dset['file_type']))
-        fh.write('%-10s%-10s\n' % (dset['date_db_saved'], dset['time_db_saved']))
+        fh.write('%-10.10s%-10.10s\n' % (dset['date_db_saved'], dset['time_db_saved']))
         fh.write('%-80s\n' % dset['program'])
-        fh.write('%-10s%-10s\n' % (dset['date_file_written'], dset['time_file_written']))
+        fh.write('%-10.10s%-10.10s\n' % (dset['date_file_written'], dset['time_file_written']))
         fh.write('%6i\n' % -1)
     except KeyError as msg:
         raise Exception('The required key \'' + msg.args[0] + '\' not present when writing data-set #151')
diff --git a/pyuff/datasets/dataset_164.py b/pyuff/datasets/dataset_164.py
index 9b0852b..86665c6 100644
--- a/pyuff/datasets/dataset_164.py
+++ b/pyuff/datasets/dataset_164.py
@@ -52,7 +52,7 @@ def _write164(fh, dset):
                                         'temp_mode': 1})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 164, ' '))
-        fh.write('%10i%20s%10i\n' % (dset['units_code'], dset['units_description'], dset['temp_mode']))
+        fh.write('%10i%20.20s%10i\n' % (dset['units_code'], dset['units_description'], dset['temp_mode']))
         str = '%25.16e%25.16e%25.16e\n%25.16e\n' % (
             dset['length'], dset['force'], dset['temp'], dset['temp_offset'])
         str = str.replace('e+', 'D+')
diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index 1017d81..416dc19 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -154,7 +154,7 @@ def _write1858(fh, dset):
 
         fh.write('%15.7e%15.7e%15.7e%15.7e%15.7e\n' % (0, 0, 0, 0, 0))
 
-        fh.write('%-4s%2s%-4s\n' % (
+        fh.write('%-4.4s%2s%-4.4s\n' % (
             dset['response_direction'],
             '',
             dset['reference_direction'],
diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index 325014d..f03c457 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -67,7 +67,7 @@ def _write2400(fh, dset):
         fh.write('%-80s\n' % dset['entity_name'])
         fh.write('%-80s\n' % dset['part_number'])
         fh.write('%s\n' % ''.join(['%2i' % v for v in dset['status_mask']]))
-        fh.write('%-10s%-10s%12i%12i%12i\n' % (dset['date'], dset['time'],
+        fh.write('%-10.10s%-10.10s%12i%12i%12i\n' % (dset['date'], dset['time'],
                                                  dset['idm_version_id'], dset['idm_item_id'],
                                                  dset['primary_parent_uid']))
         fh.write('%12i\n' % dset['optimization_switches'])
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index f827a29..e6974cd 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -918,26 +918,26 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         fh.write('%-80s\n' % dset['id3'])
         fh.write('%-80s\n' % dset['id4'])
         fh.write('%-80s\n' % dset['id5'])
-        fh.write('%5i%10i%5i%10i %10s%10i%4i %10s%10i%4i\n' %
+        fh.write('%5i%10i%5i%10i %10.10s%10i%4i %10.10s%10i%4i\n' %
                     (dset['func_type'], dset['func_id'], dset['ver_num'], dset['load_case_id'],
                     dset['rsp_ent_name'], dset['rsp_node'], dset['rsp_dir'], dset['ref_ent_name'],
                     dset['ref_node'], dset['ref_dir']))
         fh.write('%10i%10i%10i%13.5e%13.5e%13.5e\n' % (ord_data_type, num_pts, is_even,
                                                         is_even * dset['abscissa_min'], is_even * dx,
                                                         dset['z_axis_value']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['abscissa_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['abscissa_spec_data_type'],
                                                     dset['abscissa_len_unit_exp'], dset['abscissa_force_unit_exp'],
                                                     dset['abscissa_temp_unit_exp'], dset['abscissa_axis_lab'],
                                                     dset['abscissa_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['ordinate_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['ordinate_spec_data_type'],
                                                     dset['ordinate_len_unit_exp'], dset['ordinate_force_unit_exp'],
                                                     dset['ordinate_temp_unit_exp'], dset['ordinate_axis_lab'],
                                                     dset['ordinate_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['orddenom_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['orddenom_spec_data_type'],
                                                     dset['orddenom_len_unit_exp'], dset['orddenom_force_unit_exp'],
                                                     dset['orddenom_temp_unit_exp'], dset['orddenom_axis_lab'],
                                                     dset['orddenom_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['z_axis_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['z_axis_spec_data_type'],
                                                     dset['z_axis_len_unit_exp'], dset['z_axis_force_unit_exp'],
                                                     dset['z_axis_temp_unit_exp'], dset['z_axis_axis_lab'],
                                                     dset['z_axis_axis_units_lab']))
-- 
2.43.0


From f9183d273fae19b0c03fca4e74166a9c2baa7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 26/55] fix: data-sets 18, 55 and 58 with lines filled with
 blanks are read correctly

---
 pyuff/datasets/dataset_18.py |  6 ++----
 pyuff/datasets/dataset_55.py |  2 +-
 pyuff/datasets/dataset_58.py | 13 ++++++-------
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index f394faf..1e2a28d 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -93,8 +93,7 @@ def _extract18(block_data):
 
         # -- Get Record 31 and 32
         # ... these are the origins of cs defined in ref
-        line_data = ''.join(split_data[4::4])
-        rec_31 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
+        rec_31 = [float(line[i * 13:(i + 1) * 13]) for line in split_data[4::4] for i in range(6)]
         dset['ref_o'] = np.vstack((np.array(rec_31[::6]),
                                     np.array(rec_31[1::6]),
                                     np.array(rec_31[2::6]))).transpose()
@@ -105,8 +104,7 @@ def _extract18(block_data):
                                         np.array(rec_31[5::6]))).transpose()
 
         # ... these are the points on the xz plane
-        line_data = ''.join(split_data[5::4])
-        rec_32 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
+        rec_32 = [float(line[i * 13:(i + 1) * 13]) for line in split_data[5::4] for i in range(3)]
         dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
                                         np.array(rec_32[1::3]),
                                         np.array(rec_32[2::3]))).transpose()
diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..4bd36f9 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -504,7 +504,7 @@ def _extract55(block_data):
             # Body
         split_data = ''.join(split_data[10:])
         node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str.rstrip())//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index e6974cd..8e1ff42 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1086,20 +1086,19 @@ def _extract58(block_data, header_only=False):
             else:
                 values = []
                 split_data = block_data.decode('utf-8', errors='replace').splitlines(True)[13:]
+                # lines can be filled with blanks up to column 80
+                split_data = [line for line in split_data if line.strip()]
                 if (dset['ord_data_type'] == 2) or (dset['ord_data_type'] == 5):
-                    for line in split_data[:-1]:  # '6E13.5'
-                        values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13)])
-                    else:
-                        line = split_data[-1]
-                        values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])
+                    for line in split_data:  # '6E13.5'
+                        values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)].strip()])
                 elif ((dset['ord_data_type'] == 4) or (dset['ord_data_type'] == 6)) and (dset['abscissa_spacing'] == 1):
                     for line in split_data:  # '4E20.12'
-                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20)])
+                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20) if line[20 * i:20 * (i + 1)].strip()])
                 elif (dset['ord_data_type'] == 4) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 2(E13.5,E20.12)
                         values.extend(
                             [float(line[13 * (i + j) + 20 * (i):13 * (i + 1) + 20 * (i + j)]) \
-                                for i in range(len(line) // 33) for j in [0, 1]])
+                                for i in range(len(line.rstrip()) // 33) for j in [0, 1]])
                 elif (dset['ord_data_type'] == 6) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 1E13.5,2E20.12
                         values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])
-- 
2.43.0


From 40c772bb134ebfd517c5e24664f9d1a1052ddcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 27/55] fix: complex data-set 55 with 6 values per node is
 written and read with all of them

---
 pyuff/datasets/dataset_55.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 4bd36f9..4207871 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -440,12 +440,16 @@ def _write55(fh, dset):
                                 (dset['r1'][k], dset['r2'][k], dset['r3'][k], dset['r4'][k], dset['r5'][k],
                                 dset['r6'][k]))
         elif data_type == 5:
-            # Complex data; n_data_per_node is assumed being 3
+            # Complex data; 3 values per line
             for k in range(0, n):
                 fh.write('%10i\n' % dset['node_nums'][k])
                 fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
                             (dset['r1'][k].real, dset['r1'][k].imag, dset['r2'][k].real, dset['r2'][k].imag,
                             dset['r3'][k].real, dset['r3'][k].imag))
+                if n_data_per_node == 6:
+                    fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
+                                (dset['r4'][k].real, dset['r4'][k].imag, dset['r5'][k].real, dset['r5'][k].imag,
+                                dset['r6'][k].real, dset['r6'][k].imag))
         else:
             raise ValueError('Unsupported data type')
         fh.write('%6i\n' % -1)
@@ -503,6 +507,11 @@ def _extract55(block_data):
                                                 ['freq', '', '', '', '', '']))
             # Body
         split_data = ''.join(split_data[10:])
+        if dset['data_type'] == 5 and dset['n_data_per_node'] == 6:
+            # 12 numbers per node are on two lines; join them
+            lines = split_data.splitlines()
+            split_data = '\n'.join([line for node, first, second in zip(lines[::3], lines[1::3], lines[2::3])
+                                    for line in (node, first[:78] + second)])
         node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
         node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str.rstrip())//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
@@ -528,7 +537,9 @@ def _extract55(block_data):
                 dset['r2'] = node_vals[2::6].copy() + 1.j * node_vals[3::6].copy()
                 dset['r3'] = node_vals[4::6].copy() + 1.j * node_vals[5::6].copy()
             else:
-                raise Exception('Cannot handle 6 points per node and complex data when reading data-set #55')
+                dset['node_nums'] = node_nums.copy()
+                for i in range(6):
+                    dset['r%i' % (i + 1)] = node_vals[2 * i::12].copy() + 1.j * node_vals[2 * i + 1::12].copy()
         else:
             raise Exception('Error reading data-set #55')
     except:
-- 
2.43.0


From aaf03d6b86c6e3e2e307e1bdce23118c93d7ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 28/55] fix: data-set 58 with a single point can be written

---
 pyuff/datasets/dataset_58.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 8e1ff42..9c22d67 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -903,7 +903,8 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-        dx = dset['x'][1] - dset['x'][0]
+        # a single point has no spacing of its own
+        dx = dset['x'][1] - dset['x'][0] if num_pts > 1 else dset.get('abscissa_inc', 0)
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From 82159764dc9fbe548a993e2242bfea90e6eeed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 29/55] fix: each data-set 2412 is converted to 82 on its own

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..703fd40 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -131,9 +131,9 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+            nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][1])
-- 
2.43.0


From fb85e18b7c4f780ec43dd76b69af74614b3d66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 30/55] fix: data-set 58 is written without the optional
 orddenom_spec_data_type

---
 pyuff/datasets/dataset_58.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 9c22d67..e682ae0 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -853,6 +853,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 'ordinate_temp_unit_exp': 0,
                 'ordinate_axis_lab': 'NONE',
                 'ordinate_axis_units_lab': 'NONE',
+                'orddenom_spec_data_type': 0,
                 'orddenom_len_unit_exp': 0,
                 'orddenom_force_unit_exp': 0,
                 'orddenom_temp_unit_exp': 0,
-- 
2.43.0


From e9fd470db7247a4e4a898d773e260c3fbe55008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 31/55] fix: data-set 58 is written as complex or real data as
 given, ord_data_type is not required

---
 pyuff/datasets/dataset_58.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index e682ae0..ab4bfa3 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -878,14 +878,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # => ord_data_type = 5 (single) and 6 (double) for complex data
         num_pts = len(dset['data'])
         is_r = not np.iscomplexobj(dset['data'])
+        # the given type is a choice of the precision only
+        single = not force_double and dset.get('ord_data_type') in [2, 5]
         if is_r:
             # real data
-            if force_double:
-                dset['ord_data_type'] = 4
+            dset['ord_data_type'] = 2 if single else 4
         else:
             # complex data
-            if force_double:
-                dset['ord_data_type'] = 6
+            dset['ord_data_type'] = 5 if single else 6
 
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-- 
2.43.0


From 3613ca2a7b6c7b6a39cc394843651f228237b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 32/55] fix: fix_58b keeps data that end with a carriage return
 and files that end without a new line

---
 pyuff/datasets/dataset_58.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index ab4bfa3..7ea1ff6 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1512,12 +1512,20 @@ def fix_58b(filename,fixed_filename=None):
         try:
             lines = data.splitlines(keepends=True)
 
+            # The newline characters of the file; the data can end with a CR of its own
+            newline = lines[0][len(lines[0].rstrip(b'\r\n')):] if lines else b''
+
+            def without_newline(line):
+                if newline and line.endswith(newline):
+                    return line[:-len(newline)]
+                return line.rstrip(b'\r\n')
+
             # Fix 1: Adjust ending '    -1' line
             if len(lines) >= 1 and lines[-1].strip() == b'-1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
+                    prev_line = without_newline(lines[-2])
+                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character, if any
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
                 else:
@@ -1528,7 +1536,7 @@ def fix_58b(filename,fixed_filename=None):
             while i < len(lines) - 3:
                 if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
+                    data_line = without_newline(lines[i])  # Remove newline characters
                     data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
                     lines[i] = data_line
                     del lines[i+1]  # Remove the now-empty line
-- 
2.43.0


From ffc797829db3d3e07b3e6c794a2281135f6992e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 33/55] fix: changing the list of types, formats or supported
 sets does not change the object

---
 pyuff/pyuff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index fc57600..8410c61 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -163,7 +163,7 @@ class UFF:
 
     def get_supported_sets(self):
         """Returns a list of data-sets supported for reading and writing."""
-        return _SUPPORTED_SETS
+        return list(_SUPPORTED_SETS)
 
     def get_n_sets(self):
         """
@@ -180,13 +180,13 @@ class UFF:
         """
         if not self._refreshed:
             self.refresh()
-        return self._set_types
+        return self._set_types.copy()
 
     def get_set_formats(self):
         """Returns an array of data-set formats: 0=ascii, 1=binary."""
         if not self._refreshed:
             self.refresh()
-        return self._set_formats
+        return self._set_formats.copy()
 
     def get_file_name(self):
         """Returns the file name (as a string) associated with the uff object."""
-- 
2.43.0


From 7da21de690ff6180ada9ac9329c7cb70a81ebac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 34/55] fix: data-set 2400 with a status mask of other than 32
 values is rejected, not written unreadable

---
 pyuff/datasets/dataset_2400.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index f03c457..fae75fb 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -66,6 +66,8 @@ def _write2400(fh, dset):
                                         dset['entity_subtype'], dset['version_number']))
         fh.write('%-80s\n' % dset['entity_name'])
         fh.write('%-80s\n' % dset['part_number'])
+        if len(dset['status_mask']) != 32:
+            raise ValueError('status_mask must have 32 values')
         fh.write('%s\n' % ''.join(['%2i' % v for v in dset['status_mask']]))
         fh.write('%-10.10s%-10.10s%12i%12i%12i\n' % (dset['date'], dset['time'],
                                                  dset['idm_version_id'], dset['idm_item_id'],
-- 
2.43.0


From 18b95c41efe7ec70b6af6271953a7d258b2d0306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 35/55] fix: data-set 2414 response with other than 1 to 3
 values per node is rejected, not written without values

---
 pyuff/datasets/dataset_2414.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d50d9fa..768ffe9 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -646,6 +646,8 @@ def _write2414(fh, dset):
                     fh.write('%13.5e%13.5e\n' % (
                                                 np.real(dset['x'][index]),
                                                 np.imag(dset['x'][index]),))
+                else:
+                    raise ValueError('number_of_data_values_for_the_data_component can be: 1, 2, 3')
                 
             fh.write('%6i\n' % (-1))
         # Dictionairy keys have a general name.
-- 
2.43.0


From 3cdad818da7d08938950c9f0374ceb742bbc0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 36/55] fix: data-set 2420 is written without the optional
 types and colors for any number of systems

---
 pyuff/datasets/dataset_2420.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index 66b4cc0..df13b88 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -53,8 +53,8 @@ def _write2420(fh, dset):
     try:
         dict = {'Part_UID': 1,
                 'Part_Name': 'None',
-                'CS_types': [0],
-                'CS_colors': [8]}
+                'CS_types': [0] * len(dset['CS_sys_labels']),
+                'CS_colors': [8] * len(dset['CS_sys_labels'])}
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 2420, ' '))
         fh.write('%10i\n' % (dset['Part_UID']))
-- 
2.43.0


From 0b5c64b96addc65fef5cdadc64112cd42fadb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 37/55] fix: reading data-sets 2429 and 2467 with a negative
 number of entities ends with an error

---
 pyuff/datasets/dataset_2429.py | 2 ++
 pyuff/datasets/dataset_2467.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index b0635a5..9fb58c4 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -159,6 +159,8 @@ def _extract2429(block_data):
                                                 'active_dof_set_no_for_group', 'active_temperature_set_no_for_group', 'active_contact_set_no_for_group', 'number_of_entities_in_group']))
             group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
             # Record 1 field 8 (last field) contains the number or entities in the group
+            if group['number_of_entities_in_group'] < 0:
+                raise ValueError('negative number of entities in the group')
             # max 4 items per line, last line in group doesn't necessarily contain 4 elements
             indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2
             # split all lines and then each line in separate integers. Put this in a ndarray
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index e7893e8..e1cd722 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -131,6 +131,8 @@ def _extract2467(block_data):
                                 'active_dof_set_no_for_group', 'active_temperature_set_no_for_group',
                                 'active_contact_set_no_for_group', 'number_of_entities_in_group']))
         group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
+        if group['number_of_entities_in_group'] < 0:
+            raise ValueError('negative number of entities in the group')
         indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 2) + lineIndex + 2
         # split all lines and then each line in separate integers. Put this in a ndarray
         values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
-- 
2.43.0


From 6cf611f3e65342c8e67ab11c96ceff9b6f193963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 38/55] fix: reading data-set 2414 at nodes on elements with a
 negative number of nodes or values ends with an error

---
 pyuff/datasets/dataset_2414.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 768ffe9..deec944 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -847,6 +847,8 @@ def _extract2414(block_data):
                         numberOfLinesInRecord15 = numberOfNodes * math.ceil(numberOfValuesPerNode / 6)
                     else:
                         numberOfLinesInRecord15 = math.ceil(numberOfValuesPerNode / 6)
+                    if numberOfLinesInRecord15 < 0:
+                        raise ValueError('negative number of nodes or values')
                     # a list of numpy array, since the number of lines is not fixed.
                     dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
-- 
2.43.0


From 32730f6237761cdc601988823c7cc36bbd8ab654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 39/55] fix: texts in the header of a damaged binary set are
 not taken for tags

---
 pyuff/pyuff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 8410c61..94503d2 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -98,12 +98,14 @@ def _find_tags(data):
                 header = data[ind:ind + 13 * 256].splitlines(True)[:13]
                 binary = len(header) == 13 and header[1][:7].lower() == b'    58b'
                 if binary:
+                    start = ind + len(b''.join(header))
                     try:
-                        end = ind + len(b''.join(header)) + int(header[1][31:43])
+                        end = start + int(header[1][31:43])
                     except ValueError:
-                        end = ind
+                        end = -1
+                    ind = start - 1  # no tags in the header
                     for eol in (b'', b'\n', b'\r\n'):
-                        if data[end:end + len(eol)] == eol and end > ind and \
+                        if data[end:end + len(eol)] == eol and end >= start and \
                                 _is_tag(data, end + len(eol)):
                             ind = end + len(eol) - 1
                             break
-- 
2.43.0


From 12173145e508607bdb155c2f602a8282ee26a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 40/55] fix: fix_58b takes only lines of a delimiter for one

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 7ea1ff6..2b9ae54 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1521,7 +1521,7 @@ def fix_58b(filename,fixed_filename=None):
                 return line.rstrip(b'\r\n')
 
             # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
+            if len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = without_newline(lines[-2])
@@ -1534,7 +1534,7 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = without_newline(lines[i])  # Remove newline characters
                     data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
-- 
2.43.0


From 5b37c15df5bc18898a9c26e4dc880eb6c7408485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 41/55] fix: fix_58b leaves the delimiters of text data-sets on
 their own line

---
 pyuff/datasets/dataset_58.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 2b9ae54..585ce30 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1520,21 +1520,13 @@ def fix_58b(filename,fixed_filename=None):
                     return line[:-len(newline)]
                 return line.rstrip(b'\r\n')
 
-            # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
-                if len(lines) >= 2:
-                    # Move '    -1' up to the end of the previous line
-                    prev_line = without_newline(lines[-2])
-                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character, if any
-                    lines[-2] = prev_line
-                    lines.pop()  # Remove the last line
-                else:
-                    pass
-
-            # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
+            # Fix 1: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
+            binary = False  # the delimiters of text data-sets are on their own line
             while i < len(lines) - 3:
-                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):
+                if lines[i].rstrip() == b'    -1' and lines[i+1][:6].strip().isdigit():
+                    binary = lines[i+1][6:7].lower() == b'b'
+                if binary and (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = without_newline(lines[i])  # Remove newline characters
                     data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
@@ -1544,6 +1536,17 @@ def fix_58b(filename,fixed_filename=None):
                 else:
                     i += 1  # Move to the next line
 
+            # Fix 2: Adjust ending '    -1' line
+            if binary and len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
+                if len(lines) >= 2:
+                    # Move '    -1' up to the end of the previous line
+                    prev_line = without_newline(lines[-2])
+                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character, if any
+                    lines[-2] = prev_line
+                    lines.pop()  # Remove the last line
+                else:
+                    pass
+
             # Reassemble the data
             data = b''.join(lines)
 
-- 
2.43.0


From 523b88a668955be7b28b4d7debc1016421732f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 42/55] fix: write data-set 2414 with its labels in lists, as
 prepare_2414 takes them

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index deec944..af0137d 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -626,7 +626,7 @@ def _write2414(fh, dset):
                                             dset['imaginary_part_of_modal_A_or_modal_mass'],
                                             dset['real_part_of_modal_B_or_modal_mass'], 
                                             dset['imaginary_part_of_modal_B_or_modal_mass']))                            
-            for index in range(dset['node_nums'].shape[0]):
+            for index in range(len(dset['node_nums'])):
                 fh.write('%10i\n' % (int(dset['node_nums'][index])))
                 if dset['number_of_data_values_for_the_data_component'] == 3 : 
                     fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
@@ -688,14 +688,14 @@ def _write2414(fh, dset):
             
             # The data and structure of Record 14 and 15 depend on the 'dataset_location'
             if dset['dataset_location'] == 1:
-                for index in range(dset['node_nums'].shape[0]):
+                for index in range(len(dset['node_nums'])):
                     fh.write('%10i\n' % (dset['node_nums'][index]))
                     # number of values unknown, so loop
                     _write_values(fh, dset['data_at_node'][index])
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 2:
-                for index in range(dset['element_nums'].shape[0]):
+                for index in range(len(dset['element_nums'])):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
                     # number of values in record15 unknown, so loop
@@ -703,7 +703,7 @@ def _write2414(fh, dset):
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 3:
-                for index in range(dset['element_nums'].shape[0]):
+                for index in range(len(dset['element_nums'])):
                     fh.write('%10i%10i%10i%10i\n' % (dset['element_nums'][index], dset['IEXP'][index],
                                                     dset['number_of_nodes'][index], dset['number_of_values_per_node'][index]))
                     for line in dset['data_at_nodes_on_element'][index]:
-- 
2.43.0


From 57fad509b1da6f6d5a00ca6566ad2dd84bc864fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 43/55] fix: write data-set 2420 with its matrices in nested
 lists, as prepare_2420 takes them

---
 pyuff/datasets/dataset_2420.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index df13b88..a7e4c43 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -56,6 +56,8 @@ def _write2420(fh, dset):
                 'CS_types': [0] * len(dset['CS_sys_labels']),
                 'CS_colors': [8] * len(dset['CS_sys_labels'])}
         dset = _opt_fields(dset, dict)
+        # the matrices may be nested lists
+        dset = {**dset, 'CS_matrices': [np.asarray(e) for e in dset['CS_matrices']]}
         fh.write('%6i\n%6i%74s\n' % (-1, 2420, ' '))
         fh.write('%10i\n' % (dset['Part_UID']))
         fh.write('%-80s\n' % (dset['Part_Name']))
-- 
2.43.0


From 8289220d2d0f5e6d5b1eb07d49f6b2216d1cb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 44/55] fix: spacing of an abscissa in narrow integers when
 writing data-set 58

---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 585ce30..239dfce 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -905,7 +905,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
         # a single point has no spacing of its own
-        dx = dset['x'][1] - dset['x'][0] if num_pts > 1 else dset.get('abscissa_inc', 0)
+        dx = float(dset['x'][1]) - float(dset['x'][0]) if num_pts > 1 else dset.get('abscissa_inc', 0)
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From c8f63749d86fcdace1b92d4b6f47a2da7c292e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 45/55] fix: the active sets of a group of data-set 2467 are
 optional, as those of data-set 2429

---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index e1cd722..5664c4f 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From 0a8c33ee4952821a0dffec5a35c556b6fea5664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 46/55] fix: only line ends end the lines of a data-set, form
 feeds and other separators in texts do not

---
 pyuff/datasets/dataset_15.py   |  4 ++--
 pyuff/datasets/dataset_151.py  |  4 ++--
 pyuff/datasets/dataset_164.py  |  4 ++--
 pyuff/datasets/dataset_18.py   |  4 ++--
 pyuff/datasets/dataset_1858.py |  4 ++--
 pyuff/datasets/dataset_2400.py |  4 ++--
 pyuff/datasets/dataset_2411.py |  4 ++--
 pyuff/datasets/dataset_2412.py |  4 ++--
 pyuff/datasets/dataset_2414.py | 10 +++++-----
 pyuff/datasets/dataset_2420.py |  4 ++--
 pyuff/datasets/dataset_2429.py |  4 ++--
 pyuff/datasets/dataset_2467.py |  4 ++--
 pyuff/datasets/dataset_55.py   | 10 +++++-----
 pyuff/datasets/dataset_58.py   |  4 ++--
 pyuff/datasets/dataset_82.py   |  4 ++--
 pyuff/tools.py                 | 10 ++++++++++
 16 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index 1f50908..dba7929 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -1,7 +1,7 @@
 from os import write
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _write_record, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, _write_record, check_dict_for_none
 
 def get_structure_15(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -61,7 +61,7 @@ def _extract15(block_data):
     dset = {'type': 15}
     try:
         # Body
-        split_data = block_data.splitlines()
+        split_data = _splitlines(block_data)
         split_data = ''.join(split_data[2:]).split()
         split_data = [float(_) for _ in split_data]
 
diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 4da32b4..7be9ef7 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -2,7 +2,7 @@ import numpy as np
 import time
 import os
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_151(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -81,7 +81,7 @@ def _extract151(block_data):
     """Extract dset data - data-set 151."""
     dset = {'type': 151}
     try:
-        split_data = block_data.splitlines(True)
+        split_data = _splitlines(block_data, True)
         dset.update(_parse_header_line(split_data[2], 1, [80], [1], ['model_name']))
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['description']))
         dset.update(_parse_header_line(split_data[4], 1, [80], [1], ['db_app']))
diff --git a/pyuff/datasets/dataset_164.py b/pyuff/datasets/dataset_164.py
index 86665c6..34bef93 100644
--- a/pyuff/datasets/dataset_164.py
+++ b/pyuff/datasets/dataset_164.py
@@ -1,7 +1,7 @@
 import numpy as np
 import os
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_164(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -69,7 +69,7 @@ def _extract164(block_data):
     """Extract units data - data-set 164."""
     dset = {'type': 164}
     try:
-        split_data = block_data.splitlines(True)
+        split_data = _splitlines(block_data, True)
         dset.update(_parse_header_line(split_data[2], 1, [10, 20, 10], [2, 1, 2],
                                             ['units_code', 'units_description', 'temp_mode']))
         split_data = ''.join(split_data[3:])
diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 1e2a28d..c1899df 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 
 def get_structure_18(raw=False):
@@ -77,7 +77,7 @@ def _extract18(block_data):
     '''Extract local CS definitions -- data-set 18.'''
     dset = {'type': 18}
     try:
-        split_data = block_data.splitlines()
+        split_data = _splitlines(block_data)
 
         # -- Get Record 1
         rec_1 = np.array(list(map(float, ''.join(split_data[2::4]).split())))
diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index 416dc19..18e8147 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_1858(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -171,7 +171,7 @@ def _extract1858(block_data):
     """Extract coordinate data - data-set 1858."""
     dset = {'type': 1858}
     try:
-        split_header = block_data.splitlines(True)[:8]
+        split_header = _splitlines(block_data, True)[:8]
 
         dset.update(_parse_header_line(
             split_header[2],
diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index fae75fb..4b37636 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 
 def get_structure_2400(raw=False):
@@ -84,7 +84,7 @@ def _extract2400(block_data):
     """Extract dset data - data-set 2400."""
     dset = {'type': 2400}
     try:
-        split_data = block_data.splitlines(True)
+        split_data = _splitlines(block_data, True)
         dset.update(_parse_header_line(split_data[2], 4, [12, 6, 6, 12], [2, 2, 2, 2],
                                        ['model_uid', 'entity_type', 'entity_subtype', 'version_number']))
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['entity_name']))
diff --git a/pyuff/datasets/dataset_2411.py b/pyuff/datasets/dataset_2411.py
index 2728a11..b4fe498 100644
--- a/pyuff/datasets/dataset_2411.py
+++ b/pyuff/datasets/dataset_2411.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_2411(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -53,7 +53,7 @@ def _extract2411(block_data):
     dset = {'type': 2411}
     try:
         # Body
-        split_data = block_data.splitlines(True)  # Keep the line breaks!
+        split_data = _splitlines(block_data, True)  # Keep the line breaks!
         split_data = ''.join(split_data[2:])  # ..as they are again needed
         split_data = split_data.split()
         # replace to support D or d notation as an exponential notation (typically form Unigraphics IDEAS)
diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 73a6a9a..4f18f85 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -1,7 +1,7 @@
 import numpy as np
 import itertools
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_2412(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -93,7 +93,7 @@ def _extract2412(block_data):
     elt_type_dict = {41: 'triangle', 44: 'quad'}
     # Read data
     try:
-        split_data = block_data.splitlines()
+        split_data = _splitlines(block_data)
         split_data = [a.split() for a in split_data][2:]
 
         # Extract Records
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index af0137d..ffb94e0 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math as math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_2414(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -731,7 +731,7 @@ def _extract2414(block_data):
     try:
         # Processing named records and fields
         binary = False
-        split_header = block_data.splitlines(True)[:15]  # Keep the line breaks!
+        split_header = _splitlines(block_data, True)[:15]  # Keep the line breaks!
         dset.update(_parse_header_line(split_header[2], 1, [80], [2], ['analysis_dataset_label'])) #Loadcase number
         dset.update(_parse_header_line(split_header[3], 1, [80], [1], ['analysis_dataset_name'])) # usually with the frequency
         dset.update(_parse_header_line(split_header[4], 1, [80], [2], ['dataset_location']))
@@ -763,7 +763,7 @@ def _extract2414(block_data):
                                                 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass', 
                                                 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass']))
 
-            split_data = ''.join(block_data.splitlines(True)[15:])
+            split_data = ''.join(_splitlines(block_data, True)[15:])
             split_data = split_data.split()
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
@@ -801,8 +801,8 @@ def _extract2414(block_data):
                                             'record13_field5', 'record13_field6']))
             
             # The data and structure of Record 14 and 15 depend on the 'dataset_location'
-            split_data = ''.join(block_data.splitlines(True)[15:])
-            split_data = split_data.splitlines()
+            split_data = ''.join(_splitlines(block_data, True)[15:])
+            split_data = _splitlines(split_data)
             if dset['dataset_location'] == 1:
                 # Data at nodes
                 split_data = _join_values(split_data)
diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index a7e4c43..8dacd5a 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_2420(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -81,7 +81,7 @@ def _extract2420(block_data):
     '''Extract local CS/transforms -- data-set 2420.'''
     dset = {'type': 2420}
     #        try:
-    split_data = block_data.splitlines(True)
+    split_data = _splitlines(block_data, True)
 
     # -- Get Record 1
     dset['Part_UID'] = int(split_data[2])
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 9fb58c4..d73675b 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_2429(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -148,7 +148,7 @@ def _extract2429(block_data):
     """Extract  permanent groups data - data-set 2429."""
     dset = {'type': 2429, 'groups': []}
     try:
-        split_data = block_data.splitlines()
+        split_data = _splitlines(block_data)
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 5664c4f..4f92aae 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_2467(raw=False):
     """(source: https://github.com/victorsndvg/FEconv/blob/master/source/unv/module_dataset_2467.f90)"""
@@ -104,7 +104,7 @@ def _write2467(fh, dset):
 def _extract2467(block_data):
     '''Extract physical groups -- data-set 2467.'''
     dset = {'type': 2467, 'groups': []}
-    split_data = block_data.splitlines(True)[2:]
+    split_data = _splitlines(block_data, True)[2:]
 
     group_ids = []
     constraint_sets = []
diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 4207871..99b2ff7 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_55(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -469,7 +469,7 @@ def _extract55(block_data):
     """
     dset = {'type': 55}
     try:
-        split_data = block_data.splitlines(True)
+        split_data = _splitlines(block_data, True)
         dset.update(_parse_header_line(split_data[2], 1, [80], [1], ['id1']))
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id2']))
         dset.update(_parse_header_line(split_data[4], 1, [80], [1], ['id3']))
@@ -509,11 +509,11 @@ def _extract55(block_data):
         split_data = ''.join(split_data[10:])
         if dset['data_type'] == 5 and dset['n_data_per_node'] == 6:
             # 12 numbers per node are on two lines; join them
-            lines = split_data.splitlines()
+            lines = _splitlines(split_data)
             split_data = '\n'.join([line for node, first, second in zip(lines[::3], lines[1::3], lines[2::3])
                                     for line in (node, first[:78] + second)])
-        node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str.rstrip())//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        node_nums = np.asarray([int(str) for str in _splitlines(split_data, True)[::2]])
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str.rstrip())//13) ] for str in _splitlines(split_data, True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 239dfce..af01b88 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1022,7 +1022,7 @@ def _extract58(block_data, header_only=False):
     dset = {'type': 58, 'binary': 0}
     try:
         binary = False
-        split_header = b''.join(block_data.splitlines(True)[:13]).decode('utf-8',  errors='replace').splitlines(True)
+        split_header = [line.decode('utf-8',  errors='replace') for line in block_data.splitlines(True)[:13]]
         if len(split_header[1]) >= 7:
             if split_header[1][6].lower() == 'b':
                 # Read some addititional fields from the header section
@@ -1087,7 +1087,7 @@ def _extract58(block_data, header_only=False):
                     raise Exception('Potentially wrong data format (common with binary files from some commercial softwares). Try using pyuff.fix_58b() to fix your file. For more information, see https://github.com/ladisk/pyuff/issues/61')
             else:
                 values = []
-                split_data = block_data.decode('utf-8', errors='replace').splitlines(True)[13:]
+                split_data = [line.decode('utf-8', errors='replace') for line in block_data.splitlines(True)[13:]]
                 # lines can be filled with blanks up to column 80
                 split_data = [line for line in split_data if line.strip()]
                 if (dset['ord_data_type'] == 2) or (dset['ord_data_type'] == 5):
diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 0e1a64a..6303af2 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -1,7 +1,7 @@
 import numpy as np
 import os
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
 
 def get_structure_82(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -76,7 +76,7 @@ def _extract82(block_data):
     """Extract line data - data-set 82."""
     dset = {'type': 82}
     try:
-        split_data = block_data.splitlines(True)
+        split_data = _splitlines(block_data, True)
         dset.update(
             _parse_header_line(split_data[2], 3, [10, 10, 10], [2, 2, 2], ['trace_num', 'n_nodes', 'color']))
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id']))
diff --git a/pyuff/tools.py b/pyuff/tools.py
index 703fd40..53b4c18 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -1,3 +1,4 @@
+import io
 import pyuff
 import numpy as np
 
@@ -16,6 +17,15 @@ def _opt_fields(dict, fields_dict):
             dict.update({key: fields_dict[key]})
     return dict
 
+def _splitlines(text, keepends=False):
+    """Splits the text at its line ends (LF, CR or CR-LF).
+
+    ``str.splitlines`` also splits at form feeds and other separators, which can
+    be a part of texts.
+    """
+    lines = io.StringIO(text, newline='').readlines()
+    return lines if keepends else [line.rstrip('\r\n') for line in lines]
+
 def _parse_header_line(line, min_values, widths, types, names):
     """Parses the given line (a record in terms of UFF file) and returns all
     the fields. 
-- 
2.43.0


From 0320980c616e06ead172f852815e2e9f2bf818f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 47/55] fix: data-set 55 is complex if any of its values are

---
 pyuff/datasets/dataset_55.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 99b2ff7..29f81f1 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -395,7 +395,7 @@ def _write55(fh, dset):
             n_data_per_node = 6
         else:
             n_data_per_node = 3
-        if np.iscomplexobj(dset['r1']):
+        if any(np.iscomplexobj(dset['r%i' % i]) for i in range(1, n_data_per_node + 1)):
             data_type = 5
         else:
             data_type = 2
-- 
2.43.0


From c9d2d9c768d119bc331e301369e8c47ddd597c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 48/55] fix: elements of data-set 2412 under NumPy integers are
 written

---
 pyuff/datasets/dataset_2412.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 4f18f85..e941bbd 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -51,7 +51,7 @@ def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
         # Skip 'type', 'triangle' and 'quad' indices
-        el_types = {el_type: dset[el_type] for el_type in dset if type(el_type) is int}
+        el_types = {el_type: dset[el_type] for el_type in dset if isinstance(el_type, (int, np.integer))}
         if not el_types:
             # only the legacy interface is given: arrays of values, one per element
             for el_type in ('triangle', 'quad'):
-- 
2.43.0


From 62f7381b05960b9db5ede0ca6df60aed99e6bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 49/55] fix: prepare helpers accept NumPy integers and reals of
 any size

---
 pyuff/datasets/dataset_15.py   | 14 ++++----
 pyuff/datasets/dataset_151.py  |  4 +--
 pyuff/datasets/dataset_164.py  |  8 ++---
 pyuff/datasets/dataset_1858.py | 42 ++++++++++++------------
 pyuff/datasets/dataset_2400.py | 16 ++++-----
 pyuff/datasets/dataset_2411.py | 14 ++++----
 pyuff/datasets/dataset_2412.py | 20 ++++++------
 pyuff/datasets/dataset_2414.py | 60 +++++++++++++++++-----------------
 pyuff/datasets/dataset_2420.py | 10 +++---
 pyuff/datasets/dataset_2429.py | 18 +++++-----
 pyuff/datasets/dataset_2467.py | 22 ++++++-------
 pyuff/datasets/dataset_55.py   | 18 +++++-----
 pyuff/datasets/dataset_58.py   | 42 ++++++++++++------------
 pyuff/datasets/dataset_82.py   |  8 ++---
 14 files changed, 148 insertions(+), 148 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index dba7929..298fe52 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -122,19 +122,19 @@ def prepare_15(
 
     if type(node_nums) not in (list, tuple, np.ndarray) and node_nums != None:
         raise TypeError('node_nums must be either list, tuple or numpy.ndarray')
-    if np.array(node_nums).dtype != int and node_nums != None:
+    if np.array(node_nums).dtype.kind not in 'iu' and node_nums != None:
         raise TypeError('node_nums must be integers.')
-    if np.array(def_cs).dtype != int and def_cs != None:
+    if np.array(def_cs).dtype.kind not in 'iu' and def_cs != None:
         raise TypeError('def_cs must be integers.')
-    if np.array(disp_cs).dtype != int and disp_cs != None:
+    if np.array(disp_cs).dtype.kind not in 'iu' and disp_cs != None:
         raise TypeError('disp_cs must be integers.')
-    if np.array(color).dtype != int and color != None:
+    if np.array(color).dtype.kind not in 'iu' and color != None:
         raise TypeError('color must be integers.')
-    if np.array(x).dtype != float and x != None:
+    if np.array(x).dtype.kind != 'f' and x != None:
         raise TypeError('x must be float.')
-    if np.array(y).dtype != float and y != None:
+    if np.array(y).dtype.kind != 'f' and y != None:
         raise TypeError('y must be float.')
-    if np.array(z).dtype != float and z != None:
+    if np.array(z).dtype.kind != 'f' and z != None:
         raise TypeError('z must be float.')
     
 
diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 7be9ef7..42f604d 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -168,9 +168,9 @@ def prepare_151(
         raise TypeError('date_db_created must be string')
     if type(time_db_created) != str and time_db_created != None:
         raise TypeError('time_db_created must be string')
-    if np.array(version_db1).dtype != int and version_db1 != None:
+    if np.array(version_db1).dtype.kind not in 'iu' and version_db1 != None:
         raise TypeError('version_db1 must be integer')
-    if np.array(version_db2).dtype != int and version_db2 != None:
+    if np.array(version_db2).dtype.kind not in 'iu' and version_db2 != None:
         raise TypeError('version_db2 must be integer')
     if file_type not in (0, 1, 2, None):
         raise ValueError('file type can be 0:Universal, 1:Archive, 2:Other')
diff --git a/pyuff/datasets/dataset_164.py b/pyuff/datasets/dataset_164.py
index 34bef93..d4d2e07 100644
--- a/pyuff/datasets/dataset_164.py
+++ b/pyuff/datasets/dataset_164.py
@@ -139,13 +139,13 @@ def prepare_164(
         raise TypeError('units_decription must be string')
     if temp_mode not in (1, 2, None):
         raise ValueError('temp_mode can be either 1 or 2')
-    if type(length) != float and length != None:
+    if type(length) != float and not isinstance(length, np.floating) and length != None:
         raise TypeError('length must be float')
-    if type(force) != float and force != None:
+    if type(force) != float and not isinstance(force, np.floating) and force != None:
         raise TypeError('force must be float')
-    if type(temp) != float and temp != None:
+    if type(temp) != float and not isinstance(temp, np.floating) and temp != None:
         raise TypeError('temp must be float')
-    if type(temp_offset) != float and temp_offset != None:
+    if type(temp_offset) != float and not isinstance(temp_offset, np.floating) and temp_offset != None:
         raise TypeError('temp_offset must be float')
 
     dataset={
diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index 18e8147..b3e056a 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -306,49 +306,49 @@ def prepare_1858(
     :param return_full_dict: If True full dict with all keys is returned, else only specified arguments are included
     """
 
-    if np.array(record_num).dtype != int and record_num is not None:
+    if np.array(record_num).dtype.kind not in 'iu' and record_num is not None:
         raise TypeError('record_num must be int')
-    if np.array(octave_format).dtype != int and octave_format is not None:
+    if np.array(octave_format).dtype.kind not in 'iu' and octave_format is not None:
         raise TypeError('octave_format must be int')
-    if np.array(measurement_run).dtype != int and measurement_run is not None:
+    if np.array(measurement_run).dtype.kind not in 'iu' and measurement_run is not None:
         raise TypeError('measurement_run must be int')
-    if np.array(weighting_type).dtype != int and weighting_type is not None:
+    if np.array(weighting_type).dtype.kind not in 'iu' and weighting_type is not None:
         raise TypeError('weighting_type must be int')
-    if np.array(window_type).dtype != int and window_type is not None:
+    if np.array(window_type).dtype.kind not in 'iu' and window_type is not None:
         raise TypeError('window_type must be int')
-    if np.array(amplitude_units).dtype != int and amplitude_units is not None:
+    if np.array(amplitude_units).dtype.kind not in 'iu' and amplitude_units is not None:
         raise TypeError('amplitude_units must be int')
-    if np.array(normalization_method).dtype != int and normalization_method is not None:
+    if np.array(normalization_method).dtype.kind not in 'iu' and normalization_method is not None:
         raise TypeError('normalization_method must be int')
-    if np.array(abscissa_data_type_qualifier).dtype != int and abscissa_data_type_qualifier is not None:
+    if np.array(abscissa_data_type_qualifier).dtype.kind not in 'iu' and abscissa_data_type_qualifier is not None:
         raise TypeError('abscissa_data_type_qualifier must be int')
-    if (np.array(ordinate_numerator_data_type_qualifier).dtype != int and
+    if (np.array(ordinate_numerator_data_type_qualifier).dtype.kind not in 'iu' and
             ordinate_numerator_data_type_qualifier is not None):
         raise TypeError('ordinate_numerator_data_type_qualifier must be int')
-    if (np.array(ordinate_denominator_data_type_qualifier).dtype != int and
+    if (np.array(ordinate_denominator_data_type_qualifier).dtype.kind not in 'iu' and
             ordinate_denominator_data_type_qualifier is not None):
         raise TypeError('ordinate_denominator_data_type_qualifier must be int')
-    if np.array(z_axis_data_type_qualifier).dtype != int and z_axis_data_type_qualifier is not None:
+    if np.array(z_axis_data_type_qualifier).dtype.kind not in 'iu' and z_axis_data_type_qualifier is not None:
         raise TypeError('z_axis_data_type_qualifier must be int')
-    if np.array(sampling_type).dtype != int and sampling_type is not None:
+    if np.array(sampling_type).dtype.kind not in 'iu' and sampling_type is not None:
         raise TypeError('sampling_type must be int')
-    if np.array(z_rpm_value).dtype != float and z_rpm_value is not None:
+    if np.array(z_rpm_value).dtype.kind != 'f' and z_rpm_value is not None:
         raise TypeError('z_rpm_value must be float')
-    if np.array(z_time_value).dtype != float and z_time_value is not None:
+    if np.array(z_time_value).dtype.kind != 'f' and z_time_value is not None:
         raise TypeError('z_time_value must be float')
-    if np.array(z_order_value).dtype != float and z_order_value is not None:
+    if np.array(z_order_value).dtype.kind != 'f' and z_order_value is not None:
         raise TypeError('z_order_value must be float')
-    if np.array(num_of_samples).dtype != float and num_of_samples is not None:
+    if np.array(num_of_samples).dtype.kind != 'f' and num_of_samples is not None:
         raise TypeError('num_of_samples must be float')
-    if np.array(user_value_1).dtype != float and user_value_1 is not None:
+    if np.array(user_value_1).dtype.kind != 'f' and user_value_1 is not None:
         raise TypeError('user_value_1 must be float')
-    if np.array(user_value_2).dtype != float and user_value_2 is not None:
+    if np.array(user_value_2).dtype.kind != 'f' and user_value_2 is not None:
         raise TypeError('user_value_2 must be float')
-    if np.array(user_value_3).dtype != float and user_value_3 is not None:
+    if np.array(user_value_3).dtype.kind != 'f' and user_value_3 is not None:
         raise TypeError('user_value_3 must be float')
-    if np.array(user_value_4).dtype != float and user_value_4 is not None:
+    if np.array(user_value_4).dtype.kind != 'f' and user_value_4 is not None:
         raise TypeError('user_value_4 must be float')
-    if np.array(exponential_window_damping_factor).dtype != float and exponential_window_damping_factor is not None:
+    if np.array(exponential_window_damping_factor).dtype.kind != 'f' and exponential_window_damping_factor is not None:
         raise TypeError('exponential_window_damping_factor must be float')
     if not isinstance(response_direction, str) and response_direction is not None:
         raise TypeError('response_direction must be str')
diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index 4b37636..d720f10 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -160,13 +160,13 @@ def prepare_2400(
     >>>     uffwrite._write_set(dataset, 'add')
     >>> dataset
     """
-    if np.array(model_uid).dtype != int and model_uid != None:
+    if np.array(model_uid).dtype.kind not in 'iu' and model_uid != None:
         raise TypeError('model_uid must be integer')
-    if np.array(entity_type).dtype != int and entity_type != None:
+    if np.array(entity_type).dtype.kind not in 'iu' and entity_type != None:
         raise TypeError('entity_type must be integer')
-    if np.array(entity_subtype).dtype != int and entity_subtype != None:
+    if np.array(entity_subtype).dtype.kind not in 'iu' and entity_subtype != None:
         raise TypeError('entity_subtype must be integer')
-    if np.array(version_number).dtype != int and version_number != None:
+    if np.array(version_number).dtype.kind not in 'iu' and version_number != None:
         raise TypeError('version_number must be integer')
     if type(entity_name) != str and entity_name != None:
         raise TypeError('entity_name must be string')
@@ -178,13 +178,13 @@ def prepare_2400(
         raise TypeError('date must be string')
     if type(time) != str and time != None:
         raise TypeError('time must be string')
-    if np.array(idm_version_id).dtype != int and idm_version_id != None:
+    if np.array(idm_version_id).dtype.kind not in 'iu' and idm_version_id != None:
         raise TypeError('idm_version_id must be integer')
-    if np.array(idm_item_id).dtype != int and idm_item_id != None:
+    if np.array(idm_item_id).dtype.kind not in 'iu' and idm_item_id != None:
         raise TypeError('idm_item_id must be integer')
-    if np.array(primary_parent_uid).dtype != int and primary_parent_uid != None:
+    if np.array(primary_parent_uid).dtype.kind not in 'iu' and primary_parent_uid != None:
         raise TypeError('primary_parent_uid must be integer')
-    if np.array(optimization_switches).dtype != int and optimization_switches != None:
+    if np.array(optimization_switches).dtype.kind not in 'iu' and optimization_switches != None:
         raise TypeError('optimization_switches must be integer')
 
     dataset = {
diff --git a/pyuff/datasets/dataset_2411.py b/pyuff/datasets/dataset_2411.py
index b4fe498..bf91eb3 100644
--- a/pyuff/datasets/dataset_2411.py
+++ b/pyuff/datasets/dataset_2411.py
@@ -111,19 +111,19 @@ def prepare_2411(
     #>>>     uffwrite.write_sets(dataset, mode='add')
     #>>> dataset
 
-    if np.array(node_nums).dtype != int and node_nums != None:
+    if np.array(node_nums).dtype.kind not in 'iu' and node_nums != None:
         raise TypeError('node_nums must be integer')
-    if np.array(def_cs).dtype != int and def_cs != None:
+    if np.array(def_cs).dtype.kind not in 'iu' and def_cs != None:
         raise TypeError('def_cs must be integer')
-    if np.array(disp_cs).dtype != int and disp_cs != None:
+    if np.array(disp_cs).dtype.kind not in 'iu' and disp_cs != None:
         raise TypeError('disp_cs must be integer')
-    if np.array(color).dtype != int and color != None:
+    if np.array(color).dtype.kind not in 'iu' and color != None:
         raise TypeError('color must be integer')
-    if np.array(x).dtype != float and x != None:
+    if np.array(x).dtype.kind != 'f' and x != None:
         raise TypeError('x must be float')
-    if np.array(y).dtype != float and y != None:
+    if np.array(y).dtype.kind != 'f' and y != None:
         raise TypeError('y must be float')
-    if np.array(z).dtype != float and z != None:
+    if np.array(z).dtype.kind != 'f' and z != None:
         raise TypeError('z must be float')
 
     dataset={
diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index e941bbd..fb91bbf 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -191,25 +191,25 @@ def prepare_2412(
     >>>     uffwrite.write_sets(dataset, mode='add')
     >>> dataset
     """
-    if np.array(element_nums).dtype != int and element_nums != None:
+    if np.array(element_nums).dtype.kind not in 'iu' and element_nums != None:
         raise TypeError('element_nums must be integer')
-    if np.array(fe_descriptor).dtype != int and fe_descriptor != None:
+    if np.array(fe_descriptor).dtype.kind not in 'iu' and fe_descriptor != None:
         raise TypeError('fe_descriptor must be integer')
-    if np.array(phys_table).dtype != int and phys_table != None:
+    if np.array(phys_table).dtype.kind not in 'iu' and phys_table != None:
         raise TypeError('phys_table must be integer')
-    if np.array(mat_table).dtype != int and mat_table != None:
+    if np.array(mat_table).dtype.kind not in 'iu' and mat_table != None:
         raise TypeError('mat_table must be integer')
-    if np.array(color).dtype != int and color != None:
+    if np.array(color).dtype.kind not in 'iu' and color != None:
         raise TypeError('color must be integer')
-    if np.array(num_nodes).dtype != int and num_nodes != None:
+    if np.array(num_nodes).dtype.kind not in 'iu' and num_nodes != None:
         raise TypeError('num_nodes must be integer')
-    if np.array(nodes_nums).dtype != int and nodes_nums != None:
+    if np.array(nodes_nums).dtype.kind not in 'iu' and nodes_nums != None:
         raise TypeError('nodes_nums must be integer')
-    if np.array(beam_orientation).dtype != int and beam_orientation != None:
+    if np.array(beam_orientation).dtype.kind not in 'iu' and beam_orientation != None:
         raise TypeError('beam_orientation must be integer')
-    if np.array(beam_foreend_cross).dtype != int and beam_foreend_cross != None:
+    if np.array(beam_foreend_cross).dtype.kind not in 'iu' and beam_foreend_cross != None:
         raise TypeError('beam_foreend_cross must be integer')
-    if np.array(beam_aftend_cross).dtype != int and beam_aftend_cross != None:
+    if np.array(beam_aftend_cross).dtype.kind not in 'iu' and beam_aftend_cross != None:
         raise TypeError('beam_aftend_cross must be integer')
 
 
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ffb94e0..f02151c 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1023,7 +1023,7 @@ def prepare_2414(
     >>>     uffwrite.write_sets(dataset, mode='add')
     >>> dataset
     """
-    if np.array(analysis_dataset_label).dtype != int and analysis_dataset_label != None:
+    if np.array(analysis_dataset_label).dtype.kind not in 'iu' and analysis_dataset_label != None:
         raise TypeError('analysis_dataset_label must be integer')
     if type(analysis_dataset_name) != str and analysis_dataset_name != None:
          raise TypeError('analysis_dataset_name must be string')
@@ -1046,68 +1046,68 @@ def prepare_2414(
         raise ValueError('analysis_type can be: 0, 1, 2, 3, 4, 6, 7, 9')
     if data_characteristic not in (0, 1, 2, 3, 4, 6, None):
         raise ValueError('data_characteristic can be: 0, 1, 2, 3, 4, 6')
-    if type(result_type) != int and result_type != None:
+    if type(result_type) != int and not isinstance(result_type, np.integer) and result_type != None:
         raise TypeError('result type must be integer')
     if data_type not in (1, 2, 4, 5, 6, None):
         raise ValueError('data_characteristic can be: 1, 2, 4, 5, 6')
-    if np.array(number_of_data_values_for_the_data_component).dtype != int and number_of_data_values_for_the_data_component != None:
+    if np.array(number_of_data_values_for_the_data_component).dtype.kind not in 'iu' and number_of_data_values_for_the_data_component != None:
         raise TypeError('number_of_data_values_for_the_data_component type must be integer')
-    if np.array(design_set_id).dtype != int and design_set_id != None:
+    if np.array(design_set_id).dtype.kind not in 'iu' and design_set_id != None:
         raise TypeError('design_set_id must be integer')
-    if np.array(iteration_number).dtype != int and iteration_number != None:
+    if np.array(iteration_number).dtype.kind not in 'iu' and iteration_number != None:
         raise TypeError('iteration_number must be integer')
-    if np.array(solution_set_id).dtype != int and solution_set_id != None:
+    if np.array(solution_set_id).dtype.kind not in 'iu' and solution_set_id != None:
         raise TypeError('solution_set_id must be integer')
-    if np.array(boundary_condition).dtype != int and boundary_condition != None:
+    if np.array(boundary_condition).dtype.kind not in 'iu' and boundary_condition != None:
         raise TypeError('boundary_condition must be integer')
-    if np.array(load_set).dtype != int and load_set != None:
+    if np.array(load_set).dtype.kind not in 'iu' and load_set != None:
         raise TypeError('load_set must be integer')
-    if np.array(mode_number).dtype != int and mode_number != None:
+    if np.array(mode_number).dtype.kind not in 'iu' and mode_number != None:
         raise TypeError('mode_number must be integer')
-    if np.array(time_step_number).dtype != int and time_step_number != None:
+    if np.array(time_step_number).dtype.kind not in 'iu' and time_step_number != None:
         raise TypeError('time_step_number must be integer')
-    if np.array(frequency_number).dtype != int and frequency_number != None:
+    if np.array(frequency_number).dtype.kind not in 'iu' and frequency_number != None:
         raise TypeError('frequency_number must be integer')
     
-    if np.array(creation_option).dtype != int and creation_option != None:
+    if np.array(creation_option).dtype.kind not in 'iu' and creation_option != None:
         raise TypeError('creation_option must be integer')
-    if np.array(number_retained).dtype != int and number_retained != None:
+    if np.array(number_retained).dtype.kind not in 'iu' and number_retained != None:
         raise TypeError('number_retained must be integer')
     
-    if np.array(time).dtype != float and time != None:
+    if np.array(time).dtype.kind != 'f' and time != None:
         raise TypeError('time must be float')
-    if np.array(frequency).dtype != float and frequency != None:
+    if np.array(frequency).dtype.kind != 'f' and frequency != None:
         raise TypeError('frequency must be float')
-    if np.array(eigenvalue).dtype != float and eigenvalue != None:
+    if np.array(eigenvalue).dtype.kind != 'f' and eigenvalue != None:
         raise TypeError('eigenvalue must be float')
-    if np.array(modal_mass).dtype != float and modal_mass != None:
+    if np.array(modal_mass).dtype.kind != 'f' and modal_mass != None:
         raise TypeError('modal_mass must be float')
-    if np.array(viscous_damping).dtype != float and viscous_damping != None:
+    if np.array(viscous_damping).dtype.kind != 'f' and viscous_damping != None:
         raise TypeError('viscous_damping must be float')
-    if np.array(hysteretic_damping).dtype != float and hysteretic_damping != None:
+    if np.array(hysteretic_damping).dtype.kind != 'f' and hysteretic_damping != None:
         raise TypeError('hysteretic_damping must be float')
-    if np.array(real_part_eigenvalue).dtype != float and real_part_eigenvalue != None:
+    if np.array(real_part_eigenvalue).dtype.kind != 'f' and real_part_eigenvalue != None:
         raise TypeError('real_part_eigenvalue must be float')
-    if np.array(imaginary_part_eigenvalue).dtype != float and imaginary_part_eigenvalue != None:
+    if np.array(imaginary_part_eigenvalue).dtype.kind != 'f' and imaginary_part_eigenvalue != None:
         raise TypeError('imaginary_part_eigenvalue must be float')
-    if np.array(real_part_of_modal_A_or_modal_mass).dtype != float and real_part_of_modal_A_or_modal_mass != None:
+    if np.array(real_part_of_modal_A_or_modal_mass).dtype.kind != 'f' and real_part_of_modal_A_or_modal_mass != None:
         raise TypeError('real_part_of_modal_A_or_modal_mass must be float')
-    if np.array(imaginary_part_of_modal_A_or_modal_mass).dtype != float and imaginary_part_of_modal_A_or_modal_mass != None:
+    if np.array(imaginary_part_of_modal_A_or_modal_mass).dtype.kind != 'f' and imaginary_part_of_modal_A_or_modal_mass != None:
         raise TypeError('imaginary_part_of_modal_A_or_modal_mass must be float')
-    if np.array(real_part_of_modal_B_or_modal_mass).dtype != float and real_part_of_modal_B_or_modal_mass != None:
+    if np.array(real_part_of_modal_B_or_modal_mass).dtype.kind != 'f' and real_part_of_modal_B_or_modal_mass != None:
         raise TypeError('real_part_of_modal_B_or_modal_mass must be float')
-    if np.array(imaginary_part_of_modal_B_or_modal_mass).dtype != float and imaginary_part_of_modal_B_or_modal_mass != None:
+    if np.array(imaginary_part_of_modal_B_or_modal_mass).dtype.kind != 'f' and imaginary_part_of_modal_B_or_modal_mass != None:
         raise TypeError('imaginary_part_of_modal_B_or_modal_mass must be float')
     
-    if np.array(node_nums).dtype != int and node_nums != None:
+    if np.array(node_nums).dtype.kind not in 'iu' and node_nums != None:
         raise TypeError('node_nums must be integer')
-    if np.array(d).dtype != float and d != None:
+    if np.array(d).dtype.kind != 'f' and d != None:
         raise TypeError('d must be float')
-    if np.array(x).dtype != float and np.array(x).dtype != complex and x != None:
+    if np.array(x).dtype.kind != 'f' and np.array(x).dtype.kind != 'c' and x != None:
         raise TypeError('x must be float')
-    if np.array(y).dtype != float and np.array(y).dtype != complex and y != None:
+    if np.array(y).dtype.kind != 'f' and np.array(y).dtype.kind != 'c' and y != None:
         raise TypeError('y must be float')
-    if np.array(z).dtype != float and np.array(z).dtype != complex and z != None:
+    if np.array(z).dtype.kind != 'f' and np.array(z).dtype.kind != 'c' and z != None:
         raise TypeError('z must be float')
 
     dataset={
diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index 8dacd5a..29f00a3 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -160,19 +160,19 @@ def prepare_2420(
     #    uffwrite.write_sets(dataset, mode='add')
     #dataset
 
-    if np.array(Part_UID).dtype != int and Part_UID != None:
+    if np.array(Part_UID).dtype.kind not in 'iu' and Part_UID != None:
         raise TypeError('Part_UID must be integer')
     if type(Part_Name) != str and Part_Name != None:
         raise TypeError('Part_Name must be str')
-    if np.array(CS_sys_labels).dtype != int and CS_sys_labels != None:
+    if np.array(CS_sys_labels).dtype.kind not in 'iu' and CS_sys_labels != None:
         raise TypeError('CS_sys_labels must be integer')
     if type(CS_types) in (np.ndarray, list, tuple):
         for i in CS_types:
             if i not in (0, 1, 2):
                 raise ValueError('CS_types can be 0, 1, 2')
-    if np.array(CS_types).dtype != int and CS_types != None:
+    if np.array(CS_types).dtype.kind not in 'iu' and CS_types != None:
         raise ValueError('CS_types can be 0, 1, 2')
-    if np.array(CS_colors).dtype != int and CS_colors != None:
+    if np.array(CS_colors).dtype.kind not in 'iu' and CS_colors != None:
         raise TypeError('CS_colors must be integer')
     if type(CS_names) not in (np.ndarray, list, str) and CS_names != None:
         raise TypeError('CS_names datatype must be str')
@@ -184,7 +184,7 @@ def prepare_2420(
         for i in CS_names:
             if type(i) != str: 
                 raise TypeError('CS_names datatype must be str')
-    if np.array(CS_matrices).dtype != float and CS_matrices != None:
+    if np.array(CS_matrices).dtype.kind != 'f' and CS_matrices != None:
         raise TypeError('CS_matrices must be float')
 
     dataset={
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index d73675b..809784d 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -210,25 +210,25 @@ def prepare_group(
     Record 3 is repeated multiple times for each group
     """
 
-    if type(group_number) != int:
+    if type(group_number) != int and not isinstance(group_number, np.integer):
          raise TypeError('group_number must be integer')
     if type(group_name) != str:
          raise TypeError('group_name must be string')
-    if np.array(entity_type_code).dtype != int:
+    if np.array(entity_type_code).dtype.kind not in 'iu':
         raise TypeError('entity_type_code must all be positive integers')
-    if np.array(entity_tag).dtype != int:
+    if np.array(entity_tag).dtype.kind not in 'iu':
         raise TypeError('entity_tag must all be positive integers')
-    if type(active_constraint_set_no_for_group) != int:
+    if type(active_constraint_set_no_for_group) != int and not isinstance(active_constraint_set_no_for_group, np.integer):
          raise TypeError('active_constraint_set_no_for_group must be integer')
-    if type(active_restraint_set_no_for_group) != int:
+    if type(active_restraint_set_no_for_group) != int and not isinstance(active_restraint_set_no_for_group, np.integer):
          raise TypeError('active_restraint_set_no_for_group must be integer')
-    if type(active_load_set_no_for_group) != int:
+    if type(active_load_set_no_for_group) != int and not isinstance(active_load_set_no_for_group, np.integer):
          raise TypeError('active_load_set_no_for_group must be integer')
-    if type(active_dof_set_no_for_group) != int:
+    if type(active_dof_set_no_for_group) != int and not isinstance(active_dof_set_no_for_group, np.integer):
          raise TypeError('active_dof_set_no_for_group must be integer')
-    if type(active_temperature_set_no_for_group) != int:
+    if type(active_temperature_set_no_for_group) != int and not isinstance(active_temperature_set_no_for_group, np.integer):
          raise TypeError('active_temperature_set_no_for_group must be integer')
-    if type(active_contact_set_no_for_group) != int:
+    if type(active_contact_set_no_for_group) != int and not isinstance(active_contact_set_no_for_group, np.integer):
          raise TypeError('active_contact_set_no_for_group must be integer')
 
     if group_number < 0:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 4f92aae..7db55da 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -186,29 +186,29 @@ def prepare_group(
     Record 3 is repeated multiple times for each group
     """
 
-    if type(group_number) != int:
+    if type(group_number) != int and not isinstance(group_number, np.integer):
         raise TypeError('group_number must be integer')
     if type(group_name) != str:
         raise TypeError('group_name must be string')
-    if np.array(entity_type_code).dtype != int:
+    if np.array(entity_type_code).dtype.kind not in 'iu':
         raise TypeError('entity_type_code must all be positive integers')
-    if np.array(entity_tag).dtype != int:
+    if np.array(entity_tag).dtype.kind not in 'iu':
         raise TypeError('entity_tag must all be positive integers')
-    if np.array(entity_node_leaf_id).dtype != int:
+    if np.array(entity_node_leaf_id).dtype.kind not in 'iu':
         raise TypeError('entity_node_leaf_id must all be positive integers')
-    if np.array(entity_component_id).dtype != int:
+    if np.array(entity_component_id).dtype.kind not in 'iu':
         raise TypeError('entity_component_id must all be positive integers')
-    if type(active_constraint_set_no_for_group) != int:
+    if type(active_constraint_set_no_for_group) != int and not isinstance(active_constraint_set_no_for_group, np.integer):
         raise TypeError('active_constraint_set_no_for_group must be integer')
-    if type(active_restraint_set_no_for_group) != int:
+    if type(active_restraint_set_no_for_group) != int and not isinstance(active_restraint_set_no_for_group, np.integer):
         raise TypeError('active_restraint_set_no_for_group must be integer')
-    if type(active_load_set_no_for_group) != int:
+    if type(active_load_set_no_for_group) != int and not isinstance(active_load_set_no_for_group, np.integer):
         raise TypeError('active_load_set_no_for_group must be integer')
-    if type(active_dof_set_no_for_group) != int:
+    if type(active_dof_set_no_for_group) != int and not isinstance(active_dof_set_no_for_group, np.integer):
         raise TypeError('active_dof_set_no_for_group must be integer')
-    if type(active_temperature_set_no_for_group) != int:
+    if type(active_temperature_set_no_for_group) != int and not isinstance(active_temperature_set_no_for_group, np.integer):
         raise TypeError('active_temperature_set_no_for_group must be integer')
-    if type(active_contact_set_no_for_group) != int:
+    if type(active_contact_set_no_for_group) != int and not isinstance(active_contact_set_no_for_group, np.integer):
         raise TypeError('active_contact_set_no_for_group must be integer')
 
     if group_number < 0:
diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 29f81f1..477a17c 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -681,7 +681,7 @@ def prepare_55(
         raise ValueError('spec_data_type must be integer between 0 and 18')
     if data_type not in (2, 5, None):
         raise ValueError('data_type can be 2:Real or 5:Complex')
-    if np.array(n_data_per_node).dtype != int and n_data_per_node != None:
+    if np.array(n_data_per_node).dtype.kind not in 'iu' and n_data_per_node != None:
         raise TypeError('n_data_per_node must be integers')
     if not np.issubdtype(np.array(r1).dtype, np.number) and r1 != None:
         raise TypeError('r1 must have numeric (float or complex) values')
@@ -695,17 +695,17 @@ def prepare_55(
         raise TypeError('r5 must have numeric (float or complex) values')
     if not np.issubdtype(np.array(r6).dtype, np.number) and r6 != None:
         raise TypeError('r6 must have numeric (float or complex) values')
-    if type(load_case) != int and load_case != None:
+    if type(load_case) != int and not isinstance(load_case, np.integer) and load_case != None:
         raise TypeError('load_case must be integer')
-    if type(mode_n) != int and mode_n != None:
+    if type(mode_n) != int and not isinstance(mode_n, np.integer) and mode_n != None:
         raise TypeError('mode_n must be integer')
-    if np.array(mode_n).dtype != int and mode_n != None:
+    if np.array(mode_n).dtype.kind not in 'iu' and mode_n != None:
         raise TypeError('r6 must be integer')
-    if np.array(freq).dtype != float and freq != None:
+    if np.array(freq).dtype.kind != 'f' and freq != None:
         raise TypeError('freq must be float')
-    if type(modal_damp_vis) != float and modal_damp_vis != None:
+    if type(modal_damp_vis) != float and not isinstance(modal_damp_vis, np.floating) and modal_damp_vis != None:
         raise TypeError('modal_damp_vis must be float')
-    if type(modal_damp_his) != float and modal_damp_his != None:
+    if type(modal_damp_his) != float and not isinstance(modal_damp_his, np.floating) and modal_damp_his != None:
         raise TypeError('modal_damp_his must be float')
     if not np.issubdtype(np.array(eig).dtype, np.number) and eig != None:
         raise TypeError('eig must be numeric (float or complex)')
@@ -713,9 +713,9 @@ def prepare_55(
         raise TypeError('modal_a must be numeric (float or complex)')
     if not np.issubdtype(np.array(modal_b).dtype, np.number) and modal_b != None:
         raise TypeError('modal_b must be numeric (float or complex)')
-    if type(freq_step_n) != int and freq_step_n != None:
+    if type(freq_step_n) != int and not isinstance(freq_step_n, np.integer) and freq_step_n != None:
         raise TypeError('freq_step_n must be int')
-    if np.array(node_nums).dtype != int and node_nums != None:
+    if np.array(node_nums).dtype.kind not in 'iu' and node_nums != None:
         raise TypeError('mode_nums must be int')
 
     dataset = {
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index af01b88..91f02cb 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1341,81 +1341,81 @@ def prepare_58(
     
     if func_type not in np.arange(28) and func_type != None:
         raise ValueError('func_type must be integer between 0 and 27')
-    if np.array(ver_num).dtype != int and ver_num != None:
+    if np.array(ver_num).dtype.kind not in 'iu' and ver_num != None:
         raise TypeError('ver_num must be integer')
-    if np.array(load_case_id).dtype != int and load_case_id != None:
+    if np.array(load_case_id).dtype.kind not in 'iu' and load_case_id != None:
         raise TypeError('load_case_id must be integer')
     if type(rsp_ent_name) != str and rsp_ent_name != None:
         raise TypeError('rsp_ent_name must be string')
-    if np.array(rsp_node).dtype != int and rsp_node != None:
+    if np.array(rsp_node).dtype.kind not in 'iu' and rsp_node != None:
         raise TypeError('rsp_node must be integer')
     if rsp_dir not in np.arange(-6,7) and rsp_dir != None:
         raise ValueError('rsp_dir must be integer between -6 and 6')
     if type(ref_ent_name) != str and ref_ent_name != None:
         raise TypeError('rsp_ent_name must be string')
-    if np.array(ref_node).dtype != int and ref_node != None:
+    if np.array(ref_node).dtype.kind not in 'iu' and ref_node != None:
         raise TypeError('ref_node must be int')
     if ref_dir not in np.arange(-6,7) and ref_dir != None:
         raise ValueError('ref_dir must be integer between -6 and 6')
     
     if ord_data_type not in (2, 4, 5, 6, None):
         raise ValueError('ord_data_type can be: 2,4,5,6')
-    if np.array(num_pts).dtype != int and num_pts != None:
+    if np.array(num_pts).dtype.kind not in 'iu' and num_pts != None:
         raise TypeError('num_pts must be integer')
     if abscissa_spacing not in (0, 1, None):
         raise ValueError('abscissa_spacing can be 0:uneven, 1:even')
-    if np.array(abscissa_min).dtype != float and abscissa_min != None:
+    if np.array(abscissa_min).dtype.kind != 'f' and abscissa_min != None:
         raise TypeError('abscissa_min must be float')
-    if np.array(abscissa_inc).dtype != float and abscissa_inc != None:
+    if np.array(abscissa_inc).dtype.kind != 'f' and abscissa_inc != None:
         raise TypeError('abscissa_inc must be float')
-    if np.array(z_axis_value).dtype != float and z_axis_value != None:
+    if np.array(z_axis_value).dtype.kind != 'f' and z_axis_value != None:
         raise TypeError('z_axis_value must be float')
     
     if abscissa_spec_data_type not in np.arange(21) and abscissa_spec_data_type != None:
         raise ValueError('abscissa_spec_data_type must be integer between 0 nd 21')
-    if np.array(abscissa_len_unit_exp).dtype != int and abscissa_len_unit_exp != None:
+    if np.array(abscissa_len_unit_exp).dtype.kind not in 'iu' and abscissa_len_unit_exp != None:
         raise TypeError('abscissa_len_unit_exp must be integer')
-    if np.array(abscissa_force_unit_exp).dtype != int and abscissa_force_unit_exp != None:
+    if np.array(abscissa_force_unit_exp).dtype.kind not in 'iu' and abscissa_force_unit_exp != None:
         raise TypeError('abscissa_force_unit_exp must be integer')
-    if np.array(abscissa_temp_unit_exp).dtype != int and abscissa_temp_unit_exp != None:
+    if np.array(abscissa_temp_unit_exp).dtype.kind not in 'iu' and abscissa_temp_unit_exp != None:
         raise TypeError('abscissa_temp_unit_exp must be integer')
     if type(abscissa_axis_units_lab) != str and abscissa_axis_units_lab != None:
         raise TypeError('abscissa_axis_units_lab must be string')
 
     if ordinate_spec_data_type not in np.arange(21) and ordinate_spec_data_type != None:
         raise ValueError('ordinate_spec_data_type must be integer between 0 nd 21')
-    if np.array(ordinate_len_unit_exp).dtype != int and ordinate_len_unit_exp != None:
+    if np.array(ordinate_len_unit_exp).dtype.kind not in 'iu' and ordinate_len_unit_exp != None:
         raise TypeError('ordinate_len_unit_exp must be integer')
-    if np.array(ordinate_force_unit_exp).dtype != int and ordinate_force_unit_exp != None:
+    if np.array(ordinate_force_unit_exp).dtype.kind not in 'iu' and ordinate_force_unit_exp != None:
         raise TypeError('ordinate_force_unit_exp must be integer')
-    if np.array(ordinate_temp_unit_exp).dtype != int and ordinate_temp_unit_exp != None:
+    if np.array(ordinate_temp_unit_exp).dtype.kind not in 'iu' and ordinate_temp_unit_exp != None:
         raise TypeError('ordinate_temp_unit_exp must be integer')
     if type(ordinate_axis_units_lab) != str and ordinate_axis_units_lab != None:
         raise TypeError('ordinate_axis_units_lab must be string')
 
     if orddenom_spec_data_type not in np.arange(21) and orddenom_spec_data_type != None:
         raise ValueError('orddenom_spec_data_type must be integer between 0 nd 21')
-    if np.array(orddenom_len_unit_exp).dtype != int and orddenom_len_unit_exp != None:
+    if np.array(orddenom_len_unit_exp).dtype.kind not in 'iu' and orddenom_len_unit_exp != None:
         raise TypeError('orddenom_len_unit_exp must be integer')
-    if np.array(orddenom_force_unit_exp).dtype != int and orddenom_force_unit_exp != None:
+    if np.array(orddenom_force_unit_exp).dtype.kind not in 'iu' and orddenom_force_unit_exp != None:
         raise TypeError('orddenom_force_unit_exp must be integer')
-    if np.array(orddenom_temp_unit_exp).dtype != int and orddenom_temp_unit_exp != None:
+    if np.array(orddenom_temp_unit_exp).dtype.kind not in 'iu' and orddenom_temp_unit_exp != None:
         raise TypeError('orddenom_temp_unit_exp must be integer')
     if type(orddenom_axis_units_lab) != str and orddenom_axis_units_lab != None:
         raise TypeError('orddenom_axis_units_lab must be string')
 
     if z_axis_spec_data_type not in np.arange(21) and z_axis_spec_data_type != None:
         raise ValueError('z_axis_spec_data_type must be integer between 0 nd 21')
-    if np.array(z_axis_len_unit_exp).dtype != int and z_axis_len_unit_exp != None:
+    if np.array(z_axis_len_unit_exp).dtype.kind not in 'iu' and z_axis_len_unit_exp != None:
         raise TypeError('z_axis_len_unit_exp must be integer')
-    if np.array(z_axis_force_unit_exp).dtype != int and z_axis_force_unit_exp != None:
+    if np.array(z_axis_force_unit_exp).dtype.kind not in 'iu' and z_axis_force_unit_exp != None:
         raise TypeError('z_axis_force_unit_exp must be integer')
-    if np.array(z_axis_temp_unit_exp).dtype != int and z_axis_temp_unit_exp != None:
+    if np.array(z_axis_temp_unit_exp).dtype.kind not in 'iu' and z_axis_temp_unit_exp != None:
         raise TypeError('z_axis_temp_unit_exp must be integer')
     if type(z_axis_axis_units_lab) != str and z_axis_axis_units_lab != None:
         raise TypeError('z_axis_axis_units_lab must be string')
     
-    if np.array(data).dtype != float and np.array(data).dtype != complex:
+    if np.array(data).dtype.kind != 'f' and np.array(data).dtype.kind != 'c':
         if data != None:
             raise TypeError('data must be float')
     
diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 6303af2..b502c45 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -129,15 +129,15 @@ def prepare_82(
 
     """
 
-    if np.array(trace_num).dtype != int and trace_num != None:
+    if np.array(trace_num).dtype.kind not in 'iu' and trace_num != None:
         raise TypeError('trace_num must be integer')
-    if np.array(n_nodes).dtype != int and n_nodes != None:
+    if np.array(n_nodes).dtype.kind not in 'iu' and n_nodes != None:
         raise TypeError('n_nodes must be integer')
-    if np.array(color).dtype != int and color != None:
+    if np.array(color).dtype.kind not in 'iu' and color != None:
         raise TypeError('color must be integer')
     if type(id) != str and id != None:
         raise TypeError(('id must be string'))
-    if np.array(nodes).dtype != int and nodes != None:
+    if np.array(nodes).dtype.kind not in 'iu' and nodes != None:
         raise TypeError('nodes must be integers')
     
 
-- 
2.43.0


From c60610b56ed65ed1bc8ce3e5f9941c8f39209461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 50/55] fix: prepare helpers accept texts of NumPy arrays

---
 pyuff/datasets/dataset_151.py  | 20 ++++++++++----------
 pyuff/datasets/dataset_164.py  |  2 +-
 pyuff/datasets/dataset_2400.py |  8 ++++----
 pyuff/datasets/dataset_2414.py | 12 ++++++------
 pyuff/datasets/dataset_2420.py |  4 ++--
 pyuff/datasets/dataset_2429.py |  2 +-
 pyuff/datasets/dataset_2467.py |  2 +-
 pyuff/datasets/dataset_55.py   | 10 +++++-----
 pyuff/datasets/dataset_58.py   | 22 +++++++++++-----------
 pyuff/datasets/dataset_82.py   |  2 +-
 10 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 42f604d..b19a210 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -158,15 +158,15 @@ def prepare_151(
     >>>     uffwrite._write_set(dataset, 'add')
     >>> dataset
     """
-    if type(model_name) != str and model_name != None:
+    if not isinstance(model_name, str) and model_name != None:
         raise TypeError('model_name must be string')
-    if type(description) != str and description != None:
+    if not isinstance(description, str) and description != None:
         raise TypeError('description must be string')
-    if type(db_app) != str and db_app != None:
+    if not isinstance(db_app, str) and db_app != None:
         raise TypeError('db_app must be string')
-    if type(date_db_created) != str and date_db_created != None:
+    if not isinstance(date_db_created, str) and date_db_created != None:
         raise TypeError('date_db_created must be string')
-    if type(time_db_created) != str and time_db_created != None:
+    if not isinstance(time_db_created, str) and time_db_created != None:
         raise TypeError('time_db_created must be string')
     if np.array(version_db1).dtype.kind not in 'iu' and version_db1 != None:
         raise TypeError('version_db1 must be integer')
@@ -174,15 +174,15 @@ def prepare_151(
         raise TypeError('version_db2 must be integer')
     if file_type not in (0, 1, 2, None):
         raise ValueError('file type can be 0:Universal, 1:Archive, 2:Other')
-    if type(date_db_saved) != str and date_db_saved != None:
+    if not isinstance(date_db_saved, str) and date_db_saved != None:
         raise TypeError('date_db_saved must be string')
-    if type(time_db_saved) != str and time_db_saved != None:
+    if not isinstance(time_db_saved, str) and time_db_saved != None:
         raise TypeError('time_db_saved must be string')
-    if type(program) != str and program != None:
+    if not isinstance(program, str) and program != None:
         raise TypeError('program must be string')
-    if type(date_db_written) != str and date_db_written != None:
+    if not isinstance(date_db_written, str) and date_db_written != None:
         raise TypeError('date_db_written must be string')
-    if type(time_db_written) != str and time_db_written != None:
+    if not isinstance(time_db_written, str) and time_db_written != None:
         raise TypeError('time_db_written must be string')
 
 
diff --git a/pyuff/datasets/dataset_164.py b/pyuff/datasets/dataset_164.py
index d4d2e07..2ae2af5 100644
--- a/pyuff/datasets/dataset_164.py
+++ b/pyuff/datasets/dataset_164.py
@@ -135,7 +135,7 @@ def prepare_164(
 
     if units_code not in np.arange(10) and units_code != None:
         raise ValueError('units code must be integer between 0 and 9')
-    if type(units_description) != str and units_description != None:
+    if not isinstance(units_description, str) and units_description != None:
         raise TypeError('units_decription must be string')
     if temp_mode not in (1, 2, None):
         raise ValueError('temp_mode can be either 1 or 2')
diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index d720f10..df08128 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -168,15 +168,15 @@ def prepare_2400(
         raise TypeError('entity_subtype must be integer')
     if np.array(version_number).dtype.kind not in 'iu' and version_number != None:
         raise TypeError('version_number must be integer')
-    if type(entity_name) != str and entity_name != None:
+    if not isinstance(entity_name, str) and entity_name != None:
         raise TypeError('entity_name must be string')
-    if type(part_number) != str and part_number != None:
+    if not isinstance(part_number, str) and part_number != None:
         raise TypeError('part_number must be string')
     if status_mask != None and (not hasattr(status_mask, '__len__') or len(status_mask) != 32):
         raise ValueError('status_mask must be a list of 32 integers')
-    if type(date) != str and date != None:
+    if not isinstance(date, str) and date != None:
         raise TypeError('date must be string')
-    if type(time) != str and time != None:
+    if not isinstance(time, str) and time != None:
         raise TypeError('time must be string')
     if np.array(idm_version_id).dtype.kind not in 'iu' and idm_version_id != None:
         raise TypeError('idm_version_id must be integer')
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index f02151c..e5142d9 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1025,19 +1025,19 @@ def prepare_2414(
     """
     if np.array(analysis_dataset_label).dtype.kind not in 'iu' and analysis_dataset_label != None:
         raise TypeError('analysis_dataset_label must be integer')
-    if type(analysis_dataset_name) != str and analysis_dataset_name != None:
+    if not isinstance(analysis_dataset_name, str) and analysis_dataset_name != None:
          raise TypeError('analysis_dataset_name must be string')
     if dataset_location not in (1, 2, 3, 5, None):
         raise ValueError('dataset_location can be: 1, 2, 3, 5')
-    if type(id1) != str and id1 != None:
+    if not isinstance(id1, str) and id1 != None:
          raise TypeError('id1 must be string')
-    if type(id2) != str and id2 != None:
+    if not isinstance(id2, str) and id2 != None:
          raise TypeError('id2 must be string')
-    if type(id3) != str and id3 != None:
+    if not isinstance(id3, str) and id3 != None:
          raise TypeError('id3 must be string')
-    if type(id4) != str and id4 != None:
+    if not isinstance(id4, str) and id4 != None:
          raise TypeError('id4 must be string')    
-    if type(id5) != str and id5 != None:
+    if not isinstance(id5, str) and id5 != None:
          raise TypeError('id5 must be string')
 
     if model_type not in (0, 1, 2, 3, None):
diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index 29f00a3..1c0212c 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -162,7 +162,7 @@ def prepare_2420(
 
     if np.array(Part_UID).dtype.kind not in 'iu' and Part_UID != None:
         raise TypeError('Part_UID must be integer')
-    if type(Part_Name) != str and Part_Name != None:
+    if not isinstance(Part_Name, str) and Part_Name != None:
         raise TypeError('Part_Name must be str')
     if np.array(CS_sys_labels).dtype.kind not in 'iu' and CS_sys_labels != None:
         raise TypeError('CS_sys_labels must be integer')
@@ -182,7 +182,7 @@ def prepare_2420(
                 raise TypeError('CS_names datatype must be str')
     if type(CS_names) == list:
         for i in CS_names:
-            if type(i) != str: 
+            if not isinstance(i, str): 
                 raise TypeError('CS_names datatype must be str')
     if np.array(CS_matrices).dtype.kind != 'f' and CS_matrices != None:
         raise TypeError('CS_matrices must be float')
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 809784d..cd3c54e 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -212,7 +212,7 @@ def prepare_group(
 
     if type(group_number) != int and not isinstance(group_number, np.integer):
          raise TypeError('group_number must be integer')
-    if type(group_name) != str:
+    if not isinstance(group_name, str):
          raise TypeError('group_name must be string')
     if np.array(entity_type_code).dtype.kind not in 'iu':
         raise TypeError('entity_type_code must all be positive integers')
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 7db55da..91844bb 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -188,7 +188,7 @@ def prepare_group(
 
     if type(group_number) != int and not isinstance(group_number, np.integer):
         raise TypeError('group_number must be integer')
-    if type(group_name) != str:
+    if not isinstance(group_name, str):
         raise TypeError('group_name must be string')
     if np.array(entity_type_code).dtype.kind not in 'iu':
         raise TypeError('entity_type_code must all be positive integers')
diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 477a17c..a442d37 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -661,15 +661,15 @@ def prepare_55(
     >>> uff_datasets
     """
 
-    if type(id1) != str and id1 != None:
+    if not isinstance(id1, str) and id1 != None:
         raise TypeError('id1 must be string.')
-    if type(id2) != str and id2 != None:
+    if not isinstance(id2, str) and id2 != None:
         raise TypeError('id2 must be string.')
-    if type(id3) != str and id3 != None:
+    if not isinstance(id3, str) and id3 != None:
         raise TypeError('id3 must be string.')
-    if type(id4) != str and id4 != None:
+    if not isinstance(id4, str) and id4 != None:
         raise TypeError('id4 must be string.')
-    if type(id5) != str and id5 != None:
+    if not isinstance(id5, str) and id5 != None:
         raise TypeError('id5 must be string.')
     if model_type not in (0, 1, 2, 3, None):
         raise ValueError('model_type can be 0:Unknown, 1:Structural, 2:Heat Transfer, 3:Fluid Flow')
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 91f02cb..59c1ec5 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1328,15 +1328,15 @@ def prepare_58(
 
     if binary not in (0, 1, None):
         raise ValueError('binary can be 0 or 1')
-    if type(id1) != str and id1 != None:
+    if not isinstance(id1, str) and id1 != None:
         raise TypeError('id1 must be string.')
-    if type(id2) != str and id2 != None:
+    if not isinstance(id2, str) and id2 != None:
         raise TypeError('id2 must be string.')
-    if type(id3) != str and id3 != None:
+    if not isinstance(id3, str) and id3 != None:
         raise TypeError('id3 must be string.')
-    if type(id4) != str and id4 != None:
+    if not isinstance(id4, str) and id4 != None:
         raise TypeError('id4 must be string.')
-    if type(id5) != str and id5 != None:
+    if not isinstance(id5, str) and id5 != None:
         raise TypeError('id5 must be string.')
     
     if func_type not in np.arange(28) and func_type != None:
@@ -1345,13 +1345,13 @@ def prepare_58(
         raise TypeError('ver_num must be integer')
     if np.array(load_case_id).dtype.kind not in 'iu' and load_case_id != None:
         raise TypeError('load_case_id must be integer')
-    if type(rsp_ent_name) != str and rsp_ent_name != None:
+    if not isinstance(rsp_ent_name, str) and rsp_ent_name != None:
         raise TypeError('rsp_ent_name must be string')
     if np.array(rsp_node).dtype.kind not in 'iu' and rsp_node != None:
         raise TypeError('rsp_node must be integer')
     if rsp_dir not in np.arange(-6,7) and rsp_dir != None:
         raise ValueError('rsp_dir must be integer between -6 and 6')
-    if type(ref_ent_name) != str and ref_ent_name != None:
+    if not isinstance(ref_ent_name, str) and ref_ent_name != None:
         raise TypeError('rsp_ent_name must be string')
     if np.array(ref_node).dtype.kind not in 'iu' and ref_node != None:
         raise TypeError('ref_node must be int')
@@ -1379,7 +1379,7 @@ def prepare_58(
         raise TypeError('abscissa_force_unit_exp must be integer')
     if np.array(abscissa_temp_unit_exp).dtype.kind not in 'iu' and abscissa_temp_unit_exp != None:
         raise TypeError('abscissa_temp_unit_exp must be integer')
-    if type(abscissa_axis_units_lab) != str and abscissa_axis_units_lab != None:
+    if not isinstance(abscissa_axis_units_lab, str) and abscissa_axis_units_lab != None:
         raise TypeError('abscissa_axis_units_lab must be string')
 
     if ordinate_spec_data_type not in np.arange(21) and ordinate_spec_data_type != None:
@@ -1390,7 +1390,7 @@ def prepare_58(
         raise TypeError('ordinate_force_unit_exp must be integer')
     if np.array(ordinate_temp_unit_exp).dtype.kind not in 'iu' and ordinate_temp_unit_exp != None:
         raise TypeError('ordinate_temp_unit_exp must be integer')
-    if type(ordinate_axis_units_lab) != str and ordinate_axis_units_lab != None:
+    if not isinstance(ordinate_axis_units_lab, str) and ordinate_axis_units_lab != None:
         raise TypeError('ordinate_axis_units_lab must be string')
 
     if orddenom_spec_data_type not in np.arange(21) and orddenom_spec_data_type != None:
@@ -1401,7 +1401,7 @@ def prepare_58(
         raise TypeError('orddenom_force_unit_exp must be integer')
     if np.array(orddenom_temp_unit_exp).dtype.kind not in 'iu' and orddenom_temp_unit_exp != None:
         raise TypeError('orddenom_temp_unit_exp must be integer')
-    if type(orddenom_axis_units_lab) != str and orddenom_axis_units_lab != None:
+    if not isinstance(orddenom_axis_units_lab, str) and orddenom_axis_units_lab != None:
         raise TypeError('orddenom_axis_units_lab must be string')
 
     if z_axis_spec_data_type not in np.arange(21) and z_axis_spec_data_type != None:
@@ -1412,7 +1412,7 @@ def prepare_58(
         raise TypeError('z_axis_force_unit_exp must be integer')
     if np.array(z_axis_temp_unit_exp).dtype.kind not in 'iu' and z_axis_temp_unit_exp != None:
         raise TypeError('z_axis_temp_unit_exp must be integer')
-    if type(z_axis_axis_units_lab) != str and z_axis_axis_units_lab != None:
+    if not isinstance(z_axis_axis_units_lab, str) and z_axis_axis_units_lab != None:
         raise TypeError('z_axis_axis_units_lab must be string')
     
     if np.array(data).dtype.kind != 'f' and np.array(data).dtype.kind != 'c':
diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index b502c45..4c8a551 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -135,7 +135,7 @@ def prepare_82(
         raise TypeError('n_nodes must be integer')
     if np.array(color).dtype.kind not in 'iu' and color != None:
         raise TypeError('color must be integer')
-    if type(id) != str and id != None:
+    if not isinstance(id, str) and id != None:
         raise TypeError(('id must be string'))
     if np.array(nodes).dtype.kind not in 'iu' and nodes != None:
         raise TypeError('nodes must be integers')
-- 
2.43.0


From dabde60a9312c97fcc20608e1af8d2b316f37ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 51/55] fix: numbers that fill their fields are read, also
 without a blank between them

---
 pyuff/datasets/dataset_15.py   | 12 +++++++++---
 pyuff/datasets/dataset_18.py   |  4 ++--
 pyuff/datasets/dataset_2411.py |  7 +++----
 pyuff/datasets/dataset_2412.py |  4 ++--
 pyuff/datasets/dataset_2414.py | 32 ++++++++++++++++++--------------
 pyuff/datasets/dataset_2420.py |  4 ++--
 pyuff/datasets/dataset_2429.py |  4 ++--
 pyuff/datasets/dataset_2467.py |  4 ++--
 pyuff/datasets/dataset_82.py   |  5 ++---
 pyuff/tools.py                 | 12 ++++++++++++
 10 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index 298fe52..ade7316 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -1,7 +1,7 @@
 from os import write
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, _write_record, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, _write_record, check_dict_for_none
 
 def get_structure_15(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -62,8 +62,14 @@ def _extract15(block_data):
     try:
         # Body
         split_data = _splitlines(block_data)
-        split_data = ''.join(split_data[2:]).split()
-        split_data = [float(_) for _ in split_data]
+        fields = []
+        for line in split_data[2:]:
+            if len(line.split()) < 7 and len(line.rstrip()) > 66:
+                # numbers that fill their fields leave no blanks between them
+                fields.extend(_split_fields(line[:40], 10) + _split_fields(line[40:], 13))
+            else:
+                fields.extend(line.split())
+        split_data = [float(_) for _ in fields]
 
         dset['node_nums'] = split_data[::7]
         dset['def_cs'] = split_data[1::7]
diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index c1899df..2292b3f 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 
 def get_structure_18(raw=False):
@@ -80,7 +80,7 @@ def _extract18(block_data):
         split_data = _splitlines(block_data)
 
         # -- Get Record 1
-        rec_1 = np.array(list(map(float, ''.join(split_data[2::4]).split())))
+        rec_1 = np.array([float(field) for line in split_data[2::4] for field in _split_fields(line, 10)])
 
         dset['cs_num'] = rec_1[::5]
         dset['cs_type'] = rec_1[1::5]
diff --git a/pyuff/datasets/dataset_2411.py b/pyuff/datasets/dataset_2411.py
index bf91eb3..7ed169d 100644
--- a/pyuff/datasets/dataset_2411.py
+++ b/pyuff/datasets/dataset_2411.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 def get_structure_2411(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -53,9 +53,8 @@ def _extract2411(block_data):
     dset = {'type': 2411}
     try:
         # Body
-        split_data = _splitlines(block_data, True)  # Keep the line breaks!
-        split_data = ''.join(split_data[2:])  # ..as they are again needed
-        split_data = split_data.split()
+        split_data = _splitlines(block_data)
+        split_data = [field for i, line in enumerate(split_data[2:]) for field in _split_fields(line, 25 if i % 2 else 10)]
         # replace to support D or d notation as an exponential notation (typically form Unigraphics IDEAS)
         values = np.asarray([float(str.replace("D", "E").replace("d", "E")) for str in split_data], 'd')
         dset['node_nums'] = values[::7].copy()
diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index fb91bbf..867abdd 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -1,7 +1,7 @@
 import numpy as np
 import itertools
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 def get_structure_2412(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -94,7 +94,7 @@ def _extract2412(block_data):
     # Read data
     try:
         split_data = _splitlines(block_data)
-        split_data = [a.split() for a in split_data][2:]
+        split_data = [_split_fields(a, 10) for a in split_data][2:]
 
         # Extract Records
         i = 0
diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index e5142d9..78ac40d 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math as math
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 def get_structure_2414(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -552,13 +552,18 @@ def _join_values(lines):
     joined = []
     for line in lines:
         # a full line of values is continued by a line of reals; record 14 has integers only
-        if joined and len(joined) % 2 == 0 and '.' in line and len(joined[-1].split()) % 6 == 0:
-            joined[-1] += ' ' + line
+        if joined and len(joined) % 2 == 0 and '.' in line and len(_split_fields(joined[-1].split('\n')[-1], 13)) % 6 == 0:
+            joined[-1] += '\n' + line
         else:
             joined.append(line)
     return joined
 
 
+def _values(record):
+    """Returns the values of a record 15 as an array."""
+    return np.array([float(field) for line in record.split('\n') for field in _split_fields(line, 13)], float)
+
+
 def _write2414(fh, dset):
     """
     DS2414_num is iterative number for each DS2414
@@ -763,8 +768,7 @@ def _extract2414(block_data):
                                                 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass', 
                                                 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass']))
 
-            split_data = ''.join(_splitlines(block_data, True)[15:])
-            split_data = split_data.split()
+            split_data = [field for line in _splitlines(block_data)[15:] for field in _split_fields(line, 13)]
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
@@ -806,18 +810,18 @@ def _extract2414(block_data):
             if dset['dataset_location'] == 1:
                 # Data at nodes
                 split_data = _join_values(split_data)
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
+                record14 = np.asarray([_split_fields(str, 10) for str in split_data[0::2]], 'U')
                 # record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
+                record15 = [_values(item) for item in split_data[1::2]]
                 dset['node_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['data_at_node'] = record15
 
             elif dset['dataset_location'] == 2:
                 # Data on elements
                 split_data = _join_values(split_data)
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
+                record14 = np.asarray([_split_fields(str, 10) for str in split_data[0::2]], 'U')
                 ## record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
+                record15 = [_values(item) for item in split_data[1::2]]
                 dset['element_nums'] = np.array(record14[:,0].copy(), dtype=int)
                 dset['NDVAL'] = np.array(record14[:,1].copy(), dtype=int)
                 dset['data_at_element'] = record15
@@ -834,12 +838,12 @@ def _extract2414(block_data):
                 dset['data_at_nodes_on_element'] = []
                 lineIndex = 0
                 while lineIndex < len(split_data):
-                    dset['element_nums'].append(int(split_data[lineIndex].split()[0]))
-                    iEXP = int(split_data[lineIndex].split()[1])
+                    dset['element_nums'].append(int(_split_fields(split_data[lineIndex], 10)[0]))
+                    iEXP = int(_split_fields(split_data[lineIndex], 10)[1])
                     dset['IEXP'].append(iEXP)
-                    numberOfNodes = int(split_data[lineIndex].split()[2])
+                    numberOfNodes = int(_split_fields(split_data[lineIndex], 10)[2])
                     dset['number_of_nodes'].append(numberOfNodes)
-                    numberOfValuesPerNode = int(split_data[lineIndex].split()[3])
+                    numberOfValuesPerNode = int(_split_fields(split_data[lineIndex], 10)[3])
                     dset['number_of_values_per_node'].append(numberOfValuesPerNode)
                     # if IEXP = 2, only one line for all nodes. Thus floor division + 1
                     numberOfLinesInRecord15 = 0
@@ -850,7 +854,7 @@ def _extract2414(block_data):
                     if numberOfLinesInRecord15 < 0:
                         raise ValueError('negative number of nodes or values')
                     # a list of numpy array, since the number of lines is not fixed.
-                    dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
+                    dset['data_at_nodes_on_element'].append([_values(item) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
 
                     lineIndex = lineIndex + 1 + numberOfLinesInRecord15
 
diff --git a/pyuff/datasets/dataset_2420.py b/pyuff/datasets/dataset_2420.py
index 1c0212c..f2349f3 100644
--- a/pyuff/datasets/dataset_2420.py
+++ b/pyuff/datasets/dataset_2420.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 def get_structure_2420(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -90,7 +90,7 @@ def _extract2420(block_data):
     dset['Part_Name'] = split_data[3].rstrip()
 
     # -- Get Record 3
-    rec_3 = list(map(int, ''.join(split_data[4::6]).split()))
+    rec_3 = [int(field) for line in split_data[4::6] for field in _split_fields(line, 10)]
     dset['CS_sys_labels'] = rec_3[::3]
     dset['CS_types'] = rec_3[1::3]
     dset['CS_colors'] = rec_3[2::3]
diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index cd3c54e..ac158c8 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 def get_structure_2429(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -164,7 +164,7 @@ def _extract2429(block_data):
             # max 4 items per line, last line in group doesn't necessarily contain 4 elements
             indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2
             # split all lines and then each line in separate integers. Put this in a ndarray
-            values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
+            values = [[int(elem) for elem in _split_fields(line, 10)] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
             # flatten the list and put in ndarray
             values = np.array([item for sublist in values for item in sublist], dtype=int)
             group['entity_type_code'] = np.array(values[::2].copy(), dtype=int)
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 91844bb..911853c 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 def get_structure_2467(raw=False):
     """(source: https://github.com/victorsndvg/FEconv/blob/master/source/unv/module_dataset_2467.f90)"""
@@ -135,7 +135,7 @@ def _extract2467(block_data):
             raise ValueError('negative number of entities in the group')
         indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 2) + lineIndex + 2
         # split all lines and then each line in separate integers. Put this in a ndarray
-        values = [[int(elem) for elem in line.split()] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
+        values = [[int(elem) for elem in _split_fields(line, 10)] for line in split_data[lineIndex + 2: indexLastLineForGroup]]
         # flatten the list and put in ndarray
         values = np.array([item for sublist in values for item in sublist], dtype=int)
         group['entity_type_code'] = np.array(values[::4].copy(), dtype=int)
diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4c8a551..bd00892 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -1,7 +1,7 @@
 import numpy as np
 import os
 
-from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _split_fields, _splitlines, check_dict_for_none
 
 def get_structure_82(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -80,8 +80,7 @@ def _extract82(block_data):
         dset.update(
             _parse_header_line(split_data[2], 3, [10, 10, 10], [2, 2, 2], ['trace_num', 'n_nodes', 'color']))
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id']))
-        split_data = ''.join(split_data[4:])
-        split_data = split_data.split()
+        split_data = [field for line in split_data[4:] for field in _split_fields(line, 10)]
         dset['nodes'] = np.asarray([float(str) for str in split_data])
         # the last line can be filled with zeros
         if not np.any(dset['nodes'][dset['n_nodes']:]):
diff --git a/pyuff/tools.py b/pyuff/tools.py
index 53b4c18..f5bab53 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -26,6 +26,18 @@ def _splitlines(text, keepends=False):
     lines = io.StringIO(text, newline='').readlines()
     return lines if keepends else [line.rstrip('\r\n') for line in lines]
 
+def _split_fields(line, width):
+    """Splits the line at blanks, or into fields of the given width.
+
+    Numbers that fill their fields leave no blanks between them: integers are
+    longer than a field then, and reals have more than one point.
+    """
+    fields = line.split()
+    if any(len(field) > width and field.count('.') != 1 for field in fields):
+        fields = [line[i:i + width].strip() for i in range(0, len(line.rstrip()), width)]
+        fields = [field for field in fields if field]
+    return fields
+
 def _parse_header_line(line, min_values, widths, types, names):
     """Parses the given line (a record in terms of UFF file) and returns all
     the fields. 
-- 
2.43.0


From af25ecb1ebc8de7b67f650476c20efc401ab900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:37 +0000
Subject: [PATCH 52/55] fix: read and write frequency responses on elements and
 real ones (2414)

Data-sets 2414 of analysis type 5 were always read as complex values at nodes:
values on elements came out as garbage, and real ones not at all.
---
 pyuff/datasets/dataset_2414.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 78ac40d..f8c896a 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -564,6 +564,11 @@ def _values(record):
     return np.array([float(field) for line in record.split('\n') for field in _split_fields(line, 13)], float)
 
 
+def _is_response(dset):
+    """Returns True if the data are frequency responses at nodes, complex values of up to three directions."""
+    return dset['analysis_type'] == 5 and dset['dataset_location'] not in (2, 3)
+
+
 def _write2414(fh, dset):
     """
     DS2414_num is iterative number for each DS2414
@@ -583,6 +588,8 @@ def _write2414(fh, dset):
                 'record13_field1': 0, 'record13_field2': 0, 'record13_field3': 0,
                 'record13_field4': 0, 'record13_field5': 0, 'record13_field6': 0}
         dset = _opt_fields(dset, dict)
+        # responses at nodes can also be given as lists of values
+        response = _is_response(dset) and 'data_at_node' not in dset
         fh.write('%6i\n%6i\n' % (-1, 2414))
 
         # Write general fields
@@ -631,6 +638,7 @@ def _write2414(fh, dset):
                                             dset['imaginary_part_of_modal_A_or_modal_mass'],
                                             dset['real_part_of_modal_B_or_modal_mass'], 
                                             dset['imaginary_part_of_modal_B_or_modal_mass']))                            
+        if response:
             for index in range(len(dset['node_nums'])):
                 fh.write('%10i\n' % (int(dset['node_nums'][index])))
                 if dset['number_of_data_values_for_the_data_component'] == 3 : 
@@ -657,7 +665,7 @@ def _write2414(fh, dset):
             fh.write('%6i\n' % (-1))
         # Dictionairy keys have a general name.
         # The meaning of these records and fields depends on the software which writes/reads these.
-        else:
+        if dset['analysis_type'] != 5:
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (
                                             dset['record10_field1'], 
                                             dset['record10_field2'],
@@ -691,6 +699,7 @@ def _write2414(fh, dset):
                                             dset['record13_field5'],
                                             dset['record13_field6']))                        
             
+        if not response:
             # The data and structure of Record 14 and 15 depend on the 'dataset_location'
             if dset['dataset_location'] == 1:
                 for index in range(len(dset['node_nums'])):
@@ -768,6 +777,8 @@ def _extract2414(block_data):
                                                 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass', 
                                                 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass']))
 
+        response = _is_response(dset) and dset['data_type'] in (5, 6)
+        if response:
             split_data = [field for line in _splitlines(block_data)[15:] for field in _split_fields(line, 13)]
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
@@ -789,7 +800,7 @@ def _extract2414(block_data):
         # The meaning of these records and fields depends on the software which writes/reads these.
         # This section processes the data in record 14 and 15 as general as possible.
         # general reading functionality min_values is set to 1 in _parse_header_line to keep it as general as possible
-        else:
+        if dset['analysis_type'] != 5:
             dset.update(_parse_header_line(split_header[11], 1, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                                 ['record10_field1', 'record10_field2', 'record10_field3', 'record10_field4', 
                                                     'record10_field5', 'record10_field6', 'record10_field7', 'record10_field8']))
@@ -804,6 +815,7 @@ def _extract2414(block_data):
                                             ['record13_field1', 'record13_field2', 'record13_field3', 'record13_field4',
                                             'record13_field5', 'record13_field6']))
             
+        if not response:
             # The data and structure of Record 14 and 15 depend on the 'dataset_location'
             split_data = ''.join(_splitlines(block_data, True)[15:])
             split_data = _splitlines(split_data)
-- 
2.43.0


From 1789a299cf0f84b0d7a1080d3f0e14ec2ede6e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:52 +0000
Subject: [PATCH 53/55] fix: read and write any number of values per node (55)

---
 pyuff/datasets/dataset_55.py | 86 ++++++++++++------------------------
 1 file changed, 29 insertions(+), 57 deletions(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index a442d37..90acd3a 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -1,3 +1,4 @@
+import math
 import numpy as np
 
 from ..tools import _opt_fields, _parse_header_line, _splitlines, check_dict_for_none
@@ -390,11 +391,10 @@ def _write55(fh, dset):
             raise ValueError('Error writing data-set #55: unsupported analysis type')
         # Some additional checking
         data_type = 2
-        #             if dset.has_key('r4') and dset.has_key('r5') and dset.has_key('r6'):
-        if ('r4' in dset) and ('r5' in dset) and ('r6' in dset):
-            n_data_per_node = 6
-        else:
-            n_data_per_node = 3
+        # 3 values per node or more (r4, r5,...), fewer if they are asked for
+        n_data_per_node = int(dset['n_data_per_node']) if dset.get('n_data_per_node') in (1, 2) else 3
+        while 'r%i' % (n_data_per_node + 1) in dset:
+            n_data_per_node += 1
         if any(np.iscomplexobj(dset['r%i' % i]) for i in range(1, n_data_per_node + 1)):
             data_type = 5
         else:
@@ -427,31 +427,14 @@ def _write55(fh, dset):
         else:
             raise ValueError('Unsupported analysis type')
         n = len(dset['node_nums'])
-        if data_type == 2:
-            # Real data
-            if n_data_per_node == 3:
-                for k in range(0, n):
-                    fh.write('%10i\n' % dset['node_nums'][k])
-                    fh.write('%13.5e%13.5e%13.5e\n' % (dset['r1'][k], dset['r2'][k], dset['r3'][k]))
-            else:
-                for k in range(0, n):
-                    fh.write('%10i\n' % dset['node_nums'][k])
-                    fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
-                                (dset['r1'][k], dset['r2'][k], dset['r3'][k], dset['r4'][k], dset['r5'][k],
-                                dset['r6'][k]))
-        elif data_type == 5:
-            # Complex data; 3 values per line
-            for k in range(0, n):
-                fh.write('%10i\n' % dset['node_nums'][k])
-                fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
-                            (dset['r1'][k].real, dset['r1'][k].imag, dset['r2'][k].real, dset['r2'][k].imag,
-                            dset['r3'][k].real, dset['r3'][k].imag))
-                if n_data_per_node == 6:
-                    fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
-                                (dset['r4'][k].real, dset['r4'][k].imag, dset['r5'][k].real, dset['r5'][k].imag,
-                                dset['r6'][k].real, dset['r6'][k].imag))
-        else:
-            raise ValueError('Unsupported data type')
+        for k in range(0, n):
+            fh.write('%10i\n' % dset['node_nums'][k])
+            values = [dset['r%i' % i][k] for i in range(1, n_data_per_node + 1)]
+            if data_type == 5:
+                # Complex data; 3 values per line
+                values = [part for value in values for part in (value.real, value.imag)]
+            for i in range(0, len(values), 6):
+                fh.write(''.join(['%13.5e' % value for value in values[i:i + 6]]) + '\n')
         fh.write('%6i\n' % -1)
     except KeyError as msg:
         raise Exception('The required key \'' + msg.args[0] + '\' not present when writing data-set #55')
@@ -507,39 +490,28 @@ def _extract55(block_data):
                                                 ['freq', '', '', '', '', '']))
             # Body
         split_data = ''.join(split_data[10:])
-        if dset['data_type'] == 5 and dset['n_data_per_node'] == 6:
-            # 12 numbers per node are on two lines; join them
+        n = dset['n_data_per_node']
+        if n < 1:
+            raise ValueError('no values at the nodes')
+        n_lines = math.ceil(n * (2 if dset['data_type'] == 5 else 1) / 6)
+        if n_lines > 1:
+            # more than 6 numbers per node are on several lines; join them
             lines = _splitlines(split_data)
-            split_data = '\n'.join([line for node, first, second in zip(lines[::3], lines[1::3], lines[2::3])
-                                    for line in (node, first[:78] + second)])
+            split_data = '\n'.join([line for i in range(0, len(lines) - n_lines, n_lines + 1)
+                                    for line in (lines[i], ''.join([part[:78] for part in lines[i + 1:i + n_lines + 1]]))])
         node_nums = np.asarray([int(str) for str in _splitlines(split_data, True)[::2]])
         node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str.rstrip())//13) ] for str in _splitlines(split_data, True)[1::2]], 'd').flatten()
+        if n > max(100, len(node_vals)):
+            raise ValueError('more values per node than there are')
+        dset['node_nums'] = node_nums.copy()
         if dset['data_type'] == 2:
             # real data
-            if dset['n_data_per_node'] == 3:
-                dset['node_nums'] = node_nums.copy()
-                dset['r1'] = node_vals[0::3].copy()
-                dset['r2'] = node_vals[1::3].copy()
-                dset['r3'] = node_vals[2::3].copy()
-            else:
-                dset['node_nums'] = node_nums.copy()
-                dset['r1'] = node_vals[0::6].copy()
-                dset['r2'] = node_vals[1::6].copy()
-                dset['r3'] = node_vals[2::6].copy()
-                dset['r4'] = node_vals[3::6].copy()
-                dset['r5'] = node_vals[4::6].copy()
-                dset['r6'] = node_vals[5::6].copy()
+            for i in range(n):
+                dset['r%i' % (i + 1)] = node_vals[i::n].copy()
         elif dset['data_type'] == 5:
             # complex data
-            if dset['n_data_per_node'] == 3:
-                dset['node_nums'] = node_nums.copy()
-                dset['r1'] = node_vals[0::6].copy() + 1.j * node_vals[1::6].copy()
-                dset['r2'] = node_vals[2::6].copy() + 1.j * node_vals[3::6].copy()
-                dset['r3'] = node_vals[4::6].copy() + 1.j * node_vals[5::6].copy()
-            else:
-                dset['node_nums'] = node_nums.copy()
-                for i in range(6):
-                    dset['r%i' % (i + 1)] = node_vals[2 * i::12].copy() + 1.j * node_vals[2 * i + 1::12].copy()
+            for i in range(n):
+                dset['r%i' % (i + 1)] = node_vals[2 * i::2 * n].copy() + 1.j * node_vals[2 * i + 1::2 * n].copy()
         else:
             raise Exception('Error reading data-set #55')
     except:
@@ -595,7 +567,7 @@ def prepare_55(
     :param data_ch: R6 F3, Data characteristic number
     :param spec_data_type: R6 F4, Specific data type
     :param data_type: R6 F5,  Data type, ignored
-    :param n_data_per_node: R6 F6, Number of data values per node, ignored
+    :param n_data_per_node: R6 F6, Number of data values per node; looked up only for 1 or 2 of them, else 3 and more are counted
 
     R7 and R8 are analysis type specific:
 
-- 
2.43.0


From b1ea0f11710625ea7a20ba2e633df26b677f0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:34 +0000
Subject: [PATCH 54/55] fix: version and file type numbers of data-set 151 are
 written as integers

---
 pyuff/datasets/dataset_151.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index b19a210..a34e806 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -50,9 +50,9 @@ def _write151(fh, dset):
         ds = time.strftime('%d-%b-%y', time.localtime())
         ts = time.strftime('%H:%M:%S', time.localtime())
         # handle optional fields
-        dset = _opt_fields(dset, {'version_db1': '0',
-                                        'version_db2': '0',
-                                        'file_type': '0',
+        dset = _opt_fields(dset, {'version_db1': 0,
+                                        'version_db2': 0,
+                                        'file_type': 0,
                                         'date_db_created': ds,
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
@@ -64,9 +64,9 @@ def _write151(fh, dset):
         fh.write('%-80s\n' % dset['model_name'])
         fh.write('%-80s\n' % dset['description'])
         fh.write('%-80s\n' % dset['db_app'])
-        fh.write('%-10.10s%-10.10s%10s%10s%10s\n' % (dset['date_db_created'],
-                                                dset['time_db_created'], dset['version_db1'], dset['version_db2'],
-                                                dset['file_type']))
+        fh.write('%-10.10s%-10.10s%10i%10i%10i\n' % (dset['date_db_created'],
+                                                dset['time_db_created'], int(dset['version_db1']), int(dset['version_db2']),
+                                                int(dset['file_type'])))
         fh.write('%-10.10s%-10.10s\n' % (dset['date_db_saved'], dset['time_db_saved']))
         fh.write('%-80s\n' % dset['program'])
         fh.write('%-10.10s%-10.10s\n' % (dset['date_file_written'], dset['time_file_written']))
-- 
2.43.0


From 9e9022b4218dfc2bad37381bbe77fa1c5c144dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:27 +0000
Subject: [PATCH 55/55] fix: values of a node on an element are written six per
 line (2414)

---
 pyuff/datasets/dataset_2414.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index f8c896a..1221b74 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -721,10 +721,8 @@ def _write2414(fh, dset):
                     fh.write('%10i%10i%10i%10i\n' % (dset['element_nums'][index], dset['IEXP'][index],
                                                     dset['number_of_nodes'][index], dset['number_of_values_per_node'][index]))
                     for line in dset['data_at_nodes_on_element'][index]:
-                        # each line is an np.ndarray with unknown number of elements, so loop
-                        for item in line:
-                            fh.write('%13.5e' % (item))
-                        fh.write('\n')
+                        # each line is an np.ndarray with unknown number of elements
+                        _write_values(fh, line)
                 fh.write('%6i\n' % (-1))
 
             elif dset['dataset_location'] == 5:
-- 
2.43.0

