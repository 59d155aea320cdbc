From f3d38cd3e7d6fb71066f438be9cbf6914d8a9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 01/69] fix: reading a truncated SDDS header raises instead of
 looping forever

---
 rsbeams/rsdata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d7f5806..577d8ef 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -22,6 +22,8 @@ def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
         line = str(open_file.readline(), 'latin-1')
+        if not line.endswith('\n'):
+            raise EOFError('File ends inside of the SDDS header')
     return line
 
 
-- 
2.43.0


From ed0d39cac89b6a7fdbce4d1d5eb0b7965e8a8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 02/69] fix: buffered ASCII SDDS reading loses its place after
 the first page

---
 rsbeams/rsdata/SDDS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8627ec5..d5ebc6e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -1,5 +1,6 @@
 from future.builtins import str
 import numpy as np
+from io import BytesIO
 from struct import pack
 from sys import byteorder
 from types import GeneratorType
@@ -172,9 +173,11 @@ class readSDDS:
 
         if self.data['&data'][0].fields['mode'] == 'ascii':
             self._data_mode = 'ascii'
-            # need list of lines to use genfromtxt
+            # genfromtxt consumes lines, so a buffered file is streamed from memory like an open file
             if self.buffer:
-                self.openf = [line for line in self.openf.splitlines() if line.lstrip().find(b'!') != 0]
+                self.openf = BytesIO(self.openf)
+                self.openf.seek(self.header_end_pointer)
+                self.buffer = False
         else:
             self._data_mode = 'binary'
             # If binary the exact string lengths will be found dynamically and inserted here
-- 
2.43.0


From 851c5988cdbbf53301671dd203687253c4fd8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 03/69] fix: unbuffered SDDS reading drops pages whose data
 look like a blank line

---
 rsbeams/rsdata/SDDS.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index d5ebc6e..2d469b2 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -289,17 +289,19 @@ class readSDDS:
             if len(self.openf) <= position:
                 return True
         else:
-            # Usually will catch binary end
             pointer = self.openf.tell()
 
-            if not self.openf.read(1):
-                return True
-            while True:
-                line = self.openf.readline()
-                if not line.strip():
+            if self._data_mode == 'binary':
+                if not self.openf.read(1):
                     return True
-                else:
-                    break
+            else:
+                # Blank lines and comments may follow the last page
+                while True:
+                    line = self.openf.readline()
+                    if not line:
+                        return True
+                    elif line.strip() and not line.lstrip().startswith(b'!'):
+                        break
 
             self.openf.seek(pointer)
 
-- 
2.43.0


From 405dca7b90fff55ea327ba1f5f73939b49372c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 04/69] fix: selecting pages of an SDDS file shifts the data
 that follow a skipped page

---
 rsbeams/rsdata/SDDS.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 2d469b2..384ed6a 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -3,7 +3,6 @@ import numpy as np
 from io import BytesIO
 from struct import pack
 from sys import byteorder
-from types import GeneratorType
 from rsbeams.rsdata import utils
 from .datatypes import supported_namelists
 from .struct_data import StructData
@@ -251,7 +250,7 @@ class readSDDS:
             # ASCII: count may not be included and will be at the end of the parameters
             self._parameter_keys.append([('row_counts', utils.data_types['long'])])
         else:
-            if len(self._parameter_keys[0]) == 0:
+            if self._parameter_keys and len(self._parameter_keys[0]) == 0:
                 # Need empty checks to succeed
                 self._parameter_keys.pop(0)
 
@@ -348,9 +347,9 @@ class readSDDS:
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
         if pages is not None:
-            user_pages = pages
+            user_pages = set(pages)
         else:
-            user_pages = utils.iter_always()
+            user_pages = None
         pages = utils.iter_always()
 
         # Buffer reading has no pointer, you always start at the beginning so we need to move the start offset
@@ -366,15 +365,14 @@ class readSDDS:
                 break
 
         for page in pages:
-            if not isinstance(user_pages, GeneratorType) and page > np.max(user_pages):
-                print(page, user_pages)
+            if user_pages is not None and page > max(user_pages, default=-1):
                 if self.verbose:
                     print('stopping here')
                 break
 
             if self._check_file_end(position):
                 # TODO: Get the logic right here. Should not trigger unless user requests a bad page.
-                if page in user_pages:
+                if user_pages is not None and page in user_pages:
                     if self.verbose:
                         print('Could not read page {}'.format(page))
                 break
@@ -382,7 +380,8 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (page in user_pages):
+            page_selected = user_pages is None or page in user_pages
+            if self._parameters and page_selected:
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
@@ -392,14 +391,12 @@ class readSDDS:
             else:
                 row_count = self._get_ascii_row_count(position)
 
-            if row_count == 0:
+            if len(self.data['&column']) == 0:
                 continue
-            if (isinstance(user_pages, GeneratorType) or (page in user_pages)) or self._variable_length_records:
-                column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            # columns of skipped pages are read as well to arrive at the start of the next page
+            column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            if page_selected:
                 self._columns.add(column_data)
-            else:
-                # still need to update position what would have been read
-                position += np.dtype(self._column_keys[0]).itemsize * row_count
         if self._parameters:
             self._parameters.concat()
         if self._columns:
-- 
2.43.0


From f6263b0066cac55b9b6df5e11cf6415394d6df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 05/69] fix: ASCII SDDS pages without row counts are merged or
 lost at separators, comments and no_row_counts=0

---
 rsbeams/rsdata/SDDS.py      | 5 +++--
 rsbeams/rsdata/datatypes.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 384ed6a..66e133e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -294,8 +294,9 @@ class readSDDS:
                 if not self.openf.read(1):
                     return True
             else:
-                # Blank lines and comments may follow the last page
+                # Blank lines and comments may separate pages and follow the last page
                 while True:
+                    pointer = self.openf.tell()
                     line = self.openf.readline()
                     if not line:
                         return True
@@ -322,7 +323,7 @@ class readSDDS:
                 if not line.strip():
                     self.openf.seek(start_position)
                     return line_count
-                else:
+                elif not line.lstrip().startswith(b'!'):
                     line_count += 1
 
     def read(self, pages=None):
diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index a850d04..2c192ee 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -117,6 +117,7 @@ class Data(Datum):
             "additional_header_lines": 0,
         }
         super().__init__(namelist)
+        self.fields["no_row_counts"] = int(self.fields["no_row_counts"])
 
 
 class Associate(Datum):
-- 
2.43.0


From 49174828732419898a2fb168c8323b312b3ec01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 06/69] fix: SDDS pages with unequal or zero row counts cannot
 be read

---
 rsbeams/rsdata/struct_data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 584b996..e3db84d 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -29,7 +29,7 @@ class StructData:
             self._data_type = data_type
 
     def add(self, data):
-        data_hold = None
+        data_hold = None if len(data) else np.empty(0, dtype=self.data_type)
         # Stack page data data together
         for datum in data:
             datum = self._merge(datum)
@@ -42,7 +42,13 @@ class StructData:
         self._data.append(data_hold)
 
     def concat(self):
-        self.data = np.array(self._data)
+        if len(set(d.shape for d in self._data)) > 1:
+            # Pages with different row counts cannot be stacked
+            self.data = np.empty(len(self._data), dtype=object)
+            for i, d in enumerate(self._data):
+                self.data[i] = d
+        else:
+            self.data = np.array(self._data)
 
     def _merge(self, data):
         if len(data) == 1:
-- 
2.43.0


From e436dbb7bacd1f293be6db765abe19df498ac642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 07/69] fix: missing or unreadable SDDS data are returned as
 shorter pages or as default values

---
 rsbeams/rsdata/SDDS.py | 57 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 66e133e..e9378dd 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -403,6 +403,26 @@ class readSDDS:
         if self._columns:
             self._columns.concat()
 
+    def _read_records(self, data_type, count, position, delimiter=None):
+        """
+        Read `count` records. Raises if the file holds fewer or if an entry cannot be interpreted as `data_type`.
+        """
+        data_type = np.dtype(data_type)
+        if count == 0:
+            return np.empty(0, dtype=data_type)
+        if self._data_mode == 'ascii':
+            records = self._get_reader()(self.openf, dtype=data_type, max_rows=count, comments='!',
+                                         deletechars='', delimiter=delimiter, loose=False).view(data_type)
+        elif data_type.itemsize == 0:
+            # empty string
+            records = np.zeros(count, dtype=data_type)
+        else:
+            records = self._get_reader()(self.openf, dtype=data_type, count=count, offset=position)
+        if records.size != count:
+            raise EOFError('File ends inside of an SDDS page')
+
+        return records
+
     def _get_parameter_data(self, data_keys, position):
         data_arrays = [[]]
         for dk in data_keys:
@@ -412,15 +432,9 @@ class readSDDS:
                     dk = [(dk[0][0], dk[0][1].format(record_length[0]))]
                 except (ValueError, IndexError):
                     pass
-            if self.data['&data'][0].fields['mode'] == 'ascii':
-                new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
-                                               comments='!', deletechars='', unpack=False, delimiter='\n\t')
-                if self.buffer:
-                    position += 1
-            else:
-                new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
-                if self.buffer:
-                    position += np.dtype(dk).itemsize
+            new_array = self._read_records(dk, 1, position, delimiter='\n\t')
+            if self.buffer:
+                position += np.dtype(dk).itemsize
             data_arrays[-1].append(new_array)
 
         return data_arrays, position
@@ -440,29 +454,18 @@ class readSDDS:
                             dk[0] = (dk[0][0], dk[0][1].format(record_length[0]))
                         except (ValueError, IndexError):
                             pass
-                    if self.data['&data'][0].fields['mode'] == 'ascii':
-                        new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
-                                                       comments='!', deletechars='')
-                        if self.buffer:
-                            position += 1
-                    else:
-                        new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
-                        if self.buffer:
-                            position += np.dtype(dk).itemsize
+                    new_array = self._read_records(dk, 1, position)
+                    if self.buffer:
+                        position += np.dtype(dk).itemsize
                     data_arrays[-1].append(new_array)
         else:
             # If no variable records all rows can be read at once
             data_arrays.append([])
             dk = data_keys[0]
-            if self.data['&data'][0].fields['mode'] == 'ascii':
-                new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
-                                               comments='!', deletechars='')
-                if self.buffer:
-                    position += 1 * ((0 if not row_count else row_count) + new_array.size)
-            else:
-                new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
-                if self.buffer:
-                    position += np.dtype(dk).itemsize * row_count
+            # shape must not depend on the row count, even for a single row
+            new_array = self._read_records(dk, row_count, position).reshape(-1)
+            if self.buffer:
+                position += np.dtype(dk).itemsize * row_count
             data_arrays[-1].append(new_array)
 
         return data_arrays, position
-- 
2.43.0


From 11f297d61efb975d0aa26becdbcd283cc1aadfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 08/69] fix: reading an ASCII SDDS file while it is appended to
 can invent rows

---
 rsbeams/rsdata/SDDS.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index e9378dd..2ee94de 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -50,6 +50,8 @@ class readSDDS:
         self.buffer = buffer
         self.openf = open(input_file, 'rb')
         self.position = 0
+        self._torn_line = False
+        self._last_page = False
 
         self.max_string_length = max_string_length
         self.header = []
@@ -321,6 +323,8 @@ class readSDDS:
             while True:
                 line = self.openf.readline()
                 if not line.strip():
+                    # Without row count the last page ends with the file
+                    self._last_page = not line
                     self.openf.seek(start_position)
                     return line_count
                 elif not line.lstrip().startswith(b'!'):
@@ -340,6 +344,8 @@ class readSDDS:
         Returns:
 
         """
+        self._torn_line = False
+        self._last_page = False
         # Always start after the header
         if not self.buffer:
             self.openf.seek(self.header_end_pointer)
@@ -371,7 +377,7 @@ class readSDDS:
                     print('stopping here')
                 break
 
-            if self._check_file_end(position):
+            if self._last_page or self._check_file_end(position):
                 # TODO: Get the logic right here. Should not trigger unless user requests a bad page.
                 if user_pages is not None and page in user_pages:
                     if self.verbose:
@@ -403,6 +409,18 @@ class readSDDS:
         if self._columns:
             self._columns.concat()
 
+    def _ascii_lines(self):
+        # A line may lack its end only at the end of the file. If the file is being appended to in the meantime
+        #  then what follows is the rest of that line.
+        while True:
+            line = self.openf.readline()
+            if not line:
+                return
+            if self._torn_line:
+                raise EOFError('File is changing inside of an SDDS page')
+            self._torn_line = not line.endswith(b'\n')
+            yield line
+
     def _read_records(self, data_type, count, position, delimiter=None):
         """
         Read `count` records. Raises if the file holds fewer or if an entry cannot be interpreted as `data_type`.
@@ -411,7 +429,7 @@ class readSDDS:
         if count == 0:
             return np.empty(0, dtype=data_type)
         if self._data_mode == 'ascii':
-            records = self._get_reader()(self.openf, dtype=data_type, max_rows=count, comments='!',
+            records = self._get_reader()(self._ascii_lines(), dtype=data_type, max_rows=count, comments='!',
                                          deletechars='', delimiter=delimiter, loose=False).view(data_type)
         elif data_type.itemsize == 0:
             # empty string
-- 
2.43.0


From e2252dbeb44536d3063bd3f8efe7ccaef3e8b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 09/69] fix: a fixed value of zero is dropped from the SDDS
 header

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 2ee94de..83ca402 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -632,7 +632,7 @@ class writeSDDS:
         assert parType in self.key_indentity.keys(), "Allowed data types are: 'double', 'short', 'long' "
 
         # Handle variable data type possibility for fixed_value
-        if parFixedVal:
+        if parFixedVal is not None:
             assert parData is None, "Using fixed value requires parData=None"
             if type(parFixedVal) in [float, int]:
                 pass
@@ -653,7 +653,7 @@ class writeSDDS:
 
         for parameter in self.parameters:
             for key, value in parameter.items():
-                if (key in parameterAttributeStr.keys()) and value:
+                if (key in parameterAttributeStr.keys()) and (value or (key == 'parFixedVal' and value is not None)):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
                                                                                           value=parameterAttributeStr[key][1].format(value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
-- 
2.43.0


From 288751aaa40817aa1b795ee8eb46fae54d019e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 10/69] fix: SDDS save ignores declared types, refuses silently
 and truncates the file it refuses to write

---
 rsbeams/rsdata/SDDS.py | 127 ++++++++++++++++++++++++++---------------
 1 file changed, 80 insertions(+), 47 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 83ca402..0bd6335 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -553,7 +553,8 @@ class writeSDDS:
 
     sddsIdentifier = headSDDS
 
-    key_indentity = {'double': 'd', 'short': 's', 'long': 'i', 'string': None}
+    key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
+    column_format = {'double': '%.18e', 'short': '%d', 'long': '%d'}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
@@ -671,6 +672,53 @@ class writeSDDS:
 
         outputFile.write('&data mode={}, &end\n'.format(self.dataMode).encode())
 
+    def _typed(self, name, data, data_type):
+        """
+        Get numeric data as they are stored in the file. Raises if the declared type cannot represent them.
+        """
+        data = np.asarray(data)
+        if data.dtype.kind == 'O':
+            data = data.astype(float)
+        if data.dtype.kind not in 'biuf' or self.key_indentity[data_type] is None:
+            raise ValueError('Data of {} cannot be written as type {}'.format(name, data_type))
+        with np.errstate(all='ignore'):
+            typed = data.astype('=' + self.key_indentity[data_type])
+        if data_type != 'double' and not np.array_equal(typed, data):
+            raise ValueError('Data of {} do not fit type {}'.format(name, data_type))
+
+        return typed
+
+    def _column_table(self):
+        # Every field of the table has the declared type so that a row is laid out as described in the header
+        data = []
+        for column in self.columns:
+            values = np.atleast_1d(self._typed(column['colName'], column['colData'], column['colType']))
+            if values.size != len(values):
+                raise ValueError('Column {} must be one dimensional'.format(column['colName']))
+            data.append(values.reshape(-1))
+        if len(set(len(values) for values in data)) > 1:
+            raise ValueError('All columns on a page must have same length')
+        table = np.empty(len(data[0]) if data else 0, dtype=[('f{}'.format(i), v.dtype) for i, v in enumerate(data)])
+        for name, values in zip(table.dtype.names or (), data):
+            table[name] = values
+
+        return table
+
+    def _parameter_values(self):
+        # Values of the data section. Parameters with a fixed value only appear in the header
+        result = []
+        for parameter in self.parameters:
+            if parameter['parFixedVal'] is not None:
+                continue
+            if parameter['parData'] is None:
+                raise ValueError('Parameter {} has no data'.format(parameter['parName']))
+            if parameter['parType'] == 'string':
+                result.append('{}'.format(parameter['parData']))
+            else:
+                result.append(self._typed(parameter['parName'], parameter['parData'], parameter['parType']).item())
+
+        return result
+
     def save_sdds(self, fileName, dataMode='ascii'):
         """
         Saves the parameters and columns to file. Parameters and columns are written to the file in the order
@@ -684,53 +732,38 @@ class writeSDDS:
             Write mode for the file. Data will either be written to the file in ascii or binary mode.
         """
 
-        self.dataMode = dataMode
-        outputFile = open(fileName, 'wb')
+        if dataMode not in ('ascii', 'binary'):
+            raise ValueError('Data mode {} is not defined'.format(dataMode))
+        # Everything that may be refused is checked before the file is touched
+        column_data = self._column_table()
+        parameter_data = self._parameter_values()
 
-        # Verify Column Data Integrity
-        if len(self.columns) > 1:
-            try:
-                column_data = np.column_stack([columns['colData'] for columns in self.columns])
-            except ValueError:
-                print('ERROR: All columns on a page must have same length')
-                return
-        elif len(self.columns) == 1:
-            column_data = self.columns[0]['colData']
-        else:
-            column_data = np.empty([0])
-
-        # Begin header writeout
-        self._write_header(outputFile)
-
-        # Write row count. Write 0 if no rows.
-        if self.dataMode == 'binary':
-            # Row count precedes parameter entries in a binary file
-            outputFile.write(pack('I', column_data.shape[0]))
-
-        # Write Parameters
-        for parameter in self.parameters:
-            # Pass if fixed_value used (parData will be None)
-            if parameter['parData'] is not None:
+        self.dataMode = dataMode
+        with open(fileName, 'wb') as outputFile:
+            # Begin header writeout
+            self._write_header(outputFile)
+
+            # Write row count. Write 0 if no rows.
+            if self.dataMode == 'binary':
+                # Row count precedes parameter entries in a binary file
+                outputFile.write(pack('I', column_data.shape[0]))
+
+            # Write Parameters
+            parameters = [p for p in self.parameters if p['parFixedVal'] is None]
+            for parameter, value in zip(parameters, parameter_data):
                 if self.dataMode == 'ascii':
-                        outputFile.write('{}\n'.format(parameter['parData']).encode())
-                if self.dataMode == 'binary':
-                        outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]),
-                                              parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']))
-
-        # Write row count. Write 0 if no rows.
-        if self.dataMode == 'ascii':
-            # Row count follows parameter entries in an ascii file
-            # Should not appear in ascii if 0
-            if column_data.shape[0]:
-                outputFile.write('{}\n'.format(column_data.shape[0]).encode())
+                    outputFile.write('{}\n'.format(value).encode())
+                elif parameter['parType'] == 'string':
+                    outputFile.write(pack('=i', len(value.encode())) + value.encode())
+                else:
+                    outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]), value))
 
-        # Write Columns
-        if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data)
-        elif self.dataMode == 'binary':
-            column_data.tofile(outputFile)
-            # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-        else:
-            print("NOT A DEFINED DATA TYPE")
+            # Row count follows parameter entries in an ascii file. Should not appear in ascii if there are no columns
+            if self.dataMode == 'ascii' and self.columns:
+                outputFile.write('{}\n'.format(column_data.shape[0]).encode())
 
-        outputFile.close()
+            # Write Columns
+            if self.columns and self.dataMode == 'ascii':
+                np.savetxt(outputFile, column_data, fmt=[self.column_format[c['colType']] for c in self.columns])
+            elif self.columns:
+                outputFile.write(column_data.tobytes())
-- 
2.43.0


From ef49f0e6dffea1609be2fc2a81d3132696632a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 11/69] fix: computing the variance of a 6D array overwrites
 its first particle

---
 rsbeams/rsstats/stats6d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index e9c4d67..760782f 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -24,7 +24,7 @@ def sub_avg6d(array6D):
 
 def calc_variance6d(array6D):
     npoints = array6D.shape[1]
-    avgIter = array6D[:,0]
+    avgIter = array6D[:,0].astype(float)
     varIter = scipy.zeros(6)
     for nLoop in range(1,npoints):
         tmpData  = array6D[:,nLoop]
-- 
2.43.0


From 8527a8e51e95f745cfcee26eb4424a1596266c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 12/69] fix: betay of a bunch cannot be set independently of
 betax

---
 rsbeams/rsptcls/bunch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 7b66c10..5cf85f0 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -124,7 +124,7 @@ class StandardBunch(object):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
@@ -170,7 +170,7 @@ class StandardBunch(object):
         if alphax is not None:
             self.alphax = alphax
         if betay is not None:
-            self.betax = betay
+            self.betay = betay
         if alphay is not None:
             self.alphay = alphay
         if emitx is not None:
@@ -407,7 +407,7 @@ class NonlinearBunch(StandardBunch):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From ab0497465589197725e20314091abfa01c42f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 13/69] fix: the seed of a bunch is ignored and omitting it
 reseeds the caller's generator

---
 rsbeams/rsptcls/bunch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 5cf85f0..d82c9a7 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -94,10 +94,10 @@ class StandardBunch(object):
         self.dpop = dpop
 
         #define seed
+        self.seed = seed
         if seed is not None:
-            self.seed = seed
-        else:
-            self.seed = random.seed()
+            random.seed(seed)
+            np.random.seed(random.randrange(2**32))
 
         #create particles array
         self.particles = np.zeros((npart,7))
-- 
2.43.0


From b9b249f1a56779d3b3972ced3ea3459fe58f494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 14/69] fix: setting the cutoff of a nonlinear bunch raises
 NameError

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index d82c9a7..db4b8e9 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -383,7 +383,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cval < 0:
+        if cutoff < 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
-- 
2.43.0


From 6d15c969e1f9ac3a38de8ae51696e1a6f8496cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 15/69] fix: quiet start moves particles off their design shell
 if alpha is not zero

---
 rsbeams/rsptcls/bunch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index db4b8e9..811ae92 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -290,13 +290,13 @@ class StandardBunch(object):
     def exact_centroids(self, ptclCoords, phaseSpaceList):
         """Sets the centroid of the distribution in phase space to be zero - providing a quieter injection."""
 
-        translation1 = np.array([-1,1,-1,1])
-        translation2 = np.array([-1,-1,-1,-1])
-        translation3 = np.array([1,-1,1,-1])
+        # Mirror the positions in normal coordinates, where the momentum is sqrt(beta)*p + alpha*x/sqrt(beta)
+        x, px, y, py = ptclCoords
 
-        ptcl1 = ptclCoords * translation1
-        ptcl2 = ptclCoords * translation2
-        ptcl3 = ptclCoords * translation3
+        ptcl1 = np.array([-x, px + 2. * self.alphax * x / self.betax,
+                          -y, py + 2. * self.alphay * y / self.betay])
+        ptcl2 = -ptclCoords
+        ptcl3 = -ptcl1
 
         phaseSpaceList.append(ptcl1)
         phaseSpaceList.append(ptcl2)
-- 
2.43.0


From 974dab176b968da18713e4fb6b5f62df24f42c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 16/69] fix: sampling leaves its bounds at the ends of the CDF
 and Halton sampling is not deterministic

---
 rsbeams/rsstats/sample.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 8252dc7..033c133 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -89,17 +89,18 @@ def sample(n: int, distribution: callable, a: int, b: int,
     if method == 'random':
         y = np.random.random(n)
     elif method == 'halton':
-        sampler = stats.qmc.Halton(d=1, scramble=True)
-        y = sampler.random(n=n)
+        sampler = stats.qmc.Halton(d=1, scramble=False)
+        y = sampler.random(n=n).ravel()
     else:
         raise NotImplementedError(f'{method} is not supported for method')
 
     if invert == 'numeric':
         samples = np.searchsorted(cdf_vals, y)
-        return x[samples]
+        # Rounding can leave the last value of the CDF below 1
+        return x[np.minimum(samples, wn - 1)]
     elif invert == 'interpolate':
         icdf = interpolate.interp1d(cdf_vals, x, kind='cubic', fill_value='extrapolate')
-        samples = icdf(y)
+        samples = np.clip(icdf(y), min(a, b), max(a, b))
         return samples
     else:
         raise NotImplementedError(f'{invert} is not supported for invert')
-- 
2.43.0


From 964571bf3e2c6025e26606b9370b2af4c2ba4a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 17/69] fix: a refused phase space array is kept and a new one
 leaves a stale particle count

---
 rsbeams/rsptcls/RsPhaseSpace6D.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/RsPhaseSpace6D.py b/rsbeams/rsptcls/RsPhaseSpace6D.py
index ffa92ad..147074f 100644
--- a/rsbeams/rsptcls/RsPhaseSpace6D.py
+++ b/rsbeams/rsptcls/RsPhaseSpace6D.py
@@ -58,9 +58,9 @@ class RsPhaseSpace6D:
         return
 
     def read_array(self):
-        dataObject = numpy.load(self.file_name + '.npz')
-        self.array_6d = dataObject['a']
-        self.check_array()
+        with numpy.load(self.file_name + '.npz') as dataObject:
+            array_6d = dataObject['a']
+        self.set_array_6d(array_6d)
         return
 
     def check_array(self):
@@ -85,7 +85,14 @@ class RsPhaseSpace6D:
         return self.array_6d
 
     def set_array_6d(self,array_6d):
+        previous = self.array_6d
         self.array_6d = array_6d
+        try:
+            # also updates the number of particles
+            self.check_array()
+        except Exception:
+            self.array_6d = previous
+            raise
         return
 
     def get_array_x(self):
-- 
2.43.0


From 6a5c98bf6bd40671012fe17bdb0b003854ce5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 18/69] fix: Twiss beams with negative alpha and equal beta and
 gamma get the opposite tilt

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 2dda3a5..7dd6251 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -205,7 +205,7 @@ class RsDistrib6D:
                 sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
 
-            if alphaII*gMinusB < 0.0: sin_phi = -sin_phi
+            if (alphaII < 0.0) == (gMinusB >= 0.0): sin_phi = -sin_phi
 
             rt_fac = math.sqrt(twissObject.get_emit_rms())
 
-- 
2.43.0


From 1c1b2e04cece04ba8e037c200a8a7c5224ac93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 19/69] fix: calling a kinematic converter again converts units
 of earlier results once more

---
 rsbeams/rsstats/kinematic.py | 38 +++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 2e1f18e..3b98f27 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -138,31 +138,33 @@ class Converter:
         """Run kinematic conversion.
         silent (bool): If True then suppress printout and just return values in dict.
         """
+        # Every call starts from the methods and returns a dictionary of its own
+        outputs = self.outputs.copy()
         # Set beta and gamma based on the input value
         for key, value in self.args.items():
             if value is not None and key in self.startup:
-                self.outputs["input"] = value
-                self.outputs["input_type"] = key
-                self.outputs["beta"], self.outputs["gamma"] = self.startup[key](value)
+                outputs["input"] = value
+                outputs["input_type"] = key
+                outputs["beta"], outputs["gamma"] = self.startup[key](value)
 
         # Find correct unit names for the printout
         if self.args["input_unit"] == "eV":
-            input_unit = "eV" * (self.outputs["input_type"] == 'energy') + \
-                         "eV" * (self.outputs["input_type"] == 'kenergy') + \
-                         "eV/c" * (self.outputs["input_type"] == 'momentum') + \
-                         "m/s" * (self.outputs["input_type"] == 'velocity') + ""
+            input_unit = "eV" * (outputs["input_type"] == 'energy') + \
+                         "eV" * (outputs["input_type"] == 'kenergy') + \
+                         "eV/c" * (outputs["input_type"] == 'momentum') + \
+                         "m/s" * (outputs["input_type"] == 'velocity') + ""
         else:
-            input_unit = "J" * (self.outputs["input_type"] == 'energy') + \
-                         "J" * (self.outputs["input_type"] == 'kenergy') + \
-                         "kg*m/s" * (self.outputs["input_type"] == 'momentum') + \
-                         "" * (self.outputs["input_type"] == 'beta') + \
-                         "m/s" * (self.outputs["input_type"] == 'velocity') + ""
-        self.outputs["input_unit"] = input_unit
+            input_unit = "J" * (outputs["input_type"] == 'energy') + \
+                         "J" * (outputs["input_type"] == 'kenergy') + \
+                         "kg*m/s" * (outputs["input_type"] == 'momentum') + \
+                         "" * (outputs["input_type"] == 'beta') + \
+                         "m/s" * (outputs["input_type"] == 'velocity') + ""
+        outputs["input_unit"] = input_unit
 
         # Set all derived kinematic quantities
-        for key, value in self.outputs.items():
+        for key, value in outputs.items():
             if callable(value):
-                self.outputs[key] = value(**self.outputs)
+                outputs[key] = value(**outputs)
 
         print_string = """
         Based on an input {input_type} of {input} {input_unit}
@@ -178,12 +180,12 @@ class Converter:
         Brho: {brho} T*m
         """
         if self.args['output_unit'] == 'SI':
-            self._unit_convert(input_unit='eV', input_dict=self.outputs)
+            self._unit_convert(input_unit='eV', input_dict=outputs)
 
         if not silent:
-            print(print_string.format(**self.outputs))
+            print(print_string.format(**outputs))
 
-        return self.outputs
+        return outputs
 
     # All start methods used to convert input kinematic quantity to beta and gamma
     @staticmethod
-- 
2.43.0


From 3d62abe349bc0a7de37c943050ea3912e7bca0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 20/69] fix: saving and loading a beamline fails with current
 versions of ruamel.yaml

---
 rsbeams/rslattice/Beamline.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b8215e9..3c8a1e0 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -9,7 +9,7 @@ from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
 from sympy import symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
-from ruamel import yaml
+from ruamel.yaml import YAML
 from collections import UserList
 
 # TODO: Have StructuredBeamline inherit from UserList and remove the sequence attribute and just use self
@@ -126,19 +126,17 @@ class StructuredBeamline(object):
             return the_beamline
 
         beamline = return_elements(self)
+        yaml = YAML()
+        yaml.default_flow_style = False
         with open(filename, "w") as outputfile:
-            yaml.dump(
-                beamline,
-                outputfile,
-                default_flow_style=False,
-                Dumper=yaml.RoundTripDumper,
-            )
+            yaml.dump(beamline, outputfile)
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
             print("Cannot load a new beamline.\nThis StructuredBeamline is not empty.")
             return
-        elements = yaml.load(open(filename, "r"), Loader=yaml.Loader)
+        with open(filename, "r") as inputfile:
+            elements = YAML(typ="safe", pure=True).load(inputfile)
 
         def create_beamline(elements, beamline):
             for element in elements:
-- 
2.43.0


From 8245ec25712725f5338350915ae8c09259837fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 21/69] fix: loading a beamline merges its sub-lines

---
 rsbeams/rslattice/Beamline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 3c8a1e0..8ac30a9 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -151,8 +151,9 @@ class StructuredBeamline(object):
                         },
                     )
                 else:
-                    self.add_beamline(name=None)
-                    create_beamline(element, self.sequence[-1])
+                    # names of lines are not saved but must differ to keep their contents apart
+                    beamline.add_beamline(name=f"{beamline.name}_{len(beamline.sequence)}")
+                    create_beamline(element, beamline.sequence[-1])
 
         create_beamline(elements, self)
 
-- 
2.43.0


From 40c91283a28ae48e0e467d50198d11546106f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 22/69] fix: decoherence worker pool is not released if a turn
 fails

---
 rsbeams/rsphysics/decoherence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsphysics/decoherence.py b/rsbeams/rsphysics/decoherence.py
index 0c205e5..92ddc95 100644
--- a/rsbeams/rsphysics/decoherence.py
+++ b/rsbeams/rsphysics/decoherence.py
@@ -167,7 +167,9 @@ class CentroidPosition:
             integration_function = self.integrate_any_order
 
         x = range(self.N)
-        results = pool.map(integration_function, x)
-        pool.close()
+        try:
+            results = pool.map(integration_function, x)
+        finally:
+            pool.close()
 
         return results
-- 
2.43.0


From 29f786f94c39387c11dfc3c8e99d70222f1ea24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 23/69] fix: OPAL step 0 cannot be selected

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 25670ba..ff4988b 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -69,7 +69,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
     """
 
     with h5.File(file_name, 'r') as pcdata:
-        if not step_number:
+        if step_number is None:
             # Use last step in the file
             all_step_numbers = []
             for key in pcdata.keys():
-- 
2.43.0


From 324ff7d26c7b9ec24fb95b07bf90e4d41081011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 24/69] fix: exporting without a species name ignores the first
 registered species

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index ff4988b..f50f16f 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -289,7 +289,7 @@ class Switchyard:
         """.format(sn=_DEFAULT_SPECIES_NAME)
 
         if not species_name:
-            species_name = _DEFAULT_SPECIES_NAME
+            species_name = next(iter(self.species), _DEFAULT_SPECIES_NAME)
 
         self._writers[code](filename, species_name, **kwargs)
 
-- 
2.43.0


From 8732e7c6262b6c7aea5d47bdbabc2e2466528f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 25/69] fix: detect torn lines while counting rows and skipping
 comments in growing ASCII SDDS files

---
 rsbeams/rsdata/SDDS.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 0bd6335..58f0cd0 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -299,11 +299,12 @@ class readSDDS:
                 # Blank lines and comments may separate pages and follow the last page
                 while True:
                     pointer = self.openf.tell()
-                    line = self.openf.readline()
+                    line = self._read_ascii_line()
                     if not line:
                         return True
                     elif line.strip() and not line.lstrip().startswith(b'!'):
                         break
+                self._torn_line = False
 
             self.openf.seek(pointer)
 
@@ -321,10 +322,11 @@ class readSDDS:
         else:
             start_position = self.openf.tell()
             while True:
-                line = self.openf.readline()
+                line = self._read_ascii_line()
                 if not line.strip():
                     # Without row count the last page ends with the file
-                    self._last_page = not line
+                    self._last_page = not line.endswith(b'\n')
+                    self._torn_line = False
                     self.openf.seek(start_position)
                     return line_count
                 elif not line.lstrip().startswith(b'!'):
@@ -409,16 +411,22 @@ class readSDDS:
         if self._columns:
             self._columns.concat()
 
-    def _ascii_lines(self):
+    def _read_ascii_line(self):
         # A line may lack its end only at the end of the file. If the file is being appended to in the meantime
         #  then what follows is the rest of that line.
-        while True:
-            line = self.openf.readline()
-            if not line:
-                return
+        line = self.openf.readline()
+        if line:
             if self._torn_line:
                 raise EOFError('File is changing inside of an SDDS page')
             self._torn_line = not line.endswith(b'\n')
+
+        return line
+
+    def _ascii_lines(self):
+        while True:
+            line = self._read_ascii_line()
+            if not line:
+                return
             yield line
 
     def _read_records(self, data_type, count, position, delimiter=None):
-- 
2.43.0


From c203aba9e731da73cda91d1babcd8c94c8ea7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 26/69] fix: elegant files holding a single particle cannot be
 imported

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index f50f16f..f541c58 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -28,7 +28,7 @@ def read_elegant(file_name: str) -> Species:
 
     read_particle_data = readSDDS(file_name)
     read_particle_data.read()
-    sdds_data = read_particle_data.columns.squeeze()
+    sdds_data = np.atleast_1d(read_particle_data.columns.squeeze())
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except ValueError:
-- 
2.43.0


From 00eda0fcdb30469bf9ff0d25b9cd9b7f759f9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 27/69] fix: Genesis export writes the charge of an OPAL bunch
 as a rounded list

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index f541c58..cfd8d04 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -258,7 +258,7 @@ class Switchyard:
 
         header = ''
         header += '? VERSION = '+version + '\n'
-        header += '? CHARGE = '+str(self.species[species_name].total_charge) + '\n'
+        header += '? CHARGE = '+str(np.squeeze(self.species[species_name].total_charge)) + '\n'
         header += '? SIZE = '+str(len(X)) + '\n'
         header += '? COLUMNS X PX Y PY T P' + '\n'
 
-- 
2.43.0


From f37bea741a33c1269458763572ec1f3aa3e96291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 28/69] fix: an element refused for lack of a sub-line stays
 registered in the beamline

---
 rsbeams/rslattice/Beamline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 8ac30a9..330e6a7 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -74,6 +74,11 @@ class StructuredBeamline(object):
         Returns:
 
         """
+        if subline:
+            assert isinstance(
+                self.sequence[-1], StructuredBeamline
+            ), "Last element is not type StructuredBeamline \
+                                                                      subline must be false"
         if element_name in self.elements:
             if self._verbosity > 1:
                 print("Element {} already exists. Inserting copy.".format(element_name))
@@ -83,10 +88,6 @@ class StructuredBeamline(object):
             self.elements[element_name] = the_element
         the_element._beamline = self._top
         if subline:
-            assert isinstance(
-                self.sequence[-1], StructuredBeamline
-            ), "Last element is not type StructuredBeamline \
-                                                                      subline must be false"
             self.sequence[-1].sequence.append(the_element)
         else:
             self.sequence.append(the_element)
-- 
2.43.0


From 776b00b3a0719e80c42abe0cb40ac05b9eccb2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 29/69] fix: lattice files that end with a comment line cannot
 be parsed

---
 rsbeams/rslattice/lte_parser.py     | 1 +
 rsbeams/rslattice/trace3d_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b222001..c04a1a7 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -283,6 +283,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == '!':
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 120b78f..db61344 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == self.comment_character:
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From 8273a43d492214dfe01a9165c8b9143046d04acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 30/69] fix: Trace3D lattices cannot be parsed and their last
 element is left out

---
 rsbeams/rslattice/trace3d_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index db61344..2230e6d 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -121,6 +121,9 @@ class Trace3d(BeamlineParser):
 
     }
 
+    # elements that are added by a method instead of by the table above
+    handlers = {}
+
     def __init__(self, filename, beamline_name):
         super(Trace3d, self).__init__(filename, beamline_name)
         self.comment_character = ';'
@@ -185,7 +188,7 @@ class Trace3d(BeamlineParser):
                 lines.append(i)
 
         self.beamline_start_position = np.min(lines)
-        self.beamline_end_position = np.max(lines)
+        self.beamline_end_position = np.max(lines) + 1
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
-- 
2.43.0


From 5edfc65c8355a9d576b2c7b880b805aa3c663fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 31/69] fix: elements of a line used repeatedly are added to
 each of its uses

---
 rsbeams/rslattice/lte_parser.py               |  6 ++++-
 .../rslattice/templates/lattice_importer.py   | 24 ++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index c04a1a7..73ef266 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -155,7 +155,11 @@ class BeamlineParser(object):
                 # Set beamline_string to be new beamline
                 beamline_string = self.lines[element_name]
                 beamline_string = beamline_string[1:]  # Consume opening '('
-                self.beamline.add_beamline(name=element_name)
+                # The line is parsed again for each use so it must not be added to the contents of an earlier use
+                line_name = element_name
+                if line_name in self.beamline.lines:
+                    line_name = '{}_{}'.format(element_name, len(self.beamline.sequence))
+                self.beamline.add_beamline(name=line_name)
                 flag_subline = True
                 continue
 
diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index d692cba..f22a0ff 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -74,20 +74,16 @@ def parse_json(sirepo_json, beamline):
     def generate_beamline(items, beamline, definition):
         for item in items:
             if abs(item) in beamline_definitions.keys():
-                beamline.add_beamline(beamline_definitions[abs(item)]["name"])
-                if item >= 0:
-                    generate_beamline(
-                        beamline_definitions[item]["items"],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
-                else:
-                    item = abs(item)
-                    generate_beamline(
-                        beamline_definitions[item]["items"][::-1],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
+                name = beamline_definitions[abs(item)]["name"]
+                sub_items = beamline_definitions[abs(item)]["items"]
+                if item < 0:
+                    # Not the same line as the one in regular order
+                    name = "-" + name
+                    sub_items = sub_items[::-1]
+                is_new = name not in beamline.lines
+                beamline.add_beamline(name)
+                if is_new:
+                    generate_beamline(sub_items, beamline.lines[name], definition)
             else:
                 element = element_defitions[item]
                 element_minus_special = {
-- 
2.43.0


From be1d00cecdb04f6eb7e49b2c982d499f38b825fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 32/69] fix: emittances set on a nonlinear bunch are ignored by
 waterbag and Gaussian distributions

---
 rsbeams/rsptcls/bunch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 811ae92..47f193d 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -456,6 +456,10 @@ class NonlinearBunch(StandardBunch):
         if cutoff is not None:
             self.cutoff = cutoff
 
+        #The total emittance follows the planar emittances unless the distribution adjusts it
+        if emitx is not None or emity is not None:
+            self.emit = self.emitx + self.emity
+
         if self.dist == 'KV':
             self.distribute_KV()
 
-- 
2.43.0


From a59bf7fd5e1097da09923a01a6a6ebb56aca0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 33/69] fix: an interrupted Gaussian distribution leaves a
 wrong emittance in the bunch

---
 rsbeams/rsptcls/bunch.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 47f193d..a540d85 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -599,9 +599,6 @@ class NonlinearBunch(StandardBunch):
         The method of generating particle coordinates remains simular to that used for the K-V distribution.
 
         """
-        # Copy the emittance value temporarily. It will be needed to reset the bunch attribute after fitting.
-        bunch_emittance = self.emit
-
         # Generate particles by creating trials and finding particles with potential less than emittance, then assign the rest to momentum
         ptclsMade = 0
         phaseSpaceList = []
@@ -618,12 +615,11 @@ class NonlinearBunch(StandardBunch):
 
             # Generate some bounds on the transverse size to reduce waste in generating the bunch
             # Use the lemming method to find the maximum y
-            newH = bunch_emittance*trialH #must modify the original bunch emtitance here
+            newH = self.emit*trialH
             y0 = np.sqrt(newH)
 
-            self.emit = newH #temporarily reset emittance for computing ymax on a particle by particle basis
-
-            yMax = newton(self.whatsleft, y0)
+            #compute ymax on a particle by particle basis
+            yMax = newton(lambda yHat: newH - self.compute_potential(0, yHat), y0)
 
             #bounding the horizontal coordinate is difficult, but it should not exceed the pole
             xMax = self.c
@@ -655,9 +651,6 @@ class NonlinearBunch(StandardBunch):
             else:
                 print("Initial value generated exceeds limiting H. Sampling new value.")
 
-        #Completed distribution, so reset emittance
-        self.emit = bunch_emittance
-
         self.particles[:,:4] = np.asarray(phaseSpaceList)
 
 
-- 
2.43.0


From c29d5aa377d5f3f18720a557093767bc92c5ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 34/69] fix: exporting a beamline to Warp again leaves out its
 elements

---
 rsbeams/rslattice/formatted_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 2a0b81d..916903d 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -58,6 +58,7 @@ class WarpWriter:
         contents = "import warp as wp\n"
         line_contents = self.line_template.format(line_name=self.beamline.name)
         elements = self.beamline.get_beamline_elements()
+        self.element_names = []
         
         # Write element definitions
         for ele in elements:
-- 
2.43.0


From 01bacb5166184d3f418cef6465c6fcaee5adf9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 35/69] fix: changing the aperture parameter of a nonlinear
 insert raises NameError

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index fc05677..807c607 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -67,7 +67,7 @@ class NonlinearInsert(object):
     def c(self, cval):
         if cval < 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
-        self._c = c
+        self._c = cval
 
     def generate_sequence(self):
         """Generates arrays containing the knll and cnll values for each nllens element"""
-- 
2.43.0


From 46d98b69c627ea5e37fe778b40753604ab403d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 36/69] fix: longitudinal phase space of a file without charge
 cannot be plotted

---
 rsbeams/rsplot/beam_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index c71e97a..92cada3 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -175,7 +175,7 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
                 normalized_charge = True
-        except KeyError:
+        except (KeyError, ValueError):
             print(
                 "Warning: No charge data found in SDDS file. Using normalized counts."
             )
-- 
2.43.0


From e32719e7362e5a596fd0df0d3550853913d7ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 37/69] fix: scatter and logarithmic particle plots fail with
 current versions of matplotlib

---
 rsbeams/rsplot/plot_ptcls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8cac9cb..fadf7c8 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -109,17 +109,17 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
         toRemove, = ax.plot(x_plot[:,0], x_plot[:,1], c='w')
         ax.scatter(x_plot[:,0], x_plot[:,1], marker='.', c='k')
-        ax.lines.remove(toRemove)
+        toRemove.remove()
 
     if plot_flag.endswith('line'):
         ax.plot(x_plot[:,0], x_plot[:,1], c='k')
 
     if plot_flag in ['line', 'scatter', 'scatter-line']:
         if plot_type in ['log-log', 'semi-logx']:
-            ax.set_xscale('log', nonposx='mask')
+            ax.set_xscale('log', nonpositive='mask')
 
         if plot_type in ['log-log', 'semi-logy']:
-            ax.set_yscale('log', nonposy='mask')
+            ax.set_yscale('log', nonpositive='mask')
 
         if plot_type in ['linear', 'semi-logy']:
             ax.set_xscale('linear')
-- 
2.43.0


From 353cb70403d13cc5aa6481db5f8a435f75eb6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 38/69] fix: labels of scatter plots are cut to six characters

---
 rsbeams/rsplot/RsScatterPS6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index 3c04a08..4cc8e58 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -29,7 +29,7 @@ class RsScatterPS6D:
 
         self.data6d = phaseSpace6D.get_array_6d()
 
-        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'])
+        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'], dtype=object)
         self.title='no plot title specified'
         self.figNum = 0
         return
-- 
2.43.0


From dbbd2ba6e8a3511ff94ff449935e2f9ac3d58a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 39/69] fix: scatter plots of a beam are drawn into figures of
 other beams

---
 rsbeams/rsplot/RsScatterPS6D.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index 4cc8e58..933f870 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -73,8 +73,7 @@ class RsScatterPS6D:
         else:
             v_min = -v_max
 
-        self.figNum += 1
-        pyplot.figure(self.figNum)
+        self.figNum = pyplot.figure().number
         pyplot.scatter(h_array, v_array, marker=',',s=1, c='k')
         pyplot.axis([h_min, h_max, v_min, v_max])
 
@@ -88,13 +87,20 @@ class RsScatterPS6D:
         pyplot.show()
         return
 
+    def select_figure(self):
+        if pyplot.fignum_exists(self.figNum):
+            pyplot.figure(self.figNum)
+        return
+
     def clear_plots(self):
+        self.select_figure()
         pyplot.clf()
         pyplot.cla()
         pyplot.close()
         return
 
     def save_plots(self,file_name):
+        self.select_figure()
         pyplot.savefig(file_name, bbox_inches='tight')
         pyplot.clf()
         pyplot.cla()
-- 
2.43.0


From d193e585181f063b1b0a54bdc4fdff7190712997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 40/69] fix: magnets of ASCII files are missing in beamline
 profiles

---
 rsbeams/rsplot/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 7fc19d0..4697c69 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -90,6 +90,9 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
 
     for i in range(sdds_columns.shape[-1]):
         element_type = sdds_columns['ElementType'][i]
+        if isinstance(element_type, bytes):
+            # text read from ASCII files
+            element_type = element_type.decode('latin-1')
 
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
-- 
2.43.0


From 08463ac8ea4cdcb53d39ec712ef4e2b52a1d7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 41/69] fix: SDDS metadata with quotes, backslashes or a comma
 at the end are read back as written

---
 rsbeams/rsdata/SDDS.py      | 15 ++++++++++++---
 rsbeams/rsdata/datatypes.py |  2 +-
 rsbeams/rsdata/utils.py     |  2 ++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 58f0cd0..9bb5a15 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -538,6 +538,15 @@ parameterAttributeStr = {'parName': ['name=', '{}'], 'parType': ['type=', '{}'],
                          'parDescription': ['description=', '"{}"'], 'parFixedVal': ['fixed_value=', '{}']}
 
 
+def _escape(value):
+    # A quoted entry of the header ends at the first quote that is not escaped
+    return str(value).replace('\\', '\\\\').replace('"', '\\"')
+
+
+def _format_attribute(template, value):
+    return template.format(_escape(value) if '"' in template else value)
+
+
 class writeSDDS:
     """
     Implements an SDDS class in Python.
@@ -646,7 +655,7 @@ class writeSDDS:
             if type(parFixedVal) in [float, int]:
                 pass
             elif type(parFixedVal) == str:
-                parFixedVal = '"{}"'.format(parFixedVal)
+                parFixedVal = '"{}"'.format(_escape(parFixedVal))
 
         parameter_data = {'parName': parName, 'parData': parData, 'parType': parType, 'parUnits': parUnits,
                           'parSymbol': parSymbol, 'parFormatStr': parFormatStr, 'parDescription': parDescription,
@@ -664,7 +673,7 @@ class writeSDDS:
             for key, value in parameter.items():
                 if (key in parameterAttributeStr.keys()) and (value or (key == 'parFixedVal' and value is not None)):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
-                                                                                          value=parameterAttributeStr[key][1].format(value))))
+                                                                                          value=_format_attribute(parameterAttributeStr[key][1], value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
             parameterString = ''
 
@@ -674,7 +683,7 @@ class writeSDDS:
                     # split logic to avoid the hassle of testing existance of arrays separately
                     if value:
                         columnString = ''.join((columnString, '{field}{value}, '.format(field=columnAttributeStr[key][0],
-                                                                    value=columnAttributeStr[key][1].format(value))))
+                                                                    value=_format_attribute(columnAttributeStr[key][1], value))))
             outputFile.write('&column {} &end\n'.format(columnString).encode())
             columnString = ''
 
diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index 2c192ee..9305b68 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -22,7 +22,7 @@ class Datum:
             for entry in namelist:
                 if name in entry[: len(name)]:
                     start = entry.find("=")
-                    self.fields[name] = entry[start + 1 :].rstrip(",")
+                    self.fields[name] = entry[start + 1 :]
 
     def set_data_type(self):
         data_type = self.fields["type"]
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 577d8ef..d2c6ffe 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -33,6 +33,8 @@ def _shlex_split(line):
     lex = shlex.shlex(line, posix=True)
     lex.quotes = '"'
     lex.whitespace_split = True
+    # Entries are separated by commas, those inside of quotes belong to the value
+    lex.whitespace += ','
     lex.commenters = ''
 
     return list(lex)
-- 
2.43.0


From 7ebd4e1d239c85c72f1c9acbac1cc8c1f4e6883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 42/69] fix: read non-ASCII text of SDDS files as it was
 written

---
 rsbeams/rsdata/struct_data.py |  8 ++++++--
 rsbeams/rsdata/utils.py       | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index e3db84d..adab634 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -1,4 +1,5 @@
 import numpy as np
+from .utils import decode
 
 
 class StructData:
@@ -57,8 +58,11 @@ class StructData:
             new_array = np.empty(1, dtype=self.data_type)
             for arr in data:
                 names = [n for n in arr.dtype.names if n != 'record_length']
-                if names:
-                    new_array[names] = arr[names]
+                for name in names:
+                    if arr.dtype[name].kind == 'S':
+                        new_array[name] = [decode(text) for text in arr[name].reshape(-1)]
+                    else:
+                        new_array[name] = arr[name]
             return new_array
 
     def _check_type(self, data): #Next: Need to look at adjusting string size each time up to maximum? Probably just don't merge'
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d2c6ffe..98031ea 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -18,10 +18,18 @@ def _return_type(string):
     return None
 
 
+def decode(text):
+    # writeSDDS uses UTF-8, files from other sources may use any 8 bit encoding
+    try:
+        return str(text, 'utf-8')
+    except UnicodeDecodeError:
+        return str(text, 'latin-1')
+
+
 def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
-        line = str(open_file.readline(), 'latin-1')
+        line = decode(open_file.readline())
         if not line.endswith('\n'):
             raise EOFError('File ends inside of the SDDS header')
     return line
-- 
2.43.0


From e48ccb21ef75022cc8114d45ff7a3ef4492b7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 43/69] fix: refuse SDDS text that cannot be stored before the
 file is touched

---
 rsbeams/rsdata/SDDS.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 9bb5a15..25b1954 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -730,7 +730,10 @@ class writeSDDS:
             if parameter['parData'] is None:
                 raise ValueError('Parameter {} has no data'.format(parameter['parName']))
             if parameter['parType'] == 'string':
-                result.append('{}'.format(parameter['parData']))
+                text = '{}'.format(parameter['parData'])
+                if self.dataMode == 'ascii' and '\n' in text:
+                    raise ValueError('Parameter {} must not contain a line break in ASCII mode'.format(parameter['parName']))
+                result.append(text.encode())
             else:
                 result.append(self._typed(parameter['parName'], parameter['parData'], parameter['parType']).item())
 
@@ -752,13 +755,15 @@ class writeSDDS:
         if dataMode not in ('ascii', 'binary'):
             raise ValueError('Data mode {} is not defined'.format(dataMode))
         # Everything that may be refused is checked before the file is touched
+        self.dataMode = dataMode
         column_data = self._column_table()
         parameter_data = self._parameter_values()
+        header = BytesIO()
+        self._write_header(header)
 
-        self.dataMode = dataMode
         with open(fileName, 'wb') as outputFile:
             # Begin header writeout
-            self._write_header(outputFile)
+            outputFile.write(header.getvalue())
 
             # Write row count. Write 0 if no rows.
             if self.dataMode == 'binary':
@@ -769,9 +774,9 @@ class writeSDDS:
             parameters = [p for p in self.parameters if p['parFixedVal'] is None]
             for parameter, value in zip(parameters, parameter_data):
                 if self.dataMode == 'ascii':
-                    outputFile.write('{}\n'.format(value).encode())
+                    outputFile.write((value if parameter['parType'] == 'string' else '{}'.format(value).encode()) + b'\n')
                 elif parameter['parType'] == 'string':
-                    outputFile.write(pack('=i', len(value.encode())) + value.encode())
+                    outputFile.write(pack('=i', len(value)) + value)
                 else:
                     outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]), value))
 
-- 
2.43.0


From 53ba04681ef6195083461fb106992b7efbfef440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 44/69] fix: fixed values of type float are read as text

---
 rsbeams/rsdata/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index 9305b68..cbda3a3 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -58,7 +58,7 @@ class Parameter(Datum):
         if fixed_value:
             if data_type in ["short", "long"]:
                 self.fields["fixed_value"] = int(fixed_value)
-            elif data_type == "double":
+            elif data_type in ["float", "double"]:
                 self.fields["fixed_value"] = float(fixed_value)
             elif data_type in ["string", "char"]:
                 try:
-- 
2.43.0


From 79ef5de4ca6f3ab6b9173df59ef933788f7e7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 45/69] fix: TraceWin FREQ lines are loaded as elements and the
 frequency is lost

---
 rsbeams/rslattice/trace3d_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 2230e6d..6215a05 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -245,7 +245,7 @@ class TraceWin(Trace3d):
         'dtl_cell': ['L', 'LQ1', 'LQ2', 'GC', 'B1', 'B2', 'VOLT', 'PHASE', 'R', 'P', 'BETA_S', 'T_S', 'KTS', 'K2TS'],
         'marker': [],
         'rfca': ['MODE', 'N', 'BETA', 'VOLT', 'PHASE', 'R', 'P', 'KE0TI', 'KE0TO', 'DZI', 'DZO'],
-        'freq': ['FREQUENCY', ],
+        'freq': ['frequency', ],
         'field_map': ['TYPE', 'L', 'PHASE', 'R', 'KB', 'KE', 'KI', 'KA', 'FILE']
     }
 
-- 
2.43.0


From d090b5bc1752584b51d7ae3836899e16d3d23636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 46/69] fix: Trace3D and TraceWin numbers lose the sign of
 integers and their exponent

---
 rsbeams/rslattice/trace3d_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 6215a05..c565669 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -3,6 +3,9 @@ import numpy as np
 from scipy.constants import c
 from re import findall
 
+# A number with optional sign, fraction and exponent
+NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
+
 # lengths: mm
 # quad strength: T/m
 # bend angles: deg
@@ -154,7 +157,7 @@ class Trace3d(BeamlineParser):
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-        values = findall(r"[-+]?\d*\.\d+|\d+", line[val_end:])
+        values = findall(NUMBER, line[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
@@ -335,7 +338,7 @@ class TraceWin(Trace3d):
         self.name_count = 0  # TRACEWIN doesn't name elements
 
     def get_element_parameters(self, line, type):
-        values = findall(r"[-+]?\d*\.\d+|\d+", line)
+        values = findall(NUMBER, line)
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From 5134be5c5d46ffa4036657fb8acf79b710da42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 47/69] fix: type of an LTE element without parameters may lose
 its last character

---
 rsbeams/rslattice/lte_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 73ef266..43f0f82 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -243,6 +243,9 @@ class BeamlineParser(object):
 
         type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
         type_end = beamline_string.find(',')
+        if type_end < 0:
+            # The element has no parameters
+            type_end = len(beamline_string)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
-- 
2.43.0


From d92e1465125bf1d7bb28f0cb12d67de1ad407ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 48/69] fix: beamline matrices ignore the parameters of the
 elements

---
 rsbeams/rslattice/Beamline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 330e6a7..2112aae 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -241,11 +241,13 @@ class StructuredBeamline(object):
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
+                # Parameter names are stored in lower case, the symbols of the matrices are upper case
+                parameter = symbols(key.upper())
                 if type(val) == str:
                     variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(key, val)
+                    elements[-1] = elements[-1].subs(parameter, variables[val])
                 else:
-                    elements[-1] = elements[-1].subs(key, val)
+                    elements[-1] = elements[-1].subs(parameter, val)
 
         if concatenate:
             matrix = elements[-1]
-- 
2.43.0


From 68dd3cab96b5ead3d793a1e97dd357debef48ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 49/69] fix: lines within a reversed line of a Sirepo lattice
 are not reversed

---
 rsbeams/rslattice/templates/lattice_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index f22a0ff..ca4ad86 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -79,7 +79,11 @@ def parse_json(sirepo_json, beamline):
                 if item < 0:
                     # Not the same line as the one in regular order
                     name = "-" + name
-                    sub_items = sub_items[::-1]
+                    # Lines within a reversed line are reversed as well
+                    sub_items = [
+                        -i if abs(i) in beamline_definitions else i
+                        for i in sub_items[::-1]
+                    ]
                 is_new = name not in beamline.lines
                 beamline.add_beamline(name)
                 if is_new:
-- 
2.43.0


From 0f30252deddb0270ed40ef56771b8a1451ce32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 50/69] fix: membership and get of element parameters depend on
 the case of the name

---
 rsbeams/rslattice/Element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index add72ae..87e98d0 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -58,6 +58,12 @@ class AgnosticDict(dict):
         if type(key) == str:
             dict.__setitem__(self, key.lower(), val)
 
+    def __contains__(self, key):
+        return dict.__contains__(self, key.lower() if type(key) == str else key)
+
+    def get(self, key, default=None):
+        return dict.get(self, key.lower() if type(key) == str else key, default)
+
 
 class Element(object):
     """
-- 
2.43.0


From 58d31a5dcc05cf6e6bf2d0a6308b1baf39ef72e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 51/69] fix: a beta function of zero is set before it is
 refused

---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index a540d85..efbc7fc 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -115,7 +115,7 @@ class StandardBunch(object):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -126,7 +126,7 @@ class StandardBunch(object):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
@@ -393,7 +393,7 @@ class NonlinearBunch(StandardBunch):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -409,7 +409,7 @@ class NonlinearBunch(StandardBunch):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
-- 
2.43.0


From fbf91b20a8dfe04aff463435211e8d65e0ccaf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 52/69] fix: gamma of a nonlinear bunch in y is computed from
 alpha in x

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index efbc7fc..8d33cb4 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -401,7 +401,7 @@ class NonlinearBunch(StandardBunch):
 
         #betax should be the same as betay
         self._betay = bet
-        self._gammay = (1 + self._alphax**2) / self._betax
+        self._gammay = (1 + self._alphay**2) / self._betay
 
 
     @property
-- 
2.43.0


From 099875005d0d8fdf01c3fa8b8114991fb8758443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 53/69] fix: the mass of a kinematic conversion is reported in
 the unit named beside it

---
 rsbeams/rsstats/kinematic.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 3b98f27..050ddac 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -116,19 +116,17 @@ class Converter:
                         "input_unit": None,
                         "input_type": None}
 
-        # Match mass unit to input units. Print mass in units the user used for input though.
+        # Internally the mass is in eV. It is reported in the unit the user gave it in.
         if self.args['mass_unit'] == "eV":
             if self.args['mass']:
-                self.mass = self.args['mass'] * (
-                            1 * (self.args['input_unit'] == 'eV') + 1 / ev_per_kg * (self.args['input_unit'] == 'SI'))
+                self.mass = self.args['mass']
                 self.outputs["mass"] = self.args['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev
         elif self.args['mass_unit'] == "SI":
             if self.args['mass'] is not None:
-                self.mass = self.args['mass'] * (1 * (self.args['input_unit'] == 'SI') + ev_per_kg * (
-                            self.args['input_unit'] == 'eV'))
+                self.mass = self.args['mass'] * ev_per_kg
                 self.outputs["mass"] = self.args['mass']
             else:
                 self.mass = m_e_ev
@@ -295,8 +293,7 @@ class Converter:
         conversion_factors = {
             'momentum': 1 / e * c,
             'energy': 1 / e,
-            'kenergy': 1 / e,
-            'mass': 1 / e * c**2
+            'kenergy': 1 / e
         }
         for key in conversion_factors:
             # print(key, input_dict[key], (conversion_factors[key]), 2 * (input == 'SI') - 1)
-- 
2.43.0


From 56d33ecdc9d05c40122c5231e577438068cf3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 54/69] fix: spaces in the start of an lte beamline definition
 make it an element

---
 rsbeams/rslattice/lte_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 43f0f82..96aeb29 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -8,6 +8,7 @@ Translate element types to OPAL from elegant syntax.
 # TODO: Add a beamline length parameter
 # TODO: Add a copy function
 
+import re
 import numpy as np
 digits = '0123456789'
 
@@ -310,6 +311,10 @@ class BeamlineParser(object):
                 print("Line continuation concatenation may have failed.")
                 raise
 
+            # Spaces do not matter in the start of a beamline definition
+            self.lattice_definition[linenumber] = \
+                re.sub(r'(:\s*line)\s*=\s*\(', r'\1=(', self.lattice_definition[linenumber])
+
             if self.lattice_definition[linenumber].lstrip()[0] == '%':
                 variable = self.lattice_definition[linenumber].split()
                 self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]))
-- 
2.43.0


From 421444e6bd0cc78f84896950655389638fb7e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 55/69] fix: lte variables are replaced within names of
 elements and parameters

---
 rsbeams/rslattice/lte_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 96aeb29..641f919 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -324,11 +324,16 @@ class BeamlineParser(object):
         Replace any variables stored in rpn_variable with their calculated value.
         """
 
-        for linenumber in range(len(self.lattice_definition)):
-            for key in self.rpn_variables:
-                if self.lattice_definition[linenumber].find(key):
-                    self.lattice_definition[linenumber] = \
-                        self.lattice_definition[linenumber].replace(key, str(self.rpn_variables[key]))
+        def replace_word(word):
+            return str(self.rpn_variables.get(word.group(), word.group()))
+
+        def replace_value(value):
+            return re.sub(r'[^\s"\'=]+', replace_word, value.group())
+
+        # Only values may hold variables. Names of elements and parameters are kept.
+        for linenumber, line in enumerate(self.lattice_definition):
+            if 'line=(' not in line:
+                self.lattice_definition[linenumber] = re.sub(r'=\s*("[^"]*"|\'[^\']*\'|[^,]*)', replace_value, line)
 
     def _read_name(self, line):
         end = line.find(':')
-- 
2.43.0


From fa5bec5189bbc82f868769760a5994f5345fb1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 56/69] fix: quoted separators end the type or the values of an
 lte element

---
 rsbeams/rslattice/lte_parser.py | 35 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 641f919..3b2e7f7 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -171,9 +171,8 @@ class BeamlineParser(object):
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
-                line = line.replace('"', '')
-                line = line.replace('\'', '')
-                if line.lstrip().find('{}:'.format(element_name)) == 0:
+                unquoted = line.replace('"', '').replace('\'', '')
+                if unquoted.lstrip().find('{}:'.format(element_name)) == 0:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
@@ -242,34 +241,20 @@ class BeamlineParser(object):
         :return:
         """
 
-        type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
-        type_end = beamline_string.find(',')
-        if type_end < 0:
-            # The element has no parameters
-            type_end = len(beamline_string)
-
-        element_type = beamline_string[type_start + 1:type_end].strip()
-        beamline_string = beamline_string[type_end + 1:]
+        # Separators may be part of quoted names and values
+        definition, parameters = re.match(r'((?:"[^"]*"|\'[^\']*\'|[^,])*),?(.*)', beamline_string, re.DOTALL).groups()
+        element_type = definition.rpartition(':')[2].strip().strip('"\'')
 
         element_parameters = {}
 
         # Iterate through 'keyword' parameters of the element
-        while beamline_string.partition('=')[1]:
-            beamline_string = beamline_string.partition('=')
-            key = beamline_string[0].strip()
-
+        for key, value in re.findall(r'([^\s,=]+)\s*=\s*("[^"]*"|\'[^\']*\'|[^,]*)', parameters):
             try:
-                element_parameters[key] = parse_rpn(beamline_string[2])
+                element_parameters[key] = parse_rpn(value)
             except ValueError:
-                beamline_string = beamline_string[2].partition(',')
-                try:
-                    element_parameters[key] = parse_rpn(beamline_string[0])
-                except ValueError:
-                    # TODO: This allows setting of non-numeric parameters (which do occur),
-                    # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0]
-
-            beamline_string = beamline_string[2]
+                # TODO: This allows setting of non-numeric parameters (which do occur),
+                # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
+                element_parameters[key] = value.strip().strip('"\'')
 
         return element_type, element_parameters
 
-- 
2.43.0


From 31bf36a7ee82cd21e92945feb2832cfdaac0fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 57/69] fix: an lte element is taken for one whose quoted name
 continues with a colon

---
 rsbeams/rslattice/lte_parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 3b2e7f7..67233e2 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -171,8 +171,7 @@ class BeamlineParser(object):
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
-                unquoted = line.replace('"', '').replace('\'', '')
-                if unquoted.lstrip().find('{}:'.format(element_name)) == 0:
+                if self._read_name(line) == element_name:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
@@ -321,12 +320,13 @@ class BeamlineParser(object):
                 self.lattice_definition[linenumber] = re.sub(r'=\s*("[^"]*"|\'[^\']*\'|[^,]*)', replace_value, line)
 
     def _read_name(self, line):
-        end = line.find(':')
+        # Names with separators are quoted
+        name = re.match(r'\s*("[^"]*"|\'[^\']*\'|[^,=]*)\s*:', line)
 
-        if end < 0:
+        if name is None:
             return -1
 
-        return line[0:end].strip('"')
+        return name.group(1).strip().strip('"\'')
 
 
 def parse_rpn(expression):
-- 
2.43.0


From 12d2b2e6dad07bca621a38ef0f8dde002934ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 58/69] fix: the central momentum is taken for the energy when
 lattices are converted to Warp

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5562560..5740661 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -50,7 +50,7 @@ def elegant_to_warp(input_file_path, output_file_path, beamline_name):
 
 
     beamline = parse_json(sim_dat, beamline_name)
-    _parameter_conversions(beamline=beamline, energy=p_central_mev, flip_sign=True)
+    _parameter_conversions(beamline=beamline, energy=central_energy, flip_sign=True)
     writer = WarpWriter(beamline, input_simulation_type)
     writer.write_file(output_file_path)
     
-- 
2.43.0


From 3c8648a30a9535e1c70a55fb69a8953148882f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 59/69] fix: sextupole gradients are scaled by the square of
 the rigidity when lattices are converted to Warp

---
 rsbeams/pkcli/lattice.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5740661..4a6395c 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -7,18 +7,17 @@ from scipy.constants import c, e, physical_constants, m_e
 m_e_mev = physical_constants['electron mass energy equivalent in MeV'][0] * 1e6
 
 
-def _get_gradient(k1, energy, mass, n=1):
+def _get_gradient(k1, energy, mass):
     """
-    K1 (float): Quadrupole normalized strength in m^-(n+1)
+    K1 (float): Normalized strength in m^-(n+1) of a multipole of order n (n=1: quadrupole, n=2: sextupole, ...)
     energy (float): total energy in eV
     mass (float): mass in eV/c^2
-    n (int) [default=1]: Order of multipole (n=1: quadrupole, n=2: sextupole, ...)
     """
     gamma = energy / mass
     beta = np.sqrt(1 - 1 / gamma ** 2)
     e_momentum = beta * gamma * (mass * e / c**2) * c  # beta * gamma * mass[kg] * c[m/s]
     b_rho = e_momentum / (1 * e)  # kg*m/s / C  == T*m
-    gradient = k1 * b_rho**n
+    gradient = k1 * b_rho
     return gradient
 
 def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
@@ -29,7 +28,7 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
         elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
         elif ele.type == 'sext':
-            ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass, n=2)
+            ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass)
 
 # Public Functions
 
-- 
2.43.0


From 0530ad724ae50a0c0c48a2e43ea0e62f466f3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 60/69] fix: all cavities of a Trace3D beamline get the phase
 of the last one

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index c565669..6df04ae 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -236,8 +236,8 @@ class Trace3d(BeamlineParser):
                     self.beamline.edit_element(i + 1, ['L',], [0.0,])
                     self.beamline.edit_element(i, ['L', ], [L, ])
 
-        for cav in cavities:
-            self.beamline.edit_element(cav, ['phase']*len(phases), phases)
+        for cav, phase in zip(cavities, phases):
+            self.beamline.edit_element(cav, 'phase', phase)
 
 
 class TraceWin(Trace3d):
-- 
2.43.0


From fa9f7c92005a38a986cdbc235cb14b2c20a1bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 61/69] fix: nested groups in an lte beamline are expanded
 without end

---
 rsbeams/rslattice/lte_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 67233e2..6e7336d 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -209,7 +209,13 @@ class BeamlineParser(object):
         # Case 1: Starts with (
         if beamline_string[0] == '(':
             beamline_string = beamline_string[1:]  # Consume '('
-            subline_end = beamline_string.find(')')
+            # The group may hold other groups
+            subline_end, depth = 0, 1
+            while True:
+                depth += {'(': 1, ')': -1}.get(beamline_string[subline_end], 0)
+                if depth == 0:
+                    break
+                subline_end += 1
 
             for _ in range(coefficient):
                 subline += beamline_string[:subline_end]
-- 
2.43.0


From cdccac9d88f632523a2f9cd69ef6ed7d03636440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 62/69] fix: spaces around the equal sign of SDDS header
 entries change their values

---
 rsbeams/rsdata/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 98031ea..c0a93b3 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -1,3 +1,4 @@
+import re
 import shlex
 import numpy as np
 # TODO: Find sdds use case with 'short' type
@@ -38,6 +39,8 @@ def _read_line(open_file):
 def _shlex_split(line):
     # Cannot just use shlex.split
     # Need to ignore single-quotes due to their use as common characters in accelerator notation
+    # Spaces around the equal sign do not matter but those inside of quotes do
+    line = re.sub(r'("(?:[^"\\]|\\.)*")|\s*=\s*', lambda match: match.group(1) or '=', line)
     lex = shlex.shlex(line, posix=True)
     lex.quotes = '"'
     lex.whitespace_split = True
-- 
2.43.0


From 12bd8e1d3ea111dcf84d6efb114d515b504f779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 63/69] fix: the transfer matrix of a quadrupole without
 strength is not a number

---
 rsbeams/rslattice/Beamline.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 2112aae..35c1fa1 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,7 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
-from sympy import symbols, cosh, sinh, sqrt, lambdify
+from sympy import symbols, cosh, sinh, sqrt, lambdify, Eq, Piecewise
 from sympy.matrices import Matrix
 from ruamel.yaml import YAML
 from collections import UserList
@@ -20,6 +20,11 @@ from collections import UserList
 #     def append(self, item: _T) -> None:
 
 
+def _sinh_ratio(k, length):
+    # There is a limit for vanishing strength
+    return Piecewise((length, Eq(k, 0)), (sinh(sqrt(k) * length) / sqrt(k), True))
+
+
 class StructuredBeamline(object):
     """
     Holds Element objects and may contain other StructuredBeamline objects.
@@ -31,9 +36,9 @@ class StructuredBeamline(object):
         # Transverse matrices for elements
         "quadrupole": Matrix(
             (
-                [cosh(sqrt(-K1) * L), sinh(sqrt(-K1) * L) / sqrt(-K1), 0, 0],
+                [cosh(sqrt(-K1) * L), _sinh_ratio(-K1, L), 0, 0],
                 [sqrt(-K1) * sinh(sqrt(-K1) * L), cosh(sqrt(-K1) * L), 0, 0],
-                [0, 0, cosh(sqrt(K1) * L), sinh(sqrt(K1) * L) / sqrt(K1)],
+                [0, 0, cosh(sqrt(K1) * L), _sinh_ratio(K1, L)],
                 [0, 0, sqrt(K1) * sinh(sqrt(K1) * L), cosh(sqrt(K1) * L)],
             )
         ),
-- 
2.43.0


From da6554678ce08c483f5f4360a5dc81e1224c2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 64/69] fix: the transfer matrix as a function of real
 strengths is not a number

---
 rsbeams/rslattice/Beamline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 35c1fa1..ef493eb 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -10,6 +10,7 @@ from .Element import Element
 from sympy import symbols, cosh, sinh, sqrt, lambdify, Eq, Piecewise
 from sympy.matrices import Matrix
 from ruamel.yaml import YAML
+import numpy as np
 from collections import UserList
 
 # TODO: Have StructuredBeamline inherit from UserList and remove the sequence attribute and just use self
@@ -261,7 +262,12 @@ class StructuredBeamline(object):
             elements = matrix
 
         if len(variables) > 0:
-            eval_matrix = lambdify([val for val in variables.values()], elements)
+            # The root is taken of strengths of either sign
+            eval_matrix = lambdify(
+                [val for val in variables.values()],
+                elements,
+                modules=[{"sqrt": np.emath.sqrt}, "numpy"],
+            )
             return eval_matrix, elements
         else:
             return elements
-- 
2.43.0


From 694d829898e48a213d6fda975f9b1db3eedd5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 65/69] fix: updating and removing element parameters depends
 on the case of their names

---
 rsbeams/rslattice/Element.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index 87e98d0..ec43a38 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -64,6 +64,19 @@ class AgnosticDict(dict):
     def get(self, key, default=None):
         return dict.get(self, key.lower() if type(key) == str else key, default)
 
+    def __delitem__(self, key):
+        dict.__delitem__(self, key.lower() if type(key) == str else key)
+
+    def pop(self, key, *default):
+        return dict.pop(self, key.lower() if type(key) == str else key, *default)
+
+    def setdefault(self, key, default=None):
+        return dict.setdefault(self, key.lower() if type(key) == str else key, default)
+
+    def update(self, *args, **kwargs):
+        for key, val in dict(*args, **kwargs).items():
+            self[key] = val
+
 
 class Element(object):
     """
-- 
2.43.0


From d937a03ce61ecb6b3951637898e2b5fae8ee34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 66/69] fix: an OPAL step without charge cannot be read

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index cfd8d04..1447bda 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -86,7 +86,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         for i, coord in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
             particle_data[:, i] = pcdata[loc+'/'+coord]
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
-        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) else pcdata[loc].attrs.get('CHARGE')
+        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) is not None else pcdata[loc].attrs.get('CHARGE')
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
 
     # TODO: This shouldn't be specific to electrons
-- 
2.43.0


From bd16def1c85f4b84b10b7d693a8370d324912022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 67/69] fix: a nonlinear insert can be created with a negative
 aperture parameter

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index 807c607..97f421e 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -55,7 +55,7 @@ class NonlinearInsert(object):
         self.length = length
         self.phase = phase
         self.t = t
-        self._c = c
+        self.c = c
         self.num_slices = num_slices
 
     # Define c property which maintains a positive definite value
-- 
2.43.0


From 2c0a3620bdf10d043d4b4cd8df40b4965a4d670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 68/69] fix: blank lines with spaces or a carriage return end
 the reading of an SDDS header with an error

---
 rsbeams/rsdata/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index c0a93b3..624976d 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -29,7 +29,7 @@ def decode(text):
 
 def _read_line(open_file):
     line = ''
-    while line == '\n' or line == '' or line[0] == '!':
+    while not line.strip() or line[0] == '!':
         line = decode(open_file.readline())
         if not line.endswith('\n'):
             raise EOFError('File ends inside of the SDDS header')
-- 
2.43.0


From a718219991efe10e049d7b049a515728bb7e4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 69/69] fix: comments of a Trace3D lattice are taken for
 element types and parameters

---
 rsbeams/rslattice/trace3d_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 6df04ae..7401052 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -1,7 +1,7 @@
 from .Beamline import StructuredBeamline
 import numpy as np
 from scipy.constants import c
-from re import findall
+from re import findall, sub
 
 # A number with optional sign, fraction and exponent
 NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
@@ -195,6 +195,8 @@ class Trace3d(BeamlineParser):
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
+            # The text of a comment may look like any other part of the definition
+            line = sub(r"(cmt\([^)]*\)\s*=\s*)'[^']*'", r"\1''", line)
             name = self.get_element_name(line)
             type = self.get_element_type(line)
             parameters = self.get_element_parameters(line, type)
-- 
2.43.0

