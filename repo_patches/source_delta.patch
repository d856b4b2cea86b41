From 9545e20c53fffeb6efc8c4e2318e4f456e23b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 01/49] fix: open_workbook expands '~' in the path as
 inspect_format does

open_workbook('~/x.xls') inspected the expanded path and then failed to open the unexpanded one.
---
 xlrd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 84d5f26..afb981e 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -163,6 +163,8 @@ def open_workbook(filename=None,
     :returns: An instance of the :class:`~xlrd.book.Book` class.
     """
 
+    if not file_contents:
+        filename = os.path.expanduser(filename)
     file_format = inspect_format(filename, file_contents)
     # We have to let unknown file formats pass through here, as some ancient
     # files that xlrd can parse don't start with the expected signature.
-- 
2.43.0


From f386dbfce52788378940d89e07c049dbcd150059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 02/49] fix: dump and count_records release the input file

They left the memory map of the input file open, when they returned and when they raised.
---
 xlrd/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index afb981e..2c4303d 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -197,8 +197,11 @@ def dump(filename, outfile=sys.stdout, unnumbered=False):
     """
     from .biffh import biff_dump
     bk = Book()
-    bk.biff2_8_load(filename=filename, logfile=outfile, )
-    biff_dump(bk.mem, bk.base, bk.stream_len, 0, outfile, unnumbered)
+    try:
+        bk.biff2_8_load(filename=filename, logfile=outfile, )
+        biff_dump(bk.mem, bk.base, bk.stream_len, 0, outfile, unnumbered)
+    finally:
+        bk.release_resources()
 
 
 def count_records(filename, outfile=sys.stdout):
@@ -211,5 +214,8 @@ def count_records(filename, outfile=sys.stdout):
     """
     from .biffh import biff_count_records
     bk = Book()
-    bk.biff2_8_load(filename=filename, logfile=outfile, )
-    biff_count_records(bk.mem, bk.base, bk.stream_len, outfile)
+    try:
+        bk.biff2_8_load(filename=filename, logfile=outfile, )
+        biff_count_records(bk.mem, bk.base, bk.stream_len, outfile)
+    finally:
+        bk.release_resources()
-- 
2.43.0


From 8e209ee94233b4e1bd2b4d0c1db30f5732147cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 03/49] fix: refuse a circular short-sector chain

A loop in the short-sector allocation table made _get_stream run for ever, collecting memory.
---
 xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..2cbc66c 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -306,6 +306,8 @@ class CompDoc(object):
         else:
             todo = size
             while s >= 0:
+                if len(sectors) > len(sat):
+                    raise CompDocError("OLE2 stream %r: circular sector chain" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
-- 
2.43.0


From 8d851e724080db568ac7b1886290b4724d0ea31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 04/49] fix: refuse a stream that a truncated file has lost a
 middle part of

When the file ended inside a sector that is not the last one of its stream, the sectors after it
were moved up to fill the gap, so the workbook was read wrongly without any error.
---
 xlrd/compdoc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 2cbc66c..89dd4d6 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -294,6 +294,8 @@ class CompDoc(object):
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
                 start_pos = base + s * sec_size
+                if sectors and len(sectors[-1]) < sec_size:
+                    raise CompDocError("OLE2 stream %r: file is truncated" % name)
                 sectors.append(mem[start_pos:start_pos+sec_size])
                 try:
                     s = sat[s]
@@ -313,6 +315,8 @@ class CompDoc(object):
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
                     self.seen[s] = seen_id
                 start_pos = base + s * sec_size
+                if sectors and todo and len(sectors[-1]) < sec_size:
+                    raise CompDocError("OLE2 stream %r: file is truncated" % name)
                 grab = sec_size
                 if grab > todo:
                     grab = todo
@@ -444,6 +448,8 @@ class CompDoc(object):
                 # start new slice
                 if p >= 0:
                     # not first time
+                    if end_pos > len(mem):
+                        raise CompDocError("%s: file is truncated" % qname)
                     slices.append((start_pos, end_pos))
                 start_pos = base + s * sec_size
                 end_pos = start_pos + sec_size
-- 
2.43.0


From 4131185ab2cd522be0dd30e0e0de49fc78fd49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 05/49] fix: a lost SAT sector no longer shifts the SAT entries
 after it

If a truncated file lacked a sector of the sector allocation table, the entries of the table's later
sectors were taken for those of the missing one, so chains could lead to wrong sectors silently.
---
 xlrd/compdoc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 89dd4d6..515a15c 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -194,6 +194,7 @@ class CompDoc(object):
                     trunc_warned = 1
                 MSAT[msidx] = EVILSID
                 dump_again = 1
+                self.SAT.extend([EVILSID] * nent) # keep later entries in place
                 continue
             elif msid < -2:
                 raise CompDocError("MSAT: invalid sector id: %d" % msid)
-- 
2.43.0


From 0fcd49dfe432d4df09580835589affa3b564b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 06/49] fix: phonetic data of a shared string may span several
 CONTINUE records

Only one record boundary was skipped, after which the rest of the table was misread.
---
 xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..52682f7 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1461,7 +1461,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1470,5 +1470,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 22a52c99f48d703cddf2f14fc90ecfa0070cdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 07/49] fix: a shared string may be split inside a surrogate
 pair

Each piece was decoded on its own, so a pair split across CONTINUE records raised UnicodeDecodeError.
---
 xlrd/book.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 52682f7..3a5b587 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1413,7 +1413,7 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        accraw = b'' # UTF-16; a surrogate pair may straddle two records
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1422,25 +1422,22 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
+                # Can fail on dodgy data e.g. unfinished surrogate pair.
+                # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
+                # unichr(i) for i in range(0x100000)
+                # so this will include 0xD800 etc
+                accstrg = unicode(accraw, "utf_16_le")
                 break
             datainx += 1
             data = datatab[datainx]
-- 
2.43.0


From f7323f864895d065f70813b6be93a4269e56a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 08/49] fix: the text of a comment may be split inside a
 surrogate pair

Each piece was decoded on its own, so a pair split across CONTINUE records raised UnicodeDecodeError.
---
 xlrd/sheet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..83632e2 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -2027,7 +2027,7 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        rawtext = b'' # UTF-16; a surrogate pair may straddle two records
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2038,10 +2038,11 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+                rawtext += data2[1:]
+            else:
+                rawtext += unicode(data2[1:], 'latin_1').encode('utf_16_le')
             totchars += nchars
+        o.text = unicode(rawtext, 'utf_16_le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 936a4779e9c69bc6b14cff2656b7241bc1d123a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 09/49] fix: string formula results with astral or multi-byte
 characters

The length in a STRING record counts UTF-16 code units (BIFF8) or bytes (earlier versions), but was
compared with the number of characters decoded, and each piece was decoded on its own.
---
 xlrd/sheet.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 83632e2..b2f06f0 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1515,18 +1515,24 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
+        # nchars_* count UTF-16 code units (BIFF8) or bytes (earlier), not characters
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        raw = b''
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+                chunk = data[offset:]
+                if not flag:
+                    chunk = unicode(chunk, "latin_1").encode("utf_16_le")
+                enc = "utf_16_le"
+                nchars_found += (len(chunk) + 1) // 2
+            else:
+                chunk = data[offset:]
+                nchars_found += len(chunk)
+            raw += chunk
             if nchars_found == nchars_expected:
-                return result
+                return unicode(raw, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From eff1ff4b291293a13ed24780193b9991a5186234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 10/49] fix: clip a hyperlink's range to the sheet

A damaged range of up to 65536 x 65536 cells was entered into hyperlink_map cell by cell, which took
thousands of millions of steps and all the memory.
---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index b2f06f0..77ebab5 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1857,8 +1857,8 @@ class Sheet(BaseObject):
             raise XLRDError("Bug or corrupt file, send copy of input file for debugging")
 
         self.hyperlink_list.append(h)
-        for rowx in xrange(h.frowx, h.lrowx+1):
-            for colx in xrange(h.fcolx, h.lcolx+1):
+        for rowx in xrange(h.frowx, min(h.lrowx+1, self.utter_max_rows)):
+            for colx in xrange(h.fcolx, min(h.lcolx+1, self.utter_max_cols)):
                 self.hyperlink_map[rowx, colx] = h
 
     def handle_quicktip(self, data):
-- 
2.43.0


From d7b9cc25cb33b3dcb2e329399ecdc2827a9f770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 11/49] fix: workbook stream with a directory entry number
 above 249

The marks in CompDoc.seen were unsigned bytes, so a workbook whose directory entry had a number over 249
raised OverflowError.
---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 515a15c..4646e60 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From de351cae325decb114cb1615a962b5d5fc4543c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 12/49] fix: hyperlink URLs with astral characters

The length of the URL was taken to be two bytes per character, so one outside the BMP made loading the
sheet fail with AssertionError.
---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 77ebab5..05a7302 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1789,7 +1789,7 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From 212dc478cabb725f612fdc99f836c3b12360c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 13/49] fix: bound the walk of the directory tree

A degenerate tree of about a thousand entries exceeded the recursion limit, and a damaged one whose
entries shared subtrees took time exponential in the number of entries.
---
 xlrd/compdoc.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 4646e60..52c3ba1 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -62,13 +62,24 @@ class DirNode(object):
             print("timestamp info", self.tsinfo, file=self.logfile)
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
-    if child_DID < 0: return
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
-    dirlist[parent_DID].children.append(child_DID)
-    dirlist[child_DID].parent = parent_DID
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
-    if dirlist[child_DID].etype == 1: # storage
-        _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
+    # In-order walk; not recursive, as a degenerate tree can be as deep as
+    # there are directory entries.
+    pending = []
+    while pending or child_DID >= 0:
+        if child_DID >= 0:
+            child = dirlist[child_DID]
+            if child.parent != -1:
+                raise CompDocError("OLE2 directory: entry %d is met twice" % child_DID)
+            child.parent = parent_DID
+            pending.append((parent_DID, child_DID))
+            child_DID = child.left_DID
+            continue
+        parent_DID, done_DID = pending.pop()
+        done = dirlist[done_DID]
+        dirlist[parent_DID].children.append(done_DID)
+        if done.etype == 1: # storage
+            _build_family_tree(dirlist, done_DID, done.root_DID)
+        child_DID = done.right_DID
 
 
 class CompDoc(object):
-- 
2.43.0


From aafe56475bd8ecb687f81272fc8aca9e7ad02a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 14/49] fix: names referring to a name that is local to a macro
 or chart sheet

The negative scope of such a name was used as an index of the list of sheets, giving the name of
another sheet or an IndexError that made the workbook unreadable.
---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..3b0b486 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1142,7 +1142,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(tgtobj.stack) == 1
                 res = copy.deepcopy(tgtobj.stack[0])
             res.rank = LEAF_RANK
-            if tgtobj.scope == -1:
+            if tgtobj.scope < 0:
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
@@ -1321,7 +1321,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     assert len(tgtobj.stack) == 1
                     res = copy.deepcopy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
-                if tgtobj.scope == -1:
+                if tgtobj.scope < 0:
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
@@ -1666,7 +1666,7 @@ def decompile_formula(bk, fmla, fmlalen,
             # Only change with BIFF version is number of trailing UNUSED bytes!
             if blah: print("   tgtnamex=%d" % tgtnamex, file=bk.logfile)
             tgtobj = bk.name_obj_list[tgtnamex]
-            if tgtobj.scope == -1:
+            if tgtobj.scope < 0:
                 otext = tgtobj.name
             else:
                 otext = "%s!%s" % (bk._sheet_names[tgtobj.scope], tgtobj.name)
@@ -1849,7 +1849,7 @@ def decompile_formula(bk, fmla, fmlalen,
                         % (tgtnamex, origrefx)
             else:
                 tgtobj = bk.name_obj_list[tgtnamex]
-                if tgtobj.scope == -1:
+                if tgtobj.scope < 0:
                     otext = tgtobj.name
                 else:
                     otext = "%s!%s" \
-- 
2.43.0


From 98f0265cc5a86a8fc16da004cba075b1b006f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 15/49] fix: worksheet stream of BIFF 4 or earlier inside a
 compound document

The sheet was looked for at offset 0 of the file instead of at the start of the stream.
---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 3a5b587..6083fd7 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -725,7 +725,7 @@ class Book(BaseObject):
         formatting.initialise_book(self)
         fake_sheet_name = UNICODE_LITERAL('Sheet 1')
         self._sheet_names = [fake_sheet_name]
-        self._sh_abs_posn = [0]
+        self._sh_abs_posn = [self.base]
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
-- 
2.43.0


From 43425e0eda90ebcd437cba57abe93b2d81dcff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 16/49] fix: refuse a short stream whose sector chain is
 shorter than its length

---
 xlrd/compdoc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 52c3ba1..2af7a4d 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -421,13 +421,13 @@ class CompDoc(object):
                 dump_list(self.seen, 20, self.logfile)
             return result
         else:
-            return (
-                self._get_stream(
-                    self.SSCS, 0, self.SSAT, self.short_sec_size, d.first_SID,
-                    d.tot_size, qname + " (from SSCS)", None),
-                0,
-                d.tot_size,
-            )
+            result = self._get_stream(
+                self.SSCS, 0, self.SSAT, self.short_sec_size, d.first_SID,
+                d.tot_size, qname + " (from SSCS)", None)
+            if len(result) < d.tot_size:
+                raise CompDocError("%r stream: expected size %d, actual size %d"
+                    % (qname, d.tot_size, len(result)))
+            return (result, 0, d.tot_size)
 
     def _locate_stream(self, mem, base, sat, sec_size, start_sid, expected_stream_size, qname, seen_id):
         # print >> self.logfile, "_locate_stream", base, sec_size, start_sid, expected_stream_size
-- 
2.43.0


From e5a51029f919c9e34a30cde6bba48bf8017577a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 17/49] fix: inspect one version of a file that is replaced
 while it is inspected

---
 xlrd/__init__.py | 50 ++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 2c4303d..0c1f166 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -53,32 +53,32 @@ def inspect_format(path=None, content=None):
        The return value can always be looked up in :data:`FILE_FORMAT_DESCRIPTIONS`
        to return a human-readable description of the format found.
     """
-    if content:
-        peek = content[:PEEK_SIZE]
-    else:
+    if not content:
         path = os.path.expanduser(path)
-        with open(path, "rb") as f:
-            peek = f.read(PEEK_SIZE)
-
-    if peek.startswith(XLS_SIGNATURE):
-        return 'xls'
-
-    if peek.startswith(ZIP_SIGNATURE):
-        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = {name.replace('\\', '/').lower(): name
-                           for name in zf.namelist()}
-
-        if 'xl/workbook.xml' in component_names:
-            return 'xlsx'
-        if 'xl/workbook.bin' in component_names:
-            return 'xlsb'
-        if 'content.xml' in component_names:
-            return 'ods'
-        return 'zip'
+
+    # The file is opened only once: what the path leads to may change meanwhile.
+    with timemachine.BYTES_IO(content[:PEEK_SIZE]) if content else open(path, "rb") as f:
+        peek = f.read(PEEK_SIZE)
+
+        if peek.startswith(XLS_SIGNATURE):
+            return 'xls'
+
+        if peek.startswith(ZIP_SIGNATURE):
+            zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else f)
+
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = {name.replace('\\', '/').lower(): name
+                               for name in zf.namelist()}
+
+            if 'xl/workbook.xml' in component_names:
+                return 'xlsx'
+            if 'xl/workbook.bin' in component_names:
+                return 'xlsb'
+            if 'content.xml' in component_names:
+                return 'ods'
+            return 'zip'
 
 
 def open_workbook(filename=None,
-- 
2.43.0


From 82d5e1aac77420819fe9d2ef72e61838b5366570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:01 +0000
Subject: [PATCH 18/49] fix: recognise the zero padding at the end of a stream
 that is followed by other sectors

---
 xlrd/biffh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index 07ac629..60a4648 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -559,7 +559,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 dummies = stream_end - pos
                 savpos = pos
                 pos = stream_end
@@ -602,7 +602,7 @@ def biff_count_records(mem, stream_offset, stream_len, fout=sys.stdout):
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 break
             recname = "<Dummy (zero)>"
         else:
-- 
2.43.0


From edfb316d1a770d7cf3655d6def934e670d1d4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 19/49] fix: a sheet's copy of the country codes does not make
 other sheets unreadable

---
 xlrd/sheet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 05a7302..ae7aabc 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1138,7 +1138,10 @@ class Sheet(BaseObject):
                         break
                 if DEBUG: print("---> found EOF", file=self.logfile)
             elif rc == XL_COUNTRY:
-                bk.handle_country(data)
+                # A redundant copy (see Book.handle_country): one damaged sheet
+                # must not change the book or make the other sheets unreadable.
+                if bk.countries == (0, 0):
+                    bk.handle_country(data)
             elif rc == XL_LABELRANGES:
                 pos = 0
                 pos = unpack_cell_range_address_list_update_pos(
-- 
2.43.0


From fb8ea4c86f29fc527a48122856944ad96964d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 20/49] fix: the intersection of disjoint areas in a name is
 #NULL!, not an area

---
 xlrd/formula.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 3b0b486..d8725b9 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -888,7 +888,10 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         assert len(bop.value) == 1
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
-                        res.value = [Ref3D(coords)]
+                        if coords[2] < coords[3] and coords[4] < coords[5]:
+                            res.value = [Ref3D(coords)]
+                        else: # nothing in common: #NULL!
+                            res.kind, res.value = oERR, 0x00
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
                     if aop.value is not None and bop.value is not None:
-- 
2.43.0


From df98158e26d67b1c3cad390fabc6910c1eb0f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 21/49] fix: names whose constant arithmetic has no value (1/0,
 "a"+1), or that negate a reference

---
 xlrd/formula.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index d8725b9..3a48d3e 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -719,8 +719,9 @@ def num2strg(num):
     return s
 
 _arith_argdict = {oNUM: nop,     oSTRG: float}
-_cmp_argdict =   {oNUM: nop,     oSTRG: nop}
-# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
+_cmp_argdict =   {oNUM: lambda x: (0, x), oSTRG: lambda x: (1, x)}
+# Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE:
+# any string is greater than any number.
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
 binop_rules = {
     tAdd:   (_arith_argdict, oNUM, opr.add,  30, '+'),
@@ -796,9 +797,22 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = func(aval, bval)
+            if isinstance(result, complex): # e.g. (-8)^0.5
+                raise OverflowError
+        except (ValueError, ZeroDivisionError, OverflowError) as e:
+            resop.kind = oERR
+            if isinstance(e, ValueError): # string is not a number
+                resop.value = 0x0F # #VALUE!
+            elif isinstance(e, ZeroDivisionError):
+                resop.value = 0x07 # #DIV/0!
+            else:
+                resop.value = 0x24 # #NUM!
+            stk.append(resop)
+            return
         if result_kind == oBOOL:
             result = 1 if result else 0
         resop.value = result
@@ -816,7 +830,16 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             ')'[:aop.rank < rank],
             sym2,
         ])
-        if val is not None:
+        if aop.kind == oERR:
+            result_kind = oERR
+        elif aop.kind == oSTRG and val is not None:
+            try:
+                val = func(float(val))
+            except ValueError:
+                result_kind, val = oERR, 0x0F # #VALUE!
+        elif aop.kind not in (oNUM, oBOOL):
+            val = None # depends on cell data
+        elif val is not None:
             val = func(val)
         stk.append(Operand(result_kind, val, rank, otext))
 
-- 
2.43.0


From cbd305fa46691a0f60f835fe187598f3f6bc0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 22/49] fix: names that combine references to several areas

---
 xlrd/formula.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 3a48d3e..e48e155 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -906,9 +906,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     # res.kind = oREF
                     pass
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if (aop.value is not None and bop.value is not None
+                            and len(aop.value) == len(bop.value) == 1):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         if coords[2] < coords[3] and coords[4] < coords[5]:
@@ -917,9 +916,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             res.kind, res.value = oERR, 0x00
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if (aop.value is not None and bop.value is not None
+                            and len(aop.value) == len(bop.value) == 1):
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
@@ -954,8 +952,6 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if aop.kind == oREL or bop.kind == oREL:
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
                         res.value = aop.value + bop.value
                 else:
                     pass
@@ -981,17 +977,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if (aop.value is not None and bop.value is not None
+                            and len(aop.value) == len(bop.value) == 1):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if (aop.value is not None and bop.value is not None
+                            and len(aop.value) == len(bop.value) == 1):
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
-- 
2.43.0


From e2d186f419ba723f8f387768533851639a6880d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 23/49] fix: names with a CHOOSE whose index depends on cell
 data

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index e48e155..11f11f2 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1131,7 +1131,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From f0e27b8d7ce70df99ef7e5fba753a5db3f326a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:19 +0000
Subject: [PATCH 24/49] fix: names in which a function without arguments
 (ROW()) follows another operand

---
 xlrd/formula.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 11f11f2..0b2f2a8 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1105,7 +1105,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                firstarg = len(stack) - nargs # nargs may be zero, e.g. ROW()
+                argtext = listsep.join(arg.text for arg in stack[firstarg:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1138,7 +1139,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[firstarg:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
@@ -1676,10 +1677,11 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                firstarg = len(stack) - nargs # nargs may be zero, e.g. ROW()
+                argtext = listsep.join(arg.text for arg in stack[firstarg:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                del stack[-nargs:]
+                del stack[firstarg:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 671bd0f61134fd20a1f7d131bfac4026d6398d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:19 +0000
Subject: [PATCH 25/49] fix: names that refer to a name with a call of an
 unknown function

---
 xlrd/formula.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 0b2f2a8..fed5e1e 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1096,6 +1096,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             if not func_attrs:
                 print("*** formula/tFuncVar unknown FuncID:%d"
                       % funcx, file=bk.logfile)
+                assert len(stack) >= nargs
+                del stack[len(stack)-nargs:]
                 spush(unk_opnd)
             else:
                 func_name, minargs, maxargs = func_attrs[:3]
-- 
2.43.0


From b14a4778d4037b56866bb136796f12abb912f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:19 +0000
Subject: [PATCH 26/49] fix: Name.cell() and .area2d() refuse a reference whose
 area is not known

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6083fd7..b4cd6e8 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -209,7 +209,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value is not None and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -246,7 +246,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value is not None and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From d1ce717cf793d191f2fbaa3edf9da34989cca711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 27/49] fix: the window flags of a BIFF 2 sheet are not all set
 (Python 3)

---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index ae7aabc..8d0872c 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1491,7 +1491,7 @@ class Sheet(BaseObject):
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
                     for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                        setattr(self, attr, int(char not in (b'\0', 0)))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From ef9faad5c14ce8fc3f62c6060193c1648d28456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 28/49] fix: the array constant token takes 8 bytes; names that
 use one in an expression did not parse

---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index fed5e1e..765d31b 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -98,10 +98,10 @@ listsep = ',' #### probably should depend on locale
 # -2 means this opcode not implemented in this version.
 # Which N to use? Depends on biff_version; see szdict.
 sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 8, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
-sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
-sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
+sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
+sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
+sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
 
 szdict = {
     20 : sztab0,
-- 
2.43.0


From 73b2cb0acf9649c5528cca0fdc646f9202b31f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 29/49] fix: Books of BIFF 4 and earlier shared one name_map
 and one name_and_scope_map

---
 xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index b4cd6e8..130db8b 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -592,6 +592,8 @@ class Book(BaseObject):
         self.palette_record = []
         self.xf_list = []
         self.style_name_map = {}
+        self.name_map = {}
+        self.name_and_scope_map = {}
         self.mem = b''
         self.filestr = b''
 
-- 
2.43.0


From 2fc9be4784f1ad2a8ff8663bf098e6e91dbba994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:39 +0000
Subject: [PATCH 30/49] fix: at verbosity 2 a short or long FILEPASS record
 raised struct.error, not XLRDError

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 130db8b..8967a97 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -926,10 +926,10 @@ class Book(BaseObject):
             logf = self.logfile
             fprintf(logf, "FILEPASS:\n")
             hex_char_dump(data, 0, len(data), base=0, fout=logf)
-            if self.biff_version >= 80:
+            if self.biff_version >= 80 and len(data) >= 6:
                 kind1, = unpack('<H', data[:2])
                 if kind1 == 0: # weak XOR encryption
-                    key, hash_value = unpack('<HH', data[2:])
+                    key, hash_value = unpack('<HH', data[2:6])
                     fprintf(logf,
                         'weak XOR: key=0x%04x hash=0x%04x\n',
                         key, hash_value)
-- 
2.43.0


From 801f2cd1d4d65a1554f894658d0b32739886942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:52 +0000
Subject: [PATCH 31/49] fix: a STYLE record of BIFF 7 and earlier with a
 zero-length name raised struct.error

---
 xlrd/formatting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..d1447cd 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -635,7 +635,7 @@ def handle_style(book, data):
         return
     blah = DEBUG or book.verbosity >= 2
     bv = book.biff_version
-    flag_and_xfx, built_in_id, level = unpack('<HBB', data[:4])
+    flag_and_xfx, = unpack('<H', data[:2])
     xf_index = flag_and_xfx & 0x0fff
     if data == b"\0\0\0\0" and "Normal" not in book.style_name_map:
         # Erroneous record (doesn't have built-in bit set).
@@ -648,6 +648,7 @@ def handle_style(book, data):
     elif flag_and_xfx & 0x8000:
         # built-in style
         built_in = 1
+        built_in_id, level = unpack('<BB', data[2:4])
         name = built_in_style_names[built_in_id]
         if 1 <= built_in_id <= 2:
             name += str(level + 1)
-- 
2.43.0


From c4519c31a82b600341e0d8fb9d0f7848043e521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:16 +0000
Subject: [PATCH 32/49] fix: number cells whose format the file does not define
 could get the text cell type

---
 xlrd/formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index d1447cd..2d7204a 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -14,7 +14,7 @@ import re
 from struct import unpack
 
 from .biffh import (
-    FDT, FGE, FNU, FTX, FUN, XL_CELL_DATE, XL_CELL_NUMBER, XL_CELL_TEXT,
+    FDT, FGE, FNU, FTX, FUN, XL_CELL_DATE, XL_CELL_NUMBER,
     XL_FORMAT, XL_FORMAT2, BaseObject, XLRDError, fprintf, unpack_string,
     unpack_unicode, upkbits, upkbitsL,
 )
@@ -1037,7 +1037,7 @@ def xf_epilogue(self):
             fmt = self.format_map[xf.format_key]
             cellty = _cellty_from_fmtty[fmt.type]
         except KeyError:
-            cellty = XL_CELL_TEXT
+            cellty = XL_CELL_NUMBER
         self._xf_index_to_xl_type_map[xf.xf_index] = cellty
         # Now for some assertions etc
         if not self.formatting_info:
-- 
2.43.0


From 280d455977eae1e13c88c40222c1407f15729012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:44 +0000
Subject: [PATCH 33/49] fix: at verbosity 2 a conditional format formula with a
 range operator raised AssertionError

---
 xlrd/formula.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 765d31b..d00eb27 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1939,30 +1939,27 @@ def dump_formula(bk, data, fmlalen, bv, reldelta, blah=0, isname=0):
                 if blah: print("  ", (rowx, colx), file=bk.logfile)
             elif opcode == 0x10: # tList
                 if blah: print("tList pre", stack, file=bk.logfile)
-                assert len(stack) >= 2
-                bop = stack.pop()
-                aop = stack.pop()
-                spush(aop + bop)
+                # only 3D references are kept on the stack
+                if len(stack) >= 2:
+                    bop = stack.pop()
+                    aop = stack.pop()
+                    spush(aop + bop)
                 if blah: print("tlist post", stack, file=bk.logfile)
             elif opcode == 0x11: # tRange
                 if blah: print("tRange pre", stack, file=bk.logfile)
-                assert len(stack) >= 2
-                bop = stack.pop()
-                aop = stack.pop()
-                assert len(aop) == 1
-                assert len(bop) == 1
-                result = do_box_funcs(tRangeFuncs, aop[0], bop[0])
-                spush(result)
+                if len(stack) >= 2 and len(stack[-1]) == len(stack[-2]) == 1:
+                    bop = stack.pop()
+                    aop = stack.pop()
+                    result = do_box_funcs(tRangeFuncs, aop[0], bop[0])
+                    spush([Ref3D(result)])
                 if blah: print("tRange post", stack, file=bk.logfile)
             elif opcode == 0x0F: # tIsect
                 if blah: print("tIsect pre", stack, file=bk.logfile)
-                assert len(stack) >= 2
-                bop = stack.pop()
-                aop = stack.pop()
-                assert len(aop) == 1
-                assert len(bop) == 1
-                result = do_box_funcs(tIsectFuncs, aop[0], bop[0])
-                spush(result)
+                if len(stack) >= 2 and len(stack[-1]) == len(stack[-2]) == 1:
+                    bop = stack.pop()
+                    aop = stack.pop()
+                    result = do_box_funcs(tIsectFuncs, aop[0], bop[0])
+                    spush([Ref3D(result)])
                 if blah: print("tIsect post", stack, file=bk.logfile)
             elif opcode == 0x19: # tAttr
                 subop, nc = unpack("<BH", data[pos+1:pos+4])
@@ -2032,7 +2029,7 @@ def dump_formula(bk, data, fmlalen, bv, reldelta, blah=0, isname=0):
             any_err |= shx1 < -1
             coords = (shx1, shx2+1, rowx, rowx+1, colx, colx+1)
             if blah: print("   ", coords, file=bk.logfile)
-            if optype == 1: spush([coords])
+            if optype == 1: spush([Ref3D(coords)])
         elif opcode == 0x1B: # tArea3d
             refx = unpack("<H", data[pos+1:pos+3])[0]
             res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta)
@@ -2044,7 +2041,7 @@ def dump_formula(bk, data, fmlalen, bv, reldelta, blah=0, isname=0):
             any_err |= shx1 < -1
             coords = (shx1, shx2+1, rowx1, rowx2+1, colx1, colx2+1)
             if blah: print("   ", coords, file=bk.logfile)
-            if optype == 1: spush([coords])
+            if optype == 1: spush([Ref3D(coords)])
         elif opcode == 0x19: # tNameX
             refx, namex = unpack("<HH", data[pos+1:pos+5])
             if blah: print("   refx=%d namex=%d" % (refx, namex), file=bk.logfile)
-- 
2.43.0


From 0a132c1ffb76a6e87ca7fa696f1e30bec5d8a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:32 +0000
Subject: [PATCH 34/49] fix: at verbosity 2 a damaged conditional format
 formula kept the file from loading

---
 xlrd/sheet.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 8d0872c..6869c84 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -6,7 +6,7 @@
 from __future__ import print_function
 
 from array import array
-from struct import calcsize, unpack
+from struct import calcsize, error as struct_error, unpack
 
 from .biffh import *
 from .formatting import Format, nearest_colour_index
@@ -1234,13 +1234,21 @@ class Sheet(BaseObject):
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
-                    dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
+                    try:
+                        dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
+                    except (IndexError, UnicodeDecodeError, struct_error) as e:
+                        # this is only a display; the formula isn't used for anything else
+                        fprintf(self.logfile, "*** formula 1 is damaged: %s %s\n", e.__class__.__name__, e)
                 fmla2 = data[pos:pos+sz2]
                 pos += sz2
                 assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
-                    dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
+                    try:
+                        dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
+                    except (IndexError, UnicodeDecodeError, struct_error) as e:
+                        # this is only a display; the formula isn't used for anything else
+                        fprintf(self.logfile, "*** formula 2 is damaged: %s %s\n", e.__class__.__name__, e)
             elif rc == XL_DEFAULTROWHEIGHT:
                 if data_len == 4:
                     bits, self.default_row_height = unpack("<HH", data[:4])
-- 
2.43.0


From 591ee6b02b83dae2377089e3e733cf5984073480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:07 +0000
Subject: [PATCH 35/49] fix: a compound file with just a storage named Workbook
 or Book was refused with CompDocError, not XLRDError

---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 2af7a4d..45ebece 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -361,7 +361,7 @@ class CompDoc(object):
                     return dl[child]
                 if et == 1:
                     if not tail:
-                        raise CompDocError("Requested component is a 'storage'")
+                        continue # a storage, not the stream
                     return self._dir_search(tail, child)
                 dl[child].dump(1)
                 raise CompDocError("Requested stream is not a 'user stream'")
-- 
2.43.0


From a00366f1a9d1bfe41a57d051113444ecf7554cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 36/49] fix: colname raised IndexError beyond column ZZ, which
 kept damaged files from loading with verbosity 1

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index d00eb27..9f64c2f 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2125,7 +2125,7 @@ def colname(colx):
         return alphabet[colx]
     else:
         xdiv26, xmod26 = divmod(colx, 26)
-        return alphabet[xdiv26 - 1] + alphabet[xmod26]
+        return colname(xdiv26 - 1) + alphabet[xmod26]
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-- 
2.43.0


From 3ba68e5664b8b7bb2cd2a52562e75e61d0dba923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:08 +0000
Subject: [PATCH 37/49] fix: a compound document refused to hand the same
 stream out twice

---
 xlrd/compdoc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 45ebece..06afa7d 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -368,6 +368,12 @@ class CompDoc(object):
         return None
 
 
+    def _forget_visit(self, seen_id):
+        # A stream that is asked for again meets its own sectors again;
+        # that's not a corruption.
+        if seen_id in self.seen:
+            self.seen = array.array('i', [0 if x == seen_id else x for x in self.seen])
+
     def get_named_stream(self, qname):
         """
         Interrogate the compound document's directory; return the stream as a
@@ -381,6 +387,7 @@ class CompDoc(object):
         if d is None:
             return None
         if d.tot_size >= self.min_size_std_stream:
+            self._forget_visit(d.DID+6)
             return self._get_stream(
                 self.mem, 512, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, name=qname, seen_id=d.DID+6)
@@ -413,6 +420,7 @@ class CompDoc(object):
             raise CompDocError("%r stream length (%d bytes) > file data size (%d bytes)"
                 % (qname, d.tot_size, self.mem_data_len))
         if d.tot_size >= self.min_size_std_stream:
+            self._forget_visit(d.DID+6)
             result = self._locate_stream(
                 self.mem, 512, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, qname, d.DID+6)
-- 
2.43.0


From aff658d5b27a60273eeee74c9a3de59aa5b83cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:10 +0000
Subject: [PATCH 38/49] fix: get_named_stream('a/b') returned the stream 'a'
 when there is no storage of that name

---
 xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 06afa7d..d06c239 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -358,6 +358,8 @@ class CompDoc(object):
             if dl[child].name.lower() == head.lower():
                 et = dl[child].etype
                 if et == 2:
+                    if tail:
+                        continue # a stream, not the storage
                     return dl[child]
                 if et == 1:
                     if not tail:
-- 
2.43.0


From 4844733076fec7b051d3c5c3e2a810ec5eace4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:53 +0000
Subject: [PATCH 39/49] fix: runxlrd.py failed on every file: xlrd.USE_MMAP is
 no more

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index b284a59..cca6ef2 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -300,7 +300,7 @@ if __name__ == "__main__":
         else:
             logfile = sys.stdout
         mmap_opt = options.mmap
-        mmap_arg = xlrd.USE_MMAP
+        mmap_arg = True
         if mmap_opt in (1, 0):
             mmap_arg = mmap_opt
         elif mmap_opt != -1:
-- 
2.43.0


From c881a881c1bf7c0ab0d4e04909d37056f19d0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:53 +0000
Subject: [PATCH 40/49] fix: runxlrd.py show left out the last row but one of a
 sheet with 65536 rows

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index cca6ef2..9670142 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -166,7 +166,7 @@ if __name__ == "__main__":
                 print_labels(sh, rlabs, 'Row')
             if bk.on_demand: bk.unload_sheet(shx)
 
-    def show(bk, nshow=65535, printit=1):
+    def show(bk, nshow=65536, printit=1):
         bk_header(bk)
         if 0:
             rclist = xlrd.sheet.rc_stats.items()
-- 
2.43.0


From 7392f365b0f648e117d3594faf3f3960213e7085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:53 +0000
Subject: [PATCH 41/49] fix: runxlrd.py labels ended with IndexError where a
 label range goes beyond the cells

---
 scripts/runxlrd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 9670142..87e1906 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -147,7 +147,9 @@ if __name__ == "__main__":
                 % (title, xlrd.cellname(rlo, clo), xlrd.cellname(rhi-1, chi-1)))
             for rx in xrange(rlo, rhi):
                 for cx in xrange(clo, chi):
-                    print("    %s: %r" % (xlrd.cellname(rx, cx), sh.cell_value(rx, cx)))
+                    # Labels need not be where there are cells
+                    here = rx < sh.nrows and cx < sh.row_len(rx)
+                    print("    %s: %r" % (xlrd.cellname(rx, cx), sh.cell_value(rx, cx) if here else null_cell.value))
 
     def show_labels(bk):
         # bk_header(bk)
-- 
2.43.0


From 93e0e74291e5aca53c9d8427b42b04832d3b62ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:30 +0000
Subject: [PATCH 42/49] fix: SUPBOOK sheet names broken inside a name by a
 CONTINUE record made the file unreadable

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 8967a97..dcb9b66 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1119,7 +1119,7 @@ class Book(BaseObject):
         for x in range(num_sheets):
             try:
                 shname, pos = unpack_unicode_update_pos(data, pos, lenlen=2)
-            except struct.error:
+            except (struct.error, IndexError, UnicodeDecodeError):
                 # #### FIX ME ####
                 # Should implement handling of CONTINUE record(s) ...
                 if self.verbosity:
-- 
2.43.0


From 42a83ebda1a4840cb4863569fe219376eb495f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:44 +0000
Subject: [PATCH 43/49] fix: version 4 compound documents (4096-byte sectors)
 were read from wrong offsets

---
 xlrd/compdoc.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index d06c239..00d9f0e 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -122,13 +122,16 @@ class CompDoc(object):
             SSAT_first_sec_sid, SSAT_tot_secs,
             MSATX_first_sec_sid, MSATX_tot_secs,
         ) = unpack('<iiiiiiii', mem[44:76])
-        mem_data_len = len(mem) - 512
+        # The header has 512 bytes. In version 4 documents (4096-byte sectors)
+        # it is padded to the size of a sector.
+        self.base = base = max(512, sec_size) if version == 4 else 512
+        mem_data_len = len(mem) - base
         mem_data_secs, left_over = divmod(mem_data_len, sec_size)
         if left_over:
             #### raise CompDocError("Not a whole number of sectors")
             mem_data_secs += 1
-            print("WARNING *** file size (%d) not 512 + multiple of sector size (%d)"
-                % (len(mem), sec_size), file=logfile)
+            print("WARNING *** file size (%d) not %d + multiple of sector size (%d)"
+                % (len(mem), base, sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
         seen = self.seen = array.array('i', [0]) * mem_data_secs
@@ -176,7 +179,7 @@ class CompDoc(object):
                 actual_MSATX_sectors += 1
                 if DEBUG and actual_MSATX_sectors > expected_MSATX_sectors:
                     print("[1]===>>>", mem_data_secs, nent, SAT_sectors_reqd, expected_MSATX_sectors, actual_MSATX_sectors, file=logfile)
-                offset = 512 + sec_size * sid
+                offset = base + sec_size * sid
                 MSAT.extend(unpack(fmt, mem[offset:offset+sec_size]))
                 sid = MSAT.pop() # last sector id is sid of next sector in the chain
 
@@ -215,7 +218,7 @@ class CompDoc(object):
             actual_SAT_sectors += 1
             if DEBUG and actual_SAT_sectors > SAT_sectors_reqd:
                 print("[3]===>>>", mem_data_secs, nent, SAT_sectors_reqd, expected_MSATX_sectors, actual_MSATX_sectors, actual_SAT_sectors, msid, file=logfile)
-            offset = 512 + sec_size * msid
+            offset = base + sec_size * msid
             self.SAT.extend(unpack(fmt, mem[offset:offset+sec_size]))
 
         if DEBUG:
@@ -237,7 +240,7 @@ class CompDoc(object):
         # === build the directory ===
         #
         dbytes = self._get_stream(
-            self.mem, 512, self.SAT, self.sec_size, self.dir_first_sec_sid,
+            self.mem, base, self.SAT, self.sec_size, self.dir_first_sec_sid,
             name="directory", seen_id=3)
         dirlist = []
         did = -1
@@ -264,7 +267,7 @@ class CompDoc(object):
             self.SSCS = ""
         else:
             self.SSCS = self._get_stream(
-                self.mem, 512, self.SAT, sec_size, sscs_dir.first_SID,
+                self.mem, base, self.SAT, sec_size, sscs_dir.first_SID,
                 sscs_dir.tot_size, name="SSCS", seen_id=4)
         # if DEBUG: print >> logfile, "SSCS", repr(self.SSCS)
         #
@@ -281,7 +284,7 @@ class CompDoc(object):
                     raise CompDocError("SSAT corruption: seen[%d] == %d" % (sid, seen[sid]))
                 seen[sid] = 5
                 nsecs -= 1
-                start_pos = 512 + sid * sec_size
+                start_pos = base + sid * sec_size
                 news = list(unpack(fmt, mem[start_pos:start_pos+sec_size]))
                 self.SSAT.extend(news)
                 sid = self.SAT[sid]
@@ -391,7 +394,7 @@ class CompDoc(object):
         if d.tot_size >= self.min_size_std_stream:
             self._forget_visit(d.DID+6)
             return self._get_stream(
-                self.mem, 512, self.SAT, self.sec_size, d.first_SID,
+                self.mem, self.base, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, name=qname, seen_id=d.DID+6)
         else:
             return self._get_stream(
@@ -424,7 +427,7 @@ class CompDoc(object):
         if d.tot_size >= self.min_size_std_stream:
             self._forget_visit(d.DID+6)
             result = self._locate_stream(
-                self.mem, 512, self.SAT, self.sec_size, d.first_SID,
+                self.mem, self.base, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, qname, d.DID+6)
             if self.DEBUG:
                 print("\nseen", file=self.logfile)
-- 
2.43.0


From 33a48c5c5e2dab784b265bb05fe2b4d82c51b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:51 +0000
Subject: [PATCH 44/49] fix: the text of a formula lost the parentheses around
 a right operand of equal rank (a-(b-c))

---
 xlrd/formula.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 9f64c2f..7c40b8b 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -783,9 +783,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         try:
@@ -889,9 +889,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF)
                 res.text = otext
@@ -940,9 +940,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -969,9 +969,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1413,9 +1413,9 @@ def decompile_formula(bk, fmla, fmlalen,
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         stk.append(resop)
@@ -1491,9 +1491,9 @@ def decompile_formula(bk, fmla, fmlalen,
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF)
                 res.text = otext
@@ -1527,9 +1527,9 @@ def decompile_formula(bk, fmla, fmlalen,
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1554,9 +1554,9 @@ def decompile_formula(bk, fmla, fmlalen,
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-- 
2.43.0


From e1244d35d225d22a34269087a2d70f9b3318da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:05 +0000
Subject: [PATCH 45/49] fix: the text of a formula lost the parentheses around
 a union of references in a function call

---
 xlrd/formula.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 7c40b8b..acff9ec 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -744,9 +744,17 @@ unop_rules = {
     0x14: (lambda x: x / 100.0, 60, '',  '%'),# percent
 }
 
+LIST_RANK = 5 # a union is put in parentheses: a function would take its comma for a separator
+ISECT_RANK = 80
+RANGE_RANK = 85
 LEAF_RANK = 90
 FUNC_RANK = 90
 
+def _arg_text(arg):
+    if arg.rank == LIST_RANK:
+        return '(%s)' % arg.text
+    return arg.text
+
 STACK_ALARM_LEVEL = 5
 STACK_PANIC_LEVEL = 10
 
@@ -883,7 +891,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = ISECT_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -893,8 +901,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     bop.text,
                     ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -934,7 +941,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = LIST_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -963,7 +970,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = RANGE_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -1029,7 +1036,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % _arg_text(aop)
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1077,7 +1084,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = listsep.join(_arg_text(arg) for arg in stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1108,7 +1115,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
                 firstarg = len(stack) - nargs # nargs may be zero, e.g. ROW()
-                argtext = listsep.join(arg.text for arg in stack[firstarg:])
+                argtext = listsep.join(_arg_text(arg) for arg in stack[firstarg:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1485,7 +1492,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = ISECT_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -1495,8 +1502,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     bop.text,
                     ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -1521,7 +1527,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = LIST_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -1548,7 +1554,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = RANGE_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -1600,7 +1606,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % _arg_text(aop)
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1647,7 +1653,7 @@ def decompile_formula(bk, fmla, fmlalen,
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = listsep.join(_arg_text(arg) for arg in stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1680,7 +1686,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
                 firstarg = len(stack) - nargs # nargs may be zero, e.g. ROW()
-                argtext = listsep.join(arg.text for arg in stack[firstarg:])
+                argtext = listsep.join(_arg_text(arg) for arg in stack[firstarg:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 del stack[firstarg:]
-- 
2.43.0


From 528784cf67060533b7c832d1fc33b4f87c92d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:41 +0000
Subject: [PATCH 46/49] fix: names that call GETPIVOTDATA or RTD with as many
 arguments as Excel allows raised AssertionError

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index acff9ec..57f7488 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -358,7 +358,7 @@ func_defs = {
     352: ('DATESTRING',       1,  1, 0x02,  1, 'V', 'V'),
     353: ('NUMBERSTRING',     2,  2, 0x02,  2, 'V', 'VV'),
     354: ('ROMAN',            1,  2, 0x04,  2, 'V', 'VV'),
-    358: ('GETPIVOTDATA',     2,  2, 0x02,  2, 'V', 'RV'),
+    358: ('GETPIVOTDATA',     2, 30, 0x04,  2, 'V', 'RV'),
     359: ('HYPERLINK',        1,  2, 0x04,  2, 'V', 'VV'),
     360: ('PHONETIC',         1,  1, 0x02,  1, 'V', 'V'),
     361: ('AVERAGEA',         1, 30, 0x04,  1, 'V', 'R'),
@@ -379,7 +379,7 @@ func_defs = {
     376: ('ROUNDBAHTDOWN',    1,  1, 0x02,  1, 'V', 'V'),
     377: ('ROUNDBAHTUP',      1,  1, 0x02,  1, 'V', 'V'),
     378: ('THAIYEAR',         1,  1, 0x02,  1, 'V', 'V'),
-    379: ('RTD',              2,  5, 0x04,  1, 'V', 'V'),
+    379: ('RTD',              2, 30, 0x04,  1, 'V', 'V'),
 }
 
 tAttrNames = {
-- 
2.43.0


From 3bf48ecfa1e75cc7ac5ea06152e469a96ddf9a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:37 +0000
Subject: [PATCH 47/49] fix: a negative zero joined to text in a formula is 0,
 as in Excel

---
 xlrd/formula.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 57f7488..b0346e9 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -713,6 +713,8 @@ def num2strg(num):
     """
     Attempt to emulate Excel's default conversion from number to string.
     """
+    if num == 0:
+        return "0" # Excel has no negative zero
     s = str(num)
     if s.endswith(".0"):
         s = s[:-2]
-- 
2.43.0


From b6f221f5ac8b274a58dd84d85f5e6419ac8dead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:38 +0000
Subject: [PATCH 48/49] fix: a short copy of the country codes in a sheet is
 ignored whatever was loaded before

---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 6869c84..92b68ce 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1140,7 +1140,7 @@ class Sheet(BaseObject):
             elif rc == XL_COUNTRY:
                 # A redundant copy (see Book.handle_country): one damaged sheet
                 # must not change the book or make the other sheets unreadable.
-                if bk.countries == (0, 0):
+                if bk.countries == (0, 0) and data_len >= 4:
                     bk.handle_country(data)
             elif rc == XL_LABELRANGES:
                 pos = 0
-- 
2.43.0


From feb7981597bff93c0bd93d6ce5a172f5b1818621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:39 +0000
Subject: [PATCH 49/49] fix: showing a conditional format whose formula has a
 relative reference does not fail

---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 92b68ce..a1227da 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1235,7 +1235,7 @@ class Sheet(BaseObject):
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
                     try:
-                        dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
+                        dump_formula(bk, fmla1, sz1, bv, reldelta=1, blah=1)
                     except (IndexError, UnicodeDecodeError, struct_error) as e:
                         # this is only a display; the formula isn't used for anything else
                         fprintf(self.logfile, "*** formula 1 is damaged: %s %s\n", e.__class__.__name__, e)
@@ -1245,7 +1245,7 @@ class Sheet(BaseObject):
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
                     try:
-                        dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
+                        dump_formula(bk, fmla2, sz2, bv, reldelta=1, blah=1)
                     except (IndexError, UnicodeDecodeError, struct_error) as e:
                         # this is only a display; the formula isn't used for anything else
                         fprintf(self.logfile, "*** formula 2 is damaged: %s %s\n", e.__class__.__name__, e)
-- 
2.43.0

