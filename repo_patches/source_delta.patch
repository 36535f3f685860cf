From 04bd9dd560ea513da3f609700fc6b1f3c94dd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 01/66] fix: stop at end of input and reject surplus items when
 collecting items from several lines

---
 nappy/utils/text_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..1644354 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -73,19 +73,24 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
     if type(object) == type([2,3]): 
 
         while len(rtitems) < nitems:   
+            if len(object) == 0:
+                raise Exception("Reached end of data before finding required number (" + str(nitems) + ") of items: \n" + str(lines))
             nextitem = object[0]
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            nextitem = object.readline()
+            if nextitem == "":
+                raise Exception("Reached end of file before finding required number (" + str(nitems) + ") of items: \n" + str(lines))
+            items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
-    if len(extras) > 0:
+    if len(rtitems) > nitems:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
 
     if rttype is not str:
-- 
2.43.0


From 374c40a4537a083d0584e14fec761aecb37746b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 02/66] fix: read the listed axis values of FFIs 3010 and 4010
 with the counts of the right axes

---
 nappy/na_file/na_file_2010.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..65abb5b 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -40,7 +40,8 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
-        for i in range(self.NIV - 1):
+        # Values are listed in the file fastest-changing axis first
+        for i in range(self.NIV - 2, -1, -1):
             self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
-- 
2.43.0


From 13cc78a2dbbc5d390da9f96b5dd57a984ae3543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 03/66] fix: do not accumulate the unbounded axis when FFI
 2010, 3010 or 4010 data is read again

---
 nappy/na_file/na_file_2010.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 65abb5b..6bc7e90 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -92,6 +92,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         self.V = []
         self.A = []
+        self.X[0] = []
 
         # Create an array size to request using read routines
         self.arraySize = 1
-- 
2.43.0


From 978132e4bd9037d5bfe827b5268699b1dd67c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 04/66] fix: keep fractional FFI 2310 increments and do not
 accumulate them when data is read again

---
 nappy/na_file/na_file_2310.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..62d888f 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -53,6 +53,13 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        nappy.na_file.na_file_2110.NAFile2110._setupArrays(self)
+        del self.DX[1:]  # Increments of the bounded axis are collected again with the data
+
     def _readData1(self, datalines, ivar_count):
         """
         Reads first line/section of current block of data.
@@ -72,7 +79,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
+        self.DX.append(aux[2])
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From 265a85c1ca37be84842d99af6cdc3479ba43fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 05/66] fix: read the character items of FFI 2160 as whole
 lines and LENX as an integer

---
 nappy/na_file/na_file.py      |  3 ++-
 nappy/na_file/na_file_2160.py | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..0a7f372 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -271,7 +271,8 @@ class NAFile(nappy.na_file.na_core.NACore):
             self.LENA = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, int)
             for i in range(nonCharAuxVars):
                 self.LENA.insert(0, None)
-            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, str)    
+            # Character missing values fill one line each and may contain spaces
+            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXC), self.NAUXC, str)
             self.ANAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXV), self.NAUXV, str)        
             
     def _readComments(self):
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..8e8ea4b 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -33,7 +33,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 1, float)
-        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), float)
+        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
         self.XNAME.reverse()  # Reverse because C-type array is least-changing first
         self._readVariablesHeaderSection()
@@ -101,9 +101,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        # It fills a line of its own and may contain spaces
+        x1 = nappy.utils.text_parser.readItemFromLine(datalines[0], str)
+        datalines = datalines[1:]
         self.X.append([])
-        self.X[ivar_count].append(x1[0])
+        self.X[ivar_count].append(x1)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
         
@@ -117,6 +119,8 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             count = count + 1
 
         # Get character AUX vars
+        if len(datalines) < self.NAUXC:
+            raise Exception("Reached end of data before finding required number (" + str(self.NAUXC) + ") of character auxiliary variables.")
         (auxc) = nappy.utils.text_parser.readItemsFromLines(datalines[:self.NAUXC], self.NAUXC, str)
         rtlines = datalines[self.NAUXC:]
         count = 0
-- 
2.43.0


From 02372e1f967808f3c8614c0886b0799aecf0fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 06/66] fix: a missing NX in FFI 2110 and 2310 means that the
 mark has no records

---
 nappy/na_file/na_file_2110.py | 11 ++++++++++-
 nappy/na_file/na_file_2310.py |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..9fe5455 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -87,9 +87,18 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         self.X[ivar_count].append(x)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._getPointCount(aux[0]))
         return rtlines
 
+    def _getPointCount(self, nx):
+        """
+        Returns the number of points announced for an independent variable mark.
+        A missing value means that the records of the mark are omitted.
+        """
+        if nx == self.AMISS[0]:
+            return 0
+        return int(nx)
+
     def _readData2(self, datalines, ivar_count):
         """
         Reads second line/section (if used) of current block of data.
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 62d888f..0170824 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -78,7 +78,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._getPointCount(aux[0]))
         self.DX.append(aux[2])
         return rtlines
    
-- 
2.43.0


From 1aaa0a648fe8918674fad644351dc7fca86fb701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 07/66] fix: write 2-D to 4-D files without reordering the
 lists of the caller's dictionary

---
 nappy/na_file/na_file_2010.py | 5 ++---
 nappy/na_file/na_file_2110.py | 4 ++--
 nappy/na_file/na_file_2160.py | 4 ++--
 nappy/na_file/na_file_2310.py | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 6bc7e90..09a1a59 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -57,10 +57,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -135,7 +135,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 9fe5455..468e430 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 8e8ea4b..30fedc7 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 0170824..97195e8 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From e3f1a9687375bf8205f0701a0c811017cdbc65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 08/66] fix: write FFI 2310 data as one record per variable, as
 they are read

---
 nappy/na_file/na_file_2310.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 97195e8..d413932 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -115,8 +115,11 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
             # Write second independant variable and dependant variables
-            var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            if self.NX[m] == 0:
+                continue
+
+            for n in range(self.NV):
+                var_string = ""
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From 9b08c19439a632414bc59b76e321ec49a33cd268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 09/66] fix: keep missing values recognisable when the float
 format would round them

---
 nappy/na_file/na_file.py        | 11 +++++++++++
 nappy/na_file/na_file_1001.py   |  2 +-
 nappy/na_file/na_file_1010.py   |  4 ++--
 nappy/na_file/na_file_1020.py   |  4 ++--
 nappy/na_file/na_file_2010.py   |  4 ++--
 nappy/na_file/na_file_2110.py   |  4 ++--
 nappy/na_file/na_file_2160.py   |  4 ++--
 nappy/na_file/na_file_2310.py   |  4 ++--
 nappy/utils/list_manipulator.py | 13 ++++++++-----
 9 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 0a7f372..96eb1e7 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -127,6 +127,17 @@ class NAFile(nappy.na_file.na_core.NACore):
         # Set flag to make sure cannot try and write more data
         self.data_written = True
          
+    def _formatItem(self, value, missing_value):
+        """
+        Returns a data item formatted with the float format, followed by the delimiter.
+        A missing value is written as in the header if the float format would not
+        preserve it, so that it is still recognised when the file is read.
+        """
+        item = self.float_format % value
+        if value == missing_value and float(item) != float("%s" % missing_value):
+            item = "%s" % missing_value
+        return item + self.delimiter
+
     def close(self):
         "Wrapper to builtin close file function."
         self.file.close()
diff --git a/nappy/na_file/na_file_1001.py b/nappy/na_file/na_file_1001.py
index d5892a4..cb7cf81 100644
--- a/nappy/na_file/na_file_1001.py
+++ b/nappy/na_file/na_file_1001.py
@@ -91,6 +91,6 @@ class NAFile1001(nappy.na_file.na_file.NAFile):
             var_string = self.format % self.X[m]
 
             for n in range(self.NV):
-                var_string = var_string + (self.format % self.V[n][m])
+                var_string = var_string + self._formatItem(self.V[n][m], self.VMISS[n])
 
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
diff --git a/nappy/na_file/na_file_1010.py b/nappy/na_file/na_file_1010.py
index 234a3f0..e673362 100644
--- a/nappy/na_file/na_file_1010.py
+++ b/nappy/na_file/na_file_1010.py
@@ -103,13 +103,13 @@ class NAFile1010(nappy.na_file.na_file.NAFile):
              var_string = self.format % self.X[m]   
 					
              for a in range(self.NAUXV):   						
-                 var_string = var_string + (self.format % self.A[a][m])
+                 var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
 	
              self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))	
 			
              # Write dependant variables   						
              var_string = ""   								
              for n in range(self.NV):							
-                  var_string = var_string + (self.format % self.V[n][m])   	
+                  var_string = var_string + self._formatItem(self.V[n][m], self.VMISS[n])   	
 	
              self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(' ,'))) 					
diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index e338e2b..c88e714 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -93,7 +93,7 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
             var_string = self.format % self.X[m]   	
 						
             for a in range(self.NAUXV):   								
-                var_string = var_string + (self.format % self.A[a][m])   
+                var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])   
 			
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 				
@@ -104,7 +104,7 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
 								        
                 for p in range(self.NVPM):								
                     var_ind = (m * self.NVPM) + p 							
-                    var_string = var_string + (self.format % self.V[n][var_ind])   		
+                    var_string = var_string + self._formatItem(self.V[n][var_ind], self.VMISS[n])   		
                     count = count + 1	
 								
                 self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" %var_string.rstrip(' ,')))
diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 09a1a59..995ba77 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -141,12 +141,12 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
             var_string = self.format % self.X[0][m]
 
             for a in range(self.NAUXV):
-                var_string = var_string + (self.format % self.A[a][m])
+                var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
             
             # Write Variables
             for n in range(self.NV):
-                outlines = nappy.utils.list_manipulator.recursiveListWriter(self.V[n][m], self.NX, delimiter = self.delimiter, float_format = self.float_format)
+                outlines = nappy.utils.list_manipulator.recursiveListWriter(self.V[n][m], self.NX, delimiter = self.delimiter, float_format = self.float_format, format_item = lambda value: self._formatItem(value, self.VMISS[n]))
                 for line in outlines:
                     self.file.write(wrapLine("Data", self.annotation, self.delimiter, line))
 
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 468e430..f8f98f2 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -134,7 +134,7 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
 
             # Loop through aux vars which includes NX as first aux var
             for a in range(self.NAUXV): 
-                var_string = var_string + (self.format % self.A[a][m])
+                var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
             # Write second independant variable and dependant variables
@@ -142,6 +142,6 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
                 var_string = self.format % self.X[m][1][p]
 
                 for n in range(self.NV):
-                    var_string = var_string + (self.format %self.V[n][m][p])
+                    var_string = var_string + self._formatItem(self.V[n][m][p], self.VMISS[n])
 
                 self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" %var_string.rstrip(" ,")))
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 30fedc7..61d6bba 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -144,7 +144,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             var_string = ""
 
             for a in range(self.NAUXV - self.NAUXC):
-                var_string = var_string + (self.format % self.A[a][m])
+                var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
 
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
@@ -157,6 +157,6 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
                 var_string = self.format % self.X[m][1][p]
 
                 for n in range(self.NV):
-                    var_string = var_string + (self.format % self.V[n][m][p])
+                    var_string = var_string + self._formatItem(self.V[n][m][p], self.VMISS[n])
 
                 self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index d413932..19e5cb6 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -110,7 +110,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             #  Loop through NAUXV which includes NX, X[0], DX as first 3 aux vars
             for a in range(self.NAUXV):
-                var_string = var_string + (self.format % self.A[a][m])
+                var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
 
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
@@ -121,5 +121,5 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
             for n in range(self.NV):
                 var_string = ""
                 for p in range(self.NX[m]):
-                    var_string = var_string + (self.format %self.V[n][m][p])
+                    var_string = var_string + self._formatItem(self.V[n][m][p], self.VMISS[n])
                 self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
diff --git a/nappy/utils/list_manipulator.py b/nappy/utils/list_manipulator.py
index 9cb1a4f..91f448e 100644
--- a/nappy/utils/list_manipulator.py
+++ b/nappy/utils/list_manipulator.py
@@ -52,9 +52,9 @@ def recursiveListPopulator(inlist, array, dimlist):
     return RecursiveListManipulator().populator(inlist, array, dimlist)
 
 
-def recursiveListWriter(inlist, dimlist, delimiter=default_delimiter, float_format=default_float_format):
+def recursiveListWriter(inlist, dimlist, delimiter=default_delimiter, float_format=default_float_format, format_item=None):
     "Function wrapper around class method RecursiveListManipulator().writeLines()."
-    return RecursiveListManipulator().writeLines(inlist, dimlist, delimiter=delimiter, float_format=float_format)
+    return RecursiveListManipulator().writeLines(inlist, dimlist, delimiter=delimiter, float_format=float_format, format_item=format_item)
 
 
 class RecursiveListManipulator:
@@ -84,21 +84,24 @@ class RecursiveListManipulator:
                 inlist.append(array[i])
         return inlist
 
-    def writeLines(self, inlist, dimlist, delimiter=default_delimiter, float_format=default_float_format):
+    def writeLines(self, inlist, dimlist, delimiter=default_delimiter, float_format=default_float_format, format_item=None):
         """
         Method to walk through all the levels of the multi-level list object
         'inlist' and writes out appropriate values to a list of lines called
         'self.rtlines'. 'dimlist' is a list of the dimensions within 'inlist'.
+        If 'format_item' is given then it is called to format each item (with its delimiter).
         """
+        if format_item is None:
+            format_item = lambda value: (float_format+delimiter) % value
         if not hasattr(self, "rtlines"):
             self.rtlines = []
         if len(dimlist[1:]) > 0:
             for i in range(dimlist[0]):
-                self.writeLines(inlist[i], dimlist[1:], delimiter=delimiter, float_format=float_format)
+                self.writeLines(inlist[i], dimlist[1:], delimiter=delimiter, float_format=float_format, format_item=format_item)
         else:
             var_string = ""
             for i in range(dimlist[0]):
-                var_string = var_string + ((float_format+delimiter) % inlist[i])
+                var_string = var_string + format_item(inlist[i])
             self.rtlines.append("%s\n" % var_string.rstrip(" ,"))
         return self.rtlines
             
-- 
2.43.0


From 6ddfcda58c09b57823652432f0637491f63a7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 10/66] fix: do not leave a trailing delimiter at the end of
 data records

---
 nappy/na_file/na_file_1001.py   | 2 +-
 nappy/na_file/na_file_1010.py   | 4 ++--
 nappy/na_file/na_file_1020.py   | 4 ++--
 nappy/na_file/na_file_2010.py   | 4 ++--
 nappy/na_file/na_file_2110.py   | 4 ++--
 nappy/na_file/na_file_2160.py   | 8 ++++----
 nappy/na_file/na_file_2310.py   | 4 ++--
 nappy/utils/list_manipulator.py | 2 +-
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/nappy/na_file/na_file_1001.py b/nappy/na_file/na_file_1001.py
index cb7cf81..573bf5a 100644
--- a/nappy/na_file/na_file_1001.py
+++ b/nappy/na_file/na_file_1001.py
@@ -93,4 +93,4 @@ class NAFile1001(nappy.na_file.na_file.NAFile):
             for n in range(self.NV):
                 var_string = var_string + self._formatItem(self.V[n][m], self.VMISS[n])
 
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
diff --git a/nappy/na_file/na_file_1010.py b/nappy/na_file/na_file_1010.py
index e673362..c888119 100644
--- a/nappy/na_file/na_file_1010.py
+++ b/nappy/na_file/na_file_1010.py
@@ -105,11 +105,11 @@ class NAFile1010(nappy.na_file.na_file.NAFile):
              for a in range(self.NAUXV):   						
                  var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
 	
-             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))	
+             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))	
 			
              # Write dependant variables   						
              var_string = ""   								
              for n in range(self.NV):							
                   var_string = var_string + self._formatItem(self.V[n][m], self.VMISS[n])   	
 	
-             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(' ,'))) 					
+             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter))) 					
diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index c88e714..b45b92b 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -95,7 +95,7 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
             for a in range(self.NAUXV):   								
                 var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])   
 			
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
 				
             # Write dependant variables																		
             count = 0											
@@ -107,5 +107,5 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
                     var_string = var_string + self._formatItem(self.V[n][var_ind], self.VMISS[n])   		
                     count = count + 1	
 								
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" %var_string.rstrip(' ,')))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" %var_string.rstrip(" ," + self.delimiter)))
 
diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 995ba77..80cfdf9 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -70,7 +70,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         X_lines = []
 
         for i in range(self.NIV - 1):
-            X_lines.append((self.format * self.NXDEF[i] % tuple(self.X[i + 1][0:self.NXDEF[i]])).rstrip(" ,") + "\n")
+            X_lines.append((self.format * self.NXDEF[i] % tuple(self.X[i + 1][0:self.NXDEF[i]])).rstrip(" ," + self.delimiter) + "\n")
 
         X_lines.reverse()
         for line in X_lines:
@@ -142,7 +142,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
 
             for a in range(self.NAUXV):
                 var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
             
             # Write Variables
             for n in range(self.NV):
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index f8f98f2..3452c5f 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -135,7 +135,7 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
             # Loop through aux vars which includes NX as first aux var
             for a in range(self.NAUXV): 
                 var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
 
             # Write second independant variable and dependant variables
             for p in range(self.NX[m]):
@@ -144,4 +144,4 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
                 for n in range(self.NV):
                     var_string = var_string + self._formatItem(self.V[n][m][p], self.VMISS[n])
 
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" %var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" %var_string.rstrip(" ," + self.delimiter)))
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 61d6bba..e1625d7 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -140,17 +140,17 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
 
             # Write Independent variable mark and auxiliary variables
             var_string = "%s" % self.X[m][0]
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
             var_string = ""
 
             for a in range(self.NAUXV - self.NAUXC):
                 var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
 
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
 
             for a in range(self.NAUXC):
                 var_string = (("%s" + self.delimiter) % self.A[(self.NAUXV - self.NAUXC) + a][m])
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
 
             # Write second independant variable and dependant variables
             for p in range(self.NX[m]):
@@ -159,4 +159,4 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
                 for n in range(self.NV):
                     var_string = var_string + self._formatItem(self.V[n][m][p], self.VMISS[n])
 
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 19e5cb6..2530f09 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -112,7 +112,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
             for a in range(self.NAUXV):
                 var_string = var_string + self._formatItem(self.A[a][m], self.AMISS[a])
 
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
 
             # Write second independant variable and dependant variables
             if self.NX[m] == 0:
@@ -122,4 +122,4 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
                 var_string = ""
                 for p in range(self.NX[m]):
                     var_string = var_string + self._formatItem(self.V[n][m][p], self.VMISS[n])
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
diff --git a/nappy/utils/list_manipulator.py b/nappy/utils/list_manipulator.py
index 91f448e..5f82ba0 100644
--- a/nappy/utils/list_manipulator.py
+++ b/nappy/utils/list_manipulator.py
@@ -102,6 +102,6 @@ class RecursiveListManipulator:
             var_string = ""
             for i in range(dimlist[0]):
                 var_string = var_string + format_item(inlist[i])
-            self.rtlines.append("%s\n" % var_string.rstrip(" ,"))
+            self.rtlines.append("%s\n" % var_string.rstrip(" ," + delimiter))
         return self.rtlines
             
-- 
2.43.0


From c9da64bc46b707977c0a88b1089862b91860c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 11/66] fix: write FFI 2160 files without character auxiliary
 variables

---
 nappy/na_file/na_file_2160.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index e1625d7..50fa967 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -74,10 +74,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
-            line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
+            if self.NAUXC > 0:
+                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
+                line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
 
-- 
2.43.0


From bac7d87aa11f38aa3c7326b8fa244d831c2f559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 12/66] fix: allow empty header text when stripping quotes

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..ab1eae9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -234,8 +234,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From 656d85ff7ca791cbde393d2b6f9be7a950159059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 13/66] fix: refuse FFI 1020 files with a zero increment

---
 nappy/na_file/na_file_1020.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index b45b92b..b7016d7 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -33,8 +33,8 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
-        if self.DX == 0:
-            raise "DX found to be zero (0). Not allowed for FFI 1020."
+        if self.DX[0] == 0:
+            raise Exception("DX found to be zero (0). Not allowed for FFI 1020.")
 
         self.NVPM = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
-- 
2.43.0


From 31af116b767fb8f8757475883fa5bcd790b6631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 14/66] fix: choose the format index from all marks, and of 2-D
 data with a single mark

---
 nappy/utils/common_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index ab1eae9..1665755 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -68,10 +68,10 @@ def chooseFFI(na_dict):
         if type(d["X"][0][0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) > 1:
-            # 2110 - one independent variable changes length and the values are specified
-            return 2110
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) == 1:
+        elif len(d["X"][0]) > 1 and type(d["X"][0][1]) == type([1,2]):
+            if [x for x in d["X"] if len(x[1]) != 1]:
+                # 2110 - one independent variable changes length and the values are specified
+                return 2110
             # 2310 - one indepenent variable changes length but only the first value is specifically stated
             return 2310
         else:            
-- 
2.43.0


From 638769dbad128572add795699156cdb3b6af0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 15/66] fix: honour no_header and a given file name in
 conversions to CSV

---
 nappy/nappy_api.py | 861 +++++++++++++++++++++++----------------------
 1 file changed, 431 insertions(+), 430 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..7717de9 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,430 +1,431 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
-  
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
-
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
-
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
+  
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_file
+    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
+    import nappy.na_file.na_core
+    na_file_obj = nappy.na_file.na_core.NACore()
+    na_file_obj.setNADict(na_dict)
+
+    # Fake up some required methods
+    def fakeCaller():pass
+    na_file_obj.readData = fakeCaller
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Now write them out
+    import xarray as xr
+
+    fout = xr.open_dataset(nc_file, mode=mode)
+    for var in (xr_primary_vars + xr_aux_vars):
+        fout.write(var)
+
+    # Write global attributes
+    for (att, value) in global_attributes:
+        setattr(fout, att, value)
+        
+    fout.close()
+    log.info("NetCDF file '%s' written successfully." % file_name)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
-- 
2.43.0


From 7676d1ffca0666f234822831e76128ce48a0476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 16/66] fix: refuse a second write also when the first one
 failed part way

---
 nappy/na_file/na_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 96eb1e7..fffd69d 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -118,14 +118,14 @@ class NAFile(nappy.na_file.na_core.NACore):
         self._parseDictionary()
         self.header = StringIO()
 
+        # Set flag to make sure cannot try and write more data, even if this write fails part way
+        self.data_written = True
+
         if not no_header:
             self.writeHeader()
 
         self.writeData()
         self.file.flush()
-        
-        # Set flag to make sure cannot try and write more data
-        self.data_written = True
          
     def _formatItem(self, value, missing_value):
         """
-- 
2.43.0


From bfc4bc8cde5a73b6d652ad80a821ff2bd00d8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 17/66] fix: expand implied axes on a copy, and correctly for
 FFI 1020, when converting to NetCDF

---
 README.md                          |  2 +-
 nappy/na_file/na_file.py           |  8 +++++++-
 nappy/na_file/na_file_1020.py      | 15 ++++++---------
 nappy/na_file/na_file_2010.py      | 19 ++++++++-----------
 nappy/na_file/na_file_2160.py      |  1 -
 nappy/na_file/na_file_2310.py      |  1 -
 nappy/nc_interface/na_to_xarray.py |  9 +++------
 7 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/README.md b/README.md
index 3828922..fc909e4 100644
--- a/README.md
+++ b/README.md
@@ -123,7 +123,7 @@ Query the methods on the 'myfile' objects:
 'NXDEF', 'ONAME', 'ORG', 'RDATE', 'SCOM', 'SNAME', 'V', 
 'VMISS', 'VNAME', 'VSCAL', 'X', 'XNAME', '__doc__', 
 '__getitem__', '__init__', '__module__', '_checkForBlankLines', 
-'_normalizeIndVars', '_normalizedX', '_open', '_parseDictionary', 
+'_normalizeIndVars', '_open', '_parseDictionary', 
 '_readAuxVariablesHeaderSection', '_readCharAuxVariablesHeaderSection',
 '_readComments', '_readCommonHeader', '_readData1', '_readData2', 
 '_readLines', '_readNormalComments', '_readSpecialComments', 
diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index fffd69d..08b3049 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -69,7 +69,6 @@ class NAFile(nappy.na_file.na_core.NACore):
         self.var_and_units_callback = var_and_units_callback
 
         if self.mode == "r":
-            self._normalized_X = True
             self.readHeader()
         elif self.mode == "w":
             # Self flag to check if data written
@@ -127,6 +126,13 @@ class NAFile(nappy.na_file.na_core.NACore):
         self.writeData()
         self.file.flush()
          
+    def _normalizeIndVars(self):
+        """
+        Returns the values of the independent variable(s) in full. FFIs that store
+        abbreviated axes override this method.
+        """
+        return self.X
+
     def _formatItem(self, value, missing_value):
         """
         Returns a data item formatted with the float format, followed by the delimiter.
diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index b7016d7..83fbe43 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -30,7 +30,6 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         """
         Reads FFI-specifc header section.
         """    
-        self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
         if self.DX[0] == 0:
@@ -71,17 +70,15 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
 
     def _normalizeIndVars(self):
         """
-        Normalizes the values in the unbounded independent variable for FFIs
-        that store an abbreviated version of this axis.
+        Returns the values of the independent variable in full, including those
+        that are implied between the marks in the file.
+        The (abbreviated) values read from the file are left as they are.
         """
-        if self._normalized_X: return
         newX = []
-        for x in self.X[0]:
+        for x in self.X:
             for i in range(self.NVPM):
-                newX.append(x + (i * self.DX))
-
-        self.X[0] = newX
-        self._normalized_X = True
+                newX.append(x + (i * self.DX[0]))
+        return newX
 
     def writeData(self):										
          """   													
diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 80cfdf9..0e6001f 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -31,7 +31,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         Reads FFI-specifc header section.
         """        
-        self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
         self.DX.reverse()  # Reverse because C-type array is least-changing first
@@ -152,17 +151,15 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
 
     def _normalizeIndVars(self):
         """
-        Normalizes the values in the unbounded independent variable for FFIs
-        that store an abbreviated version of this axis.
+        Returns the values of all independent variables in full, including those
+        that the file defines only by their first value and increment.
+        The (abbreviated) values read from the file are left as they are.
         """
+        newX = [self.X[0][:]]
         for i in range(self.NIV - 1):
             if self.NXDEF[i] == self.NX[i]:
-                pass
+                newX.append(self.X[i + 1][:])
             else:
-                del self.X[i + 1][1:]
-                count = 0
-                while len(self.X[i + 1])<self.NX[i]:
-                    nextx = self.X[i + 1][count] + self.DX[i + 1]
-                    self.X[i + 1].append(nextx)
-                    count = count + 1
-        self._normalized_X = True
+                start = self.X[i + 1][0]
+                newX.append([start + count * self.DX[i + 1] for count in range(self.NX[i])])
+        return newX
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 50fa967..c22c895 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -29,7 +29,6 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """
         Reads FFI-specifc header section.
         """
-        self._normalized_X = False
         
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 1, float)
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 2530f09..ccfee0c 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -29,7 +29,6 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         Reads FFI-specifc header section.
         """        
-        self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 1, float)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..b5487bd 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -379,13 +379,10 @@ class NADictToXarrayObjects:
         """
         Creates an Xarray axis from a NASA Ames independent variable.
         """
-        if not self.na_file_obj._normalized_X:
-            self.na_file_obj._normalizeIndVars()
+        array = self.na_file_obj._normalizeIndVars()
 
-        if self.na_file_obj.NIV == 1:
-            array = self.na_file_obj.X
-        else:
-            array = self.na_file_obj.X[ivar_number]
+        if self.na_file_obj.NIV > 1:
+            array = array[ivar_number]
 
         axis_name = self.na_file_obj.XNAME[ivar_number]
 
-- 
2.43.0


From af549f766c0acea1b005097b840fc8d45d0db537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 18/66] fix: report the format index when a file cannot be
 converted to NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index b5487bd..a75c508 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -89,7 +89,7 @@ class NADictToXarrayObjects:
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
             raise Exception(("Cannot convert NASA Ames File Format Index (FFI) " + 
-                             self.na_file_obj.FFI + 
+                             str(self.na_file_obj.FFI) + 
                              " to Xarray objects. No mapping implemented yet."))
 
         self.output_message = []  # for output displaying message
-- 
2.43.0


From 1339e523313a85599da367993d740cf6c607c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 19/66] fix: flag missing values before scaling when converting
 to NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 34 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index a75c508..87d6b81 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -243,6 +243,23 @@ class NADictToXarrayObjects:
                     else:
                         raise Exception(f"Variable name not known: {var_name}")
 
+    def _maskAndScale(self, values, miss, scal):
+        """
+        Returns (array, fill_value) where the array holds the scaled values, with
+        those equal to the missing value (which is not scaled) masked, and fill_value
+        is the missing value or, if a scaled value is equal to that, one that no value has.
+        """
+        array = np.ma.masked_equal(np.array(values, dtype=float), miss) * scal
+
+        fill_value = miss
+        if (array == fill_value).any():
+            fill_value = -1.e20
+
+        while (array == fill_value).any():
+            fill_value = fill_value * 10
+
+        return array, fill_value
+
     def _convertNAToXarrayVariable(self, var_number, attributes=None):
         """
         Creates a single Xarray variable from the variable number provided in the list.
@@ -256,12 +273,7 @@ class NADictToXarrayObjects:
         log.debug(msg)
         self.output_message.append(msg)
 
-        array = np.array(self.na_file_obj.V[var_number])
-
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        array, fill_value = self._maskAndScale(self.na_file_obj.V[var_number], miss, scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -269,7 +281,7 @@ class NADictToXarrayObjects:
 
         # Set up variable
         var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes, 
-                                  fill_value=miss, attrs=attributes)
+                                  fill_value=fill_value, attrs=attributes)
 
         # Sort units etc
         if units:   
@@ -326,11 +338,7 @@ class NADictToXarrayObjects:
              
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
-        array = np.array(self.na_file_obj.A[avar_number])
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        array, fill_value = self._maskAndScale(self.na_file_obj.A[avar_number], miss, scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
@@ -342,7 +350,7 @@ class NADictToXarrayObjects:
 
         # Set up variable
         var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
-                                  fill_value=miss, attrs=attributes)
+                                  fill_value=fill_value, attrs=attributes)
 
         # Sort units etc
         if units:   
-- 
2.43.0


From daf4ad91aaf541a19d85b50e9a4bf1a459274f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 20/66] fix: give every variable and axis its own id when
 converting to NetCDF, so that none replaces another

---
 nappy/nc_interface/na_to_xarray.py | 77 ++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 87d6b81..3d5ac67 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -243,6 +243,55 @@ class NADictToXarrayObjects:
                     else:
                         raise Exception(f"Variable name not known: {var_name}")
 
+    def _makeId(self, name, default, used_ids):
+        """
+        Returns an id for use in the output made from 'name', or 'default' if that is
+        too long or empty. The id differs from all those in the set 'used_ids' and is
+        added to them.
+        """
+        if len(name) < max_id_length:
+            base_id = safe_nc_id.sub("_", name).lower() or default
+        else:
+            base_id = default
+
+        # The first character must be a letter, digit or underscore
+        if not re.match(r"\w", base_id):
+            base_id = "_" + base_id
+
+        unique_id = base_id
+        count = 1
+
+        while nappy.utils.common_utils.safe_name(unique_id) in used_ids:
+            count += 1
+            unique_id = f"{base_id}_{count}"
+
+        used_ids.add(nappy.utils.common_utils.safe_name(unique_id))
+        return unique_id
+
+    def _getVariableIds(self):
+        """
+        Returns two lists holding the ids of all variables and all auxiliary variables in
+        the file. They are all different, also from the ids of the axes, and do not depend
+        on which of the variables have been selected.
+        """
+        if not hasattr(self, "_variable_ids"):
+            na = self.na_file_obj
+            used_ids = set([axis.name for axis in self.xr_axes])
+            var_ids = [self._makeId(na.getVariable(i)[0], f"naVariable_{i}", used_ids) for i in range(na.NV)]
+            aux_ids = [self._makeId(na.getAuxVariable(i)[0], f"naAuxVariable_{i}", used_ids) for i in range(na.NAUXV or 0)]
+
+            # Check if mapping provided for renaming the variables
+            var_ids, aux_ids = [[self.rename_variables.get(i.lower(), i) for i in ids] for ids in (var_ids, aux_ids)]
+
+            all_ids = [nappy.utils.common_utils.safe_name(i) for i in var_ids + aux_ids] + [axis.name for axis in self.xr_axes]
+            for i in all_ids:
+                if all_ids.count(i) > 1:
+                    raise Exception(f"Variables cannot be renamed because more than one would be called: {i}")
+
+            self._variable_ids = var_ids, aux_ids
+
+        return self._variable_ids
+
     def _maskAndScale(self, values, miss, scal):
         """
         Returns (array, fill_value) where the array holds the scaled values, with
@@ -287,14 +336,7 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] =units
     
-        if len(var_name) < max_id_length:
-            var_name = safe_nc_id.sub("_", var_name).lower()
-        else:
-            var_name = "naVariable_%s" % (var_number)
-
-        # Check if mapping provided for renaming this variable
-        if var_name.lower() in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name.lower()]
+        var_name = self._getVariableIds()[0][var_number]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
@@ -356,14 +398,7 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
-            var_name = safe_nc_id.sub("_", var_name).lower()
-        else:
-            var_name = f"naAuxVariable_{avar_number}"
-
-        # Check if mapping provided for renaming this variable
-        if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
+        var_name = self._getVariableIds()[1][avar_number]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
@@ -403,15 +438,17 @@ class NADictToXarrayObjects:
         if units:   
              axis.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
-            axis.name = safe_nc_id.sub("_", var_name).lower()
-        else:
-            axis.name = f"naIndVariable_{ivar_number}"
+        used_ids = set([ax.name for ax in self.xr_axes])
+        axis.name = self._makeId(var_name, f"naIndVariable_{ivar_number}", used_ids)
 
         axis_types = [("longitude", "X"), ("latitude", "Y"), ("level", "Z"), ("time", "T")]
 
         for axis_type, axis_label in axis_types:
 
+            # Only one axis of each type can be identified as such
+            if axis_type in [ax.name for ax in self.xr_axes]:
+                continue
+
             if re.search(axis_type, axis.name, re.IGNORECASE):
 
                 axis.attrs["standard_name"] = axis.name = axis_type
-- 
2.43.0


From f9a4f3e5476b4e68bfdb4aca99aed6da3387278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 21/66] fix: keep blank comment lines when converting comments
 to NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 3d5ac67..d394b31 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -142,33 +142,31 @@ class NADictToXarrayObjects:
 
                 if key == ("SCOM", "NCOM"):
                     # Map special and normal comments into the global comments section
-                    comment_line = ""
+                    comment_lines = []
 
                     # Add Special comments first
                     if self.na_file_obj.NSCOML > 0:
-                        comment_line += (hp["sc_start"] + "\n")
+                        comment_lines.append(hp["sc_start"])
 
                         for i in self.na_file_obj.SCOM: 
                 
                             if i.strip() not in special_comment_known_strings:
-                                comment_line += ("\n" + i)
+                                comment_lines.append(i)
                             
-                        comment_line += ("\n" + hp["sc_end"] + "\n")
+                        comment_lines.append(hp["sc_end"])
 
                     # Now add normal comments
                     if self.na_file_obj.NNCOML > 0:
-                        comment_line += (hp["nc_start"] + "\n")
+                        comment_lines.append(hp["nc_start"])
 
                         for i in self.na_file_obj.NCOM: 
                             if i.strip() not in normal_comment_known_strings:
-                                comment_line += ("\n" + i)
+                                comment_lines.append(i)
 
-                        comment_line += ("\n" + hp["nc_end"])
+                        comment_lines.append(hp["nc_end"])
 
-                    # Tidy comment line then write to global atts dict
-                    comment_line = comment_line.replace("\n\n", "\n")
-
-                    glob_atts["comment"] = comment_line
+                    # Write to global atts dict
+                    glob_atts["comment"] = "\n".join(comment_lines)
 
                 elif key == ("ONAME", "ORG"):
                     # Map the two organisation NA files to the institution field in Xarray (NetCDF)
-- 
2.43.0


From 596e6d551dc0542d8ca1acfb0a30ad84b2fb264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 22/66] fix: global attributes given by the user are not
 replaced by those of the file

---
 nappy/nc_interface/na_to_xarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index d394b31..bc1e95e 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -198,6 +198,9 @@ class NADictToXarrayObjects:
                 # Anything else just needs to be stored as a global attribute
                 glob_atts[na_to_nc_map[key]] = getattr(self.na_file_obj, key)
 
+        # Attributes given by the user take precedence
+        glob_atts.update(dict(self.global_attributes))
+
         # Now remake global atts list
         new_atts = []
 
-- 
2.43.0


From 08f706667d0158f603be98b1aa3fb561a4e351a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 23/66] fix: select each variable to convert to NetCDF by
 number or name, and refuse unknown auxiliary variables

---
 nappy/nc_interface/na_to_xarray.py | 64 +++++++++++++++---------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index bc1e95e..56c48bf 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -222,27 +222,38 @@ class NADictToXarrayObjects:
         self.xr_variables = []
 
         if self.variables in (None, "all"):    
-            for var_number in range(self.na_file_obj.NV):
-                self.xr_variables.append(self._convertNAToXarrayVariable(var_number))
-
+            var_numbers = range(self.na_file_obj.NV)
         else:
-            # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            var_numbers = self._selectNumbers(self.variables, self.na_file_obj.VNAME, self.na_file_obj.getVariables(), "Variable")
 
-                for var_number in self.variables:
-                    vn = int(var_number)
-                    self.xr_variables.append(self._convertNAToXarrayVariable(vn))
+        for var_number in var_numbers:
+            self.xr_variables.append(self._convertNAToXarrayVariable(var_number))
 
-            # If string: then use as variable names
-            elif isinstance(self.variables[0], str):
+    def _selectNumbers(self, selection, full_names, metadata, label):
+        """
+        Returns the list of the numbers of the variables in 'selection', where each item
+        is an index (number or string of digits), the full name of a variable or its name
+        without the units.
+        """
+        if isinstance(selection, (str, int)):
+            selection = [selection]
+
+        names = [item[0] for item in metadata]
+        numbers = []
+
+        for item in selection:
+            if item in full_names:
+                number = full_names.index(item)
+            elif item in names:
+                number = names.index(item)
+            elif re.match(r"\d+$", str(item)) and int(item) < len(full_names):
+                number = int(item)
+            else:
+                raise Exception(f"{label} name not known: {item}")
 
-                for var_name in self.variables:
+            numbers.append(number)
 
-                    if var_name in self.na_file_obj.VNAME:
-                        var_number = self.na_file_obj.VNAME.index(var_name)
-                        self.xr_variables.append(self._convertNAToXarrayVariable(var_number))
-                    else:
-                        raise Exception(f"Variable name not known: {var_name}")
+        return numbers
 
     def _makeId(self, name, default, used_ids):
         """
@@ -353,25 +364,12 @@ class NADictToXarrayObjects:
         self.xr_aux_variables = []
 
         if self.aux_variables in (None, "all"):
-
-            for avar_number in range(self.na_file_obj.NAUXV):
-                self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))
-
+            avar_numbers = range(self.na_file_obj.NAUXV)
         else:
-            if type(self.aux_variables[0]) == type(1): # They are integers = indices
-
-                for avar_number in self.aux_variables:
-                    self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))   
-
-            elif type(self.aux_variables[0]) == type("string"): # They are strings
+            avar_numbers = self._selectNumbers(self.aux_variables, self.na_file_obj.ANAME, self.na_file_obj.getAuxVariables(), "Auxiliary variable")
 
-                for avar_name in self.aux_variables:
-
-                    if avar_name in self.na_file_obj.ANAME:
-                        avar_number = self.na_file_obj.ANAME.index(avar_name)
-                        self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+        for avar_number in avar_numbers:
+            self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number))
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
-- 
2.43.0


From deb6d18d159588a7c45f6eaceb6eeb1d662c1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 24/66] fix: leave the time axis as the file describes it when
 no time units are given

---
 nappy/nc_interface/na_to_xarray.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 56c48bf..ca84178 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -465,16 +465,23 @@ class NADictToXarrayObjects:
 
                     if self.time_warning:
                         log.debug(message)
-                        time_units_input = input("Please insert your time unit string here (or leave blank):").strip()
+                        try:
+                            time_units_input = input("Please insert your time unit string here (or leave blank):").strip()
+                        except EOFError:
+                            # Nobody there to ask
+                            time_units_input = ""
                     else: 
                         time_units_input = ""
 
                 self.output_message.append(message)
                 self.time_units = time_units_input
 
-            axis.attrs["units"] = self.time_units
-            axis.encoding["units"] = self.time_units
-            axis.attrs["long_name"] = f"time ({self.time_units})"
+            # Without time units the axis is left as the file describes it
+            if self.time_units:
+                axis.attrs["units"] = self.time_units
+                axis.encoding["units"] = self.time_units
+                axis.attrs["long_name"] = f"time ({self.time_units})"
+
             axis.name = "time"
 
         axis.attrs["name"] = axis.name
-- 
2.43.0


From d84ceafcf89178138016759de90961fcc68928e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 25/66] fix: give auxiliary variables of FFI 1020 files an axis
 of their own when converting to NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index ca84178..f37dd0e 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -288,7 +288,7 @@ class NADictToXarrayObjects:
         """
         if not hasattr(self, "_variable_ids"):
             na = self.na_file_obj
-            used_ids = set([axis.name for axis in self.xr_axes])
+            used_ids = set([axis.name for axis in self.xr_axes + [self._getAuxAxis()]])
             var_ids = [self._makeId(na.getVariable(i)[0], f"naVariable_{i}", used_ids) for i in range(na.NV)]
             aux_ids = [self._makeId(na.getAuxVariable(i)[0], f"naAuxVariable_{i}", used_ids) for i in range(na.NAUXV or 0)]
 
@@ -296,6 +296,9 @@ class NADictToXarrayObjects:
             var_ids, aux_ids = [[self.rename_variables.get(i.lower(), i) for i in ids] for ids in (var_ids, aux_ids)]
 
             all_ids = [nappy.utils.common_utils.safe_name(i) for i in var_ids + aux_ids] + [axis.name for axis in self.xr_axes]
+            if self._getAuxAxis() is not self.xr_axes[0]:
+                all_ids.append(self._getAuxAxis().name)
+
             for i in all_ids:
                 if all_ids.count(i) > 1:
                     raise Exception(f"Variables cannot be renamed because more than one would be called: {i}")
@@ -390,7 +393,7 @@ class NADictToXarrayObjects:
             self._convertXarrayAxes()
 
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=[self._getAuxAxis()],
                                   fill_value=fill_value, attrs=attributes)
 
         # Sort units etc
@@ -406,6 +409,28 @@ class NADictToXarrayObjects:
         var.attrs["nasa_ames_aux_var_number"] = avar_number
         return var        
 
+    def _getAuxAxis(self):
+        """
+        Returns the axis of the auxiliary variables. It is the first axis of the main
+        variables, unless the values of that are only given at certain marks (FFI 1020).
+        """
+        axis = self.xr_axes[0]
+        marks = self.na_file_obj.X
+
+        if self.na_file_obj.FFI != 1020 or len(marks) == len(axis):
+            return axis
+
+        if not hasattr(self, "_aux_axis"):
+            name = axis.name + "_marks"
+            attrs = {key: axis.attrs[key] for key in ("long_name", "units")}
+            attrs["name"] = name
+            self._aux_axis = xr.DataArray(marks, name=name, dims=[name], attrs=attrs)
+
+            if "units" in axis.encoding:
+                self._aux_axis.encoding["units"] = axis.encoding["units"]
+
+        return self._aux_axis
+
     def _convertXarrayAxes(self): 
         """
         Creates Xarray axes from information provided in the NASA Ames dictionary.
-- 
2.43.0


From 39f30cfff5248d7e19eef517411351769e223444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 26/66] fix: keep the content of an existing NetCDF file when
 appending to it

---
 nappy/nc_interface/na_to_nc.py | 253 ++++++++++++++++++---------------
 1 file changed, 141 insertions(+), 112 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..39e31cf 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,112 +1,141 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        ds.to_netcdf(file_name)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+import os
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def _checkCanAppend(self, ds, file_name):
+        """
+        Checks that adding the dataset to the existing NetCDF file will not replace any
+        content of that. Global attributes that the file has are removed from the dataset.
+        """
+        with xr.open_dataset(file_name, decode_cf=False) as existing:
+            for name in ds.variables:
+                if name not in existing.variables:
+                    continue
+
+                # Variables can share an axis but only if it is the same one
+                if name not in ds.dims or name not in existing.dims or \
+                         not ds[name].equals(existing[name]) or \
+                         ds[name].attrs.get("units") != existing[name].attrs.get("units"):
+                    raise Exception(f"Cannot append to NetCDF file '{file_name}' because it already contains a different variable: {name}")
+
+            for name, size in existing.sizes.items():
+                if ds.sizes.get(name, size) != size:
+                    raise Exception(f"Cannot append to NetCDF file '{file_name}' because it has a different dimension: {name}")
+
+            ds.attrs = {key: value for key, value in ds.attrs.items() if key not in existing.attrs}
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file, provided that does not contain any variables
+        of the same name. The global attributes of an existing file are kept.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        variables = {da.name: da for da in combined_var_list}
+        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        if mode == "a" and os.path.exists(file_name):
+            self._checkCanAppend(ds, file_name)
+        else:
+            mode = "w"
+
+        ds.to_netcdf(file_name, mode=mode)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
-- 
2.43.0


From 6b505d1e2ad4790dd18398a78c47e19df7030545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 27/66] fix: write NASA Ames dictionaries to NetCDF

---
 nappy/nappy_api.py | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 7717de9..17d32ff 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,8 +338,8 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
@@ -365,32 +365,23 @@ def writeNADictToNC(na_dict, nc_file, mode="w"):
     Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
     Note that mode="a" might not always work.
     """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
-
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
+    import os
+    import tempfile
+    import nappy.nc_interface.na_to_nc
 
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+    # Convert via a temporary NASA Ames file holding all the digits of the numbers
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        na_file = os.path.join(tmp_dir, "na_dict.na")
 
-    # Now write them out
-    import xarray as xr
+        fout = openNAFile(na_file, mode="w", na_dict=dict(na_dict))
+        fout.write(float_format="%s")
+        fout.close()
 
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
+        convertor = nappy.nc_interface.na_to_nc.NAToNC(na_file, time_warning=False)
+        convertor.convert()
 
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
+    convertor.writeNCFile(nc_file, mode)
+    log.info("NetCDF file '%s' written successfully." % nc_file)
     return True
 
 
-- 
2.43.0


From 872d878f6a8907e53db063a2cd1091294ab731e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 28/66] fix: refuse files whose header is cut short or not of
 the declared length

---
 nappy/na_file/na_file.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 08b3049..2117a96 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -70,6 +70,7 @@ class NAFile(nappy.na_file.na_core.NACore):
 
         if self.mode == "r":
             self.readHeader()
+            self._checkHeaderLength()
         elif self.mode == "w":
             # Self flag to check if data written
             self.data_written = False
@@ -174,9 +175,26 @@ class NAFile(nappy.na_file.na_core.NACore):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
         for i in range(nlines):
-            lines.append(self.file.readline().strip())
+            line = self.file.readline()
+            if line == "":
+                raise Exception("Reached end of file before finding required number (" + str(nlines) + ") of lines.")
+            lines.append(line.strip())
         return lines
 
+    def _checkHeaderLength(self):
+        """
+        Raises an error if the number of lines read as the header is not the number
+        of header lines that the file declares.
+        """
+        n_remaining = len(self.file.readlines())
+
+        with open(self.filename) as fh:
+            n_header = len(fh.readlines()) - n_remaining
+
+        if n_header != self.NLHEAD:
+            raise Exception("Number of header lines found (%d) is not as declared in the file (%d)." %
+                            (n_header - self.ignore_header_lines, self.NLHEAD - self.ignore_header_lines))
+
     def _checkForBlankLines(self, datalines):
         """
         Searches for empty lines in the middle of the data section and raises
-- 
2.43.0


From 14f9eada6f1d2001128cb3a5259056be3ca72b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 29/66] fix: readFFI can be called with just a file name, as
 documented

---
 nappy/utils/common_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 1665755..9f42db3 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -32,7 +32,7 @@ def getNAFileClass(ffi):
     return eval("%s.%s" % (mod, cls))
    
 
-def readFFI(filename, ignore_header_lines):
+def readFFI(filename, ignore_header_lines=0):
     """
     Function to read the top line of a NASA Ames file to extract
     the File Format Index (FFI) and return it as an integer.
-- 
2.43.0


From 52690451a77e47dc7a45a18bf9f19f67632ae370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 30/66] fix: convert times with their own units and calendar,
 whatever the time axis is called

---
 nappy/nc_interface/na_content_collector.py | 29 ++++---
 nappy/nc_interface/xarray_utils.py         | 91 +++++++++++++++-------
 2 files changed, 82 insertions(+), 38 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..7c176e2 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -371,13 +371,14 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     self.na_dict["DX"] = [0]
                 else:
                     # Set default increment as gap between first two
-                    incr = xarray_utils.get_interval(self.ax0, 0, 1)
+                    values = self.na_dict["X"][0]
+                    incr = xarray_utils.get_interval(values, 0, 1)
 
                     self.na_dict["DX"] = [incr]
                     # Now overwrite it as zero if non-uniform interval in axis
 
-                    for i in range(1, len(self.ax0)):
-                        if xarray_utils.get_interval(self.ax0, i-1, i) != incr:
+                    for i in range(1, len(values)):
+                        if xarray_utils.get_interval(values, i-1, i) != incr:
                             self.na_dict["DX"] = [0]
                             break
 
@@ -482,6 +483,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         NASA Ames). It appends to the various self.na_dict containers.
         """
         length = len(axis)
+        values = xarray_utils.getArrayAsList(axis)
 
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
@@ -490,16 +492,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)
             return
 
-        incr = xarray_utils.get_interval(axis, 0, 1)
+        incr = xarray_utils.get_interval(values, 0, 1)
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
+            if xarray_utils.get_interval(values, i - 1, i) != incr:
                 self.na_dict["DX"].append(0)
                 self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+                self.na_dict["X"].append(values)
                 break
 
         else: # If did not break out of the loop
@@ -509,7 +511,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+            self.na_dict["X"].append(values[:max_length])
 
     def _defineNAGlobals(self):
         """
@@ -767,20 +769,23 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if xarray_utils.is_time(self.ax0):
             # Get first date in list
             try:
-                units = self.ax0.encoding["units"]
+                units, calendar = xarray_utils.get_time_units(self.ax0)
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
                 while hasattr(first_day, "__len__"):
                     first_day = first_day[0]
 
-                self.na_dict["DATE"] = \
-                    [getattr(cftime.num2date(first_day, units), attr) for attr in ('year', 'month', 'day')]                
+                first_date = cftime.num2date(first_day, units, calendar=calendar)
+                self.na_dict["DATE"] = [getattr(first_date, attr) for attr in ('year', 'month', 'day')]
             except Exception:
                 msg = warning_message
                 log.info(msg)
                 self.output_message.append(msg)
-                self.na_dict["DATE"] = [999] * 3 
+
+                # Keep the date if previously known
+                if not "DATE" in self.na_dict:
+                    self.na_dict["DATE"] = [999] * 3
 
         else: 
             if not "DATE" in self.na_dict:
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..53b0e54 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -5,6 +5,7 @@ xarray_utils.py
 A set of useful functions involving xarray objects.
 """
 
+import datetime
 import re
 
 import numpy as np
@@ -47,7 +48,7 @@ def getBestName(var):
     # See if we can get the units from the encoding if not defined.
     # This is required for time.
     if not units:
-        units = var.encoding.get("units", "")
+        units = get_time_units(var)[0]
 
     units = units.strip()
 
@@ -94,16 +95,16 @@ def isUniformlySpaced(arr):
     """
     Returns True if array values are uniformaly spaced else returns False.
     """
-    if is_time(arr):
+    if isinstance(arr, xr.DataArray):
         arr = datetimes_to_nums(arr)
-    else:
-        arr = np.array(arr)
 
-    start = arr[0]
-    end = arr[-1]
-    length = len(arr)
+    arr = np.array(arr, dtype=float)
+
+    if len(arr) < 2:
+        return True
 
-    return all(np.linspace(start, end, length) == arr)
+    incr = arr[1] - arr[0]
+    return np.allclose(arr[0] + incr * np.arange(len(arr)), arr, rtol=1e-12, atol=1e-9 * abs(incr))
 
 
 def isAxisRegularlySpacedSubsetOf(ax1, ax2):
@@ -285,22 +286,67 @@ def create_data_array(arr, name, coords, attrs, fill_value):
     return da
 
 
+def has_datetimes(arr):
+    """
+    Returns True if the values in the numpy array are dates.
+    """
+    if arr.dtype.kind == "O":
+        return any(isinstance(value, (cftime.datetime, datetime.datetime)) for value in arr.flat)
+
+    return arr.dtype.kind == "M"
+
+
+def get_time_units(da):
+    """
+    Returns (units, calendar) of the numbers that represent the times in ``da``.
+    These are its own, or those xarray would choose if it has none.
+    """
+    units = da.attrs.get("units", None) or da.encoding.get("units", "")
+    calendar = da.attrs.get("calendar", None) or da.encoding.get("calendar", None)
+
+    if not units and has_datetimes(resolve_array(da.data)):
+        encoded = xr.conventions.encode_cf_variable(xr.Variable(da.dims, resolve_array(da.data)))
+        units, calendar = encoded.attrs["units"], encoded.attrs["calendar"]
+
+    return units, calendar or "standard"
+
+
 def datetimes_to_nums(da):
-    units = da.time.encoding['units']
-    calendar = da.time.encoding.get('calendar', 'standard')
-    arr = cftime.date2num(da.data, units, calendar=calendar)
+    """
+    Returns the numbers that represent the times in ``da``, using its own units and
+    calendar. Missing times become NaN and values that are numbers stay as they are.
+    """
+    values = resolve_array(da.data)
+
+    if not has_datetimes(values):
+        return values
+
+    units, calendar = get_time_units(da)
+
+    if values.dtype.kind == "M":
+        values = values.astype("datetime64[us]").astype(object)
+
+    missing = values != values
+    missing |= np.equal(values, None)
+
+    if not missing.any():
+        return cftime.date2num(values, units, calendar=calendar)
+
+    arr = np.full(values.shape, np.nan)
+    arr[~missing] = cftime.date2num(values[~missing], units, calendar=calendar)
     return arr
 
 
 def get_interval(da, indx1, indx2, handle_datetimes=True):
     if not isinstance(da, xr.DataArray):
         arr = da
-    elif is_time(da) and handle_datetimes:
+    elif handle_datetimes:
         arr = datetimes_to_nums(da)
     else:
         arr = da.data
 
-    return arr[indx2] - arr[indx1]
+    # Use Python numbers because unsigned or small integers cannot hold all differences
+    return np.asarray(arr[indx2]).item() - np.asarray(arr[indx1]).item()
 
 
 def getArrayAsList(da, missing_value=None, handle_datetimes=True):
@@ -311,22 +357,15 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
     If ``handle_datetimes`` is True, then ensure that the units and
     calendar are used to convert datetimes to sensible values.
     """
-    if is_time(da, test_by_values=True) and handle_datetimes:
+    if handle_datetimes:
         arr = datetimes_to_nums(da)
-
-    elif missing_value is not None:
-        arr = resolve_array(da.data)
-        found_nans = np.isnan(arr).any()
-
-        if found_nans:
-            arr = da.fillna(missing_value).data
-        else:
-            arr = da.data
-
     else:
-        arr = da.data
+        arr = resolve_array(da.data)
 
-    arr = resolve_array(arr)
+    if missing_value is not None and arr.dtype.kind == "f":
+        # Use double precision because the missing value might not be a single precision number
+        arr = arr.astype(float)
+        arr[np.isnan(arr)] = missing_value
 
     return arr.tolist()
 
-- 
2.43.0


From e68a60d73118117fbd28cef6404871c2cc030cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 31/66] fix: tell apart axes that have some of their values in
 common

---
 nappy/nc_interface/xarray_utils.py | 35 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 53b0e54..63216e0 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -88,7 +88,7 @@ def getAxisList(var):
     """
     Returns a list of coordinates from: var
     """ 
-    return [var.coords[key] for key in var.dims]
+    return [var[key] for key in var.dims]
 
 
 def isUniformlySpaced(arr):
@@ -127,8 +127,8 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
    
     If check_id == False then don't compare the ids of the axes.
     """
-    for axtype in ("time", "level", "latitude", "longitude"):
-        if axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
+    for is_type in (is_time, is_latitude, is_longitude):
+        if is_type(ax1) != is_type(ax2):
             return False
 
     # Check ids
@@ -142,7 +142,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or np.any(ax1.data != ax2.data):
             return False
 
     else:
@@ -151,18 +151,14 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
         len2 = len(ax2)
 
         # Check length of 1 divides into length of 2
-        if len2 % len1 != 0:
+        if len1 == 0 or len2 <= len1 or len2 % len1 != 0:
             return False
 
         # Now test if it is subset
-        n = int(len2 / len1)
+        n = len2 // len1
 
-        for i in range(len(ax1)):
-            ax2_value = ax2[n*i]
-            test_value = ax1[i]
-
-            if ax2_value != test_value:
-                return False
+        if np.any(ax2.data[::n] != ax1.data):
+            return False
 
         # If we got here then return len2 / len1
         return n
@@ -179,7 +175,7 @@ def is_latitude(coord):
     :return: (bool) True if the coordinate is latitude.
     """
 
-    if "latitude" in coord.cf and coord.cf["latitude"].name == coord.name:
+    if coord.name in coord.cf.coordinates.get("latitude", []):
         return True
 
     if coord.attrs.get("standard_name", None) == "latitude":
@@ -195,7 +191,7 @@ def is_longitude(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is longitude.
     """
-    if "longitude" in coord.cf and coord.cf["longitude"].name == coord.name:
+    if coord.name in coord.cf.coordinates.get("longitude", []):
         return True
 
     if coord.attrs.get("standard_name", None) == "longitude":
@@ -211,12 +207,11 @@ def is_level(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is level.
     """
-    if "vertical" in coord.cf and coord.cf["vertical"].name == coord.name:
+    if coord.name in coord.cf.coordinates.get("vertical", []):
         return True
 
-    if hasattr(coord, "positive"):
-        if coord.attrs.get("positive", None) == "up" or "down":
-            return True
+    if coord.attrs.get("positive", None) in ("up", "down"):
+        return True
 
     if hasattr(coord, "axis"):
         if coord.attrs.get("axis", None) == "Z":
@@ -233,7 +228,7 @@ def is_time(coord, test_by_values=False):
     :test_by_values: boolean to decide whether to identify by checking first value type
     :return: (bool) True if the coordinate is time.
     """
-    if "time" in coord.cf and coord.cf["time"].name == coord.name:
+    if coord.name in coord.cf.coordinates.get("time", []):
         return True
 
     if np.issubdtype(coord.dtype, np.datetime64):
@@ -266,7 +261,7 @@ def get_coord_by_index(da, indx):
     indx=0 will return the coordinate labelled as 'time'.
     """
     coord_name = da.dims[indx]
-    return da.coords[coord_name]
+    return da[coord_name]
 
 
 def get_dim_names_for_variables(variables):
-- 
2.43.0


From ae9ba8ae42f756829c8175a22a5abe100ab27dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 32/66] fix: accept numbers, empty text and several lines as
 names and units

---
 nappy/nc_interface/xarray_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 63216e0..2a9c3bc 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -28,8 +28,11 @@ def getBestName(var):
 
     # Deal with object that has attributes
     for att in att_order:
-        if hasattr(var, att):   
-            name = getattr(var, att)
+        name = getattr(var, att, None)
+        # Names must fit on a single line
+        if name is not None:
+            name = " ".join(str(name).splitlines()).strip()
+        if name:
             break
 
     # Deal with object that has dictionary lookup instead of attributes
@@ -50,7 +53,7 @@ def getBestName(var):
     if not units:
         units = get_time_units(var)[0]
 
-    units = units.strip()
+    units = " ".join(str(units).splitlines()).strip()
 
     if units:
         name = f"{name} ({units})"
-- 
2.43.0


From f0ea2e09929345725947aca276aaa28c037c850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 33/66] fix: declare missing values that are numbers and differ
 from all other values

---
 nappy/nc_interface/na_content_collector.py | 16 ++-----------
 nappy/nc_interface/xarray_utils.py         | 26 +++++++++++++++++-----
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 7c176e2..d7d8c67 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -319,17 +319,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             raise Exception("Cannot write this data to FFI '" + str(self.requested_ffi) + "', can only write to: " + str(ffi) + ".")
         return ffi
 
-    def _resolve_float(self, item):
-        """
-        Gets a float from a number of different types of object.
-        """
-        if not type(item) in (float, int, str, np.number) and not np.isscalar(item):
-            if isinstance(item, np.ndarray) and item.shape == ():
-                item = float(item)
-            else:
-                item = item[0]
 
-        return item
 
     def _defineNAVars(self, vars):
         """
@@ -345,8 +335,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for var in vars:
             name = xarray_utils.getBestName(var)
             self.na_dict["VNAME"].append(name)
-            miss = xarray_utils.getMissingValue(var)
-            miss = self._resolve_float(miss)
+            miss = xarray_utils.getUnusedMissingValue(var)
 
             self.na_dict["VMISS"].append(miss)
             self.na_dict["VSCAL"].append(1)
@@ -466,8 +455,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for var in aux_vars:
             name = xarray_utils.getBestName(var)
             self.na_dict["ANAME"].append(name)
-            miss = xarray_utils.getMissingValue(var)
-            miss = self._resolve_float(miss)
+            miss = xarray_utils.getUnusedMissingValue(var)
 
             self.na_dict["AMISS"].append(miss)
             self.na_dict["ASCAL"].append(1)
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 2a9c3bc..349baeb 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -73,17 +73,31 @@ def getMissingValue(var):
     """
     Returns the missing value or defaults to -1.e20
     """
-    miss = None
-
     if hasattr(var, "encoding"):
         for key in ("_FillValue", "missing_value", "_fill_value"):
-            if key in var.encoding: 
-                miss = var.encoding[key]
-                break
+            miss = np.ravel(var.encoding.get(key, []))
+
+            # The value must be a number that can be written, read and compared
+            if len(miss) > 0 and miss.dtype.kind in "iuf" and np.isfinite(miss[0]):
+                return miss[0].item()
+
+    return -1.e20
+
 
-    if miss is None:
+def getUnusedMissingValue(var):
+    """
+    Returns the missing value as getMissingValue() does unless some (decoded) value
+    of ``var`` is equal to it, then returns a number that is none of the values.
+    """
+    miss = getMissingValue(var)
+    values = getArrayAsList(var)
+
+    if np.any(np.equal(values, miss)):
         miss = -1.e20
 
+    while np.any(np.equal(values, miss)):
+        miss = miss * 10
+
     return miss
 
 
-- 
2.43.0


From 8501ad3071ec96161051a314bd648911735707c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 34/66] fix: write auxiliary variables given at regular marks
 (FFI 1020), and keep auxiliary variables (FFI 1010)

---
 nappy/nc_interface/na_content_collector.py | 74 ++++++++++++++++------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index d7d8c67..33c2536 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -179,7 +179,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for var in rest_of_the_vars:
 
-            if var.name in self.rank_zero_var_ids: continue
+            if len(var.shape) == 0: continue
 
             # What to do with variables that have different number of dimensions or different shape
             if len(var.shape) != number_of_dims or var.shape != shape: 
@@ -193,27 +193,19 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if not xarray_utils.areAxesIdentical(best_var_axes[0], first_axis):
 
                     # If not identical, then it might still qualify as an auxiliary every n time points - valid for 1020
-                    if len(var.shape) == 1:
-                        nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
-
-                        # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
-                            ffis_limited = [1020]
-                            self.na_dict["NVPM"] = nvpm
-                        else: # if returned False, i.e. not regular subset axis
-                            self.unused_vars.append(var)
-
-                    else:
+                    nvpm = number_of_dims == 1 and self._getImpliedValueCount(var, first_axis, best_var_axes[0])
+
+                    # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1)), the same for all
+                    if nvpm and self.na_dict.get("NVPM", nvpm) == nvpm:
+                        ffis_limited = [1020]
+                        self.na_dict["NVPM"] = nvpm
+                        aux_vars_for_na.append(var)
+                    else: # if returned False, i.e. not regular subset axis
                         self.unused_vars.append(var)
-                        continue
 
                 else:
                     # This could be used as a standard auxiliary variable
-                    if ffis_limited in ([1020],):
-                        # Already fixed on 1020 and cannot collect incompatible FFI vars so do not use
-                        self.unused_vars.append(var)
-                    else:
-                        aux_vars_for_na.append(var) 
+                    aux_vars_for_na.append(var) 
 
             else:
                 this_var_axes = xarray_utils.getAxisList(var)
@@ -228,6 +220,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # OK, I think the current variable is compatible to write with the best variable along with a NASA Ames file 
                     vars_for_na.append(var)
 
+        # One-dimensional variables that were auxiliary variables in a NASA Ames file are
+        # auxiliary variables again (FFI 1010)
+        if number_of_dims == 1 and not ffis_limited and self.requested_ffi in (None, 1010):
+            previously_aux = [var for var in vars_for_na if "nasa_ames_aux_var_number" in var.attrs]
+
+            if len(previously_aux) < len(vars_for_na):
+                vars_for_na = [var for var in vars_for_na if "nasa_ames_aux_var_number" not in var.attrs]
+                aux_vars_for_na = previously_aux
+
         # Send vars_for_na AND aux_vars_for_na to a method to check if they have previously been mapped 
         # from NASA Ames. In which case we'll write them back in the order they were initially read from the input file.
         (vars_for_na, aux_vars_for_na) = \
@@ -239,6 +240,38 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         return vars_for_na, aux_vars_for_na
 
+    def _getImpliedValueCount(self, var, marks, axis):
+        """
+        Returns the number of values that would be implied for each mark if 'var', which is
+        defined on the axis 'marks', were an auxiliary variable (FFI 1020) to variables
+        defined on 'axis'. Returns False if it cannot be one, or need not be because neither
+        was it one in a NASA Ames file nor has the user requested FFI 1020.
+        """
+        if self.requested_ffi != 1020 and (self.requested_ffi or "nasa_ames_aux_var_number" not in var.attrs):
+            return False
+
+        nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(marks, axis)
+
+        # The increment must be the same everywhere between the marks
+        if nvpm and self._getImpliedIncrement(axis, nvpm) is None:
+            return False
+
+        return nvpm
+
+    def _getImpliedIncrement(self, axis, nvpm):
+        """
+        Returns the increment between the values on 'axis' of which only one in every 'nvpm'
+        is given, or None if that is not always the same.
+        """
+        values = np.array(xarray_utils.getArrayAsList(axis), dtype=float).reshape(-1, nvpm)
+        incr = xarray_utils.get_interval(values[0], 0, 1)
+        implied = values[:, :1] + incr * np.arange(nvpm)
+
+        if incr == 0 or not np.allclose(implied, values, rtol=1e-12, atol=1e-9 * abs(incr)):
+            return None
+
+        return incr
+
     def _reorderVarsIfPreviouslyNA(self, vars_for_na, aux_vars_for_na):
         """
         Re-order if they previously came from NASA Ames files (i.e. including the 
@@ -300,7 +333,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 return self.requested_ffi
 
         # Base the sub-selection on number of dimensions
-        if number_of_dims > 4:
+        if ffis_limited == [1020]:
+            ffi = 1020
+        elif number_of_dims > 4:
             raise Exception("Cannot write variables defined against greater than 4 axes in NASA Ames format.")
         elif number_of_dims > 2: 
             ffi = 10 + (number_of_dims * 1000)
@@ -379,6 +414,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 1020: 
                     vals = self.na_dict["X"]
                     self.na_dict["X"] = vals[0:len(vals):self.na_dict["NVPM"]] 
+                    self.na_dict["DX"] = [self._getImpliedIncrement(self.ax0, self.na_dict["NVPM"])]
 
                 # Now add the rest of the axes to the self.na_dict objects 
                 for axis in xarray_utils.getAxisList(var)[1:]:
-- 
2.43.0


From dafa72712bbe76f0b3fff7986aa0635bd90df9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 35/66] fix: define axes of FFI 2110 and 2310 by numbers, with
 the increment of the unbounded axis

---
 nappy/nc_interface/na_content_collector.py | 27 +++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 33c2536..0f09df4 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -425,10 +425,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
-                        new_x.append([i, ax2_values])
+                    for i in self.na_dict["X"][0]:
+                        new_x.append([i, ax2_values[:]])
                         new_nx.append(len(ax2_values))
 
                     # Re-assign to new lists
@@ -438,7 +438,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # Now auxiliary variable info here with independent var info
                     # First aux var is NX
                     self.na_dict["A"] = [self.na_dict["NX"][:]]
-                    ind_var_name = self.na_dict["XNAME"][0]
+                    ind_var_name = self.na_dict["XNAME"][1]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name]
                     self.na_dict["AMISS"] = [-9999.999]
                     self.na_dict["ASCAL"] = [1.0]
@@ -448,27 +448,32 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
-                    incr = xarray_utils.get_interval(ax2_values, 0, 1)
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
-                        new_x.append([i, ax2_values])
+                    if len(ax2_values) > 1:
+                        incr = xarray_utils.get_interval(ax2_values, 0, 1)
+                    else:
+                        incr = 0
+
+                    for i in self.na_dict["X"][0]:
+                        new_x.append([i, ax2_values[:1]])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
 
                     # Re-assign to new lists
                     self.na_dict["NX"] = new_nx
                     self.na_dict["X"] = new_x
-                    self.na_dict["DX"] = new_dx
+                    # The increment of the unbounded axis, followed by those of the bounded one
+                    self.na_dict["DX"] = self.na_dict["DX"][:1] + new_dx
 
                     # Now auxiliary variable info here with independent var info
                     # First three aux vars are NX, X0 and DX
                     self.na_dict["A"] = []
                     self.na_dict["A"].append(self.na_dict["NX"][:])
                     self.na_dict["A"].append([i[1][0] for i in self.na_dict["X"]])
-                    self.na_dict["A"].append(self.na_dict["DX"][:])
+                    self.na_dict["A"].append(new_dx[:])
 
-                    ind_var_name = self.na_dict["XNAME"][0]
+                    ind_var_name = self.na_dict["XNAME"][1]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name,
                                              "'%s' value for first data point" % ind_var_name,
                                              "'%s' increment" % ind_var_name]
-- 
2.43.0


From c2271031f1ef417cd72991d76335dad9da656eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 36/66] fix: put all global and variable attributes in the
 header, on lines of their own

---
 nappy/nc_interface/na_content_collector.py | 151 +++++++++------------
 nappy/nc_interface/xarray_utils.py         |  13 ++
 2 files changed, 80 insertions(+), 84 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 0f09df4..00f6d8e 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -92,19 +92,19 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for v in self.vars: 
             log.debug(f"\t{v.name}, {v.shape}, {v.dims}")
  
-        (self.ordered_vars, aux_vars) = self._analyseVariables()
+        (self.ordered_vars, self.aux_vars) = self._analyseVariables()
      
         if self.ordered_vars == []:
             log.warn("No NASA Ames content created.")
             self.unused_vars = []
         else:
             self.var_ids = [[var.name for var in self.ordered_vars],
-                            [var.name for var in aux_vars], 
+                            [var.name for var in self.aux_vars], 
                             self.rank_zero_var_ids]
 
             self.na_dict["NLHEAD"] = -999
             self._defineNAVars(self.ordered_vars)
-            self._defineNAAuxVars(aux_vars)
+            self._defineNAAuxVars(self.aux_vars)
             self._defineNAGlobals()
             self._defineNAComments()
             self._defineGeneralHeader()
@@ -552,19 +552,23 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         local_nc_to_na_map = nc_to_na_map.copy()
 
         for att, value in local_nc_atts.items():
-            if att not in local_nc_to_na_map:
-                local_nc_to_na_map[key] = value
+            if att not in local_nc_to_na_map and value in ("ONAME", "ORG", "SNAME", "MNAME"):
+                local_nc_to_na_map[att] = value
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
         for key, value in self.globals.items():
-            if key != "first_valid_date_of_data" and \
-                    type(value) not in (str, int, float):
-                continue
+            # The first date is a list of numbers, everything else is represented as text
+            if key != "first_valid_date_of_data":
+                value = xarray_utils.getAttributeAsString(value)
 
             # Loop through keys of header/comment items to map
             if key in local_nc_to_na_map:
-                if key == "history":
+                if local_nc_to_na_map[key] in ("FFI", "NLHEAD", "IVOL", "NVOL"):
+                    # These describe the structure of the output file, not that of any earlier file
+                    continue
+
+                elif key == "history":
                     time_string = time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(time.time()))
                     history = "History:  %s - Converted to NASA Ames format using nappy-%s.\n  %s" % \
                                                  (time_string, version, value)
@@ -587,9 +591,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         self.na_dict["ONAME"] = value
                         self.na_dict["ORG"] = value
 
-                    # NOTE: should probably do the following search and replace on all string lines
-                    self.na_dict["ONAME"] = self.na_dict["ONAME"].replace("\n", "  ")
-                    self.na_dict["ORG"] = self.na_dict["ORG"].replace("\n", "  ")
+                    for item in ("ONAME", "ORG"):
+                        self.na_dict[item] = "  ".join(self.na_dict[item].splitlines())
 
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
@@ -630,12 +633,20 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     ]  
 
                 elif key == "first_valid_date_of_data":
-                    self.na_dict["DATE"] = value
+                    if isinstance(value, str):
+                        value = re.split(r"[\s,-]+", value.strip())
+
+                    try:
+                        (year, month, day) = [int(i) for i in value]
+                        self.na_dict["DATE"] = [year, month, day]
+                    except (TypeError, ValueError):
+                        self.extra_comments[2].append(f"{key}:   {xarray_utils.getAttributeAsString(value)}")
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
                 else:
-                    self.na_dict[local_nc_to_na_map[key]] = value
+                    # Header items must fit on a single line
+                    self.na_dict[local_nc_to_na_map[key]] = "  ".join(value.splitlines())
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
 
@@ -679,23 +690,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             NCOM.append(hp["nc_end"])
             NCOM.append(hp["data_next"])
 
-        spec_comm_flag = None
         # Start with special_comments added in
-        SCOM = []
-
         # Uses first item in self.extra_comments to start SCOM
-        special_comments = special_comments + self.extra_comments[0]
-
-        if len(special_comments) > 0: 
-            SCOM = [hp["sc_start"]]
-            spec_comm_flag = 1
+        SCOM = special_comments + self.extra_comments[0]
 
-        for scom in special_comments:
-            SCOM.append(scom)
-
-        used_var_atts = ("id",  "missing_value", "fill_value", 
+        used_var_atts = ("missing_value", "fill_value", 
                    "nasa_ames_var_number", "nasa_ames_aux_var_number")
-        var_comm_flag = None
 
         # Create a string for the Special comments to hold rank-zero vars
         rank_zero_vars_string = []
@@ -703,74 +703,40 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for var in self.rank_zero_vars:
             rank_zero_vars_string.append("  Variable %s: %s" % (var.name, xarray_utils.getBestName(var)))
 
-            for att in var.attrs.keys():
-                value = var.attrs[att]
-
-                if isinstance(value, str) or np.isscalar(value):
-                    rank_zero_vars_string.append("    %s = %s" % (att, var.attrs[att]))
+            for att, value in var.attrs.items():
+                rank_zero_vars_string.append("    %s = %s" % (att, xarray_utils.getAttributeAsString(value)))
 
         if len(rank_zero_vars_string) > 0:
-            rank_zero_vars_string.insert(0, hp["sing_start"])
-            rank_zero_vars_string.append(hp["sing_end"])
-
-        # Loop through variables and add 
-        for var in self.ordered_vars:
-            varflag = "unused"
-            var_name_written = False
-
-            name = xarray_utils.getBestName(var)
-
-            for scom, value in var.attrs.items():
-                if hasattr(value, "__len__") and len(value) == 1:
-                    value = value[0]
+            SCOM.append(hp["sing_start"])
+            SCOM.extend(rank_zero_vars_string)
+            SCOM.append(hp["sing_end"])
 
-                if isinstance(value, str) or np.isscalar(value) and scom not in used_var_atts:
-                    if varflag == "unused":
-                        if var_comm_flag == None:
-                            var_comm_flag = 1
+        # Loop through variables and add their attributes
+        var_atts_string = []
 
-                    if spec_comm_flag == None:
-                        SCOM = [hp["sc_start"]] + rank_zero_vars_string
-                        SCOM.append(hp["addl_vatts"])
-                        SCOM.append(hp["ncatts_start"])
-                        varflag = "using" 
-                        spec_comm_flag = 1
+        for var in self.ordered_vars + self.aux_vars:
+            atts = [(att, value) for att, value in var.attrs.items() if isinstance(value, str) or att not in used_var_atts]
 
-                    if not var_name_written:
-                        SCOM.append("  Variable %s: %s" % (var.name, name))
-                        var_name_written = True
+            if len(atts) > 0:
+                var_atts_string.append("  Variable %s: %s" % (var.name, xarray_utils.getBestName(var)))
 
-                    SCOM.append("    %s = %s" % (scom, value))
+            for att, value in atts:
+                var_atts_string.append("    %s = %s" % (att, xarray_utils.getAttributeAsString(value)))
 
-        if var_comm_flag == 1:  
+        if len(var_atts_string) > 0:
+            SCOM.append(hp["addl_vatts"])
+            SCOM.append(hp["ncatts_start"])
+            SCOM.extend(var_atts_string)
             SCOM.append(hp["ncatts_end"])
-        if spec_comm_flag == 1:
+
+        # When SCOM has been defined then surround it in some extras
+        if len(SCOM) > 0:
+            SCOM.insert(0, hp["sc_start"])
             SCOM.append(hp["sc_end"])
 
         # Strip out empty lines (or returns)
-        NCOM_cleaned = []
-        SCOM_cleaned = []
-
-        for c in NCOM:
-            if c.strip() not in ("", " ", "  "):
-                # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
-                for line in lines:
-                    if line != lines[0]: 
-                        line = "  " + line
-
-                    NCOM_cleaned.append(line)
-
-        for c in SCOM:
-            if c.strip() not in ("", " ", "  "):
-                # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
-
-                for line in lines:
-                    if line != lines[0]: 
-                        line = "  " + line
-
-                    SCOM_cleaned.append(line)
+        NCOM_cleaned = self._cleanComments(NCOM)
+        SCOM_cleaned = self._cleanComments(SCOM)
 
         self.na_dict["NCOM"] = NCOM_cleaned
         self.na_dict["NNCOML"] = len(self.na_dict["NCOM"])
@@ -779,6 +745,23 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         return
 
+    def _cleanComments(self, comments):
+        """
+        Returns the list of comment lines without the empty ones. Where a comment has
+        several lines those after the first are indented so that it is easier to read.
+        """
+        cleaned = []
+
+        for comment in comments:
+            for count, line in enumerate(re.split(r"\r\n|\r|\n", comment)):
+                if count > 0:
+                    line = "  " + line
+
+                if line.strip():
+                    cleaned.append(line)
+
+        return cleaned
+
     def _defineGeneralHeader(self, header_items=None):
         """
         Defines known header items and overwrites any with header_items 
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 349baeb..e61c12c 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -69,6 +69,19 @@ def getBestName(var):
     return name
 
 
+def getAttributeAsString(value):
+    """
+    Returns the value of an attribute (some text, a number or an array of these) as text.
+    """
+    if isinstance(value, bytes):
+        return value.decode(errors="replace")
+
+    if isinstance(value, (list, tuple, np.ndarray)):
+        return ", ".join([getAttributeAsString(item) for item in np.ravel(value)])
+
+    return str(value)
+
+
 def getMissingValue(var):
     """
     Returns the missing value or defaults to -1.e20
-- 
2.43.0


From 9fb8c0306d49f8a339fb0b1faf014a4ff593c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 37/66] fix: annotate lines as they are in the file

---
 nappy/utils/common_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 9f42db3..b72928c 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -208,7 +208,7 @@ def annotateLines(item_name, annotate, delimiter, lines):
     Takes item_name to look up, delimiter and item to render and returns full line.
     """
 
-    split_lines = lines.splitlines(1)
+    split_lines = StringIO(lines).readlines()
     output = ""
 
     count = 1
-- 
2.43.0


From a8a5e1dfcfeb746c36ec7fa4d94541128586893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 38/66] fix: report the values of text and time variables
 without dimensions

---
 nappy/nc_interface/nc_to_na.py     | 197 ++++++++++++++---------------
 nappy/nc_interface/xarray_to_na.py |  11 +-
 nappy/utils/common_utils.py        |   2 +
 3 files changed, 106 insertions(+), 104 deletions(-)

diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 364cb4a..bcc086e 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -1,102 +1,95 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-nc_to_na.py
-=============
-
-Holds the class NCToNA (sub-classing XarrayToNA) that converts a NetCDF file to
-one or more NASA Ames files.
-
-"""
-
-# Imports from python standard library
-import sys
-import logging
-
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy
-from nappy.utils.common_utils import fuzzy_contains, get_rank_zero_array_value
-import nappy.nc_interface.xarray_to_na
-
-log = logging.getLogger(__name__)
-
-
-class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
-    """
-    Converts a NetCDF file to one or more NASA Ames files.
-    """
-
-    def __init__(self, nc_file, var_ids=None, na_items_to_override=None, 
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None,
-            ):
-        """
-        Sets up instance variables.
-        Typical usage is:
-        >>>    import nappy.nc_interface.nc_to_na as nc_to_na
-        >>>    c = nc_to_na.NCToNA("old_file.nc") 
-        >>>    c.convert()
-        >>>    c.writeNAFiles("new_file.na", delimiter=",") 
-
-        OR:
-        >>>    c = nc_to_na.NCToNA("old_file.nc") 
-        >>>    file_names = c.constructNAFileNames() 
-        """
-        self.nc_file = nc_file
-
-        # Now need to read Xarray file so parent class methods are compatible
-        xr_variables, global_attributes = self._readXarrayFile(var_ids, exclude_vars)
-
-        super().__init__(xr_variables, global_attributes=global_attributes, 
-                         na_items_to_override=na_items_to_override, 
-                         only_return_file_names=only_return_file_names,
-                         requested_ffi=requested_ffi)
- 
-
-    def _readXarrayFile(self, var_ids=None, exclude_vars=None, exclude_bounds=True):
-        """
-        Reads the file and returns all the Xarray variables in a list as well
-        as the global attributes: (xr_variable_list, global_atts_list)
-        If var_ids is defined then only get those.
-        If exclude_bounds is True: exclude "bounds" variables.
-        """
-        exclude_vars = exclude_vars or []
-
-        ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
-        xr_variables = []
-
-        # Make sure var_ids is a list
-        if isinstance(var_ids, str):
-            var_ids = [var_ids]
-
-        # Identify bounds variables
-        bounds_vars = {ds[var_id].attrs.get("bounds", None) for var_id in ds.variables}
-
-        if None in bounds_vars:
-            bounds_vars.remove(None)
-
-        for var_id in ds.variables:
-            if var_ids == None or var_id in var_ids:
-
-                # Process required variables
-                if not fuzzy_contains(var_id, exclude_vars):
-                    if exclude_bounds and var_id in bounds_vars:
-                        continue
-
-                    da = ds[var_id]
-
-                    # Check whether singleton variable, if so create variable                   
-                    if hasattr(da, "shape") and da.shape == ():
-                        # Test type of the data to convert  
-                        data_value = get_rank_zero_array_value(da.values) 
-                        da = xr.DataArray(np.array(data_value), name=da.name, attrs=da.attrs)
-
-                    xr_variables.append(da)
-
-        global_attrs = ds.attrs.items()
-        return (xr_variables, global_attrs)
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+nc_to_na.py
+=============
+
+Holds the class NCToNA (sub-classing XarrayToNA) that converts a NetCDF file to
+one or more NASA Ames files.
+
+"""
+
+# Imports from python standard library
+import sys
+import logging
+
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy
+from nappy.utils.common_utils import fuzzy_contains
+import nappy.nc_interface.xarray_to_na
+
+log = logging.getLogger(__name__)
+
+
+class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
+    """
+    Converts a NetCDF file to one or more NASA Ames files.
+    """
+
+    def __init__(self, nc_file, var_ids=None, na_items_to_override=None, 
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None,
+            ):
+        """
+        Sets up instance variables.
+        Typical usage is:
+        >>>    import nappy.nc_interface.nc_to_na as nc_to_na
+        >>>    c = nc_to_na.NCToNA("old_file.nc") 
+        >>>    c.convert()
+        >>>    c.writeNAFiles("new_file.na", delimiter=",") 
+
+        OR:
+        >>>    c = nc_to_na.NCToNA("old_file.nc") 
+        >>>    file_names = c.constructNAFileNames() 
+        """
+        self.nc_file = nc_file
+
+        # Now need to read Xarray file so parent class methods are compatible
+        xr_variables, global_attributes = self._readXarrayFile(var_ids, exclude_vars)
+
+        super().__init__(xr_variables, global_attributes=global_attributes, 
+                         na_items_to_override=na_items_to_override, 
+                         only_return_file_names=only_return_file_names,
+                         requested_ffi=requested_ffi)
+ 
+
+    def _readXarrayFile(self, var_ids=None, exclude_vars=None, exclude_bounds=True):
+        """
+        Reads the file and returns all the Xarray variables in a list as well
+        as the global attributes: (xr_variable_list, global_atts_list)
+        If var_ids is defined then only get those.
+        If exclude_bounds is True: exclude "bounds" variables.
+        """
+        exclude_vars = exclude_vars or []
+
+        ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
+        xr_variables = []
+
+        # Make sure var_ids is a list
+        if isinstance(var_ids, str):
+            var_ids = [var_ids]
+
+        # Identify bounds variables
+        bounds_vars = {ds[var_id].attrs.get("bounds", None) for var_id in ds.variables}
+
+        if None in bounds_vars:
+            bounds_vars.remove(None)
+
+        for var_id in ds.variables:
+            if var_ids == None or var_id in var_ids:
+
+                # Process required variables
+                if not fuzzy_contains(var_id, exclude_vars):
+                    if exclude_bounds and var_id in bounds_vars:
+                        continue
+
+                    # Singleton variables are dealt with by the parent class
+                    xr_variables.append(ds[var_id])
+
+        global_attrs = ds.attrs.items()
+        return (xr_variables, global_attrs)
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..c8bab98 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -143,8 +143,15 @@ class XarrayToNA:
             # If singleton variable then convert into proper Xarray variables so code doesn't break later
             if not hasattr(var_obj, "rank") or len(var_obj.shape) == 0:
               
-                var_metadata = var_obj.attrs
-                var_obj = xr.DataArray(np.array(var_obj), 
+                var_metadata = dict(var_obj.attrs)
+                value = np.array(var_obj)
+
+                # Represent a time by the number in its own units
+                if xarray_utils.has_datetimes(value):
+                    var_metadata["units"], var_metadata["calendar"] = xarray_utils.get_time_units(var_obj)
+                    value = np.array(xarray_utils.datetimes_to_nums(var_obj))
+
+                var_obj = xr.DataArray(value,
                                    name=xarray_utils.getBestName(var_obj), ###.replace(" ", "_"), 
                                    attrs=var_metadata)
                 # Add the single value to the attributes so it will get rendered in the NA comments
diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index b72928c..3213c79 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -268,6 +268,8 @@ def get_rank_zero_array_value(arr):
         return str(arr)
     elif arr.dtype.type is np.bytes_:
         return arr.flat[0].decode()
+    elif isinstance(arr.item(), str):
+        return arr.item()
     else:
         return float(arr) 
 
-- 
2.43.0


From 676e3670d55ec751ae8589c73390666f24255eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 39/66] fix: keep the original order of variables that came
 from NASA Ames files

---
 nappy/nc_interface/na_content_collector.py | 39 ++--------------------
 nappy/nc_interface/xarray_to_na.py         | 33 +++---------------
 nappy/nc_interface/xarray_utils.py         | 15 +++++++++
 3 files changed, 21 insertions(+), 66 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 00f6d8e..c2223cb 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -278,43 +278,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         attribute 'nasa_ames_var_number'). Return re-ordered or unchanged pair of
         (vars_for_na, aux_vars_for_na).
         """
-        # First do the main variables
-        ordered_vars = [None] * 1000 # Make a long list to put vars in 
-
-        # Create a list of other variables to collect up any that are not labelled as nasa ames variables
-        other_vars = []
-        for var in vars_for_na:
-            if hasattr(var, "nasa_ames_var_number"):
-                ordered_vars[var.nasa_ames_var_number] = var
-            else:
-                other_vars.append(var)
-
-        # Remake vars_for_na now in new order and clean out any that are "None"
-        vars_for_na = []
-        for var in ordered_vars:
-            if var is not None: 
-                vars_for_na.append(var)
-
-        vars_for_na = vars_for_na + other_vars
-
-        # Now re-order the Auxiliary variables if they previously came from NASA 
-        ordered_aux_vars = [None] * 1000
-        other_aux_vars = []
-
-        for var in aux_vars_for_na:
-            if hasattr(var, "nasa_ames_aux_var_number"):
-                ordered_aux_vars[var.nasa_ames_aux_var_number] = var
-            else:
-                other_aux_vars.append(var)
-
-        # Remake aux_vars_for_na now in order
-        aux_vars_for_na = []
-        for var in ordered_aux_vars:
-            if type(var) != type(None): 
-                aux_vars_for_na.append(var)
-
-        aux_vars_for_na = aux_vars_for_na + other_aux_vars
-        return (vars_for_na, aux_vars_for_na)
+        return (xarray_utils.sort_by_number(vars_for_na, "nasa_ames_var_number"),
+                xarray_utils.sort_by_number(aux_vars_for_na, "nasa_ames_aux_var_number"))
 
     def _decideFileFormatIndex(self, number_of_dims, aux_vars_for_na, ffis_limited=False):
         """
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index c8bab98..10bc6d8 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -166,41 +166,16 @@ class XarrayToNA:
         Returns a reordered list of variables. Any that have the attribute 
         "nasa_ames_var_number" get ordered first in the list (according to numbering).
         """
-        # Set up a long list (longer than number of vars)
         if len(variables) > var_limit:
-            raise Exception("Can only handle converting less than " + var_limit + " variables in any batch.")
-
-        # Collect up those that are ordered and unordered
-        ordered_vars = [None] * var_limit
-        unordered_vars = []
+            raise Exception(f"Can only handle converting less than {var_limit} variables in any batch.")
 
         # Collect up the dimensions (coordinate variables) that can be excluded when writing to NA
         dim_names = xarray_utils.get_dim_names_for_variables(variables)
 
-        # Set ordered and unordered variables
-        for var in variables:
-
-            # Do not define dimensions (coordinate variables) as variables
-            if var.name in dim_names:
-                continue
+        # Do not define dimensions (coordinate variables) as variables
+        variables = [var for var in variables if var.name not in dim_names]
 
-            var_metadata = var.attrs
-
-            if hasattr(var_metadata, "nasa_ames_var_number"):
-                num = var_metadata.nasa_ames_var_number
-                ordered_vars[num] = var
-            else:
-                unordered_vars.append(var)
-    
-        ret_variables = []
-
-        # Clear any None values in ordered_vars and place in final vars list
-        for var in ordered_vars + unordered_vars:
-            # Test for Real var types
-            if var is not None: 
-                ret_variables.append(var)
-	     
-        return ret_variables
+        return xarray_utils.sort_by_number(variables, "nasa_ames_var_number")
 
     def constructNAFileNames(self, na_file=None):
         """
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index e61c12c..a7ba8b0 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -302,6 +302,21 @@ def get_dim_names_for_variables(variables):
     return {dim for v in variables for dim in v.dims}
 
 
+def sort_by_number(variables, att):
+    """
+    Returns the list of variables in which those that have a number in their attribute
+    ``att`` come first, in the order of these, and the others last, in the order given.
+    """
+    def get_number(var):
+        number = np.ravel(var.attrs.get(att, []))
+
+        if len(number) > 0 and number.dtype.kind in "iuf":
+            return number[0]
+        return np.inf
+
+    return sorted(variables, key=get_number)
+
+
 def create_data_array(arr, name, coords, attrs, fill_value):
     """
     Create an Xarray DataArray and assign properties as required.
-- 
2.43.0


From fd2ae1190d7bab10b1670685c00307559b47ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 40/66] fix: split files on the size limit under names that are
 announced, and with all options; do not change the items of earlier outputs
 or the caller's overrides

---
 nappy/nappy_api.py                 |   2 +-
 nappy/nc_interface/xarray_to_na.py | 145 ++++++++++++++++++-----------
 2 files changed, 93 insertions(+), 54 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 17d32ff..23a7806 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -285,7 +285,7 @@ def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None
 
     # If user only wants files then only give them that
     if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
+        return convertor.constructNAFileNames(na_file, size_limit=size_limit)
     else:
         convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
                                size_limit=size_limit, annotation=annotation, no_header=no_header)
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 10bc6d8..2d04622 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -177,10 +178,23 @@ class XarrayToNA:
 
         return xarray_utils.sort_by_number(variables, "nasa_ames_var_number")
 
-    def constructNAFileNames(self, na_file=None):
+    def constructNAFileNames(self, na_file=None, size_limit=None):
         """
         Works out what the file names of the output NA files will be and 
-        returns a list of them.
+        returns a list of them. If a size_limit is given then this includes
+        the names of the files that any output would be split into.
+        """
+        file_names = []
+
+        for group_names in self._constructGroupedFileNames(na_file, size_limit):
+            file_names.extend(group_names)
+
+        return file_names
+
+    def _constructGroupedFileNames(self, na_file=None, size_limit=None):
+        """
+        Works out the file names and returns a list of lists holding the names of 
+        the files that each item in self.na_dict_list will be written to.
         """
         if not self.converted:
             self.convert()
@@ -193,21 +207,48 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        # The extension is that of the file and not part of a directory name
+        base_name, extension = os.path.splitext(na_file)
+        file_names = []
 
         # Now, create some valid file names
-        if len(self.na_dict_list) == 1:
-            file_names = [na_file]
-        else:
-            file_names = []
+        for file_counter, (na_dict, _) in enumerate(self.na_dict_list, start=1):
+            file_base_name = base_name
+
+            if len(self.na_dict_list) > 1:
+                file_base_name = f"{base_name}_{file_counter}"
+
+            count = self._countSubsets(na_dict, size_limit)
+
+            # Number the files if this gets split across multiple files
+            if count > 1:
+                file_names.append([f"{file_base_name}-{ivol:03d}{extension}" for ivol in range(1, count + 1)])
+            else:
+                file_names.append([file_base_name + extension])
+
+        # Make sure that the input file does not get overwritten
+        nc_file = getattr(self, "nc_file", None)
+
+        for file_name in sum(file_names, []):
+            if nc_file is not None and os.path.realpath(file_name) == os.path.realpath(nc_file):
+                raise Exception(f"Output file is the same as the input file: {file_name}")
 
-            for file_counter in range(1, len(self.na_dict_list) + 1):
-                suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
-                file_names.append(new_name)
-	    
         return file_names
 
+    def _countSubsets(self, na_dict, size_limit):
+        """
+        Returns the number of files that na_dict needs to be split across, so that none
+        has more than size_limit rows of data. Only data in FFI 1001 can be split.
+        """
+        if size_limit is None or na_dict["FFI"] != 1001:
+            return 1
+
+        if size_limit < 1:
+            raise Exception(f"The size limit must be at least 1, not: {size_limit}")
+
+        # Round up
+        return max(-(-len(na_dict["V"][0]) // size_limit), 1)
+
     def writeNAFiles(self, na_file=None, delimiter=default_delimiter, annotation=False,
                      float_format=default_float_format, size_limit=None, no_header=False):
         """
@@ -219,14 +260,11 @@ class XarrayToNA:
         if not self.converted: 
             self.convert()
 
-        # Gets a list of NA file_names that will be produced.
-        file_names = self.constructNAFileNames(na_file)
+        # Gets a list of lists of NA file_names that will be produced.
+        file_names = self._constructGroupedFileNames(na_file, size_limit)
 
-        # Set up some counters: file_counter is the expected number of files.
-        #      full_file_counter includes any files that have been split across multiple output NA files
-        #              because size_limit exceeded.
+        # Set up a counter of the items in self.na_dict_list
         file_counter = 1
-        full_file_counter = 1
         file_list = []
 
         # Get any NASA Ames dictionary values that should be overwritten with local values
@@ -242,25 +280,37 @@ class XarrayToNA:
 
         # Now loop through writing the outputs
         for na_dict_and_var_ids in self.na_dict_list:
-            file_name = file_names[file_counter - 1]
-            msg = "\nWriting output NASA Ames file: %s" % file_name
+            group_names = file_names[file_counter - 1]
+            msg = "\nWriting output NASA Ames file: %s" % ", ".join(group_names)
 
             if DEBUG: log.debug(msg)
             self.output_message.append(msg)
 
             # Set up current na dict
+            # (Take a copy - so that it can be written again)
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
+            this_na_dict = this_na_dict.copy()
 
             # Override content of NASA Ames if they are permitted
             for key in overriders:
 
                 if key in permitted_overwrite_metadata:    
+                    new_item = overriders[key]
+
                     if key in items_as_lists:
-                        new_item = overriders[key].split()		   
+                        if isinstance(new_item, str):
+                            new_item = new_item.split()
+
+                        new_item = list(new_item)
+
                         if key in ("DATE", "RDATE"):
                             new_item = [int(list_item) for list_item in new_item]
-                    else:
-                        new_item = overriders[key]
+
+                    elif key in ("SCOM", "NCOM"):
+                        if isinstance(new_item, str):
+                            new_item = new_item.split("\n")
+
+                        new_item = list(new_item)
 
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
@@ -292,14 +342,15 @@ class XarrayToNA:
         
             # Cope with size limits if specified and FFI is 1001
             # Seems to be writing different chunks of a too long array to different na_dicts to then write to separate files.
-            if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
-                files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
+            if len(group_names) > 1:
+                files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, group_names, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation, no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
             else:		
+                file_name = group_names[0]
                 log.info("Output NA file name: %s" % file_name)
                 x = nappy.openNAFile(file_name, 'w', this_na_dict)
                 x.write(delimiter=delimiter, float_format=float_format,
@@ -325,13 +376,12 @@ class XarrayToNA:
             if len(file_list) > 0:
                 msg = msg + ("\n\nNASA Ames file(s) written successfully: \n%s" % "\n".join(file_list))
 
-            full_file_counter += len(file_list)
             file_counter += 1
 
             if DEBUG: log.debug(msg)
             self.output_message.append(msg)
 	    
-        full_file_count = full_file_counter - 1
+        full_file_count = len(file_list)
 
         if full_file_count == 1:
             plural = ""
@@ -346,24 +396,19 @@ class XarrayToNA:
 
         return self.output_message
 
-    def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+    def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_names, delimiter, 
+                      float_format, size_limit, annotation, no_header):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
-        different files in a NASA Ames compliant way. 
+        different files in a NASA Ames compliant way. The file_names are those of
+        the volumes (files) that need to be written.
         Returns list of file names of outputs written.
         """
-        file_names = []
         var_list = this_na_dict["V"]
         array_length = len(var_list[0])
-        nvol_info = divmod(array_length, size_limit)
-        nvol = nvol_info[0]
-
-        # create the number of volumes (files) that need to be written.
-        if nvol_info[1] > 0: nvol = nvol + 1
+        nvol = len(file_names)
 
         start = 0
-        letter_count = 0
         ivol = 0
 
         # Loop through until full array length has been written to a set of files.
@@ -382,23 +427,17 @@ class XarrayToNA:
             # Adjust X accordingly in the na dictionary, because independent variable has been reduced in size
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
-            # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
-            file_names.append(file_name_plus_letter)
-
             # Write data to output file
-            x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            file_name = file_names[ivol - 1]
+            x = nappy.openNAFile(file_name, 'w', na_dict_copy)
+            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation, no_header=no_header)
             x.close()
 
-            msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
+            msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name)
             if DEBUG: log.debug(msg)
             self.output_message.append(msg)
-            letter_count = letter_count + 1
             start = end
 
-            file_names.append(file_name_plus_letter) 
-
         return file_names
 
     def _updateWithColumnHeaders(self, na_dict, delimiter):
@@ -430,7 +469,7 @@ class XarrayToNA:
 
         col_names.extend(na_dict["VNAME"])
         col_names_line = ",".join(col_names)
-        na_dict["NCOM"].append(col_names_line) 
+        na_dict["NCOM"] = na_dict["NCOM"] + [col_names_line]
         na_dict["NNCOML"] = len(na_dict["NCOM"])
         return  
 
@@ -443,10 +482,10 @@ class XarrayToNA:
         Returns a new list of combined_comments.
         """
         if not existing_comments:   
-            return new_comments
+            return new_comments[:]
 
         if not new_comments:        
-            return existing_comments
+            return existing_comments[:]
 
         # Strip start header if used
         c1 = key[0].lower()
@@ -501,8 +540,8 @@ class XarrayDatasetToNA(XarrayToNA):
 
         # Also capture variables that are auxiliary coords of main variables 
         # (i.e. they are non-dimension coordinates)
-        aux_coord_var_keys = set([coord for var in xr_dset.values() for coord in var.coords.keys() \
-                                  if coord not in var.dims])
+        aux_coord_var_keys = dict.fromkeys([coord for var in xr_dset.values() for coord in var.coords.keys() \
+                                            if coord not in var.dims])
 
         # Compile into one list of variable to convert
         xr_variables = [xr_dset[key] for key in main_var_keys]
-- 
2.43.0


From 3f15853f1527b2641583b8493a06e60dfda4ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 41/66] fix: replace the extension of the file only, not part
 of a directory name or more than one extension

---
 nappy/utils/common_utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 3213c79..29424d3 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -13,6 +13,7 @@ Functions and classes commonly used in nappy.
 # Standard library imports
 from io import StringIO
 import logging
+import os
 
 # Imports from local package
 from nappy import __version__
@@ -98,13 +99,13 @@ def getFileNameWithNewExtension(input_file, format):
     (i) replacing initial extension if there is one, OR
     (ii) just appending new extension.
     """
-    base_name = input_file
-    last_four = base_name[-4:]
-    found = last_four.find(".")
-    if found > -1:
-        idx = len(base_name) + found
+    (directory, base_name) = os.path.split(input_file)
+    idx = base_name.rfind(".")
+
+    # Only up to 3 characters at the end of the name of the file are an extension
+    if idx > 0 and idx >= len(base_name) - 4:
         base_name = base_name[:idx]
-    return base_name + "." + format
+    return os.path.join(directory, base_name + "." + format)
 
 
 def modifyNADictCopy(indict, v_new, start, end, ivol, nvol):
-- 
2.43.0


From b1c8f029392f4515e407af3e2afa963d78a52656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 42/66] fix: refuse to overwrite the input file of a conversion

---
 nappy/nappy_api.py                 |  4 ++++
 nappy/nc_interface/xarray_to_na.py |  6 +++---
 nappy/utils/common_utils.py        | 12 ++++++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 23a7806..7149dc0 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -207,6 +207,8 @@ def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables
     if nc_file == None:
         nc_file = getFileNameWithNewExtension(na_file, "nc")
 
+    nappy.utils.common_utils.checkDifferentFiles(na_file, nc_file)
+
     convertor.writeNCFile(nc_file, mode)
     return nc_file   
   
@@ -230,6 +232,8 @@ def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(na_file, "csv")
 
+    nappy.utils.common_utils.checkDifferentFiles(na_file, csv_file)
+
     fout = openNAFile(csv_file, "w", na_dict=na_dict)
     fout.write(delimiter=",", annotation=annotation, no_header=no_header)
     fout.close()
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 2d04622..80ac181 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -21,7 +21,7 @@ import numpy as np
 # Import from nappy package
 import nappy
 import nappy.utils
-from nappy.utils.common_utils import modifyNADictCopy, get_rank_zero_array_value
+from nappy.utils.common_utils import checkDifferentFiles, modifyNADictCopy, get_rank_zero_array_value
 
 import nappy.na_file.na_core
 
@@ -230,8 +230,8 @@ class XarrayToNA:
         nc_file = getattr(self, "nc_file", None)
 
         for file_name in sum(file_names, []):
-            if nc_file is not None and os.path.realpath(file_name) == os.path.realpath(nc_file):
-                raise Exception(f"Output file is the same as the input file: {file_name}")
+            if nc_file is not None:
+                checkDifferentFiles(nc_file, file_name)
 
         return file_names
 
diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 29424d3..e317e5a 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -108,6 +108,18 @@ def getFileNameWithNewExtension(input_file, format):
     return os.path.join(directory, base_name + "." + format)
 
 
+def checkDifferentFiles(input_file, output_file):
+    """
+    Raises an exception if writing output_file would overwrite input_file.
+    """
+    # The input may also be given as an object that is open already
+    if not isinstance(input_file, (str, os.PathLike)):
+        return
+
+    if os.path.realpath(input_file) == os.path.realpath(output_file):
+        raise Exception(f"Output file is the same as the input file: {output_file}")
+
+
 def modifyNADictCopy(indict, v_new, start, end, ivol, nvol):
     """
     Returns a copy of a dictionary with some modifications.
-- 
2.43.0


From 64b722a515af013639aa40b3903514fc1172fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 43/66] fix: write in-memory xarray variables to NASA Ames
 files

---
 nappy/nappy_api.py                            |  2 +-
 nappy/nc_interface/xarray_objs_to_na_files.py | 19 +++++++------------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 7149dc0..f0484b9 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -349,7 +349,7 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
diff --git a/nappy/nc_interface/xarray_objs_to_na_files.py b/nappy/nc_interface/xarray_objs_to_na_files.py
index 2197c76..85eb09a 100644
--- a/nappy/nc_interface/xarray_objs_to_na_files.py
+++ b/nappy/nc_interface/xarray_objs_to_na_files.py
@@ -6,7 +6,7 @@
 xarray_objs_to_na_file.py
 =========================
 
-Holds the class XarrayObjectsToNAFile (sub-classing NCToNA) that converts a 
+Holds the class XarrayObjectsToNAFile (sub-classing XarrayToNA) that converts a 
 Xarray objects (variables and global atts) to one or more NASA Ames files.
 
 """
@@ -18,7 +18,7 @@ import logging
 # Import from nappy package
 import nappy
 import nappy.utils
-import nappy.nc_interface.nc_to_na
+import nappy.nc_interface.xarray_to_na
 
 
 # Define global variables
@@ -30,7 +30,7 @@ default_float_format = nappy.utils.getDefault("default_float_format")
 log = logging.getLogger(__name__)
 
 
-class XarrayObjectsToNAFile(nappy.nc_interface.nc_to_na.NCToNA):
+class XarrayObjectsToNAFile(nappy.nc_interface.xarray_to_na.XarrayToNA):
     """
     Converts a set of Xarray Objects to one or more NASA Ames files.
     """
@@ -47,12 +47,7 @@ class XarrayObjectsToNAFile(nappy.nc_interface.nc_to_na.NCToNA):
         >>>    c.convert()
         >>>    c.writeNAFiles("new_file.na", delimiter=",")
         """
-        self.xr_variables = xr_variables
-        self.global_attributes = global_attributes or []
-        self.na_items_to_override = na_items_to_override or {}
-        self.only_return_file_names = only_return_file_names
-        self.requested_ffi = requested_ffi
-
-        self.converted = False
-        self.output_message = []
-
+        super().__init__(xr_variables, global_attributes=global_attributes,
+                         na_items_to_override=na_items_to_override,
+                         only_return_file_names=only_return_file_names,
+                         requested_ffi=requested_ffi)
-- 
2.43.0


From 68ce7a22bcec147a244900cd9ca44c4aca100e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 44/66] fix: keep the text of first dates that are no dates,
 and accept several numbers as units

---
 nappy/nc_interface/na_content_collector.py | 5 ++---
 nappy/nc_interface/xarray_utils.py         | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index c2223cb..6765b1d 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -598,11 +598,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     ]  
 
                 elif key == "first_valid_date_of_data":
-                    if isinstance(value, str):
-                        value = re.split(r"[\s,-]+", value.strip())
+                    items = re.split(r"[\s,-]+", value.strip()) if isinstance(value, str) else value
 
                     try:
-                        (year, month, day) = [int(i) for i in value]
+                        (year, month, day) = [int(i) for i in items]
                         self.na_dict["DATE"] = [year, month, day]
                     except (TypeError, ValueError):
                         self.extra_comments[2].append(f"{key}:   {xarray_utils.getAttributeAsString(value)}")
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index a7ba8b0..e8ce607 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -46,7 +46,7 @@ def getBestName(var):
     if not name:
         raise Exception("Cannot find a valid name for variable.")
 
-    units = getattr(var, "units", "")
+    units = getAttributeAsString(getattr(var, "units", ""))
 
     # See if we can get the units from the encoding if not defined.
     # This is required for time.
-- 
2.43.0


From 320098f67d674fc2eb8642ee8e81ec0153acc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 45/66] fix: report all differences in the selected sections of
 NASA Ames files, and return the result

---
 nappy/utils/compare_na.py | 148 ++++++++++++++++++++------------------
 1 file changed, 77 insertions(+), 71 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index ae431bf..44cce87 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -44,7 +44,6 @@ from nappy.utils.compare import *
 equality_threshold = 0.01 # i.e. within 1% of each other
 file_exclusion_patterns = (r".*CSV.*", r".*svn.*", r"\..*", r".*\.pyc$", r".*~$") 
 file_exclusions = [re.compile(pattn) for pattn in file_exclusion_patterns]
-letter_match = re.compile(r"[a-zA-Z]")
 
 
 def exitNicely(msg):
@@ -57,89 +56,95 @@ def exitNicely(msg):
 def compareNA(i1, i2, **kwargs):
     """
     Compares items whether files or directories.
-    Reports any differences at the command line but
-    also returns them in a dictionary as:
-    ???
+    Reports any differences at the command line. For files it also
+    returns True if they are the same and False if not.
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
-        apply(compNAFiles, (i1, i2), kwargs)
+        return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
         compDirs(i1, i2)
     else:
         exitNicely("Cannot recognise/find item '" + i1 + "'.")
 
 
+def _splitItems(line, delimiter):
+    """
+    Splits a line into a list holding for each item between delimiters the list
+    of its parts, which are separated by white-space.
+    """
+    if delimiter is None or delimiter.isspace():
+        return [[item] for item in line.split()]
+
+    return [item.split() for item in line.split(delimiter)]
+
+
+def _isSameItem(item1, item2, number_clever, approx_equal):
+    """
+    Returns whether two items are the same.
+    """
+    if item1 == item2:
+        return True
+
+    if not number_clever:
+        return False
+
+    try:
+        a = float(item1)
+        b = float(item2)
+    except ValueError:
+        return False
+
+    # Python accepts underscores in numbers
+    if "_" in item1 + item2:
+        return False
+
+    if approx_equal:
+        return a == b or abs(a - b) <= equality_threshold * min(abs(a), abs(b))
+
+    return a == b
+
+
+def _isSameLine(line1, line2, number_clever, approx_equal, delimiter_1, delimiter_2):
+    """
+    Returns whether two lines hold the same items.
+    """
+    if line1 == line2:
+        return True
+
+    items1 = _splitItems(line1, delimiter_1)
+    items2 = _splitItems(line2, delimiter_2)
+
+    # With different delimiters white-space in an item of one file may separate items in the other
+    if delimiter_1 != delimiter_2:
+        items1 = [[part] for item in items1 for part in item or [""]]
+        items2 = [[part] for item in items2 for part in item or [""]]
+
+    if [len(item) for item in items1] != [len(item) for item in items2]:
+        return False
+
+    return all(_isSameItem(part1, part2, number_clever, approx_equal)
+               for item1, item2 in zip(items1, items2)
+               for part1, part2 in zip(item1, item2))
+
+
 def compareSections(l1, l2, number_clever=True, approx_equal=False, 
                    delimiter_1=None, delimiter_2=None):
     """
     Compares sections of NASA Ames files (i.e. headers and bodies).
+    Returns True if these have the same lines.
     """ 
-    leng = len(l1)
-    if len(l2) < leng:
-        leng = len(l2)
-
-    all_same = True
-
-    for i in range(leng):
-
-        # Start by setting same equal to True and then try and disprove this
-        same = True
-
-        l1[i] = l1[i].strip()
-        l2[i] = l2[i].strip()
-
-        # If letters found in line then not going to be numeric 
-        # Hence we can just test if lines are identical
-        if letter_match.search(l1[i]):
-            if l1[i] == l2[i]:
-                continue
-
-        items1 = l1[i].split(delimiter_1)
-        items2 = l2[i].split(delimiter_2)
-        
-        if len(items1) != len(items2):
-            # Check that space delimiter hasn't just split identical lines to different lengths
-            if len(items1) == 1 and items1[0].split() == items2:
-                continue
-            elif len(items2) == 1 and items2[0].split() == items1:
-                continue
-            else:
-                same = False
-        else: 
-            if not number_clever:
-                if items1 != items2:
-                    same = False
-            else:
-                for count in range(len(items1)):
-                    try:
-                        a = float(items1[count])
-                        b = float(items2[count])
-                    except:
-                        a = items1[count]
-                        b = items2[count]
-
-                    if a != b:
-                        
-                        if approx_equal:
-                        # Check to see if testing for approximate equality
-                            if a == 0:  a = 0.000000001
-                            if b == 0:  b = 0.000000001
-                            divided = a/b
-                            if divided < 1:
-                                divided = b/a
-                            if (1 - divided) > equality_threshold:
-                                same = False
-                                break  
-                        else: 
-                            same = False
-                            break 
-              
-        if not same:
+    all_same = len(l1) == len(l2)
+
+    for i, (line1, line2) in enumerate(zip(l1, l2)):
+        line1 = line1.strip()
+        line2 = line2.strip()
+
+        if not _isSameLine(line1, line2, number_clever, approx_equal, delimiter_1, delimiter_2):
             all_same = False
             print("Line %s:" % (i+1))
-            print(">>>", l1[i])
-            print("<<<", l2[i])
+            print(">>>", line1)
+            print("<<<", line2)
 
     return all_same
 
@@ -198,8 +203,9 @@ def compNAFiles(f1, f2, header=True, body=True, number_clever=True, approx_equal
         print("Comparing bodies:")
         print(">>> %s body:" % f1)
         print("<<< %s body:" % f2)
-        same = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
-        if same:
+        same_body = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
+        same = same and same_body
+        if same_body:
             print("BODIES ARE IDENTICAL.")
         if len(body1) != len(body2):
             print("Body lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(body1), f2, len(body2)))
@@ -251,7 +257,7 @@ def parseArgs(args):
 def main(args):
     "Main controller."
     files, arg_dict = parseArgs(args)
-    apply(compareNA, files, arg_dict) 
+    compareNA(*files, **arg_dict)
    
  
 if __name__=="__main__":
-- 
2.43.0


From c565b5c2acf61e38c0c739faa7d7560288ce21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 46/66] fix: make the command-line tools follow their
 documentation

---
 nappy/script/na2nc.py  | 11 ++++++-----
 nappy/script/nc2csv.py | 22 ++++++++++------------
 nappy/script/nc2na.py  |  7 +++++--
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/nappy/script/na2nc.py b/nappy/script/na2nc.py
index 4299e90..b1611b8 100755
--- a/nappy/script/na2nc.py
+++ b/nappy/script/na2nc.py
@@ -36,7 +36,7 @@ import getopt
 
 # Import from nappy package
 import nappy
-from nappy.utils.common_utils import makeListFromCommaSepString, makeDictFromCommaSepString
+from nappy.utils.common_utils import getFileNameWithNewExtension, makeListFromCommaSepString, makeDictFromCommaSepString
 
 
 def exitNicely(msg=""):
@@ -65,10 +65,13 @@ def parseArgs(args):
     a["nc_file"] = None
 
     try:
-        (arg_list, dummy) = getopt.getopt(args, "i:o:m:v:a:g:t:nr:")
+        (arg_list, extra_args) = getopt.getopt(args, "i:o:m:v:a:g:t:nr:")
     except getopt.GetoptError as e:
         exitNicely(str(e))
 
+    if extra_args:
+        exitNicely("Arguments not recognised: " + " ".join(extra_args))
+
     for arg, value in arg_list:
         if arg == "-i":
             a["na_file"] = value
@@ -97,9 +100,7 @@ def parseArgs(args):
         exitNicely("Please provide argument '-i <na_file>'")
 
     if not a["nc_file"]:
-        fn = a["na_file"]
-        if fn[-3:] == ".na": fn = fn[:-3]
-        nc_file = fn + ".nc"
+        nc_file = getFileNameWithNewExtension(a["na_file"], "nc")
         print("Auto-generating output file name:", nc_file)
         a["nc_file"] = nc_file
 
diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..6c132a0 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -65,36 +65,38 @@ def parseArgs(args):
     a["var_ids"] = None
     a["requested_ffi"] = None
     a["float_format"] = nappy.default_float_format
-    a["delimiter"] = nappy.default_delimiter
     a["size_limit"] = None
     a["exclude_vars"] = []
     a["na_items_to_override"] = {}
     a["only_return_file_names"] = False
-    a["na_file"] = None
+    a["csv_file"] = None
     a["no_header"] = False
     a["annotation"] = False
 
     try:
-        (arg_list, dummy) = getopt.getopt(args, "i:o:v:f:d:l:e:",
+        (arg_list, extra_args) = getopt.getopt(args, "i:o:v:f:l:e:",
                               ["ffi=", "overwrite-metadata=", "names-only",
                                "no-header", "annotated"])
     except getopt.GetoptError as e:
+        if e.opt == "d":
+            exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
         exitNicely(str(e))
 
+    if extra_args:
+        exitNicely("Arguments not recognised: " + " ".join(extra_args))
+
     for arg, value in arg_list:
         if arg == "-i":
             a["nc_file"] = value
         elif arg == "-o":
-            a["na_file"] = value
+            a["csv_file"] = value
         elif arg == "-v":
             a["var_ids"] = value.split(",")
         elif arg == "--ffi":
             a["requested_ffi"] = int(value)
         elif arg == "-f":
             a["float_format"] = value
-        elif arg == "-d":
-            a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
@@ -124,7 +126,7 @@ def nc2csv(args=None):
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
-    csv_files = nappy.convertNCToNA(**arg_dict)
+    csv_files = nappy.convertNCToCSV(**arg_dict)
 
     # If user only wants files then only give them that
     if arg_dict["only_return_file_names"]:
@@ -141,8 +143,4 @@ def nc2csv(args=None):
 
 if __name__ == "__main__":
     args = sys.argv[1:]
-    if "-d" in args:
-        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
-
-    args.extend(["-d", ","])
     nc2csv(args)
\ No newline at end of file
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9614cf7 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -76,12 +76,15 @@ def parseArgs(args):
     a["annotation"] = False
 
     try:
-        (arg_list, dummy) = getopt.getopt(args, "i:o:v:f:d:l:e:",
+        (arg_list, extra_args) = getopt.getopt(args, "i:o:v:f:d:l:e:",
                               ["ffi=", "overwrite-metadata=", "names-only",
                                "no-header", "annotated"])
     except getopt.GetoptError as e:
         exitNicely(str(e))
 
+    if extra_args:
+        exitNicely("Arguments not recognised: " + " ".join(extra_args))
+
     for arg, value in arg_list:
         if arg == "-i":
             a["nc_file"] = value
@@ -95,7 +98,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From 06f025290de0173bc087bfba2644ea1766a6d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 47/66] fix: hand out copies of the configuration, and use the
 configuration files that are asked for

---
 nappy/utils/parse_config.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/nappy/utils/parse_config.py b/nappy/utils/parse_config.py
index 31e826f..475658a 100644
--- a/nappy/utils/parse_config.py
+++ b/nappy/utils/parse_config.py
@@ -19,9 +19,11 @@ _here = os.path.dirname(__file__)
 base_dir = os.path.join(_here, '../config')
 
 config_file = os.path.join(base_dir, "nappy.ini")
-config_dict = None
-annotations_config_dict = None
-attributes_config_dict = None
+
+# The contents of the files parsed so far, by file name
+config_dict = {}
+annotations_config_dict = {}
+attributes_config_dict = {}
 
 
 class MyCasePreservingConfigParser(ConfigParser):
@@ -60,13 +62,11 @@ def makeConfigDict(cf=config_file):
 
 
 def getConfigDict(cf=config_file):
-    "Checks if already made and only makes if required."
-    global config_dict
-
-    if config_dict == None:
-        config_dict = makeConfigDict(cf)
+    "Checks if already made and only makes if required. Returns a copy."
+    if cf not in config_dict:
+        config_dict[cf] = makeConfigDict(cf)
 
-    return config_dict.copy()
+    return {section: items.copy() for section, items in config_dict[cf].items()}
 
 
 def makeAnnotationsConfigDict(af):
@@ -93,12 +93,10 @@ def getAnnotationsConfigDict():
     annotations_config_file = os.environ.get("NAPPY_ANNOTATIONS", None) or \
                               os.path.join(base_dir, config_dict["main"]["annotations_file"])
 
-    global annotations_config_dict
+    if annotations_config_file not in annotations_config_dict:
+        annotations_config_dict[annotations_config_file] = makeAnnotationsConfigDict(annotations_config_file)
 
-    if annotations_config_dict == None:
-        annotations_config_dict = makeAnnotationsConfigDict(annotations_config_file)
-
-    return annotations_config_dict.copy()
+    return annotations_config_dict[annotations_config_file].copy()
 
 
 def makeLocalAttributesConfigDict(laf):
@@ -129,11 +127,9 @@ def getLocalAttributesConfigDict():
     local_attributes_config_file = os.environ.get("NAPPY_LOCAL_ATTRIBUTES", None) or \
                                    os.path.join(base_dir, config_dict["main"]["local_attributes_file"])
     
-    global attributes_config_dict
-
-    if attributes_config_dict == None:
-        attributes_config_dict = makeLocalAttributesConfigDict(local_attributes_config_file)
+    if local_attributes_config_file not in attributes_config_dict:
+        attributes_config_dict[local_attributes_config_file] = makeLocalAttributesConfigDict(local_attributes_config_file)
 
-    return attributes_config_dict.copy()
+    return {section: items.copy() for section, items in attributes_config_dict[local_attributes_config_file].items()}
 
 
-- 
2.43.0


From 738ae4847075d9acbbc24f9ad1f3493f48be5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 48/66] fix: exclude exactly the named variables, accept a
 single name, include bounds that are asked for, and keep new names as given

---
 nappy/nc_interface/na_to_xarray.py | 16 +++++++++++++---
 nappy/nc_interface/nc_to_na.py     | 14 ++++++++++----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index f37dd0e..19e1928 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -295,7 +295,7 @@ class NADictToXarrayObjects:
             # Check if mapping provided for renaming the variables
             var_ids, aux_ids = [[self.rename_variables.get(i.lower(), i) for i in ids] for ids in (var_ids, aux_ids)]
 
-            all_ids = [nappy.utils.common_utils.safe_name(i) for i in var_ids + aux_ids] + [axis.name for axis in self.xr_axes]
+            all_ids = [self._getNameInOutput(i) for i in var_ids + aux_ids] + [axis.name for axis in self.xr_axes]
             if self._getAuxAxis() is not self.xr_axes[0]:
                 all_ids.append(self._getAuxAxis().name)
 
@@ -307,6 +307,16 @@ class NADictToXarrayObjects:
 
         return self._variable_ids
 
+    def _getNameInOutput(self, var_id):
+        """
+        Returns the name of the variable with the given id. A new name given by the user
+        is used as it is.
+        """
+        if var_id in self.rename_variables.values():
+            return var_id
+
+        return nappy.utils.common_utils.safe_name(var_id)
+
     def _maskAndScale(self, values, miss, scal):
         """
         Returns (array, fill_value) where the array holds the scaled values, with
@@ -354,7 +364,7 @@ class NADictToXarrayObjects:
         var_name = self._getVariableIds()[0][var_number]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
-        var.name = nappy.utils.common_utils.safe_name(var_name)
+        var.name = self._getNameInOutput(var_name)
 
         # Add a NASA Ames variable number (for mapping correctly back to NASA Ames)
         var.attrs["nasa_ames_var_number"] = var_number
@@ -403,7 +413,7 @@ class NADictToXarrayObjects:
         var_name = self._getVariableIds()[1][avar_number]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
-        var.name = nappy.utils.common_utils.safe_name(var_name)
+        var.name = self._getNameInOutput(var_name)
 
         # Add a NASA Ames auxiliary variable number (for mapping correctly back to NASA Ames)
         var.attrs["nasa_ames_aux_var_number"] = avar_number
diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index bcc086e..4d4572c 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -63,17 +63,23 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
         Reads the file and returns all the Xarray variables in a list as well
         as the global attributes: (xr_variable_list, global_atts_list)
         If var_ids is defined then only get those.
-        If exclude_bounds is True: exclude "bounds" variables.
+        If exclude_bounds is True: exclude "bounds" variables (unless they are in var_ids).
         """
         exclude_vars = exclude_vars or []
 
         ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
         xr_variables = []
 
-        # Make sure var_ids is a list
+        # Make sure var_ids and exclude_vars are lists
         if isinstance(var_ids, str):
             var_ids = [var_ids]
 
+        if isinstance(exclude_vars, str):
+            exclude_vars = [exclude_vars]
+
+        # Names that are not exactly those of variables may match a little more loosely
+        fuzzy_exclude_vars = [name for name in exclude_vars if name not in ds.variables]
+
         # Identify bounds variables
         bounds_vars = {ds[var_id].attrs.get("bounds", None) for var_id in ds.variables}
 
@@ -84,8 +90,8 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
             if var_ids == None or var_id in var_ids:
 
                 # Process required variables
-                if not fuzzy_contains(var_id, exclude_vars):
-                    if exclude_bounds and var_id in bounds_vars:
+                if var_id not in exclude_vars and not fuzzy_contains(var_id, fuzzy_exclude_vars):
+                    if exclude_bounds and var_id in bounds_vars and var_ids == None:
                         continue
 
                     # Singleton variables are dealt with by the parent class
-- 
2.43.0


From 822b22cae78deb42428060b5fa6ebc7abbdfcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 49/66] fix: keep empty text in NetCDF attributes

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 39e31cf..cdbe42e 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -74,7 +74,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
 
         value = dct.get(key)
 
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
             dct[key] = [to_np_int(v) for v in value]
         elif isinstance(value, int):
             dct[key] = to_np_int(value)
-- 
2.43.0


From 01eb7d3e57354b4011e131a6ae25b207d449ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 50/66] fix: convert in-memory times that are numbers and time
 differences as they are when read from a file

---
 nappy/nc_interface/xarray_to_na.py |  5 ++++-
 nappy/nc_interface/xarray_utils.py | 28 ++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 80ac181..251cb9d 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -87,8 +87,11 @@ class XarrayToNA:
         if self.converted:
             return self.na_dict_list
         
+        # Represent time differences as numbers with units
+        variables = [xarray_utils.convert_timedeltas(var) for var in self.xr_variables]
+
         # Convert any singleton variables to Xarray variables
-        variables = self._convertSingletonVars(self.xr_variables)
+        variables = self._convertSingletonVars(variables)
 
         # Re-order variables if they have the attribute "nasa_ames_var_number" which means they came
         # from a NASA Ames file originally
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index e8ce607..460851c 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -274,6 +274,10 @@ def is_time(coord, test_by_values=False):
     if coord.attrs.get("standard_name", None) == "time":
         return True
 
+    # Times that are still numbers can be recognised by their units
+    if re.match(r"\s*\w+\s+since\s+\S", str(coord.attrs.get("units", ""))):
+        return True
+
     if test_by_values and len(coord) > 0:
         # Test the first value to see if it is a datetime object
         values = resolve_array(coord.data)
@@ -336,6 +340,30 @@ def has_datetimes(arr):
     return arr.dtype.kind == "M"
 
 
+def convert_timedeltas(da):
+    """
+    Returns ``da`` with any time differences, also those in its coordinates, converted to
+    numbers and units as they would be in a NetCDF file.
+    """
+    if not isinstance(da, xr.DataArray):
+        return da
+
+    def convert(name, var):
+        encoded = xr.conventions.encode_cf_variable(var.copy(deep=False), name=name)
+        return xr.conventions.decode_cf_variable(name, encoded, decode_times=False, decode_timedelta=False)
+
+    # Replacing the data of a variable does not change the coordinates
+    new_coords = {name: convert(name, coord.variable) for name, coord in da.coords.items() if coord.dtype.kind == "m"}
+
+    if da.dtype.kind == "m" and da.name not in new_coords:
+        new_var = convert(da.name, da.variable)
+        new_da = xr.DataArray(new_var, name=da.name, coords=da.coords)
+        new_da.encoding = new_var.encoding
+        da = new_da
+
+    return da.assign_coords(new_coords) if new_coords else da
+
+
 def get_time_units(da):
     """
     Returns (units, calendar) of the numbers that represent the times in ``da``.
-- 
2.43.0


From 8e3c82ab61b55c0b6779b2cf036c8c2db9d75dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 51/66] fix: write the text items of FFI 2160 unchanged

---
 nappy/na_file/na_file_2160.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index c22c895..959f7ea 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -139,8 +139,8 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         for m in range(len(self.X)):
 
             # Write Independent variable mark and auxiliary variables
-            var_string = "%s" % self.X[m][0]
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
+            # A text fills a line of its own and is written as it is
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % self.X[m][0]))
             var_string = ""
 
             for a in range(self.NAUXV - self.NAUXC):
@@ -149,8 +149,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
 
             for a in range(self.NAUXC):
-                var_string = (("%s" + self.delimiter) % self.A[(self.NAUXV - self.NAUXC) + a][m])
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ," + self.delimiter)))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % self.A[(self.NAUXV - self.NAUXC) + a][m]))
 
             # Write second independant variable and dependant variables
             for p in range(self.NX[m]):
-- 
2.43.0


From 0699474ef54bcf8d425960505143e442a6e21c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 52/66] fix: restore the line endings of nappy_api.py,
 na_to_nc.py and nc_to_na.py

---
 nappy/nappy_api.py             | 852 ++++++++++++++++-----------------
 nappy/nc_interface/na_to_nc.py | 282 +++++------
 nappy/nc_interface/nc_to_na.py | 202 ++++----
 3 files changed, 668 insertions(+), 668 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index f0484b9..467fed4 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,426 +1,426 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    nappy.utils.common_utils.checkDifferentFiles(na_file, nc_file)
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    nappy.utils.common_utils.checkDifferentFiles(na_file, csv_file)
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file, size_limit=size_limit)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-
-    arg_dict["na_file"] = csv_file
-    arg_dict["delimiter"] = ","
-  
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_files
-    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    import os
-    import tempfile
-    import nappy.nc_interface.na_to_nc
-
-    # Convert via a temporary NASA Ames file holding all the digits of the numbers
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        na_file = os.path.join(tmp_dir, "na_dict.na")
-
-        fout = openNAFile(na_file, mode="w", na_dict=dict(na_dict))
-        fout.write(float_format="%s")
-        fout.close()
-
-        convertor = nappy.nc_interface.na_to_nc.NAToNC(na_file, time_warning=False)
-        convertor.convert()
-
-    convertor.writeNCFile(nc_file, mode)
-    log.info("NetCDF file '%s' written successfully." % nc_file)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    nappy.utils.common_utils.checkDifferentFiles(na_file, nc_file)
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    nappy.utils.common_utils.checkDifferentFiles(na_file, csv_file)
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file, size_limit=size_limit)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
+  
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    import os
+    import tempfile
+    import nappy.nc_interface.na_to_nc
+
+    # Convert via a temporary NASA Ames file holding all the digits of the numbers
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        na_file = os.path.join(tmp_dir, "na_dict.na")
+
+        fout = openNAFile(na_file, mode="w", na_dict=dict(na_dict))
+        fout.write(float_format="%s")
+        fout.close()
+
+        convertor = nappy.nc_interface.na_to_nc.NAToNC(na_file, time_warning=False)
+        convertor.convert()
+
+    convertor.writeNCFile(nc_file, mode)
+    log.info("NetCDF file '%s' written successfully." % nc_file)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index cdbe42e..d2de958 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,141 +1,141 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-import os
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def _checkCanAppend(self, ds, file_name):
-        """
-        Checks that adding the dataset to the existing NetCDF file will not replace any
-        content of that. Global attributes that the file has are removed from the dataset.
-        """
-        with xr.open_dataset(file_name, decode_cf=False) as existing:
-            for name in ds.variables:
-                if name not in existing.variables:
-                    continue
-
-                # Variables can share an axis but only if it is the same one
-                if name not in ds.dims or name not in existing.dims or \
-                         not ds[name].equals(existing[name]) or \
-                         ds[name].attrs.get("units") != existing[name].attrs.get("units"):
-                    raise Exception(f"Cannot append to NetCDF file '{file_name}' because it already contains a different variable: {name}")
-
-            for name, size in existing.sizes.items():
-                if ds.sizes.get(name, size) != size:
-                    raise Exception(f"Cannot append to NetCDF file '{file_name}' because it has a different dimension: {name}")
-
-            ds.attrs = {key: value for key, value in ds.attrs.items() if key not in existing.attrs}
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file, provided that does not contain any variables
-        of the same name. The global attributes of an existing file are kept.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        if mode == "a" and os.path.exists(file_name):
-            self._checkCanAppend(ds, file_name)
-        else:
-            mode = "w"
-
-        ds.to_netcdf(file_name, mode=mode)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+import os
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def _checkCanAppend(self, ds, file_name):
+        """
+        Checks that adding the dataset to the existing NetCDF file will not replace any
+        content of that. Global attributes that the file has are removed from the dataset.
+        """
+        with xr.open_dataset(file_name, decode_cf=False) as existing:
+            for name in ds.variables:
+                if name not in existing.variables:
+                    continue
+
+                # Variables can share an axis but only if it is the same one
+                if name not in ds.dims or name not in existing.dims or \
+                         not ds[name].equals(existing[name]) or \
+                         ds[name].attrs.get("units") != existing[name].attrs.get("units"):
+                    raise Exception(f"Cannot append to NetCDF file '{file_name}' because it already contains a different variable: {name}")
+
+            for name, size in existing.sizes.items():
+                if ds.sizes.get(name, size) != size:
+                    raise Exception(f"Cannot append to NetCDF file '{file_name}' because it has a different dimension: {name}")
+
+            ds.attrs = {key: value for key, value in ds.attrs.items() if key not in existing.attrs}
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file, provided that does not contain any variables
+        of the same name. The global attributes of an existing file are kept.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        variables = {da.name: da for da in combined_var_list}
+        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        if mode == "a" and os.path.exists(file_name):
+            self._checkCanAppend(ds, file_name)
+        else:
+            mode = "w"
+
+        ds.to_netcdf(file_name, mode=mode)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 4d4572c..dfdd202 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -1,101 +1,101 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-nc_to_na.py
-=============
-
-Holds the class NCToNA (sub-classing XarrayToNA) that converts a NetCDF file to
-one or more NASA Ames files.
-
-"""
-
-# Imports from python standard library
-import sys
-import logging
-
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy
-from nappy.utils.common_utils import fuzzy_contains
-import nappy.nc_interface.xarray_to_na
-
-log = logging.getLogger(__name__)
-
-
-class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
-    """
-    Converts a NetCDF file to one or more NASA Ames files.
-    """
-
-    def __init__(self, nc_file, var_ids=None, na_items_to_override=None, 
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None,
-            ):
-        """
-        Sets up instance variables.
-        Typical usage is:
-        >>>    import nappy.nc_interface.nc_to_na as nc_to_na
-        >>>    c = nc_to_na.NCToNA("old_file.nc") 
-        >>>    c.convert()
-        >>>    c.writeNAFiles("new_file.na", delimiter=",") 
-
-        OR:
-        >>>    c = nc_to_na.NCToNA("old_file.nc") 
-        >>>    file_names = c.constructNAFileNames() 
-        """
-        self.nc_file = nc_file
-
-        # Now need to read Xarray file so parent class methods are compatible
-        xr_variables, global_attributes = self._readXarrayFile(var_ids, exclude_vars)
-
-        super().__init__(xr_variables, global_attributes=global_attributes, 
-                         na_items_to_override=na_items_to_override, 
-                         only_return_file_names=only_return_file_names,
-                         requested_ffi=requested_ffi)
- 
-
-    def _readXarrayFile(self, var_ids=None, exclude_vars=None, exclude_bounds=True):
-        """
-        Reads the file and returns all the Xarray variables in a list as well
-        as the global attributes: (xr_variable_list, global_atts_list)
-        If var_ids is defined then only get those.
-        If exclude_bounds is True: exclude "bounds" variables (unless they are in var_ids).
-        """
-        exclude_vars = exclude_vars or []
-
-        ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
-        xr_variables = []
-
-        # Make sure var_ids and exclude_vars are lists
-        if isinstance(var_ids, str):
-            var_ids = [var_ids]
-
-        if isinstance(exclude_vars, str):
-            exclude_vars = [exclude_vars]
-
-        # Names that are not exactly those of variables may match a little more loosely
-        fuzzy_exclude_vars = [name for name in exclude_vars if name not in ds.variables]
-
-        # Identify bounds variables
-        bounds_vars = {ds[var_id].attrs.get("bounds", None) for var_id in ds.variables}
-
-        if None in bounds_vars:
-            bounds_vars.remove(None)
-
-        for var_id in ds.variables:
-            if var_ids == None or var_id in var_ids:
-
-                # Process required variables
-                if var_id not in exclude_vars and not fuzzy_contains(var_id, fuzzy_exclude_vars):
-                    if exclude_bounds and var_id in bounds_vars and var_ids == None:
-                        continue
-
-                    # Singleton variables are dealt with by the parent class
-                    xr_variables.append(ds[var_id])
-
-        global_attrs = ds.attrs.items()
-        return (xr_variables, global_attrs)
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+nc_to_na.py
+=============
+
+Holds the class NCToNA (sub-classing XarrayToNA) that converts a NetCDF file to
+one or more NASA Ames files.
+
+"""
+
+# Imports from python standard library
+import sys
+import logging
+
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy
+from nappy.utils.common_utils import fuzzy_contains
+import nappy.nc_interface.xarray_to_na
+
+log = logging.getLogger(__name__)
+
+
+class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
+    """
+    Converts a NetCDF file to one or more NASA Ames files.
+    """
+
+    def __init__(self, nc_file, var_ids=None, na_items_to_override=None, 
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None,
+            ):
+        """
+        Sets up instance variables.
+        Typical usage is:
+        >>>    import nappy.nc_interface.nc_to_na as nc_to_na
+        >>>    c = nc_to_na.NCToNA("old_file.nc") 
+        >>>    c.convert()
+        >>>    c.writeNAFiles("new_file.na", delimiter=",") 
+
+        OR:
+        >>>    c = nc_to_na.NCToNA("old_file.nc") 
+        >>>    file_names = c.constructNAFileNames() 
+        """
+        self.nc_file = nc_file
+
+        # Now need to read Xarray file so parent class methods are compatible
+        xr_variables, global_attributes = self._readXarrayFile(var_ids, exclude_vars)
+
+        super().__init__(xr_variables, global_attributes=global_attributes, 
+                         na_items_to_override=na_items_to_override, 
+                         only_return_file_names=only_return_file_names,
+                         requested_ffi=requested_ffi)
+ 
+
+    def _readXarrayFile(self, var_ids=None, exclude_vars=None, exclude_bounds=True):
+        """
+        Reads the file and returns all the Xarray variables in a list as well
+        as the global attributes: (xr_variable_list, global_atts_list)
+        If var_ids is defined then only get those.
+        If exclude_bounds is True: exclude "bounds" variables (unless they are in var_ids).
+        """
+        exclude_vars = exclude_vars or []
+
+        ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
+        xr_variables = []
+
+        # Make sure var_ids and exclude_vars are lists
+        if isinstance(var_ids, str):
+            var_ids = [var_ids]
+
+        if isinstance(exclude_vars, str):
+            exclude_vars = [exclude_vars]
+
+        # Names that are not exactly those of variables may match a little more loosely
+        fuzzy_exclude_vars = [name for name in exclude_vars if name not in ds.variables]
+
+        # Identify bounds variables
+        bounds_vars = {ds[var_id].attrs.get("bounds", None) for var_id in ds.variables}
+
+        if None in bounds_vars:
+            bounds_vars.remove(None)
+
+        for var_id in ds.variables:
+            if var_ids == None or var_id in var_ids:
+
+                # Process required variables
+                if var_id not in exclude_vars and not fuzzy_contains(var_id, fuzzy_exclude_vars):
+                    if exclude_bounds and var_id in bounds_vars and var_ids == None:
+                        continue
+
+                    # Singleton variables are dealt with by the parent class
+                    xr_variables.append(ds[var_id])
+
+        global_attrs = ds.attrs.items()
+        return (xr_variables, global_attrs)
-- 
2.43.0


From 49b66f54bb04f0982ff012d1a62be3fea2ffb8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 53/66] fix: annotations and delimiters with a percent sign in
 files of FFI 1001

---
 nappy/na_file/na_file_1001.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_1001.py b/nappy/na_file/na_file_1001.py
index 573bf5a..a582dd4 100644
--- a/nappy/na_file/na_file_1001.py
+++ b/nappy/na_file/na_file_1001.py
@@ -43,9 +43,9 @@ class NAFile1001(nappy.na_file.na_file.NAFile):
         """        
         self._writeCommonHeader()
         annotation = getAnnotation("DX", self.annotation, delimiter = self.delimiter)
-        self.header.write((annotation + "%s" * self.NIV + "\n") % tuple(self.DX))
+        self.header.write(annotation + ("%s" * self.NIV + "\n") % tuple(self.DX))
         annotation = getAnnotation("XNAME", self.annotation, delimiter = self.delimiter)
-        self.header.write((annotation + "%s\n") * self.NIV % tuple(self.XNAME))
+        self.header.write(annotation + ("%s\n" * self.NIV) % tuple(self.XNAME))
         self._writeVariablesHeaderSection()
         self._writeComments()
         self._fixHeaderLength()
-- 
2.43.0


From f594da00fee4c631f41639a1e1226162f1f720b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 54/66] fix: delimiters with a percent sign

---
 nappy/na_file/na_file.py        | 12 +++++++-----
 nappy/na_file/na_file_2010.py   |  6 +++---
 nappy/na_file/na_file_2110.py   |  2 +-
 nappy/na_file/na_file_2160.py   |  6 +++---
 nappy/utils/list_manipulator.py |  2 +-
 5 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 2117a96..6e8e05a 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -101,7 +101,9 @@ class NAFile(nappy.na_file.na_core.NACore):
         """ 
         self.delimiter = delimiter
         self.float_format = float_format
-        self.format = float_format + delimiter
+        # Format strings that include the delimiter
+        self.format = float_format + delimiter.replace("%", "%%")
+        self.item_format = "%s" + delimiter.replace("%", "%%")
         self.annotation = annotation
         
         # Raise errors if dangerous behaviour
@@ -263,8 +265,8 @@ class NAFile(nappy.na_file.na_core.NACore):
         Assumes we are at the right point in the file.
         """
         self.header.write(wrapLine("NV", self.annotation, self.delimiter, "%d\n" % self.NV))
-        self.header.write(wrapLine("VSCAL", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VSCAL)))
-        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VMISS)))
+        self.header.write(wrapLine("VSCAL", self.annotation, self.delimiter, (self.item_format * (self.NV - 1) + "%s\n") % tuple(self.VSCAL)))
+        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, (self.item_format * (self.NV - 1) + "%s\n") % tuple(self.VMISS)))
         self.header.write(wrapLines("VNAME", self.annotation, self.delimiter, "%s\n" * self.NV % tuple(self.VNAME)))
 
     def _readAuxVariablesHeaderSection(self):
@@ -285,9 +287,9 @@ class NAFile(nappy.na_file.na_core.NACore):
         """
         self.header.write(wrapLine("NAUXV", self.annotation, self.delimiter, "%d\n" % self.NAUXV))
         if self.NAUXV > 0:
-            line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.ASCAL)
+            line = (self.item_format * (self.NAUXV - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.AMISS)
+            line = (self.item_format * (self.NAUXV - 1) + "%s\n")  % tuple(self.AMISS)
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 0e6001f..52d909b 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -58,13 +58,13 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self._writeCommonHeader()
         DX = self.DX[:]
         DX.reverse()
-        self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
+        self.header.write(wrapLine("DX", self.annotation, self.delimiter, (self.item_format * (self.NIV - 1) + "%s\n") % tuple(DX)))
         NX = self.NX[:]
         NX.reverse()
-        self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
+        self.header.write(wrapLine("NX", self.annotation, self.delimiter, (self.item_format * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
         NXDEF.reverse()
-        self.header.write(wrapLine("NXDEF", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NXDEF)))
+        self.header.write(wrapLine("NXDEF", self.annotation, self.delimiter, (self.item_format * (self.NIV - 2) + "%s\n") % tuple(NXDEF)))
 
         X_lines = []
 
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 3452c5f..1068d96 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -45,7 +45,7 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         self._writeCommonHeader()
         DX = self.DX[:]
         DX.reverse()
-        self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
+        self.header.write(wrapLine("DX", self.annotation, self.delimiter, (self.item_format * (self.NIV - 1) + "%s\n") % tuple(DX)))
         XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 959f7ea..14073c3 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -69,12 +69,12 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         self.header.write(wrapLine("NAUXV", self.annotation, self.delimiter, "%d\n" % self.NAUXV))
         self.header.write(wrapLine("NAUXC", self.annotation, self.delimiter, "%d\n" % self.NAUXC))
         if self.NAUXV > 0:
-            line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.ASCAL)
+            line = (self.item_format * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
+            line = (self.item_format * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             if self.NAUXC > 0:
-                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                line = (self.item_format * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
                 self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
                 line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
                 self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
diff --git a/nappy/utils/list_manipulator.py b/nappy/utils/list_manipulator.py
index 5f82ba0..e227e9a 100644
--- a/nappy/utils/list_manipulator.py
+++ b/nappy/utils/list_manipulator.py
@@ -92,7 +92,7 @@ class RecursiveListManipulator:
         If 'format_item' is given then it is called to format each item (with its delimiter).
         """
         if format_item is None:
-            format_item = lambda value: (float_format+delimiter) % value
+            format_item = lambda value: (float_format % value) + delimiter
         if not hasattr(self, "rtlines"):
             self.rtlines = []
         if len(dimlist[1:]) > 0:
-- 
2.43.0


From 0a603e697636ab4fe579d31e0462e8f66d1f3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 55/66] fix: compare directories of NASA Ames files with the
 options given, in both directions, and return the result

---
 nappy/utils/compare_na.py | 43 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 44cce87..03e6e3b 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -56,18 +56,57 @@ def exitNicely(msg):
 def compareNA(i1, i2, **kwargs):
     """
     Compares items whether files or directories.
-    Reports any differences at the command line. For files it also
+    Reports any differences at the command line and also
     returns True if they are the same and False if not.
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
         return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
-        compDirs(i1, i2)
+        return compNADirs(i1, i2, **kwargs)
     else:
         exitNicely("Cannot recognise/find item '" + i1 + "'.")
 
 
+def compNADirs(d1, d2, **kwargs):
+    """
+    Compares directories by looping through and then calling
+    compNAFiles() for each pair of files found.
+    Returns True if both hold the same files and False if not.
+    Files and directories in the exclusion lists are ignored.
+    """
+    if not os.path.isdir(d2):
+        exitNicely("CANNOT compare directories as item does not exist:" + d2)
+
+    all_same = True
+
+    for item in sorted(set(os.listdir(d1) + os.listdir(d2))):
+        d1f = os.path.join(d1, item)
+        d2f = os.path.join(d2, item)
+        is_dir = os.path.isdir(d1f) or os.path.isdir(d2f)
+
+        if [excl for excl in (dir_exclusions if is_dir else file_exclusions) if excl.match(item)]:
+            print("IGNORING EXCLUDED item:", d1f)
+            continue
+
+        missing = [f for f in (d1f, d2f) if not os.path.exists(f)]
+
+        if missing:
+            print("WARNING: cannot find item:", missing[0])
+            same = False
+        elif os.path.isdir(d1f) != os.path.isdir(d2f):
+            print("WARNING: cannot compare a file and a directory:", d1f, d2f)
+            same = False
+        elif is_dir:
+            same = compNADirs(d1f, d2f, **kwargs)
+        else:
+            same = compNAFiles(d1f, d2f, **kwargs)
+
+        all_same = all_same and same
+
+    return all_same
+
+
 def _splitItems(line, delimiter):
     """
     Splits a line into a list holding for each item between delimiters the list
-- 
2.43.0


From 8f8d6677628eb12bbe52580fdd177672b087e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 56/66] fix: no prompt for time units without standard streams

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 19e1928..1f7e0b4 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -502,7 +502,7 @@ class NADictToXarrayObjects:
                         log.debug(message)
                         try:
                             time_units_input = input("Please insert your time unit string here (or leave blank):").strip()
-                        except EOFError:
+                        except (EOFError, OSError, RuntimeError, ValueError):
                             # Nobody there to ask
                             time_units_input = ""
                     else: 
-- 
2.43.0


From 0623eff5e8cfc4881811969bbad26415295aaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 57/66] fix: strip annotations that contain a circumflex

---
 nappy/utils/right_strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/right_strip.py b/nappy/utils/right_strip.py
index cc2fb44..335177f 100644
--- a/nappy/utils/right_strip.py
+++ b/nappy/utils/right_strip.py
@@ -19,7 +19,7 @@ Out: Tout (C)
 
 import re
 
-rstrip_regex = re.compile(r"^(.+)\{[^{^}]*\}\s*$")
+rstrip_regex = re.compile(r"^(.+)\{[^{}]*\}\s*$")
 
 
 def rightStripCurlyBraces(line):
-- 
2.43.0


From 2676e6e7747af4ffce8522eb9f7a7874feba4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 58/66] fix: comment lines that only mention a section marker
 are kept

---
 nappy/nc_interface/na_content_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 6765b1d..e71358f 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -570,19 +570,19 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                     for line in comment_lines:
 
-                        if line.find(hp["sc_start"]) > -1:
+                        if line.strip() == hp["sc_start"]:
                             special_comm_flag = 1
-                        elif line.find(hp["sc_end"]) > -1:
+                        elif line.strip() == hp["sc_end"]:
                             special_comm_flag = None
-                        elif line.find(hp["nc_start"]) > -1:
+                        elif line.strip() == hp["nc_start"]:
                             normal_comm_flag = 1
-                        elif line.find(hp["nc_end"]) > -1:
+                        elif line.strip() == hp["nc_end"]:
                             normal_comm_flag = None
                         elif special_comm_flag == 1:
                             special_comments.append(line)
                         elif normal_comm_flag == 1:
                             normal_comments.append(line)
-                        elif line.find(hp["data_next"]) > -1:
+                        elif line.strip() == hp["data_next"]:
                             pass
                         else:
                             normal_comments.append(line)
-- 
2.43.0


From e6c375d72d51d30c9899ea3683da11721b082c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 59/66] fix: keep a format index that is given as a numpy
 integer

---
 nappy/nappy_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 467fed4..da45ff3 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -123,6 +123,7 @@ ffi = nappy.chooseFFI(na_dict)
 
 # Import standard library modules
 import logging
+import numbers
 log = logging.getLogger(__name__)
 
 # Import local modules
@@ -156,7 +157,7 @@ def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
                         var_and_units_callback=var_and_units_callback)
 
     elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+        if isinstance(na_dict.get('FFI'), numbers.Integral):
             ffi = na_dict['FFI']
         else:
             ffi = chooseFFI(na_dict)
-- 
2.43.0


From 9ae9f39757720ccaae234b99aab5f2eda487e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 60/66] fix: choose the format of datasets held in tuples,
 arrays and numpy strings

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index e317e5a..e72d21a 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -66,10 +66,10 @@ def chooseFFI(na_dict):
         return 3010
 
     elif d["NIV"] == 2:    # 2 independent variables
-        if type(d["X"][0][0]) == type("string"):
+        if isinstance(d["X"][0][0], str):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif len(d["X"][0]) > 1 and type(d["X"][0][1]) == type([1,2]):
+        elif len(d["X"][0]) > 1 and hasattr(d["X"][0][1], "__len__"):
             if [x for x in d["X"] if len(x[1]) != 1]:
                 # 2110 - one independent variable changes length and the values are specified
                 return 2110
-- 
2.43.0


From 519492109baf868ff35b383032afdf2515b542ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 61/66] fix: keep integer global attributes that need more than
 32 bits

---
 nappy/nc_interface/na_to_nc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index d2de958..be434a1 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -69,8 +69,12 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         Fixes the those dictionary items: either integers or a sequence of integers, then converts and
         returns them.
         """
+        int32 = np.iinfo(np.int32)
+
         def to_np_int(_value):
-            return np.int32(_value)
+            if int32.min <= _value <= int32.max:
+                return np.int32(_value)
+            return np.int64(_value)
 
         value = dct.get(key)
 
-- 
2.43.0


From 226345fe1053cd34faf82c030120226a37b00336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:41 +0000
Subject: [PATCH 62/66] fix: do not take coordinates for attributes of the same
 name

---
 nappy/nc_interface/na_to_xarray.py |  4 ++--
 nappy/nc_interface/xarray_utils.py | 27 ++++++++++++++++++---------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 1f7e0b4..fa3412f 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -489,7 +489,7 @@ class NADictToXarrayObjects:
                 axis.attrs["axis"] = axis_label
 
         # Check warning for time units pattern
-        if xarray_utils.is_time(axis) and not time_units_pattn.match(str(getattr(axis, "units"))):
+        if xarray_utils.is_time(axis) and not time_units_pattn.match(str(axis.attrs.get("units"))):
 
             # Request user input for time units (if interactive)
             if self.time_units is None:
@@ -525,7 +525,7 @@ class NADictToXarrayObjects:
         dim_name = axis.dims[0]
         axis = axis.rename({dim_name: axis.name})
 
-        if not getattr(axis, "units", None):
+        if not axis.attrs.get("units"):
             if units:
                 axis.attrs["units"] = units
             else:
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 460851c..3b1409c 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -15,6 +15,17 @@ import cftime
 
 
 
+def getAttribute(var, att, default=None):
+    """
+    Returns the attribute ``att`` of ``var``. Coordinates of xarray objects, which can be called
+    like an attribute, are not taken for it.
+    """
+    if att != "name" and isinstance(var, xr.DataArray):
+        return var.attrs.get(att, default)
+
+    return getattr(var, att, default)
+
+
 def getBestName(var):
     """
     Returns the most appropriate variable name for a NASA Ames header.
@@ -28,7 +39,7 @@ def getBestName(var):
 
     # Deal with object that has attributes
     for att in att_order:
-        name = getattr(var, att, None)
+        name = getAttribute(var, att)
         # Names must fit on a single line
         if name is not None:
             name = " ".join(str(name).splitlines()).strip()
@@ -46,7 +57,7 @@ def getBestName(var):
     if not name:
         raise Exception("Cannot find a valid name for variable.")
 
-    units = getAttributeAsString(getattr(var, "units", ""))
+    units = getAttributeAsString(getAttribute(var, "units", ""))
 
     # See if we can get the units from the encoding if not defined.
     # This is required for time.
@@ -166,7 +177,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
         if ax1.name != ax2.name: return False
 
     # Check units
-    if getattr(ax1, 'units', None) != getattr(ax2, 'units', None):
+    if getAttribute(ax1, 'units') != getAttribute(ax2, 'units'):
         return False
 
     # Do different comparisons depending on 'is_subset' argument
@@ -243,9 +254,8 @@ def is_level(coord):
     if coord.attrs.get("positive", None) in ("up", "down"):
         return True
 
-    if hasattr(coord, "axis"):
-        if coord.attrs.get("axis", None) == "Z":
-            return True
+    if coord.attrs.get("axis", None) == "Z":
+        return True
 
     return False
 
@@ -267,9 +277,8 @@ def is_time(coord, test_by_values=False):
     if isinstance(np.atleast_1d(coord.values)[0], cftime.datetime):
         return True
 
-    if hasattr(coord, "axis"):
-        if coord.axis == "T":
-            return True
+    if coord.attrs.get("axis", None) == "T":
+        return True
 
     if coord.attrs.get("standard_name", None) == "time":
         return True
-- 
2.43.0


From 084c30797eb9bf72329acca876fb3660d5af5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:01 +0000
Subject: [PATCH 63/66] fix: integers without dimensions of more than 53 bits
 were rounded in the header

---
 nappy/utils/common_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index e72d21a..e7efc14 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -272,7 +272,8 @@ def get_rank_zero_array_value(arr):
     """
     Return an appropriate value for a rank-zero array value.
     It returns a float (for a number) or a string (from a string
-    or bytes string).
+    or bytes string). An integer that a float cannot hold is returned 
+    as an integer.
     """
     # Import numpy here so that pip install works without error
     import numpy as np
@@ -283,6 +284,8 @@ def get_rank_zero_array_value(arr):
         return arr.flat[0].decode()
     elif isinstance(arr.item(), str):
         return arr.item()
+    elif isinstance(arr.item(), int) and int(float(arr)) != arr.item():
+        return arr.item()
     else:
         return float(arr) 
 
-- 
2.43.0


From 90e03f66e6ba00f996fced2b258b644df3d62df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 64/66] fix: values that are written like the flag of their
 variable or axis were taken as missing

---
 nappy/nc_interface/na_content_collector.py |  4 ++++
 nappy/nc_interface/xarray_utils.py         | 24 +++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e71358f..916c3a6 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -444,6 +444,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                                              "'%s' increment" % ind_var_name]
                     self.na_dict["AMISS"] = [-9999.999, -9999.999, -9999.999]
                     self.na_dict["ASCAL"] = [1.0, 1.0, 1.0]
+
+                    # None of the values of the axis is missing
+                    self.na_dict["AMISS"] = [xarray_utils.getUnusedNumber(values, miss)
+                                             for values, miss in zip(self.na_dict["A"], self.na_dict["AMISS"])]
  
 
     def _defineNAAuxVars(self, aux_vars):
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 3b1409c..906ae52 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -116,15 +116,29 @@ def getUnusedMissingValue(var):
     miss = getMissingValue(var)
     values = getArrayAsList(var)
 
-    if np.any(np.equal(values, miss)):
-        miss = -1.e20
-
-    while np.any(np.equal(values, miss)):
-        miss = miss * 10
+    if isAmong(miss, values):
+        miss = getUnusedNumber(values, -1.e20)
 
     return miss
 
 
+def isAmong(number, values):
+    """
+    Returns True if one of ``values`` is ``number`` or might be written as ``number``.
+    """
+    return bool(np.any(np.isclose(np.array(values, dtype=float), number, rtol=1e-9, atol=0)))
+
+
+def getUnusedNumber(values, number):
+    """
+    Returns ``number``, multiplied by ten until it is none of ``values``.
+    """
+    while isAmong(number, values):
+        number = number * 10
+
+    return number
+
+
 def getAxisList(var):
     """
     Returns a list of coordinates from: var
-- 
2.43.0


From eb45b6820c1dd9e74cee1e672936884c8ebb0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:20 +0000
Subject: [PATCH 65/66] fix: keep the configuration files parsed so far by
 absolute name, as the same relative name means another file in another
 directory

---
 nappy/utils/parse_config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/parse_config.py b/nappy/utils/parse_config.py
index 475658a..7354daf 100644
--- a/nappy/utils/parse_config.py
+++ b/nappy/utils/parse_config.py
@@ -20,7 +20,7 @@ base_dir = os.path.join(_here, '../config')
 
 config_file = os.path.join(base_dir, "nappy.ini")
 
-# The contents of the files parsed so far, by file name
+# The contents of the files parsed so far, by absolute file name
 config_dict = {}
 annotations_config_dict = {}
 attributes_config_dict = {}
@@ -63,6 +63,8 @@ def makeConfigDict(cf=config_file):
 
 def getConfigDict(cf=config_file):
     "Checks if already made and only makes if required. Returns a copy."
+    cf = os.path.abspath(cf)
+
     if cf not in config_dict:
         config_dict[cf] = makeConfigDict(cf)
 
@@ -93,6 +95,8 @@ def getAnnotationsConfigDict():
     annotations_config_file = os.environ.get("NAPPY_ANNOTATIONS", None) or \
                               os.path.join(base_dir, config_dict["main"]["annotations_file"])
 
+    annotations_config_file = os.path.abspath(annotations_config_file)
+
     if annotations_config_file not in annotations_config_dict:
         annotations_config_dict[annotations_config_file] = makeAnnotationsConfigDict(annotations_config_file)
 
@@ -127,6 +131,8 @@ def getLocalAttributesConfigDict():
     local_attributes_config_file = os.environ.get("NAPPY_LOCAL_ATTRIBUTES", None) or \
                                    os.path.join(base_dir, config_dict["main"]["local_attributes_file"])
     
+    local_attributes_config_file = os.path.abspath(local_attributes_config_file)
+
     if local_attributes_config_file not in attributes_config_dict:
         attributes_config_dict[local_attributes_config_file] = makeLocalAttributesConfigDict(local_attributes_config_file)
 
-- 
2.43.0


From 96e0da6c4f735867d966fcd8292995ddb09ff54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:30 +0000
Subject: [PATCH 66/66] fix: Reject items with underscores or digits of other
 scripts as numbers

---
 nappy/utils/text_parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 1644354..052cc53 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -22,6 +22,15 @@ from nappy.utils.right_strip import *
 pattnNoQuotes = re.compile("^[\"'].*\1$")
 
 
+def _convertItem(item, rttype):
+    """
+    Converts a text to a number of type ``rttype``. Python would also accept underscores
+    between digits and the digits of other scripts, but these are not numbers in NASA Ames.
+    """
+    if "_" in item or not item.isascii():
+        raise ValueError("Not a number: '%s'" % item)
+    return rttype(item)
+
 def readItemFromLine(line, rttype=str):
     """
     Reads an item of type ``rttype`` from ``line``.
@@ -30,7 +39,7 @@ def readItemFromLine(line, rttype=str):
     rtitem = pattnNoQuotes.sub("", line.strip())
 
     if rttype is not str:
-        rtitem = rttype(rtitem)   
+        rtitem = _convertItem(rtitem, rttype)
     return rtitem
 
 def readItemsFromLine(line, nitems=None, rttype=str):
@@ -43,7 +52,7 @@ def readItemsFromLine(line, nitems=None, rttype=str):
     if nitems and len(rtitems) != nitems:
         raise Exception("Incorrect number of items (%s) found in line: \n'%s'" % (nitems, line))
     if rttype is not str:
-        rtitems = [rttype(x) for x in rtitems]
+        rtitems = [_convertItem(x, rttype) for x in rtitems]
     return rtitems
 
 def readItemsFromLines(lines, nitems, rttype=str):
@@ -94,7 +103,7 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
 
     if rttype is not str:
-        rtitems = [rttype(x) for x in rtitems]
+        rtitems = [_convertItem(x, rttype) for x in rtitems]
 
     if type(object) == type([1,2]):
         return rtitems, object
-- 
2.43.0

