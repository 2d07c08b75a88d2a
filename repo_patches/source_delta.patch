From 2f6d07f6371c918a55086336b54690ea4d87371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 01/29] fix: client crash on a repository URL that starts with
 its only slash

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index ef37bd3..5beda88 100644
--- a/client/client.go
+++ b/client/client.go
@@ -45,6 +45,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
+	if ax == 0 {
+		return name
+	}
+
 	bx := strings.LastIndex(uri[:ax-1], "/")
 	if bx < 0 {
 		return name
-- 
2.43.0


From b671b820c434211a19d8005276114a3e582a3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 02/29] fix: search results lose an empty first line of context

---
 index/grep.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index/grep.go b/index/grep.go
index d8af164..c68de18 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -170,10 +170,16 @@ func (g *grepper) grep2(
 
 		lineno += countLines(buf[:str])
 
+		// lastNLines cannot see an empty line at the start of its input.
+		before := lastNLines(buf[:endl], nctx)
+		if len(before) < nctx && str > 0 && buf[0] == '\n' {
+			before = append([][]byte{buf[:0]}, before...)
+		}
+
 		more, err := fn(
 			bytes.TrimRight(buf[str:end], "\n"),
 			lineno+1,
-			lastNLines(buf[:endl], nctx),
+			before,
 			firstNLines(buf[end:], nctx))
 		if err != nil {
 			return err
-- 
2.43.0


From 99002127e9bf7dcd874db79995cf44960c8c3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 03/29] fix: empty matches after the last line are reported as
 a line

---
 index/grep.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/grep.go b/index/grep.go
index c68de18..756d113 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -155,6 +155,10 @@ func (g *grepper) grep2(
 
 		// start of matched line.
 		str := bytes.LastIndex(buf[:m], nl) + 1
+		if str == len(buf) {
+			// an empty match after the final newline is not on any line.
+			return nil
+		}
 
 		//end of previous line
 		endl := str - 1
-- 
2.43.0


From ea67d64e0f60ff949c4c2c6306464e9388c630e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 04/29] fix: exclude filter misses a match that ends at the
 start of the name

---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index f84d933..531f86d 100644
--- a/index/index.go
+++ b/index/index.go
@@ -196,7 +196,7 @@ func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error)
 		}
 
 		// reject files that match the exclude file pattern
-		if excludeFre != nil && excludeFre.MatchString(name, true, true) > 0 {
+		if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {
 			continue
 		}
 
-- 
2.43.0


From fb488352c0825b91786e8bafc4f6445e55a21271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 05/29] fix: a file whose peeked prefix ends in an invalid
 UTF-8 sequence is taken for text

---
 index/index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/index.go b/index/index.go
index 531f86d..9ad1672 100644
--- a/index/index.go
+++ b/index/index.go
@@ -297,9 +297,9 @@ func validUTF8IgnoringPartialTrailingRune(p []byte) bool {
 			_, size := utf8.DecodeRune(p[i:])
 			if size == 1 {
 				// All valid runes of size 1 (those below RuneSelf) were handled above. This must be a RuneError.
-				// If we're encountering this error within UTFMax of the end and the current byte could be a
-				// valid start, we'll just ignore the assumed partial rune.
-				return n-i < utf8.UTFMax && utf8.RuneStart(p[i])
+				// If the rest of the buffer is an incomplete but so far valid rune, we'll just ignore the assumed
+				// partial rune.
+				return !utf8.FullRune(p[i:])
 			}
 			i += size
 		}
-- 
2.43.0


From 07a9cd550a1d6536f40ea0d633513a8e2fe8ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 06/29] fix: unreadable directory is silently left out of the
 index, vanished file crashes the server

---
 index/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/index.go b/index/index.go
index 9ad1672..366220c 100644
--- a/index/index.go
+++ b/index/index.go
@@ -387,6 +387,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From 9b782f8e8861b5caa159f7ccfb30a810b06646e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 07/29] fix: a repository in a directory with a dot or special
 name is indexed as empty

---
 index/index.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/index.go b/index/index.go
index 366220c..f0fb122 100644
--- a/index/index.go
+++ b/index/index.go
@@ -397,6 +397,12 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 			return err
 		}
 
+		// The rules below are about the names inside of the tree, not about
+		// the name of the tree itself.
+		if rel == "." && info.IsDir() {
+			return nil
+		}
+
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
 		if containsString(opt.SpecialFiles, name) {
-- 
2.43.0


From 3592c5ae762a2be1892c3b18b8ca83a122fe6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 08/29] fix: a file that fails to be read or copied while
 indexing silently disappears from the index

---
 index/index.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index f0fb122..26655fb 100644
--- a/index/index.go
+++ b/index/index.go
@@ -307,6 +307,21 @@ func validUTF8IgnoringPartialTrailingRune(p []byte) bool {
 	return true
 }
 
+// errReader remembers the error that ended reading, which the index writer
+// only logs.
+type errReader struct {
+	r   io.Reader
+	err error
+}
+
+func (e *errReader) Read(p []byte) (int, error) {
+	n, err := e.r.Read(p)
+	if err != nil && err != io.EOF {
+		e.err = err
+	}
+	return n, err
+}
+
 func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error) {
 	rel, err := filepath.Rel(src, path)
 	if err != nil {
@@ -327,9 +342,18 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	defer w.Close()
 
 	g := gzip.NewWriter(w)
-	defer g.Close()
+	er := &errReader{r: io.TeeReader(r, g)}
+
+	reason := ix.Add(rel, er)
+	if er.err != nil {
+		return "", er.err
+	}
+
+	if err := g.Close(); err != nil {
+		return "", err
+	}
 
-	return ix.Add(rel, io.TeeReader(r, g)), nil
+	return reason, w.Close()
 }
 
 func addDirToIndex(dst, src, path string) error {
-- 
2.43.0


From fb40ae87523ba8c548920fd0292da6efc66ddd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 09/29] fix: the trigram prefilter drops files that match an
 alternation of a set of strings and a longer pattern

---
 codesearch/index/regexp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/regexp.go b/codesearch/index/regexp.go
index a5686af..882a507 100644
--- a/codesearch/index/regexp.go
+++ b/codesearch/index/regexp.go
@@ -604,8 +604,9 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		// union reuses storage, and x.exact is needed unchanged by addExact.
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 33b1f5a3f3249071545b64ccca8f3731f1751305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 10/29] fix: a character class of two non-ASCII case variants
 matches single bytes instead

---
 codesearch/regexp/utf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codesearch/regexp/utf.go b/codesearch/regexp/utf.go
index 858c83c..f2dd54b 100644
--- a/codesearch/regexp/utf.go
+++ b/codesearch/regexp/utf.go
@@ -100,7 +100,7 @@ func oneByteRange(i *syntax.Inst) (lo, hi byte, fold, ok bool) {
 		}
 		return byte(i.Rune[0]), byte(i.Rune[1]), fold, true
 	}
-	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
+	if len(i.Rune) == 4 && i.Rune[2] < utf8.RuneSelf && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
 		return byte(i.Rune[0]), byte(i.Rune[0]), true, true
 	}
 
-- 
2.43.0


From 91f9694b87fa524b699f2c57ac16f12bf4964c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 11/29] fix: merging drops files outside of a path that ends in
 a non-ASCII character

---
 codesearch/index/merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index 5aa1ecc..5907cba 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -66,8 +66,7 @@ func Merge(dst, src1, src2 string) {
 			i1++
 		}
 		lo := i1
-		limit := path[:len(path)-1] + string(path[len(path)-1]+1)
-		for i1 < uint32(ix1.numName) && ix1.Name(i1) < limit {
+		for i1 < uint32(ix1.numName) && strings.HasPrefix(ix1.Name(i1), path) {
 			i1++
 		}
 		hi := i1 //nolint
@@ -85,7 +84,7 @@ func Merge(dst, src1, src2 string) {
 			panic("merge: inconsistent index")
 		}
 		lo = i2
-		for i2 < uint32(ix2.numName) && ix2.Name(i2) < limit {
+		for i2 < uint32(ix2.numName) && strings.HasPrefix(ix2.Name(i2), path) {
 			i2++
 		}
 		hi = i2
-- 
2.43.0


From fe6d7a25e5a1d3f98dbd41bb1d053c35b601b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 12/29] fix: remove the manifest of an index first, so that a
 partly removed index is never reused

---
 index/index.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/index/index.go b/index/index.go
index 26655fb..1cf1e0b 100644
--- a/index/index.go
+++ b/index/index.go
@@ -106,6 +106,15 @@ func (r *IndexRef) Open() (*Index, error) {
 }
 
 func (r *IndexRef) Remove() error {
+	// the manifest goes first, so that what is left of an interrupted removal
+	// is not taken for a complete index.
+	manifest := filepath.Join(r.dir, manifestFilename)
+	if err := os.Remove(manifest); err != nil {
+		if _, serr := os.Lstat(manifest); serr == nil {
+			return err
+		}
+	}
+
 	return os.RemoveAll(r.dir)
 }
 
-- 
2.43.0


From a841daa5a213e60805d0a8076820310397d01685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 13/29] fix: find and claim a reusable index in one step, so
 that it never serves two repositories

---
 searcher/searcher.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..4f0c60d 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -69,29 +69,24 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Find an Index ref for the repo url and rev that is not yet in use and
+ * claim it for reuse, returns nil if no such ref exists. Claiming ensures
+ * the ref will not be garbage collected at the end of startup and that it
+ * will not be used for a second repo.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -427,12 +422,11 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From 3126647bbb841f577154edd12c2dc5e9003708e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 14/29] fix: an I/O error of the trigram index fails the build
 instead of ending the server

---
 codesearch/index/mmap_bsd.go     |  6 +++---
 codesearch/index/mmap_linux.go   |  6 +++---
 codesearch/index/mmap_windows.go |  8 ++++----
 codesearch/index/read.go         |  4 ++--
 codesearch/index/write.go        | 20 ++++++++++----------
 index/index.go                   | 17 +++++++++++++++--
 6 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/codesearch/index/mmap_bsd.go b/codesearch/index/mmap_bsd.go
index 9442ab5..c093a76 100644
--- a/codesearch/index/mmap_bsd.go
+++ b/codesearch/index/mmap_bsd.go
@@ -15,11 +15,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    log.Panic(err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    log.Panicf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -27,7 +27,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_PRIVATE)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    log.Panicf("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_linux.go b/codesearch/index/mmap_linux.go
index 8ea561a..75d69af 100644
--- a/codesearch/index/mmap_linux.go
+++ b/codesearch/index/mmap_linux.go
@@ -13,11 +13,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    log.Panic(err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    log.Panicf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -25,7 +25,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_SHARED)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    log.Panicf("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_windows.go b/codesearch/index/mmap_windows.go
index 8f09156..7f54b38 100644
--- a/codesearch/index/mmap_windows.go
+++ b/codesearch/index/mmap_windows.go
@@ -14,24 +14,24 @@ import (
 func mmapFile(f *os.File) mmapData {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		log.Panic(err)
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		log.Panicf("%s: too large for mmap", f.Name())
 	}
 	if size == 0 {
 		return mmapData{f, nil, nil}
 	}
 	h, err := syscall.CreateFileMapping(syscall.Handle(f.Fd()), nil, syscall.PAGE_READONLY, uint32(size>>32), uint32(size), nil)
 	if err != nil {
-		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
+		log.Panicf("CreateFileMapping %s: %v", f.Name(), err)
 	}
 	defer syscall.CloseHandle(syscall.Handle(h))
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
-		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
+		log.Panicf("MapViewOfFile %s: %v", f.Name(), err)
 	}
 
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
diff --git a/codesearch/index/read.go b/codesearch/index/read.go
index 5234266..3aba501 100644
--- a/codesearch/index/read.go
+++ b/codesearch/index/read.go
@@ -411,7 +411,7 @@ func mergeOr(l1, l2 []uint32) []uint32 {
 }
 
 func corrupt(file *os.File) {
-  log.Fatalf("corrupt index: %s", file.Name())
+  log.Panicf("corrupt index: %s", file.Name())
 }
 
 // An mmapData is mmap'ed read-only data from a file.
@@ -429,7 +429,7 @@ func (m *mmapData) close() error {
 func mmap(file string) mmapData {
   f, err := os.Open(file)
   if err != nil {
-    log.Fatal(err)
+    log.Panic(err)
   }
   return mmapFile(f)
 }
diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..45c65ed 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -268,7 +268,7 @@ func copyFile(dst, src *bufWriter) {
 	dst.flush()
 	_, err := io.Copy(dst.file, src.finish())
 	if err != nil {
-		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
+		log.Panicf("copying %s to %s: %v", src.name, dst.name, err)
 	}
 }
 
@@ -276,7 +276,7 @@ func copyFile(dst, src *bufWriter) {
 // It returns the assigned file ID number.
 func (ix *IndexWriter) addName(name string) uint32 {
 	if strings.Contains(name, "\x00") {
-		log.Fatalf("%q: file has NUL byte in name", name)
+		log.Panicf("%q: file has NUL byte in name", name)
 	}
 
 	ix.nameIndex.writeUint32(ix.nameData.offset())
@@ -292,7 +292,7 @@ func (ix *IndexWriter) addName(name string) uint32 {
 func (ix *IndexWriter) flushPost() {
 	w, err := ioutil.TempFile("", "csearch-index")
 	if err != nil {
-		log.Fatal(err)
+		log.Panic(err)
 	}
 	if ix.Verbose {
 		log.Printf("flush %d entries to %s", len(ix.post), w.Name())
@@ -304,9 +304,9 @@ func (ix *IndexWriter) flushPost() {
 	data := (*[npost * 8]byte)(unsafe.Pointer(&ix.post[0]))[:len(ix.post)*8]
 	if n, err := w.Write(data); err != nil || n < len(data) {
 		if err != nil {
-			log.Fatal(err)
+			log.Panic(err)
 		}
-		log.Fatalf("short write writing %s", w.Name())
+		log.Panicf("short write writing %s", w.Name())
 	}
 
 	ix.post = ix.post[:0]
@@ -509,7 +509,7 @@ func bufCreate(name string) *bufWriter {
 		f, err = ioutil.TempFile("", "csearch")
 	}
 	if err != nil {
-		log.Fatal(err)
+		log.Panic(err)
 	}
 	return &bufWriter{
 		name: f.Name(),
@@ -524,7 +524,7 @@ func (b *bufWriter) write(x []byte) {
 		b.flush()
 		if len(x) >= cap(b.buf) {
 			if _, err := b.file.Write(x); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				log.Panicf("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -545,7 +545,7 @@ func (b *bufWriter) writeString(s string) {
 		b.flush()
 		if len(s) >= cap(b.buf) {
 			if _, err := b.file.WriteString(s); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				log.Panicf("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -558,7 +558,7 @@ func (b *bufWriter) offset() uint32 {
 	off, _ := b.file.Seek(0, 1)
 	off += int64(len(b.buf))
 	if int64(uint32(off)) != off {
-		log.Fatalf("index is larger than 4GB")
+		log.Panicf("index is larger than 4GB")
 	}
 	return uint32(off)
 }
@@ -569,7 +569,7 @@ func (b *bufWriter) flush() {
 	}
 	_, err := b.file.Write(b.buf)
 	if err != nil {
-		log.Fatalf("writing %s: %v", b.name, err)
+		log.Panicf("writing %s: %v", b.name, err)
 	}
 	b.buf = b.buf[:0]
 }
diff --git a/index/index.go b/index/index.go
index 1cf1e0b..3045f4b 100644
--- a/index/index.go
+++ b/index/index.go
@@ -4,6 +4,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"encoding/json"
+	"fmt"
 	"io"
 	"os"
 	"path/filepath"
@@ -98,7 +99,9 @@ func (r *IndexRef) writeManifest() error {
 	return gob.NewEncoder(w).Encode(r)
 }
 
-func (r *IndexRef) Open() (*Index, error) {
+func (r *IndexRef) Open() (idx *Index, err error) {
+	defer recoverIndexError(&err)
+
 	return &Index{
 		Ref: r,
 		idx: index.Open(filepath.Join(r.dir, "tri")),
@@ -399,7 +402,17 @@ func containsString(haystack []string, needle string) bool {
 	return false
 }
 
-func indexAllFiles(opt *IndexOptions, dst, src string) error {
+// The trigram index panics when it cannot read or write its files. This turns
+// such a panic into an error, it has to be deferred.
+func recoverIndexError(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("trigram index: %v", r)
+	}
+}
+
+func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
+	defer recoverIndexError(&err)
+
 	ix := index.Create(filepath.Join(dst, "tri"))
 	defer ix.Close()
 
-- 
2.43.0


From 24b7146eda4c4ef37e976c7e15cb9d67ab763d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 15/29] fix: a failure to remove the replaced index does not
 destroy the new one that is already live

---
 searcher/searcher.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 4f0c60d..67ef0ca 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -374,12 +374,9 @@ func updateAndReindex(
 		return rev, false
 	}
 
+	// The new index is live even if the old one could not be destroyed.
 	if err := s.swapIndexes(idx); err != nil {
-		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
+		log.Printf("failed to destroy replaced index (%s): %s", name, err)
 	}
 
 	return newRev, true
-- 
2.43.0


From 3a214bec248cdbab2988cb74db3b4eb9091caec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 16/29] fix: reading the excluded files is protected from a
 concurrent replacement of the index

---
 searcher/searcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 67ef0ca..aa66d96 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -132,6 +132,8 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	s.lck.RLock()
+	defer s.lck.RUnlock()
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 7bfd49aecd8cfab5ff1d2359a852c9a2832da581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 17/29] fix: an update requested before polling begins is not
 lost

---
 searcher/searcher.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index aa66d96..4bdcb94 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -23,12 +23,15 @@ type Searcher struct {
 	lck  sync.RWMutex
 	Repo *config.Repo
 
-	// The channel is used to request updates from the API and
-	// to signal that it is ok for searchers to begin polling.
+	// The channel is used to request updates from the API.
 	// It has a buffer size of 1 to allow at most one pending
 	// update at a time.
 	updateCh chan time.Time
 
+	// The channel is closed to signal that it is ok for the
+	// searcher to begin polling.
+	beginCh chan empty
+
 	shutdownRequested bool
 	shutdownCh        chan empty
 	doneCh            chan empty
@@ -194,7 +197,7 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 
 // Signal the searcher that it is ok to begin polling the repository.
 func (s *Searcher) begin() {
-	s.updateCh <- time.Now()
+	close(s.beginCh)
 }
 
 // Generate a new index directory in the dbpath. The names are based
@@ -442,6 +445,7 @@ func newSearcher(
 	s := &Searcher{
 		idx:        idx,
 		updateCh:   make(chan time.Time, 1),
+		beginCh:    make(chan empty),
 		Repo:       repo,
 		doneCh:     make(chan empty),
 		shutdownCh: make(chan empty, 1),
@@ -450,7 +454,7 @@ func newSearcher(
 	go func() {
 
 		// each searcher's poller is held until begin is called.
-		<-s.updateCh
+		<-s.beginCh
 
 		// if all forms of updating are turned off, we're done here.
 		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {
-- 
2.43.0


From e39c6943d52f4fd3ad062f0cb075c7815da2e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 18/29] fix: a shutdown request is never missed by the update
 loop

---
 searcher/searcher.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 4bdcb94..6a368d4 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -32,9 +32,10 @@ type Searcher struct {
 	// searcher to begin polling.
 	beginCh chan empty
 
-	shutdownRequested bool
-	shutdownCh        chan empty
-	doneCh            chan empty
+	// The channel is closed to request a shutdown.
+	shutdownCh   chan empty
+	shutdownOnce sync.Once
+	doneCh       chan empty
 }
 
 // Struct used to send the results from newSearcherConcurrent function.
@@ -163,10 +164,18 @@ func (s *Searcher) Update() bool {
 
 // Shut down the searcher cleanly, waiting for any indexing operations to complete.
 func (s *Searcher) Stop() {
+	s.shutdownOnce.Do(func() {
+		close(s.shutdownCh)
+	})
+}
+
+// Has a shutdown been requested?
+func (s *Searcher) shutdownRequested() bool {
 	select {
-	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
+	case <-s.shutdownCh:
+		return true
 	default:
+		return false
 	}
 }
 
@@ -448,7 +457,7 @@ func newSearcher(
 		beginCh:    make(chan empty),
 		Repo:       repo,
 		doneCh:     make(chan empty),
-		shutdownCh: make(chan empty, 1),
+		shutdownCh: make(chan empty),
 	}
 
 	go func() {
@@ -471,7 +480,7 @@ func newSearcher(
 			// Wait for a signal to proceed
 			s.waitForUpdate(delay)
 
-			if s.shutdownRequested {
+			if s.shutdownRequested() {
 				s.completeShutdown()
 				return
 			}
-- 
2.43.0


From 55eac74a5a557b9a21b5b019422e3b7390e2e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 19/29] fix: a huge offset or limit of a search is taken as a
 negative one

---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..0bd77f4 100644
--- a/api/api.go
+++ b/api/api.go
@@ -154,7 +154,8 @@ func parseRangeInt(v string, i *int) {
 		return
 	}
 
-	vi, err := strconv.ParseUint(v, 10, 64)
+	// one bit less than an int has, so that the value is never negative
+	vi, err := strconv.ParseUint(v, 10, strconv.IntSize-1)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From f950aa34cb44b31d4ac2d42bd85fe2c556245154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 20/29] fix: a repository that a request names twice is
 searched and counted twice

---
 api/api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 0bd77f4..5ce0fc2 100644
--- a/api/api.go
+++ b/api/api.go
@@ -111,10 +111,12 @@ func parseAsRepoList(v string, idx map[string]*searcher.Searcher) []string {
 		return repos
 	}
 
+	seen := map[string]bool{}
 	for _, repo := range strings.Split(v, ",") {
-		if idx[repo] == nil {
+		if idx[repo] == nil || seen[repo] {
 			continue
 		}
+		seen[repo] = true
 		repos = append(repos, repo)
 	}
 	return repos
-- 
2.43.0


From 50959490dc24349f7e1d2dfeb9a048428576d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 21/29] fix: the excluded files of an unknown repository crash
 the request

---
 api/api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 5ce0fc2..9a679e7 100644
--- a/api/api.go
+++ b/api/api.go
@@ -237,7 +237,15 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+		searcher := idx[repo]
+		if searcher == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+
+		res := searcher.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From 7dc041bda1b932c2f019154fcc207fd1f93d616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 22/29] fix: a null in the global vcs-config crashes the server
 at startup

---
 config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/config.go b/config/config.go
index c978c00..039db2d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -147,6 +147,11 @@ func mergeVCSConfigs(cfg *Config) error {
 
 	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
+		if configBytes == nil {
+			// null in the config file
+			continue
+		}
+
 		var configVals map[string]interface{}
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
-- 
2.43.0


From 5f003e7b81e0099c912189abcf66e4b471201418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 23/29] fix: a null repository in the config file crashes the
 server at startup

---
 config/config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 039db2d..ab031f7 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 )
@@ -217,7 +218,10 @@ func (c *Config) LoadFromFile(filename string) error {
 		c.DbPath = path
 	}
 
-	for _, repo := range c.Repos {
+	for name, repo := range c.Repos {
+		if repo == nil {
+			return fmt.Errorf("repo %s has no settings", name)
+		}
 		initRepo(repo)
 	}
 
-- 
2.43.0


From 0a556cd1c2301bfc40153175fe1bc7b5198e5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 24/29] fix: concurrent requests for a page in development mode
 share a template without synchronisation

---
 ui/ui.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ui/ui.go b/ui/ui.go
index 30d558e..f3511ce 100644
--- a/ui/ui.go
+++ b/ui/ui.go
@@ -63,12 +63,15 @@ func (h *devHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 // Renders a templated asset in dev-mode. This simply embeds external script tags
 // for the source elements.
 func renderForDev(w io.Writer, root string, c *content, cfg *config.Config, r *http.Request) error {
+	// This template belongs to this request alone: c is shared with the
+	// requests that are served at the same time.
+	var tpl renderer
 	var err error
 	// For more context, see: https://github.com/etsy/hound/issues/239
 	switch c.tplType {
 	case "html":
 		// Use html/template to parse the html template
-		c.tpl, err = html_template.ParseFiles(filepath.Join(root, c.template))
+		tpl, err = html_template.ParseFiles(filepath.Join(root, c.template))
 		if err != nil {
 			return err
 		}
@@ -76,7 +79,7 @@ func renderForDev(w io.Writer, root string, c *content, cfg *config.Config, r *h
 		// Use text/template to parse the xml or text templates
 		// We are using text/template here for parsing xml to keep things
 		// consistent with html/template parsing.
-		c.tpl, err = text_template.ParseFiles(filepath.Join(root, c.template))
+		tpl, err = text_template.ParseFiles(filepath.Join(root, c.template))
 		if err != nil {
 			return err
 		}
@@ -94,7 +97,7 @@ func renderForDev(w io.Writer, root string, c *content, cfg *config.Config, r *h
 		fmt.Fprintf(&buf, "<script src=\"http://localhost:8080/ui/%s\"></script>", path)
 	}
 
-	return c.tpl.Execute(w, map[string]interface{}{
+	return tpl.Execute(w, map[string]interface{}{
 		"ReactVersion": ReactVersion,
 		"ReposAsJson":  json,
 		"Title":        cfg.Title,
-- 
2.43.0


From 2fe71c15179f56ec9774c99e3d46a38297e1701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 25/29] fix: return the error of a failing git command

run() dropped the error, so a pull went on after a failed fetch or reset and
returned the old revision as if it had succeeded.
---
 vcs/git.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index 54f1dfc..ebcc6d8 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -85,7 +85,7 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 			out, err)
 	}
 
-	return string(out), nil
+	return string(out), err
 }
 
 func (g *GitDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From 315020a72873bc6569ec45c111321f4c64e9c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 26/29] fix: fall back to the default branch when git does not
 know the remote HEAD

git remote show prints 'HEAD branch: (unknown)' if the HEAD of the remote names
a branch that does not exist; this was taken for the name of a branch.
---
 vcs/git.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index ebcc6d8..99a2437 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -13,6 +13,9 @@ import (
 )
 
 const defaultRef = "master"
+
+// What git says if the HEAD of the remote names a branch that does not exist.
+const unknownBranch = "(unknown)"
 const autoGeneratedAttribute = "linguist-generated"
 
 var headBranchRegexp = regexp.MustCompile(`HEAD branch: (?P<branch>.+)`)
@@ -216,7 +219,7 @@ func (d *headBranchDetector) detectRef(dir string) string {
 	}
 
 	matches := headBranchRegexp.FindStringSubmatch(output)
-	if len(matches) != 2 {
+	if len(matches) != 2 || matches[1] == unknownBranch {
 		log.Printf(
 			"could not determine target ref in %s. Will fall back to default ref %s",
 			dir,
-- 
2.43.0


From dbd6662968a17e8b563940a43c52c75c71bc1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 27/29] fix: follow every symbolic link to a local repository

A local repository is a link to the directory of its URL. If that is a link
itself, or a relative one, only the first link was resolved: the index was
empty, and with watch-changes there was no revision.
---
 index/index.go | 8 +++-----
 vcs/local.go   | 9 ++++-----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/index/index.go b/index/index.go
index 3045f4b..e059164 100644
--- a/index/index.go
+++ b/index/index.go
@@ -425,11 +425,9 @@ func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 	}
 	defer fileHandle.Close()
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(src); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(src); err == nil {
-			src = s
-		}
+	// Resolve symbolic links, as filepath.Walk does not follow them
+	if s, err := filepath.EvalSymlinks(src); err == nil {
+		src = s
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
diff --git a/vcs/local.go b/vcs/local.go
index 129edde..50072da 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -70,11 +71,9 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 		return dir[idx+4:], nil
 	}
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(dir); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(dir); err == nil {
-			dir = s
-		}
+	// Resolve symbolic links, as filepath.Walk does not follow them
+	if s, err := filepath.EvalSymlinks(dir); err == nil {
+		dir = s
 	}
 
 	// Hash all files in the directory
-- 
2.43.0


From ec63c7902374db76b1da608e96fda3c57ac1fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 28/29] fix: the client shows nothing when the server answers
 that a search failed

---
 client/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 5beda88..07cf8dc 100644
--- a/client/client.go
+++ b/client/client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -18,6 +19,9 @@ type Response struct {
 		FilesOpened int
 		Duration    int
 	} `json:",omitempty"`
+
+	// Error is set by the server when the search failed.
+	Error string `json:",omitempty"`
 }
 
 type Presenter interface {
@@ -118,7 +122,15 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(r)
+	if err := json.NewDecoder(res.Body).Decode(r); err != nil {
+		return err
+	}
+
+	if r.Error != "" {
+		return errors.New(r.Error)
+	}
+
+	return nil
 }
 
 // Load the list of repositories from the API running on host.
-- 
2.43.0


From c0fda6a855878e88116d65272b38977b4e27dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 29/29] fix: the client takes a failed request for the
 repositories for an empty list

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index 07cf8dc..5f60495 100644
--- a/client/client.go
+++ b/client/client.go
@@ -141,6 +141,10 @@ func LoadRepos(repos map[string]*config.Repo, cfg *Config) error {
 	}
 	defer res.Body.Close()
 
+	if res.StatusCode != http.StatusOK {
+		return fmt.Errorf("Status %d", res.StatusCode)
+	}
+
 	return json.NewDecoder(res.Body).Decode(&repos)
 }
 
-- 
2.43.0

