From 14e2fd2ace51589f6725f5a034ec9f27d674ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 01/44] fix: bound allocations of the message decoder by the
 data received

A struct field count or string length in a posted message was used to size
an allocation before any of the content was read, so a few bytes could panic
the handler (makeslice: len out of range) or allocate gigabytes.
---
 lens/astsrv.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..d8a360c 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -233,6 +233,12 @@ func (s *astServer) handleEventError(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 }
 
+// Lengths in a message are not trusted for allocation beyond these sizes.
+const (
+	lensReaderInitialFields    = 64
+	lensReaderInitialStringLen = 64 * 1024
+)
+
 type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
@@ -362,11 +368,18 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields. The count comes from the message, so memory only grows as fields are actually read.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	fields := make([]LensMonitorField, 0, min(count, lensReaderInitialFields))
 	for i := uint64(0); i < count; i++ {
-		if err := lr.readField(&fields[i]); err != nil {
+		var f LensMonitorField
+		if err := lr.readField(&f); err != nil {
 			return nil, err
 		}
+		fields = append(fields, f)
 	}
 	return fields, nil
 }
@@ -477,13 +490,8 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	default:
 		return nil, nil, fmt.Errorf("unknown value tag: %d (0x%02x)", tag, tag)
 	}
@@ -559,6 +567,13 @@ func (lr *lensReader) readString() (string, error) {
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
 	}
+	if length > lensReaderInitialStringLen { // length comes from the message, only grow as content is actually read
+		var sb strings.Builder
+		if _, err := io.CopyN(&sb, lr.r, int64(length)); err != nil {
+			return "", err
+		}
+		return sb.String(), nil
+	}
 	buf := make([]byte, length)
 	if _, err := io.ReadFull(lr.r, buf); err != nil {
 		return "", err
-- 
2.43.0


From 7c327d6e24ceb3f60596322783d470d6a6207207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:16 +0000
Subject: [PATCH 02/44] fix: keep the key of a field tree distinct for trees of
 different shape

---
 lens/types.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lens/types.go b/lens/types.go
index 849967f..fbb151c 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -633,18 +633,16 @@ func (fv FieldValues) ID() string {
 	}
 	var walk func(cur FieldValues)
 	walk = func(cur FieldValues) {
+		// count-prefix so entries can't shift between a node and its parent
+		binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(cur)))
+		hash.Write(lenBuf[:])
 		sortedKeys := bulk.MapKeysSlice(cur)
 		slices.Sort(sortedKeys)
 		for _, key := range sortedKeys {
 			writeFramed([]byte(key))
 			fv := cur[key]
-			if len(fv.Children) == 0 {
-				hash.Write([]byte{0}) // leaf tag
-				writeFramed([]byte(fv.Value))
-			} else {
-				hash.Write([]byte{1}) // node tag
-				walk(fv.Children)
-			}
+			writeFramed([]byte(fv.Value))
+			walk(fv.Children)
 		}
 	}
 	walk(fv)
-- 
2.43.0


From c171beeab028e3d0b15f0f5c3b1c84aa43bf211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:01 +0000
Subject: [PATCH 03/44] fix: compare call intervals without 32-bit overflow

---
 lens/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..d78c265 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -497,7 +497,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 					preInterval := preTime - lastPreCallTime
 					postInterval := postTime - lastPostCallTime
 
-					if max(1, preInterval)*uint32(timeMultiplier) < postInterval {
+					if uint64(max(1, preInterval))*uint64(timeMultiplier) < uint64(postInterval) {
 						// Performance regression detected
 						intervalDiff := int64(postInterval) - int64(preInterval)
 						_, _ = fmt.Fprintf(&performanceLogBuffer,
@@ -513,7 +513,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 								PostTimeMs: postInterval,
 							}
 						}
-					} else if preInterval > max(1, postInterval)*uint32(timeMultiplier) {
+					} else if uint64(preInterval) > uint64(max(1, postInterval))*uint64(timeMultiplier) {
 						// Performance improvement detected
 						intervalDiff := int64(postInterval) - int64(preInterval)
 						_, _ = fmt.Fprintf(&performanceLogBuffer,
-- 
2.43.0


From b1c0d687eb8bc8402cc17d0196f0b30dc16014fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 04/44] fix: report only tests with results before and after
 the update

---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index d78c265..98c079c 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -402,9 +402,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 	// compare the pre and post module update field values
 	var sameCount, diffCount int
-	testReports := make([]TestReport, len(postResultsNames))
+	testReports := make([]TestReport, 0, len(postResultsNames))
 	var performanceLogBuffer strings.Builder
-	for i, funcIdent := range postResultsNames {
+	for _, funcIdent := range postResultsNames {
 		preResults, found, err := d.loadTestResult(preResultStorage, funcIdent)
 		if err != nil {
 			return 0, 0, nil, fmt.Errorf("error loading pre-results for %s: %w", funcIdent, err)
@@ -591,7 +591,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 		postResults.CallerResults = nil
 		postResults.ProjectPanics = nil
 		postResults.ModulePanics = nil
-		testReports[i] = TestReport{
+		testReports = append(testReports, TestReport{
 			OriginalResult:      preResults,
 			PostUpdateResult:    postResults,
 			CallerFieldChanges:  callerFieldChanges,
@@ -599,7 +599,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 			TestRegressionCount: testRegressionCount,
 			SameFieldCount:      testSameCount,
 			DiffFieldCount:      testDiffCount,
-		}
+		})
 	}
 
 	if performanceLogBuffer.Len() > 0 {
-- 
2.43.0


From ece8c14afa7dc88c960f4ba3eecd780b1af627a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:13 +0000
Subject: [PATCH 05/44] fix: find empty values in the persistent store

---
 lens/storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..cf5a02b 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -292,6 +292,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	var raw []byte
+	var found bool
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -300,6 +301,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
+		found = true
 		return item.Value(func(v []byte) error {
 			raw = append([]byte(nil), v...)
 			return nil
@@ -307,7 +309,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	})
 	if err != nil {
 		return nil, false, err
-	} else if raw == nil {
+	} else if !found {
 		return nil, false, nil
 	}
 
-- 
2.43.0


From 2bd9485055bcd30db969eaea92ad115805cd0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:13 +0000
Subject: [PATCH 06/44] fix: do not mistake a stored value for a split marker

---
 lens/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index cf5a02b..1adeb8e 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -261,8 +261,8 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 			return err
 		}
 
-		// if small enough, write in one piece
-		if len(storeBlob) <= badgerSplitLimit {
+		// if small enough, write in one piece (unless it could be mistaken for a split marker)
+		if len(storeBlob) <= badgerSplitLimit && !splitRe.Match(storeBlob) {
 			return txn.Set(mainKey, storeBlob)
 		}
 
-- 
2.43.0


From dceded0c9519bba78e0beefeb357b7be7421d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:35 +0000
Subject: [PATCH 07/44] fix: load a split value in one transaction

---
 lens/storage.go | 65 +++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 1adeb8e..25cf7ef 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -291,8 +291,10 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
-	var raw []byte
+	var stored []byte
+	var decompressedSize int
 	var found bool
+	// one transaction, so a split value can't be replaced between reading its marker and its parts
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -302,53 +304,52 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			return err
 		}
 		found = true
-		return item.Value(func(v []byte) error {
+		var raw []byte
+		if err := item.Value(func(v []byte) error {
 			raw = append([]byte(nil), v...)
 			return nil
-		})
-	})
-	if err != nil {
-		return nil, false, err
-	} else if !found {
-		return nil, false, nil
-	}
+		}); err != nil {
+			return err
+		}
 
-	var stored []byte
-	var decompressedSize int
-	if m := splitRe.FindSubmatch(raw); m == nil {
-		stored = raw // it was stored whole
-	} else { // reassemble split value
+		m := splitRe.FindSubmatch(raw)
+		if m == nil {
+			stored = raw // it was stored whole
+			return nil
+		}
+		// reassemble split value
 		count, err := strconv.Atoi(string(m[1]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse value count: %w", err)
+			return fmt.Errorf("failed to parse value count: %w", err)
 		}
 		compressedSize, err := strconv.Atoi(string(m[2]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse compressed size: %w", err)
+			return fmt.Errorf("failed to parse compressed size: %w", err)
 		}
 		decompressedSize, err = strconv.Atoi(string(m[3]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse decompressed size: %w", err)
+			return fmt.Errorf("failed to parse decompressed size: %w", err)
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
-			for i := 0; i < count; i++ {
-				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
-				if err != nil {
-					return fmt.Errorf("large value failure on part %d: %w", i, err)
-				} else if err := item.Value(func(v []byte) error {
-					copy(stored[off:], v)
-					off += len(v)
-					return nil
-				}); err != nil {
-					return err
-				}
+		for i := 0; i < count; i++ {
+			item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+			if err != nil {
+				return fmt.Errorf("large value failure on part %d: %w", i, err)
+			} else if err := item.Value(func(v []byte) error {
+				copy(stored[off:], v)
+				off += len(v)
+				return nil
+			}); err != nil {
+				return err
 			}
-			return nil
-		}); err != nil {
-			return nil, false, err
 		}
+		return nil
+	})
+	if err != nil {
+		return nil, false, err
+	} else if !found {
+		return nil, false, nil
 	}
 
 	if badgerCompression == options.None { // manually decompress
-- 
2.43.0


From 259c6e5f083760209d26135fd92def0994f10a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:48 +0000
Subject: [PATCH 08/44] fix: remove a client file whose injection failed half
 way

---
 lens/asttweak.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..22e99f5 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -234,19 +234,25 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	})
 	if err != nil {
 		return fmt.Errorf("rewrite astclient failure: %w", err)
-	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
+	}
+	m.addCleanupAction(func() error { return removeIfExists(clientFile) })
+	if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
 		return err
 	}
 	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
-	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
+	}
+	m.addCleanupAction(func() error { return removeIfExists(apiFile) })
+	return os.WriteFile(apiFile, apiTxt, 0o644)
+}
+
+// removeIfExists removes the file, which may not have been created.
+func removeIfExists(filepath string) error {
+	if err := os.Remove(filepath); err != nil && !errors.Is(err, fs.ErrNotExist) {
 		return err
 	}
-	m.addCleanupAction(func() error {
-		return errors.Join(os.Remove(clientFile), os.Remove(apiFile))
-	})
 	return nil
 }
 
-- 
2.43.0


From 9e4dcb0aaeb5c2bdf0b6cc697a626714ab1779a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:39 +0000
Subject: [PATCH 09/44] fix: back up and restore an edited file that already
 has a foreign .bkp file

---
 lens/asttweak.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 22e99f5..050a952 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -71,6 +71,7 @@ type ASTModifier struct {
 	currPointId    atomic.Uint32
 	cleanupLock    sync.Mutex
 	cleanupActions []func() error
+	backupFiles    map[string]bool // files with a backup of this modifier
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
@@ -101,6 +102,7 @@ func (m *ASTModifier) Restore(goenv []string) (result []error) {
 		}
 	}
 	m.cleanupActions = m.cleanupActions[:0] // clear completed actions
+	m.backupFiles = nil
 	if err := goCacheClean(goenv); err != nil {
 		result = append(result, fmt.Errorf("failure to clean go cache: %w", err))
 	}
@@ -388,17 +390,39 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile will copy the file to a .bkp file if one does not already exist.
+// backupOrigFile will copy the file to a .bkp file, unless this modifier did so already.
+// A file not created by this modifier is never used as (or overwritten by) the backup.
 func (m *ASTModifier) backupOrigFile(filepath string) error {
+	m.cleanupLock.Lock()
+	done := m.backupFiles[filepath]
+	m.cleanupLock.Unlock()
+	if done {
+		return nil
+	}
+
 	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
+	for i := 1; ; i++ {
+		if _, err := os.Lstat(bkpFile); errors.Is(err, fs.ErrNotExist) {
+			break
+		} else if err != nil {
 			return fmt.Errorf("ast backup failure: %w", err)
 		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+		bkpFile = filepath + ".bkp" + strconv.Itoa(i)
 	}
+	if err := CopyFile(filepath, bkpFile); err != nil {
+		_ = os.Remove(bkpFile) // may be incomplete
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+
+	m.cleanupLock.Lock()
+	defer m.cleanupLock.Unlock()
+	if m.backupFiles == nil {
+		m.backupFiles = make(map[string]bool)
+	}
+	m.backupFiles[filepath] = true
+	m.cleanupActions = append(m.cleanupActions, func() error {
+		return replaceFile(bkpFile, filepath)
+	})
 	return nil
 }
 
-- 
2.43.0


From 4352d9359de87dbd4f9565ffacf827d6fdac253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:31 +0000
Subject: [PATCH 10/44] fix: do not write an edited source file through a
 symlink

---
 lens/asttweak.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 050a952..f5d4264 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -150,7 +150,7 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 			return fmt.Errorf("ast format failure %s: %w", filepath, err)
 		} else if err := m.backupOrigFile(filepath); err != nil {
 			return err
-		} else if err := os.WriteFile(filepath, buf.Bytes(), 0o644); err != nil {
+		} else if err := writeSourceFile(filepath, buf.Bytes()); err != nil {
 			return fmt.Errorf("ast write failure %s: %w", filepath, err)
 		}
 		return nil
@@ -250,6 +250,19 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	return os.WriteFile(apiFile, apiTxt, 0o644)
 }
 
+// writeSourceFile writes an edited source file. A symlink is replaced rather than written through, because the
+// backup of a symlink preserves only the link.
+func writeSourceFile(filepath string, data []byte) error {
+	if info, err := os.Lstat(filepath); err != nil {
+		return err
+	} else if info.Mode()&os.ModeSymlink != 0 {
+		if err := os.Remove(filepath); err != nil {
+			return err
+		}
+	}
+	return os.WriteFile(filepath, data, 0o644)
+}
+
 // removeIfExists removes the file, which may not have been created.
 func removeIfExists(filepath string) error {
 	if err := os.Remove(filepath); err != nil && !errors.Is(err, fs.ErrNotExist) {
@@ -2003,5 +2016,5 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	if err := m.backupOrigFile(fn.FilePath); err != nil {
 		return err
 	}
-	return os.WriteFile(fn.FilePath, []byte(strings.Join(out, "\n")), 0644)
+	return writeSourceFile(fn.FilePath, []byte(strings.Join(out, "\n")))
 }
-- 
2.43.0


From 08cd82d42fe4e047201082b4b1c5cd18264f43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:33 +0000
Subject: [PATCH 11/44] fix: restore go.mod and go.sum files whatever part of
 their backup failed

---
 lens/astexec.go  | 49 +++++++++++++++++++++++++-----------------------
 lens/asttweak.go | 13 ++-----------
 lens/file.go     | 19 +++++++++++++++++++
 3 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..67de1f2 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -112,41 +112,44 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
+	type fileBackup struct {
+		path string
+		bkp  string
 	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
+	backups := make([]fileBackup, 0, len(goModPaths)*2)
+	var createdSums []string // go.sum files which may be created by the update
 	// restore originals (and remove .bkp) on every return path, including early errors
 	defer func() {
 		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
-				}
+			if err := os.Rename(b.bkp, b.path); err != nil {
+				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.path, err)
+			}
+		}
+		for _, sum := range createdSums {
+			if err := removeIfExists(sum); err != nil {
+				log.Printf("%sFailed to remove %s: %v", ErrorLogPrefix, sum, err)
 			}
 		}
 	}()
 	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
+		bkp, err := createBackup(gm)
+		if err != nil {
 			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
 				fmt.Errorf("backup go.mod failed: %w", err)
 		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
-				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
-			}
+		backups = append(backups, fileBackup{path: gm, bkp: bkp})
+
+		sum := filepath.Join(filepath.Dir(gm), "go.sum")
+		if !FileExists(sum) {
+			createdSums = append(createdSums, sum)
+			continue
+		}
+		bkp, err = createBackup(sum)
+		if err != nil {
+			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
+				fmt.Errorf("backup go.sum failed: %w", err)
 		}
-		backups = append(backups, info)
+		backups = append(backups, fileBackup{path: sum, bkp: bkp})
 	}
 
 	for _, gm := range goModPaths {
diff --git a/lens/asttweak.go b/lens/asttweak.go
index f5d4264..3746088 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -413,17 +413,8 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 		return nil
 	}
 
-	bkpFile := filepath + ".bkp"
-	for i := 1; ; i++ {
-		if _, err := os.Lstat(bkpFile); errors.Is(err, fs.ErrNotExist) {
-			break
-		} else if err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
-		}
-		bkpFile = filepath + ".bkp" + strconv.Itoa(i)
-	}
-	if err := CopyFile(filepath, bkpFile); err != nil {
-		_ = os.Remove(bkpFile) // may be incomplete
+	bkpFile, err := createBackup(filepath)
+	if err != nil {
 		return fmt.Errorf("ast backup failure: %w", err)
 	}
 
diff --git a/lens/file.go b/lens/file.go
index 92f93cb..fc25823 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 
 	"golang.org/x/sync/errgroup"
@@ -59,6 +60,24 @@ func replaceFile(source, destination string) error {
 	return os.Rename(source, destination)
 }
 
+// createBackup copies the file to a new .bkp file beside it and returns the path of the copy.
+func createBackup(path string) (string, error) {
+	bkpFile := path + ".bkp"
+	for i := 1; ; i++ {
+		if _, err := os.Lstat(bkpFile); errors.Is(err, fs.ErrNotExist) {
+			break
+		} else if err != nil {
+			return "", err
+		}
+		bkpFile = path + ".bkp" + strconv.Itoa(i)
+	}
+	if err := CopyFile(path, bkpFile); err != nil {
+		_ = os.Remove(bkpFile) // may be incomplete
+		return "", err
+	}
+	return bkpFile, nil
+}
+
 // CopyFile copies src to dst. If src is a symlink, it recreates the symlink at dst pointing to the same target.
 // Otherwise, it copies the file’s contents (using os.Create’s default mode).
 func CopyFile(src, dst string) (err error) {
-- 
2.43.0


From f0610d325be371379188dbca9fff29329c8f74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:50 +0000
Subject: [PATCH 12/44] fix: do not wait forever after a state message of an
 unknown point

---
 lens/astexec.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 67de1f2..dbff1e1 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -701,8 +701,6 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 }
 
 func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
-	t.wait.Add(1) // done in routine
-
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 		fmt.Printf(">> State fields for point %v:\n", msg.PointID)
@@ -734,6 +732,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 		storageKey = *callerIdent
 	}
 
+	t.wait.Add(1) // done in routine
 	lock := t.pointLocks.Lock(storageKey)
 	go func() {
 		defer t.wait.Done()
-- 
2.43.0


From c33b7091d00b99439f08ef1c314cab8a812bdaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:56 +0000
Subject: [PATCH 13/44] fix: inject the clients before the sources they read
 are edited

---
 lens/astexec.go | 55 +++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index dbff1e1..262aa86 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -309,7 +309,33 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 	pointIdLock := sync.Mutex{}
 	projectStatePointIdToIdent := make(map[uint32]*string)
 	projectPanicPointIdToIdent := make(map[uint32]*string)
-	projectPkgs := make([]string, 0, len(callerFunctions))
+	// inject the AST clients before any source is edited, because the files of a package are read to determine its name
+	clientPkgs := func(dirs []string, desc string) (int, error) {
+		slices.Sort(dirs)
+		dirs = slices.Compact(dirs)
+		clientGrp := ErrGroupLimitCPU()
+		for _, dir := range dirs {
+			clientGrp.Go(func() error {
+				if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
+					return fmt.Errorf("failed to inject %s AST client: %w", desc, err)
+				}
+				return nil
+			})
+		}
+		return len(dirs), clientGrp.Wait()
+	}
+	if _, err := clientPkgs(bulk.SliceTransform(func(cf *CallerFunction) string {
+		return filepath.Dir(cf.FilePath)
+	}, callerFunctions), "project"); err != nil {
+		return nil, nil, nil, nil, nil, err
+	}
+	modulePkgCount, err := clientPkgs(bulk.SliceTransform(func(mf *ModuleFunction) string {
+		return filepath.Dir(mf.FilePath)
+	}, moduleChanges), "module")
+	if err != nil {
+		return nil, nil, nil, nil, nil, err
+	}
+
 	errGrp := ErrGroupLimitCPU()
 	fileFuncHandler := func(funcs []*CallerFunction) error {
 		if len(funcs) == 0 {
@@ -377,18 +403,6 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 			currentFileFunctions = append(currentFileFunctions, cf)
 			continue
 		}
-		// inject ast client if not already injected
-		if dir := filepath.Dir(cf.FilePath); !slices.Contains(projectPkgs, dir) {
-			projectPkgs = append(projectPkgs, dir)
-
-			errGrp.Go(func() error {
-				if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-					return fmt.Errorf("failed to inject project AST client: %w", err)
-				}
-				return nil
-			})
-		}
-
 		fileFunctions := currentFileFunctions
 		currentFileFunctions = []*CallerFunction{cf} // reset for our new file
 		currentFile = cf.FilePath
@@ -399,7 +413,6 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 	moduleEntryPointIdToIdent := make(map[uint32]*string)
 	modulePanicPointIdToIdent := make(map[uint32]*string)
 	if len(moduleChanges) > 0 {
-		modulePkgs := make([]string, 0, len(moduleChanges))
 		fileFuncHandler := func(funcs []*ModuleFunction) error {
 			if len(funcs) == 0 {
 				return nil
@@ -456,18 +469,6 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 				currentFileFunctions = append(currentFileFunctions, mf)
 				continue
 			}
-			// inject ast client if not already in package
-			if dir := filepath.Dir(mf.FilePath); !slices.Contains(modulePkgs, dir) {
-				modulePkgs = append(modulePkgs, dir)
-
-				errGrp.Go(func() error {
-					if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-						return fmt.Errorf("failed to inject module AST client: %w", err)
-					}
-					return nil
-				})
-			}
-
 			fileFunctions := currentFileFunctions
 			currentFileFunctions = []*ModuleFunction{mf} // reset for our new file
 			currentFile = mf.FilePath
@@ -478,7 +479,7 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 		errGrp.Go(func() error {
 			return fileFuncHandler(currentFileFunctions)
 		})
-		log.Printf("Monitor injected in %v relevant module functions (%v pkgs)", len(moduleChanges), len(modulePkgs))
+		log.Printf("Monitor injected in %v relevant module functions (%v pkgs)", len(moduleChanges), modulePkgCount)
 	}
 	if err := errGrp.Wait(); err != nil { // wait for AST modifications to finish
 		return nil, nil, nil, nil, nil, err
-- 
2.43.0


From b60bd1ceed5151151ead664644c638fcddd78b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:28 +0000
Subject: [PATCH 14/44] fix: report the state at every return of a function

Returns in an else-if chain beyond its second branch, in a select or in a labeled statement, and at the end of the
body of a function that also has explicit returns, had no state point.
---
 lens/asttweak.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 3746088..6c5f871 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -612,16 +612,25 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 				if err := rewriteBlock(s.Body); err != nil {
 					return err
 				}
-				if s.Else != nil {
-					switch e := s.Else.(type) {
-					case *ast.BlockStmt:
-						if err := rewriteBlock(e); err != nil {
-							return err
-						}
-					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
+				if s.Else != nil { // block or further if
+					if err := rewriteBlock(&ast.BlockStmt{List: []ast.Stmt{s.Else}}); err != nil {
+						return err
+					}
+				}
+			case *ast.LabeledStmt:
+				blk := &ast.BlockStmt{List: []ast.Stmt{s.Stmt}}
+				if err := rewriteBlock(blk); err != nil {
+					return err
+				}
+				s.Stmt = blk.List[0]
+			case *ast.SelectStmt:
+				for _, stmt := range s.Body.List {
+					if cc, ok := stmt.(*ast.CommClause); ok {
+						blk := &ast.BlockStmt{List: cc.Body}
+						if err := rewriteBlock(blk); err != nil {
 							return err
 						}
+						cc.Body = blk.List
 					}
 				}
 			case *ast.ForStmt:
@@ -657,17 +666,24 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 		return nil
 	}
 
+	// Functions without results also return at the end of the body, unless it ends with a return
+	returnsAtEnd := len(funcResultTypes) == 0
+	if n := len(funcDecl.Body.List); n > 0 && returnsAtEnd {
+		_, endsInReturn := funcDecl.Body.List[n-1].(*ast.ReturnStmt)
+		returnsAtEnd = !endsInReturn
+	}
+
 	if err := rewriteBlock(funcDecl.Body); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
-	} else if !foundExplicitReturn {
+	} else if !foundExplicitReturn || returnsAtEnd {
 		pointID, err := m.nextPointId()
 		if err != nil {
 			return nil, err
 		}
-		pointIDs = []uint32{pointID}
+		pointIDs = append(pointIDs, pointID)
 
 		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
-		stmt, err := buildImplicitReturnInstrumentation(&buf, pointIDs[0], decls)
+		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
@@ -1296,7 +1312,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause, *ast.CommClause:
 			if n.End() < retPos {
 				return false // prune subtree
 			}
-- 
2.43.0


From 8f844c1a64ed1ab45ef729d1e932546e6e03ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 15/44] fix: instrument returns where a variable has the name
 of a result type

The temporary of a returned value was declared with the result type, which does not compile where a variable in scope
has the name of that type.
---
 lens/asttweak.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6c5f871..3bcf936 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1444,6 +1444,27 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 			prefix = syntheticFieldNamePrefixRecursive
 		}
 
+		if declsShadowType(decls, funcResultTypes[i]) {
+			// the result type can't be named here, constants and identifiers are returned as they are
+			expr, err := cloneExprNoPos(buf, expr)
+			if err != nil {
+				return nil, err
+			}
+			retName := prefix + strconv.Itoa(i)
+			retExpr := expr
+			if _, isIdent := expr.(*ast.Ident); !isIdent && !isConstantExpr(expr) {
+				retExpr = ident(retName)
+				preStmts = append(preStmts, &ast.AssignStmt{
+					Lhs: []ast.Expr{retExpr},
+					Tok: token.DEFINE,
+					Rhs: []ast.Expr{expr},
+				})
+			}
+			newResults = append(newResults, retExpr)
+			snaps = append(snaps, makeSnapshotLit(retName, retExpr))
+			continue
+		}
+
 		switch e := expr.(type) {
 		case *ast.Ident:
 			var needTmp bool
@@ -1815,6 +1836,13 @@ func makeReturnTemp(namePrefix string, i int, expr ast.Expr, typ ast.Expr) (retI
 	return
 }
 
+// declsShadowType checks if a declared variable shadows an identifier used in typ.
+func declsShadowType(decls []declInfo, typ ast.Expr) bool {
+	return slices.ContainsFunc(decls, func(d declInfo) bool {
+		return exprContainsTypeShadow(d.ident, typ)
+	})
+}
+
 // exprContainsTypeShadow checks if any identifier in expr might shadow a type name in typ.
 // For example, if expr contains identifier "deviceFlowResponse" and typ is "*deviceFlowResponse",
 // then a variable named "deviceFlowResponse" would shadow the type name.
-- 
2.43.0


From 67595b85deb8b4c7ba6c4be2842b6136ea8760ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:20 +0000
Subject: [PATCH 16/44] fix: order pre-release Go versions

A go directive such as 1.21rc1 counted as older than every other version, so that functions of the module were taken to
be below the minimum version and skipped.
---
 lens/module.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..c09f910 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -486,7 +486,23 @@ func parseProjectDeps(projectDir string, preferNewest bool) (map[string]string,
 // compareGoVersions compares two Go version strings (e.g., "1.12", "1.21").
 // Returns -1 if a < b, 0 if a == b, 1 if a > b.
 func compareGoVersions(a, b string) int {
-	return semver.Compare("v"+a, "v"+b)
+	return semver.Compare(goVersionSemver(a), goVersionSemver(b))
+}
+
+// goVersionSemver converts a Go version to semantic version form, pre-releases (e.g., "1.21rc1") included.
+func goVersionSemver(v string) string {
+	i := strings.IndexAny(v, "br") // beta or rc
+	if i < 0 {
+		return "v" + v
+	}
+	base, pre := v[:i], v[i:]
+	if strings.Count(base, ".") == 1 {
+		base += ".0"
+	}
+	if num := strings.IndexAny(pre, "0123456789"); num > 0 {
+		pre = pre[:num] + "." + pre[num:] // compared as a number
+	}
+	return "v" + base + "-" + pre
 }
 
 // olderGoVersion returns the older version, treating empty as "no constraint".
-- 
2.43.0


From 043602aa66f702ffb69079ec6b76f4ae86fc6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:21 +0000
Subject: [PATCH 17/44] fix: keep the changed functions of a module listed more
 than once

A module updated in several modules of a workspace is listed once for each; the later ones replaced its changed functions
with nothing.
---
 lens/module.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/module.go b/lens/module.go
index c09f910..b9093f4 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -109,6 +109,9 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 	newVersionPackages := make(map[string][]*packages.Package, len(moduleChanges))
 
 	for _, mc := range moduleChanges {
+		if visited[mc.Name] {
+			continue // listed more than once, for example by several modules of a workspace
+		}
 		cf, pkgs, recursiveCalls, err :=
 			analyzeModuleChangesInternal(includeTransitive, mc, gomodcache, projectDir, neighbourRadius, visited)
 		if err != nil {
-- 
2.43.0


From 7affe3e9ec7e9a23553d7525607076cc80588e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:00 +0000
Subject: [PATCH 18/44] fix: a name starting with two dots can be within a
 directory

---
 lens/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index fc25823..92c28f3 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -42,8 +42,8 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 		return false, err
 	}
 
-	// If rel starts with "..", file is outside the directory
-	if strings.HasPrefix(rel, "..") || strings.HasPrefix(filepath.ToSlash(rel), "../") {
+	// If the first element of rel is "..", file is outside the directory
+	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {
 		return false, nil
 	}
 	return true, nil
-- 
2.43.0


From 1fcf613d6ea7d2dc224b02975dfbe84762ce9b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:00 +0000
Subject: [PATCH 19/44] fix: CopyDir returns the copy's error, after all copies
 have ended

---
 lens/file.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 92c28f3..49bad6b 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -117,7 +117,7 @@ func CopyFile(src, dst string) (err error) {
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
 	eg, ctx := errgroup.WithContext(ctx)
 	eg.SetLimit(runtime.NumCPU() * 4)
-	err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
+	walkErr := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
@@ -147,10 +147,10 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			return nil
 		}
 	})
-	if err != nil {
+	if err := eg.Wait(); err != nil { // also the cause of an aborted walk
 		return err
 	}
-	return eg.Wait()
+	return walkErr
 }
 
 // WriteChmod adds write permissions for owner/group/others on every file and directory under root.
-- 
2.43.0


From f4de17140a09c6b48fc288d1fef5dca048b8e740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:27 +0000
Subject: [PATCH 20/44] fix: keep the analysis within its temporary copy

A failing copy left the temporary directory behind, a project, GOPATH or GOMODCACHE that is a link was not copied, and a
GOMODCACHE within GOPATH but not at its default place was expected at the default place.
---
 lens/engine.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 98c079c..8a547fe 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1023,26 +1023,33 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 	}
 
 	ctx := context.Background()
+	resolve := func(path string) string { // copy files, not a link to them
+		if real, err := filepath.EvalSymlinks(path); err == nil {
+			return real
+		}
+		return path
+	}
+	gopath, gomodcache := resolve(e.Config.Gopath), resolve(e.Config.Gomodcache)
 	newProj := filepath.Join(tempRoot, "project")
-	if err := CopyDir(ctx, e.Config.AbsProjDir, newProj, copyProgressHandler); err != nil {
+	if err := CopyDir(ctx, resolve(e.Config.AbsProjDir), newProj, copyProgressHandler); err != nil {
+		cleanup()
 		return nil, fmt.Errorf("unable to copy project: %w", err)
 	}
-	e.Config.AbsProjDir = newProj
 
 	newGOPATH := filepath.Join(tempRoot, "gopath")
-	if err := CopyDir(ctx, e.Config.Gopath, newGOPATH, copyProgressHandler); err != nil {
+	if err := CopyDir(ctx, gopath, newGOPATH, copyProgressHandler); err != nil {
+		cleanup()
 		return nil, fmt.Errorf("unable to copy GOPATH: %w", err)
 	}
-	if within, err := fileWithinDir(e.Config.Gomodcache, e.Config.Gopath); err != nil || !within {
-		newModCache := filepath.Join(tempRoot, "gomodcache")
-		if err := CopyDir(ctx, e.Config.Gomodcache, newModCache, copyProgressHandler); err != nil {
-			return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
-		}
-		e.Config.Gomodcache = newModCache
-	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
+	newModCache := filepath.Join(tempRoot, "gomodcache")
+	within, err := fileWithinDir(gomodcache, gopath)
+	if rel, relErr := filepath.Rel(gopath, gomodcache); err == nil && within && relErr == nil {
+		newModCache = filepath.Join(newGOPATH, rel)
+	} else if err := CopyDir(ctx, gomodcache, newModCache, copyProgressHandler); err != nil {
+		cleanup()
+		return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
 	}
-	e.Config.Gopath = newGOPATH
+	e.Config.AbsProjDir, e.Config.Gopath, e.Config.Gomodcache = newProj, newGOPATH, newModCache
 	fmt.Println()
 	return cleanup, nil
 }
-- 
2.43.0


From 7ea4c5121df344de7fa221c1a8465ef45d4b2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 21/44] fix: report the number of changed functions if none is
 reachable

---
 lens/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 8a547fe..82355c6 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -837,7 +837,7 @@ func (e *AnalysisEngine) Run() error {
 		log.Printf("Module changes are not reachable by project, exiting")
 		return e.ReportWriter.WriteReportFiles(e.Config.ReportJsonFile, e.Config.ReportChartsFile,
 			startTime, analysisEndTime.Sub(startTime), 0, 0, 0,
-			initialModules.changedModules, checkedModuleNames, 0, 0, 0,
+			initialModules.changedModules, checkedModuleNames, len(moduleChanges), 0, 0,
 			0, callingFunctions, nil,
 			0, 0, nil, MutationResult{})
 	}
-- 
2.43.0


From 8f6c512806cc3c25d7cdc22d026150f878c739d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 22/44] fix: do not repeat target modules when a config is
 prepared again after a failure

---
 lens/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 82355c6..621651a 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1077,12 +1077,13 @@ func (c *Config) Prepare() error {
 	c.AbsProjDir = absProjDir
 
 	// Parse and validate target modules
+	var targetModules []TargetModule // added to the config once everything is valid
 	if c.ModuleVersionFlag != "" {
 		targetModule, err := parseTargetModule(c.ModuleVersionFlag)
 		if err != nil {
 			return fmt.Errorf("invalid module version format: %w", err)
 		}
-		c.TargetModules = append(c.TargetModules, targetModule)
+		targetModules = append(targetModules, targetModule)
 	}
 
 	if c.ModulesVersionFlag != "" {
@@ -1096,7 +1097,7 @@ func (c *Config) Prepare() error {
 			if err != nil {
 				return fmt.Errorf("invalid module version format in modules list: %w", err)
 			}
-			c.TargetModules = append(c.TargetModules, targetModule)
+			targetModules = append(targetModules, targetModule)
 		}
 	}
 
@@ -1149,6 +1150,7 @@ func (c *Config) Prepare() error {
 		}
 	}
 
+	c.TargetModules = append(c.TargetModules, targetModules...)
 	c.prepared = true
 	return nil
 }
-- 
2.43.0


From 1f6fae290d1d3610d8dd8ec020fc6c38de50ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 23/44] fix: check both report paths without touching existing
 files

---
 lens/engine.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 621651a..3a081ae 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1144,7 +1144,8 @@ func (c *Config) Prepare() error {
 		if err := c.validateOutputPath(c.ReportJsonFile); err != nil {
 			return fmt.Errorf("invalid JSON report file path: %w", err)
 		}
-	} else if c.ReportChartsFile != "" {
+	}
+	if c.ReportChartsFile != "" {
 		if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
 			return fmt.Errorf("invalid charts report file path: %w", err)
 		}
@@ -1210,11 +1211,11 @@ func (c *Config) validateOutputPath(path string) error {
 	}
 
 	// Check if we can write to the directory
-	testFile := filepath.Join(dir, ".write_test")
-	file, err := os.Create(testFile)
+	file, err := os.CreateTemp(dir, ".write_test-*") // must not be an existing file
 	if err != nil {
 		return fmt.Errorf("cannot write to output directory '%s': %w", dir, err)
 	}
+	testFile := file.Name()
 	_ = file.Close()
 	return os.Remove(testFile)
 }
-- 
2.43.0


From a14f6a221bb853cbae945b32f04089ebfb1bd81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:00 +0000
Subject: [PATCH 24/44] fix: list performance changes in a fixed order

PrepareReportData appended them in map iteration order, so the same
analysis produced different reports.
---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index a6af4ee..6e09bd0 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -161,7 +161,8 @@ func PrepareReportData(changedModules []*ModuleChange, projectCallingFunctions [
 
 		// Collect performance changes
 		if len(tr.CallerTimeChanges) > 0 {
-			for callerIdent, timeChange := range tr.CallerTimeChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerTimeChanges)) { // keep consistent order in report
+				timeChange := tr.CallerTimeChanges[callerIdent]
 				performanceChanges = append(performanceChanges, PerformanceChange{
 					TestFunctionIdent: tr.OriginalResult.TestFunction.FunctionIdent,
 					TestFunctionName:  tr.OriginalResult.TestFunction.FunctionName,
-- 
2.43.0


From d6409b62b6783f7cbd66175ec91abdd3a1fabc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:00 +0000
Subject: [PATCH 25/44] fix: skip the charts when no chart file is asked for

Prepare accepts an empty charts path, like an empty JSON path, but the
run then failed at its end with an unhandled chart file type.
---
 lens/report.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/report.go b/lens/report.go
index 6e09bd0..6c276ea 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -364,6 +364,10 @@ func writeReportCharts(path string, moduleName, startVersion, changeVersion stri
 	moduleChangeFuncCount, reachableModuleFunctionCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
 	testFieldSameCount, testFieldDiffCount int, testResults []TestReport,
 	globalMutations MutationResult) error {
+	if path == "" {
+		return nil
+	}
+
 	var outputType string
 	if strings.HasSuffix(path, ".png") {
 		outputType = charts.ChartOutputPNG
-- 
2.43.0


From 59f72dc7202e8a267ad5aaaae48d22f455411c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:32 +0000
Subject: [PATCH 26/44] fix: keep fields apart whose names contain dots

The flattened name of a map key like "a.b" was that of entry b of a, so
one of the two fields was lost, at random, when results are compared.
---
 lens/types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lens/types.go b/lens/types.go
index fbb151c..9c137e0 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -593,15 +593,18 @@ func (sf *StackFrame) Equal(other *StackFrame) bool {
 }
 
 // FlattenFieldValues converts the hierarchical FieldValues tree back into the
-// flat dot-separated key => value form.
+// flat dot-separated key => value form. Names containing dots are quoted.
 func (fv FieldValues) FlattenFieldValues() map[string]string {
 	flat := make(map[string]string)
 	var walk func(prefix string, cur FieldValues)
 	walk = func(prefix string, cur FieldValues) {
 		for name, fv := range cur {
 			key := name
+			if strings.Contains(name, ".") || strings.HasPrefix(name, `"`) {
+				key = strconv.Quote(name) // a map key, quoted so that it can't be taken for a path
+			}
 			if prefix != "" {
-				key = prefix + "." + name
+				key = prefix + "." + key
 			}
 
 			if len(fv.Children) == 0 { // leaf
-- 
2.43.0


From f101e324233bc6450fe5edb03257d092c86f443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:16 +0000
Subject: [PATCH 27/44] fix: ignore entry messages of unknown points

They were counted as changed module functions the test reached.
---
 lens/astexec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 262aa86..c1861df 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -697,6 +697,10 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 	}
+	if _, ok := t.moduleEntryPointIdToIdent[msg.PointID]; !ok {
+		log.Printf("%sUnexpected module entry point id: %d", ErrorLogPrefix, msg.PointID)
+		return
+	}
 	// record pointID as reached
 	t.moduleChangesReached.Store(msg.PointID, true)
 }
-- 
2.43.0


From 411a1b5228058db94b870d03548a08545f9bc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:15 +0000
Subject: [PATCH 28/44] fix: take only functions that go test runs for tests

Methods and functions such as Testing were taken for tests, so the
test that calls them was not found and their callers not covered.
---
 lens/static.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/static.go b/lens/static.go
index 14a8bad..34e5f65 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -13,6 +13,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-analyze/bulk"
 	"golang.org/x/tools/go/callgraph"
@@ -640,8 +642,12 @@ func isGoTestFunction(fn *ssa.Function) bool {
 		return false
 	} else if _, ok := fn.Syntax().(*ast.FuncDecl); !ok {
 		return false // only select the top level functions, don't try to be granular to any test case literal / anonymous test functions
-	} else if !strings.HasPrefix(fn.Name(), "Test") {
+	} else if fn.Signature.Recv() != nil {
+		return false // go test does not run methods
+	} else if suffix, ok := strings.CutPrefix(fn.Name(), "Test"); !ok {
 		return false
+	} else if r, _ := utf8.DecodeRuneInString(suffix); unicode.IsLower(r) {
+		return false // go test does not run functions such as "Testing" or "Testify"
 	} else if !strings.HasSuffix(filePathForSSAFunc(fn), "_test.go") {
 		return false
 	} else if fn.Signature.Params().Len() != 1 {
-- 
2.43.0


From 7af3920cf0086e618813a868e8e5dd61dc5cf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 29/44] fix: capture maps in the order of their keys

A value shared between entries of a map was written in full under the
entry visited first, at random, and as a reference under the others, so
that two captures of the same state differed.
---
 lens/astclient.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2147f21..a1108ce 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -361,20 +361,16 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 
 	case reflect.Map:
 		lw.writeByte(lensTypeTagMap)
+		// Sort keys for a deterministic capture, the order selects the entries kept (similar to slices),
+		// as well as where a value shared between entries is written and where it is referenced
 		keys := v.MapKeys()
-		if len(keys) <= lensMonitorFieldMaxLen {
-			// Fast path, size within limit, use undeterministic iteration order
-			lw.writeVarint(uint64(len(keys)))
-			for _, k := range keys {
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
-		} else { // Too many entries, sort keys for deterministic subset (similar to slices)
-			sort.Slice(keys, func(i, j int) bool { return lensCompareReflectValue(keys[i], keys[j]) < 0 })
-			lw.writeVarint(uint64(lensMonitorFieldMaxLen))
-			for i := 0; i < lensMonitorFieldMaxLen; i++ {
-				k := keys[i]
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
+		sort.Slice(keys, func(i, j int) bool { return lensCompareReflectValue(keys[i], keys[j]) < 0 })
+		if len(keys) > lensMonitorFieldMaxLen {
+			keys = keys[:lensMonitorFieldMaxLen]
+		}
+		lw.writeVarint(uint64(len(keys)))
+		for _, k := range keys {
+			lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
 		}
 
 	case reflect.Struct:
-- 
2.43.0


From 9bf4945023ce663a430eb7db1d52b863d7fa9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 30/44] fix: order NaN keys of captured maps consistently

NaN compared equal to every key, so the order, and with it the subset
of a large map that is captured, depended on the iteration order.
---
 lens/astclient.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index a1108ce..abc1126 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -542,13 +542,7 @@ func lensCompareReflectValue(a, b reflect.Value) int {
 		}
 		return 0
 	case reflect.Float32, reflect.Float64:
-		af, bf := a.Float(), b.Float()
-		if af < bf {
-			return -1
-		} else if af > bf {
-			return 1
-		}
-		return 0
+		return lensCompareFloat(a.Float(), b.Float())
 	case reflect.Bool:
 		// false < true
 		if a.Bool() == b.Bool() {
@@ -560,19 +554,10 @@ func lensCompareReflectValue(a, b reflect.Value) int {
 	case reflect.Complex64, reflect.Complex128:
 		// Compare real part first, then imaginary
 		ac, bc := a.Complex(), b.Complex()
-		ar, br := real(ac), real(bc)
-		if ar < br {
-			return -1
-		} else if ar > br {
-			return 1
-		}
-		ai, bi := imag(ac), imag(bc)
-		if ai < bi {
-			return -1
-		} else if ai > bi {
-			return 1
+		if c := lensCompareFloat(real(ac), real(bc)); c != 0 {
+			return c
 		}
-		return 0
+		return lensCompareFloat(imag(ac), imag(bc))
 	case reflect.Pointer, reflect.UnsafePointer:
 		ap, bp := a.Pointer(), b.Pointer()
 		if ap < bp {
@@ -637,6 +622,17 @@ func lensCompareReflectValue(a, b reflect.Value) int {
 	}
 }
 
+// lensCompareFloat compares two floats, with NaN before all other values so that the order is consistent.
+func lensCompareFloat(a, b float64) int {
+	aNaN, bNaN := math.IsNaN(a), math.IsNaN(b)
+	if a < b || (aNaN && !bNaN) {
+		return -1
+	} else if a > b || (bNaN && !aNaN) {
+		return 1
+	}
+	return 0
+}
+
 func (lw *lensMsgEncoder) writeByte(b byte) {
 	lw.buf[0] = b
 	_, _ = lw.w.Write(lw.buf[:1])
-- 
2.43.0


From fc2f6cc4e07a06ced2d36a237809b0f9f9284f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 31/44] fix: end the capture of a pointer to itself

Unwrapping a value like "var x any; x = &x" never ended and hung the
test.
---
 lens/astclient.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index abc1126..ec256ab 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -262,12 +262,18 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 		visited[addr] = valuePath
 	}
 
-	// Unwrap interfaces and pointers
+	// Unwrap interfaces and pointers, limited because pointers may lead back to themselves without a struct between
+	unwraps := 0
 	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) {
 		if v.IsNil() {
 			lw.writeString(v.Type().String())
 			lw.writeByte(lensTypeTagNil)
 			return
+		} else if unwraps++; unwraps > 2*lensMonitorFieldMaxRecurse {
+			lw.writeString(v.Type().String())
+			lw.writeByte(lensTypeTagString)
+			lw.writeString("<max-depth>")
+			return
 		}
 		v = v.Elem()
 	}
-- 
2.43.0


From 25f5702ef44bef58b5b35951a11e4b3a3a3515da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:41 +0000
Subject: [PATCH 32/44] fix: report the largest time change of a caller

A small improvement replaced a large regression measured before it, and
the other way round, depending on their order.
---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 3a081ae..bd0b95c 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -504,9 +504,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 							"WARN: %s->%s Performance regression detected: %dms -> %dms (diff: %dms)\n",
 							postResults.TestFunction.FunctionName, callerIdent, preInterval, postInterval, intervalDiff)
 
-						// Track the most significant regression (largest positive interval diff)
+						// Track the most significant change (largest interval diff in either direction)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if timeDiff > mostSignificantTimeChange.TimeDiff {
+						if timeDiff > mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
@@ -520,9 +520,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 							"%s->%s Performance improvement detected: %dms -> %dms (diff: %dms)\n",
 							postResults.TestFunction.FunctionName, callerIdent, preInterval, postInterval, intervalDiff)
 
-						// Track the most significant improvement (largest negative interval diff)
+						// Track the most significant change (largest interval diff in either direction)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if mostSignificantTimeChange.TimeDiff == 0 || timeDiff < mostSignificantTimeChange.TimeDiff {
+						if timeDiff < -mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
-- 
2.43.0


From 8cb7c2af583bd163eed56c28e785bdfe2f931b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:18 +0000
Subject: [PATCH 33/44] fix: keep lists that are parts of another list apart
 from it when captured

---
 lens/astclient.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index ec256ab..19290b5 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -235,7 +235,15 @@ func (lw *lensMsgEncoder) writeStackFrames(frames []lensMonitorStackFrame) {
 	}
 }
 
-func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[uintptr]string, parentPath string) {
+// lensMonitorVisit identifies a value captured before. Values of different types or lengths may start at the
+// same address (for example a struct and its first field, or a slice and a part of it), they are not the same.
+type lensMonitorVisit struct {
+	ptr uintptr
+	typ reflect.Type
+	len int
+}
+
+func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[lensMonitorVisit]string, parentPath string) {
 	var valuePath string
 	if parentPath == "" {
 		valuePath = name
@@ -248,11 +256,11 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 
 	// Cycle detection for pointers BEFORE unwrapping
 	// This catches self-referential pointers like n.Next = n
-	if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
+	if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() && v.Type().Elem().Size() > 0 {
 		if visited == nil {
-			visited = make(map[uintptr]string)
+			visited = make(map[lensMonitorVisit]string)
 		}
-		addr := v.Pointer()
+		addr := lensMonitorVisit{ptr: v.Pointer(), typ: v.Type()}
 		if cycleName, ok := visited[addr]; ok {
 			lw.writeString(v.Type().String())
 			lw.writeByte(lensTypeTagString)
@@ -302,12 +310,15 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	}
 
 	// Cycle detection
-	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice ||
+	if vKind == reflect.Pointer || vKind == reflect.Map || (vKind == reflect.Slice && v.Len() > 0) ||
 		vKind == reflect.Func || vKind == reflect.Chan {
 		if visited == nil {
-			visited = make(map[uintptr]string)
+			visited = make(map[lensMonitorVisit]string)
+		}
+		addr := lensMonitorVisit{ptr: v.Pointer(), typ: vType}
+		if vKind == reflect.Slice {
+			addr.len = v.Len()
 		}
-		addr := v.Pointer()
 		if cycleName, ok := visited[addr]; ok {
 			lw.writeString(vType.String())
 			lw.writeByte(lensTypeTagString)
@@ -413,7 +424,7 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 }
 
 // streamValueSlice handles slice/array encoding with optimized paths for primitive element types.
-func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[uintptr]string, valuePath string) {
+func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[lensMonitorVisit]string, valuePath string) {
 	length := v.Len()
 	if length > lensMonitorFieldMaxLen {
 		length = lensMonitorFieldMaxLen
-- 
2.43.0


From e825cef1be79e297a530a4ab66da6b48782e32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 34/44] fix: record empty values and lists of texts
 unambiguously

---
 lens/astexec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index c1861df..8083464 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -870,6 +870,11 @@ func collectFields(dst FieldValues, key string, val interface{}, typ string, chi
 	dst[key] = value
 	if len(children) == 0 {
 		str := fmt.Sprint(val)
+		if val == nil && children != nil { // empty, but not nil
+			str = typ + "{}"
+		} else if list, ok := val.([]string); ok { // the texts may contain spaces
+			str = fmt.Sprintf("%q", list)
+		}
 		if !strings.HasSuffix(typ, "string") && len(str) > nonStringHashSizeLimit {
 			sha := sha1.Sum([]byte(str))
 			str = HashFieldValuePrefix + base91.StdEncoding.EncodeToString(sha[:])
-- 
2.43.0


From 8f41a8dddb346565add19e23b2916200724e7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 35/44] fix: keep every captured field when names coincide

---
 lens/astexec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 8083464..8b1c509 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -866,6 +866,11 @@ func collectFields(dst FieldValues, key string, val interface{}, typ string, chi
 		return
 	}
 
+	// keep fields of the same name, for example the keys 1 and "1" of a map
+	name := key
+	for i := 2; dst[key] != nil; i++ {
+		key = fmt.Sprintf("%s#%d", name, i)
+	}
 	value := &FieldValue{}
 	dst[key] = value
 	if len(children) == 0 {
-- 
2.43.0


From 52dee98ff1a0e5f494cb73dc260021f5cd03f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:33 +0000
Subject: [PATCH 36/44] fix: comments within a function do not make it a
 changed one

---
 lens/module.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index b9093f4..a033eb4 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"go/ast"
 	"go/printer"
+	"go/scanner"
+	"go/token"
 	"io/fs"
 	"log"
 	"os"
@@ -217,7 +219,7 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 		for funcKey, newFunc := range newFuncMap {
 			if oldFuncMap == nil {
 				// new functions can be ignored, we will focus on entry points to functions that already existed
-			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && oldFunc.Definition != newFunc.Definition {
+			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && !sameCode(oldFunc.Definition, newFunc.Definition) {
 				oldFunc.LineChangeBitmap = computeChangeLineBitmap(oldFunc.Definition, newFunc.Definition, false, neighbourRadius)
 				changes = append(changes, oldFunc) // add the old function so that the module can accurately be referenced prior to the update
 			}
@@ -701,6 +703,26 @@ func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package,
 	return
 }
 
+// sameCode returns true if two definitions differ at most in their layout, for example by the empty lines that
+// removed comments leave behind.
+func sameCode(a, b string) bool {
+	if a == b {
+		return true
+	}
+	var as, bs scanner.Scanner
+	as.Init(token.NewFileSet().AddFile("", -1, len(a)), []byte(a), nil, 0)
+	bs.Init(token.NewFileSet().AddFile("", -1, len(b)), []byte(b), nil, 0)
+	for {
+		_, aTok, aLit := as.Scan()
+		_, bTok, bLit := bs.Scan()
+		if aTok != bTok || (aLit != bLit && aTok != token.SEMICOLON) {
+			return false
+		} else if aTok == token.EOF {
+			return true
+		}
+	}
+}
+
 // computeChangeLineBitmap compares two versions of a function's source.
 // It returns a []bool where each index corresponds to one line in the chosen definition.
 // If newFunc == true, the bitmap’s indices align with newDef’s lines; if newFunc == false,
-- 
2.43.0


From 702ac9d6408f8b21dd1d5ef3cd25cd00f4c45ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 37/44] fix: mutate only the changed functions, not others
 containing their names

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 843b17f..5df7a7f 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -152,7 +152,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
-	args := []string{"--exec", execScript, "--match", "(" + strings.Join(mutationFunctions, "|") + ")"}
+	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
 		for _, test := range disabledMutations {
-- 
2.43.0


From 189fa100bb6db14935298b5dbae90da7e297a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 38/44] fix: leave no incomplete mutation script behind

---
 lens/mutation.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 5df7a7f..750a8d9 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -222,11 +222,17 @@ case $GOMUTESTING_RESULT in
 	;;
 esac`
 
-func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (string, error) {
+func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (path string, err error) {
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
 	}
+	defer func() {
+		if err != nil { // don't leave an incomplete script
+			_ = file.Close()
+			_ = os.Remove(file.Name())
+		}
+	}()
 
 	if _, err := file.WriteString(`#!/usr/bin/env bash
 
@@ -295,7 +301,7 @@ export GOMUTESTING_RESULT=$?
 	return file.Name(), nil
 }
 
-func buildExecAllTestsScript(packages []string) (string, error) {
+func buildExecAllTestsScript(packages []string) (path string, err error) {
 	const scriptTmpl = `#!/usr/bin/env bash
 PKGS="%s"
 if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
@@ -321,8 +327,14 @@ export GOMUTESTING_RESULT=$?
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
-	} else if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
-		_ = file.Close()
+	}
+	defer func() {
+		if err != nil { // don't leave an incomplete script
+			_ = file.Close()
+			_ = os.Remove(file.Name())
+		}
+	}()
+	if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
 		return "", err
 	} else if err = file.Close(); err != nil {
 		return "", err
-- 
2.43.0


From 3e3d3f005112047511558cf575e51920c219afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:33 +0000
Subject: [PATCH 39/44] fix: exclude the unchanged lines from mutations also in
 functions with comments

---
 lens/asttweak.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++-
 lens/module.go   | 12 +++++++-----
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 3bcf936..0256d4d 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1942,7 +1942,8 @@ func findFuncDecl(f *ast.File, pkg, ident string) *ast.FuncDecl {
 
 // InsertFuncLines walks each source‐line of the given function and lets the caller
 // insert an arbitrary comment (or other text) before any line.
-// The callback returns three values:
+// i is the index of the line in the function's Definition, which is without comments.
+// The callback returns two values:
 //   - insertText: the text to insert above the current line (e.g. “// …”).  If empty, nothing will be inserted.
 //   - keepGoing: true if we should continue processing subsequent lines.
 func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string) (insertText string, keepGoing bool)) error {
@@ -1973,6 +1974,13 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	bodyOpenLine := fset.Position(decl.Body.Lbrace).Line + 1  // first line after '{'
 	bodyCloseLine := fset.Position(decl.Body.Rbrace).Line - 1 // last line before '}'
 	lines := strings.Split(string(data), "\n")
+	// the definition is printed as in extractFunctions, and has other lines when the source has comments
+	var def bytes.Buffer
+	decl.Doc = nil
+	if err := functionPrinter.Fprint(&def, fset, decl); err != nil {
+		return err
+	}
+	definitionLine := mapCodeLines(data[fset.Position(decl.Pos()).Offset:fset.Position(decl.End()).Offset], def.Bytes())
 
 	if bodyOpenLine > bodyCloseLine { // empty body or single line function like "func() {}"
 		return nil
@@ -2030,6 +2038,9 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 
 		if codeLine[bodyIdx] {
 			fullIdx := lineNo - funcStartLine
+			if defIdx, ok := definitionLine[fullIdx]; ok {
+				fullIdx = defIdx
+			}
 			insertText, cont := cb(fullIdx, srcLine)
 			if insertText != "" {
 				out = append(out, indentOf(srcLine)+insertText)
@@ -2053,3 +2064,41 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	}
 	return writeSourceFile(fn.FilePath, []byte(strings.Join(out, "\n")))
 }
+
+// mapCodeLines maps each line of src with code to the line of def with the same code.
+// The result is empty when they are not the same code.
+func mapCodeLines(src, def []byte) map[int]int {
+	type codeToken struct {
+		tok  token.Token
+		line int
+	}
+	scan := func(code []byte) (tokens []codeToken) {
+		file := token.NewFileSet().AddFile("", -1, len(code))
+		var sc scanner.Scanner
+		sc.Init(file, code, nil, 0)
+		for {
+			pos, tok, _ := sc.Scan()
+			switch tok {
+			case token.EOF:
+				return tokens
+			case token.SEMICOLON, token.COMMA, token.LPAREN, token.RPAREN:
+				// may be added or removed when printing
+			default:
+				tokens = append(tokens, codeToken{tok: tok, line: file.Position(pos).Line - 1})
+			}
+		}
+	}
+	srcTokens, defTokens := scan(src), scan(def)
+	if len(srcTokens) != len(defTokens) {
+		return nil
+	}
+	out := make(map[int]int)
+	for i, st := range srcTokens {
+		if st.tok != defTokens[i].tok {
+			return nil
+		} else if _, ok := out[st.line]; !ok {
+			out[st.line] = defTokens[i].line
+		}
+	}
+	return out
+}
diff --git a/lens/module.go b/lens/module.go
index a033eb4..0857a2c 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -660,6 +660,12 @@ func aggregateFunctions(mod *ModuleChange, pkg *packages.Package) (map[string]*M
 	return aggregated, nil
 }
 
+// functionPrinter prints the definitions of functions.
+var functionPrinter = &printer.Config{
+	Mode:     printer.TabIndent,
+	Tabwidth: 2,
+}
+
 // extractFunctions extracts function declarations from an ast.File and returns a map keyed by function name.
 func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package, filePath string) (functions map[string]*ModuleFunction, err error) {
 	functions = make(map[string]*ModuleFunction)
@@ -672,12 +678,8 @@ func extractFunctions(mod *ModuleChange, file *ast.File, pkg *packages.Package,
 		if funcDecl, ok := n.(*ast.FuncDecl); ok {
 			funcDecl.Doc = nil // exclude from definition to avoid comparing docs
 
-			p := &printer.Config{
-				Mode:     printer.TabIndent,
-				Tabwidth: 2,
-			}
 			buf.Reset()
-			if err = p.Fprint(&buf, pkg.Fset, funcDecl); err != nil {
+			if err = functionPrinter.Fprint(&buf, pkg.Fset, funcDecl); err != nil {
 				return false
 			}
 
-- 
2.43.0


From 23e0c9957282d508d78370210bc8dc642efb7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:34 +0000
Subject: [PATCH 40/44] fix: never insert lines into literals

---
 lens/asttweak.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 0256d4d..e11a4f2 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1988,6 +1988,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 
 	// classify every line inside the body
 	codeLine := make([]bool, bodyCloseLine-bodyOpenLine+1) // false by default
+	inLiteral := make([]bool, len(codeLine))               // lines starting within a literal, nothing can be inserted before them
 	var sc scanner.Scanner
 	sc.Init(fset.File(decl.Body.Pos()), data, nil, scanner.ScanComments)
 	prevLine := bodyOpenLine
@@ -2011,7 +2012,10 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 			// don't mark pure braces, parentheses or brackets as code
 		case token.STRING, token.CHAR:
 			// if this literal spans multiple lines, skip all those lines
-			if strings.Contains(lit, "\n") {
+			if n := strings.Count(lit, "\n"); n > 0 {
+				for l := max(lno+1, bodyOpenLine); l <= min(lno+n, bodyCloseLine); l++ {
+					inLiteral[l-bodyOpenLine] = true
+				}
 				continue
 			}
 			// single-line literal (foo := "str")
@@ -2036,7 +2040,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	for lineNo := bodyOpenLine; lineNo <= bodyCloseLine; lineNo++ {
 		srcLine := lines[lineNo-1]
 
-		if codeLine[bodyIdx] {
+		if codeLine[bodyIdx] && !inLiteral[bodyIdx] {
 			fullIdx := lineNo - funcStartLine
 			if defIdx, ok := definitionLine[fullIdx]; ok {
 				fullIdx = defIdx
-- 
2.43.0


From 6c38e390a7c4eff72ed779d9d830500a3a718465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:42 +0000
Subject: [PATCH 41/44] fix: escape the version in the module cache path

---
 lens/module.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 0857a2c..4d38ecc 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -290,12 +290,16 @@ func loadModulePackageFromCache(gomodcache, modName, version string) (string, []
 // Returns the filesystem directory where the module source is located.
 func FindModulePathInCache(gomodcache, modPath, version string) (string, error) {
 	// Attempt to form the actual cache directory name. The local module cache
-	// structure is typically: GOPATH/pkg/mod/<escaped module>@<version>.
+	// structure is typically: GOPATH/pkg/mod/<escaped module>@<escaped version>.
 	escapedMod, err := module.EscapePath(modPath)
 	if err != nil {
 		return "", err
 	}
-	modDirName := escapedMod + "@" + version
+	escapedVersion, err := module.EscapeVersion(version)
+	if err != nil {
+		return "", err
+	}
+	modDirName := escapedMod + "@" + escapedVersion
 	dir := filepath.Join(gomodcache, modDirName)
 
 	info, err := os.Stat(dir)
-- 
2.43.0


From 7f49e7d3e8e524e70aa9a98ff7f46532f7e6c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 42/44] fix: list field changes in the chart in a consistent
 order

---
 lens/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index 6c276ea..1365578 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -650,7 +650,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 			var lines int
 			var fieldChangeBuilder strings.Builder
-			for callerIdent, fieldMap := range tr.CallerFieldChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) { // keep consistent order in chart
+				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
 					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
-- 
2.43.0


From 0f3f85ac7427a13236f0e359828552d447f6ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 43/44] fix: no NaN percentages in the chart

---
 lens/report.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lens/report.go b/lens/report.go
index 1365578..e619f66 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -511,6 +511,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topLeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(topLeftOpt.Theme, topLeftOpt.SeriesList)
 	topLeftOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(moduleChangeFuncCount)
+		if total == 0 {
+			return "N/A" // nothing to validate
+		}
 		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
 	}
 	if err := topLeft.BarChart(topLeftOpt); err != nil {
@@ -539,6 +542,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topRightOpt.SeriesList[2].Label.FontStyle.FontColor = firstValueSeriesRankColor(topRightOpt.Theme, topRightOpt.SeriesList)
 	topRightOpt.SeriesList[2].Label.ValueFormatter = func(f float64) string {
 		total := float64(reachableModuleFunctionCount)
+		if total == 0 {
+			return "N/A" // nothing to validate
+		}
 		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
 	}
 	if err := topRight.BarChart(topRightOpt); err != nil {
@@ -561,6 +567,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	down1LeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(down1LeftOpt.Theme, down1LeftOpt.SeriesList)
 	down1LeftOpt.SeriesList[1].Label.ValueFormatter = func(diff float64) string {
 		same := float64(testFieldSameCount)
+		if same+diff == 0 {
+			return "N/A" // no fields recorded
+		}
 		percent := 100.0 * same / (same + diff)
 		if diff > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some field diffs
@@ -585,6 +594,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	down1RightOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(down1RightOpt.Theme, down1RightOpt.SeriesList)
 	down1RightOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(globalMutations.MutationCount)
+		if total == 0 {
+			return "N/A" // mutation testing did not run
+		}
 		percent := 100.0 * (total - f) / total
 		if f > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some surviving mutations
-- 
2.43.0


From ce83a09d3ae278f55c60eef20e3ba9c5d7c526ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 44/44] fix: never cut a character in the chart

---
 lens/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index e619f66..482e8a6 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -676,7 +676,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 				fieldChangeStr := callerIdent + "[" + strings.Join(slices.Sorted(maps.Keys(fieldMap)), "|") + "]"
 				if len(fieldChangeStr) > 66 {
-					fieldChangeStr = fieldChangeStr[:64] + ".."
+					fieldChangeStr = strings.ToValidUTF8(fieldChangeStr[:64], "") + ".." // never a part of a character
 				}
 				fieldChangeBuilder.WriteString(fieldChangeStr)
 			}
-- 
2.43.0

