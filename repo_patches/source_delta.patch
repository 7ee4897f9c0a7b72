From be6c7c4361cae572be43793d0fe836ba156cb85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 01/17] fix: LRUCache.Put no longer panics with a capacity
 below one

---
 cache/LRU.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..8fef4ba 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -44,6 +44,10 @@ func (l *LRUCache[T]) Put(key string, value T) {
 		return
 	}
 
+	if l.capacity <= 0 {
+		return
+	}
+
 	if l.pages.Len() >= l.capacity {
 		delete(l.cache, l.pages.Back().Value.(*Page[T]).key)
 		l.pages.Remove(l.pages.Back())
-- 
2.43.0


From 8e7e87ff98b8a8b524638ee6197507c2d81dcce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 02/17] fix: LRUCache.Get reorders the shared list, so it takes
 the exclusive lock

---
 cache/LRU.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 8fef4ba..da9daae 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,8 +26,8 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	l.Lock()
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
 		return &elem.Value.(*Page[T]).value, true
-- 
2.43.0


From 6fafe544c6d58c98865807a359282f1797a37c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 03/17] fix: LocalMap.GetData returns a copy made under the
 lock instead of the live map

---
 cache/LocalMap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cache/LocalMap.go b/cache/LocalMap.go
index b84c925..836a7d1 100644
--- a/cache/LocalMap.go
+++ b/cache/LocalMap.go
@@ -20,7 +20,13 @@ func (l *LocalMap[T]) Set(key string, value T) {
 }
 
 func (l *LocalMap[T]) GetData() map[string]*T {
-	return l.store
+	l.mu.RLock()
+	defer l.mu.RUnlock()
+	data := make(map[string]*T, len(l.store))
+	for key, value := range l.store {
+		data[key] = value
+	}
+	return data
 }
 
 func (l *LocalMap[T]) Get(key string) (*T, bool) {
-- 
2.43.0


From bd493c0d14cc19bc7336ae0a950b483c0f1f9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 04/17] fix: saving a field again in the memory store replaces
 the earlier version's postings and statistics

---
 storage/Memory.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/storage/Memory.go b/storage/Memory.go
index 3310ee5..daf101a 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -94,6 +94,10 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	if previous, ok := m.FieldDocument[documentId][field.Name]; ok {
+		m.withdraw(documentId, previous)
+	}
+
 	m.createFieldDocument(documentId, field)
 
 	m.UpdateIndex(documentId, field)
@@ -111,6 +115,20 @@ func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
 
 }
 
+// withdraw removes what an earlier version of a field of the document added
+// to the index and to the statistics.
+func (m *Memory) withdraw(documentId string, previous model.Field) {
+	m.FieldSize[previous.Name] -= 1
+	m.FieldLength[previous.Name] -= previous.Length
+
+	for term := range previous.TF {
+		if set, ok := m.Index[previous.Name][term]; ok {
+			set.Remove(documentId)
+		}
+		m.NumberFieldTerm[previous.Name][term] -= 1
+	}
+}
+
 func (m *Memory) createFieldDocument(documentId string, field model.Field) {
 	if fieldIndex, ok := m.FieldDocument[documentId]; ok {
 		fieldIndex[field.Name] = field
-- 
2.43.0


From ac694096a0ba76e5c070a2130ee70a4b1ff59b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 05/17] fix: GetID renders ids that are not strings as plain
 text

---
 field/FieldProcess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..405c93e 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -19,7 +19,7 @@ func StringToObject(document string) map[string]interface{} {
 func GetID(input map[string]interface{}) string {
 	for k, v := range input {
 		if k == ID {
-			return fmt.Sprintf("%s", v)
+			return fmt.Sprintf("%v", v)
 		}
 	}
 	return ""
-- 
2.43.0


From 8587fbef462fd600aa1c56030c17206438a81425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 06/17] fix: Flatten keeps an empty key in the dotted path

---
 field/FieldProcess.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 405c93e..46afc54 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -33,13 +33,10 @@ func Flatten(input map[string]interface{}) map[string]interface{} {
 
 func recFlatten(input map[string]interface{}, output map[string]interface{}, prefix string) {
 	for k, v := range input {
-		key := k
-		if prefix != "" {
-			key = prefix + "." + k
-		}
+		key := prefix + k
 		switch value := v.(type) {
 		case map[string]interface{}:
-			recFlatten(value, output, key)
+			recFlatten(value, output, key+".")
 		default:
 			output[key] = value
 		}
-- 
2.43.0


From 1f932473d99fd5808fb1042e01b71aabc01d5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:18 +0000
Subject: [PATCH 07/17] fix: UpdateFieldDocument no longer changes a map
 already handed to the writer

---
 storage/DiskStorage.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..b886fb8 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -170,12 +170,13 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
-	var fieldIndex map[string]model.Field
+	// a new map: the writer goroutine still reads the one sent by the last save
+	fieldIndex := make(map[string]model.Field)
 
 	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
-	} else {
-		fieldIndex = make(map[string]model.Field)
+		for name, cached := range *fieldIndexPtr {
+			fieldIndex[name] = cached
+		}
 	}
 
 	fieldIndex[field.Name] = field
-- 
2.43.0


From b8e22a7f1438626dfbb68129b0e75ca8c55459a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:19 +0000
Subject: [PATCH 08/17] fix: saving a field keeps the document's fields that
 are only on disk

---
 storage/DiskStorage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index b886fb8..f6566fd 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -177,6 +177,8 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 		for name, cached := range *fieldIndexPtr {
 			fieldIndex[name] = cached
 		}
+	} else if stored, ok := d.diskIO.LoadFieldDocumentOnHD(documentId); ok {
+		fieldIndex = stored
 	}
 
 	fieldIndex[field.Name] = field
-- 
2.43.0


From 2a4e2515aa0137225f96ca3c75aecee0810881a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 09/17] fix: SecureSaveFile replaces the file in one step

---
 file/File.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..c536387 100644
--- a/file/File.go
+++ b/file/File.go
@@ -136,31 +136,17 @@ func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
 	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
+	// the rename replaces the current file in one step: it is never missing
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
-	}
-
 	return nil
 }
-- 
2.43.0


From 37faa725c9d8b91e7446a8a609002e78acbc1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 10/17] fix: a document id can no longer name a file outside
 its folder or another document's helper file

---
 file/File.go      |  2 +-
 storage/DiskIO.go | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/file/File.go b/file/File.go
index c536387..d8dd07f 100644
--- a/file/File.go
+++ b/file/File.go
@@ -135,7 +135,7 @@ func ListDirectories(path string) []string {
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
+	tempPath := filepath.Join(path, fileName+"%temp") // not the name of any document's file
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..d8e0ff4 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -6,6 +6,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/file"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"log"
+	"net/url"
 	"path/filepath"
 	"sync"
 	"time"
@@ -59,8 +60,22 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 	return fieldSize, fieldLength, nil
 }
 
+// documentFile is the name of a document's file inside the documents folder,
+// whatever characters the id contains.
+func documentFile(documentId string) string {
+	switch documentId {
+	case "":
+		return "%"
+	case ".":
+		return "%2E"
+	case "..":
+		return "%2E%2E"
+	}
+	return url.PathEscape(documentId)
+}
+
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentFile(documentId))
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
 		return nil, false
@@ -208,7 +223,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldMap(fieldMap)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+				err := file.SecureSaveFile(path, documentFile(documentId), file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From a3a1f6dfe99853c40ba22659f20a8d7ea4fdc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 11/17] fix: a flush of the per-term document counts keeps the
 counts on disk

SaveNumberFieldTermOnDisk replaced a field's nfterm file with the terms
counted since the last flush, so every count written earlier was lost.
The stored counts are now read back first, and only the terms counted
since then are replaced.
---
 storage/DiskIO.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index d8e0ff4..9acfabe 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -264,6 +264,20 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
+				// the counts persisted earlier stay in the file
+				filePath := filepath.Join(path, file.NumberFieldTerm)
+				if file.Exists(filePath) {
+					persisted, err := file.ReadFileOnDisk(filePath)
+					if err != nil {
+						log.Fatalf(err.Error())
+					}
+					for term, size := range DeserializeNumberFieldTerm(file.DecompressData(persisted)) {
+						if _, ok := termSize[term]; !ok {
+							termSize[term] = size
+						}
+					}
+				}
+
 				buf := SerializeNumberFieldTerm(termSize)
 				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
-- 
2.43.0


From 372eea1a8198be9bb47a97141c091a8231a2ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:56 +0000
Subject: [PATCH 12/17] fix: a posting fragment appears in the temp directory
 only when complete

SaveIndexOnDisk wrote a fragment in place, so a merge that ran meanwhile
(or after a crash) found a part of it, and could not decode it. It is now
written beside the directory and moved into it.
---
 storage/DiskIO.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 9acfabe..19f6ae8 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -386,8 +386,15 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 
 				tempFile := uuid.New().String()
 				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+
+				// the fragment is moved into the directory when it is complete:
+				// a merge never finds (and deletes) a part of it
+				staged := filepath.Join(d.RootFolder, fieldName, tempFile+"%temp")
+				err := file.SaveFileOnDisk(staged, file.CompressData(buffer))
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				err = file.RenameFile(staged, path)
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From fde921cfe81466959ef4c11704844e7f4f278b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 13/17] fix: a flush of document records keeps the fields
 already on disk and those of earlier messages

---
 storage/DiskIO.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 19f6ae8..4f5aece 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -214,7 +214,14 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 		select {
 		case fieldDocument := <-data:
 			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
+			fields, ok := localBuffer.data[fieldDocument.DocumentId]
+			if !ok {
+				fields = make(map[string]model.Field)
+				localBuffer.data[fieldDocument.DocumentId] = fields
+			}
+			for name, field := range fieldDocument.Field {
+				fields[name] = field
+			}
 			localBuffer.Unlock()
 		case <-ticker.C:
 			localBuffer.Lock()
@@ -222,6 +229,15 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 				path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
 				file.CreteDirIfNotExist(path)
 
+				// the fields persisted earlier stay in the file
+				if persisted, ok := d.LoadFieldDocumentOnHD(documentId); ok {
+					for name, field := range persisted {
+						if _, ok := fieldMap[name]; !ok {
+							fieldMap[name] = field
+						}
+					}
+				}
+
 				buf := SerializeFieldMap(fieldMap)
 				err := file.SecureSaveFile(path, documentFile(documentId), file.CompressData(buf))
 				if err != nil {
-- 
2.43.0


From 5b995f9b075f0508ade395c7c018b5d817aab1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:02 +0000
Subject: [PATCH 14/17] fix: SyncMap publishes the latest write of a key, not
 the one it replaces

---
 cache/Map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..b6d02f2 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -63,7 +63,9 @@ func (i *SyncMap[T]) writer() {
 
 			i.RLock()
 			for key, value := range i.Data {
-				bufferCopy[key] = value
+				if _, ok := bufferCopy[key]; !ok {
+					bufferCopy[key] = value
+				}
 			}
 			i.RUnlock()
 
-- 
2.43.0


From 7f1bc7b44718795eb8b4917b3ab4ffb13e70214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:02 +0000
Subject: [PATCH 15/17] fix: the search endpoint answers queries with fewer
 than ten hits

---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index aded6c2..492f5c3 100644
--- a/main.go
+++ b/main.go
@@ -202,12 +202,17 @@ func main() {
 			}
 		}
 
+		limit := len(queryResults)
+		if limit > 10 {
+			limit = 10
+		}
+
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          limit,
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults[0:limit],
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From 225d617f4b13e1912a4eccf371d49ab5d1fd828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 16/17] fix: drop the request counter that handlers wrote
 without synchronization

---
 main.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/main.go b/main.go
index 492f5c3..4096f02 100644
--- a/main.go
+++ b/main.go
@@ -46,8 +46,6 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
-
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
 
@@ -179,8 +177,6 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
-		//fmt.Println("Qid:", id, len(rs))
 		if len(rs) == 0 {
 			body := Result{
 				Duration:       duration.String(),
-- 
2.43.0


From e19f1a8d4a99a0440bcad9ff9716be75b302dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 17/17] fix: guard the stores' shared maps with their lock and
 hand out copies

Memory had no lock and Disk.mu was never taken, so a save concurrent with a
search raced on the stores' maps (fatal error: concurrent map read and map
write). GetDocuments, GetIndex and GetFieldDocumentTest handed out the live
maps; they return copies now.
---
 model/Set.go           |  8 ++++++++
 storage/DiskStorage.go | 24 ++++++++++++++++++++++--
 storage/Memory.go      | 37 +++++++++++++++++++++++++++++++++----
 storage/Storage.go     | 12 ++++++++++++
 4 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/model/Set.go b/model/Set.go
index 2f0a176..5621a3b 100644
--- a/model/Set.go
+++ b/model/Set.go
@@ -14,6 +14,14 @@ func (s *Set) GetData() map[string]bool {
 	return s.data
 }
 
+func (s *Set) Copy() *Set {
+	c := NewSet()
+	for element := range s.data {
+		c.Add(element)
+	}
+	return c
+}
+
 func (s *Set) Add(element string) {
 	s.data[element] = true
 }
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index f6566fd..784784f 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -87,6 +87,8 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -95,27 +97,37 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
-	return d.index[fieldName]
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+	return copyIndex(d.index[fieldName])
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Copy(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -139,6 +151,8 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 }
 
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
 
@@ -150,6 +164,8 @@ func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 }
 
 func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	fieldTerm := d.numberFieldTerm[field.Name]
 	if fieldTerm == nil {
 		fieldTerm = make(map[string]int)
@@ -169,6 +185,8 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 }
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 
 	// a new map: the writer goroutine still reads the one sent by the last save
 	fieldIndex := make(map[string]model.Field)
@@ -192,6 +210,8 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 
 	indexField := d.index[field.Name]
 	if indexField == nil {
diff --git a/storage/Memory.go b/storage/Memory.go
index daf101a..223c013 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"sync"
 )
 
 type Memory struct {
@@ -10,9 +11,16 @@ type Memory struct {
 	FieldLength     map[string]int
 	FieldSize       map[string]int
 	NumberFieldTerm map[string]map[string]int
+	mu              sync.RWMutex
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateIndex(documentId, field)
+}
+
+func (m *Memory) updateIndex(documentId string, field model.Field) {
 	m.FieldSize[field.Name] += 1
 	m.FieldLength[field.Name] += field.Length
 
@@ -46,6 +54,8 @@ func NewMemory() Storage {
 }
 
 func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = m.NumberFieldTerm[fieldName][term]
@@ -54,31 +64,47 @@ func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string
 }
 
 func (m *Memory) GetFieldLength(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldLength[fieldName]
 }
 
 func (m *Memory) GetFieldSize(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldSize[fieldName]
 }
 
 func (m *Memory) GetFieldDocumentTest(documentId string) map[string]model.Field {
-	return m.FieldDocument[documentId]
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	fields := make(map[string]model.Field)
+	for name, field := range m.FieldDocument[documentId] {
+		fields[name] = field
+	}
+	return fields
 }
 
 func (m *Memory) GetIndex(fieldName string) map[string]*model.Set {
-	return m.Index[fieldName]
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	return copyIndex(m.Index[fieldName])
 }
 
 func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	if indexField, ok := m.Index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Copy(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (m *Memory) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -94,13 +120,16 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	if previous, ok := m.FieldDocument[documentId][field.Name]; ok {
 		m.withdraw(documentId, previous)
 	}
 
 	m.createFieldDocument(documentId, field)
 
-	m.UpdateIndex(documentId, field)
+	m.updateIndex(documentId, field)
 
 	//numérico de campos que possui o termo
 	fieldTerm := m.NumberFieldTerm[field.Name]
diff --git a/storage/Storage.go b/storage/Storage.go
index 795eb20..82ea841 100644
--- a/storage/Storage.go
+++ b/storage/Storage.go
@@ -20,3 +20,15 @@ type Storage interface {
 	//sds
 	UpdateIndex(documentId string, field model.Field)
 }
+
+// copyIndex copies the postings of a field, which the store goes on changing.
+func copyIndex(index map[string]*model.Set) map[string]*model.Set {
+	if index == nil {
+		return nil
+	}
+	temp := make(map[string]*model.Set)
+	for term, set := range index {
+		temp[term] = set.Copy()
+	}
+	return temp
+}
-- 
2.43.0

