import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)

p("C01","In-memory postings are exact",
 "After any sequence of document saves into the in-memory store, the documents returned for a field and a term are exactly those whose latest saved version of that field contains the term: none is missing, none is extra, and saving one document or field never changes the postings of another. Re-saving a document withdraws it from the terms its previous version of that field contained.",
 ["inputs","histories"],"every field (any name, any term map), every document id, every reachable store state, hence every history of saves",
 "The tests index three fixed documents, each once; re-saves, shared terms across fields and unusual ids are not reached.",
 ["storage/Memory.go","model/Set.go"],
 [("SaveOrUpdate","storage/Memory.go"),("UpdateIndex","storage/Memory.go"),("GetDocuments / GetIndex","storage/Memory.go")],
 [("Index","field -> term -> posting set","storage/Memory.go")],["Storage.GetDocuments","Storage.GetIndex"])
p("C02","In-memory collection statistics are exact",
 "In the in-memory store the number of documents of a field, its total length and the per-term document counts always equal what the latest saved version of every document implies, so a term's document count equals the size of its posting set. Re-saving a document replaces its previous contribution instead of adding to it, and statistics of other fields and terms do not move.",
 ["inputs","histories"],"every field, id and reachable store state (each save is an exact update of every statistic)",
 "Tests check a handful of counters after one fixed load; drift after re-saves or on untouched keys is invisible to them.",
 ["storage/Memory.go"],
 [("SaveOrUpdate","storage/Memory.go"),("GetFieldSize/GetFieldLength/GetNumberFieldTerm","storage/Memory.go")],
 [("FieldSize, FieldLength, NumberFieldTerm","per-field statistics","storage/Memory.go")],["Storage.GetFieldSize","Storage.GetFieldLength","Storage.GetNumberFieldTerm"])
p("C03","In-memory field retrieval returns the latest saved version",
 "Asking the in-memory store for a field of a list of documents returns exactly one entry for each listed document that has that field, holding the latest version saved for it, and nothing for any other document or field. Saving one document's field leaves every other stored field as it was.",
 ["inputs","histories"],"every id list, field name and reachable store state",
 "Tests read back two documents and check one length each.",
 ["storage/Memory.go"],[("GetFields","storage/Memory.go"),("SaveOrUpdate (document part)","storage/Memory.go")],
 [("FieldDocument","document -> field -> saved field","storage/Memory.go")],["Storage.GetFields"])
p("C04","The disk store indexes and counts each saved field exactly",
 "When the disk store accepts a field of a document that it did not hold before, that document becomes findable at once under exactly the terms of the field, the field's document count rises by one, its total length by the field's length and the document count of each of its terms by one. No other posting or statistic changes, and the read operations return exactly these values.",
 ["inputs","histories"],"every field, id and reachable store state",
 "Tests check selected postings and counters after one fixed load of three documents.",
 ["storage/DiskStorage.go","model/Set.go"],
 [("SaveOrUpdate, UpdateIndex, UpdateFieldSizeLength, UpdateNumberFieldTerm","storage/DiskStorage.go"),("GetDocuments, GetIndex, GetFieldSize, GetFieldLength, GetNumberFieldTerm","storage/DiskStorage.go")],
 [("index, fieldSize, fieldLength, numberFieldTerm","in-memory view of the disk store","storage/DiskStorage.go")],["Storage.*"])
p("C05","Every accepted save is handed to persistence completely",
 "Each save accepted by the disk store hands to the background writers the field's new totals, one posting for every term of the field, the new document count of every one of those terms, and the document's stored fields including every field cached for it plus the one just saved; nothing handed over names another document, field or term. What was handed over is not modified afterwards by later saves.",
 ["inputs","histories","schedules"],"every field, id, cache state and reachable store state",
 "Tests only look at the store after long sleeps, for one load in which every document fits the cache.",
 ["storage/DiskStorage.go","cache/LRU.go"],
 [("UpdateFieldSizeLength / UpdateIndex / UpdateNumberFieldTerm / UpdateFieldDocument","storage/DiskStorage.go"),("NewDiskStore wiring of channels to writers","storage/DiskStorage.go")],
 [("indexCh, fieldCh, numberFieldTermCh, documentFieldCh","hand-over channels","storage/DiskStorage.go")],["files under the store's root folder"])
p("C06","Flushing writes the latest values and loses nothing already persisted",
 "Whenever a background writer flushes, the file of every field or document it was told about since the last flush afterwards decodes to the latest values received, per-term document counts and document fields persisted earlier stay in the file, and nothing received is dropped, however messages and flushes interleave. Each flushed posting fragment contains exactly the postings received since the previous flush.",
 ["inputs","histories","schedules"],"every interleaving of received messages and flush ticks, every message content (counts within 32 bits), every prior content of the files",
 "Tests flush once per run, with all messages arriving before the first tick.",
 ["storage/DiskIO.go","storage/Serialize.go","file/File.go"],
 [("SaveFieldSizeLengthOnDisc, SaveNumberFieldTermOnDisk, SaveDocumentFieldOnDisk, SaveIndexOnDisk","storage/DiskIO.go")],
 [("writer buffers","messages received and not yet flushed","storage/DiskIO.go")],["metrics, nfterm, docs/metrics/<id>, temp/<uuid> files"])
p("C07","Opening a store reads back exactly what is on disk",
 "Loading returns, for every field directory, exactly the document count, total length, per-term document counts and postings its files encode, and for a document exactly the fields its file encodes; missing files count as empty and never fail the load. No field, term or document is invented or dropped.",
 ["inputs","configurations"],"every directory layout and every well-formed file content",
 "Tests reopen stores holding the same three documents.",
 ["storage/DiskIO.go","file/File.go","storage/DiskStorage.go"],
 [("LoadFieldSizeLengthOnHD, LoadNumberFieldTermOnHD, LoadFieldDocumentOnHD, LoadTermDocumentsFromIndex","storage/DiskIO.go"),("ListDirectories, ListFiles, Exists","file/File.go")],None,["NewDiskStore","LoadTermDocumentsFromIndex"])
p("C08","Decoding an encoded record gives the record back",
 "For every field-totals record, per-term count table, document field table and posting index, decoding its encoded form yields an equal value: same keys, same numbers (within 32 bits), same sets, nothing added or lost. This includes empty tables, empty strings and zero values.",
 ["inputs"],"every value of the four record types with counts in the signed 32-bit range",
 "Tests reach the codecs only through one fixed collection; empty maps, zero values and many-entry tables are not sampled.",
 ["storage/Serialize.go","storage/buffers/Field.go","storage/buffers/FieldMap.go","storage/buffers/FieldMetrics.go","storage/buffers/FieldTerm.go","storage/buffers/TermSize.go","storage/buffers/TermFrequency.go","storage/buffers/Term.go","storage/buffers/Document.go","storage/buffers/Index.go","storage/buffers/RootFieldEntry.go"],
 [("Serialize*/Deserialize* pairs","storage/Serialize.go"),("table accessors and builders","storage/buffers/*.go")],None,["Serialize*/Deserialize*"])
p("C09","Replacing a file is atomic at every crash point",
 "When a stored file is replaced, then at every point at which the process can stop the file is readable under its own name with either its complete previous content or its complete new content. On success the file holds exactly the new content, no helper file is left behind, and no other file has changed.",
 ["crash_points","inputs"],"a crash between or during any two file-system operations, for every file name and content, with or without a previous version",
 "No test interrupts a save.",
 ["file/File.go"],[("SecureSaveFile","file/File.go")],None,["the file under its final name"])
p("C10","Merging posting fragments loses no posting, even across a crash",
 "Merging the pending posting fragments of a field into its index file yields exactly the union of the previous index and all fragments, in the file and in the returned index, and removes exactly the fragments it merged. At every point at which the process can stop, index file plus remaining fragments still represent that same union.",
 ["crash_points","inputs","histories"],"every set of fields, fragments and previous index contents; every crash point inside the merge",
 "Tests merge at most two fragments of the same small collection and never stop in the middle.",
 ["storage/DiskIO.go","file/File.go"],[("LoadIndexOnHD","storage/DiskIO.go"),("LoadTermDocumentsFromIndex","storage/DiskIO.go")],
 [("index file and temp/ fragments","persistent postings","storage/DiskIO.go")],["LoadIndexOnHD result and files"])
p("C11","The document cache keeps the most recently used entries within capacity",
 "The LRU cache never holds more entries than its capacity; storing a new key into a full cache removes exactly the least recently used entry, and both storing and a successful lookup make the key the most recently used one. A lookup returns the value last stored under that key if it is still held and reports a miss otherwise, without affecting other entries.",
 ["inputs","histories"],"every capacity (zero included), key, value and reachable cache state",
 "No test exercises eviction or recency.",
 ["cache/LRU.go"],[("Get, Put, NewLRUCache","cache/LRU.go")],[("cache, pages","key index and recency list","cache/LRU.go")],["LRUCache.Get/Put"])
p("C12","Shared caches are only touched under the right lock",
 "Every operation of the LRU cache and of the local map that modifies shared state does so while holding the exclusive lock, every one that reads shared state holds at least the shared lock, each operation is one critical section, and the lock is released on every way out. Concurrent lookups and stores therefore never corrupt the cache.",
 ["schedules","inputs"],"every interleaving of concurrent operations, through a lock-ownership argument on each operation",
 "Tests use the caches from one goroutine.",
 ["cache/LRU.go","cache/LocalMap.go"],[("Get, Put","cache/LRU.go"),("Get, Set","cache/LocalMap.go")],None,["LRUCache, LocalMap under concurrency"])
p("C13","Sharded map finds every key and keeps the last value written",
 "With a positive number of fragments every key always maps to the same existing fragment, and looking a key up in a fragment's map returns the value last written under it, or a miss if there is none. Writing a key never changes the value of another key.",
 ["inputs","histories"],"every key, value, fragment count > 0 and map state",
 "Tests use four keys and three fragments.",
 ["cache/Shard.go","cache/LocalMap.go"],[("NewShardMap, Get","cache/Shard.go"),("Set, Get","cache/LocalMap.go")],None,["Shard.Get","LocalMap.Get/Set"])
p("C14","Read-copy-update maps publish complete snapshots, last write wins",
 "Whenever the read-copy-update map or the buffered map publishes a new version, it contains every key published before and every pending write, and for each key the most recently written value. A version already published is never modified, so readers always see a complete version, and a lookup of a key that was never published reports a miss.",
 ["schedules","histories","inputs"],"every interleaving of writes, publications and reads",
 "Tests write three keys, sleep past the publication and overwrite one of them.",
 ["cache/RCU.go","cache/Map.go"],[("writer, Get, Put","cache/RCU.go"),("writer, Get, Put","cache/Map.go")],None,["RCU.Get/Put","SyncMap.Get/Put"])
p("C15","Tokens are exactly the maximal runs of letters, digits and apostrophes",
 "Tokenizing a text yields, in order, exactly its maximal runs of letters, numbers and apostrophes; every other character only separates tokens. No token is empty, none contains a separator and no token character is lost.",
 ["inputs"],"every text and every Unicode code point",
 "Tests tokenize a few ASCII sentences.",
 ["tokenizer/Standard.go"],[("Tokenize, isNotAlnum","tokenizer/Standard.go")],None,["Tokenizer.Tokenize"])
p("C16","Term filters map terms one by one and keep their order",
 "Lower-casing, accent folding and stemming return one output per input term, in order, each being the lower-cased, accent-folded or stemmed form of the term at that position, for every scheduling of the parallel stemmer. Stop-word filtering returns exactly the input terms that are not stop words of the selected language, in order and with repetitions; an unknown language or stemming algorithm is rejected.",
 ["inputs","schedules"],"every term list, stop-word set and goroutine schedule",
 "Tests run the chain on fixed phrases.",
 ["filter/ASCII.go","filter/Lowercase.go","filter/StopWords.go","filter/Stemmer.go","language/Language.go"],
 [("Process of the four filters","filter/*.go"),("GetWords","language/Language.go")],None,["Filter.Process","language.GetWords"])
p("C17","Term frequencies count every occurrence",
 "The term-frequency table of a term list has exactly the distinct terms of the list as keys, each with the number of its occurrences.",
 ["inputs"],"every term list","Tests use lists of at most four terms.",
 ["metric/TF.go"],[("TermFrequency","metric/TF.go")],None,["metric.TermFrequency"])
p("C18","BM25 scores follow the formula and rank sensibly",
 "The score of a field for a query is the sum over the query terms of boost x idf x tf(k1+1)/(tf+k1(1-b+b len/avglen)), with idf = ln(1+(N-n+0.5)/(n+0.5)) and a boost of zero meaning one. The idf is positive whenever n does not exceed N and never increases with n, terms absent from the field contribute nothing, and for valid statistics the score is never negative.",
 ["inputs"],"every query, statistics table and field, over real arithmetic",
 "No test covers scoring.",
 ["similarity/BM25.go","metric/IDF.go"],[("BM25","similarity/BM25.go"),("IdfBM25","metric/IDF.go")],None,["similarity.BM25","metric.IdfBM25"])
p("C19","Index search returns exactly the matching documents under every schedule",
 "Searching a field for a list of terms returns exactly the documents that the store lists for at least one of the terms and holds that field of, each with its stored field, together with the store's document count, average length and per-term document counts. The result is the same for every scheduling of the parallel workers, and the call always completes.",
 ["inputs","schedules"],"every term list (repeated and unknown terms included), every store content, every schedule of the worker goroutines",
 "No test covers the search path.",
 ["index/InvertedIndex.go"],[("Search","index/InvertedIndex.go"),("IndexDocument","index/InvertedIndex.go")],None,["Index.Search"])
p("C20","Ranked search lists each match once, with its total score, best first",
 "A search over several field queries lists every document matched by at least one query exactly once, with the sum of its BM25 scores over the queries (k1=1.2, b=0.75, the query's boost), in non-increasing score order. No document outside the matches appears, the result does not depend on the scheduling of the parallel queries, and the call always completes.",
 ["inputs","schedules"],"every query list (several queries on the same field included), every index content, every schedule",
 "No test covers ranked search.",
 ["search/Standard.go"],[("Search","search/Standard.go")],None,["Search.Search"])
p("C21","Documents flatten to their leaf paths and keep their id",
 "Flattening a nested document yields one entry per leaf, keyed by the dot-joined path to it and holding the leaf's value, with no nested object left among the values and no other key; the input is not modified. The document id is the text of its top-level Id entry, and empty if there is none.",
 ["inputs"],"every nested document, of any depth",
 "Tests use flat documents only.",
 ["field/FieldProcess.go"],[("Flatten, recFlatten, GetID","field/FieldProcess.go")],None,["field.Flatten","field.GetID"])
p("C22","The search endpoint answers any number of hits with its best ten",
 "For any number of matching documents the HTTP search endpoint answers without failing and returns the best min(10, hits) of them, in rank order, each with its own id and score. Adding a document indexes its id, title and text, each after the full text pipeline, and a document without an id is rejected without being indexed.",
 ["inputs"],"every request and every number of hits, including one to nine",
 "No test covers the HTTP layer.",
 ["main.go"],[("GET /nir and POST /nir handlers, Preprocessing","main.go")],None,["GET /nir","POST /nir"])
p("C23","Document files never collide or leave the store's folder",
 "Every document id is stored in its own file directly inside the store's document folder, and two different ids never share a file or a helper file, so that saving or loading one document cannot read, replace or delete another one's data or any file outside that folder, whatever characters the id contains.",
 ["inputs","histories"],"every pair of document ids",
 "Tests use the ids 1 to 5.",
 ["storage/DiskIO.go","file/File.go"],[("SaveDocumentFieldOnDisk, LoadFieldDocumentOnHD (path construction)","storage/DiskIO.go"),("SecureSaveFile helper names","file/File.go")],None,["docs/metrics/*"])
p("C24","The disk store returns the fields it holds",
 "Asking the disk store for a field of a list of documents returns exactly one entry for each listed document whose cached or persisted record has that field, holding that record's value (the cached record taking precedence), and nothing else. Reading never changes what a later read of the same documents returns and never alters postings, statistics or files.",
 ["inputs","histories"],"every id list, field name, cache content and file content",
 "Tests read two documents, all cached or all on disk.",
 ["storage/DiskStorage.go","storage/DiskIO.go","cache/LRU.go"],[("GetFields","storage/DiskStorage.go"),("LoadFieldDocumentOnHD","storage/DiskIO.go")],None,["Storage.GetFields"])
p("C25","Re-saving a document on the disk store replaces its contribution",
 "Saving again a field that the disk store already holds for a document replaces its previous contribution: document count and total length reflect only the latest version, and terms that are gone no longer list or count the document, also after the store is reopened.",
 ["inputs","histories"],"every history that saves the same field of the same document more than once",
 "Tests save every document once.",
 ["storage/DiskStorage.go","storage/DiskIO.go"],[("SaveOrUpdate","storage/DiskStorage.go")],None,["Storage.GetDocuments","Storage.GetFieldSize"])
p("C26","Concurrent indexing and searching on one store never race",
 "Any number of goroutines may save documents and search on the same store at the same time without data races: every access to the store's shared maps is ordered by synchronization.",
 ["schedules"],"every interleaving of concurrent saves and searches",
 "Tests use every store from one goroutine.",
 ["storage/DiskStorage.go","storage/Memory.go","index/InvertedIndex.go","main.go"],[("mu","storage/DiskStorage.go"),("mu","storage/Memory.go"),("SaveOrUpdate","storage/Memory.go")],None,["POST /nir concurrent with GET /nir"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
    assert x['statement'].count('. ')<=2,(x['id'])
