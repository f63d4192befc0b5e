#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

PROFILE="internal/domain/profile.go"; ARR="internal/helpers/arrays.go"; FB="internal/helpers/file_buffer.go"
DP="internal/infra/delta/protocol.go"; DS="internal/infra/delta/storage.go"; DF="internal/infra/delta/storagefactory.go"
IP="internal/infra/index/protocol.go"; IS="internal/infra/index/storage.go"; IF="internal/infra/index/storagefactory.go"
RI="internal/infra/recdb/iterator.go"; RP="internal/infra/recdb/protocol.go"; RL="internal/infra/recdb/likeprotocol.go"
NS="internal/domain/likenamespace.go"; SV="internal/domain/namespaceservice.go"; EP="internal/api/shard/endpoints/namespaceendpoint.go"
APP="internal/api/shard/application.go"

prop("C01", "A profile always reflects the last opinion given on each item",
 "After any sequence of like, dislike, unlike, undislike and remove-item operations on a profile, every item is reported as liked, disliked or unknown according to the last operation that concerned it (unlike only withdraws a like, undislike only a dislike). The lists of likes and dislikes stay strictly ascending, contain no duplicates and never share an item. Operations on one profile never change another.",
 ["histories","inputs"], "every sequence of profile operations over every set of item ids, including the extremes of the id range and lists long enough for every path of the binary search",
 "The tests apply one or two hand-picked operations to a profile holding at most two items; ordering, disjointness and duplicates are invariants over all histories and list lengths.",
 [PROFILE, ARR], [("sorted insertion without duplicates","internal/helpers/arrays.go PutSavingOrder"),("opposite opinion withdrawn on like/dislike","internal/domain/profile.go Like/Dislike"),("binary search lookup","internal/helpers/arrays.go BinaryIndexOf")],
 [("Likes","liked items, ascending",PROFILE),("Dislikes","disliked items, ascending",PROFILE)], ["Profile.Likes, Profile.Dislikes and Profile.QualifyItem after every call"])
prop("C02", "Profile similarity is a well defined, symmetric percentage",
 "For every two profiles and every dislike factor f in [0,1] the similarity is a finite number in [0,100] equal, up to float rounding, to 100*(common likes + f*common dislikes)/(all likes + f*all dislikes), where 'all' is the size of the union, and 0 when that denominator is 0. Consequently it is symmetric, it is 100 for profiles with the same non-empty opinions, 0 for profiles that share none, and dislikes play no part when f is 0.",
 ["inputs"], "every pair of profiles and every dislike factor between 0 and 1",
 "The tests compare five hand-picked pairs, always with factor 1 and never with an empty list, a fractional factor or the arguments swapped.",
 [PROFILE], [("weighted sum of the two set similarities","internal/domain/profile.go ComputeSimilarity, computeSimilarityBetweenSets")], [], ["value returned by Profile.ComputeSimilarity, both ways round"])
prop("C03", "The delta storage answers with the last operation of each user-item pair",
 "At any moment the delta storage reports for each user-item pair exactly the last operation added for that pair, or nothing if none ever was, no matter how additions for this and other users and items, flushes, clean closes and reopenings are interleaved. Neither flushing nor closing and reopening changes any answer.",
 ["histories"], "every history of add, flush, close, reopen over any users and items, with flushed and unflushed operations mixed within one user, and any volume of data",
 "The tests add three operations, close once and reopen once; no test reads after a flush with the storage still open, mixes flushed and unflushed operations of one user or reopens twice.",
 [DS, DF, DP], [("unflushed operations shadow flushed ones","internal/infra/delta/storage.go Get"),("replace instead of duplicate","internal/infra/delta/storage.go Add"),("append on flush","internal/infra/delta/storage.go flushEntries"),("load on open","internal/infra/delta/storagefactory.go Open")],
 [("newDelta","unflushed operations",DS),("deltaCache","flushed operations",DS)], ["DeltaStorage.Get for every pair after every call"])
prop("C04", "Delta storage counters agree with its contents and with its file",
 "The item count grows by one with every added operation, except when an operation for the same user-item pair is still unflushed, in which case that one is replaced; the user count is the number of distinct users that have operations. Flushing, clean closing and reopening leave both unchanged. The reported file size is exactly the size of the file once everything is flushed or closed.",
 ["histories"], "every history of add, flush, close, reopen",
 "The tests check the counters after at most three additions, never across a flush, a second session or against the real size of the file.",
 [DS, DF], [("counters kept on add","internal/infra/delta/storage.go Add, GetUserCount, GetTotalItemCount, GetFileSize"),("entry count in the header","internal/infra/delta/storage.go flushHeader")],
 [("totalItemCount","flushed and unflushed operations",DS)], ["GetTotalItemCount, GetUserCount, GetFileSize, length of the file"])
prop("C05", "Flushed delta operations survive a crash at any point",
 "If the process dies at any moment, even in the middle of creating, flushing, closing or recovering the delta file, the file can be opened again with recovery, and every user-item pair then answers with its operation as of the last completed flush or close, or with one added later. Pairs never added have no operation, and the storage keeps working: operations added after the recovery survive later closes, reopenings and crashes in the same way.",
 ["crash_points","histories"], "every history and every crash point between and inside the writes made by it, including crashes during recovery itself, barring an accidental match of the one-byte record checksum",
 "The tests never interrupt an operation: recovery is only run on three hand-made files, and never followed by further use of the storage.",
 [DS, DF, DP], [("lock byte set while open","internal/infra/delta/storagefactory.go Open"),("checksummed append-only entries","internal/infra/delta/protocol.go WriteEntry"),("recovery by rewriting valid entries","internal/infra/delta/protocol.go RecoverTo, internal/infra/delta/storagefactory.go Recover, OpenMaybeRecover")],
 [("Locked","file was not closed cleanly",DP),("NumEntries","entries in the file",DP)], ["storage opened by OpenMaybeRecover on the file as it was at the crash point"])
prop("C06", "Recovery keeps every sound delta entry and nothing else",
 "Recovering a damaged delta file keeps, in their order, exactly the complete entries whose operation code is valid and whose checksum matches, and drops everything else: entries with damaged bytes, zero-filled regions and an incomplete tail. The result is a well-formed, unmarked file whose header counts exactly the entries kept (none if the prefix or header is unreadable), whatever count the damaged header claimed. Recovering it again changes nothing. A recovery during which a read, seek, write or truncation of the file fails reports it, and nothing that could be recovered before is lost.",
 ["inputs","fault_sequences"], "every damaged file: any mix of sound and damaged entries, any truncation point, any header count, any number of entries",
 "The tests recover five fixed files with one sound and at most one damaged entry, damaged only in the checksum byte.",
 [DP, DF], [("copy valid entries and recount","internal/infra/delta/protocol.go RecoverTo"),("replace file contents","internal/infra/delta/storagefactory.go Recover")],
 [], ["bytes of the file after Recover, storage opened from it"])
prop("C07", "A delta file in use or not closed cleanly is recognisably so",
 "From the moment an open succeeds until a close succeeds, the delta file is marked as in use on disk, through any number of additions and flushes; a successful close leaves it unmarked. A plain open of a marked, malformed or truncated file is refused and leaves the file unchanged, while an unmarked well-formed or empty file always opens; an open that fails because a file operation did changes nothing but, at most, the mark. Opening with recovery behaves like a plain open on files that need no recovery, a brand new empty file included. Setting and reading the mark of such a file changes nothing but that mark, nor the position in the file.",
 ["histories","inputs"], "every history of open, open-with-recovery, add, flush, close on files in every state",
 "The tests look at the mark once after creation and once after closing, never after a flush, and open with recovery only one pre-made locked file.",
 [DF, DS, DP], [("lock byte","internal/infra/delta/protocol.go WriteLocked, IsLocked"),("lock kept by flush","internal/infra/delta/storage.go flushHeader"),("refusal","internal/infra/delta/storagefactory.go Open")],
 [("Locked","header lock byte",DP)], ["lock byte in the file after every call, result of Open/OpenMaybeRecover, file bytes after a refusal"])
prop("C08", "A failed delta write is reported, loses nothing and can be retried",
 "When a seek or write of the file fails during a flush or close of the delta storage, the call returns an error, the file stays marked as in use unless it is already complete, and the storage still answers for every operation added. Everything flushed earlier stays recoverable from the file. Once the fault is gone, a repeated flush or close succeeds and leaves each operation in the file exactly once.",
 ["fault_sequences"], "every single or repeated failure of any seek or write (including partial writes) at any point of any history",
 "No test makes a file operation fail.",
 [DS, DP], [("error propagation","internal/infra/delta/storage.go Flush, Close, flushHeader, flushEntries"),("unflushed state dropped only after success","internal/infra/delta/storage.go flushEntries")],
 [("newDelta","operations not yet known to be in the file",DS)], ["returned errors, DeltaStorage.Get, file contents after retry, recovery of the file at the failure"])
prop("C09", "The index storage is a map that persists across clean closes",
 "At any moment the index answers for each id exactly the value of the last put, or nothing if the id was never put or was removed since, including after any number of clean closes and reopenings in which entries were added, overwritten and removed. Removing an absent id has no effect.",
 ["histories"], "every history of put, remove, get, close, reopen over any ids and values and any number of entries",
 "The tests put at most two ids and never reopen a storage with entries in it.",
 [IS, IF, IP], [("in-memory map","internal/infra/index/storage.go Put, Remove, Get"),("save on close","internal/infra/index/storage.go Close, saveEntries, saveHeader"),("load on open","internal/infra/index/storage.go load")],
 [("indices","id to index map",IS)], ["IndexStorage.Get for every id after every call, raw file after close"])
prop("C10", "An index file that was not closed cleanly is never taken for a good one",
 "If the process dies, or a file operation fails, at any point while an index storage is open or being opened or closed, a later open either is refused or yields exactly the contents of the last completed clean close (or of the close in progress, if it got as far as unmarking the file), never a mixture. A file left marked in use or truncated is refused with an error recognisable as file corruption and is not modified. A storage that is open is marked as such on disk; after a successful close it is not. Setting and reading the mark of such a file changes nothing but that mark, nor the position in the file.",
 ["crash_points","fault_sequences","histories"], "every history and every crash or failure point between and inside the writes made by it",
 "The tests never interrupt or fail an operation and never open a marked index file.",
 [IS, IF, IP, "internal/domain/errors.go"], [("lock byte set on load/create and cleared last on close","internal/infra/index/storage.go load, create, Close"),("corruption error","internal/domain/errors.go")],
 [("Locked","header lock byte",IP)], ["index opened on the file as it was at the crash point, kind of error returned, file bytes after refusal"])
prop("C11", "The database iterator yields every entry once, in file order",
 "Iterating over an unlocked recommendation database yields exactly the stored entries in file order with their capacity, deletion mark and profile, whatever the number and sizes of the entries and however rewinds and rewrites are interleaved. It reports a next entry exactly as long as some are left, and reading past the end, or an operation of the file that fails, is an error that does not disturb the iterator. Databases that are locked or have a wrong prefix or cut header are refused, the locked ones as corrupted files. Setting and reading the mark of such a file changes nothing but that mark, nor the position in the file.",
 ["inputs","histories"], "every database content (entry sizes below and far above the read buffer, deleted entries, spare capacity) and every sequence of next, has-next, rewind and rewrite calls",
 "The tests iterate over files holding at most one 50-byte entry.",
 [RI, RP, RL], [("buffered sequential reader","internal/infra/recdb/iterator.go Next, Rewind, HasNext"),("entry framing","internal/infra/recdb/protocol.go ReadEntry")],
 [("entryIndex","entries read so far",RI),("fileOffset","position of the next entry",RI)], ["entries returned by Iterator.Next, Iterator.HasNext, errors"])
prop("C12", "Rewriting a database entry touches that entry only",
 "Rewriting the previously read entry replaces exactly that entry: every other entry, the header and the file length stay byte for byte the same, the new contents are read back after a rewind, and iteration continues with the entry that follows. A rewrite with a different capacity, with data that does not fit the capacity, or before anything was read is refused and leaves the whole file unchanged. A rewrite that fails because a file operation did harms no other entry and succeeds when it is repeated.",
 ["histories","inputs"], "every database with any number of entries, every position, every new entry, and any interleaving with next and rewind",
 "The only rewrite test uses a file with a single entry, so the position of the write and the neighbours are never put to the test.",
 [RI, RP, RL], [("seek to the entry and overwrite","internal/infra/recdb/iterator.go SetPrevious"),("capacity padding","internal/infra/recdb/protocol.go WriteEntry")],
 [("fileOffset","position of the next entry",RI)], ["whole file before and after Iterator.SetPrevious, following Next calls"])
prop("C13", "Created databases are valid and planned capacities always suffice",
 "Initialising a recommendation database, in a stream or as a file that does not exist yet, produces a valid, unlocked, empty like-profile database that can be iterated at once; opening an existing database file leaves it unchanged. For every profile the predicted entry size is exactly what its serialised form needs and the predicted capacity is at least that, so an entry written with it reads back as the same profile.",
 ["inputs","configurations"], "every profile size, new and existing files",
 "Creation, file opening, size and capacity prediction have no tests at all.",
 [RP, RL], [("create","internal/infra/recdb/protocol.go Create, OpenOrCreateFile"),("prediction","internal/infra/recdb/protocol.go PredictEntrySize, PredictEntryCapacity, internal/infra/recdb/likeprotocol.go PredictDataSize")],
 [], ["bytes produced by Create, file returned by OpenOrCreateFile, PredictEntrySize/PredictEntryCapacity against the bytes written"])
prop("C14", "A malformed database is reported, not trusted",
 "Reading a database in which some entry is cut short, declares a capacity smaller than its own header or data, or declares more items than its capacity can hold, yields all entries before the malformed one unchanged and then an error, again when the read is repeated, with the entry still reported as left to be read: never a panic, never a made-up entry, and never memory proportional to the bogus count.",
 ["inputs"], "every truncation point and every inconsistent capacity or item count at any entry",
 "One test reads a single entry whose data is longer than its capacity; truncation, tiny capacities and huge counts are never tried.",
 [RP, RL, RI], [("capacity check","internal/infra/recdb/likeprotocol.go ReadEntryData"),("padding skip","internal/infra/recdb/protocol.go ReadEntry, internal/helpers/io.go SkipReading")],
 [], ["entries and errors returned by Iterator.Next, memory allocated"])
prop("C15", "Every namespace request is answered exactly once, in order, or refused",
 "Every request made to a namespace (like, dislike, delete item, delete profile, read profile, similar profiles, recommendations) returns exactly once: with the storage's answer to that very request if it was processed, or with an error if processing failed or the namespace stopped first. Requests are handed to the storage at most once, in the order they were submitted, with their user, item and kind intact. In every interleaving of requests, stopping and context cancellation no call blocks forever once the namespace was started or stopped, and none panics, requests made and stops repeated after the stop included.",
 ["schedules","histories"], "every interleaving of any number of concurrent clients, queue states, stop and cancellation",
 "There is no test of the namespace at all, and scheduling and shutdown races cannot be sampled meaningfully by a unit test.",
 [NS, "internal/domain/actions.go", "internal/infra/recdb/likestorage.go"], [("action queue and single worker","internal/domain/likenamespace.go Start"),("per-request reply channels","internal/domain/likenamespace.go Like, GetProfile, ..."),("refusal of pending requests on stop","internal/domain/likenamespace.go sendStoppedLikeNamespaceErrorToActionWaiters"),("replies","internal/infra/recdb/likestorage.go ProcessActions")],
 [("action","queue of requests",NS)], ["return of each call, requests seen by the storage"])
prop("C16", "Stopping a namespace releases all its storages exactly once",
 "After a started namespace is stopped or its context is cancelled, idle or with requests pending, it closes its delta, index and like storages exactly once each, after the last processed request, and processes nothing afterwards; before that it keeps them open. A start that fails at any stage returns an error, starts no worker and releases every storage and file it had opened.",
 ["schedules","fault_sequences"], "every interleaving of requests with stop and cancellation, and every stage at which a start can fail",
 "No test starts or stops a namespace.",
 [NS], [("deferred closes in the worker","internal/domain/likenamespace.go Start"),("cleanup on failed start","internal/domain/likenamespace.go Start, open...Storage")],
 [], ["Close calls seen by the storages, state of the files handed to the factories"])
prop("C17", "A namespace restarts after any shutdown with its flushed data",
 "A namespace whose process died, or that was stopped cleanly, at any moment starts again on the same data directory. After it, the delta storage holds every operation flushed before; the index storage holds exactly what it held at a clean stop and is empty after an unclean one. Its files are those in its base directory that carry the name it has when it is started, and two namespaces with different names never affect each other.",
 ["crash_points","histories"], "every history of starts, requests, flushes, clean stops and crashes",
 "No test starts a namespace, let alone on the files left by a previous run.",
 [NS, DF, IF, "internal/domain/errors.go"], [("recover delta on open","internal/domain/likenamespace.go openMaybeRecoverDeltaStorage"),("reset index when corrupted","internal/domain/likenamespace.go openMaybeResetIndexStorage")],
 [], ["result of Start, storages handed to the like storage factory, files in the base directory"])
prop("C18", "Concurrent registry operations behave as if done one at a time",
 "Concurrent creations, updates, deletions, lookups and listings of namespaces have the results they would have in some sequential order consistent with real time. In particular at most one namespace ever has a given name, of concurrent creations of one name exactly one succeeds, no registration is lost, and a listing contains exactly the namespaces registered at one moment.",
 ["schedules","histories"], "every interleaving of concurrent registry operations",
 "The namespace service has no tests and the HTTP server calls it from many goroutines.",
 [SV, EP], [("name check before registration","internal/domain/namespaceservice.go CreateNamespace, UpdateNamespace"),("removal","internal/domain/namespaceservice.go DeleteNamespace, internal/helpers/arrays.go Remove")],
 [("namespaces","registered namespaces",SV)], ["results of concurrent NamespaceService calls, final listing"])
prop("C19", "The registry survives restarts, crashes and failed saves",
 "When a creation, update or deletion of a namespace succeeds, a service started afterwards on the same directory loads exactly the resulting registry: same names, types, similar-profile limits and dislike factors. When the operation fails, because it is invalid or because the registry cannot be saved, neither the registry in memory nor the one on disk changes. A crash at any point of a save leaves the registry on disk as it was before or after the operation. A namespace is stopped once its deletion succeeded, and no registered one is.",
 ["histories","crash_points","fault_sequences"], "every history of operations and restarts, every crash or failure point of a save",
 "Saving and loading have no tests.",
 [SV, NS], [("save after each change","internal/domain/namespaceservice.go SaveNamespaces"),("load","internal/domain/namespaceservice.go LoadNamespaces"),("defaults","internal/domain/likenamespace.go NewLikeNamespace, SetMaxSimilarProfiles")],
 [("namespaces.json","persisted registry",SV)], ["registry loaded by a fresh NamespaceService, registry file"])
prop("C20", "The HTTP API does what it answers",
 "A namespace is created (201) or updated (200) exactly when the request body is (or begins with, as the rest is ignored) a well-formed JSON object with a valid name (lower-case letters and digits, starting with a letter), type 'like' (creation only), a present dislike factor between 0 and 1 inclusive, an absent or non-negative similar-profile limit (1000 when absent or 0), and a name not taken by another namespace; any other creation or update is refused with a 4xx status and changes nothing, and one that cannot be saved is answered with an error and changes nothing. What was answered with success is there after a restart. Reads by name and listings return exactly the registered namespaces, 404 for a valid name that is not registered and 400 for an invalid one. Every request is answered.",
 ["inputs","histories"], "every sequence of HTTP requests with every combination of valid and invalid fields",
 "The API package has no tests.",
 [EP, "internal/api/shard/dto/namespacecreaterequest.go","internal/api/shard/dto/namespaceupdaterequest.go","internal/api/shard/dto/namespaceresponse.go","internal/api/shard/endpoints/helpers.go",SV],
 [("routing and handlers","internal/api/shard/endpoints/namespaceendpoint.go"),("binding validation","internal/api/shard/dto"),("uniqueness","internal/domain/namespaceservice.go")],
 [], ["status and body of every HTTP response"])
prop("C21", "Only safe names and known types are accepted",
 "A string is accepted as a namespace name if and only if it is non-empty, starts with an ASCII letter and continues with ASCII letters, digits, '_' and '-' only; it is kept unchanged. Hence every file of a namespace lies directly in its base directory. 'like' is the only accepted namespace type.",
 ["inputs"], "every string, including path separators, dots, control characters, line breaks and non-ASCII letters at any position",
 "Name and type parsing have no tests.",
 ["internal/domain/valueobjects/namespacename.go","internal/domain/valueobjects/namespacetype.go",NS], [("pattern","internal/domain/valueobjects/namespacename.go ParseNamespaceName"),("type check","internal/domain/valueobjects/namespacetype.go ParseNamespaceType")],
 [], ["result of ParseNamespaceName/ParseNamespaceType, files created by a started namespace"])
prop("C22", "The in-memory file behaves like a file",
 "The in-memory file used for recovery behaves as a growable byte array with one position: reads return the bytes at the position, writes overwrite and extend there, both advance the position by exactly the bytes transferred, end of file is reported only when nothing is left, seeks work from start, position and end and refuse targets outside the file without moving, truncation cuts or zero-extends (moving the position back only if it would lie beyond the end), and every operation after close fails.",
 ["histories"], "every sequence of reads, writes, seeks, truncations and closes",
 "The buffer is used by other tests but has none of its own; truncation in the middle followed by writes, seeks from the end and growth are never exercised.",
 [FB], [("byte slice with offset","internal/helpers/file_buffer.go")], [("offset","position",FB)], ["results, position and contents after every call"])
prop("C23", "Sorted-array helpers keep order and find what is there",
 "On every ascending array of ids, searching finds an element exactly if it is present, the closest-element search returns an element at minimal distance, ordered insertion adds exactly one copy and ordered put adds the value only if it is absent, both leaving the array ascending, and ordered removal deletes exactly the element at the given index. Unordered removal deletes exactly that element and keeps all others.",
 ["inputs"], "every ascending array of unsigned ids (and of other numeric types over ranges whose differences are representable), with duplicates, every argument, with or without spare capacity",
 "The tests use arrays of at most six ints and a fixed list of arguments; unsigned extremes, duplicates, longer arrays and arrays with spare capacity are not covered.",
 [ARR], [("binary search","internal/helpers/arrays.go BinaryIndexOf, BinaryIndexOfClosest"),("insertion and removal","internal/helpers/arrays.go Insert, InsertSavingOrder, PutSavingOrder, RemoveSavingOrder, Remove")],
 [], ["returned slices and indices"])
prop("C24", "The server starts, fails and stops as announced",
 "The server process listens on the configured host and port, and ends with a non-zero exit status, without needing a signal, if it cannot listen, or if the saved registry is there but cannot be read, which it leaves alone. On SIGINT or SIGTERM it stops accepting connections, completes requests in progress and exits with status 0, provided that no connection stays busy, or newly opened and silent, for 5 seconds. A registration acknowledged over HTTP is served again after the server is stopped, or killed, and started again on the same data directory.",
 ["histories","crash_points","configurations"], "every sequence of start, requests, termination signal or kill, restart; occupied and free ports; host and port set, unset or invalid",
 "No test runs the application.",
 [APP, "main.go", "internal/api/shard/config.go", SV], [("listen and wait for signal","internal/api/shard/application.go Run"),("configuration","internal/api/shard/config.go"),("load on start","main.go runShard")],
 [], ["exit status of the process, HTTP responses"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P),"properties")
