#!/usr/bin/env python3
# Regenerates properties.jsonl (the list is kept here in readable form).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})

p("C01","The cached snapshot always equals the replayed log",
"Whatever sequence of additions, sets, deletes, key deletes, transactions, rollbacks, resets and snapshot updates is performed, the store's cached snapshot at its recorded version is exactly the state obtained by replaying that many log transactions from the empty store, and the version never exceeds the log. Bringing the snapshot up to date either yields the replay of the whole log or stops with an error at the first transaction that cannot be applied; it never changes the log, and two entries never share storage.",
["histories","inputs"],"every history of operations on a store, every log content, every point at which the snapshot is brought up to date",
"The tests run a handful of fixed histories; the equality is an invariant over all histories and interleavings of cache updates with rollbacks.",
["txlogs/txlogs.go"],[("applyTx / UpdateSnapshot","txlogs/txlogs.go"),("Rollback / RollbackN / ResetSnapshot invalidation","txlogs/txlogs.go")],
[("Version, Snapshot, Log","cached prefix length, cached state, transaction log","txlogs.DB")],["DB.Snapshot after UpdateSnapshot","Find/Search results"])

p("C02","Rolling back restores exactly the state at the begin point",
"Rolling back a transaction, or failing inside one, leaves the log byte-for-byte as it was when the transaction began and never leaves a cached snapshot that contains rolled-back changes; committing keeps every change. Undoing the last N transactions removes exactly those N or fails without changing anything, a store refuses to be saved while a transaction is open, and beginning twice, or ending a transaction that was not begun, is refused loudly.",
["histories","inputs"],"every history, every position of begin, snapshot updates, rollback and commit, every N",
"Tests cover one rollback position; the failure needs a snapshot taken at one particular version inside the transaction.",
["txlogs/txlogs.go"],[("Begin/Commit/Rollback/Do/RollbackN/Save","txlogs/txlogs.go")],
[("txPoint","length of the log at begin plus one, 0 when idle","txlogs.DB")])

p("C03","Time travel returns exactly the state of the requested version",
"Asking for the store, or one entry, as it was N versions ago yields exactly the replay of the log (or of that entry's own transactions) without its last N transactions, and asking for a version that does not exist (including a negative one) is answered with an error, never a crash. The version count of an entry is the number of its transactions, its last-updated time is the time of its latest transaction or -1, and none of these queries changes the store.",
["inputs","histories"],"every log, entry id and version number",
"Tests sample a fixed log and N in {0,1,all}; the statement is over every log and every integer.",
["txlogs/txlogs.go","commands.go"],[("SnapshotAt, EntrySnapshotAt, NVersions, LastUpdated","txlogs/txlogs.go")])

p("C04","Saved data loads back unchanged",
"A store whose text is valid UTF-8 has, when it is saved and loaded again, the same log (every transaction's time, kind, id, key and value, in order), the same version and the same snapshot; extracting only the log from the same data yields that same log. Malformed data is rejected with an error instead of producing a store.",
["inputs","histories"],"every store whose strings are valid UTF-8",
"One fixed store is marshalled by the tests; the round trip is for all stores, and depends on how the field tags of four types line up.",
["txlogs/txlogs.go","txlogs/tx.go"],[("Save / New / NewLog","txlogs/txlogs.go"),("json field tags","txlogs/tx.go")])

p("C05","Merging two logs loses nothing and is order-independent",
"Merging two chronologically sorted logs (equal times mean the same transaction, and neither log touches an entry after deleting it) yields a chronologically sorted log that contains each transaction of either side exactly once and nothing else, except those that an explicit conflict resolution discards. Without conflicts, merging a with b and b with a gives the same log, merging a log with itself or with a prefix of itself gives the longer log, and no pair of logs (empty ones included) makes merging crash; the input logs are not modified.",
["inputs","histories"],"every pair of logs",
"Tests merge five small pairs; loss needs logs that agree in first and last time and length but differ in between, which no test has.",
["txlogs/txlogs.go","merging.go"],[("Merge","txlogs/txlogs.go"),("mergeLogs","merging.go")],(),["result of Merge","log after sync"])

p("C06","A delete that races with a later change is never resolved silently",
"Whenever, after merging, an entry's delete from one side is followed by an operation on the same entry, the merge reports a conflict naming that delete and returns no log until the user decides; it reports no delete conflict when there is none. Deciding to keep the deletion drops exactly the operations on that entry after the delete, deciding to restore drops exactly the delete, unrelated histories are only joined after an explicit confirmation, and answering the questions always finishes the merge.",
["inputs","histories"],"every pair of logs, every set of conflicts, every sequence of answers",
"The tests resolve one conflict at a time with fixed logs and never drive the interactive loop.",
["txlogs/txlogs.go","txlogs/tx.go","merging.go"],[("checkConflict in Merge","txlogs/txlogs.go"),("mergeLogs conflict loop","merging.go")])

p("C07","Padding and unpadding are inverse, and bad padding is rejected",
"For every byte string and every block size from 1 to 255, padding appends between 1 and one block of bytes, each equal to the number of bytes appended, giving a multiple of the block size; unpadding the result returns the original bytes. Unpadding anything else either fails or removes only a valid padding (n bytes of value n with 1 <= n <= length), and never crashes.",
["inputs"],"every byte string, every block size 1..255",
"The tests check a few lengths for two block sizes.",
["pkcs7/pad.go"],[("Pad / Unpad","pkcs7/pad.go")])

p("C08","What was encrypted decrypts back with the same credentials",
"For every plaintext and every valid parameter set, single-user or multi-user, decrypting the encrypted file with the passphrase (or the matching key and salt) of any of its users returns exactly the plaintext, the version and the parameters needed to encrypt it again. The file begins with the fixed magic, version and user-count fields and carries each user's record verbatim, and wrapping a master key for a user and unwrapping it with that user's key returns the master key.",
["inputs","configurations"],"every plaintext, key, salt, iv and number of users (1 to 9999), assuming only that block ciphers invert themselves",
"Tests round-trip three fixed payloads with at most two users; layout slips show up only for particular counts, sizes or positions.",
["crypt/crypto.go","crypt/crypto_v1.go","crypt/params.go"],[("encryptV1Single/Multi, decryptV1Single/Multi","crypt/crypto_v1.go"),("EncryptMasterKey","crypt/crypto.go")])

p("C09","Decryption succeeds only on authentic data",
"Whenever decryption reports success, the digest stored inside the payload equals the digest of the file's entire header followed by exactly the plaintext that is returned, so no header byte, user record, salt, iv or payload byte is accepted unauthenticated. A user name that is not in a multi-user file never decrypts it, whatever passphrase or cached key is supplied, and on any failure no plaintext is returned.",
["inputs","fault_sequences"],"every file content, user, passphrase, cached key and salt",
"Tests flip no bits in the header; an omission in what the digest covers is invisible to round-trip tests.",
["crypt/crypto_v1.go","crypt/crypto.go"],[("sha512 comparison in decryptV1Single/decryptV1Multi","crypt/crypto_v1.go")])

p("C10","No file content or parameter set can crash the file format code",
"For every byte string, however short, truncated or corrupted, and for every user, passphrase, key and salt, decrypting it and asking whether it is multi-user return a result or an error and never crash. Encrypting with any parameter set either succeeds or returns an error.",
["inputs","fault_sequences"],"every byte string as a file, every parameter set",
"Tests feed only well-formed files; crashes need truncation at particular offsets or a wrong key whose padding happens to look right.",
["crypt/crypto.go","crypt/crypto_v1.go","crypt/params.go"],[("verifyMagic, IsMultiUser, Decrypt, Encrypt, validate","crypt/")])

p("C11","Changing users or passwords never locks anybody out",
"After every user-management operation (adding a user, changing a password, rekeying one user or all users) each user's stored record holds that user's salt and the file's current master key wrapped under that user's key, operations on one user leave every other user's record unchanged, and the session's own cached credentials match its record. The parameters handed to encryption line up every user's name, salt, iv, wrapped key and own key in the same slot, and naming a user that does not exist changes nothing and does not crash.",
["histories","inputs"],"every sequence of user-management commands, every set of users, every iteration order",
"No test touches these commands; a wrong key or slot only shows as a lock-out after save and reload.",
["commands.go","uicontext.go"],[("passwd, adduser, rekey, rekeyAll","commands.go"),("makeParams","uicontext.go")],
[("master, ivm, key, salt, user","session credentials","uiContext")])

p("C12","Entry names stay unique and system fields stay protected",
"Creating, renaming and registering users or sync targets never gives an entry a name that another entry already has, and renaming duplicates leaves all names distinct without touching any other field. The ordinary set operation refuses the name, timestamp, two-factor and key-material fields in any letter case, and the ordinary delete operation refuses the name, timestamp and key-material fields, both without changing anything; every accepted change also refreshes the entry's timestamp.",
["histories","inputs"],"every store, name, key and value",
"The package has no tests at all.",
["blobformat/blobs.go","blobformat/constants.go","blobformat/blob.go"],[("New, Rename, RenameDuplicates, Set, DeleteKey, NewSync, NewUser","blobformat/blobs.go")])

p("C13","Label edits change exactly the label asked for",
"Adding a label appends it to the entry's labels and keeps the others in order, removing the label at a position removes exactly that one and keeps the rest in order, and an impossible position is refused without a change or a crash. Searching by labels returns exactly the entries that carry every requested label.",
["inputs","histories"],"every label list, every position, every query",
"The package has no tests at all.",
["blobformat/blobs.go","blobformat/blob.go","commands.go"],[("AddLabel, RemoveLabel, SearchLabels","blobformat/blobs.go")])

p("C14","Fuzzy search finds exactly the names that match",
"A name matches a query exactly when the query's characters occur in the name in order, where a character other than an uppercase letter also matches a name character that becomes it when lowercased; matching never crashes on any text. Searching entries returns exactly the entries whose name matches, compared section by section when the query contains slashes, and an empty query returns every entry.",
["inputs"],"every pair of strings, valid UTF-8 or not; every store",
"Tests list about twenty ASCII pairs.",
["fuzzy/fuzzy.go","blobformat/blobs.go"],[("Match","fuzzy/fuzzy.go"),("Search","blobformat/blobs.go")])

p("C15","Generated passwords satisfy every constraint that was asked for",
"Whenever password generation succeeds, the password has exactly the requested length, contains at least the requested number of characters of each enabled class and no character of a class that was switched off or of no class. Impossible requests are answered with an error, and no combination of settings crashes it.",
["inputs","configurations"],"every length and every five class settings (any integers), every outcome of the random source",
"The test tries a few settings and lengths below 256.",
["passwd_gen.go"],[("genPassword","passwd_gen.go")])

p("C16","File transfer delivers exactly the bytes or reports an error",
"A download returns success only with exactly the number of bytes the remote announced, unaltered, with its terminator and mode intact, and acknowledges each protocol step in order. An upload sends exactly the header, all of the file's bytes and the terminator, and reports success only when the remote acknowledged with OK; every other or malformed answer yields an error and never a crash.",
["inputs","fault_sequences"],"every byte sequence a remote may send, every file content, every chunking and failure of the stream",
"The tests use a well-behaved peer and two or three fixed files.",
["scpsync/scpsync.go"],[("readFile, sendFile, readResponse","scpsync/scpsync.go")])

p("C17","A changed or unconfirmed host key is never accepted",
"A connection to a host that was seen before is accepted only if its key type and key fingerprint equal the remembered ones, and to a host never seen before only after the user explicitly confirms; a confirmation remembers exactly that host, type and fingerprint. Malformed remembered lines never cause acceptance or a crash.",
["inputs","histories"],"every list of remembered hosts, host name, key and answer",
"No test covers host keys.",
["sync.go"],[("hostAsker.callback","sync.go")])

p("C18","Sync never overwrites a remote it has not merged",
"During a synchronisation a remote is written only if in that same run it was found to be missing, or its file was fetched, decrypted, parsed and included in the merge; a remote whose fetch, decryption or parsing failed is left alone, and nothing is written when merging was refused or failed. What is written to every remote is the encryption of the merged store.",
["fault_sequences","histories"],"every number of remotes, every combination and position of failures, every answer of the user",
"Sync has no tests; the failure needs one remote to fail in the middle of several.",
["sync.go","merging.go"],[("uiContext.sync","sync.go"),("mergeBlobs","merging.go")])

p("C19","Merging remotes keeps one consistent set of credentials",
"After merging remote files the session's user, passphrase, key, salt, master key and master iv are all the local ones or all those of one single remote, never a mixture, and the session is unchanged if the merge fails. When the keys differ, the side with the later changes wins in single-user files (the user decides ties), and in multi-user files the side whose wrapped master key survives in the merged log; empty remote logs never crash it.",
["inputs","histories"],"every list of remotes, every combination of single-user and multi-user sides",
"Merging of credentials has no tests.",
["merging.go"],[("mergeBlobs","merging.go")])

p("C20","Opening at a past time is read-only and shows exactly that past",
"When the file is opened at a given time the visible log is exactly the leading transactions up to the first one that is later than that time, commands that would change the store are refused, and nothing is saved to the file or pushed to any remote. Commands marked as safe for this mode never add, remove or change a transaction.",
["inputs","histories"],"every log, every time, every command",
"The command table and the history option have no tests.",
["main.go","repl.go","commands.go"],[("loadBlob history cut, saveBlob, main","main.go"),("replCmds ReadOnly, repl.run","repl.go")])

p("C21","A crash while saving never destroys the file",
"At every instant during a save, the file on disk holds either the complete previous content or the complete new content, and an error while writing leaves the previous content in place. The written file is readable and writable by its owner only.",
["crash_points","fault_sequences"],"every crash point and every failing system call during a save",
"No test kills or starves a save.",
["main.go"],[("saveBlob","main.go")])

p("C22","Exports contain every entry and every field",
"An export of the store contains one row per existing entry, with each of the entry's fields in the column of that name and nothing else, and a header naming every field that occurs; it reflects the complete log, not an older cached state. The exported file of secrets is created readable by its owner only, and an import adds one entry per record, keeping each record's fields, without treating the heading as a record.",
["inputs","histories"],"every store, every cache state, every CSV content",
"Export and import have no tests.",
["export.go","import.go"],[("export","export.go"),("importLastpass","import.go")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
