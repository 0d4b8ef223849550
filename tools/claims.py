CLAIMED = {
 "C01": ("proof", "Every mutator and reader of txlogs.DB keeps the representation invariant 'cached snapshot at version v equals the replay of v log transactions' for every history; assumed: uuid and time sources, wrap-around of int64 nanoseconds is not reached."),
 "C02": ("proof", "Begin/Commit/Rollback/RollbackN/Do satisfy full functional contracts; the callback given to Do is assumed to keep the store's invariant and not to end the transaction."),
 "C03": ("proof", "SnapshotAt, EntrySnapshotAt, NVersions and LastUpdated satisfy full functional contracts for every log and every integer."),
 "C04": ("proof", "Save, New and NewLog are proved against a contract of encoding/json over the declared struct tags (what is encoded decodes to the same fields when the text is valid UTF-8); encoding/json itself is assumed and is exercised by the bounded replay driver."),
 "C07": ("proof", "Pad and Unpad satisfy their full functional contracts for every input; integers are mathematical with explicit 64-bit range obligations; bytes.Repeat is trusted."),
 "C12": ("proof", "New, Rename, Set, DeleteKey and touchUpdated satisfy full functional contracts over the log and the replayed state for every history; NewSync, NewUser and RenameDuplicates are decided by a bounded replay driver. strings.EqualFold is assumed to be case folding."),
 "C13": ("proof", "AddLabel and RemoveLabel satisfy full functional contracts, SearchLabels is proved to return only existing entries with their names; which entries it returns is decided by a bounded replay driver. strings.Split and strings.Join are assumed inverse."),
 "C14": ("proof", "fuzzy.Match is proved equal to the recursive definition of 'the characters of the query occur in the name in this order' for all texts; Search is proved sound and complete against it and a split of both texts at slashes; decoding of UTF-8, unicode.ToLower and strings.Split/ToLower are trusted."),
}
NOT = {}
CLAIMED.update({
 "C05": ("exploration", "The merge comparison used to order and identify transactions (Merge$1) and the lemmas about it are proved for all transactions; the walk of Merge itself is too large for the verifier, so the union, order and symmetry of whole merges are decided by a bounded driver on the real code (all small histories plus seeded random ones), counted as bounded."),
 "C06": ("exploration", "As C05: the closure that orders transactions is proved, conflict reporting and resolution are decided by a bounded driver against an independent reference merge, counted as bounded."),
 "C08": ("exploration", "Every writer and reader of the format is proved not to crash and to place header, salt, iv and master-key records where the layout says (encryptV1Single/Multi, encryptMasterKeyV1, decryptV1Single/Multi); that decryption inverts encryption bit for bit goes through third-party ciphers whose inverse law has no contract, so the round trip is decided by a bounded driver on the real code."),
 "C09": ("exploration", "Proved for all inputs: when Decrypt or decryptV1Single report an error they return no plaintext, and no input crashes them. That success implies the digest matches is decided by a bounded driver (every byte of small files flipped, every truncation, unknown users) on the real code."),
 "C10": ("proof", "Decrypt, IsMultiUser, Encrypt, EncryptMasterKey and everything they call in package crypt are proved free of panics for every input; assumed: contracts of the cipher and hash packages (block sizes, accepted key lengths, lengths out), the functions stored in the version table meet the field contracts, and the version table's sizes (goodversions, read from the source by the package initialiser's proof); plaintexts up to 2^40 bytes."),
 "C11": ("exploration", "encryptMasterKeyV1, newMasterKeyV1 and EncryptMasterKey are proved to write records of the right length for exactly the user asked for; that the operations of the user interface leave every user able to decrypt is decided by a bounded driver over operation sequences on the real code."),
 "C15": ("exploration", "genPassword is proved to refuse every impossible request without a crash, and, when every class is asked for, to return exactly the requested length without a crash for every length and count; the class counts, the absence of other characters and the settings with switched-off classes (too many paths for the verifier) are decided by a bounded driver on the real function."),
 "C16": ("proof", "readFile, sendFile, readResponse and sendOKResponse satisfy their functional contracts over the byte streams for every remote behaviour, with the remote modelled as an arbitrary reader and writer; the ssh session set-up around them is decided by a bounded driver."),
 "C17": ("proof", "hostAsker.callback is proved to accept only a remembered line with the same host and key type or an explicit y, and to remember nothing else; the comparison of the fingerprint text (crypto/sha256 over the marshalled key) is decided by a bounded driver. Assumed: strings.Split law, prompt returns the user's answer."),
 "C18": ("exploration", "collectSyncs is proved to return only entries marked for synchronisation that have a name and a url; what a whole synchronisation writes, and where, is decided by a bounded driver that runs the real sync against recording remotes with injected failures."),
 "C19": ("exploration", "lastTime, which decides which side is later, is proved; which credentials the session holds after mergeBlobs is decided by a bounded driver over all combinations of single/multi-user, equal/different keys, times and answers."),
 "C20": ("exploration", "saveBlob is proved to write nothing in a read-only session; which commands the table marks safe, and the visible log when opened at a time, are decided by a bounded driver on the real commands."),
 "C21": ("proof", "writeFileAtomic is proved to follow write-temporary, permissions, sync, rename, with the target untouched on every error path, for every error of every system call; assumed: rename is atomic and the extern contracts of package os. A bounded driver also kills a real save at each system call."),
 "C22": ("exploration", "export is proved to reflect the whole log and to write rows only to a file that has been given owner-only permissions; the cells of the exported table and the round trip through import are decided by a bounded driver."),
})
