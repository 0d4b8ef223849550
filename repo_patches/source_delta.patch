From d7ba65e6c15f801ace5291210b691dc419057c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 01/41] fix: pkcs7.Unpad rejects a zero padding byte

---
 pkcs7/pad.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..f44ef7f 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,6 +63,11 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
+	if padBytes == 0 {
+		// Pad always adds at least one byte, zero is never valid
+		return nil, errPaddingInvalid
+	}
+
 	if int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
-- 
2.43.0


From 2392091f89449c3db3fd697af272dd39555f5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 02/41] fix: txlogs.Begin panics when a transaction is already
 open, as documented

---
 txlogs/txlogs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..a8a7893 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -143,6 +143,9 @@ func (s *DB) appendLog(tx Tx) {
 // We add 1 to the length to keep the 0 valid as a "no transaction started"
 // sentinel value.
 func (s *DB) Begin() {
+	if s.txPoint != 0 {
+		panic("begin called before commit or rollback")
+	}
 	s.txPoint = len(s.Log) + 1
 }
 
-- 
2.43.0


From 88116706a3049a11635d0e6b48412cc76588553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 03/41] fix: txlogs.Rollback drops a snapshot that contains one
 rolled back transaction

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index a8a7893..4d38d04 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -163,7 +163,7 @@ func (s *DB) Rollback() {
 		panic("rollback called before begin")
 	}
 
-	if s.Version > uint(s.txPoint) {
+	if s.Version > uint(s.txPoint-1) {
 		s.ResetSnapshot()
 	}
 
-- 
2.43.0


From 96b29afc36949cd07d90c5bc7f84e90d5b2e8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 04/41] fix: txlogs.RollbackN refuses to undo what came before
 the open transaction

---
 txlogs/txlogs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 4d38d04..93df516 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -195,6 +195,9 @@ func (s *DB) RollbackN(n uint) error {
 	if n > ln {
 		return errors.New("cannot rollback past the beginning")
 	}
+	if s.txPoint != 0 && ln-n < uint(s.txPoint-1) {
+		return errors.New("cannot rollback past the beginning of the transaction")
+	}
 
 	if s.Version > ln-n {
 		s.ResetSnapshot()
-- 
2.43.0


From 427dcbc0ca73c08c8ffb3992b5ea2a572504ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 05/41] fix: txlogs.SnapshotAt refuses negative versions

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 93df516..a50c163 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -237,7 +237,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From bf3dfdfdc544c149524f1c6583d71f9062dd3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 06/41] fix: txlogs.EntrySnapshotAt refuses negative versions

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index a50c163..9a462d8 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -256,7 +256,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From b1fe2d335dcee2bac2714f7c237e901d92e124dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 07/41] fix: txlogs.Merge no longer takes logs for equal that
 only start and end alike

---
 txlogs/txlogs.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 9a462d8..45f552e 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -318,9 +318,6 @@ func (s *DB) LastUpdated(uuid string) (last int64) {
 // Merge logs together. The standard case for merging is that the logs proceed
 // in order with the same uuids.
 //
-// There is a no-fork fast-path in which a is returned if lengths are the same
-// and they start and end with the same transaction ids.
-//
 // When a fork occurs the logs need to be reconciled. The reconciliation is
 // done by accepting each change in order deterministically, it sorts first
 // by timestamp, then by uuid as a fallback in case the changes (unlikely)
@@ -342,16 +339,6 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
-	if lena == lenb &&
-		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
-		// These are the same list of events
-		// There can be no possible fork that has happened if they
-		// 1. Are not of differing length
-		// 2. Start at the unique ID
-		// 3. End at the unique ID
-		return a, nil
-	}
-
 	most := lena
 	if lenb > most {
 		most = lenb
-- 
2.43.0


From 36c5d502aea1f747dc0929868edcb21de6fc8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 08/41] fix: txlogs.Merge records where a shared delete is in
 the merged log

---
 txlogs/txlogs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 45f552e..6ddccb9 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -424,11 +424,11 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// If ids are the same, append and move on, haven't reached fork
 		if a[i].Time == b[j].Time {
+			c = append(c, a[i])
 			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
+				delete(deleted, a[i].UUID)
+				checkConflict()
 			}
-
-			c = append(c, a[i])
 			i++
 			j++
 			continue
-- 
2.43.0


From a8162dd867772ed20bc5f088e7326824a1959cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 09/41] fix: txlogs.Merge keeps a forced root conflict apart
 from delete conflicts

---
 txlogs/txlogs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 6ddccb9..a588b4c 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -368,7 +368,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			// Before we mark ourselves as deleted, make sure we aren't
 			// part of a resolution.
 			for _, res := range resolved {
-				if res.Initial.Time != c[last].Time {
+				if res.Kind != ConflictKindDeleteSet || res.Initial.Time != c[last].Time {
 					continue
 				}
 
@@ -389,7 +389,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		deleteTx := c[ind]
 		// Check if its resolved
 		for _, res := range resolved {
-			if res.Initial.Time == deleteTx.Time {
+			if res.Kind == ConflictKindDeleteSet && res.Initial.Time == deleteTx.Time {
 				// Assert for the impossible, and delete ourselves off the end
 				// This is impossible because if it was resolved in the other
 				// way it should have been handled above.
@@ -403,7 +403,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// Make sure we haven't noted this one already first
 		for _, con := range conflicts {
-			if con.Initial.Time == deleteTx.Time {
+			if con.Kind == ConflictKindDeleteSet && con.Initial.Time == deleteTx.Time {
 				return
 			}
 		}
-- 
2.43.0


From efcf7d706ed743295cc2ae9535e5637048315533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 10/41] fix: a delete conflict is asked about only until it is
 answered

---
 merging.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merging.go b/merging.go
index c46e738..4530fd7 100644
--- a/merging.go
+++ b/merging.go
@@ -270,6 +270,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					default:
 						continue
 					}
+					break
 				}
 			}
 		}
-- 
2.43.0


From aa92debd67349178df20ec2e1a8a6cd81ce2025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 11/41] fix: later rounds of merging keep the earlier decisions

---
 merging.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/merging.go b/merging.go
index 4530fd7..e0f8845 100644
--- a/merging.go
+++ b/merging.go
@@ -213,9 +213,9 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	var conflicts, resolved []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		c, conflicts = txlogs.Merge(local, remote, resolved)
 
 		if len(conflicts) == 0 {
 			break
@@ -274,6 +274,8 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 				}
 			}
 		}
+
+		resolved = append(resolved, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From 914134c230c40822864785ffee95f274d954dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 12/41] fix: loading the JSON value null no longer yields a nil
 store or a crash

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index a588b4c..51723e7 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -53,7 +53,7 @@ type storeNoSnapshot struct {
 // New takes a json blob and unmarshals it into a DB
 func New(data []byte) (*DB, error) {
 	s := new(DB)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 01796d0d07e1842cadaf88054be1f5ddecf524ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 13/41] fix: fuzzy matching of names with invalid UTF-8 or with
 letters whose case forms differ in length

---
 fuzzy/fuzzy.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index e58ab6f..338f21e 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -13,13 +13,7 @@ import (
 // Lowercase letters match both upper and lowercase letters, where uppercase
 // matches only uppercase letters.
 func Match(s string, search string) bool {
-	slen := len(s)
-	searchLen := len(search)
-
-	if searchLen > slen {
-		return false
-	}
-	if searchLen == slen && s == search {
+	if s == search {
 		return true
 	}
 
@@ -28,7 +22,9 @@ Search:
 	for _, searchChar := range search {
 		for i, char := range s {
 			if searchChar == char || searchChar == unicode.ToLower(char) {
-				s = s[utf8.RuneLen(char)+i:]
+				// RuneLen(char) is not what an invalid byte occupies
+				_, width := utf8.DecodeRuneInString(s[i:])
+				s = s[i+width:]
 				continue Search
 			}
 		}
-- 
2.43.0


From 6d16ba204aee3ce25f6cc98e2b704ee58f986030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 14/41] fix: RenameDuplicates really renames, and never to a
 name it has just given

---
 blobformat/blobs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..5fae38f 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -69,10 +69,11 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 			_, ok = names[name]
 		}
 
+		names[name] = struct{}{}
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-		b.Set(uuid, KeyName, name)
+		b.DB.Set(uuid, KeyName, name)
 	}
 
 	return renames, nil
-- 
2.43.0


From fd4bbe79e1d4529dad5e453cba27966447b6d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 15/41] fix: DeleteKey refuses the key material of users

---
 blobformat/blobs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 5fae38f..437d871 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -373,7 +373,7 @@ func (b Blobs) Set(uuid, key, value string) error {
 // DeleteKey from an entry, follows the rules of Set() for protected keys.
 func (b Blobs) DeleteKey(uuid, key string) error {
 	switch key {
-	case KeyName, KeyUpdated:
+	case KeyName, KeyUpdated, KeyIV, KeySalt, KeyMKey:
 		return keyNotAllowed(key)
 	}
 
-- 
2.43.0


From 3e43166996a91cb62c4c61534d99cd28954eb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 16/41] fix: RemoveLabel keeps the other labels and refuses
 negative positions

---
 blobformat/blobs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 437d871..7a65960 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -442,17 +442,18 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 	}
 
 	labels := strings.Split(entry[KeyLabels], ",")
-	if index >= len(labels) {
+	if index < 0 || index >= len(labels) {
 		return errors.New("index out of range")
 	}
 
 	if len(labels) == 1 {
+		b.touchUpdated(uuid)
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
-- 
2.43.0


From 6bb1069b4cb52a44bce5a1260840b65ce4630c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 17/41] fix: SearchLabels counts each wanted label at most once

---
 blobformat/blobs.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 7a65960..c4d2d2d 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -162,9 +162,7 @@ func (b Blobs) SearchLabels(labels ...string) (entries SearchResults, err error)
 				}
 
 				found++
-				if found == len(labels) {
-					break
-				}
+				break
 			}
 		}
 
-- 
2.43.0


From 674f7400a568bb48b713c1e3cc9adce688171b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 18/41] fix: only names that begin with the user prefix are
 user names

---
 blobformat/blobs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c4d2d2d..327d73c 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -494,12 +494,11 @@ func IsUserEntry(name string) bool {
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !IsUserEntry(entryname) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From 7f1f4c0bf876b8e4cbd94bf271f96032e39db241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 19/41] fix: password generation no longer crashes on long or
 negative lengths or on blank input

---
 passwd_gen.go | 22 +++++++++++++++-------
 uihelpers.go  |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..1b6616c 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"crypto/rand"
+	"encoding/binary"
 	"errors"
 )
 
@@ -13,22 +14,29 @@ var (
 	alphabetExtraSymbols = `()_+-=<>,.{}[]\|?/~"\'` + "`"
 )
 
+// maxPasswordLength is far more than is useful, and keeps a mistyped length
+// from exhausting the memory.
+const maxPasswordLength = 1 << 20
+
 var (
 	errPasswordImpossible = errors.New("password cannot be generated")
 )
 
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
+	if length < 0 || length > maxPasswordLength {
+		return "", errPasswordImpossible
+	}
+
 	needLen := 0
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
+		if i > length-needLen {
+			return "", errPasswordImpossible
+		}
 		if i > 0 {
 			needLen += i
 		}
 	}
 
-	if needLen > length {
-		return "", errPasswordImpossible
-	}
-
 	randomPicks := length - needLen
 
 	// offset is the offset in the password
@@ -36,7 +44,7 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 	// eOffset is the entropy offset
 	eOffset := 0
 	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
+	entropy := make([]byte, needLen+(randomPicks*2)+(length*4))
 	n, err := rand.Read(entropy)
 	if err != nil {
 		return "", err
@@ -92,9 +100,9 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	for i := 0; i < length; i++ {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
+		swap := int(binary.LittleEndian.Uint32(entropy[eOffset:]) % uint32(length))
 		password[i], password[swap] = password[swap], password[i]
-		eOffset++
+		eOffset += 4
 	}
 
 	return string(password), nil
diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..9478d4c 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -264,7 +264,7 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
-		case choice == "":
+		case len(splits) == 0:
 			// Just regen
 		case choice == "y":
 			return password, nil
-- 
2.43.0


From 48e1f372fdde5dac4335289f542b58e735b7f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 20/41] fix: decrypting short, truncated or corrupted files
 returns an error instead of crashing

---
 crypt/crypto.go    |  6 +++++-
 crypt/crypto_v1.go | 27 ++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..517dfaa 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..fe358bc 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -215,6 +215,9 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 	}
 
 	nUsers = int(i)
+	if nUsers < 0 {
+		return p, nil, ErrInvalidFileFormat
+	}
 	if nUsers != 0 && len(user) == 0 {
 		return p, nil, ErrNeedUser
 	}
@@ -231,6 +234,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		return p, nil, err
 	}
 
+	if len(encrypted) < magicLen+c.saltSize+c.blockSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	// Pull salt out and derive key
 	newSalt := encrypted[magicLen : magicLen+c.saltSize]
 	doDerive := !bytes.Equal(salt, newSalt)
@@ -266,6 +273,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -276,6 +287,9 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -310,6 +324,11 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	p.NUsers = nUsers
 	p.User = -1
 
+	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(encrypted) < magicLen+userSize*nUsers+c.blockSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	s := sha256.Sum256(user)
 	userHash := s[:]
 
@@ -418,6 +437,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -428,7 +451,9 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		}
 	}
 
-	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
-- 
2.43.0


From c5f8e9bbc21bcf1f7fad4296ab94825a138fb23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:07 +0000
Subject: [PATCH 21/41] fix: a cached key of the wrong size is not used to
 decrypt

---
 crypt/crypto_v1.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index fe358bc..13fdc3e 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -242,7 +242,7 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 	newSalt := encrypted[magicLen : magicLen+c.saltSize]
 	doDerive := !bytes.Equal(salt, newSalt)
 
-	if key == nil || doDerive {
+	if len(key) != c.keySize || doDerive {
 		if len(passphrase) == 0 {
 			return p, nil, ErrWrongPassphrase
 		}
@@ -374,7 +374,7 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	copy(p.IVM, plaintextHeader[:c.blockSize])
 	plaintextHeader = plaintextHeader[c.blockSize:]
 
-	if len(key) == 0 || !bytes.Equal(salt, p.Salts[p.User]) {
+	if len(key) != c.keySize || !bytes.Equal(salt, p.Salts[p.User]) {
 		if len(passphrase) == 0 {
 			return p, nil, ErrWrongPassphrase
 		}
-- 
2.43.0


From eaecebc247edf227a825f58035c28ed7393bf6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 22/41] fix: decrypting as a user that is not in the file fails
 instead of trying the first user

---
 crypt/crypto_v1.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 13fdc3e..b326949 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -358,16 +358,15 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 
 	if p.User < 0 {
 		// Here we could return ErrUnknownUser, but this is bad
-		// for security, lets just create some 0 bytes for the headers etc
-		// and let the cryptography fail.
-		p.Keys = append(p.Keys, nil)
-		p.Salts = append(p.Salts, make([]byte, c.saltSize))
-		p.IVs = append(p.IVs, make([]byte, c.blockSize))
-		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
-		p.NUsers++
+		// for security, so take the same time as for a known user and fail
+		// in the same way.
+		if len(passphrase) != 0 {
+			if _, err = c.keygen(c, passphrase, make([]byte, c.saltSize)); err != nil {
+				return p, nil, err
+			}
+		}
 
-		//return p, nil, ErrUnknownUser
+		return p, nil, ErrWrongPassphrase
 	}
 
 	p.IVM = make([]byte, c.blockSize)
-- 
2.43.0


From 43a77275cc0cfda9de0ddfa80ddd0b13bc66df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 23/41] fix: encrypting for many users without a master key, or
 for an impossible number of users, is an error

---
 crypt/crypto.go    | 1 +
 crypt/crypto_v1.go | 4 ++++
 crypt/params.go    | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index 517dfaa..7d328c1 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -33,6 +33,7 @@ const (
 	magicStr = "blobpass"
 
 	maxVersion = 9999
+	maxUsers   = 9999
 )
 
 // v0Header is a special case
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index b326949..1c15f55 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -97,6 +97,10 @@ func encryptV1Single(c config, p *Params, plaintext []byte) (encrypted []byte, e
 }
 
 func encryptV1Multi(c config, p *Params, plaintext []byte) (encrypted []byte, err error) {
+	if len(p.Master) != c.keySize || len(p.IVM) != c.blockSize {
+		return nil, ErrNeedFullRekey
+	}
+
 	cipherSuite, err := cipherSuite(c)
 	if err != nil {
 		return nil, err
diff --git a/crypt/params.go b/crypt/params.go
index d544ce7..4d075bd 100644
--- a/crypt/params.go
+++ b/crypt/params.go
@@ -73,6 +73,10 @@ func (p Params) validate(c config) error {
 		return nil
 	}
 
+	if p.NUsers < 0 || p.NUsers > maxUsers {
+		return fmt.Errorf("nusers must be between 0 and %d", maxUsers)
+	}
+
 	if len(p.Keys) != p.NUsers {
 		return errors.New("each user must have a key")
 	}
-- 
2.43.0


From 7b000b4e41d74bf6c7298df2a03d9869cd7a42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 24/41] fix: a negative file length from the remote is an error
 instead of a crash

---
 scpsync/scpsync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..ac15afc 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -262,6 +262,10 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
 	}
 
+	if length < 0 {
+		return file, fmt.Errorf("file length must not be negative: %d", length)
+	}
+
 	// Acknowledge we've received the initial header
 	if err = sendOKResponse(stream); err != nil {
 		return file, err
-- 
2.43.0


From 8df86e70dee3e3e5f232a3f5b70c5fc7da03f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 25/41] fix: malformed known host lines are refused instead of
 crashing

---
 sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync.go b/sync.go
index 706fd9b..aac8ead 100644
--- a/sync.go
+++ b/sync.go
@@ -432,6 +432,10 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 			continue
 		}
 
+		if len(vals) != 4 {
+			return errors.New("known host's line is malformed, cannot verify its key")
+		}
+
 		// Same host, double check key is same
 		if vals[2] != keyType {
 			return errors.New("known host's key type has changed, could be a mitm attack")
-- 
2.43.0


From 4a6468dc37e6db3d3871f41243102127561cae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 26/41] fix: sync urls without a path are an error instead of a
 crash

---
 sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index aac8ead..ce59a1e 100644
--- a/sync.go
+++ b/sync.go
@@ -377,7 +377,7 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From 85145abbbd4e0eb044f44aefe2309fb556848ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 27/41] fix: passwd and rekey change the named user's entry and
 no other, and ignore unknown users

---
 commands.go | 85 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/commands.go b/commands.go
index b5b025b..42c10bf 100644
--- a/commands.go
+++ b/commands.go
@@ -49,6 +49,17 @@ const (
 )
 
 func (u *uiContext) passwd(user string) error {
+	if len(user) == 0 {
+		user = u.user
+	}
+	uuid, err := u.findUserEntry(user)
+	if err != nil {
+		return err
+	}
+	if len(uuid) == 0 && len(user) != 0 {
+		return nil
+	}
+
 	pass, err := u.getPassword()
 	if err != nil {
 		return err
@@ -64,20 +75,8 @@ func (u *uiContext) passwd(user string) error {
 		return err
 	}
 
-	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
-		u.pass = pass
-		u.key = key
-		u.salt = salt
-	}
-
 	// We have to update the user entry if it's a multi-user file
 	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
-		if err != nil {
-			return err
-		}
-
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
@@ -88,6 +87,13 @@ func (u *uiContext) passwd(user string) error {
 		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
 	}
 
+	// Update our "fast-path" credentials if we're re-doing the current user
+	if u.user == user {
+		u.pass = pass
+		u.key = key
+		u.salt = salt
+	}
+
 	infoColor.Println("passphrase updated, bits will be re-encrypted with it on exit")
 	return nil
 }
@@ -143,10 +149,20 @@ func (u *uiContext) adduser(user string) error {
 }
 
 func (u *uiContext) rekey(user string) error {
-	isCurrentUser := len(user) == 0
+	if len(user) == 0 {
+		user = u.user
+	}
+	isCurrentUser := user == u.user
+
+	uuid, err := u.findUserEntry(user)
+	if err != nil {
+		return err
+	}
+	if len(uuid) == 0 && len(user) != 0 {
+		return nil
+	}
 
 	var pass string
-	var err error
 	if isCurrentUser {
 		pass = u.pass
 	} else {
@@ -167,25 +183,8 @@ func (u *uiContext) rekey(user string) error {
 		return err
 	}
 
-	if isCurrentUser {
-		// Update fast-path credentials
-		u.pass = pass
-		u.key = key
-		u.salt = salt
-	}
-
 	if len(u.master) != 0 {
 		// If we're multi-user we need to update the corresponding user entry
-		username := u.user
-		if len(user) != 0 {
-			username = user
-		}
-
-		uuid, _, err := u.store.MustFindUser(username)
-		if err != nil {
-			return err
-		}
-
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
@@ -196,10 +195,34 @@ func (u *uiContext) rekey(user string) error {
 		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
 	}
 
+	if isCurrentUser {
+		// Update fast-path credentials
+		u.pass = pass
+		u.key = key
+		u.salt = salt
+	}
+
 	infoColor.Println("key updated, bits will be re-encrypted with it on exit")
 	return nil
 }
 
+// findUserEntry finds the entry of a user in a multi-user file. It tells the
+// user and returns an empty uuid if there is no such entry, a single-user file
+// has none.
+func (u *uiContext) findUserEntry(user string) (uuid string, err error) {
+	if len(u.master) != 0 {
+		if uuid, _, err = u.store.FindUser(user); err != nil {
+			return "", err
+		}
+	}
+
+	if len(uuid) == 0 && (len(u.master) != 0 || len(user) != 0) {
+		errColor.Printf("could not find user: %q\n", user)
+	}
+
+	return uuid, nil
+}
+
 var rekeyAllBlurb = `WARNING: This will change ALL user's passwords and print new
 ones to the screen. No one will be able to access the file with the old
 passwords again after this operation.
-- 
2.43.0


From d2421233d304287c1f81126266c51a0299d69a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 28/41] fix: rekeyall wraps the new master key, for all users
 or for none

---
 commands.go | 57 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/commands.go b/commands.go
index 42c10bf..57adb82 100644
--- a/commands.go
+++ b/commands.go
@@ -262,38 +262,51 @@ func (u *uiContext) rekeyAll() error {
 		}
 	}
 
-	for uuid, name := range users {
-		username := blobformat.SplitUsername(name)
+	ownPass, ownKey, ownSalt := u.pass, u.key, u.salt
+	passwords := make(map[string]string)
 
-		pass, err := genPassword(32, 0, 0, 0, 0, 0)
-		if err != nil {
-			return err
-		}
+	err = u.store.Do(func() error {
+		for uuid, name := range users {
+			username := blobformat.SplitUsername(name)
 
-		key, salt, err := crypt.DeriveKey(cryptVersion, []byte(pass))
-		if err != nil {
-			return err
-		}
+			pass, err := genPassword(32, 0, 0, 0, 0, 0)
+			if err != nil {
+				return err
+			}
 
-		if username == u.user {
-			// Keep these up to date!
-			u.pass = pass
-			u.key = key
-			u.salt = salt
-		}
+			key, salt, err := crypt.DeriveKey(cryptVersion, []byte(pass))
+			if err != nil {
+				return err
+			}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
-		if err != nil {
-			return err
+			if username == u.user {
+				// Keep these up to date!
+				ownPass, ownKey, ownSalt = pass, key, salt
+			}
+
+			mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
+			if err != nil {
+				return err
+			}
+
+			u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
+			u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
+			u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
+
+			passwords[username] = pass
 		}
 
-		u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
-		u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
-		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
+		return nil
+	})
+	if err != nil {
+		return err
+	}
 
+	for username, pass := range passwords {
 		infoColor.Printf("%*s %s\n", width, username+":", pass)
 	}
 
+	u.pass, u.key, u.salt = ownPass, ownKey, ownSalt
 	u.master = master
 	u.ivm = ivm
 
-- 
2.43.0


From 14f93dcbd4955c051d3d9c301e59cc0ca434dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 29/41] fix: adding a user either adds a complete user entry or
 nothing

---
 commands.go | 64 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/commands.go b/commands.go
index 57adb82..84e221f 100644
--- a/commands.go
+++ b/commands.go
@@ -99,47 +99,61 @@ func (u *uiContext) passwd(user string) error {
 }
 
 func (u *uiContext) adduser(user string) error {
-	uuid, err := u.store.NewUser(user)
-	if err == blobformat.ErrNameNotUnique {
-		errColor.Println("user already exists")
+	if len(user) == 0 {
+		errColor.Println("user name must not be empty")
 		return nil
-	} else if err != nil {
-		return err
 	}
 
-	var key, salt []byte
+	var err error
 	var pass string
-	if len(u.master) == 0 {
-		u.master, u.ivm, err = crypt.NewMasterKey(cryptVersion)
-		if err != nil {
-			return nil
-		}
+	key, salt := u.key, u.salt
+	master, ivm := u.master, u.ivm
+	first := len(u.master) == 0
 
-		u.user = user
-		key = u.key
-		salt = u.salt
-	} else {
-		pass, err = u.getPassword()
+	err = u.store.Do(func() error {
+		uuid, err := u.store.NewUser(user)
 		if err != nil {
 			return err
 		}
 
-		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
+		if first {
+			master, ivm, err = crypt.NewMasterKey(cryptVersion)
+			if err != nil {
+				return err
+			}
+		} else {
+			pass, err = u.getPassword()
+			if err != nil {
+				return err
+			}
+
+			key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
+			if err != nil {
+				return err
+			}
+		}
+
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-	}
 
-	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
-	if err != nil {
+		u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
+		u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
+		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
+
+		return nil
+	})
+	if err == blobformat.ErrNameNotUnique {
+		errColor.Println("user already exists")
+		return nil
+	} else if err != nil {
 		return err
 	}
 
-	u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
-	u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
-	u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
-
-	if len(pass) == 0 {
+	if first {
+		u.master, u.ivm = master, ivm
+		u.user = user
 		infoColor.Printf("re-used your key to create first user: %s\n", user)
 	} else {
 		infoColor.Printf("added user %s\npass: %s\n", user, pass)
-- 
2.43.0


From 7f4da6a4dcbf0e67935cc38cabcba140332d22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 30/41] fix: the passphrase of a new file is remembered like
 that of an opened one

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 1bf94b4..4a9ed07 100644
--- a/main.go
+++ b/main.go
@@ -180,6 +180,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From 7b402f1673e16ac4840c9a6910ac0bbb71249cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 31/41] fix: adding a user with an empty password is refused,
 nobody could log in with it

---
 commands.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/commands.go b/commands.go
index 84e221f..cbf9e48 100644
--- a/commands.go
+++ b/commands.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"encoding/pem"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -98,6 +99,8 @@ func (u *uiContext) passwd(user string) error {
 	return nil
 }
 
+var errEmptyPassword = errors.New("password is empty")
+
 func (u *uiContext) adduser(user string) error {
 	if len(user) == 0 {
 		errColor.Println("user name must not be empty")
@@ -127,6 +130,10 @@ func (u *uiContext) adduser(user string) error {
 				return err
 			}
 
+			if len(pass) == 0 {
+				return errEmptyPassword
+			}
+
 			key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 			if err != nil {
 				return err
@@ -147,6 +154,9 @@ func (u *uiContext) adduser(user string) error {
 	if err == blobformat.ErrNameNotUnique {
 		errColor.Println("user already exists")
 		return nil
+	} else if err == errEmptyPassword {
+		errColor.Println("refusing to use empty password")
+		return nil
 	} else if err != nil {
 		return err
 	}
-- 
2.43.0


From 33b0d680bf47c2f04a46ecc6488853d97beb9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 32/41] fix: with several remotes each one is compared to the
 credentials merged so far

---
 merging.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/merging.go b/merging.go
index e0f8845..9db4cff 100644
--- a/merging.go
+++ b/merging.go
@@ -77,8 +77,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			return m, err
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
@@ -96,7 +96,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
 			// We have to instantiate the merged blob and check user counts
 			db := &txlogs.DB{Log: merged}
@@ -106,20 +106,20 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, err
 			}
 
-			if len(users) == 0 && len(u.master) != 0 {
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) {
 			// There's been a master change in a multi multi
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
-- 
2.43.0


From 74452c212d1ecfdd483a3bc1afc647b0ba205f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 33/41] fix: users missing from the remote are looked up in the
 remote's log

---
 merging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merging.go b/merging.go
index 9db4cff..bace1d6 100644
--- a/merging.go
+++ b/merging.go
@@ -124,7 +124,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
 			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
 			userUUID, localUser, err := localStore.FindUser(m.User)
 			if err != nil {
 				return m, err
-- 
2.43.0


From 91be2c5bff035cc69bcb3f0cda99e57d0bad0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 34/41] fix: merging credentials no longer crashes on empty
 logs

---
 merging.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/merging.go b/merging.go
index bace1d6..4d05ca7 100644
--- a/merging.go
+++ b/merging.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/aarondl/bpass/blobformat"
@@ -83,8 +84,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
 				// to see which credential set we should keep.
-				lastTimeLocal := m.Log[len(m.Log)-1].Time
-				lastTimeRemote := r.Log[len(r.Log)-1].Time
+				lastTimeLocal := lastTime(m.Log)
+				lastTimeRemote := lastTime(r.Log)
 
 				if lastTimeLocal < lastTimeRemote {
 					takeRemoteCreds = true
@@ -202,6 +203,15 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	return m, nil
 }
 
+// lastTime is the time of the last change, or the earliest possible time if
+// nothing ever changed.
+func lastTime(log []txlogs.Tx) int64 {
+	if len(log) == 0 {
+		return math.MinInt64
+	}
+	return log[len(log)-1].Time
+}
+
 var syncNoCommonAncestryWarning = `WARNING: There is no common ancestry between
 the local and the remote file. What this probably means is that the wrong
 file is in the sync location, and proceeding would mean that both files become
-- 
2.43.0


From acabe6777596d325d4edca1ad39e4a052cb0422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 35/41] fix: sync takes a remote for unchanged only if its
 whole log is the same

---
 sync.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index ce59a1e..be31501 100644
--- a/sync.go
+++ b/sync.go
@@ -18,6 +18,7 @@ import (
 	"github.com/aarondl/bpass/txlogs"
 
 	"golang.org/x/crypto/ssh"
+	"golang.org/x/exp/slices"
 )
 
 type credentials struct {
@@ -116,9 +117,7 @@ Syncs:
 			continue
 		}
 
-		if len(log) == len(u.store.DB.Log) &&
-			log[0].Time == u.store.DB.Log[0].Time &&
-			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
+		if slices.Equal(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			syncs[i] = ""
 			continue
-- 
2.43.0


From ddba219abb0e27f032be018ae3c3a9cc72349655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 36/41] fix: sync does not push to a location that it has not
 pulled from

---
 sync.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sync.go b/sync.go
index be31501..7ec2002 100644
--- a/sync.go
+++ b/sync.go
@@ -67,6 +67,7 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	pulled := make(map[string]string, len(syncs))
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
@@ -75,6 +76,7 @@ Syncs:
 		name, _ := entry[blobformat.KeyName]
 
 		infoColor.Println("pull:", name)
+		pulled[uuid] = entry[blobformat.KeyURL]
 
 		ct, hostentry, err := pullBlob(u, uuid)
 
@@ -182,6 +184,13 @@ Syncs:
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
 
+		if entry[blobformat.KeyURL] != pulled[uuid] {
+			// Merging changed where this remote is, whatever is there
+			// has not been merged yet.
+			infoColor.Printf("skip: %s (url changed, sync again)\n", name)
+			continue
+		}
+
 		infoColor.Println("push:", name)
 
 		hostentry, err := pushBlob(u, uuid, ct)
-- 
2.43.0


From 894a05b0057f6ca90202f433f1beb93886f849f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 37/41] fix: syncing with an entry whose url is broken or of an
 unknown kind is an error

---
 sync.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 7ec2002..3abc143 100644
--- a/sync.go
+++ b/sync.go
@@ -271,8 +271,10 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 // pullBlob tries to download a file from the given sync entry
 func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	// We know this parses because we parsed it once before
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return nil, "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
@@ -286,6 +288,8 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 		if os.IsNotExist(err) {
 			return nil, "", errNotFound
 		}
+	default:
+		err = fmt.Errorf("unknown kind of sync: %q", uri.Scheme)
 	}
 
 	if err != nil {
@@ -298,7 +302,10 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 // pushBlob uploads a file to a given sync entry
 func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
-- 
2.43.0


From 4e61c0a0e8ac553f05faba050b63e6dde63c1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 38/41] fix: importing does not turn the heading into an entry

---
 import.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import.go b/import.go
index ef60100..d69e89f 100644
--- a/import.go
+++ b/import.go
@@ -51,6 +51,7 @@ func importLastpass(u *uiContext) error {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
+			continue
 		}
 
 		// Fields:
-- 
2.43.0


From 04a1e038d271143c4f4d71c6e450500abb3f6201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 39/41] fix: exports contain the latest changes

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 385f189..a41144a 100644
--- a/export.go
+++ b/export.go
@@ -11,6 +11,10 @@ import (
 )
 
 func export(u *uiContext) error {
+	if err := u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	var entries []string
 	keysSet := make(map[string]struct{})
 
-- 
2.43.0


From afbb6c4e586eac2fee68686d8a6539d558877402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 40/41] fix: exported files are readable by their owner only

---
 export.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index a41144a..2e701a9 100644
--- a/export.go
+++ b/export.go
@@ -33,11 +33,16 @@ func export(u *uiContext) error {
 		return errors.New("only supported format for export is csv")
 	}
 
-	f, err := os.Create(flagExportFilename)
+	f, err := os.OpenFile(flagExportFilename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
 	defer f.Close()
+
+	// The file may have existed with other permissions
+	if err = f.Chmod(0600); err != nil {
+		return fmt.Errorf("failed to protect file (%s): %w", flagExportFilename, err)
+	}
 	out := csv.NewWriter(f)
 
 	out.Write(keys)
-- 
2.43.0


From f939578ab3b960bd171ab830e8e8d3a87510c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 41/41] fix: saving replaces the file in one step instead of
 truncating and rewriting it

---
 main.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 4a9ed07..2637df9 100644
--- a/main.go
+++ b/main.go
@@ -270,7 +270,41 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFileAtomic(flagFile, data)
+}
+
+// writeFileAtomic replaces the content of a file in a single step, so that at
+// every moment the file has either its old or its new content.
+func writeFileAtomic(filename string, data []byte) (err error) {
+	// Replace what a symlink points to, not the symlink
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+
+	// Temporary files are created readable by their owner only
+	f, err := ioutil.TempFile(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = os.Remove(f.Name())
+		}
+	}()
+
+	if _, err = f.Write(data); err != nil {
+		_ = f.Close()
+		return err
+	}
+	if err = f.Sync(); err != nil {
+		_ = f.Close()
+		return err
+	}
+	if err = f.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(f.Name(), filename)
 }
 
 func shortPath(filename string) string {
-- 
2.43.0

