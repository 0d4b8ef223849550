# Names, protected fields, labels.

package blobformat

def whole(s *txlogs.DB) Abs := state_at(s, len(s.Log))
def good(s *txlogs.DB) bool := dbinv(s) && ok_at(s, len(s.Log)) && named(s)
def named(s *txlogs.DB) bool := forall(u, string, has(whole(s), u) ==> has(whole(s)[u], "name"))

ufn EqualFold(a string, b string) bool

unit (Blobs).touchUpdated
props C12, C13
nopanic
requires b.DB != nil && dbinv(b.DB)
modifies *b.DB, elems(b.DB.Log)
ensures len(b.DB.Log) == old(len(b.DB.Log)) + 1
ensures forall(i, int, i >= 0 && i < old(len(b.DB.Log)) ==> b.DB.Log[i] == old(b.DB.Log[i]))
ensures stamp: b.DB.Log[len(b.DB.Log)-1].Kind == "setk" && b.DB.Log[len(b.DB.Log)-1].UUID == uuid && b.DB.Log[len(b.DB.Log)-1].Key == "updated"
ensures b.DB.Version == old(b.DB.Version) && ref(b.DB.Snapshot) == old(ref(b.DB.Snapshot)) && b.DB.txPoint == old(b.DB.txPoint)
ensures arr: ref(b.DB.Log) == old(ref(b.DB.Log)) || fresh(b.DB.Log)
ensures inv: dbinv(b.DB)

unit (Blobs).Set
props C12
nopanic
requires b.DB != nil && dbinv(b.DB)
modifies *b.DB, elems(b.DB.Log)
ensures refuses: EqualFold(key, "totp") || EqualFold(key, "name") || EqualFold(key, "iv") || EqualFold(key, "salt") || EqualFold(key, "mkey") || EqualFold(key, "updated") ==> result != nil
ensures accepts: !(EqualFold(key, "totp") || EqualFold(key, "name") || EqualFold(key, "iv") || EqualFold(key, "salt") || EqualFold(key, "mkey") || EqualFold(key, "updated")) ==> result == nil
ensures untouched: result != nil ==> b.DB.Log == old(b.DB.Log)
ensures two: result == nil ==> len(b.DB.Log) == old(len(b.DB.Log)) + 2
ensures prefix: forall(i, int, i >= 0 && i < old(len(b.DB.Log)) ==> b.DB.Log[i] == old(b.DB.Log[i]))
ensures stamp: result == nil ==> b.DB.Log[old(len(b.DB.Log))].Kind == "setk" && b.DB.Log[old(len(b.DB.Log))].UUID == uuid && b.DB.Log[old(len(b.DB.Log))].Key == "updated"
ensures change: result == nil ==> b.DB.Log[old(len(b.DB.Log))+1].Kind == "setk" && b.DB.Log[old(len(b.DB.Log))+1].UUID == uuid && b.DB.Log[old(len(b.DB.Log))+1].Key == key && b.DB.Log[old(len(b.DB.Log))+1].Value == value
ensures arr: ref(b.DB.Log) == old(ref(b.DB.Log)) || fresh(b.DB.Log)
ensures inv: dbinv(b.DB)

unit (Blobs).DeleteKey
props C12
nopanic
requires b.DB != nil && dbinv(b.DB)
modifies *b.DB, elems(b.DB.Log)
ensures refuses: key == "name" || key == "iv" || key == "salt" || key == "mkey" || key == "updated" ==> result != nil
ensures untouched: result != nil ==> b.DB.Log == old(b.DB.Log)
ensures two: result == nil ==> len(b.DB.Log) == old(len(b.DB.Log)) + 2
ensures prefix: forall(i, int, i >= 0 && i < old(len(b.DB.Log)) ==> b.DB.Log[i] == old(b.DB.Log[i]))
ensures stamp: result == nil ==> b.DB.Log[old(len(b.DB.Log))].Kind == "setk" && b.DB.Log[old(len(b.DB.Log))].UUID == uuid && b.DB.Log[old(len(b.DB.Log))].Key == "updated"
ensures change: result == nil ==> b.DB.Log[old(len(b.DB.Log))+1].Kind == "delk" && b.DB.Log[old(len(b.DB.Log))+1].UUID == uuid && b.DB.Log[old(len(b.DB.Log))+1].Key == key
ensures arr: ref(b.DB.Log) == old(ref(b.DB.Log)) || fresh(b.DB.Log)
ensures inv: dbinv(b.DB)

def taken(s *txlogs.DB, name string) bool := exists(u, string, has(whole(s), u) && whole(s)[u]["name"] == name)

unit (Blob).Name
props C12
panics !has(b, "name")
ensures result == b["name"]

unit (Blobs).New
props C12
nopanic
requires b.DB != nil && dbinv(b.DB) && named(b.DB)
modifies *b.DB, elems(b.DB.Log), content(b.DB.Snapshot), anymap(txlogs.Entry)
ensures unique: old(ok_at(b.DB, len(b.DB.Log)) && taken(b.DB, name)) ==> err != nil
ensures untouched: err != nil ==> len(b.DB.Log) == old(len(b.DB.Log))
ensures prefix: forall(i, int, i >= 0 && i < old(len(b.DB.Log)) ==> b.DB.Log[i] == old(b.DB.Log[i]))
ensures created: err == nil ==> len(b.DB.Log) == old(len(b.DB.Log)) + 3 && b.DB.Log[old(len(b.DB.Log))].Kind == "add" && b.DB.Log[old(len(b.DB.Log))].UUID == uuid
ensures stamp: err == nil ==> b.DB.Log[old(len(b.DB.Log))+1].Kind == "setk" && b.DB.Log[old(len(b.DB.Log))+1].UUID == uuid && b.DB.Log[old(len(b.DB.Log))+1].Key == "updated"
ensures name: err == nil ==> b.DB.Log[old(len(b.DB.Log))+2].Kind == "setk" && b.DB.Log[old(len(b.DB.Log))+2].UUID == uuid && b.DB.Log[old(len(b.DB.Log))+2].Key == "name" && b.DB.Log[old(len(b.DB.Log))+2].Value == name
ensures arr: ref(b.DB.Log) == old(ref(b.DB.Log)) || fresh(b.DB.Log)
ensures inv: dbinv(b.DB)
inv forall(u, string, seen(u) ==> b.DB.Snapshot[u]["name"] != name)

unit (Blobs).Rename
props C12
nopanic
requires b.DB != nil && dbinv(b.DB) && named(b.DB)
modifies *b.DB, elems(b.DB.Log), content(b.DB.Snapshot), anymap(txlogs.Entry)
ensures unique: old(ok_at(b.DB, len(b.DB.Log)) && taken(b.DB, newName)) ==> result != nil
ensures missing: old(ok_at(b.DB, len(b.DB.Log)) && !has(whole(b.DB), uuid)) ==> result != nil
ensures untouched: result != nil ==> len(b.DB.Log) == old(len(b.DB.Log))
ensures prefix: forall(i, int, i >= 0 && i < old(len(b.DB.Log)) ==> b.DB.Log[i] == old(b.DB.Log[i]))
ensures two: result == nil ==> len(b.DB.Log) == old(len(b.DB.Log)) + 2
ensures stamp: result == nil ==> b.DB.Log[old(len(b.DB.Log))].Kind == "setk" && b.DB.Log[old(len(b.DB.Log))].UUID == uuid && b.DB.Log[old(len(b.DB.Log))].Key == "updated"
ensures name: result == nil ==> b.DB.Log[old(len(b.DB.Log))+1].Kind == "setk" && b.DB.Log[old(len(b.DB.Log))+1].UUID == uuid && b.DB.Log[old(len(b.DB.Log))+1].Key == "name" && b.DB.Log[old(len(b.DB.Log))+1].Value == newName
ensures arr: ref(b.DB.Log) == old(ref(b.DB.Log)) || fresh(b.DB.Log)
ensures inv: dbinv(b.DB)
inv forall(u, string, seen(u) ==> b.DB.Snapshot[u]["name"] != newName)

# ---- labels; strings.Split and strings.Join are trusted: Split yields the pieces, Join of them is the original ----

ufn splitn(s string, sep string) int
ufn splitat(s string, sep string, i int) string

axiom split_some(s string, sep string): len(sep) > 0 ==> splitn(s, sep) >= 1
trigger splitn(s, sep)

extern strings.Split (s, sep) (r)
ensures len(r) == splitn(s, sep)
ensures len(sep) > 0 ==> len(r) >= 1
ensures forall(i, int, i >= 0 && i < len(r) ==> r[i] == splitat(s, sep, i))
ensures fresh(r) && off(r) == 0

rec joined(A arr(string), o int, n int, sep string) string := ite(n <= 0, "", ite(n == 1, A[o], joined(A, o, n-1, sep) + sep + A[o+n-1]))

lemma joined_agree(A arr(string), o int, B arr(string), p int, n int, sep string): forall(i, int, i >= 0 && i < n ==> A[o+i] == B[p+i]) ==> joined(A, o, n, sep) == joined(B, p, n, sep)
induct n
trigger joined(A, o, n, sep), joined(B, p, n, sep)
props C13

extern strings.Join (a, sep) (r)
ensures r == joined(elems(a), off(a), len(a), sep)

# joining the pieces of a split gives the text back
axiom split_join(A arr(string), o int, s string, sep string): len(sep) > 0 && forall(i, int, i >= 0 && i < splitn(s, sep) ==> A[o+i] == splitat(s, sep, i)) ==> joined(A, o, splitn(s, sep), sep) == s
trigger joined(A, o, splitn(s, sep), sep)

def labels_of(s *txlogs.DB, u string) string := whole(s)[u]["labels"]

unit (Blobs).AddLabel
props C13
requires b.DB != nil && dbinv(b.DB) && ok_at(b.DB, len(b.DB.Log))
requires len(label) > 0
panics !has(whole(b.DB), uuid)
modifies *b.DB, elems(b.DB.Log), content(b.DB.Snapshot), anymap(txlogs.Entry)
ensures prefix: forall(i, int, i >= 0 && i < old(len(b.DB.Log)) ==> b.DB.Log[i] == old(b.DB.Log[i]))
ensures more: len(b.DB.Log) > old(len(b.DB.Log)) && err == nil
ensures onlystamps: forall(i, int, i >= old(len(b.DB.Log)) && i < len(b.DB.Log) - 1 ==> b.DB.Log[i].Kind == "setk" && b.DB.Log[i].UUID == uuid && b.DB.Log[i].Key == "updated")
ensures target: b.DB.Log[len(b.DB.Log)-1].Kind == "setk" && b.DB.Log[len(b.DB.Log)-1].UUID == uuid && b.DB.Log[len(b.DB.Log)-1].Key == "labels"
ensures first: old(len(labels_of(b.DB, uuid))) == 0 ==> b.DB.Log[len(b.DB.Log)-1].Value == label
ensures appended: old(len(labels_of(b.DB, uuid))) > 0 ==> b.DB.Log[len(b.DB.Log)-1].Value == old(labels_of(b.DB, uuid)) + "," + label

# what is left of the pieces when the one at position x is taken out
ufn without(s string, sep string, x int) string
axiom without_is(A arr(string), o int, s string, sep string, x int): x >= 0 && x < splitn(s, sep) && forall(i, int, i >= 0 && i < splitn(s, sep) - 1 ==> A[o+i] == ite(i < x, splitat(s, sep, i), splitat(s, sep, i+1))) ==> joined(A, o, splitn(s, sep) - 1, sep) == without(s, sep, x)
trigger joined(A, o, splitn(s, sep) - 1, sep), without(s, sep, x)

unit (Blobs).RemoveLabel
props C13
requires b.DB != nil && dbinv(b.DB) && ok_at(b.DB, len(b.DB.Log))
panics !has(whole(b.DB), uuid)
modifies *b.DB, elems(b.DB.Log), content(b.DB.Snapshot), anymap(txlogs.Entry)
ensures range: index < 0 || index >= splitn(old(labels_of(b.DB, uuid)), ",") ==> err != nil
ensures untouched: err != nil ==> b.DB.Log == old(b.DB.Log)
ensures prefix: forall(i, int, i >= 0 && i < old(len(b.DB.Log)) ==> b.DB.Log[i] == old(b.DB.Log[i]))
ensures onlystamps: err == nil ==> len(b.DB.Log) > old(len(b.DB.Log)) && forall(i, int, i >= old(len(b.DB.Log)) && i < len(b.DB.Log) - 1 ==> b.DB.Log[i].Kind == "setk" && b.DB.Log[i].UUID == uuid && b.DB.Log[i].Key == "updated")
ensures target: err == nil ==> b.DB.Log[len(b.DB.Log)-1].UUID == uuid && b.DB.Log[len(b.DB.Log)-1].Key == "labels"
ensures last: err == nil && splitn(old(labels_of(b.DB, uuid)), ",") == 1 ==> b.DB.Log[len(b.DB.Log)-1].Kind == "delk"
ensures rest: err == nil && splitn(old(labels_of(b.DB, uuid)), ",") > 1 ==> b.DB.Log[len(b.DB.Log)-1].Kind == "setk" && b.DB.Log[len(b.DB.Log)-1].Value == without(old(labels_of(b.DB, uuid)), ",", index)

def has_label(v string, w string) bool := len(v) > 0 && exists(i, int, i >= 0 && i < splitn(v, ",") && splitat(v, ",", i) == w)

unit (Blobs).allEntries
props C13, C14
nopanic
requires b.DB != nil && entries(b.DB.Snapshot) && named_all(b.DB.Snapshot)
ensures all: forall(u, string, has(entries, u) == has(b.DB.Snapshot, u))
ensures names: forall(u, string, has(entries, u) ==> entries[u] == b.DB.Snapshot[u]["name"])
ensures fresh: entries == nil || fresh(entries)
inv (m map[string]string): forall(u, string, has(m, u) == seen(u))
inv (m map[string]string): forall(u, string, has(m, u) ==> m[u] == b.DB.Snapshot[u]["name"])

unit (Blobs).SearchLabels
props C13
requires b.DB != nil && dbinv(b.DB) && named(b.DB)
modifies *b.DB, content(b.DB.Snapshot), anymap(txlogs.Entry)
nopanic
ensures log: b.DB.Log == old(b.DB.Log)
ensures only: err == nil ==> forall(u, string, has(entries, u) ==> old(has(whole(b.DB), u)) && entries[u] == old(whole(b.DB)[u]["name"]))
inv (m map[string]string): forall(u, string, has(m, u) ==> has(b.DB.Snapshot, u) && m[u] == b.DB.Snapshot[u]["name"])

# what a search for text finds: the pieces between slashes match the pieces of the name, place by place
def matches(name string, q string) bool := ite(splitn(q, "/") == 1, sub(name, 0, splitat(q, "/", 0), 0), splitn(name, "/") >= splitn(q, "/") && forall(i, int, i >= 0 && i < splitn(q, "/") ==> sub(splitat(name, "/", i), 0, splitat(q, "/", i), 0)))

unit (Blobs).Search
props C14
requires b.DB != nil && dbinv(b.DB) && named(b.DB)
modifies *b.DB, content(b.DB.Snapshot), anymap(txlogs.Entry)
nopanic
ensures log: b.DB.Log == old(b.DB.Log)
ensures only: err == nil ==> forall(u, string, has(entries, u) ==> old(has(whole(b.DB), u)) && entries[u] == old(whole(b.DB)[u]["name"]))
ensures everything: err == nil && len(search) == 0 ==> forall(u, string, old(has(whole(b.DB), u)) ==> has(entries, u))
ensures sound1: err == nil && len(search) > 0 && splitn(search, "/") == 1 ==> forall(u, string, has(entries, u) ==> sub(old(whole(b.DB)[u]["name"]), 0, splitat(search, "/", 0), 0))
ensures soundlen: err == nil && len(search) > 0 && splitn(search, "/") != 1 ==> forall(u, string, has(entries, u) ==> splitn(old(whole(b.DB)[u]["name"]), "/") >= splitn(search, "/"))
ensures soundparts: err == nil && len(search) > 0 && splitn(search, "/") != 1 ==> forall(u, string, i, int, has(entries, u) && i >= 0 && i < splitn(search, "/") ==> sub(splitat(old(whole(b.DB)[u]["name"]), "/", i), 0, splitat(search, "/", i), 0))
ensures complete: err == nil && len(search) > 0 ==> forall(u, string, old(has(whole(b.DB), u) && matches(whole(b.DB)[u]["name"], search)) ==> has(entries, u))
inv (m map[string]string): forall(u, string, has(m, u) ==> seen(u) && has(b.DB.Snapshot, u) && m[u] == b.DB.Snapshot[u]["name"])
inv (m map[string]string): splitn(search, "/") == 1 ==> forall(u, string, has(m, u) ==> sub(b.DB.Snapshot[u]["name"], 0, splitat(search, "/", 0), 0))
inv (m map[string]string): splitn(search, "/") != 1 ==> forall(u, string, has(m, u) ==> splitn(b.DB.Snapshot[u]["name"], "/") >= splitn(search, "/"))
inv (m map[string]string): splitn(search, "/") != 1 ==> forall(u, string, i, int, has(m, u) && i >= 0 && i < splitn(search, "/") ==> sub(splitat(b.DB.Snapshot[u]["name"], "/", i), 0, splitat(search, "/", i), 0))
inv (m map[string]string): forall(u, string, seen(u) && matches(b.DB.Snapshot[u]["name"], search) ==> has(m, u))
inv (name string, rangeindex int): forall(i, int, i >= 0 && i < rangeindex ==> sub(splitat(name, "/", i), 0, splitat(search, "/", i), 0))
