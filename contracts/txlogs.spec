# The transaction log and its cached snapshot.

package txlogs

sort Ent = mapval(string, string)
sort Abs = mapval(string, mapval(string, string))

# One transaction applied to an abstract state.
def step(m Abs, t Tx) Abs := ite(t.Kind == "add", put(m, t.UUID, emptymap(Ent)),
  ite(t.Kind == "del", del(m, t.UUID),
  ite(t.Kind == "setk", put(m, t.UUID, put(m[t.UUID], t.Key, t.Value)),
  ite(t.Kind == "delk", put(m, t.UUID, del(m[t.UUID], t.Key)), m))))
def applies(m Abs, t Tx) bool := ite(t.Kind == "add", !has(m, t.UUID), ite(t.Kind == "del" || t.Kind == "setk" || t.Kind == "delk", has(m, t.UUID), true))

# The first n transactions replayed from the empty store.
rec replay(A arr(Tx), o int, n int) Abs := ite(n <= 0, emptymap(Abs), step(replay(A, o, n-1), A[o+n-1]))
rec okay(A arr(Tx), o int, n int) bool := ite(n <= 0, true, okay(A, o, n-1) && applies(replay(A, o, n-1), A[o+n-1]))

lemma replay_agree(A arr(Tx), o int, B arr(Tx), p int, n int): forall(i, int, i >= 0 && i < n ==> A[o+i] == B[p+i]) ==> replay(A, o, n) == replay(B, p, n) && okay(A, o, n) == okay(B, p, n)
induct n
trigger replay(A, o, n), replay(B, p, n)
props C01, C02, C03

lemma okay_prefix(A arr(Tx), o int, n int, k int): okay(A, o, n) && k <= n ==> okay(A, o, k)
induct n
trigger okay(A, o, n), okay(A, o, k)
props C01, C02

lemma okay_step(A arr(Tx), o int, n int, k int): okay(A, o, n) && k >= 0 && k < n ==> applies(replay(A, o, k), A[o+k])
induct n
trigger okay(A, o, n), replay(A, o, k)
props C01, C02

# The Go map of maps represents the abstract state; no two entries share storage.
def rep_state(snap map[string]Entry, m Abs) bool := deep(snap) == m && entries(snap)
def entries(snap map[string]Entry) bool := forall(k, string, has(snap, k) ==> snap[k] != nil && allocated(snap[k]), trig(snap[k]))
  && forall(k, string, j, string, has(snap, k) && has(snap, j) && k != j ==> ref(snap[k]) != ref(snap[j]))

def logA(s *DB) arr(Tx) := elems(s.Log)
def state_at(s *DB, n int) Abs := replay(elems(s.Log), off(s.Log), n)
def ok_at(s *DB, n int) bool := okay(elems(s.Log), off(s.Log), n)
def dbinv(s *DB) bool := s.Version <= len(s.Log) && ok_at(s, s.Version) && rep_state(s.Snapshot, state_at(s, s.Version)) && s.txPoint >= 0 && s.txPoint <= len(s.Log) + 1

# l is the old log followed by exactly one more transaction
def same_prefix(a []Tx, b []Tx, n int) bool := forall(i, int, i >= 0 && i < n ==> a[i] == b[i])

def named_all(m map[string]Entry) bool := forall(u, string, has(m, u) ==> has(m[u], "name"))

unit applyTx
props C01, C02, C03
nopanic
requires dst != nil
requires entries(dst)
modifies content(dst), anymap(Entry)
ensures result: (err == nil) == applies(old(deep(dst)), tx)
ensures effect: err == nil ==> deep(dst) == step(old(deep(dst)), tx)
ensures entries: entries(dst)
ensures noeffect: err != nil ==> content(dst) == old(content(dst)) && forall(e, Entry, content(e) == old(content(e)))
ensures others: forall(e, Entry, old(allocated(e)) && !old(exists(k, string, has(dst, k) && ref(dst[k]) == ref(e))) ==> content(e) == old(content(e)))
ensures fresh_entries: forall(k, string, has(dst, k) ==> dst[k] != nil && (fresh(dst[k]) || exists(j, string, old(has(dst, j)) && ref(old(dst[j])) == ref(dst[k]))))

unit getEntry
inline

extern (github.com/gofrs/uuid.UUID).String (u) (r)
pure

# ---- operations that append one transaction ----

def appended1(s *DB, n int) bool := len(s.Log) == n + 1

unit (*DB).appendLog
props C01, C02
nopanic
requires dbinv(s)
modifies *s, elems(s.Log)
ensures len(s.Log) == old(len(s.Log)) + 1
ensures forall(i, int, i >= 0 && i < old(len(s.Log)) ==> s.Log[i] == old(s.Log[i]))
ensures s.Log[len(s.Log)-1].Kind == tx.Kind && s.Log[len(s.Log)-1].UUID == tx.UUID && s.Log[len(s.Log)-1].Key == tx.Key && s.Log[len(s.Log)-1].Value == tx.Value
ensures s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot)) && s.txPoint == old(s.txPoint)
ensures arr: ref(s.Log) == old(ref(s.Log)) || fresh(s.Log)
ensures inv: dbinv(s)

unit (*DB).Set
props C01, C02
nopanic
requires dbinv(s)
modifies *s, elems(s.Log)
ensures len(s.Log) == old(len(s.Log)) + 1
ensures forall(i, int, i >= 0 && i < old(len(s.Log)) ==> s.Log[i] == old(s.Log[i]))
ensures s.Log[len(s.Log)-1].Kind == "setk" && s.Log[len(s.Log)-1].UUID == uuid && s.Log[len(s.Log)-1].Key == key && s.Log[len(s.Log)-1].Value == value
ensures s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot)) && s.txPoint == old(s.txPoint)
ensures arr: ref(s.Log) == old(ref(s.Log)) || fresh(s.Log)
ensures inv: dbinv(s)

unit (*DB).Delete
props C01, C02
nopanic
requires dbinv(s)
modifies *s, elems(s.Log)
ensures len(s.Log) == old(len(s.Log)) + 1
ensures forall(i, int, i >= 0 && i < old(len(s.Log)) ==> s.Log[i] == old(s.Log[i]))
ensures s.Log[len(s.Log)-1].Kind == "del" && s.Log[len(s.Log)-1].UUID == uuid
ensures s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot)) && s.txPoint == old(s.txPoint)
ensures arr: ref(s.Log) == old(ref(s.Log)) || fresh(s.Log)
ensures inv: dbinv(s)

unit (*DB).DeleteKey
props C01, C02
nopanic
requires dbinv(s)
modifies *s, elems(s.Log)
ensures len(s.Log) == old(len(s.Log)) + 1
ensures forall(i, int, i >= 0 && i < old(len(s.Log)) ==> s.Log[i] == old(s.Log[i]))
ensures s.Log[len(s.Log)-1].Kind == "delk" && s.Log[len(s.Log)-1].UUID == uuid && s.Log[len(s.Log)-1].Key == key
ensures s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot)) && s.txPoint == old(s.txPoint)
ensures arr: ref(s.Log) == old(ref(s.Log)) || fresh(s.Log)
ensures inv: dbinv(s)

unit (*DB).Add
props C01, C02
nopanic
requires dbinv(s)
modifies *s, elems(s.Log)
ensures err != nil ==> len(s.Log) == old(len(s.Log))
ensures err == nil ==> len(s.Log) == old(len(s.Log)) + 1 && s.Log[len(s.Log)-1].Kind == "add" && s.Log[len(s.Log)-1].UUID == uuid
ensures forall(i, int, i >= 0 && i < old(len(s.Log)) ==> s.Log[i] == old(s.Log[i]))
ensures s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot)) && s.txPoint == old(s.txPoint)
ensures arr: ref(s.Log) == old(ref(s.Log)) || fresh(s.Log)
ensures inv: dbinv(s)

# ---- transactions ----

unit (*DB).Begin
props C02
requires dbinv(s)
panics s.txPoint != 0
modifies *s
ensures point: s.txPoint == old(len(s.Log)) + 1
ensures idle: old(s.txPoint) == 0
ensures rest: s.Log == old(s.Log) && s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot))
ensures inv: dbinv(s)

unit (*DB).Commit
props C02
requires dbinv(s)
panics s.txPoint == 0
modifies *s
ensures active: old(s.txPoint) != 0
ensures s.txPoint == 0
ensures keep: s.Log == old(s.Log) && s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot))
ensures inv: dbinv(s)

unit (*DB).Rollback
props C01, C02
requires dbinv(s)
panics s.txPoint == 0
modifies *s
ensures active: old(s.txPoint) != 0
ensures point: len(s.Log) == old(s.txPoint) - 1 && s.txPoint == 0
ensures log: forall(i, int, i >= 0 && i < len(s.Log) ==> s.Log[i] == old(s.Log[i]))
ensures snapshot: s.Version <= len(s.Log)
ensures inv: dbinv(s)

# What a function passed to Do may do: use the store, but not end the transaction.
extern callback:(*github.com/aarondl/bpass/txlogs.DB).Do:fn () (err)
requires dbinv(s) && s.txPoint != 0
modifies *s, anyelems(Tx), anymap(Entry), anymap(map[string]Entry)
ensures dbinv(s) && s.txPoint == old(s.txPoint) && len(s.Log) >= s.txPoint - 1
ensures forall(i, int, i >= 0 && i < s.txPoint - 1 ==> s.Log[i] == old(s.Log[i]))

unit (*DB).Do#contract
props C02
requires dbinv(s) && fn != nil
panics s.txPoint != 0
modifies *s, anyelems(Tx), anymap(Entry), anymap(map[string]Entry)
ensures failed: err != nil ==> len(s.Log) == old(len(s.Log))
ensures prefix: len(s.Log) >= old(len(s.Log)) && forall(i, int, i >= 0 && i < old(len(s.Log)) ==> s.Log[i] == old(s.Log[i]))
ensures idle: s.txPoint == 0
ensures inv: dbinv(s)

unit (*DB).RollbackN
props C01, C02
nopanic
requires dbinv(s)
modifies *s
ensures toomany: n > old(len(s.Log)) ==> err != nil
ensures inside: old(s.txPoint) == 0 && n <= old(len(s.Log)) ==> err == nil
ensures failed: err != nil ==> s.Log == old(s.Log) && s.Version == old(s.Version) && ref(s.Snapshot) == old(ref(s.Snapshot))
ensures done: err == nil ==> len(s.Log) == old(len(s.Log)) - n && forall(i, int, i >= 0 && i < len(s.Log) ==> s.Log[i] == old(s.Log[i]))
ensures point: s.txPoint == old(s.txPoint)
ensures inv: dbinv(s)

unit (*DB).ResetSnapshot
props C01, C02
nopanic
requires s.txPoint >= 0 && s.txPoint <= len(s.Log) + 1
modifies *s
ensures s.Version == 0 && s.Snapshot == nil && s.Log == old(s.Log) && s.txPoint == old(s.txPoint)
ensures inv: dbinv(s)

# ---- snapshots ----

def owns(s *DB, e Entry) bool := exists(k, string, has(s.Snapshot, k) && ref(s.Snapshot[k]) == ref(e))

unit (*DB).UpdateSnapshot
props C01
nopanic
requires dbinv(s)
modifies *s, content(s.Snapshot), anymap(Entry)
ensures log: s.Log == old(s.Log) && s.txPoint == old(s.txPoint)
ensures done: err == nil ==> s.Version == len(s.Log)
ensures ok: (err == nil) == old(ok_at(s, len(s.Log)))
ensures stopped: err != nil ==> s.Version < len(s.Log) && !applies(state_at(s, s.Version), s.Log[s.Version])
ensures forward: s.Version >= old(s.Version)
ensures others: forall(e, Entry, old(allocated(e)) && !old(owns(s, e)) ==> content(e) == old(content(e)))
ensures inv: dbinv(s)
inv deep(s.Snapshot) == state_at(s, s.Version)
inv entries(s.Snapshot)
inv ok_at(s, s.Version)
inv s.Version <= len(s.Log)
inv s.Version >= old(s.Version)
inv s.Snapshot != nil
inv forall(m, map[string]Entry, old(allocated(m)) && ref(m) != old(ref(s.Snapshot)) ==> content(m) == old(content(m)))
inv freshornil(s.Snapshot) || ref(s.Snapshot) == old(ref(s.Snapshot))
inv s.Log == old(s.Log) && s.txPoint == old(s.txPoint)
inv forall(k, string, has(s.Snapshot, k) ==> fresh(s.Snapshot[k]) || exists(j, string, old(has(s.Snapshot, j)) && ref(old(s.Snapshot[j])) == ref(s.Snapshot[k])))
inv forall(e, Entry, old(allocated(e)) && !old(owns(s, e)) ==> content(e) == old(content(e)))

# ---- time travel ----

rec ecount(A arr(Tx), o int, n int, u string) int := ite(n <= 0, 0, ecount(A, o, n-1, u) + ite(A[o+n-1].UUID == u, 1, 0))
# The entry's own transactions replayed, up to the q-th of them among the first n of the log.
rec etake(A arr(Tx), o int, n int, u string, q int) Abs := ite(n <= 0, emptymap(Abs), ite(A[o+n-1].UUID == u && ecount(A, o, n-1, u) < q, step(etake(A, o, n-1, u, q), A[o+n-1]), etake(A, o, n-1, u, q)))

lemma ecount_range(A arr(Tx), o int, n int, u string): ecount(A, o, n, u) >= 0 && (n >= 0 ==> ecount(A, o, n, u) <= n)
induct n
trigger ecount(A, o, n, u)
props C03

lemma ecount_mono(A arr(Tx), o int, n int, m int, u string): n <= m ==> ecount(A, o, n, u) <= ecount(A, o, m, u)
induct m
trigger ecount(A, o, n, u), ecount(A, o, m, u)
props C03

unit (*DB).NVersions
props C03
nopanic
ensures versions == ecount(elems(s.Log), off(s.Log), len(s.Log), uuid)
inv (versions int, i int): versions == ecount(elems(s.Log), off(s.Log), i, uuid)

unit (*DB).LastUpdated
props C03
nopanic
ensures none: forall(i, int, i >= 0 && i < len(s.Log) ==> s.Log[i].UUID != uuid) ==> last == -1
ensures latest: forall(i, int, i >= 0 && i < len(s.Log) && s.Log[i].UUID == uuid && forall(j, int, j > i && j < len(s.Log) ==> s.Log[j].UUID != uuid) ==> last == s.Log[i].Time)
inv (i int): forall(j, int, j > i && j < len(s.Log) ==> s.Log[j].UUID != uuid)

unit (*DB).SnapshotAt
props C03
nopanic
modifies anymap(Entry)
ensures range: (versionsAgo < 0 || versionsAgo > len(s.Log)) ==> err != nil
ensures ok: versionsAgo >= 0 && versionsAgo <= len(s.Log) ==> (err == nil) == ok_at(s, len(s.Log) - versionsAgo)
ensures state: err == nil ==> rep_state(result0, state_at(s, len(s.Log) - versionsAgo))
ensures storage: err == nil ==> fresh(result0) && forall(k, string, has(result0, k) ==> fresh(result0[k]))
ensures unchanged: forall(e, Entry, old(allocated(e)) ==> content(e) == old(content(e)))
inv (snap map[string]Entry, i int): deep(snap) == state_at(s, i) && ok_at(s, i)
inv (snap map[string]Entry): entries(snap)
inv (snap map[string]Entry): forall(k, string, has(snap, k) ==> fresh(snap[k]))
inv forall(e, Entry, old(allocated(e)) ==> content(e) == old(content(e)))

# an entry's own transactions: positions are strictly increasing and complete
lemma etake_none(A arr(Tx), o int, n int, u string, q int): q <= 0 ==> etake(A, o, n, u, q) == emptymap(Abs)
induct n
trigger etake(A, o, n, u, q)
props C03

# past the q-th own transaction nothing more is taken
lemma etake_stop(A arr(Tx), o int, n int, m int, u string, q int): n <= m && ecount(A, o, n, u) >= q ==> etake(A, o, m, u, q) == etake(A, o, n, u, q)
induct m
trigger etake(A, o, m, u, q), etake(A, o, n, u, q)
props C03

# taking one more than the number of own transactions before position n
lemma etake_next(A arr(Tx), o int, n int, u string, q int, r int): ecount(A, o, n, u) <= q && q <= r ==> etake(A, o, n, u, q) == etake(A, o, n, u, r)
induct n
trigger etake(A, o, n, u, q), etake(A, o, n, u, r)
props C03

lemma ecount_own(A arr(Tx), o int, p int, n int, u string): p >= 0 && p < n && A[o+p].UUID == u ==> ecount(A, o, n, u) >= ecount(A, o, p, u) + 1
induct n
trigger ecount(A, o, p, u), ecount(A, o, n, u)
props C03

# the q-th own transaction, at position p, is applied on top of the first q
lemma etake_step(A arr(Tx), o int, p int, n int, u string, q int, r int): p >= 0 && p < n && A[o+p].UUID == u && ecount(A, o, p, u) == q && r == q + 1 ==> etake(A, o, n, u, r) == step(etake(A, o, n, u, q), A[o+p])
induct n
trigger etake(A, o, n, u, q), etake(A, o, n, u, r), ecount(A, o, p, u)
props C03

def own(s *DB, u string, n int) int := ecount(elems(s.Log), off(s.Log), n, u)
def entry_at(s *DB, u string, q int) Abs := etake(elems(s.Log), off(s.Log), len(s.Log), u, q)

unit (*DB).EntrySnapshotAt
props C03
nopanic
modifies anymap(Entry)
ensures range: (versionsAgo < 0 || versionsAgo > own(s, uuid, len(s.Log))) ==> err != nil
ensures state: err == nil ==> has(entry_at(s, uuid, own(s, uuid, len(s.Log)) - versionsAgo), uuid) && content(result0) == entry_at(s, uuid, own(s, uuid, len(s.Log)) - versionsAgo)[uuid]
ensures storage: err == nil ==> fresh(result0)
ensures unchanged: forall(e, Entry, old(allocated(e)) ==> content(e) == old(content(e)))
inv (ix []int, i int): len(ix) == own(s, uuid, i) && i <= len(s.Log)
inv (ix []int, i int): forall(t, int, t >= 0 && t < len(ix) ==> ix[t] >= 0 && ix[t] < len(s.Log) && s.Log[ix[t]].UUID == uuid && own(s, uuid, ix[t]) == t)
inv (snap map[string]Entry, i int): deep(snap) == entry_at(s, uuid, i)
inv (snap map[string]Entry): entries(snap)
inv (snap map[string]Entry): forall(k, string, has(snap, k) ==> fresh(snap[k]))
inv forall(e, Entry, old(allocated(e)) ==> content(e) == old(content(e)))

# ---- saving and loading (encoding/json itself is trusted) ----

unit (*DB).Save
props C02, C04
nopanic
opt codec DB except txPoint; Tx
ensures [C02, C04] refused: s.txPoint != 0 ==> err != nil
ensures [C02, C04] unchanged: s.Log == old(s.Log) && s.Version == old(s.Version) && s.Snapshot == old(s.Snapshot) && s.txPoint == old(s.txPoint)

unit New
props C04
nopanic
opt codec DB except txPoint
ensures one: (err == nil) == (result0 != nil)
ensures idle: err == nil ==> fresh(result0) && result0.txPoint == 0

unit NewLog
props C04
nopanic
opt codec storeNoSnapshot within DB
ensures nothing: err != nil ==> result0 == nil
