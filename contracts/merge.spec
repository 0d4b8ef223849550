# Merging two logs.

package txlogs

def sorted_log(a []Tx) bool := forall(i, int, j, int, i >= 0 && i < j && j < len(a) ==> a[i].Time < a[j].Time)
# nothing happens to an entry after its deletion in the same log
def wf_log(a []Tx) bool := forall(i, int, j, int, i >= 0 && i < j && j < len(a) && a[i].Kind == "del" ==> a[i].UUID != a[j].UUID)
def same_tx(a []Tx, b []Tx) bool := forall(i, int, j, int, i >= 0 && i < len(a) && j >= 0 && j < len(b) && a[i].Time == b[j].Time ==> a[i] == b[j])
# t is among the first n transactions
rec among(A arr(Tx), o int, n int, t Tx) bool := ite(n <= 0, false, among(A, o, n-1, t) || A[o+n-1] == t)
def in_log(a []Tx, n int, t Tx) bool := among(elems(a), off(a), n, t)

lemma among_agree(A arr(Tx), o int, B arr(Tx), p int, n int, t Tx): forall(i, int, i >= 0 && i < n ==> A[o+i] == B[p+i]) ==> among(A, o, n, t) == among(B, p, n, t)
induct n
trigger among(A, o, n, t), among(B, p, n, t)
props C05, C06

# what the user decided about the delete at time tm
rec restored_in(A arr(Conflict), o int, n int, tm int) bool := ite(n <= 0, false, restored_in(A, o, n-1, tm) || (A[o+n-1].Kind == 1 && A[o+n-1].Initial.Time == tm && A[o+n-1].resolution == 1))
rec kept_in(A arr(Conflict), o int, n int, tm int) bool := ite(n <= 0, false, kept_in(A, o, n-1, tm) || (A[o+n-1].Kind == 1 && A[o+n-1].Initial.Time == tm && A[o+n-1].resolution == 2))
def restored(R []Conflict, tm int) bool := restored_in(elems(R), off(R), len(R), tm)
def kept(R []Conflict, tm int) bool := kept_in(elems(R), off(R), len(R), tm)

lemma restored_intro(A arr(Conflict), o int, n int, p int, tm int): p >= o && p < o + n && A[p].Kind == 1 && A[p].Initial.Time == tm && A[p].resolution == 1 ==> restored_in(A, o, n, tm)
induct n
trigger restored_in(A, o, n, tm), A[p]
props C05, C06

lemma kept_intro(A arr(Conflict), o int, n int, p int, tm int): p >= o && p < o + n && A[p].Kind == 1 && A[p].Initial.Time == tm && A[p].resolution == 2 ==> kept_in(A, o, n, tm)
induct n
trigger kept_in(A, o, n, tm), A[p]
props C05, C06

lemma restored_empty(A arr(Conflict), o int, n int, tm int): n <= 0 ==> !restored_in(A, o, n, tm)
trigger restored_in(A, o, n, tm)
props C05, C06

lemma kept_empty(A arr(Conflict), o int, n int, tm int): n <= 0 ==> !kept_in(A, o, n, tm)
trigger kept_in(A, o, n, tm)
props C05, C06

def decided(R []Conflict) bool := forall(r, int, r >= 0 && r < len(R) ==> R[r].resolution != 0)
# d is a deletion that was kept, earlier than t, of the same entry
def kills(d Tx, R []Conflict, t Tx) bool := d.Kind == "del" && d.UUID == t.UUID && d.Time < t.Time && kept(R, d.Time) && !restored(R, d.Time)
def undeleted(R []Conflict, t Tx) bool := t.Kind == "del" && restored(R, t.Time)
def noted_at(C []Conflict, tm int) bool := exists(k, int, k >= 0 && k < len(C) && C[k].Kind == 1 && C[k].Initial.Time == tm)
def true_conflict(a []Tx, n int, b []Tx, m int, R []Conflict, k Conflict) bool := k.Kind == 1 ==> k.Initial.Kind == "del" && k.Initial.UUID == k.Conflict.UUID && k.Initial.Time < k.Conflict.Time && !restored(R, k.Initial.Time) && !kept(R, k.Initial.Time) && (in_log(a, n, k.Initial) || in_log(b, m, k.Initial)) && (in_log(a, n, k.Conflict) || in_log(b, m, k.Conflict))
def root_pending(a []Tx, b []Tx, R []Conflict) bool := len(a) > 0 && len(b) > 0 && a[0].Time != b[0].Time && !(len(R) > 0 && R[0].resolution == 3)
def all_noted(a []Tx, n int, b []Tx, m int, R []Conflict, C []Conflict) bool := forall(x, int, y, int, x >= 0 && x < n && y >= 0 && y < m && a[x].Kind == "del" && a[x].UUID == b[y].UUID && a[x].Time < b[y].Time && !restored(R, a[x].Time) && !kept(R, a[x].Time) ==> noted_at(C, a[x].Time))


def resolved_ok(R []Conflict) bool := forall(r, int, r >= 0 && r < len(R) && R[r].Kind == 1 ==> R[r].resolution >= 0 && R[r].resolution <= 2)
# where the deletes that are still standing are
def deleted_in(D map[string]int, C []Tx, n int) bool := forall(u, string, has(D, u) ==> D[u] >= 0 && D[u] < n && C[D[u]].Kind == "del" && C[D[u]].UUID == u, trig(D[u]))
def deleted_all(D map[string]int, C []Tx, n int) bool := forall(k, int, k >= 0 && k < n && C[k].Kind == "del" ==> has(D, C[k].UUID))
def deleted_live(D map[string]int, C []Tx, R []Conflict) bool := forall(u, string, has(D, u) ==> !restored(R, C[D[u]].Time), trig(D[u]))
def lastc(c []Tx) Tx := c[len(c)-1]

# checkConflict: what becomes of the transaction that was just appended
unit Merge$1
opt helper
props C05, C06
nopanic
requires len(c) > 0 && deleted != nil && decided(resolved) && resolved_ok(resolved)
requires deleted_in(deleted, c, len(c)-1) && deleted_live(deleted, c, resolved)
modifies c, conflicts, elems(conflicts), content(deleted)
ensures same: ref(c) == old(ref(c)) && off(c) == old(off(c)) && cap(c) == old(cap(c))
ensures removed: old(has(deleted, lastc(c).UUID) && kept(resolved, c[deleted[lastc(c).UUID]].Time) || !has(deleted, lastc(c).UUID) && lastc(c).Kind == "del" && restored(resolved, lastc(c).Time)) ==> len(c) == old(len(c)) - 1
ensures stays: !old(has(deleted, lastc(c).UUID) && kept(resolved, c[deleted[lastc(c).UUID]].Time) || !has(deleted, lastc(c).UUID) && lastc(c).Kind == "del" && restored(resolved, lastc(c).Time)) ==> len(c) == old(len(c))
ensures marks: old(!has(deleted, lastc(c).UUID) && lastc(c).Kind == "del" && !restored(resolved, lastc(c).Time)) ==> content(deleted) == put(old(content(deleted)), old(lastc(c).UUID), old(len(c) - 1))
ensures nomark: !old(!has(deleted, lastc(c).UUID) && lastc(c).Kind == "del" && !restored(resolved, lastc(c).Time)) ==> content(deleted) == old(content(deleted))
ensures clash: old(has(deleted, lastc(c).UUID) && !kept(resolved, c[deleted[lastc(c).UUID]].Time)) ==> noted_at(conflicts, old(c[deleted[lastc(c).UUID]].Time))
ensures quiet: !old(has(deleted, lastc(c).UUID) && !kept(resolved, c[deleted[lastc(c).UUID]].Time)) ==> conflicts == old(conflicts)
ensures grows: len(conflicts) >= old(len(conflicts)) && len(conflicts) <= old(len(conflicts)) + 1
ensures before: forall(k, int, k >= 0 && k < old(len(conflicts)) ==> conflicts[k] == old(conflicts[k]))
ensures new: len(conflicts) > old(len(conflicts)) ==> conflicts[len(conflicts)-1].Kind == 1 && conflicts[len(conflicts)-1].Initial == old(c[deleted[lastc(c).UUID]]) && conflicts[len(conflicts)-1].Conflict == old(lastc(c))
ensures arr: ref(conflicts) == old(ref(conflicts)) || fresh(conflicts)
inv exact in Merge$1 (rangeindex int): !restored_in(elems(resolved), off(resolved), rangeindex, lastc(c).Time)
inv exact in Merge$1 (rangeindex int, deleteTx Tx): !restored_in(elems(resolved), off(resolved), rangeindex, deleteTx.Time) && !kept_in(elems(resolved), off(resolved), rangeindex, deleteTx.Time)
inv exact in Merge$1 (rangeindex int, deleteTx Tx): forall(r, int, r >= 0 && r < rangeindex ==> !(conflicts[r].Kind == 1 && conflicts[r].Initial.Time == deleteTx.Time))

