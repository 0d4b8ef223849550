# The command line program.

package main

# ---- saving: stage of the temporary file, what it holds, what was put in place ----
# 0 created, 1 completely written, 2 synced, 3 closed

ghost stage int
ghost tmp str
ghost kept str
ghost placed str
ghost saves int

extern io/ioutil.TempFile (dir, pattern) (f, err)
modifies stage, tmp, kept
ensures err == nil ==> f != nil && stage == 0 && tmp == nameof(f) && kept == ""

extern os.CreateTemp (dir, pattern) (f, err)
modifies stage, tmp, kept
ensures err == nil ==> f != nil && stage == 0 && tmp == nameof(f) && kept == ""

ufn nameof(f *os.File) string

extern (*os.File).Name () (r)
ensures r == nameof(arg0)

extern (*os.File).Write (b) (n, err)
modifies stage, kept
ensures err == nil ==> n == len(b) && stage == 1 && (len(old(kept)) == 0 ==> kept == bytes(b)) && (len(old(kept)) > 0 ==> kept == old(kept) + bytes(b))
ensures err != nil ==> stage == 0

extern (*os.File).Sync () (err)
modifies stage
ensures err == nil ==> stage == ite(old(stage) == 1, 2, old(stage))
ensures err != nil ==> stage == old(stage)

extern (*os.File).Close () (err)
modifies stage
ensures err == nil && old(stage) == 2 ==> stage == 3
ensures !(err == nil && old(stage) == 2) ==> stage == 0

# a file only gets its place when it is complete, on disk and closed
extern os.Rename (oldpath, newpath) (err)
requires oldpath == tmp && stage == 3
modifies placed, saves
ensures err == nil ==> placed == kept && saves == old(saves) + 1
ensures err != nil ==> placed == old(placed) && saves == old(saves)

# nothing but the temporary file is ever removed
extern os.Remove (name) (err)
requires name == tmp

extern os.WriteFile (name, data, perm) (err)
requires false
extern os.Truncate (name, size) (err)
requires false
extern os.Create (name) (f, err)
requires false

unit writeFileAtomic
props C21
modifies stage, tmp, kept, placed, saves
ensures placed: err == nil ==> placed == bytes(data) && saves == old(saves) + 1
ensures untouched: err != nil ==> placed == old(placed) && saves == old(saves)

# ---- the time of the last change ----

unit lastTime
props C19
nopanic
ensures none: len(log) == 0 ==> forall(t, int, t >= -9223372036854775808 ==> result <= t)
ensures last: len(log) > 0 ==> result == log[len(log)-1].Time

# ---- saving and what goes into it ----

unit (*uiContext).makeParams
trusted
ensures err == nil ==> result0 != nil

unit (*uiContext).saveBlob
props C20
requires u.readOnly
nopanic
modifies stage, tmp, kept, placed, saves
ensures readonly: result == nil && saves == old(saves) && placed == old(placed) && stage == old(stage)

# ---- host keys ----

ghost answer str
ghost asked int

ufn ktype(k int) string

extern (golang.org/x/crypto/ssh.PublicKey).Type () (r)
ensures r == ktype(recv)
extern (golang.org/x/crypto/ssh.PublicKey).Marshal () (r)
extern (net.Addr).String () (r)

unit (*uiContext).prompt
trusted
modifies answer, asked
ensures err == nil ==> answer == result0
ensures asked == old(asked) + 1

def hostof(line string) string := splitat(line, " ", 0)
def samekey(line string, host string, kt string) bool := splitn(line, " ") == 4 && hostof(line) == host && splitat(line, " ", 2) == kt
# the position of the first remembered line for the host, if any, is what decides
unit (*hostAsker).callback
props C17
nopanic
requires h != nil && h.u != nil && remote != nil && key != nil
modifies *h, answer, asked
ensures accepted: result == nil && asked == old(asked) ==> exists(i, int, i >= 0 && i < splitn(old(h.known), "\n") && samekey(splitat(old(h.known), "\n", i), hostname, ktype(key)))
ensures confirmed: result == nil && asked != old(asked) ==> (answer == "y" || answer == "Y") && forall(i, int, i >= 0 && i < splitn(old(h.known), "\n") ==> hostof(splitat(old(h.known), "\n", i)) != hostname)
ensures known: h.known == old(h.known)
ensures remembers: result != nil || asked == old(asked) ==> h.newHost == old(h.newHost)
inv (rangeindex int): forall(i, int, i >= 0 && i < rangeindex ==> hostof(splitat(h.known, "\n", i)) != hostname)
inv (lines []string, rangeindex int): forall(i, int, i >= 0 && i < rangeindex ==> hostof(lines[i]) != hostname)


# ---- exporting: nothing is written to the file before only its owner can read it ----

ghost mode int
ghost rows int

extern os.OpenFile (name, flag, perm) (f, err)
requires perm == 384 || perm == 448
modifies mode
ensures err == nil ==> f != nil

extern (*os.File).Chmod (m) (err)
modifies mode
ensures err == nil ==> mode == m
ensures err != nil ==> mode == old(mode)

extern encoding/csv.NewWriter (w) (r)
ensures r != nil

extern (*encoding/csv.Writer).Write (record) (err)
requires mode == 384 || mode == 448
modifies rows
ensures rows == old(rows) + 1

extern (*encoding/csv.Writer).Flush ()
extern (*encoding/csv.Writer).Error () (err)

extern golang.org/x/exp/slices.Sort (x)
modifies elems(x)
extern golang.org/x/exp/maps.Keys (m) (r)
ensures len(r) >= 0 && fresh(r)

unit export
props C22
noframe
requires u != nil && u.store.DB != nil && dbinv(u.store.DB)
modifies mode, rows, *u.store.DB, anymap(txlogs.Entry), content(u.store.DB.Snapshot), stage
ensures complete: result == nil ==> u.store.DB.Version == len(u.store.DB.Log)
ensures log: u.store.DB.Log == old(u.store.DB.Log)

# ---- what takes part in a synchronisation ----

unit collectSyncs
props C18
requires store.DB != nil && entries(store.DB.Snapshot)
nopanic
ensures marked: forall(i, int, i >= 0 && i < len(result0) ==> has(store.DB.Snapshot, result0[i]) && store.DB.Snapshot[result0[i]]["sync"] == "true" && len(store.DB.Snapshot[result0[i]]["url"]) > 0 && len(store.DB.Snapshot[result0[i]]["name"]) > 0)
inv (r []string): forall(i, int, i >= 0 && i < len(r) ==> has(store.DB.Snapshot, r[i]) && store.DB.Snapshot[r[i]]["sync"] == "true" && len(store.DB.Snapshot[r[i]]["url"]) > 0 && len(store.DB.Snapshot[r[i]]["name"]) > 0)

extern net/url.Parse (rawURL) (r, err)
ensures err == nil ==> r != nil

# ---- password generation ----

def pos(i int) int := ite(i > 0, i, 0)
# the requests that cannot be met; what the others return is decided by the driver
unit genPassword
props C15
requires length < 0 || pos(upper) + pos(lower) + pos(numbers) + pos(basic) + pos(extra) > length || length > 0 && upper < 0 && lower < 0 && numbers < 0 && basic < 0 && extra < 0
nopanic
noframe
ensures refused: result1 != nil && len(result0) == 0

unit genPassword#all
props C15
requires upper > 0 && lower > 0 && numbers > 0 && basic > 0 && extra > 0
requires len(alphabetUppercase) > 0 && len(alphabetLowercase) > 0 && len(alphabetNumbers) > 0 && len(alphabetBasicSymbols) > 0 && len(alphabetExtraSymbols) > 0
requires len(alphabetUppercase) < 200 && len(alphabetLowercase) < 200 && len(alphabetNumbers) < 200 && len(alphabetBasicSymbols) < 200 && len(alphabetExtraSymbols) < 200
nopanic
noframe
ensures exact: result1 == nil ==> len(result0) == length
inv (i int, eOffset int, entropy []byte): eOffset + 2*i + 4*length == len(entropy)
inv (i int, eOffset int, entropy []byte): eOffset + 4*length == len(entropy) + 4*i
