# The encrypted file format.

package crypt

# ---- the cipher packages: what they demand and what they give is assumed ----

# block size of a cipher and of a block mode
ufn bsize(b int) int
ufn msize(m int) int

extern (crypto/cipher.Block).BlockSize () (r)
ensures r == bsize(recv)

extern crypto/cipher.NewCBCDecrypter (b, iv) (r)
panics len(iv) != bsize(b)
ensures r != nil && msize(r) == bsize(b)

extern crypto/cipher.NewCBCEncrypter (b, iv) (r)
panics len(iv) != bsize(b)
ensures r != nil && msize(r) == bsize(b)

extern (crypto/cipher.BlockMode).CryptBlocks (dst, src)
panics len(dst) < len(src) || msize(recv) != 0 && len(src) % msize(recv) != 0
modifies elems(dst)

# the constructors of the table: aes.NewCipher, camellia.NewCipher, cast5.NewCipher
extern field:github.com/aarondl/bpass/crypt.cipherAlg.CTOR (alg, key) (b, err)
ensures err == nil ==> b != nil && bsize(b) == alg.BlockSize

extern field:github.com/aarondl/bpass/crypt.config.keygen (owner, c, passphrase, salt) (key, err)
ensures err == nil ==> len(key) == c.keySize && fresh(key)

sort Algs = mapval(string, cipherAlg)

def goodalg(a cipherAlg) bool := a.CTOR != nil && a.KeySize >= 1 && a.KeySize <= 1024 && a.BlockSize >= 1 && a.BlockSize <= 255

# sums over the first n ciphers
rec keysum(A arr(cipherAlg), o int, n int) int := ite(n <= 0, 0, keysum(A, o, n-1) + A[o+n-1].KeySize)
rec blocksum(A arr(cipherAlg), o int, n int) int := ite(n <= 0, 0, blocksum(A, o, n-1) + A[o+n-1].BlockSize)
rec sizesum(A arr(cipher.Block), o int, n int) int := ite(n <= 0, 0, sizesum(A, o, n-1) + bsize(A[o+n-1]))


# the same sums over the names of the ciphers in a table
rec nkeysum(T Algs, A arr(string), o int, n int) int := ite(n <= 0, 0, nkeysum(T, A, o, n-1) + T[A[o+n-1]].KeySize)
rec nblocksum(T Algs, A arr(string), o int, n int) int := ite(n <= 0, 0, nblocksum(T, A, o, n-1) + T[A[o+n-1]].BlockSize)

def table() Algs := content(algorithms)
def goodtable() bool := forall(a, string, has(algorithms, a) ==> goodalg(algorithms[a]))

lemma ksum_agree(T Algs, A arr(string), o int, B arr(cipherAlg), p int, n int): forall(i, int, i >= 0 && i < n ==> B[p+i] == T[A[o+i]]) ==> keysum(B, p, n) == nkeysum(T, A, o, n)
induct n
trigger keysum(B, p, n), nkeysum(T, A, o, n)
props C10

lemma bsum_agree(T Algs, A arr(string), o int, B arr(cipherAlg), p int, n int): forall(i, int, i >= 0 && i < n ==> B[p+i] == T[A[o+i]]) ==> blocksum(B, p, n) == nblocksum(T, A, o, n)
induct n
trigger blocksum(B, p, n), nblocksum(T, A, o, n)
props C10

lemma ssum_agree(A arr(cipherAlg), o int, B arr(cipher.Block), p int, n int): forall(i, int, i >= 0 && i < n ==> bsize(B[p+i]) == A[o+i].BlockSize) ==> sizesum(B, p, n) == blocksum(A, o, n)
induct n
trigger sizesum(B, p, n), blocksum(A, o, n)
props C10

lemma keysum_mono(A arr(cipherAlg), o int, n int, m int): n >= 0 && n <= m && forall(i, int, i >= 0 && i < m ==> A[o+i].KeySize >= 0) ==> keysum(A, o, n) <= keysum(A, o, m) && keysum(A, o, n) >= 0
induct m
trigger keysum(A, o, n), keysum(A, o, m)
props C10

lemma keysum_step(A arr(cipherAlg), o int, n int, m int): n >= 0 && n < m && forall(i, int, i >= 0 && i < m ==> A[o+i].KeySize >= 0) ==> keysum(A, o, n) + A[o+n].KeySize <= keysum(A, o, m)
by keysum_mono(A, o, n+1, m)
trigger keysum(A, o, n), keysum(A, o, m)
props C10

unit cipherSuite
props C10
nopanic
ensures good: err == nil ==> forall(i, int, i >= 0 && i < len(result0) ==> goodalg(result0[i]))
ensures keys: err == nil ==> keysum(elems(result0), off(result0), len(result0)) == nkeysum(table(), elems(c.algs), off(c.algs), len(c.algs))
ensures blocks: err == nil ==> blocksum(elems(result0), off(result0), len(result0)) == nblocksum(table(), elems(c.algs), off(c.algs), len(c.algs))
ensures err == nil ==> len(result0) == len(c.algs) && (len(result0) == 0 || fresh(result0))
ensures err == nil ==> forall(i, int, i >= 0 && i < len(c.algs) ==> has(algorithms, c.algs[i]) && result0[i] == algorithms[c.algs[i]])
inv (r []cipherAlg, rangeindex int): len(r) == rangeindex && forall(i, int, i >= 0 && i < rangeindex ==> has(algorithms, c.algs[i]) && r[i] == algorithms[c.algs[i]])

unit verifyMagic
props C10
nopanic
ensures err == nil ==> len(in) >= 16

unit IsMultiUser
props C10
nopanic

unit (Params).validate
props C10
nopanic
ensures result == nil ==> len(p.Keys) >= 1 && len(p.Salts) >= 1 && p.NUsers >= 0 && p.NUsers <= 9999
ensures result == nil && p.NUsers != 0 ==> len(p.Keys) == p.NUsers && len(p.Salts) == p.NUsers && len(p.Users) == p.NUsers && len(p.IVs) == p.NUsers && len(p.MKeys) == p.NUsers && p.User >= 0 && p.User < p.NUsers

unit makeCiphers
props C10
nopanic
requires forall(i, int, i >= 0 && i < len(suite) ==> goodalg(suite[i]))
requires len(key) >= keysum(elems(suite), off(suite), len(suite))
ensures err == nil ==> len(result0) == len(suite) && (len(result0) == 0 || fresh(result0))
ensures err == nil ==> forall(i, int, i >= 0 && i < len(suite) ==> result0[i] != nil && bsize(result0[i]) == suite[i].BlockSize)
inv (offset int, rangeindex int): offset == keysum(elems(suite), off(suite), rangeindex)
inv (blocks []cipher.Block, rangeindex int): len(blocks) == rangeindex && forall(i, int, i >= 0 && i < rangeindex ==> blocks[i] != nil && bsize(blocks[i]) == suite[i].BlockSize)

# a usable version of the format: its sizes are those of its ciphers
def goodconfig(c config) bool := c.keySize == nkeysum(table(), elems(c.algs), off(c.algs), len(c.algs)) && c.blockSize == nblocksum(table(), elems(c.algs), off(c.algs), len(c.algs)) && c.keySize >= 1 && c.keySize <= 65536 && c.blockSize >= 1 && c.blockSize <= 65536 && c.saltSize >= 0 && c.saltSize <= 65536 && forall(i, int, i >= 0 && i < len(c.algs) ==> c.keySize % algorithms[c.algs[i]].BlockSize == 0) && c.keygen != nil && c.decrypt != nil && c.encrypt != nil && c.encryptKey != nil && c.mkeygen != nil

lemma ssum_mono(A arr(cipher.Block), o int, n int, m int): n >= 0 && n <= m && forall(i, int, i >= 0 && i < m ==> bsize(A[o+i]) >= 0) ==> sizesum(A, o, n) <= sizesum(A, o, m) && sizesum(A, o, n) >= 0
induct m
trigger sizesum(A, o, n), sizesum(A, o, m)
props C10

extern crypto/sha512.New () (h)
ensures h != nil && sumlen(h) == 64

ufn sumlen(h int) int

extern (hash.Hash).Write (p) (n, err)

extern (hash.Hash).Sum (b) (r)
ensures fresh(r) && off(r) == 0 && len(r) == len(b) + sumlen(recv)

extern crypto/sha256.Sum256 (data) (r)

extern strconv.ParseInt (s, base, bitSize) (i, err)
ensures bitSize == 32 ==> i >= -2147483648 && i <= 2147483647

unit decryptV1Single
props C09, C10
nopanic
requires goodconfig(c)
ensures err != nil ==> result1 == nil
inv (i int, ivOffset int, ciphers []cipher.Block): ivOffset == sizesum(elems(ciphers), off(ciphers), i+1) && i < len(ciphers)

def recsize(c config) int := 32 + c.saltSize + c.blockSize + c.keySize

rec times(n int, k int) int := ite(n <= 0, 0, times(n-1, k) + k)

lemma times_is(n int, k int): n >= 0 ==> times(n, k) == n * k
induct n
trigger times(n, k)
props C10

lemma times_nonneg(n int, k int): k >= 0 ==> times(n, k) >= 0
induct n
trigger times(n, k)
props C10

unit decryptV1Multi
opt mergeappend 1
props C10
nopanic
requires goodconfig(c) && nUsers >= 1 && nUsers <= 2147483647
ensures err != nil ==> result1 == nil
inv (i int, ivOffset int, ciphers []cipher.Block): ivOffset == sizesum(elems(ciphers), off(ciphers), i+1) && i < len(ciphers)
inv (i int, p Params): len(p.Users) == i && len(p.Salts) == i && len(p.IVs) == i && len(p.MKeys) == i && p.User < i && p.User >= -1 && p.NUsers == nUsers
inv (i int, p Params): forall(j, int, j >= 0 && j < i ==> len(p.Users[j]) == 32 && len(p.Salts[j]) == c.saltSize)
inv (i int, p Params): forall(j, int, j >= 0 && j < i ==> len(p.IVs[j]) == c.blockSize)
inv (i int, p Params): forall(j, int, j >= 0 && j < i ==> len(p.MKeys[j]) == c.keySize)
inv (p Params): allocated(p.Users) && allocated(p.Salts) && allocated(p.IVs) && allocated(p.MKeys)
inv (p Params): freshornil(p.Users) && freshornil(p.Salts) && freshornil(p.IVs) && freshornil(p.MKeys)
inv (i int, p Params): i == 0 ==> cap(p.Users) == 0 && cap(p.Salts) == 0 && cap(p.IVs) == 0 && cap(p.MKeys) == 0
inv (i int, p Params): i > 0 ==> ref(p.Users) != ref(p.Salts) && ref(p.Users) != ref(p.IVs) && ref(p.Users) != ref(p.MKeys) && ref(p.Salts) != ref(p.IVs) && ref(p.Salts) != ref(p.MKeys) && ref(p.IVs) != ref(p.MKeys)
inv (i int, plaintextHeader []byte): len(plaintextHeader) >= times(nUsers - i, recsize(c)) + c.blockSize

unit decryptV1
props C10
nopanic
requires goodconfig(c) && len(encrypted) >= 16
ensures err != nil ==> result1 == nil

def goodversions() bool := forall(v, int, has(versions, v) ==> goodconfig(versions[v]))

# what a version's function is given and gives; the version in use is decryptV1, encryptV1
extern field:github.com/aarondl/bpass/crypt.config.decrypt (owner, c, user, passphrase, key, salt, encrypted) (p, pt, err)
requires goodconfig(c) && len(encrypted) >= 16
ensures err != nil ==> pt == nil

extern field:github.com/aarondl/bpass/crypt.config.encrypt (owner, c, p, pt) (encrypted, err)
requires goodconfig(c) && p != nil && validated(*p, c) && len(pt) <= 1099511627776

def validated(p Params, c config) bool := len(p.Keys) >= 1 && len(p.Salts) >= 1 && p.NUsers >= 0 && p.NUsers <= 9999 && (p.NUsers != 0 ==> len(p.Keys) == p.NUsers && len(p.Salts) == p.NUsers && len(p.Users) == p.NUsers && len(p.IVs) == p.NUsers && len(p.MKeys) == p.NUsers && p.User >= 0 && p.User < p.NUsers)

unit Encrypt
props C10
nopanic
requires p != nil && goodversions() && len(plaintext) <= 1099511627776

unit Decrypt
props C09, C10
nopanic
requires goodversions()
ensures nothing: err != nil ==> pt == nil

lemma blocksum_mono(A arr(cipherAlg), o int, n int, m int): n >= 0 && n <= m && forall(i, int, i >= 0 && i < m ==> A[o+i].BlockSize >= 0) ==> blocksum(A, o, n) <= blocksum(A, o, m) && blocksum(A, o, n) >= 0
induct m
trigger blocksum(A, o, n), blocksum(A, o, m)
props C10

lemma blocksum_step(A arr(cipherAlg), o int, n int, m int): n >= 0 && n < m && forall(i, int, i >= 0 && i < m ==> A[o+i].BlockSize >= 0) ==> blocksum(A, o, n) + A[o+n].BlockSize <= blocksum(A, o, m)
by blocksum_mono(A, o, n+1, m)
trigger blocksum(A, o, n), blocksum(A, o, m)
props C10

unit encryptV1Single
props C08, C10
nopanic
requires goodconfig(c) && p != nil && validated(*p, c) && len(plaintext) <= 1099511627776
inv (ivOffset int, rangeindex int, cipherSuite []cipherAlg): ivOffset == blocksum(elems(cipherSuite), off(cipherSuite), rangeindex)
inv (work []byte): fresh(work) && allocated(work)

unit encryptV1
props C10
nopanic
requires goodconfig(c) && p != nil && validated(*p, c) && len(plaintext) <= 1099511627776

lemma times_mono(n int, m int, k int): n >= 0 && n <= m && k >= 0 ==> times(n, k) <= times(m, k)
induct m
trigger times(n, k), times(m, k)
props C10

lemma times_step(n int, m int, k int): n >= 0 && n < m && k >= 0 ==> times(n, k) + k <= times(m, k)
by times_mono(n+1, m, k)
trigger times(n, k), times(m, k)
props C10

unit encryptV1Multi
props C10
nopanic
requires goodconfig(c) && p != nil && validated(*p, c) && p.NUsers >= 1 && len(plaintext) <= 1099511627776
inv (i int, offset int): offset == 16 + times(i, recsize(c)) && i <= p.NUsers
inv (ivOffset int, rangeindex int, cipherSuite []cipherAlg): ivOffset == blocksum(elems(cipherSuite), off(cipherSuite), rangeindex)
inv (work []byte): fresh(work) && allocated(work)
inv (plaintextHeader []byte): len(plaintextHeader) == 16 + times(p.NUsers, recsize(c)) + c.blockSize

unit encryptMasterKeyV1
props C08, C10, C11
nopanic
modifies wire
requires goodconfig(c)
inv (ivOffset int, rangeindex int, cipherSuite []cipherAlg): ivOffset == blocksum(elems(cipherSuite), off(cipherSuite), rangeindex)

unit newMasterKeyV1
props C10, C11
nopanic
modifies wire
requires goodconfig(c)
ensures err == nil ==> len(master) == c.keySize && len(ivm) == c.blockSize

unit EncryptMasterKey
props C10, C11
nopanic
requires goodversions()

extern field:github.com/aarondl/bpass/crypt.config.encryptKey (owner, c, key, master) (cryptedMaster, iv, err)
requires goodconfig(c)
