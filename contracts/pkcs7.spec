# RFC 5652 padding.

package pkcs7
seq

extern bytes.Repeat (b, count) (r)
panics count < 0
panics len(b) > 0 && count > 4611686018427387904 / len(b)
ensures len(b) == 1 ==> bytes(r) == rep(b[0], count)
ensures len(r) == len(b) * count
ensures fresh(r)
ensures off(r) == 0

def padlen(n int, k int) int := k - n % k
def padded(s bytes, k int) bytes := cat(s, rep(padlen(len(s), k), padlen(len(s), k)))

lemma padlen_multiple(n int, k int): n >= 0 && k >= 1 ==> (n + padlen(n, k)) % k == 0
props C07
lemma padlen_range(n int, k int): n >= 0 && k >= 1 ==> padlen(n, k) >= 1 && padlen(n, k) <= k
props C07

unit Pad
props C07
panics k < 1
modifies elems(b)
ensures input: bytes(b) == old(bytes(b))
ensures where: arrof(result) == arrof(b) || fresh(result)
ensures count: k <= 255 ==> len(result) - len(b) == padlen(len(b), k)
ensures longer: k <= 255 ==> len(result) > len(b) && len(result) - len(b) <= k
ensures exact: k <= 255 ==> bytes(result) == padded(old(bytes(b)), k)

unit Unpad
props C07, C10
nopanic
ensures empty: len(b) == 0 ==> err != nil
ensures prefix: err == nil ==> arrof(result0) == arrof(b) && off(result0) == off(b) && len(result0) < len(b)
ensures strip: err == nil ==> forall(i, int, i >= len(result0) && i < len(b) ==> b[i] == b[len(b)-1])
inv (i int): forall(j, int, j > i && j <= b[len(b)-1] ==> b[len(b)-j] == b[len(b)-1])
ensures amount: err == nil ==> len(result0) == len(b) - b[len(b)-1] && b[len(b)-1] >= 1
ensures accept: forall(x, str, n, int, n >= 1 && n <= 255 && bytes(b) == cat(x, rep(n, n)) ==> err == nil && bytes(result0) == x)
