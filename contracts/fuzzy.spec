# Fuzzy matching. sub(s, i, q, j): the characters of q from position j on occur in this
# order among the characters of s from position i on.

package fuzzy

# decoding: the character at a position and the number of bytes it occupies
ufn decR(s string, i int) int
ufn decW(s string, i int) int
ufn uToLower(r int) int
ufn lowered(s string) string

axiom dec_width(s string, i int): i >= 0 && i < len(s) ==> decW(s, i) >= 1 && decW(s, i) <= 4 && i + decW(s, i) <= len(s)
trigger decW(s, i)
# what is decoded depends only on the text from the position on
axiom dec_suffix(s string, k int, i int): k >= 0 && i >= 0 && k + i < len(s) ==> decR(s[k:], i) == decR(s, k+i)
trigger decR(s[k:], i)
axiom dec_suffix_width(s string, k int, i int): k >= 0 && i >= 0 && k + i < len(s) ==> decW(s[k:], i) == decW(s, k+i)
trigger decW(s[k:], i)

def accepts(c int, q int) bool := q == c || q == uToLower(c)

rec sub(s string, i int, q string, j int) bool := ite(i < 0 || j < 0, false, ite(j >= len(q), true, ite(i >= len(s), false, sub(s, i + decW(s, i), q, j) || accepts(decR(s, i), decR(q, j)) && sub(s, i + decW(s, i), q, j + decW(q, j)))))

# n bounds the number of bytes of s that are left
lemma sub_drop(s string, i int, q string, j int, n int): i >= 0 && j >= 0 && j < len(q) && len(s) - i <= n && sub(s, i, q, j) ==> sub(s, i, q, j + decW(q, j))
induct n
props C14
opaque

lemma sub_greedy(s string, i int, q string, j int): i >= 0 && i < len(s) && j >= 0 && j < len(q) && accepts(decR(s, i), decR(q, j)) ==> sub(s, i, q, j) == sub(s, i + decW(s, i), q, j + decW(q, j))
by sub_drop(s, i + decW(s, i), q, j, len(s))
trigger sub(s, i, q, j), decW(s, i), decW(q, j)
props C14

lemma sub_skip(s string, i int, q string, j int): i >= 0 && i < len(s) && j >= 0 && j < len(q) && !accepts(decR(s, i), decR(q, j)) ==> sub(s, i, q, j) == sub(s, i + decW(s, i), q, j)
trigger sub(s, i, q, j), decR(s, i)
props C14

lemma sub_end(s string, i int, q string, j int): i >= len(s) && j >= 0 && j < len(q) ==> !sub(s, i, q, j)
trigger sub(s, i, q, j)
props C14

lemma sub_suffix(s string, k int, i int, q string, j int, n int): k >= 0 && k <= len(s) && i >= 0 && len(s) - k - i <= n ==> sub(s[k:], i, q, j) == sub(s, k + i, q, j)
induct n
props C14
opaque

lemma sub_shift(s string, k int, q string, j int): k >= 0 && k <= len(s) ==> sub(s[k:], 0, q, j) == sub(s, k, q, j)
by sub_suffix(s, k, 0, q, j, len(s))
trigger sub(s[k:], 0, q, j)
props C14

lemma sub_same(s string, i int, n int): i >= 0 && len(s) - i <= n ==> sub(s, i, s, i)
induct n
props C14
opaque

lemma sub_refl(s string): sub(s, 0, s, 0)
by sub_same(s, 0, len(s))
trigger sub(s, 0, s, 0)
props C14

unit Match
props C14
nopanic
ensures result == sub(s, 0, search, 0)
inv (s string): sub(s, 0, search, strpos()) == sub(pre(s), 0, search, 0)
inv (searchChar rune): searchChar == decR(outerstr(), outerpos()) && outerpos() >= 0 && outerpos() < len(outerstr())
inv outerpos() >= 0 && outerpos() < len(outerstr()) && sub(rangestr(), 0, outerstr(), outerpos()) == sub(rangestr(), strpos(), outerstr(), outerpos())

extern strings.ToLower (s) (r)
ensures r == lowered(s)

unit MatchFold
props C14
nopanic
ensures result == sub(lowered(s), 0, lowered(search), 0)
