// Trusted contracts of functions outside the repository (Go standard library).
package extern

extern unicode/utf8.DecodeRuneInString(s) (r, n)
  pure
  ensures r == drune(s, 0) && n == dsize(s, 0)

extern unicode/utf8.RuneCountInString(s) (n)
  pure
  ensures n == nrunes(s)

fun isSpaceU(rune) bool
axiom trusted isspace_ascii = forall c rune :: {isSpaceU(c)} (0 <= c && c < 128) ==> (isSpaceU(c) <==> (c == 9 || c == 10 || c == 11 || c == 12 || c == 13 || c == 32))
axiom trusted isspace_ls = isSpaceU(0x2028) && isSpaceU(0x2029) && isSpaceU(0x85) && isSpaceU(0xA0)
axiom trusted isspace_neg = forall c rune :: {isSpaceU(c)} c < 0 ==> !isSpaceU(c)

extern unicode.IsSpace(c) (b)
  pure
  ensures b <==> isSpaceU(c)

fun repat(*regexp.Regexp) string
extern regexp.MustCompile(p) (r)
  ensures r != nil && repat(r) == p

// brk(s,i): end of the first line break (CR LF, CR or LF) at or after byte i of s; -1 if there is none
fun brk(string, int) int
axiom def brk_rng = forall s string, i int :: {brk(s, i)} (0 <= i && i <= len(s)) ==> (brk(s, i) == 0 - 1 || (i < brk(s, i) && brk(s, i) <= len(s)))
// view(a): the string whose bytes the byte array a holds (read-only views made by util.Str2bytes)
fun view(Ref) string
// leftmost match of the line-break expression (any of the equivalent spellings)
extern regexp.Regexp.FindIndex(re, b) (loc)
  requires repat(re) == "(?m)\r\n?|\n" || repat(re) == "\r\n?|\n" || repat(re) == "\r\n|\r|\n" || repat(re) == "\r\n|\n|\r" || repat(re) == "\n|\r\n?" || repat(re) == "(?m)\r\n|\r|\n"
  requires off(b) + len(b) == len(view(arr(b)))
  ensures loc == nil <==> brk(view(arr(b)), off(b)) < 0
  ensures loc != nil ==> (fresh(loc) && len(loc) == 2 && 0 <= loc[0] && loc[0] < loc[1] && loc[1] == brk(view(arr(b)), off(b)) - off(b))
