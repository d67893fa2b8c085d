package span

// ---------------------------------------------------------------- decoding
// bd(s,i): i is a code-point boundary reached by decoding s from its start.
// cp(s,i): number of code points decoded up to the boundary i.
fun bd(string, int) bool
fun cp(string, int) int
axiom def bd_zero = forall s string :: {bd(s, 0)} bd(s, 0) && cp(s, 0) == 0
axiom def bd_step = forall s string, i int :: {dsize(s, i), bd(s, i)} (bd(s, i) && 0 <= i && i < len(s)) ==> (bd(s, i + dsize(s, i)) && cp(s, i + dsize(s, i)) == cp(s, i) + 1)
axiom def cp_bound = forall s string, i int :: {cp(s, i)} (bd(s, i) && 0 <= i && i <= len(s)) ==> (0 <= cp(s, i) && cp(s, i) <= i)

// the code point at offset i, EOF past the end
def chAt(code string, i int) = ite(i >= len(code), EOF, drune(code, i))

// cursor invariant: what remains is exactly the code from the byte offset on
def okState(code string, x SourceState) =
  x.ofst <= len(code) && bd(code, x.ofst) && x.pos == cp(code, x.ofst) && x.runes.raw == code[x.ofst:]
def ok(s *Source) = len(s.code) < 4294967296 && okState(s.code, s.state)
def stackOk(s *Source) = forall i int :: {s.ss[i].ofst} (0 <= i && i < len(s.ss)) ==> okState(s.code, s.ss[i])

func Runes.advance(s) (r, n)
  property C01
  modifies s.raw
  ensures n == dsize(old(s.raw), 0)
  ensures s.raw == old(s.raw)[n:]
  ensures r == ite(len(old(s.raw)) == 0, EOF, drune(old(s.raw), 0))

func newSourceState(code) (x)
  property C01
  ensures x.ofst == 0 && x.pos == 0 && x.runes.raw == code && !x.metLineTerm

func NewSource(path, code) (s)
  property C01, C02
  requires len(code) < 4294967296
  ensures fresh(s)
  ensures s.code == code && s.Path == path
  ensures s.state.ofst == 0 && s.state.pos == 0 && !s.state.metLineTerm
  ensures ok(s)
  ensures len(s.ss) == 0

func Source.PushState(s)
  property C02
  requires ok(s) && stackOk(s)
  modifies s.ss, elems(s.ss)
  ensures len(s.ss) == old(len(s.ss)) + 1
  ensures s.ss[old(len(s.ss))] == s.state
  ensures forall i int :: {s.ss[i].ofst} (0 <= i && i < old(len(s.ss))) ==> s.ss[i] == old(s.ss[i])
  ensures stackOk(s)

func Source.DiscardState(s)
  property C02
  requires len(s.ss) > 0 && stackOk(s)
  modifies s.ss
  ensures len(s.ss) == old(len(s.ss)) - 1
  ensures forall i int :: {s.ss[i].ofst} (0 <= i && i < len(s.ss)) ==> s.ss[i] == old(s.ss[i])
  ensures stackOk(s)

func Source.PopState(s)
  property C02
  requires len(s.ss) > 0 && stackOk(s) && len(s.code) < 4294967296
  modifies s.ss, s.state
  ensures s.state == old(s.ss[len(s.ss) - 1])
  ensures len(s.ss) == old(len(s.ss)) - 1
  ensures forall i int :: {s.ss[i].ofst} (0 <= i && i < len(s.ss)) ==> s.ss[i] == old(s.ss[i])
  ensures ok(s) && stackOk(s)

func Source.advance(s) (r)
  property C01
  requires ok(s)
  modifies s.state.runes, s.state.ofst, s.state.pos
  ensures ok(s)
  ensures r == old(chAt(s.code, s.state.ofst))
  ensures s.state.ofst == old(s.state.ofst + dsize(s.code, s.state.ofst))

func Source.Peek(s) (r)
  property C01, C02
  requires ok(s)
  ensures r == chAt(s.code, s.state.ofst)

func Source.Ahead2nd(s) (r)
  property C01, C02
  requires ok(s)
  ensures s.state.ofst >= len(s.code) ==> r == EOF
  ensures s.state.ofst < len(s.code) ==> r == chAt(s.code, s.state.ofst + dsize(s.code, s.state.ofst))

func Source.AheadIsCh(s, c) (b)
  property C01, C02
  requires ok(s)
  ensures b <==> chAt(s.code, s.state.ofst) == c

func Source.AheadIsChOr(s, c1, c2) (b)
  property C01, C02
  requires ok(s)
  ensures b <==> (chAt(s.code, s.state.ofst) == c1 || chAt(s.code, s.state.ofst) == c2)

func Source.AheadIsChs2(s, c1, c2) (b)
  property C01, C02
  requires ok(s)
  ensures s.state.ofst < len(s.code) ==> (b <==> (chAt(s.code, s.state.ofst) == c1 && chAt(s.code, s.state.ofst + dsize(s.code, s.state.ofst)) == c2))
  ensures (s.state.ofst >= len(s.code) && c1 != EOF) ==> !b

func Source.AheadIsEOF(s) (b)
  property C01, C02
  requires ok(s)
  ensures b <==> s.state.ofst == len(s.code)

def isLT(c rune) = c == 0x0a || c == 0x0d || c == 0x2028 || c == 0x2029

func IsLineTerminator(c) (b)
  property C01
  ensures b <==> isLT(c)

// bytes taken by one Read at offset i: CR LF counts as one
def readLen(code string, i int) =
  ite(i < len(code) && drune(code, i) == 13 && i + 1 < len(code) && drune(code, i + 1) == 10, 2, dsize(code, i))
def readCh(code string, i int) = ite(chAt(code, i) == 13, EOL, chAt(code, i))

func Source.Read(s) (r)
  property C01
  requires ok(s)
  modifies s.state.runes, s.state.ofst, s.state.pos
  ensures ok(s)
  ensures r == old(readCh(s.code, s.state.ofst))
  ensures s.state.ofst == old(s.state.ofst + readLen(s.code, s.state.ofst))

func Source.AdvanceIf(s, c) (b)
  property C01
  requires ok(s)
  modifies s.state.runes, s.state.ofst, s.state.pos
  ensures ok(s)
  ensures b <==> old(chAt(s.code, s.state.ofst)) == c
  ensures b ==> s.state.ofst == old(s.state.ofst + readLen(s.code, s.state.ofst))
  ensures !b ==> s.state == old(s.state)

func Source.Ofst(s) (r)
  property C01
  ensures r == s.state.ofst

func Source.Pos(s) (r)
  property C01
  ensures r == s.state.pos

func Source.MetLineTerm(s) (r)
  property C01
  ensures r == s.state.metLineTerm

func Source.NewOpenRange(s) (r)
  property C01
  ensures r.Lo == s.state.ofst && r.Hi == s.state.ofst

func Source.OpenRange(s, rng)
  property C01
  requires rng != nil
  modifies rng.Lo
  ensures rng.Lo == s.state.ofst

// wsEnd(s,i): the offset of the first code point at or after i that is not white space
fun wsEnd(string, int) int
fun wsLT(string, int) bool
axiom def wsend_stop = forall s string, i int :: {wsEnd(s, i)} (0 <= i && (i >= len(s) || !isSpaceU(drune(s, i)))) ==> (wsEnd(s, i) == i && !wsLT(s, i))
axiom def wsend_step = forall s string, i int :: {wsEnd(s, i)} (0 <= i && i < len(s) && isSpaceU(drune(s, i))) ==> (wsEnd(s, i) == wsEnd(s, i + dsize(s, i)) && (wsLT(s, i) <==> (isLT(drune(s, i)) || wsLT(s, i + dsize(s, i)))))

func Source.SkipSpace(s) (r)
  property C01
  requires ok(s)
  modifies s.state
  ensures r == s
  ensures ok(s)
  ensures s.state.ofst == old(wsEnd(s.code, s.state.ofst))
  ensures s.state.ofst >= old(s.state.ofst)
  ensures s.state.metLineTerm <==> old(wsLT(s.code, s.state.ofst))
  loop 0
    invariant ok(s)
    invariant s.code == old(s.code) && s.state.ofst >= old(s.state.ofst)
    invariant wsEnd(s.code, s.state.ofst) == wsEnd(s.code, old(s.state.ofst))
    invariant (s.state.metLineTerm || wsLT(s.code, s.state.ofst)) <==> wsLT(s.code, old(s.state.ofst))
    decreases len(s.code) - s.state.ofst

func Source.Text(s, lo, hi) (r)
  property C01
  requires lo <= hi && hi <= len(s.code)
  ensures r == s.code[lo:hi]

func Source.Len(s) (r)
  property C01
  ensures r == len(s.code)

func Source.RngText(s, rng) (r)
  property C01
  requires rng.Lo <= rng.Hi && rng.Hi <= len(s.code)
  ensures r == s.code[rng.Lo:rng.Hi]

func Range.Before(r, o) (b)
  property C03
  ensures b <==> r.Hi < o.Lo
func Range.Empty(r) (b)
  property C03
  ensures b <==> (r.Lo == 0 && r.Hi == 0)
func Range.Valid(r) (b)
  property C03
  ensures b <==> r.Lo <= r.Hi

// ---------------------------------------------------------------- lines and columns
immutable linefeed

// nb(s,i,o): number of line breaks from i on that end at or before offset o;
// ls(s,i,o): where the line holding offset o starts
fun nb(string, int, int) int
fun ls(string, int, int) int
axiom def nb_stop = forall s string, i int, o int :: {nb(s, i, o), brk(s, i)} (0 <= i && i <= len(s) && (brk(s, i) < 0 || brk(s, i) > o)) ==> (nb(s, i, o) == 0 && ls(s, i, o) == i)
axiom def nb_step = forall s string, i int, o int :: {nb(s, i, o), brk(s, i)} (0 <= i && i <= len(s) && 0 <= brk(s, i) && brk(s, i) <= o) ==> (nb(s, i, o) == 1 + nb(s, brk(s, i), o) && ls(s, i, o) == ls(s, brk(s, i), o))

def lineOf(s string, o int) = 1 + nb(s, 0, o)
def colOf(s string, o int) = nrunes(s[ls(s, 0, o):o])

func Source.LineCol(s, rng) (from, to)
  property C03
  requires len(s.code) < 4294967295
  requires rng.Lo <= rng.Hi && rng.Hi <= len(s.code)
  ensures from.Line == lineOf(s.code, rng.Lo)
  ensures from.Col == colOf(s.code, rng.Lo)
  ensures to.Line == lineOf(s.code, rng.Hi)
  ensures to.Col == colOf(s.code, rng.Hi)
  loop 0
    invariant 0 <= cur && cur <= len(s.code)
    invariant 1 <= line && line <= cur + 1
    invariant cur <= ofst
    invariant view(arr(buf)) == s.code && off(buf) == 0 && len(buf) == len(s.code)
    invariant nb(s.code, 0, rng.Hi) == line - 1 + nb(s.code, cur, rng.Hi)
    invariant ls(s.code, 0, rng.Hi) == ls(s.code, cur, rng.Hi)
    invariant i == 0 || i == 1
    invariant i == 0 ==> (ofst == rng.Lo && pos == addr(from))
    invariant i == 1 ==> (ofst == rng.Hi && pos == addr(to))
    invariant i == 0 ==> (nb(s.code, 0, rng.Lo) == line - 1 + nb(s.code, cur, rng.Lo) && ls(s.code, 0, rng.Lo) == ls(s.code, cur, rng.Lo))
    invariant i == 1 ==> (from.Line == lineOf(s.code, rng.Lo) && from.Col == colOf(s.code, rng.Lo))
    decreases 1 - i, len(s.code) - cur

func Source.OfstLineCol(s, ofst) (pos)
  property C03
  requires len(s.code) < 4294967295
  requires ofst <= len(s.code)
  ensures pos.Line == lineOf(s.code, ofst)
  ensures pos.Col == colOf(s.code, ofst)
  loop 0
    invariant 0 <= cur && cur <= len(s.code) && cur <= ofst
    invariant 1 <= line && line <= cur + 1
    invariant nb(s.code, 0, ofst) == line - 1 + nb(s.code, cur, ofst)
    invariant ls(s.code, 0, ofst) == ls(s.code, cur, ofst)
    invariant view(arr(buf)) == s.code && off(buf) == 0 && len(buf) == len(s.code)
    decreases len(s.code) - cur
