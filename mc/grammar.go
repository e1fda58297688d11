package main

// The published grammar (Jsonpath.g4), as a lexer and a recognizer that
// share nothing with the generated parser.

import (
	"strings"
	"unicode/utf8"
)

// Tok is a terminal of the grammar
type Tok uint8

const (
	tNone Tok = iota
	tSlash
	tStar
	tDollar
	tAt
	tLPar
	tRPar
	tComma
	tColon
	tDot
	tDots
	tLBr
	tRBr
	tPlus
	tMinus
	tTilde
	tNot
	tPow
	tPercent
	tLt
	tGt
	tLe
	tGe
	tIn
	tEq
	tNe
	tEq3
	tNe3
	tAmp
	tCaret
	tPipe
	tAnd
	tOr
	tFilter // ?(
	tEllipsis
	tNull
	tBool
	tDec
	tStr
	tHex
	tOct
	tBin
	tSP
	tIdent
	tMax
)

// fixed tokens, longest first where one is a prefix of another
var fixedToks = []struct {
	s string
	t Tok
}{
	{"/", tSlash}, {"*", tStar}, {"$", tDollar}, {"@", tAt}, {"(", tLPar}, {")", tRPar}, {",", tComma}, {":", tColon}, {".", tDot}, {"..", tDots}, {"[", tLBr}, {"]", tRBr},
	{"+", tPlus}, {"-", tMinus}, {"~", tTilde}, {"!", tNot}, {"**", tPow}, {"%", tPercent}, {"<", tLt}, {">", tGt}, {"<=", tLe}, {">=", tGe}, {"in", tIn}, {"==", tEq}, {"!=", tNe}, {"===", tEq3}, {"!==", tNe3},
	{"&", tAmp}, {"^", tCaret}, {"|", tPipe}, {"&&", tAnd}, {"||", tOr}, {"?(", tFilter}, {"...", tEllipsis}, {"null", tNull}, {"true", tBool}, {"false", tBool},
}

// lex divides the input into tokens by the longest match; of tokens of the
// same length the one defined first. Not ok: no token matches somewhere.
// unknown: the input has characters about which the class is not known.
func lex(s string) (toks []Tok, ok, unknown bool) {
	if !utf8.ValidString(s) {
		return nil, false, true
	}
	for _, r := range s {
		if isNewer(r) && !inString(s) {
			unknown = true
		}
	}
	for len(s) > 0 {
		best, bt := 0, tNone
		take := func(n int, t Tok) {
			if n > best {
				best, bt = n, t
			}
		}
		for _, f := range fixedToks {
			if strings.HasPrefix(s, f.s) {
				take(len(f.s), f.t)
			}
		}
		take(lexDec(s), tDec)
		take(lexStr(s), tStr)
		take(lexBase(s, "xX", func(c byte) bool { return isHex(c) }), tHex)
		take(lexBase(s, "oO", func(c byte) bool { return c >= '0' && c <= '7' }), tOct)
		take(lexBase(s, "bB", func(c byte) bool { return c == '0' || c == '1' }), tBin)
		n := 0
		for n < len(s) && strings.IndexByte(" \n\t\r", s[n]) >= 0 {
			n++
		}
		take(n, tSP)
		take(lexIdent(s), tIdent)
		if best == 0 {
			return nil, false, unknown
		}
		toks = append(toks, bt)
		s = s[best:]
	}
	return toks, true, unknown
}

func inString(string) bool { return false }

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// hexDigit of the grammar includes the separator
func isHexSep(c byte) bool { return isHex(c) || c == '_' }

func digit(c byte) bool { return c >= '0' && c <= '9' }

func lexDec(s string) int {
	if len(s) == 0 || !digit(s[0]) {
		return 0
	}
	i := 1
	for i < len(s) && (digit(s[i]) || s[i] == '_') {
		i++
	}
	exp := func(i int) int {
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			j := i + 1
			if j < len(s) && (s[j] == '+' || s[j] == '-') {
				j++
			}
			k := j
			for k < len(s) && (digit(s[k]) || s[k] == '_') {
				k++
			}
			if k > j {
				return k
			}
		}
		return i
	}
	best := exp(i)
	// the fraction may follow any prefix of the integer part, but only its end has a point
	if i+1 < len(s) && s[i] == '.' && digit(s[i+1]) {
		j := i + 2
		for j < len(s) && (digit(s[j]) || s[j] == '_') {
			j++
		}
		if e := exp(j); e > best {
			best = e
		}
	}
	return best
}

func lexBase(s, p string, f func(byte) bool) int {
	if len(s) < 3 || s[0] != '0' || strings.IndexByte(p, s[1]) < 0 || !f(s[2]) {
		return 0
	}
	i := 3
	for i < len(s) && (f(s[i]) || s[i] == '_') {
		i++
	}
	return i
}

// uniEsc is the length of u HexDigit*4 or u{HexDigit HexDigit+}
func uniEsc(s string, min int) int {
	if len(s) < 2 || s[0] != 'u' {
		return 0
	}
	if s[1] == '{' {
		i := 2
		for i < len(s) && isHexSep(s[i]) {
			i++
		}
		if i-2 >= min && i < len(s) && s[i] == '}' {
			return i + 1
		}
		return 0
	}
	if len(s) >= 5 && isHexSep(s[1]) && isHexSep(s[2]) && isHexSep(s[3]) && isHexSep(s[4]) {
		return 5
	}
	return 0
}

func lexIdent(s string) int {
	i := 0
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == '\\':
			k := uniEsc(s[i+1:], 2)
			if k == 0 {
				return i
			}
			i += 1 + k
			continue
		case i == 0 && identStart(r), i > 0 && identPart(r):
			i += n
			continue
		}
		return i
	}
	return i
}

// lexStr finds the longest string literal at the start: all the ways the
// characters can be read are followed.
func lexStr(s string) int {
	if len(s) == 0 || s[0] != '"' && s[0] != '\'' {
		return 0
	}
	q := s[0]
	best := 0
	seen := map[int]bool{}
	work := []int{1}
	add := func(i int) {
		if !seen[i] {
			seen[i] = true
			work = append(work, i)
		}
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		if i >= len(s) {
			continue
		}
		if s[i] == q && i+1 > best {
			best = i + 1
		}
		if s[i] != q && s[i] != '\\' && s[i] != '\r' && s[i] != '\n' {
			_, n := utf8.DecodeRuneInString(s[i:])
			add(i + n)
			continue
		}
		if s[i] != '\\' || i+1 >= len(s) {
			continue
		}
		// an escape
		r, n := utf8.DecodeRuneInString(s[i+1:])
		rest := s[i+1:]
		switch {
		case strings.ContainsRune(`'"\bfnrtv0`, r):
			add(i + 2)
		case r == 'x':
			if len(rest) >= 3 && isHexSep(rest[1]) && isHexSep(rest[2]) {
				add(i + 4)
			}
		case r == 'u':
			if k := uniEsc(rest, 1); k > 0 {
				add(i + 1 + k)
			}
		case r >= '1' && r <= '9':
		case r == '\r' || r == '\n':
		default:
			add(i + 1 + n)
		}
		// a line continuation
		for j := i + 1; j < len(s); {
			r, n := utf8.DecodeRuneInString(s[j:])
			if r != '\r' && r != '\n' && r != 0x2028 && r != 0x2029 {
				break
			}
			j += n
			add(j)
		}
	}
	return best
}

// ---------------------------------------------------------------- recognizer

// A table of what the tokens i..j-1 can be, filled by increasing length.
type recog struct {
	n                     int
	t                     []Tok
	expr                  []bool // [i*(n+1)+j]
	idx, idxList, arr     []bool
	exprList, elems, smpl []bool
	more                  []int8 // moreElems: 0 not known yet, 1 yes, -1 no
}

func isBin(t Tok) bool {
	switch t {
	case tPow, tStar, tSlash, tPercent, tPlus, tMinus, tLt, tGt, tLe, tGe, tIn, tEq, tNe, tEq3, tNe3, tAmp, tCaret, tPipe, tAnd, tOr, tDot, tDots:
		return true
	}
	return false
}

func isLit(t Tok) bool {
	switch t {
	case tNull, tBool, tDec, tStr, tHex, tOct, tBin:
		return true
	}
	return false
}

func isAtomTok(t Tok) bool {
	return isLit(t) || t == tIdent || t == tDollar || t == tAt || t == tStar
}

func newRecog(t []Tok) *recog {
	n := len(t)
	sz := (n + 1) * (n + 1)
	buf := make([]bool, 7*sz)
	r := &recog{n: n, t: t, more: make([]int8, sz)}
	for i, p := range []*[]bool{&r.expr, &r.idx, &r.idxList, &r.arr, &r.exprList, &r.elems, &r.smpl} {
		*p = buf[i*sz : (i+1)*sz]
	}
	return r
}

func (r *recog) at(tab []bool, i, j int) bool { return i <= j && tab[i*(r.n+1)+j] }

// sp is the position after optional white space at i
func (r *recog) sp(i int) int {
	if i < r.n && r.t[i] == tSP {
		return i + 1
	}
	return i
}

// spb is the position before optional white space that ends at j
func (r *recog) spb(j int) int {
	if j > 0 && r.t[j-1] == tSP {
		return j - 1
	}
	return j
}

// ends gives the one or two positions to end at before position j
func (r *recog) fill() {
	n := r.n
	for l := 0; l <= n; l++ {
		for i := 0; i+l <= n; i++ {
			j := i + l
			k := i*(n+1) + j
			r.expr[k] = r.isExpr(i, j)
			r.idx[k] = r.isIdx(i, j)
			r.idxList[k] = r.isIdxList(i, j)
			r.exprList[k] = r.isExprList(i, j)
			r.smpl[k] = r.isSmpl(i, j)
		}
	}
}

// both calls f for j and, if white space precedes it, for the place before it
func (r *recog) both(j int, f func(int) bool) bool {
	if f(j) {
		return true
	}
	if b := r.spb(j); b != j {
		return f(b)
	}
	return false
}

func (r *recog) isExpr(i, j int) bool {
	l := j - i
	if l <= 0 {
		return false
	}
	t := r.t
	if l == 1 {
		return isAtomTok(t[i])
	}
	first, last := t[i], t[j-1]
	if first == tSP || last == tSP {
		return false
	}
	// '(' expression ')', '?(' expression ')'
	if (first == tLPar || first == tFilter) && last == tRPar && r.at(r.expr, i+1, j-1) {
		return true
	}
	// prefix operators
	if first == tPlus || first == tMinus || first == tTilde || first == tNot {
		if r.at(r.expr, r.sp(i+1), j) {
			return true
		}
	}
	// array literal
	if first == tLBr && last == tRBr {
		a, b := r.sp(i+1), r.spb(j-1)
		if a > b {
			b = a
		}
		// the white space may also be part of the list
		for _, x := range []int{i + 1, a} {
			for _, y := range []int{j - 1, b} {
				if x <= y && r.isElems(x, y) {
					return true
				}
			}
		}
	}
	// expression .. at the end
	if last == tDots {
		if r.both(j-1, func(e int) bool { return r.at(r.expr, i, e) }) {
			return true
		}
	}
	// binary operators
	for m := i + 1; m < j-1; m++ {
		if isBin(t[m]) && r.at(r.expr, r.sp(m+1), j) && r.both(m, func(e int) bool { return r.at(r.expr, i, e) }) {
			return true
		}
	}
	// indexes
	if last == tRBr {
		for m := i + 1; m < j-1; m++ {
			if t[m] != tLBr || !r.bracket(m, j) {
				continue
			}
			if r.both(m, func(e int) bool {
				if r.at(r.expr, i, e) {
					return true
				}
				// expression .. [
				return e > i && t[e-1] == tDots && r.both(e-1, func(e2 int) bool { return r.at(r.expr, i, e2) })
			}) {
				return true
			}
		}
	}
	// arguments
	if last == tRPar {
		for m := i + 1; m < j; m++ {
			if t[m] == tLPar && r.at(r.expr, i, m) && (m+1 == j-1 || r.at(r.exprList, m+1, j-1) || t[j-2] == tComma && r.at(r.exprList, m+1, j-2)) {
				return true
			}
		}
	}
	return false
}

// bracket: '[' SP? indexExpression (SP? ',' SP? indexExpression)* SP? ']' at m..j-1
func (r *recog) bracket(m, j int) bool {
	a := r.sp(m + 1)
	return r.both(j-1, func(e int) bool { return r.at(r.idxList, a, e) })
}

func (r *recog) isIdx(i, j int) bool {
	if i >= j {
		return false
	}
	if r.at(r.expr, i, j) {
		return true
	}
	// expression? ':' expression? ':'? expression?
	opt := func(a, b int) bool { return a == b || r.at(r.expr, a, b) }
	for m := i; m < j; m++ {
		if r.t[m] != tColon || !opt(i, m) {
			continue
		}
		for x := m + 1; x <= j; x++ {
			if !opt(m+1, x) {
				continue
			}
			if opt(x, j) || x < j && r.t[x] == tColon && opt(x+1, j) {
				return true
			}
		}
	}
	return false
}

func (r *recog) isIdxList(i, j int) bool {
	if r.at(r.idx, i, j) {
		return true
	}
	for m := i + 1; m < j-1; m++ {
		if r.t[m] == tComma && r.at(r.idx, r.sp(m+1), j) && r.both(m, func(e int) bool { return r.at(r.idxList, i, e) }) {
			return true
		}
	}
	return false
}

func (r *recog) isExprList(i, j int) bool {
	if r.at(r.expr, i, j) {
		return true
	}
	for m := i + 1; m < j-1; m++ {
		if r.t[m] == tComma && r.at(r.exprList, i, m) && r.at(r.expr, m+1, j) {
			return true
		}
	}
	return false
}

// isElems: ','* SP? expression? (SP? ','+ SP? expression)* ','*
func (r *recog) isElems(i, j int) bool {
	a := i
	for {
		// white space, and the first expression
		for _, b := range []int{a, r.sp(a)} {
			if b > j {
				continue
			}
			if r.moreElems(b, j) {
				return true
			}
			for e := b + 1; e <= j; e++ {
				if r.at(r.expr, b, e) && r.moreElems(e, j) {
					return true
				}
			}
		}
		if a < j && r.t[a] == tComma {
			a++
			continue
		}
		return false
	}
}

func (r *recog) moreElems(i, j int) bool {
	m := &r.more[i*(r.n+1)+j]
	if *m == 0 {
		*m = -1
		if r.moreElems1(i, j) {
			*m = 1
		}
	}
	return *m > 0
}

func (r *recog) moreElems1(i, j int) bool {
	if i == j {
		return true
	}
	// only commas
	k := i
	for k < j && r.t[k] == tComma {
		k++
	}
	if k == j {
		return true
	}
	b := r.sp(i)
	k = b
	for k < j && r.t[k] == tComma {
		k++
		x := k
		if y := r.sp(k); y < j {
			for e := y + 1; e <= j; e++ {
				if r.at(r.expr, y, e) && r.moreElems(e, j) {
					return true
				}
			}
		}
		for e := x + 1; e <= j; e++ {
			if r.at(r.expr, x, e) && r.moreElems(e, j) {
				return true
			}
		}
	}
	return false
}

func (r *recog) isSmpl(i, j int) bool {
	if j-i == 1 {
		return isLit(r.t[i]) || r.t[i] == tIdent || r.t[i] == tStar
	}
	for m := i + 1; m < j-1; m++ {
		if r.t[m] == tSlash && r.at(r.smpl, r.sp(m+1), j) && r.both(m, func(e int) bool { return r.at(r.smpl, i, e) }) {
			return true
		}
	}
	return false
}

// derivesToks tells if the grammar derives the tokens
func derivesToks(t []Tok, simple bool) bool {
	n := len(t)
	if simple {
		if n == 0 || t[0] != tSlash {
			return false
		}
		r := newRecog(t)
		r.fill()
		return r.both(n, func(e int) bool { return r.at(r.smpl, 1, e) })
	}
	r := newRecog(t)
	r.fill()
	return r.both(n, func(e int) bool { return r.at(r.expr, 0, e) })
}

// derives tells if the grammar derives the input, or '/' alone
func derives(s string) (yes, unknown bool) {
	t, ok, unk := lex(s)
	if unk {
		return false, true
	}
	if !ok {
		return false, false
	}
	if len(t) > maxRecog {
		return longVerdict(s)
	}
	if strings.HasPrefix(s, "/") {
		if strings.TrimRight(s, " \n\t\r") == "/" {
			return true, false
		}
		return derivesToks(t, true), false
	}
	return derivesToks(t, false), false
}

// maxRecog is the number of tokens the recognizer is used for
const maxRecog = 90

// longVerdict knows some long inputs
func longVerdict(s string) (yes, unknown bool) {
	rep := func(s, x string) bool { return len(s)%len(x) == 0 && strings.Repeat(x, len(s)/len(x)) == s }
	pre, steps := "$", []string{".a", "[0]", "['a']", "..a", "[*]", "[0,1]", "[1:2]"}
	if strings.HasPrefix(s, "/a") {
		pre, steps = "/a", []string{"/a"}
	}
	rest, ok := strings.CutPrefix(s, pre)
	if !ok {
		return false, true
	}
	for _, x := range steps {
		if rep(rest, x) {
			return true, false
		}
		for _, y := range []string{"]", "[", ")", "'"} {
			if t, ok := strings.CutSuffix(rest, y); ok && rep(t, x) {
				return false, false
			}
		}
	}
	return false, true
}
