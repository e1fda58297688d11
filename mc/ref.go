package main

// The reference model: paths and filter expressions as plain trees, a
// printer that spells them, and an evaluator that follows the documented
// semantics. Where the documentation leaves a result open, the evaluator
// says undefined, and nothing is compared.

import (
	"math"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

type SelKind uint8

const (
	SKey SelKind = iota
	SIdx
	SWild
	SSlice
	SFilter
	SNumComp // numeric component of a simple path: a key or an index
)

// Sel is one alternative between brackets, or one dotted step.
type Sel struct {
	K     SelKind
	Key   string
	Idx   int
	Arr   bool     // SIdx selects nothing on objects, whatever their keys
	Slice [3]*Expr // start, end, step, nil if omitted
	Form  int      // slice spelling: 0 shortest, 1 with both colons
	F     *Expr
	Text  string // spelling to use instead of the canonical one
}

// Step is a step of a path.
type Step struct {
	Rec  bool
	Sels []*Sel
	Text string // spelling to use instead of the canonical one, including dots
}

// Path is a path from the root ($) or from the current node (@).
type Path struct {
	Cur   bool
	Steps []*Step
}

type EKind uint8

const (
	ELit EKind = iota
	EPath
	EUn
	EBin
	EList
	ELen  // length(path)
	ELenM // path.length()
)

type Expr struct {
	K    EKind
	Lit  Val
	Text string // literal spelling
	P    *Path
	Op   string
	L, R *Expr
	List []*Expr
}

// ---------------------------------------------------------------- values

type VKind uint8

const (
	VUndef   VKind = iota // not specified
	VMissing              // a path that selects nothing
	VMulti                // a path that selects several nodes
	VNull
	VBool
	VNum
	VStr
	VArr // an array node
	VObj // an object node
	VList
	VInvalid // result of arithmetic on something without a number
)

type Val struct {
	K VKind
	B bool
	// Numbers: the integer value if Int, else F. MayInt tells that some
	// representation of the document makes this a Go int.
	Int   bool
	I     int
	F     float64
	S     string
	Node  *Node
	Nodes []*Node
	List  []Val
}

func vInt(i int) Val       { return Val{K: VNum, Int: true, I: i} }
func vFloat(f float64) Val { return Val{K: VNum, F: f} }
func vBool(b bool) Val     { return Val{K: VBool, B: b} }
func vStr(s string) Val    { return Val{K: VStr, S: s} }

func (v Val) float() float64 {
	if v.Int {
		return float64(v.I)
	}
	return v.F
}

func (v Val) scalar() bool { return v.K == VNull || v.K == VBool || v.K == VNum || v.K == VStr }

func nodeVal(n *Node) Val {
	switch n.Kind {
	case KNull:
		return Val{K: VNull, Node: n}
	case KBool:
		return Val{K: VBool, B: n.B, Node: n}
	case KInt:
		return Val{K: VNum, Int: true, I: n.I, Node: n}
	case KFloat:
		return Val{K: VNum, F: n.F, Node: n}
	case KStr:
		return Val{K: VStr, S: n.S, Node: n}
	case KArr:
		return Val{K: VArr, Node: n}
	}
	return Val{K: VObj, Node: n}
}

// Tri is a truth value or undefined
type Tri int8

const (
	F Tri = iota
	T
	U
)

func tri(b bool) Tri {
	if b {
		return T
	}
	return F
}
func (t Tri) not() Tri {
	switch t {
	case T:
		return F
	case F:
		return T
	}
	return U
}
func (t Tri) String() string { return [...]string{"false", "true", "undefined"}[t] }

func or3(a, b Tri) Tri {
	if a == T || b == T {
		return T
	}
	if a == U || b == U {
		return U
	}
	return F
}
func and3(a, b Tri) Tri { return or3(a.not(), b.not()).not() }

// cmpNum compares two numbers by value: -1, 0, 1
func cmpNum(a, b Val) int {
	if a.Int && b.Int {
		switch {
		case a.I < b.I:
			return -1
		case a.I > b.I:
			return 1
		}
		return 0
	}
	x := new(big.Float).SetPrec(200)
	y := new(big.Float).SetPrec(200)
	if a.Int {
		x.SetInt64(int64(a.I))
	} else {
		x.SetFloat64(a.F)
	}
	if b.Int {
		y.SetInt64(int64(b.I))
	} else {
		y.SetFloat64(b.F)
	}
	return x.Cmp(y)
}

func exactFloat(v Val) bool {
	return !v.Int || (v.I <= maxExact && v.I >= -maxExact)
}

func nan(v Val) bool { return v.K == VNum && !v.Int && (math.IsNaN(v.F)) }

func truth(v Val) Tri {
	switch v.K {
	case VMissing:
		return F
	case VMulti, VArr, VObj:
		return T
	case VBool:
		return tri(v.B)
	case VNum:
		if nan(v) {
			return U
		}
		return tri(v.float() != 0)
	case VStr:
		return tri(len(v.S) != 0)
	}
	return U
}

func refEq(a, b Val) Tri {
	if b.scalar() && !a.scalar() {
		a, b = b, a
	}
	if !a.scalar() {
		return U
	}
	switch b.K {
	case VUndef, VMulti:
		return U
	case VList:
		for _, e := range b.List {
			if e.K == VUndef || e.K == VInvalid {
				return U
			}
		}
		return F
	case VInvalid:
		if a.K == VNum {
			return F
		}
		return U
	case VMissing, VArr, VObj:
		return F
	}
	if a.K != b.K {
		return F
	}
	switch a.K {
	case VNull:
		return T
	case VBool:
		return tri(a.B == b.B)
	case VStr:
		return tri(a.S == b.S)
	}
	if nan(a) || nan(b) {
		return U
	}
	if a.Int != b.Int && !(exactFloat(a) && exactFloat(b)) {
		return U
	}
	return tri(cmpNum(a, b) == 0)
}

// refEq3 is refEq, but open where a number of one representation may meet
// an equal one of another: the documents' models choose how they represent
// integers, and so do computations
func refEq3(l, r *Expr, a, b Val) Tri {
	t := refEq(a, b)
	if t != T || a.K != VNum {
		return t
	}
	if a.Node != nil && b.Node != nil && a.Node.Kind == b.Node.Kind || l.K == ELit && r.K == ELit && a.Int == b.Int {
		return T
	}
	return U
}

func refOrd(op string, a, b Val) Tri {
	ordered := func(v Val) bool { return v.K == VNum || v.K == VStr }
	none := func(v Val) bool { return v.K == VMissing || v.K == VArr || v.K == VObj }
	if ordered(a) && none(b) || none(a) && ordered(b) {
		return F
	}
	if !ordered(a) || a.K != b.K {
		return U
	}
	var c int
	if a.K == VStr {
		c = strings.Compare(a.S, b.S)
	} else {
		if nan(a) || nan(b) {
			return U
		}
		if a.Int != b.Int && !(exactFloat(a) && exactFloat(b)) {
			return U
		}
		c = cmpNum(a, b)
	}
	switch op {
	case "<":
		return tri(c < 0)
	case "<=":
		return tri(c <= 0)
	case ">":
		return tri(c > 0)
	}
	return tri(c >= 0)
}

const maxExact = 1<<53 - 1

// num makes a number of f: an int if both operands were
func num(f float64, isInt bool) Val {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return Val{}
	}
	if isInt {
		if math.Abs(f) > maxExact {
			return Val{}
		}
		return vInt(int(f))
	}
	return vFloat(f)
}

func integral(v Val) bool {
	f := v.float()
	return f == math.Trunc(f)
}

func refArith(op string, a, b Val) Val {
	// Strings and booleans may be coerced to numbers
	kind := func(v Val) VKind {
		switch v.K {
		case VNum:
			return VNum
		case VNull, VMissing, VArr, VObj, VInvalid:
			return VInvalid
		}
		return VUndef
	}
	ka, kb := kind(a), kind(b)
	if ka == VInvalid || kb == VInvalid {
		return Val{K: VInvalid}
	}
	if ka != VNum || kb != VNum {
		return Val{}
	}
	x, y := a.float(), b.float()
	isInt := a.Int && b.Int
	if exactInts && isInt && op != "**" {
		return bigArith(op, a.I, b.I)
	}
	if !exactFloat(a) || !exactFloat(b) || nan(a) || nan(b) {
		return Val{}
	}
	switch op {
	case "+":
		return num(x+y, isInt)
	case "-":
		return num(x-y, isInt)
	case "*":
		return num(x*y, isInt)
	case "/":
		if y == 0 {
			return Val{}
		}
		if integral(a) && integral(b) && math.Mod(x, y) != 0 {
			// The representation decides if this truncates
			return Val{}
		}
		return num(x/y, isInt)
	case "%":
		if y == 0 {
			return Val{}
		}
		m := math.Mod(x, y)
		if m != 0 && (x < 0 || y < 0) {
			return Val{}
		}
		return num(m, isInt)
	case "**":
		return num(math.Pow(x, y), false)
	}
	panic(op)
}

// exactInts: documents hold Go ints, and operations on them are exact
// unless they overflow
var exactInts bool

func bigArith(op string, i, j int) Val {
	a, b := big.NewInt(int64(i)), big.NewInt(int64(j))
	r := new(big.Int)
	switch op {
	case "+":
		r.Add(a, b)
	case "-":
		r.Sub(a, b)
	case "*":
		r.Mul(a, b)
	default:
		if j == 0 {
			return Val{}
		}
		m := new(big.Int)
		r.QuoRem(a, b, m)
		if op == "%" {
			if m.Sign() != 0 && (i < 0 || j < 0) {
				return Val{}
			}
			r = m
		} else if m.Sign() != 0 {
			return Val{}
		}
	}
	if !r.IsInt64() || r.Int64() == math.MinInt64 {
		return Val{}
	}
	return vInt(int(r.Int64()))
}

func refNeg(a Val) Val {
	switch a.K {
	case VNum:
		if a.Int {
			return vInt(-a.I)
		}
		return vFloat(-a.F)
	case VNull, VMissing, VArr, VObj, VInvalid:
		return Val{K: VInvalid}
	}
	return Val{}
}

func refIn(x, list Val) Tri {
	var els []Val
	switch list.K {
	case VMissing:
		return F
	case VList:
		els = list.List
	case VArr:
		for _, e := range list.Node.Elems {
			els = append(els, nodeVal(e))
		}
	case VMulti:
		for _, e := range list.Nodes {
			els = append(els, nodeVal(e))
		}
	default:
		return U
	}
	r := F
	for _, e := range els {
		r = or3(r, refEq(x, e))
	}
	return r
}

// eval evaluates e with the current node cur
func (e *Expr) eval(root, cur *Node) Val {
	switch e.K {
	case ELit:
		return e.Lit
	case EPath:
		ns, ok := e.P.eval(root, cur)
		if !ok {
			return Val{}
		}
		switch len(ns) {
		case 0:
			return Val{K: VMissing}
		case 1:
			return nodeVal(ns[0])
		}
		return Val{K: VMulti, Nodes: ns}
	case ELen, ELenM:
		if e.List != nil {
			return vInt(len(e.List))
		}
		ns, ok := e.P.eval(root, cur)
		if !ok || len(ns) != 1 || ns[0].Kind != KArr {
			return Val{}
		}
		return vInt(len(ns[0].Elems))
	case EList:
		v := Val{K: VList}
		for _, x := range e.List {
			v.List = append(v.List, x.eval(root, cur))
		}
		return v
	case EUn:
		v := e.L.eval(root, cur)
		switch e.Op {
		case "!":
			t := truth(v)
			if t == U {
				return Val{}
			}
			return vBool(t == F)
		case "-":
			return refNeg(v)
		case "+":
			return v
		}
	case EBin:
		var t Tri
		switch e.Op {
		case "&&":
			t = and3(truth(e.L.eval(root, cur)), truth(e.R.eval(root, cur)))
		case "||":
			t = or3(truth(e.L.eval(root, cur)), truth(e.R.eval(root, cur)))
		case "==":
			t = refEq(e.L.eval(root, cur), e.R.eval(root, cur))
		case "!=":
			t = refEq(e.L.eval(root, cur), e.R.eval(root, cur)).not()
		case "===":
			t = refEq3(e.L, e.R, e.L.eval(root, cur), e.R.eval(root, cur))
		case "!==":
			t = refEq3(e.L, e.R, e.L.eval(root, cur), e.R.eval(root, cur)).not()
		case "<", "<=", ">", ">=":
			t = refOrd(e.Op, e.L.eval(root, cur), e.R.eval(root, cur))
		case "in":
			t = refIn(e.L.eval(root, cur), e.R.eval(root, cur))
		default:
			return refArith(e.Op, e.L.eval(root, cur), e.R.eval(root, cur))
		}
		if t == U {
			return Val{}
		}
		return vBool(t == T)
	}
	panic("expression")
}

// sliceRange returns the indexes a Python slice selects, in slice order.
func sliceIdx(n int, start, end, step *int) []int {
	st := 1
	if step != nil {
		st = *step
	}
	if st == 0 {
		return nil
	}
	lo, hi := 0, n
	if st < 0 {
		lo, hi = -1, n-1
	}
	clamp := func(p *int, def int) int {
		if p == nil {
			return def
		}
		x := *p
		if x < 0 {
			x += n // cannot overflow: x < 0
		}
		if x < lo {
			return lo
		}
		if x > hi {
			return hi
		}
		return x
	}
	var out []int
	if st > 0 {
		a, b := clamp(start, 0), clamp(end, n)
		for i := a; i < b; {
			out = append(out, i)
			if st >= b-i {
				break
			}
			i += st
		}
		return out
	}
	a, b := clamp(start, n-1), clamp(end, -1)
	for i := a; i > b; {
		out = append(out, i)
		if st <= b-i {
			break
		}
		i += st
	}
	return out
}

// sliceOf evaluates the bounds of the slice at the array, and returns
// the selected indexes.
func (s *Sel) sliceOf(root, arr *Node) ([]int, bool) {
	var b [3]*int
	for i, e := range s.Slice {
		if e == nil {
			continue
		}
		v := e.eval(root, arr)
		if v.K != VNum || !v.Int {
			if v.K != VNum || v.F != math.Trunc(v.F) || math.Abs(v.F) > maxExact {
				return nil, false
			}
			v = vInt(int(v.F))
		}
		x := v.I
		b[i] = &x
	}
	return sliceIdx(len(arr.Elems), b[0], b[1], b[2]), true
}

func digitKey(s string) bool {
	if _, err := strconv.ParseInt(s, 0, 64); err == nil {
		return true
	}
	if _, err := strconv.Atoi(s); err == nil {
		return true
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		return true
	}
	return false
}

// matches tells if the selector selects the child c of its parent.
func (s *Sel) matches(root, c *Node) Tri {
	p := c.Parent
	switch s.K {
	case SKey:
		if p.Kind == KObj {
			return tri(c.Name == s.Key)
		}
		if digitKey(s.Key) {
			return U
		}
		return F
	case SIdx:
		if p.Kind == KObj {
			if digitKey(c.Name) && !s.Arr {
				return U
			}
			return F
		}
		i := s.Idx
		if i < 0 {
			i += len(p.Elems)
		}
		return tri(c.Index == i)
	case SNumComp:
		if p.Kind == KObj {
			return tri(c.Name == s.Key)
		}
		return tri(c.Index == s.Idx)
	case SWild:
		return T
	case SSlice:
		if p.Kind != KArr {
			return F
		}
		if len(p.Elems) > 2000 {
			return s.inSlice(root, p, c.Index)
		}
		ix, ok := s.sliceOf(root, p)
		if !ok {
			return U
		}
		for _, i := range ix {
			if i == c.Index {
				return T
			}
		}
		return F
	case SFilter:
		return truth(s.F.eval(root, c))
	}
	panic("selector")
}

// lastSlice keeps the indexes of the last slice of a large array
var lastSlice = map[*Sel]sliceSet{}
var lastSliceMu sync.Mutex

type sliceSet struct {
	root, arr *Node
	in        []bool
	ok        bool
}

func (s *Sel) inSlice(root, arr *Node, i int) Tri {
	lastSliceMu.Lock()
	defer lastSliceMu.Unlock()
	l, have := lastSlice[s]
	if !have || l.root != root || l.arr != arr {
		l = sliceSet{root: root, arr: arr, in: make([]bool, len(arr.Elems))}
		var ix []int
		ix, l.ok = s.sliceOf(root, arr)
		for _, j := range ix {
			l.in[j] = true
		}
		if len(lastSlice) > 8 {
			clear(lastSlice)
		}
		lastSlice[s] = l
	}
	if !l.ok {
		return U
	}
	return tri(l.in[i])
}

func (st *Step) matches(root, c *Node) Tri {
	r := F
	for _, s := range st.Sels {
		r = or3(r, s.matches(root, c))
		if r == T {
			break
		}
	}
	return r
}

// apply returns what the step selects from n, in order. Not ok: undefined.
func (st *Step) apply(root, n *Node, out []*Node) ([]*Node, bool) {
	if st.Rec {
		for _, c := range n.Elems {
			switch st.matches(root, c) {
			case T:
				out = append(out, c)
			case U:
				return nil, false
			}
			var ok bool
			if out, ok = st.apply(root, c, out); !ok {
				return nil, false
			}
		}
		return out, true
	}
	if len(st.Sels) == 1 && st.Sels[0].K == SSlice {
		if n.Kind != KArr {
			return out, true
		}
		ix, ok := st.Sels[0].sliceOf(root, n)
		if !ok {
			return nil, false
		}
		for _, i := range ix {
			out = append(out, n.Elems[i])
		}
		return out, true
	}
	for _, c := range n.Elems {
		switch st.matches(root, c) {
		case T:
			out = append(out, c)
		case U:
			return nil, false
		}
	}
	return out, true
}

func (st *Step) applyAll(root *Node, in []*Node) ([]*Node, bool) {
	var out []*Node
	for _, n := range in {
		var ok bool
		if out, ok = st.apply(root, n, out); !ok {
			return nil, false
		}
	}
	return out, true
}

func (p *Path) eval(root, cur *Node) ([]*Node, bool) {
	ns := []*Node{root}
	if p.Cur {
		ns = []*Node{cur}
	}
	for _, st := range p.Steps {
		var ok bool
		if ns, ok = st.applyAll(root, ns); !ok {
			return nil, false
		}
	}
	return ns, true
}

// ---------------------------------------------------------------- spelling

func isIdent(s string) bool {
	if s == "" || s == "in" || s == "null" || s == "true" || s == "false" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9' {
			continue
		}
		return false
	}
	return true
}

// quote spells s as a string literal
func quote(s string, q byte) string {
	var b strings.Builder
	b.WriteByte(q)
	for _, r := range s {
		switch {
		case r == rune(q) || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString("\\n")
		case r == '\r':
			b.WriteString("\\r")
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func (s *Sel) text() string {
	if s.Text != "" {
		return s.Text
	}
	switch s.K {
	case SKey:
		return quote(s.Key, '\'')
	case SIdx:
		return strconv.Itoa(s.Idx)
	case SWild:
		return "*"
	case SSlice:
		t := ""
		if s.Slice[0] != nil {
			t += s.Slice[0].text()
		}
		t += ":"
		if s.Slice[1] != nil {
			t += s.Slice[1].text()
		}
		if s.Slice[2] != nil || s.Form == 1 {
			t += ":"
		}
		if s.Slice[2] != nil {
			t += s.Slice[2].text()
		}
		return t
	case SFilter:
		return "?(" + s.F.text() + ")"
	}
	panic("selector")
}

func (st *Step) text() string {
	if st.Text != "" {
		return st.Text
	}
	dots := ""
	if st.Rec {
		dots = ".."
	}
	if len(st.Sels) == 1 && st.Sels[0].Text == "" {
		s := st.Sels[0]
		if s.K == SKey && isIdent(s.Key) || s.K == SWild {
			if dots == "" {
				dots = "."
			}
			if s.K == SWild {
				return dots + "*"
			}
			return dots + s.Key
		}
	}
	t := make([]string, len(st.Sels))
	for i, s := range st.Sels {
		t[i] = s.text()
	}
	return dots + "[" + strings.Join(t, ",") + "]"
}

func (p *Path) text() string {
	var b strings.Builder
	if p.Cur {
		b.WriteByte('@')
	} else {
		b.WriteByte('$')
	}
	for _, st := range p.Steps {
		b.WriteString(st.text())
	}
	return b.String()
}

func litText(v Val) string {
	switch v.K {
	case VNull:
		return "null"
	case VBool:
		return strconv.FormatBool(v.B)
	case VStr:
		return quote(v.S, '"')
	case VNum:
		if v.Int {
			return strconv.Itoa(v.I)
		}
		s := strconv.FormatFloat(v.F, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	}
	panic("literal")
}

var prec = map[string]int{
	"u": 12, "**": 11, "*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<": 8, "<=": 8, ">": 8, ">=": 8,
	"in": 7, "==": 6, "!=": 6, "===": 6, "!==": 6, "&&": 2, "||": 1,
}

// text spells the expression with all subexpressions in parentheses
func (e *Expr) text() string { return e.spell(true) }

// spell with full parentheses, or with none at all
func (e *Expr) spell(full bool) string {
	sub := func(x *Expr) string {
		t := x.spell(full)
		if full && (x.K == EUn || x.K == EBin) {
			return "(" + t + ")"
		}
		return t
	}
	switch e.K {
	case ELit:
		if e.Text != "" {
			return e.Text
		}
		return litText(e.Lit)
	case EPath:
		return e.P.text()
	case ELen:
		if e.List != nil {
			return "length(" + list(e.List...).text() + ")"
		}
		return "length(" + e.P.text() + ")"
	case ELenM:
		return e.P.text() + ".length()"
	case EList:
		t := make([]string, len(e.List))
		for i, x := range e.List {
			t[i] = sub(x)
		}
		return "[" + strings.Join(t, ",") + "]"
	case EUn:
		return e.Op + sub(e.L)
	}
	if full {
		return sub(e.L) + " " + e.Op + " " + sub(e.R)
	}
	return sub(e.L) + " " + e.Op + " " + sub(e.R)
}

// ---------------------------------------------------------------- constructors

func key(s string) *Sel               { return &Sel{K: SKey, Key: s} }
func idx(i int) *Sel                  { return &Sel{K: SIdx, Idx: i} }
func wild() *Sel                      { return &Sel{K: SWild} }
func filt(e *Expr) *Sel               { return &Sel{K: SFilter, F: e} }
func slc(a, b, c *Expr) *Sel          { return &Sel{K: SSlice, Slice: [3]*Expr{a, b, c}} }
func step(s ...*Sel) *Step            { return &Step{Sels: s} }
func rec(s ...*Sel) *Step             { return &Step{Rec: true, Sels: s} }
func path(s ...*Step) *Path           { return &Path{Steps: s} }
func cur(s ...*Step) *Path            { return &Path{Cur: true, Steps: s} }
func ePath(p *Path) *Expr             { return &Expr{K: EPath, P: p} }
func eCur(s ...*Step) *Expr           { return ePath(cur(s...)) }
func eRoot(s ...*Step) *Expr          { return ePath(path(s...)) }
func lit(v Val) *Expr                 { return &Expr{K: ELit, Lit: v} }
func eInt(i int) *Expr                { return lit(vInt(i)) }
func eF(f float64) *Expr              { return lit(vFloat(f)) }
func eStr(s string) *Expr             { return lit(vStr(s)) }
func eBool(b bool) *Expr              { return lit(vBool(b)) }
func eNull() *Expr                    { return lit(Val{K: VNull}) }
func bin(op string, a, b *Expr) *Expr { return &Expr{K: EBin, Op: op, L: a, R: b} }
func un(op string, a *Expr) *Expr     { return &Expr{K: EUn, Op: op, L: a} }
func list(e ...*Expr) *Expr           { return &Expr{K: EList, List: e} }
func optInt(p *int) *Expr {
	if p == nil {
		return nil
	}
	return eInt(*p)
}

var _ = utf8.RuneError

func itoa(i int) string { return strconv.Itoa(i) }
