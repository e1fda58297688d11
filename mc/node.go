package main

// Reference documents: plain trees, with the order of keys and the
// representation of numbers explicit.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Kind uint8

const (
	KNull Kind = iota
	KBool
	KInt
	KFloat
	KStr
	KArr
	KObj
)

type Node struct {
	Kind  Kind
	B     bool
	I     int
	F     float64
	S     string
	Elems []*Node
	Keys  []string // objects only, same length as Elems

	Parent *Node
	Name   string
	Index  int
	ID     int
	Size   int // on the root: number of nodes

	byKey map[string]int // of large objects

	nat    [2]any // native value (float numbers, int numbers)
	hasNat [2]bool
}

func nNull() *Node        { return &Node{Kind: KNull} }
func nB(b bool) *Node     { return &Node{Kind: KBool, B: b} }
func nI(i int) *Node      { return &Node{Kind: KInt, I: i} }
func nF(f float64) *Node  { return &Node{Kind: KFloat, F: f} }
func nS(s string) *Node   { return &Node{Kind: KStr, S: s} }
func nA(e ...*Node) *Node { return &Node{Kind: KArr, Elems: e} }
func nO(kv ...any) *Node {
	n := &Node{Kind: KObj}
	for i := 0; i < len(kv); i += 2 {
		n.Keys = append(n.Keys, kv[i].(string))
		n.Elems = append(n.Elems, kv[i+1].(*Node))
	}
	return n
}

func (n *Node) isNum() bool    { return n.Kind == KInt || n.Kind == KFloat }
func (n *Node) isScalar() bool { return n.Kind < KArr }

// clone returns a deep copy without links
func (n *Node) clone() *Node {
	c := &Node{Kind: n.Kind, B: n.B, I: n.I, F: n.F, S: n.S}
	if len(n.Elems) > 0 {
		c.Elems = make([]*Node, len(n.Elems))
		for i, e := range n.Elems {
			c.Elems[i] = e.clone()
		}
		c.Keys = append([]string(nil), n.Keys...)
	}
	return c
}

// finish makes a document of the tree: all nodes distinct, linked, and numbered
func (n *Node) finish() *Node {
	r := n.clone()
	id := 0
	var link func(*Node)
	link = func(x *Node) {
		x.ID = id
		id++
		if len(x.Keys) > 40 {
			x.byKey = make(map[string]int, len(x.Keys))
			for i := len(x.Keys) - 1; i >= 0; i-- {
				x.byKey[x.Keys[i]] = i
			}
		}
		for i, e := range x.Elems {
			e.Parent = x
			if x.Kind == KObj {
				e.Name = x.Keys[i]
			} else {
				e.Index = i
			}
			link(e)
		}
	}
	link(r)
	r.Size = id
	return r
}

func (n *Node) child(key string) *Node {
	if n.Kind != KObj {
		return nil
	}
	if i, ok := n.byKey[key]; ok && n.Keys[i] == key {
		return n.Elems[i]
	}
	for i, k := range n.Keys {
		if k == key {
			return n.Elems[i]
		}
	}
	return nil
}

// loc is a printable location: $, $.a, $[0] ...
func (n *Node) loc() string {
	if n == nil {
		return "<nil>"
	}
	if n.Parent == nil {
		return "$"
	}
	if n.Parent.Kind == KObj {
		return n.Parent.loc() + "[" + strconv.Quote(n.Name) + "]"
	}
	return n.Parent.loc() + "[" + strconv.Itoa(n.Index) + "]"
}

func locs(ns []*Node) string {
	s := make([]string, 0, len(ns))
	for i, n := range ns {
		if i == 40 {
			s = append(s, fmt.Sprintf("... (%d)", len(ns)))
			break
		}
		s = append(s, n.loc())
	}
	return "[" + strings.Join(s, " ") + "]"
}

// ids of nodes within the document
func ids(ns []*Node) []int {
	out := make([]int, len(ns))
	for i, n := range ns {
		out[i] = n.ID
	}
	return out
}

func (n *Node) byID(id int) *Node {
	var f func(*Node) *Node
	f = func(x *Node) *Node {
		if x.ID == id {
			return x
		}
		for _, e := range x.Elems {
			if r := f(e); r != nil {
				return r
			}
		}
		return nil
	}
	return f(n)
}

// text writes the document, integers without a point, floats with one.
func (n *Node) text() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func floatText(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".eEIN") {
		s += ".0"
	}
	return s
}

func (n *Node) write(b *strings.Builder) {
	switch n.Kind {
	case KNull:
		b.WriteString("null")
	case KBool:
		b.WriteString(strconv.FormatBool(n.B))
	case KInt:
		b.WriteString(strconv.Itoa(n.I))
	case KFloat:
		b.WriteString(floatText(n.F))
	case KStr:
		b.WriteString(strconv.Quote(n.S))
	case KArr:
		b.WriteByte('[')
		for i, e := range n.Elems {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b)
		}
		b.WriteByte(']')
	case KObj:
		b.WriteByte('{')
		for i, e := range n.Elems {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(n.Keys[i]))
			b.WriteByte(':')
			e.write(b)
		}
		b.WriteByte('}')
	}
}

// parseDoc reads what text writes.
func parseDoc(s string) *Node {
	p := &docParser{s: s}
	return p.value().finish()
}

type docParser struct {
	s string
	i int
}

func (p *docParser) str() string {
	j := p.i + 1
	for p.s[j] != '"' {
		if p.s[j] == '\\' {
			j++
		}
		j++
	}
	q, err := strconv.Unquote(p.s[p.i : j+1])
	if err != nil {
		panic(err)
	}
	p.i = j + 1
	return q
}

func (p *docParser) value() *Node {
	switch c := p.s[p.i]; c {
	case 'n':
		p.i += 4
		return nNull()
	case 't':
		p.i += 4
		return nB(true)
	case 'f':
		p.i += 5
		return nB(false)
	case '"':
		return nS(p.str())
	case '[', '{':
		n := &Node{Kind: KArr}
		end := byte(']')
		if c == '{' {
			n.Kind, end = KObj, '}'
		}
		p.i++
		for p.s[p.i] != end {
			if p.s[p.i] == ',' {
				p.i++
			}
			if c == '{' {
				n.Keys = append(n.Keys, p.str())
				p.i++ // :
			}
			n.Elems = append(n.Elems, p.value())
		}
		p.i++
		return n
	default:
		j := p.i
		for j < len(p.s) && strings.IndexByte("+-0123456789.eEInfNa", p.s[j]) >= 0 {
			j++
		}
		t := p.s[p.i:j]
		p.i = j
		if strings.ContainsAny(t, ".eEIN") {
			f, err := strconv.ParseFloat(t, 64)
			if err != nil {
				panic(err)
			}
			return nF(f)
		}
		v, err := strconv.Atoi(t)
		if err != nil {
			panic(fmt.Sprintf("%s at %d of %s", err, p.i, p.s))
		}
		return nI(v)
	}
}

// native converts the document to the values MapModel works on. If ints
// is not set, integers become float64, as encoding/json does.
func (n *Node) native(ints bool) any {
	ix := 0
	if ints {
		ix = 1
	}
	if n.Parent == nil && n.hasNat[ix] {
		return n.nat[ix]
	}
	v := n.toNative(ints)
	if n.Parent == nil {
		n.nat[ix], n.hasNat[ix] = v, true
	}
	return v
}

func (n *Node) toNative(ints bool) any {
	switch n.Kind {
	case KNull:
		return nil
	case KBool:
		return n.B
	case KInt:
		if ints || n.I >= 1<<53 || n.I <= -(1<<53) {
			// no float64 for what it cannot represent
			return n.I
		}
		return float64(n.I)
	case KFloat:
		return n.F
	case KStr:
		return n.S
	case KArr:
		a := make([]any, len(n.Elems))
		for i, e := range n.Elems {
			a[i] = e.toNative(ints)
		}
		return a
	}
	m := make(map[string]any, len(n.Elems))
	for i, e := range n.Elems {
		m[n.Keys[i]] = e.toNative(ints)
	}
	return m
}

func (n *Node) scalar(ints bool) any {
	if n.Kind == KObj || n.Kind == KArr {
		return nil
	}
	return n.toNative(ints)
}

// ---------------------------------------------------------------- enumeration

// docGen enumerates all trees over the given leaves and keys. The keys
// of an object are an increasing subsequence of keys.
type docGen struct {
	leaves  []*Node
	keys    []string
	memo    map[int][]*Node
	noEmpty bool // leave out empty containers
}

// exact returns all trees with exactly n nodes
func (g *docGen) exact(n int) []*Node {
	if r, ok := g.memo[n]; ok {
		return r
	}
	var out []*Node
	if n == 1 {
		out = append(out, g.leaves...)
		if !g.noEmpty {
			out = append(out, nA(), nO())
		}
	}
	if n > 1 {
		g.forests(n-1, n-1, func(f []*Node) {
			out = append(out, nA(append([]*Node(nil), f...)...))
		})
		g.forests(n-1, len(g.keys), func(f []*Node) {
			g.subsets(len(f), func(ks []string) {
				o := &Node{Kind: KObj, Keys: append([]string(nil), ks...), Elems: append([]*Node(nil), f...)}
				out = append(out, o)
			})
		})
	}
	if g.memo == nil {
		g.memo = map[int][]*Node{}
	}
	g.memo[n] = out
	return out
}

func (g *docGen) subsets(k int, f func([]string)) {
	var rec func(from int, cur []string)
	rec = func(from int, cur []string) {
		if len(cur) == k {
			f(cur)
			return
		}
		for i := from; i < len(g.keys); i++ {
			rec(i+1, append(cur, g.keys[i]))
		}
	}
	rec(0, nil)
}

// forests enumerates the lists of at most maxLen trees with n nodes in all
func (g *docGen) forests(n, maxLen int, f func([]*Node)) {
	var rec func(left int, cur []*Node)
	rec = func(left int, cur []*Node) {
		if left == 0 {
			f(cur)
			return
		}
		if len(cur) == maxLen {
			return
		}
		for k := 1; k <= left; k++ {
			for _, t := range g.exact(k) {
				rec(left-k, append(cur, t))
			}
		}
	}
	rec(n, nil)
}

// upTo returns all documents of at most n nodes, smallest first
func (g *docGen) upTo(n int) []*Node {
	var out []*Node
	for i := 1; i <= n; i++ {
		for _, t := range g.exact(i) {
			out = append(out, t.finish())
		}
	}
	return out
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
