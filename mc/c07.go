package main

// C07: arithmetic and precedence, C08: in and length

import (
	"encoding/json"
	"fmt"
	"strings"
)

var arithOps = []string{"+", "-", "*", "/", "%", "**"}

// arithDoc: assignments of x, y, z; v is where the value of the expression goes
func arithAssignments() [][3]*Node {
	vals := []*Node{nI(0), nI(1), nI(2), nI(3), nI(-1), nI(-4), nI(7), nI(12), nF(0.5), nF(-1.5), nF(2.25), nF(4)}
	var out [][3]*Node
	for _, x := range vals {
		for _, y := range vals {
			out = append(out, [3]*Node{x, y, vals[len(out)%len(vals)]})
		}
	}
	for _, b := range []*Node{nNull(), nA(), nA(nI(1)), nO(), nO("a", nI(1)), nil} {
		out = append(out, [3]*Node{b, nI(2), nI(3)}, [3]*Node{nI(2), b, nI(3)}, [3]*Node{nI(2), nI(3), b}, [3]*Node{b, b, b})
	}
	// Large, tiny, and barely exact numbers with each other and with others
	big := []*Node{nF(1e300), nF(-1e300), nF(1e18), nF(9223372036854775808), nF(-9223372036854775808), nF(18446744073709551616), nF(1e19), nF(3e9), nF(1e-300), nF(5e-324), nF(0.1), nF(0.3), nF(1e16), nI(1 << 40), nI(1<<53 - 1), nI(-(1<<53 - 1)), nI(1 << 31), nI(1<<32 + 1), nI(-(1 << 31)), nF(2147483648.5), nF(-0.25), nF(3.999), nF(-3.999), nI(100), nI(-7), nI(1000003)}
	small := []*Node{nI(1), nI(2), nI(-3), nF(0.5), nI(0), nI(10), nF(-1)}
	for i, b := range big {
		for j, s := range small {
			out = append(out, [3]*Node{b, s, big[(i+j)%len(big)]}, [3]*Node{s, b, small[(i+j)%len(small)]})
		}
		for j, d := range big {
			if (i+j)%3 == 0 {
				out = append(out, [3]*Node{b, d, nI(1)})
			}
		}
	}
	return out
}

func checkC07(c *Ctx) {
	vs := []*variant{vPtr, vMap, vMapI}
	x, y, z := eCur(step(key("x"))), eCur(step(key("y"))), eCur(step(key("z")))
	asg := arithAssignments()
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	// 1. every expression of up to two (three) operators, its value against
	// the value it must have, and against neighbours of it
	leaves := []*Expr{x, y, eInt(3), eF(0.5)}
	lv0 := leaves
	var lv1 []*Expr
	for _, a := range lv0 {
		lv1 = append(lv1, un("-", a))
		for _, b := range lv0 {
			for _, op := range arithOps {
				lv1 = append(lv1, bin(op, a, b))
			}
		}
	}
	exprs := append([]*Expr{}, lv1...)
	small := lv1
	if !c.thorough() {
		// two operators: all with x, y and one constant below
		small = nil
		for _, e := range lv1 {
			if e.K == EUn || e.L != e.R && (e.L == x || e.R == x) {
				small = append(small, e)
			}
		}
	}
	for _, e := range small {
		exprs = append(exprs, un("-", e), un("+", e))
		for _, b := range []*Expr{x, z, eInt(2), eF(1.5)} {
			for _, op := range arithOps {
				exprs = append(exprs, bin(op, e, b), bin(op, b, e))
			}
		}
	}
	if c.thorough() {
		for _, a := range lv1[:40] {
			for _, b := range lv1[:40] {
				for _, op := range arithOps {
					exprs = append(exprs, bin(op, a, b))
				}
			}
		}
	}
	base := make([]*Node, len(asg))
	for i, a := range asg {
		o := nO()
		for j, k := range []string{"x", "y", "z"} {
			if a[j] != nil {
				o.Keys, o.Elems = append(o.Keys, k), append(o.Elems, a[j])
			}
		}
		base[i] = o
	}
	for _, e := range exprs {
		if !mine() {
			continue
		}
		if c.expired() {
			return
		}
		arr := &Node{Kind: KArr}
		for _, o := range base {
			of := o.clone().finish()
			v := e.eval(of, of)
			var vals []*Node
			switch v.K {
			case VNum:
				f := v.float()
				if v.Int {
					vals = []*Node{nI(v.I), nI(v.I + 1), nI(-v.I), nF(f)}
				} else {
					vals = []*Node{nF(f), nF(f + 1), nF(-f)}
				}
			case VInvalid:
				vals = []*Node{nI(0), nI(1), nI(2), nI(-2), nI(3), nI(5), nI(6), nI(8), nI(9), nF(1.5), nF(-1)}
			default:
				c.count("unspecified_skipped", 1)
				continue
			}
			for _, n := range vals {
				w := o.clone()
				w.Keys, w.Elems = append(w.Keys, "v"), append(w.Elems, n)
				arr.Elems = append(arr.Elems, w)
			}
		}
		if len(arr.Elems) == 0 {
			continue
		}
		d := newDocCase(arr.finish(), vs)
		for i, t := range []*Expr{bin("==", e, eCur(step(key("v")))), bin("!=", eCur(step(key("v"))), e), bin("<", e, eCur(step(key("v"))))} {
			if i > 0 && !c.thorough() && unit%4 != i {
				continue
			}
			c.decideExpr(t, "$[?("+t.text()+")]", d, vs, d.root.Elems)
		}
	}
	// 2. chains of operators without parentheses group as documented
	ops := []string{"**", "*", "/", "%", "+", "-", "<", "<=", ">", ">=", "in", "==", "!=", "===", "&&", "||"}
	pd := precDoc(vs)
	operands := []*Expr{x, y, z, eCur(step(key("u")))}
	chain := func(os []string, uns []string, opnd []*Expr) {
		if !mine() {
			return
		}
		// tokens without parentheses
		var b strings.Builder
		for i, o := range opnd {
			if i > 0 {
				b.WriteString(" " + os[i-1] + " ")
			}
			b.WriteString(uns[i])
			b.WriteString(o.text())
		}
		e := group(os, uns, opnd)
		c.sameTruth("$[?("+b.String()+")]", "$[?("+e.text()+")]", e, pd, vs)
	}
	none := []string{"", "", "", ""}
	rhs := func(os []string, base []*Expr) []*Expr {
		// the operand after `in` should be a list to tell groupings apart
		out := append([]*Expr{}, base...)
		for i, o := range os {
			if o == "in" {
				out[i+1] = list(x, eInt(2), eBool(true), eInt(4))
			}
		}
		return out
	}
	for _, a := range ops {
		chain([]string{a}, none, rhs([]string{a}, operands[:2]))
		for _, b := range ops {
			os := []string{a, b}
			for m := 0; m < 8; m++ {
				uns := []string{"", "", ""}
				for i := range uns {
					if m>>i&1 == 1 {
						uns[i] = "-"
					}
				}
				chain(os, uns, rhs(os, operands[:3]))
				for i := range uns {
					if m>>i&1 == 1 {
						uns[i] = "!"
					}
				}
				if m > 0 {
					chain(os, uns, rhs(os, operands[:3]))
				}
			}
			chain(os, none, rhs(os, []*Expr{eInt(2), x, y}))
			chain(os, none, rhs(os, []*Expr{x, eInt(2), eF(0.5)}))
			if c.expired() {
				return
			}
			for _, d := range ops {
				os := []string{a, b, d}
				chain(os, none, rhs(os, operands))
				if c.thorough() {
					for m := 1; m < 16; m++ {
						uns := []string{"", "", "", ""}
						for i := range uns {
							if m>>i&1 == 1 {
								uns[i] = "-"
							}
						}
						chain(os, uns, rhs(os, operands))
					}
					for _, f := range ops {
						os := []string{a, b, d, f}
						chain(os, append(none, ""), rhs(os, append(operands, x)))
					}
				}
			}
		}
	}
	// 3. explicit parentheses override: every grouping of three operands
	for _, a := range ops {
		for _, b := range ops {
			if !mine() {
				continue
			}
			o := rhs([]string{a, b}, operands[:3])
			l := bin(b, bin(a, o[0], o[1]), o[2])
			r := bin(a, o[0], bin(b, o[1], o[2]))
			for _, e := range []*Expr{l, r} {
				c.decideExpr(e, "$[?("+e.text()+")]", pd, vs, pd.root.Elems)
				// redundant parentheses, spaces, no spaces
				c.decideExpr(e, "$[?(("+e.text()+"))]", pd, vs, pd.root.Elems)
			}
		}
	}
	c.bigInts()
	// spaces around operators are optional where the tokens allow it
	for _, op := range []string{"+", "*", "/", "%", "**", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "-"} {
		if !mine() {
			continue
		}
		e := bin(op, x, y)
		// a dash may be part of an identifier, so keep the operand apart from it
		for _, t := range []string{"@['x']" + op + "@['y']", "@['x'] " + op + "@.y", "@['x']" + op + " @.y", "@['x']  " + op + "\t@.y", "@['x']\n" + op + "\r\n@.y"} {
			c.decideExpr(e, "$[?("+t+")]", pd, vs, pd.root.Elems)
		}
	}
}

// bigInts: integers near powers of two with each other, where the result is
// an int as well
func (c *Ctx) bigInts() {
	exactInts = true
	defer func() { exactInts = false }()
	vs := []*variant{vPtr, vMapI}
	var vals []int
	for k := 0; k < 63; k += c.pick(2, 1) {
		for _, d := range []int{-1, 0, 1} {
			for _, s := range []int{1, -1} {
				vals = append(vals, s*(1<<k+d))
			}
		}
	}
	vals = append(vals, 1<<62-1+1<<62, 3, 10, -10, 7, 1000000007, 94906267, 20000001, 3037000499, 3037000500, 999999999989, 9007199254740991, 9007199254740993, 1000000000000000003)
	x, y, v := eCur(step(key("x"))), eCur(step(key("y"))), eCur(step(key("v")))
	for n, a := range vals {
		if !c.mine(n) || c.expired() {
			continue
		}
		for _, op := range []string{"+", "-", "*", "/", "%"} {
			arr := &Node{Kind: KArr}
			for _, b := range vals {
				r := bigArith(op, a, b)
				if r.K != VNum {
					continue
				}
				for _, w := range []int{r.I, r.I ^ 1, r.I ^ 1<<(n%60)} {
					arr.Elems = append(arr.Elems, nO("x", nI(a), "y", nI(b), "v", nI(w)))
				}
			}
			if len(arr.Elems) == 0 {
				continue
			}
			d := newDocCase(arr.finish(), vs)
			for _, e := range []*Expr{bin("==", bin(op, x, y), v), bin("<", v, bin(op, x, y)), bin("==", bin(op, lit(vInt(a)), y), v), bin("==", un("-", bin(op, x, y)), un("-", v))} {
				c.decideExpr(e, "$[?("+e.text()+")]", d, vs, d.root.Elems)
			}
			if r := bigArith(op, a, a); r.K == VNum {
				e := bin("==", bin(op, lit(vInt(a)), lit(vInt(a))), lit(r))
				c.decideExpr(e, "$[?("+e.text()+")]", d, vs[:1], d.root.Elems)
			}
		}
	}
}

// precDoc holds assignments that tell different groupings apart
func precDoc(vs []*variant) *docCase {
	arr := &Node{Kind: KArr}
	vals := [][4]*Node{}
	nums := []*Node{nI(1), nI(2), nI(3), nI(4), nF(0.5), nI(-2), nI(0)}
	k := 0
	for _, a := range nums {
		for _, b := range nums {
			for _, d := range nums {
				k++
				vals = append(vals, [4]*Node{a, b, d, nums[k%len(nums)]})
			}
		}
	}
	bs := []*Node{nB(true), nB(false), nI(1), nI(2)}
	for _, a := range bs {
		for _, b := range bs {
			for _, d := range bs {
				for _, u := range bs {
					vals = append(vals, [4]*Node{a, b, d, u})
				}
			}
		}
	}
	for _, v := range vals {
		arr.Elems = append(arr.Elems, nO("x", v[0], "y", v[1], "z", v[2], "u", v[3]))
	}
	return newDocCase(arr.finish(), vs)
}

// group builds the tree of an operator chain by the documented precedence
func group(ops, uns []string, opnd []*Expr) *Expr {
	pos := 0
	var parse func(min int) *Expr
	prim := func() *Expr {
		e := opnd[pos]
		u := uns[pos]
		pos++
		if u != "" {
			e = un(u, e)
		}
		return e
	}
	parse = func(min int) *Expr {
		l := prim()
		for pos-1 < len(ops) {
			op := ops[pos-1]
			p := prec[op]
			if p < min {
				break
			}
			next := p + 1
			if op == "**" {
				next = p
			}
			r := parse(next)
			l = bin(op, l, r)
		}
		return l
	}
	return parse(0)
}

// SameCase: the two paths select the same candidates
type SameCase struct{ A, B, Doc, Variant string }

func init() {
	handlers["same"] = func(raw json.RawMessage) (bool, string) {
		var a SameCase
		must(json.Unmarshal(raw, &a))
		root := parseDoc(a.Doc)
		v := variants[a.Variant]
		p, err, pan := parse(a.A)
		q, err2, pan2 := parse(a.B)
		if err != nil || err2 != nil || pan+pan2 != "" {
			return true, fmt.Sprint(a.A, a.B, err, err2, pan, pan2)
		}
		lim := 16*root.Size + 1000
		x, bad := search(v, root, v.mk(root), p, lim, nil)
		y, bad2 := search(v, root, v.mk(root), q, lim, nil)
		if bad+bad2 != "" {
			return true, bad + bad2
		}
		if m := compare(v, y, x); m != "" {
			return true, a.A + " differs from " + a.B + ": " + m
		}
		return false, ""
	}
}

// sameTruth compares the expression without parentheses with the fully
// parenthesised one, and with the reference.
func (c *Ctx) sameTruth(ta, tb string, e *Expr, d *docCase, vs []*variant) {
	c.decideExpr(e, ta, d, vs[:1], d.root.Elems)
	c.enter("parse", tb)
	p, err, _ := parse(ta)
	q, err2, pan2 := parse(tb)
	if err != nil || err2 != nil || pan2 != "" {
		c.violate("same", ta, SameCase{ta, tb, d.txt, vs[0].name}, fmt.Sprint(ta, " ", tb, err, err2, pan2))
		return
	}
	for vi, v := range vs[:1] {
		c.enter("query", ta, d.txt, v.name)
		lim := 16*d.root.Size + 1000
		x, bad := search(v, d.root, d.ms[vi], p, lim, nil)
		y, bad2 := search(v, d.root, d.ms[vi], q, lim, nil)
		if bad+bad2 == "" {
			bad = compare(v, y, x)
		}
		if bad+bad2 != "" {
			c.violate("same", ta, SameCase{ta, tb, d.txt, v.name}, ta+" differs from "+tb+": "+bad+bad2)
		}
	}
}

// ---------------------------------------------------------------- C08

func checkC08(c *Ctx) {
	vs := []*variant{vPtr, vMap, vMapI}
	vals := []*Node{nI(0), nI(1), nI(2), nF(1), nF(1.5), nF(1.2), nI(-1), nS(""), nS("a"), nS("b"), nS("1"), nS("ab"), nB(true), nB(false), nNull(), nI(1 << 40)}
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	lit1 := func(n *Node) *Expr { v := nodeVal(n); v.Node = nil; return lit(v) }
	cv := eCur(step(key("v")))
	// candidates: every value, containers, and a missing one, with lists of their own
	mk := func(lists []*Node) (*docCase, []*Node) {
		arr := &Node{Kind: KArr}
		vv := append(append([]*Node{}, vals...), nA(), nA(nI(1)), nO("a", nI(1)), nil)
		for _, v := range vv {
			for _, l := range lists {
				o := nO()
				if v != nil {
					o = nO("v", v)
				}
				if l != nil {
					o.Keys, o.Elems = append(o.Keys, "l"), append(o.Elems, l)
				}
				arr.Elems = append(arr.Elems, o)
			}
		}
		d := newDocCase(nO("lists", nA(nonNil(lists)...), "x", arr, "obj", nO("p", nI(1), "q", nS("a"), "r", nB(true))).finish(), vs)
		return d, d.root.Elems[1].Elems
	}
	var lists []*Node
	lists = append(lists, nA(), nil)
	for _, a := range vals {
		lists = append(lists, nA(a))
	}
	for i, a := range vals {
		for j, b := range vals {
			lists = append(lists, nA(a, b))
			if (i+j)%5 == 0 {
				for _, d := range vals {
					lists = append(lists, nA(a, b, d))
				}
			}
		}
	}
	lists = append(lists, nA(nA(nI(1)), nI(2)), nA(nO("a", nI(1)), nS("a")), nA(nA(), nNull()))
	d, cands := mk(lists)
	sd, scands := mk([]*Node{nA()})
	wrap := func(e *Expr) string { return "$.x[?(" + e.text() + ")]" }
	do := func(e *Expr, d *docCase, cs []*Node) {
		if mine() && !c.expired() {
			c.decideExpr(e, wrap(e), d, vs, cs)
		}
	}
	// 1. array nodes of the document, several nodes
	for _, r := range []*Expr{eCur(step(key("l"))), eCur(step(&Sel{K: SKey, Key: "l", Text: "'l'"})), eCur(step(key("l")), step(wild())), eCur(step(key("l")), step(slc(nil, nil, nil))), eCur(step(key("l")), step(slc(eInt(1), nil, nil))), eCur(step(key("l")), step(slc(nil, nil, eInt(-1)))), eCur(rec(key("l"))), eCur(step(key("missing"))), eRoot(step(key("missing")))} {
		do(bin("in", cv, r), d, cands)
		do(un("!", bin("in", cv, r)), d, cands)
		do(bin("in", bin("+", cv, eInt(1)), r), d, cands)
		do(bin("in", bin("==", cv, eInt(1)), r), d, cands)
		for _, v := range vals {
			do(bin("in", lit1(v), r), d, cands)
		}
	}
	// the lists of the document, from the root
	var rd *docCase
	var rcands []*Node
	{
		arr := &Node{Kind: KArr}
		vv := append(append([]*Node{}, vals...), nA(), nA(nI(1)), nO("a", nI(1)), nil)
		for _, v := range vv {
			o := nO()
			if v != nil {
				o = nO("v", v)
			}
			arr.Elems = append(arr.Elems, o)
		}
		rd = newDocCase(nO("lists", nA(nonNil(lists)...), "x", arr).finish(), vs)
		rcands = rd.root.Elems[1].Elems
	}
	for i := range rd.root.Elems[0].Elems {
		do(bin("in", cv, eRoot(step(key("lists")), step(idx(i)))), rd, rcands)
	}
	do(bin("in", cv, eRoot(step(key("obj")), step(wild()))), sd, scands)
	do(bin("in", cv, eRoot(rec(wild()), step(key("p"), key("q")))), sd, scands)
	lsd := newDocCase(nO("x", nA(nO("v", nI(1)), nO("w", nI(2)), nO("v", nA()))).finish(), vs)
	lcands := lsd.root.Elems[0].Elems
	// the length of a list
	for n := 0; n <= 4; n++ {
		ls := []*Expr{eNull(), cv, eInt(0), eStr(""), list(), eCur(step(key("missing"))), eBool(false), list(eInt(1), eNull())}
		idxs := make([]int, n)
		for {
			le := make([]*Expr, n)
			for i, k := range idxs {
				le[i] = ls[k]
			}
			l := &Expr{K: ELen, List: le}
			if l.List == nil {
				l.List = []*Expr{}
			}
			do(bin("==", l, eInt(n)), lsd, lcands)
			do(bin("&&", bin(">", l, eInt(n-1)), bin("<", l, eInt(n+1))), lsd, lcands)
			i := 0
			for ; i < n; i++ {
				if idxs[i]++; idxs[i] < len(ls) {
					break
				}
				idxs[i] = 0
			}
			if i == n {
				break
			}
		}
	}
	for _, n := range scaleSizes(c.thorough()) {
		for k, x := range []*Expr{eNull(), eInt(1), eStr("a"), cv} {
			if n > 1100 || n == 0 || n > 20 && n%4 != k && !c.thorough() {
				continue
			}
			var le []*Expr
			for i := 0; i < n; i++ {
				le = append(le, x)
			}
			do(bin("==", &Expr{K: ELen, List: le}, eInt(n)), lsd, lcands)
			do(bin("==", bin("-", &Expr{K: ELen, List: append([]*Expr{eInt(3)}, le...)}, eInt(1)), eInt(n)), lsd, lcands)
		}
	}
	// long strings in lists
	for _, g := range nearStrings(c.thorough()) {
		if len(g[0]) > 1100 {
			continue
		}
		var l []*Node
		var le []*Expr
		arr := &Node{Kind: KArr}
		for i, s := range g {
			if i%3 != 0 {
				l = append(l, nS(s))
				le = append(le, eStr(s))
			}
			arr.Elems = append(arr.Elems, nO("v", nS(s)))
		}
		ld := newDocCase(nO("l", nA(l...), "x", arr).finish(), vs)
		do(bin("in", cv, eRoot(step(key("l")))), ld, ld.root.Elems[1].Elems)
		do(bin("in", cv, eRoot(step(key("l")), step(wild()))), ld, ld.root.Elems[1].Elems)
		do(bin("in", cv, list(le...)), ld, ld.root.Elems[1].Elems)
		do(un("!", bin("in", cv, list(le[0]))), ld, ld.root.Elems[1].Elems)
	}
	// 2. array literals: all elements up to length 3, paths and expressions as elements
	els := []*Expr{cv, eRoot(step(key("obj")), step(key("p"))), eRoot(step(key("obj")), step(key("q"))), eCur(step(key("missing"))), bin("+", eInt(1), eInt(1)), un("-", eInt(1))}
	for _, v := range vals {
		els = append(els, lit1(v))
	}
	do(bin("in", cv, list()), sd, scands)
	for _, a := range els {
		do(bin("in", cv, list(a)), sd, scands)
		for _, b := range els {
			do(bin("in", cv, list(a, b)), sd, scands)
			for k, e := range els {
				if c.thorough() || k%3 == 0 {
					do(bin("in", cv, list(a, b, e)), sd, scands)
				}
			}
		}
	}
	// lists and containers as elements: they are no value of theirs
	{
		one, two := eInt(1), eInt(2)
		inner := []*Expr{list(), list(cv), list(one), list(list(one)), list(one, two), list(cv, eStr("a")), list(list(), cv), list(eNull()), list(eStr("")), list(eCur(step(key("missing")))), eRoot(step(key("obj"))), eRoot(step(key("lists"))), list(eRoot(step(key("obj"))))}
		for _, a := range inner {
			do(bin("in", cv, list(a)), sd, scands)
			do(un("!", bin("in", cv, list(a))), sd, scands)
			do(bin("==", cv, a), sd, scands)
			do(bin("!=", a, cv), sd, scands)
			for _, v := range vals {
				do(bin("in", lit1(v), list(a)), sd, scands)
				do(bin("in", cv, list(a, lit1(v))), sd, scands)
				do(bin("in", cv, list(lit1(v), a)), sd, scands)
			}
			for _, b := range inner {
				do(bin("in", cv, list(a, b)), sd, scands)
				do(bin("in", cv, list(a, cv, b)), sd, scands)
			}
		}
		cont := []*Node{nA(), nO(), nA(nI(1)), nA(nA()), nA(nA(nI(1))), nA(nI(1), nS("a")), nA(nNull()), nA(nS("")), nO("a", nI(1)), nO("", nI(1)), nO("v", nI(1)), nA(nB(true)), nA(nF(1.5), nI(0))}
		var ls []*Node
		for _, a := range cont {
			ls = append(ls, nA(a), nA(nA(a)))
			for _, b := range append([]*Node{nI(1), nS("a"), nNull(), nB(false)}, cont...) {
				ls = append(ls, nA(a, b), nA(b, a))
			}
		}
		for len(ls) > 0 {
			k := min(24, len(ls))
			cd, ccands := mk(ls[:k])
			ls = ls[k:]
			l := eCur(step(key("l")))
			do(bin("in", cv, l), cd, ccands)
			do(bin("in", cv, eCur(step(key("l")), step(wild()))), cd, ccands)
			do(bin("in", cv, eCur(step(key("l")), step(idx(0)))), cd, ccands)
			do(bin("in", eInt(1), l), cd, ccands)
			do(bin("in", eStr(""), l), cd, ccands)
			do(bin("in", eNull(), l), cd, ccands)
			do(bin("in", cv, list(l)), cd, ccands)
			do(bin("in", cv, list(list(l), eCur(step(key("l")), step(idx(0))))), cd, ccands)
		}
	}
	for _, a := range vals {
		for _, b := range vals {
			do(bin("in", lit1(a), list(lit1(b), lit1(vals[3]))), sd, scands)
			do(bin("in", lit1(a), list(lit1(vals[8]), lit1(b))), sd, scands)
		}
	}
	// candidates in a list: @ itself
	for _, l := range [][]*Node{vals, {nI(1), nI(2), nI(3)}} {
		dd := newDocCase(nO("x", nA(l...), "l", nA(l[1:]...)).finish(), vs)
		for _, e := range []*Expr{bin("in", eCur(), eRoot(step(key("l")))), bin("in", eCur(), eRoot(step(key("x")))), bin("in", eCur(), list(eInt(1), eStr("a"))), bin("in", eCur(), eRoot(step(key("l")), step(slc(nil, eInt(2), nil))))} {
			if mine() {
				c.decideExpr(e, wrap(e), dd, vs, dd.root.Elems[0].Elems)
			}
		}
	}
	c.longLists(vs)
	c.twins("$[?(@ in ['")
	// all lists of three values, as elements of an array and as a literal
	for _, vals := range [][]*Node{{nS("a"), nS("b"), nS("c")}, {nI(1), nI(2), nF(1.5)}, {nS("a"), nI(0), nNull()}, {nB(true), nS("true"), nI(1)}} {
		lists := [][]*Node{nil}
		for from, n := 0, 0; n < c.pick(7, 8); n++ {
			to := len(lists)
			for _, l := range lists[from:to] {
				for _, x := range vals {
					lists = append(lists, append(l[:len(l):len(l)], x))
				}
			}
			from = to
		}
		needles := append(append([]*Node{}, vals...), nS("bb"), nI(3))
		if mine() {
			rows := &Node{Kind: KArr}
			for _, l := range lists {
				for _, v := range needles {
					rows.Elems = append(rows.Elems, nO("l", nA(l...), "v", v))
				}
			}
			rd := newDocCase(nO("x", rows).finish(), vs[:2])
			cl := eCur(step(key("l")))
			for _, e := range []*Expr{bin("in", cv, cl), un("!", bin("in", cv, cl))} {
				c.decideExpr(e, wrap(e), rd, vs[:2], rd.root.Elems[0].Elems)
			}
		}
		nd := newDocCase(nO("x", nA(needles...)).finish(), vs[:2])
		for i, l := range lists {
			if !c.mine(i) || c.expired() {
				continue
			}
			var le []*Expr
			for _, x := range l {
				v := nodeVal(x)
				v.Node = nil
				le = append(le, lit(v))
			}
			if len(le) == 0 {
				continue
			}
			e := bin("in", eCur(), list(le...))
			c.decideExpr(e, wrap(e), nd, vs[:2], nd.root.Elems[0].Elems)
		}
	}
	for _, n := range giantSizes(c.thorough()) {
		if !mine() || c.expired() || n > 300000 { // several copies of it: memory
			continue
		}
		l := intArr(n)
		ld := newDocCase(nO("l", l, "x", nA(nO("l", l, "v", nI(n)), nO("l", l, "v", nI(n&0xffff)), nO("l", l, "v", nI(n-1)), nO("l", nA(), "v", nI(1)), nO("l", nA(nI(1)), "v", nI(65536)))).finish(), vs[:2])
		lc := ld.root.Elems[1].Elems
		for _, m := range []EKind{ELen, ELenM} {
			cl, rl := &Expr{K: m, P: cur(step(key("l")))}, &Expr{K: m, P: path(step(key("l")))}
			for _, e := range []*Expr{bin("==", cl, cv), bin("==", rl, cv), cl, bin(">", cl, eInt(n-1)), bin("<", cl, eInt(n+1)), bin("==", bin("-", cl, rl), eInt(0)),
				bin("==", cl, eInt(n)), bin("==", bin("*", cl, eInt(3)), eInt(3*n))} {
				c.decideExpr(e, wrap(e), ld, vs[:2], lc)
			}
		}
		ll := eRoot(step(key("l")))
		for _, e := range []*Expr{bin("in", cv, ll), bin("in", cv, eRoot(step(key("l")), step(wild()))), un("!", bin("in", cv, ll))} {
			c.decideExpr(e, wrap(e), ld, vs[:2], lc)
		}
	}
	// 3. position in a long list: found wherever it is, not found when absent
	for _, n := range scaleSizes(c.thorough()) {
		if !mine() || n > 1100 || c.expired() {
			continue
		}
		l := intArr(n)
		arr := &Node{Kind: KArr}
		for i := 0; i <= n+1; i++ {
			arr.Elems = append(arr.Elems, nO("v", nI(i)))
		}
		dd := newDocCase(nO("l", l, "x", arr).finish(), vs)
		cs := dd.root.Elems[1].Elems
		es := []*Expr{bin("in", cv, eRoot(step(key("l"))))}
		if n > 1 {
			es = append(es, bin("in", cv, eRoot(step(key("l")), step(wild()))))
		}
		if n <= 140 {
			var le []*Expr
			for i := 0; i < n; i++ {
				le = append(le, eInt(i+1))
			}
			es = append(es, bin("in", cv, list(le...)))
		}
		for _, e := range es {
			c.decideExpr(e, wrap(e), dd, vs, cs)
		}
		// 4. length of arrays of every size
		ld := newDocCase(nO("l", l, "x", nA(nO("l", l, "v", nI(n)), nO("l", l, "v", nI(n+1)), nO("l", nA(), "v", nI(0)), nO("l", nA(l), "v", nI(1)), nO("l", nA(nNull(), nNull()), "v", nI(2)), nO("l", nA(nA(), l, nO()), "v", nI(3)))).finish(), vs)
		lc := ld.root.Elems[1].Elems
		for _, m := range []EKind{ELen, ELenM} {
			cl, rl := &Expr{K: m, P: cur(step(key("l")))}, &Expr{K: m, P: path(step(key("l")))}
			for _, e := range []*Expr{
				bin("==", cl, cv), bin("==", cv, cl), bin("==", rl, cv), bin("==", cl, eInt(n)), bin("<", cl, cv), bin(">=", cl, rl), bin("==", bin("+", cl, eInt(1)), cv), bin("==", bin("-", cl, rl), eInt(0)),
				bin("in", cl, list(cv, eStr("x"))), cl, un("!", cl), bin("==", un("-", cl), un("-", cv)), bin("==", &Expr{K: m, P: cur(step(&Sel{K: SKey, Key: "l"}))}, cv), bin("==", &Expr{K: m, P: path(step(key("x")), step(idx(1)), step(key("l")))}, cv),
				bin("==", &Expr{K: m, P: path(step(key("x")))}, eInt(6)),
			} {
				c.decideExpr(e, wrap(e), ld, vs, lc)
			}
			// the candidate itself
			if n > 0 {
				ad := newDocCase(nA(l, nA(), nA(nI(1)), nA(l, l), l).finish(), vs)
				for _, e := range []*Expr{bin("==", &Expr{K: m, P: cur()}, eInt(n)), bin("==", &Expr{K: m, P: path()}, &Expr{K: m, P: cur()}), &Expr{K: m, P: cur()}, bin(">", &Expr{K: m, P: cur()}, eInt(n/2))} {
					c.decideExpr(e, "$[?("+e.text()+")]", ad, vs, ad.root.Elems)
				}
			}
		}
	}
}

// longLists: lists of elements of every kind and order, with needles of
// every kind that are and are not among them
func (c *Ctx) longLists(vs []*variant) {
	lit1 := func(n *Node) *Expr { v := nodeVal(n); v.Node = nil; return lit(v) }
	kinds := []func(i, n int) *Node{
		func(i, n int) *Node { return nI(i + 1) },
		func(i, n int) *Node { return nI(n - i) },
		func(i, n int) *Node { return nI(2 * i) },
		func(i, n int) *Node { return nI(i - n/2) },
		func(i, n int) *Node { return nF(float64(i)) },
		func(i, n int) *Node { return nF(float64(i) + 0.5) },
		func(i, n int) *Node { return nS(itoa(i)) },
		func(i, n int) *Node { return nS(string(rune('a'+i%26)) + itoa(i/26)) },
		func(i, n int) *Node { return nS(strings.Repeat("a", i%5) + itoa(i)) },
		func(i, n int) *Node { return nI(i / 3) },
		func(i, n int) *Node { return nB(i%2 == 0) },
		func(i, n int) *Node { return nB(false) },
		func(i, n int) *Node { return nNull() },
		func(i, n int) *Node {
			return []*Node{nI(i), nS(itoa(i)), nF(float64(i) / 2), nNull(), nB(true), nS("")}[i%6]
		},
		func(i, n int) *Node {
			if i == n-1 {
				return nS("z")
			}
			return nI(7)
		},
		func(i, n int) *Node {
			if i == 0 {
				return nF(2)
			}
			return nI(i + 10)
		},
		func(i, n int) *Node { return nI(1<<40 + i) },
		func(i, n int) *Node {
			if i == n/2 {
				return nA(nI(1))
			}
			return nI(i)
		},
	}
	sizes := []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 128, 129}
	if c.thorough() {
		sizes = append(sizes, 14, 18, 19, 21, 22, 23, 24, 25, 63, 127, 255, 256, 257, 512, 513, 1000, 1024, 1025)
	}
	unit := 0
	for _, kind := range kinds {
		for _, n := range sizes {
			if unit++; !c.mine(unit) || c.expired() {
				continue
			}
			l := &Node{Kind: KArr}
			var le []*Expr
			literal := true
			for i := 0; i < n; i++ {
				e := kind(i, n)
				l.Elems = append(l.Elems, e)
				if e.isScalar() {
					le = append(le, lit1(e))
				} else {
					literal = false
				}
			}
			needles := []*Node{nI(-1), nI(0), nI(1), nI(2), nI(3), nI(4), nI(7), nI(n - 1), nI(n), nI(n + 1), nI(n / 2), nI(2 * n), nI(-n / 2), nI(1<<40 + n/2), nI(1<<40 + n), nI(n + 9),
				nF(0.5), nF(1.5), nF(2.5), nF(float64(n) - 0.5), nF(float64(n / 2)), nF(1), nF(2), nF(3.9999), nF(-0.5), nF(0),
				nS(""), nS("0"), nS("1"), nS("2"), nS(itoa(n - 1)), nS(itoa(n)), nS("a"), nS("a0"), nS("c0"), nS("z"), nS("aa2"), nS("true"), nS("3.0"), nB(true), nB(false), nNull(), nA(nI(1)), nO()}
			for _, i := range []int{0, 1, 2, n / 2, n - 2, n - 1} {
				needles = append(needles, l.Elems[i])
			}
			arr := &Node{Kind: KArr}
			for _, v := range needles {
				arr.Elems = append(arr.Elems, nO("v", v))
			}
			arr.Elems = append(arr.Elems, nO("w", nI(1)))
			dd := newDocCase(nO("l", l, "x", arr).finish(), vs)
			cs := dd.root.Elems[1].Elems
			cv := eCur(step(key("v")))
			rs := []*Expr{eRoot(step(key("l"))), eRoot(step(key("l")), step(wild())), eRoot(step(key("l")), step(slc(nil, nil, eInt(-1))))}
			if literal {
				rs = append(rs, list(le...))
			}
			single := newDocCase(nO("l", l.clone(), "x", nA(nO("v", nI(1)))).finish(), vs)
			for ri, r := range rs {
				for _, e := range []*Expr{bin("in", cv, r), un("!", bin("in", cv, r)), bin("in", bin("+", cv, eInt(0)), r)} {
					c.decideExpr(e, "$.x[?("+e.text()+")]", dd, vs, cs)
				}
				if ri == 3 || c.thorough() {
					for _, v := range needles {
						if v.isScalar() {
							e := bin("in", lit1(v), r)
							c.decideExpr(e, "$.x[?("+e.text()+")]", single, vs[:1], single.root.Elems[1].Elems)
						}
					}
				}
			}
		}
	}
}

func nonNil(l []*Node) []*Node {
	var out []*Node
	for _, n := range l {
		if n != nil {
			out = append(out, n)
		}
	}
	return out
}

func init() {
	checks["C07"] = &check{run: checkC07, bounds: func(t bool) map[string]any {
		return map[string]any{"operators_in_arithmetic": map[bool]int{false: 2, true: 3}[t], "assignments": len(arithAssignments()), "operator_chain": map[bool]int{false: 3, true: 4}[t], "operators": 15}
	}}
	checks["C08"] = &check{run: checkC08, bounds: func(t bool) map[string]any {
		return map[string]any{"values": 16, "list_literals": "length 0..3", "array_lengths": "up to 1025"}
	}}
}
