package main

// C05..C08: filters. One evaluation decides an expression for many candidates.

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	gj "github.com/bserdar/gojsonpath"
)

// FilterCase: the path must select the nodes In, must not select the nodes
// Out, and may select no others than those in Free.
type FilterCase struct {
	Path, Doc, Variant string
	In, Out, Free      []int
}

func filterBad(v *variant, root *Node, m gj.DocModel, gp gj.Path, cands []*Node, want []Tri) string {
	got, bad := search(v, root, m, gp, 4*len(cands)+100, nil)
	if bad != "" {
		return bad
	}
	// Results are a subsequence of the candidates, for ordered models
	ix := make(map[*Node]int, len(cands))
	for i, n := range cands {
		ix[n] = i
	}
	sel := make([]bool, len(cands))
	last := -1
	for _, n := range got {
		i, ok := ix[n]
		if !ok {
			return "selects " + n.loc() + ", which is not a candidate"
		}
		if sel[i] {
			return "selects " + n.loc() + " twice"
		}
		sel[i] = true
		if i < last && v.ordered {
			return "selects " + n.loc() + " out of order"
		}
		last = i
	}
	for i, t := range want {
		if t == T && !sel[i] {
			return fmt.Sprintf("expected true, got false for %s = %s", cands[i].loc(), short(cands[i].text()))
		}
		if t == F && sel[i] {
			return fmt.Sprintf("expected false, got true for %s = %s", cands[i].loc(), short(cands[i].text()))
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func init() {
	handlers["filter"] = func(raw json.RawMessage) (bool, string) {
		var a FilterCase
		must(json.Unmarshal(raw, &a))
		txt, err := strconv.Unquote(a.Path)
		must(err)
		root := parseDoc(a.Doc)
		nodes := allNodes(root)
		want := map[int]Tri{}
		for _, i := range a.In {
			want[i] = T
		}
		for _, i := range a.Out {
			want[i] = F
		}
		for _, i := range a.Free {
			want[i] = U
		}
		var cands []*Node
		var tr []Tri
		for i, n := range nodes {
			if t, ok := want[i]; ok {
				cands = append(cands, n)
				tr = append(tr, t)
			}
		}
		p, err, pan := parse(txt)
		if err != nil || pan != "" {
			return true, fmt.Sprintf("Parse(%s): %v %s", a.Path, err, pan)
		}
		v := variants[a.Variant]
		reps := 1
		if !v.ordered {
			reps = 20
		}
		for i := 0; i < reps; i++ {
			if bad := filterBad(v, root, v.mk(root), p, cands, tr); bad != "" {
				return true, a.Path + " on " + short(a.Doc) + ": " + bad
			}
		}
		return false, ""
	}
}

// decide evaluates txt, a path that filters the candidates, and compares
// which of them it selects.
func (c *Ctx) decide(txt string, d *docCase, vs []*variant, cands []*Node, want []Tri) {
	c.enter("parse", txt)
	gp, err, pan := parse(txt)
	if err != nil || pan != "" {
		c.violate("query", txt, QSeq{Path: quoted(txt)}, fmt.Sprintf("Parse(%s): %v %s", txt, err, pan))
		return
	}
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	if d.h == 0 {
		d.h = hashStr(d.txt)
	}
	h := d.h
	for _, t := range want {
		h = (h ^ uint64(t+1)) * 1099511628211
		if t == U {
			c.count("unspecified_skipped", 1)
		}
	}
	c.seen[h] = struct{}{}
	c.res.Transitions += int64(len(want))
	c.sample(func() string {
		n := 0
		for _, t := range want {
			if t == T {
				n++
			}
		}
		return fmt.Sprintf("%s: true for %d of %d candidates", txt, n, len(want))
	})
	for vi, v := range vs {
		c.enter("query", txt, d.txt, v.name)
		if bad := filterBad(v, d.root, d.ms[vi], gp, cands, want); bad != "" {
			a := FilterCase{Path: quoted(txt), Doc: d.txt, Variant: v.name}
			for i, n := range cands {
				switch want[i] {
				case T:
					a.In = append(a.In, n.ID)
				case F:
					a.Out = append(a.Out, n.ID)
				default:
					a.Free = append(a.Free, n.ID)
				}
			}
			c.violate("filter", txt, a, txt+" ("+v.name+"): "+bad)
		}
	}
}

func (c *Ctx) decideExpr(e *Expr, txt string, d *docCase, vs []*variant, cands []*Node) {
	want := make([]Tri, len(cands))
	for i, n := range cands {
		want[i] = truth(e.eval(d.root, n))
	}
	c.decide(txt, d, vs, cands, want)
}

// ---------------------------------------------------------------- C05

func predicates() []*Expr {
	a, b := step(key("a")), step(key("b"))
	p := []*Expr{
		eCur(), eCur(a), eCur(b), eCur(a, b), eCur(step(idx(0))), eCur(step(idx(-1))), eCur(step(wild())), eCur(rec(key("a"))), eCur(rec(wild())), eCur(rec(key("a")), step(idx(0))),
		eCur(step(slc(nil, eInt(1), nil))), eCur(step(key("a"), key("b"))),
		eRoot(a), eRoot(step(idx(0))), eRoot(step(wild())), eRoot(rec(key("a"))), eRoot(), eRoot(step(idx(-1)), a), eRoot(a, step(idx(1))), eRoot(rec(wild()), b),
	}
	paths := p[:8]
	// nested filters
	p = append(p,
		eCur(step(filt(eCur(a)))), eCur(step(filt(eCur()))), eCur(a, step(filt(eCur(b)))), eCur(step(filt(eCur(step(filt(eCur())))))),
		eRoot(step(filt(eCur(a)))), eCur(step(filt(eRoot(a)))), eCur(step(filt(bin("==", eCur(), eRoot(a))))), eCur(step(filt(bin("==", eCur(a), eRoot(b)))), b),
		eCur(step(filt(un("!", eCur(a))))), eCur(rec(filt(bin("==", eCur(), eInt(1))))), eCur(step(filt(eRoot(step(filt(eCur(a))))))),
		bin("==", eCur(step(filt(eCur()))), eInt(1)), bin("==", eRoot(step(filt(bin("==", eCur(), eInt(1))))), eInt(1)),
	)
	// comparisons of paths
	p = append(p,
		bin("==", eCur(), eInt(1)), bin("==", eCur(a), eInt(1)), bin("==", eCur(a), eRoot(a)), bin("==", eCur(a), eCur(b)), bin("==", eCur(), eRoot(step(idx(0)))),
		bin("==", eCur(step(idx(0))), eRoot(b)), bin("!=", eCur(), eInt(1)), bin("!=", eCur(a), eInt(1)), bin("<", eCur(), eInt(1)), bin(">=", eCur(a), eInt(0)), bin("==", eCur(), eStr("s")),
		bin("==", eInt(1), eRoot(a)), bin("==", eCur(a, b), eRoot(a, b)),
	)
	// literals
	p = append(p, eInt(1), eInt(0), eStr(""), eStr("x"), eBool(true), eBool(false), eF(0.5), eF(0))
	// connectives
	n := len(p)
	for i := 0; i < n; i++ {
		p = append(p, un("!", p[i]))
	}
	for _, x := range paths {
		for _, y := range append(paths, bin("==", eCur(), eInt(1)), eRoot(a)) {
			p = append(p, bin("&&", x, y), bin("||", x, y))
		}
	}
	x, y, z := eCur(a), eCur(b), bin("==", eCur(), eInt(1))
	p = append(p,
		bin("&&", un("!", x), y), bin("||", un("!", x), un("!", y)), un("!", bin("&&", x, y)), un("!", bin("||", x, y)), un("!", un("!", x)),
		bin("||", bin("&&", x, y), z), bin("&&", x, bin("||", y, z)), bin("||", x, bin("&&", y, z)), bin("&&", bin("||", x, y), z), un("!", un("!", z)),
		bin("&&", bin("&&", x, y), un("!", z)), bin("||", bin("||", x, y), z))
	return p
}

// boolPredicates use the results of connectives as values
func boolPredicates() (p []*Expr) {
	a, b := eCur(step(key("a"))), eCur(step(key("b")))
	one := bin("==", eCur(), eInt(1))
	ops := []*Expr{a, b, eCur(), one, eRoot(step(key("a"))), eCur(step(filt(eCur()))), eInt(1), eInt(0), eStr("s"), eStr(""), eBool(true), eBool(false), eF(0.5)}
	var cs []*Expr
	for i, x := range ops {
		cs = append(cs, un("!", x), un("!", un("!", x)))
		for j, y := range ops {
			if i < 6 || j < 6 {
				cs = append(cs, bin("&&", x, y), bin("||", x, y))
			}
		}
	}
	for _, e := range cs {
		p = append(p, e)
		for _, l := range []*Expr{eBool(true), eBool(false), a} {
			p = append(p, bin("==", e, l), bin("!=", l, e))
		}
		p = append(p, bin("==", e, un("!", e)), bin("in", e, list(eBool(true))), bin("in", e, list(eInt(1), eStr("s"), eBool(false))), bin("==", e, bin("&&", b, a)), bin("==", e, eInt(1)), bin("==", e, eInt(0)))
	}
	return
}

func checkC05(c *Ctx) {
	vs := stdVariants()
	preds := predicates()
	g := &docGen{leaves: []*Node{nI(0), nI(1), nS(""), nS("s"), nB(true), nB(false)}, keys: []string{"b", "a"}}
	all4 := g.upTo(4)
	small := all4[:0:0]
	for _, d := range all4 {
		if d.Size <= 3 {
			small = append(small, d)
		}
	}
	var childF, recF []*Step
	for _, e := range preds {
		childF = append(childF, step(filt(e)))
		recF = append(recF, rec(filt(e)))
	}
	run := func(prefix *Path, depth int, docs []*Node, alpha func(int) []*Step) {
		if c.expired() {
			return
		}
		e := &explorer{c: c, vs: vs, prefix: prefix, maxDepth: depth, alphabet: alpha, byPath: true}
		e.load(docs)
		e.run()
	}
	only := func(s []*Step) func(int) []*Step { return func(int) []*Step { return s } }
	// 1. every predicate, on every document
	run(nil, 1, all4, only(childF))
	run(nil, 1, all4, only(recF))
	var boolF []*Step
	for _, e := range boolPredicates() {
		boolF = append(boolF, step(filt(e)))
	}
	run(nil, 1, small, only(boolF))
	// 2. at every position of a path, with steps before and after
	tail := []*Step{step(key("a")), step(idx(0)), step(wild()), rec(key("a")), step(slc(nil, nil, eInt(-1)))}
	tail = append(tail, childF[1], childF[12], childF[20], recF[1], recF[0])
	for _, f := range [][]*Step{childF, recF} {
		f := f
		run(nil, 2, small, func(d int) []*Step {
			if d == 0 {
				return f
			}
			return tail
		})
		run(nil, 2, small, func(d int) []*Step {
			if d == 0 {
				return tail
			}
			return f
		})
	}
	// 3. documents with two levels of containers
	g2 := &docGen{leaves: []*Node{nI(0), nI(1)}, keys: []string{"b", "a"}, noEmpty: true}
	deep := g2.upTo(c.pick(6, 7))
	run(nil, 1, deep, only(childF))
	run(path(step(wild())), 1, deep, only(childF))
	// truth of every value, in every place
	unit := 0
	{
		ka := step(key("a"))
		vals := append(append([]*Node{}, scalarPool()...), otherPool()...)
		vals = append(vals, nF(-0.25), nF(1e-300), nF(0.999), nI(-(1 << 62)), nI(1<<62), nI(256), nI(65536), nS("0"), nS("0.0"), nS("\x00"), nS("no"), nS("[]"), nS("{}"), nS("undefined"), nS("NaN"), nA(nI(0)), nA(nNull()), nA(nB(false)), nA(nS("")), nO("", nI(0)), nO("a", nB(false)), nA(nA()))
		objs := &Node{Kind: KArr}
		for i, v := range vals {
			objs.Elems = append(objs.Elems, nO("b", nA(v), "a", v), nO("a", nA(v, vals[(i+1)%len(vals)]), "b", v))
		}
		tvs := []*variant{vPtr, vPtrF, vMap, vMapI}
		dd := newDocCase(nO("x", nA(vals...), "y", objs).finish(), tvs)
		x, y := dd.root.Elems[0].Elems, dd.root.Elems[1].Elems
		for _, e := range []*Expr{eCur(), eCur(ka), eCur(step(key("b"))), eCur(step(key("b")), step(idx(0))), eCur(step(wild())), eCur(step(key("b")), step(wild())), eCur(ka, step(wild())), eCur(ka, step(idx(1))), eCur(rec(idx(0))), eCur(rec(wild())), eCur(step(slc(nil, eInt(1), nil))), eCur(step(idx(-1)))} {
			for _, f := range []*Expr{e, un("!", e), un("!", un("!", e)), bin("&&", e, eInt(1)), bin("&&", eStr("t"), e), bin("||", e, eInt(0)), bin("||", eStr(""), e), bin("&&", e, un("!", e)), bin("||", un("!", e), e), eCur(step(filt(e))), eCur(rec(filt(un("!", e))))} {
				if unit++; !c.mine(unit) || c.expired() {
					continue
				}
				c.decideExpr(f, "$.x[?("+f.text()+")]", dd, tvs, x)
				c.decideExpr(f, "$.y[?("+f.text()+")]", dd, tvs, y)
			}
		}
		for i := range vals {
			for _, e := range []*Expr{eRoot(step(key("x")), step(idx(i))), eRoot(step(key("y")), step(idx(2*i)), ka), eRoot(step(key("y")), step(idx(2*i)), step(key("b")), step(wild()))} {
				for _, f := range []*Expr{e, un("!", e), bin("&&", eCur(), e), bin("||", eCur(ka), e)} {
					if unit++; c.mine(unit) && !c.expired() {
						c.decideExpr(f, "$.x[?("+f.text()+")]", dd, tvs[:2+2*(i%2)], x)
					}
				}
			}
		}
	}
	// 4. filters nested in filters
	var nest func(d int, root bool) *Expr
	nest = func(d int, root bool) *Expr {
		if d == 0 {
			if root {
				return bin("==", eCur(step(key("k"))), eRoot(step(key("k"))))
			}
			return eCur(step(key("k")))
		}
		return eCur(step(filt(nest(d-1, root))))
	}
	for d := 0; d <= c.pick(9, 12); d++ {
		for _, root := range []bool{false, true} {
			unit++
			if !c.mine(unit) {
				continue
			}
			// leaves with and without k at different depths
			var docs []*Node
			for leafd := 0; leafd <= d+2; leafd++ {
				for _, v := range []int{1, 2} {
					n := nO("k", nI(v))
					for i := 0; i < leafd; i++ {
						if i%2 == 0 {
							n = nA(nI(1), n)
						} else {
							n = nO("x", n, "y", nI(0))
						}
					}
					docs = append(docs, nO("k", nI(1), "z", n))
				}
			}
			for _, r := range docs {
				c.one(path(step(filt(nest(d, root)))), newDocCase(r.finish(), vs), vs)
				c.one(path(rec(filt(nest(d, root)))), newDocCase(r.finish(), vs), vs)
			}
		}
	}
	c.twins("$[?(@.", "$[?(@=='")
	c.below(vs[:2], 5, func(k string) []*Path {
		has, one := eCur(step(key(k))), eInt(1)
		return []*Path{path(step(filt(has))), path(step(filt(bin("==", has, one)))), path(step(key(k)), step(filt(has))), path(step(key(k)), step(filt(bin("==", eCur(), one)))), path(step(filt(eCur(step(key(k)), step(key("b")))))), path(step(filt(bin("==", eCur(step(key(k)), step(idx(0))), one)))), path(rec(filt(has))), path(step(filt(eCur(rec(key(k)))))), path(step(filt(bin("==", eRoot(step(key(k))), one))))}
	})
	c.giants(vs[:2], func(n int) (a, o, r []*Path) {
		return []*Path{path(step(filt(bin(">", eCur(), eInt(n/2))))), path(step(filt(eCur()))), path(rec(filt(un("!", eCur()))))},
			[]*Path{path(step(filt(bin("<=", eCur(), eInt(n/2))))), path(step(filt(eCur())))},
			[]*Path{path(step(filt(eCur(step(key("a"))))), step(key("b"))), path(rec(filt(eCur(step(idx(0))))))}
	})
	// 5. many candidates, deep candidates
	for _, n := range scaleSizes(c.thorough()) {
		unit++
		if !c.mine(unit) || n > 1100 {
			continue
		}
		if c.expired() {
			return
		}
		arr := &Node{Kind: KArr}
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				arr.Elems = append(arr.Elems, nO("b", nI(i), "a", nI(i%3)))
			case 1:
				arr.Elems = append(arr.Elems, nA(nI(i), nO("a", nI(1))))
			case 2:
				arr.Elems = append(arr.Elems, nI(i%2))
			default:
				arr.Elems = append(arr.Elems, nO("b", nO("a", nI(i))))
			}
		}
		for _, r := range []*Node{arr, nO("a", nI(1), "x", arr)} {
			dc := newDocCase(r.finish(), vs)
			for _, i := range []int{0, 1, 2, 4, 7, 12, 20, 21, 24, 33, 34, 35, 36} {
				c.one(path(step(filt(preds[i]))), dc, vs)
				c.one(path(rec(filt(preds[i]))), dc, vs)
			}
		}
	}
	for _, d := range depthSizes(c.pick(150, 300), c.thorough()) {
		unit++
		if !c.mine(unit) {
			continue
		}
		if c.expired() {
			return
		}
		for _, shape := range []string{"o", "oa"} {
			dc := newDocCase(chain(d, shape, nI(1), true), vs)
			c.one(path(rec(filt(eCur(step(key("a")))))), dc, vs)
			c.one(path(rec(filt(bin("==", eCur(step(key("b"))), eRoot(step(key("b"))))))), dc, vs)
			c.one(path(step(key("a")), rec(filt(bin(">", eCur(step(key("b"))), eRoot(step(key("b")))))), step(key("c"))), dc, vs)
		}
	}
}

// ---------------------------------------------------------------- C06

var cmpOps = []string{"==", "!=", "<", "<=", ">", ">=", "===", "!=="}

func scalarPool() []*Node {
	maxInt := int(^uint(0) >> 1)
	return []*Node{
		nI(0), nI(1), nI(-1), nI(2), nI(3), nI(9), nI(10), nI(11), nI(100), nI(-10), nI(127), nI(128), nI(255), nI(256), nI(1000), nI(1 << 31), nI(1<<31 - 1), nI(-(1 << 31)), nI(1 << 32), nI(1<<32 + 1), nI(1<<53 - 1), nI(1 << 53), nI(-(1 << 53)), nI(1<<53 + 1), nI(maxInt), nI(maxInt - 1), nI(-maxInt),
		nF(0), nF(1), nF(2), nF(10), nF(-1), nF(0.5), nF(-0.5), nF(1.5), nF(0.1), nF(0.2), nF(0.3), nF(0.30000000000000004), nF(0.9999999999999999), nF(1.0000000000000002), nF(9.5), nF(10.5), nF(99.99), nF(1e10), nF(1e-10), nF(1e15), nF(1e300), nF(-1e300), nF(5e-324), nF(1 << 32), nF(1<<32 + 0.5),
		nS(""), nS("a"), nS("b"), nS("ab"), nS("A"), nS("B"), nS("aa"), nS("1"), nS("10"), nS("9"), nS("1.0"), nS("é"), nS("e\u0301"), nS("z"), nS("😀"), nS("\uffff"), nS("\ue000"), nS("true"), nS("false"), nS("null"), nS("a\x00"), nS("a "), nS(" a"), nS("a\n"), nS("abcdefghijklmnopqrstuvwxyz0"), nS("abcdefghijklmnopqrstuvwxyz1"), nS("[]"), nS("it's"), nS(`q"q`), nS(`b\s`),
		nI(20), nI(99), nI(65535), nI(65536), nI(12345678901), nI(1000000000000000000),
		nF(math.Copysign(0, -1)), nF(100.00000000000001), nF(100.00000000000003), nF(123456789.12345678), nF(1e-300), nF(1e16), nF(1e21), nF(1e22), nF(1e23), nF(1.7976931348623157e308), nF(math.Pi), nF(2.5), nF(65535.5),
		nS("100"), nS("20"), nS("99"), nS("1000"), nS("007"), nS("01"), nS("1e3"), nS("0x10"), nS("-5"), nS("-10"), nS("+1"), nS(".5"), nS("0.5"), nS("1.50"), nS("1.5"), nS("Inf"), nS("NaN"), nS("1_000"), nS("\uff11"), nS("2020-01-02"), nS("2020-01-10"), nS("v1.10"), nS("v1.9"), nS("a1"), nS("a10"), nS("a9"), nS("TRUE"), nS("ß"), nS("ss"), nS("\t"), nS("a\u200b"), nS("{}"), nS("<nil>"),
		nB(true), nB(false), nNull(),
	}
}

func otherPool() []*Node {
	return []*Node{nA(), nA(nI(1)), nA(nS("a"), nS("b")), nA(nA()), nO(), nO("a", nI(1)), nO("a", nNull(), "b", nI(2))}
}

func checkC06(c *Ctx) {
	c.twins("$[?(@=='", "$[?(@ in ['")
	vs := []*variant{vPtr, vPtrF, vMap, vMapI}
	scal, other := scalarPool(), otherPool()
	vals := append(append([]*Node{}, scal...), other...)
	vals = append(vals, nil) // missing
	// candidates: all pairs, and what the expressions refer to below the root
	all := nA(vals[:len(vals)-1]...)
	cands := &Node{Kind: KArr}
	for _, l := range vals {
		for _, r := range vals {
			o := nO()
			if l != nil {
				o.Keys, o.Elems = append(o.Keys, "l"), append(o.Elems, l)
			}
			if r != nil {
				o.Keys, o.Elems = append(o.Keys, "r"), append(o.Elems, r)
			}
			o.Keys, o.Elems = append(o.Keys, "w"), append(o.Elems, nA(o.clone()))
			cands.Elems = append(cands.Elems, o)
		}
	}
	pairs := newDocCase(nO("vals", all, "x", cands).finish(), vs)
	pc := pairs.root.Elems[1].Elems
	single := &Node{Kind: KArr}
	for _, l := range vals {
		if l == nil {
			single.Elems = append(single.Elems, nO("q", nI(1)))
		} else {
			single.Elems = append(single.Elems, nO("l", l, "w", nA(nO("l", l))))
		}
	}
	singles := newDocCase(nO("vals", all, "x", single).finish(), vs)
	sc := singles.root.Elems[1].Elems
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	wrap := func(e *Expr) string { return "$.x[?(" + e.text() + ")]" }
	lk, rk, wk := step(key("l")), step(key("r")), step(key("w"))
	forms := func(k *Step) []*Expr {
		return []*Expr{
			eCur(k), eCur(wk, step(idx(0)), k), eCur(step(&Sel{K: SKey, Key: k.Sels[0].Key, Text: `"` + k.Sels[0].Key + `"`})), eCur(wk, step(idx(-1)), k), eCur(wk, step(wild()), k),
		}
	}
	computed := func(k *Step) []*Expr {
		x := eCur(k)
		return []*Expr{bin("+", x, eInt(0)), bin("*", x, eInt(1)), bin("-", x, eF(0)), un("-", un("-", x)), un("+", x), bin("/", x, eF(1)), bin("**", x, eInt(1)), bin("+", x, eF(0.5)), bin("-", eInt(0), x)}
	}
	// 1. paths against paths
	for _, op := range cmpOps {
		for _, l := range forms(lk) {
			for _, r := range forms(rk) {
				if mine() {
					c.decideExpr(bin(op, l, r), wrap(bin(op, l, r)), pairs, vs, pc)
				}
			}
		}
		for _, x := range computed(lk) {
			if mine() {
				c.decideExpr(bin(op, x, eCur(rk)), wrap(bin(op, x, eCur(rk))), pairs, vs, pc)
				c.decideExpr(bin(op, eCur(rk), x), wrap(bin(op, eCur(rk), x)), pairs, vs, pc)
			}
		}
		if c.expired() {
			return
		}
	}
	// 2. the same path on both sides; candidate itself
	for _, op := range cmpOps {
		if mine() {
			c.decideExpr(bin(op, eCur(lk), eCur(lk)), wrap(bin(op, eCur(lk), eCur(lk))), singles, vs, sc)
		}
		for i := range scal {
			if !mine() {
				continue
			}
			// the root
			e1 := bin(op, eCur(lk), eRoot(step(key("vals")), step(idx(i))))
			e2 := bin(op, eRoot(step(key("vals")), step(idx(i))), eCur(lk))
			c.decideExpr(e1, wrap(e1), singles, vs, sc)
			c.decideExpr(e2, wrap(e2), singles, vs, sc)
			e3 := bin(op, eCur(), eRoot(step(key("vals")), step(idx(i))))
			c.decideExpr(e3, "$.vals[?("+e3.text()+")]", singles, vs, singles.root.Elems[0].Elems)
		}
	}
	// 3. literals, in all their spellings, against paths
	for i, n := range scal {
		for _, l := range literals(n) {
			for _, op := range cmpOps {
				if !mine() {
					continue
				}
				e1, e2 := bin(op, eCur(lk), l), bin(op, l, eCur(lk))
				c.decideExpr(e1, wrap(e1), singles, vs, sc)
				c.decideExpr(e2, wrap(e2), singles, vs, sc)
				e3 := bin(op, bin("+", eCur(lk), eInt(1)), l)
				c.decideExpr(e3, wrap(e3), singles, vs[:2], sc)
				e4 := bin(op, eCur(), l)
				c.decideExpr(e4, "$.vals[?("+e4.text()+")]", singles, vs[:2], singles.root.Elems[0].Elems)
			}
		}
		_ = i
		if c.expired() {
			return
		}
	}
	// 4. literals against literals
	one := newDocCase(nA(nI(1)).finish(), vs[:1])
	var lits []*Expr
	for _, n := range scal {
		ls := literals(n)
		lits = append(lits, ls[0])
		if len(ls) > 1 {
			lits = append(lits, ls[len(ls)-1])
		}
	}
	for _, a := range lits {
		if !mine() {
			continue
		}
		if c.expired() {
			return
		}
		for _, b := range lits {
			for _, op := range cmpOps {
				e := bin(op, a, b)
				c.decideExpr(e, "$[?("+e.text()+")]", one, vs[:1], one.root.Elems)
			}
		}
	}
	// long strings that differ in one place
	for _, g := range nearStrings(c.thorough()) {
		if !mine() {
			continue
		}
		if c.expired() {
			return
		}
		if len(g[0]) > 1100 && len(g) > 11 {
			g = append(g[:6:6], g[8:11]...)
		}
		var l []*Node
		o := &Node{Kind: KArr}
		for _, s := range g {
			l = append(l, nS(s))
		}
		for _, a := range l {
			for _, b := range l {
				o.Elems = append(o.Elems, nO("l", a, "r", b))
			}
		}
		d := newDocCase(nO("vals", nA(l...), "x", o).finish(), vs[:3])
		for _, op := range cmpOps {
			e := bin(op, eCur(lk), eCur(rk))
			c.decideExpr(e, wrap(e), d, vs[:3], d.root.Elems[1].Elems)
			for i, s := range g {
				for j, e := range []*Expr{bin(op, eCur(), eStr(s)), bin(op, eStr(s), eCur()), bin(op, eCur(), eRoot(step(key("vals")), step(idx(i))))} {
					if j == 0 || i < 8 {
						c.decideExpr(e, "$.vals[?("+e.text()+")]", d, vs[:3], d.root.Elems[0].Elems)
					}
				}
			}
			if len(g[0]) < 300 {
				for _, a := range g[:8] {
					for _, b := range g {
						e := bin(op, eStr(a), eStr(b))
						c.decideExpr(e, "$[?("+e.text()+")]", one, vs[:1], one.root.Elems)
					}
				}
			}
		}
	}
	// 5. != is the negation of == also where the result of == is open
	{
		ops := append(forms(lk), computed(lk)...)
		ops = append(ops, eCur(step(wild())), eRoot(step(key("vals"))), list(eInt(1)), list(), eRoot(step(key("no"))))
		for _, l := range ops {
			for _, r := range append(forms(rk)[:1], eNull(), eInt(1), eRoot(step(key("vals"))), eCur(rec(wild())), list(eInt(1)), list(), eRoot(step(key("no")))) {
				if !mine() {
					continue
				}
				for vi, v := range vs {
					c.negation(wrap(bin("==", l, r)), wrap(bin("!=", l, r)), pairs, v, vi, pc)
					c.negation(wrap(bin("===", l, r)), wrap(bin("!==", l, r)), pairs, v, vi, pc)
				}
			}
		}
	}
}

// literals spells the scalar in every way
func literals(n *Node) []*Expr {
	v := nodeVal(n)
	v.Node = nil
	mk := func(t string) *Expr { return &Expr{K: ELit, Lit: v, Text: t} }
	switch n.Kind {
	case KInt:
		out := []*Expr{mk(strconv.Itoa(n.I))}
		if n.I >= 0 {
			out = append(out, mk("0x"+strconv.FormatInt(int64(n.I), 16)), mk("0b"+strconv.FormatInt(int64(n.I), 2)), mk("+"+strconv.Itoa(n.I)))
		}
		return out
	case KFloat:
		out := []*Expr{}
		if math.Abs(n.F) < 1e18 && math.Abs(n.F) > 1e-12 || n.F == 0 {
			out = append(out, lit(v))
		}
		m := strconv.FormatFloat(n.F, 'e', -1, 64)
		out = append(out, mk(m), mk(strconv.FormatFloat(n.F, 'E', -1, 64)))
		return out
	case KStr:
		return []*Expr{mk(quote(n.S, '"')), mk(quote(n.S, '\''))}
	}
	return []*Expr{lit(v)}
}

// NegCase: the two paths must select complementary sets of the candidates
type NegCase struct {
	A, B, Doc, Variant string
	Cands              []int
}

func negBad(v *variant, root *Node, m gj.DocModel, a, b gj.Path, cands []*Node) string {
	x, bad := search(v, root, m, a, 4*len(cands)+100, nil)
	if bad != "" {
		return bad
	}
	y, bad := search(v, root, m, b, 4*len(cands)+100, nil)
	if bad != "" {
		return bad
	}
	n := map[*Node]int{}
	for _, z := range append(x, y...) {
		n[z]++
	}
	for _, z := range cands {
		if n[z] != 1 {
			return fmt.Sprintf("the two are not the negation of each other for %s = %s", z.loc(), short(z.text()))
		}
	}
	return ""
}

func init() {
	handlers["negation"] = func(raw json.RawMessage) (bool, string) {
		var a NegCase
		must(json.Unmarshal(raw, &a))
		root := parseDoc(a.Doc)
		nodes := allNodes(root)
		var cands []*Node
		for _, i := range a.Cands {
			cands = append(cands, nodes[i])
		}
		p, err, pan := parse(a.A)
		q, err2, pan2 := parse(a.B)
		if err != nil || err2 != nil || pan+pan2 != "" {
			return true, fmt.Sprint(err, err2, pan, pan2)
		}
		v := variants[a.Variant]
		bad := negBad(v, root, v.mk(root), p, q, cands)
		return bad != "", a.A + " and " + a.B + ": " + bad
	}
}

func (c *Ctx) negation(ta, tb string, d *docCase, v *variant, vi int, cands []*Node) {
	c.enter("parse", ta)
	p, err, pan := parse(ta)
	q, err2, pan2 := parse(tb)
	if err != nil || err2 != nil || pan+pan2 != "" {
		c.violate("query", ta, QSeq{Path: quoted(ta)}, fmt.Sprint(ta, err, err2, pan, pan2))
		return
	}
	c.res.Transitions += int64(len(cands))
	c.enter("query", ta, d.txt, v.name)
	if bad := negBad(v, d.root, d.ms[vi], p, q, cands); bad != "" {
		c.violate("negation", ta, NegCase{ta, tb, d.txt, v.name, ids(cands)}, ta+" and "+tb+": "+bad)
	}
}

func init() {
	checks["C05"] = &check{run: checkC05, bounds: func(t bool) map[string]any {
		return map[string]any{"predicates": len(predicates()), "document_nodes": "4 with 6 kinds of leaves; " + map[bool]string{false: "6", true: "7"}[t] + " without empty containers", "filter_nesting": map[bool]int{false: 12, true: 24}[t], "positions": 14}
	}}
	checks["C06"] = &check{run: checkC06, bounds: func(t bool) map[string]any {
		return map[string]any{"scalars": len(scalarPool()), "containers": len(otherPool()), "operand_forms": 14, "operators": 8, "models": 4}
	}}
}
