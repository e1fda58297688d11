package main

// C02: slices, C09: computed bounds

import "fmt"

func boundsAlphabet(n int) []*int {
	out := []*int{nil}
	for i := 0; i <= n; i++ {
		x := i
		out = append(out, &x)
		if i > 0 {
			y := -i
			out = append(out, &y)
		}
	}
	return out
}

func hugeBounds() []*int {
	maxInt := int(^uint(0) >> 1)
	var out []*int
	for _, x := range []int{1<<31 - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, 1<<32 + 1, -(1 << 32) - 1, 1 << 53, 1<<62 - 1, 1 << 62, -(1 << 62), maxInt - 8, maxInt - 1, maxInt, -maxInt, -maxInt + 1, -maxInt + 8} {
		y := x
		out = append(out, &y)
	}
	return out
}

func sliceSel(s, e, st *int) *Sel { return slc(optInt(s), optInt(e), optInt(st)) }

type sliceCtx struct {
	name string
	wrap func(*Sel) *Path
	doc  func(arr *Node) *Node
}

func sliceContexts() []sliceCtx {
	id := func(a *Node) *Node { return a }
	return []sliceCtx{
		{"[s]", func(s *Sel) *Path { return path(step(s)) }, id},
		{".a[s]", func(s *Sel) *Path { return path(step(key("a")), step(s)) }, func(a *Node) *Node { return nO("b", nI(0), "a", a) }},
		{"[*][s]", func(s *Sel) *Path { return path(step(wild()), step(s)) }, func(a *Node) *Node { return nA(a, nI(7), nO("a", nI(1)), nA(), a) }},
		{"[s].a", func(s *Sel) *Path { return path(step(s), step(key("a"))) }, func(a *Node) *Node {
			r := &Node{Kind: KArr}
			for _, e := range a.Elems {
				r.Elems = append(r.Elems, nO("a", e))
			}
			return r
		}},
		{"[s][s]", func(s *Sel) *Path { return path(step(s), step(s)) }, func(a *Node) *Node {
			r := &Node{Kind: KArr}
			for range a.Elems {
				r.Elems = append(r.Elems, a)
			}
			return r
		}},
		{"[s,s]", func(s *Sel) *Path { return path(step(s, s)) }, id},
		{"['x',s]", func(s *Sel) *Path { return path(step(key("x"), s)) }, id},
		{"[s,'x',-1]", func(s *Sel) *Path { return path(step(s, key("x"), idx(-1))) }, id},
		{"..[s]", func(s *Sel) *Path { return path(rec(s)) }, func(a *Node) *Node { return nA(a, nO("a", a), nI(1)) }},
		{"..[s,'x']", func(s *Sel) *Path { return path(rec(s, key("x"))) }, func(a *Node) *Node { return nO("x", a, "y", nA(a)) }},
		{"[?(@[s])]", func(s *Sel) *Path { return path(step(filt(eCur(step(s))))) }, func(a *Node) *Node { return nA(a, nI(1), nA(), a) }},
		{"[?(@.a[s])].a[s]", func(s *Sel) *Path {
			return path(step(filt(eCur(step(key("a")), step(s)))), step(key("a")), step(s))
		}, func(a *Node) *Node { return nA(nO("a", a), nO("a", nO()), nO("a", nA(nI(1)))) }},
	}
}

func checkC02(c *Ctx) {
	vs := []*variant{vPtr, vMap}
	maxLen := c.pick(9, 12)
	bs := boundsAlphabet(c.pick(11, 14))
	bs = append(bs, hugeBounds()...)
	ctxs := sliceContexts()
	// documents per context and length
	docs := make([][]*docCase, len(ctxs))
	for i, x := range ctxs {
		for n := 0; n <= maxLen; n++ {
			docs[i] = append(docs[i], newDocCase(x.doc(intArr(n)).finish(), vs))
		}
	}
	others := []*docCase{}
	for _, r := range []*Node{nO(), nO("a", nI(1), "b", nA(nI(1), nI(2))), nS("abcdef"), nI(5), nNull(), nB(true), nF(2.5), nO("0", nI(1), "1", nI(2))} {
		others = append(others, newDocCase(r.finish(), vs))
	}
	huge := func(p *int) bool { return p != nil && (*p > 100 || *p < -100) }
	unit := 0
	for _, s := range bs {
		for _, e := range bs {
			unit++
			if !c.mine(unit) {
				continue
			}
			if c.expired() {
				return
			}
			for _, st := range bs {
				forms := []int{0}
				if st == nil {
					forms = []int{0, 1}
				}
				for _, form := range forms {
					sel := sliceSel(s, e, st)
					sel.Form = form
					for ci, x := range ctxs {
						lens := docs[ci]
						if ci > 0 {
							// the other contexts: bounds within the range of the lengths
							small := c.pick(5, 8)
							out := func(p *int) bool { return p != nil && !huge(p) && (*p > small || *p < -small) }
							if out(s) || out(e) || out(st) {
								continue
							}
							if ci > 4 && !c.thorough() && (huge(s) && huge(e) || huge(st) && (huge(s) || huge(e))) {
								continue
							}
							lens = lens[:c.pick(5, 8)+1]
							if x.name == "[s][s]" {
								lens = lens[:5]
							}
						}
						p := x.wrap(sel)
						txt := p.text()
						c.enter("parse", txt)
						gp, err, pan := parse(txt)
						if err != nil || pan != "" {
							c.violate("query", txt, QSeq{Path: quoted(txt)}, fmt.Sprintf("Parse(%s): %v %s", txt, err, pan))
							continue
						}
						for _, d := range lens {
							w, ok := p.eval(d.root, d.root)
							if !ok {
								panic("undefined slice")
							}
							c.evalOne(txt, gp, w, d, vs)
						}
						if ci == 0 {
							for _, d := range others {
								c.evalOne(txt, gp, nil, d, vs)
							}
						}
					}
				}
			}
		}
	}
	c.giantSlices(vs[:1])
	// longer arrays, bounds around the ends and the middle
	sizes := scaleSizes(c.thorough())
	for i, n := range sizes {
		if !c.mine(i) || n <= maxLen {
			continue
		}
		if c.expired() {
			return
		}
		d := newDocCase(intArr(n).finish(), vs)
		rd := newDocCase(nA(intArr(n), nO("a", intArr(n))).finish(), vs)
		var b []*int
		b = append(b, nil)
		vals := []int{0, 1, n / 2, n - 1, n, n + 1, -1, -n / 2, -n, -n - 1, -n + 1, 1 << 40, -(1 << 40)}
		if n > 300 {
			vals = []int{0, n / 2, n - 1, n, -1, -n, -n - 1}
		}
		for _, x := range vals {
			y := x
			b = append(b, &y)
		}
		var sts []*int
		for _, x := range []int{1, 2, 3, 7, n - 1, n, n + 1, -1, -2, -3, -n, -n + 1, 0, 1 << 62, -(1 << 62)} {
			y := x
			sts = append(sts, &y)
		}
		sts = append(sts, nil)
		for _, s := range b {
			for _, e := range b {
				for _, st := range sts {
					sel := sliceSel(s, e, st)
					c.one(path(step(sel)), d, vs)
					if n < 40 {
						c.one(path(rec(sel)), rd, vs)
					}
				}
			}
		}
	}
}

func (c *Ctx) giantSlices(vs []*variant) {
	c.below(vs[:2], 5, func(k string) []*Path {
		return []*Path{path(step(key(k)), step(slc(nil, nil, nil))), path(step(key(k)), step(slc(nil, nil, eInt(-1)))), path(step(key(k)), step(slc(eInt(1), nil, nil))), path(step(wild()), step(slc(eInt(-1), nil, nil))), path(rec(slc(nil, eInt(1), nil)))}
	})
	c.giants(vs, func(n int) (a, o, r []*Path) {
		p := func(x int) *int { return &x }
		bs := []*int{nil, p(1), p(n - 2), p(n / 2), p(-2), p(-n + 1), p(65535), p(65537), p(n), p(-n - 1)}
		for _, s := range bs {
			for _, e := range bs {
				for _, st := range []*int{nil, p(1), p(3), p(n / 3), p(-1), p(-1000), p(65536), p(-65537)} {
					a = append(a, path(step(sliceSel(s, e, st))))
				}
			}
		}
		return
	})
}

func checkC09(c *Ctx) {
	vs := []*variant{vPtr, vMap, vMapI}
	// The bounds are expressions over the array (@) and the root ($)
	length := func(p *Path, m bool) *Expr {
		if m {
			return &Expr{K: ELenM, P: p}
		}
		return &Expr{K: ELen, P: p}
	}
	bexprs := []*Expr{
		nil,
		eInt(1), eInt(-1),
		eCur(step(idx(0))), eCur(step(idx(-1))), eCur(step(idx(1))),
		eRoot(step(key("n"))), eRoot(step(key("m"))), eRoot(step(key("arr")), step(idx(0))),
		length(cur(), true), length(cur(), false), length(path(step(key("arr"))), true),
		bin("-", length(cur(), true), eInt(1)), bin("-", length(cur(), true), eInt(2)),
		bin("+", eCur(step(idx(0))), eInt(1)), bin("*", eRoot(step(key("n"))), eInt(2)),
		un("-", eCur(step(idx(0)))), un("-", eRoot(step(key("n")))), un("-", length(cur(), true)),
		bin("/", length(cur(), true), length(cur(), true)),
		bin("%", length(cur(), true), eInt(2)),
		eRoot(step(key("arr")), step(slc(nil, eInt(1), nil))),
	}
	steps := []*Expr{nil, eInt(1), eInt(-1), eInt(2), eRoot(step(key("n"))), un("-", eRoot(step(key("n")))), eCur(step(idx(0))), un("-", eCur(step(idx(0)))), bin("-", length(cur(), true), eInt(1))}
	if c.thorough() {
		steps = append(steps, bexprs[5:]...)
	}
	// arrays whose elements are usable as bounds; the roots carry n, m and arr
	var arrays []*Node
	vals := []int{0, 1, 2, 3, -1, -2}
	var build func(cur []int, n int)
	build = func(cur []int, n int) {
		if len(cur) == n {
			a := nA()
			for _, x := range cur {
				a.Elems = append(a.Elems, nI(x))
			}
			arrays = append(arrays, a)
			return
		}
		for _, v := range vals {
			build(append(cur, v), n)
		}
	}
	for n := 0; n <= 2; n++ {
		build(nil, n)
	}
	// longer arrays: first, second and last element matter
	for n := 3; n <= c.pick(6, 9); n++ {
		for _, f := range vals {
			for _, l := range []int{1, -1, 2} {
				a := nA(nI(f), nI(1))
				for i := 2; i < n-1; i++ {
					a.Elems = append(a.Elems, nI(10+i))
				}
				a.Elems = append(a.Elems, nI(l))
				arrays = append(arrays, a)
			}
		}
	}
	type cx struct {
		name string
		wrap func(*Sel) *Path
		doc  func(a *Node, n, m int) *Node
	}
	root := func(rest ...any) *Node { return nO(rest...) }
	ctxs := []cx{
		{"$.x[s]", func(s *Sel) *Path { return path(step(key("x")), step(s)) },
			func(a *Node, n, m int) *Node {
				return root("n", nI(n), "m", nI(m), "arr", nA(nI(2), nI(5), nI(6)), "x", a)
			}},
		{"$.x[s,'k']", func(s *Sel) *Path { return path(step(key("x")), step(s, key("k"))) },
			func(a *Node, n, m int) *Node {
				return root("n", nI(n), "m", nI(m), "arr", nA(nI(2), nI(5), nI(6)), "x", a)
			}},
		{"$..x..[s]", func(s *Sel) *Path { return path(rec(key("x")), rec(s)) },
			func(a *Node, n, m int) *Node {
				return root("n", nI(n), "m", nI(m), "arr", nA(nI(1)), "x", nA(a, nO("k", a)))
			}},
		{"$.x[*][s]", func(s *Sel) *Path { return path(step(key("x")), step(wild()), step(s)) },
			func(a *Node, n, m int) *Node {
				return root("n", nI(n), "m", nI(m), "arr", nA(nI(-1), nI(5), nI(6)), "x", nA(a, nA(nI(2), nI(3), nI(1), nI(0)), a, nA(nI(1), nI(2))))
			}},
		{"$.x[?(@[s])]", func(s *Sel) *Path { return path(step(key("x")), step(filt(eCur(step(s))))) },
			func(a *Node, n, m int) *Node {
				return root("n", nI(n), "m", nI(m), "arr", nA(nI(1), nI(1)), "x", nA(a, nA(nI(2), nI(3), nI(1), nI(4)), nO("k", a)))
			}},
		{"$.x[s][s]", func(s *Sel) *Path { return path(step(key("x")), step(slc(nil, nil, nil)), step(s, s)) },
			func(a *Node, n, m int) *Node {
				return root("n", nI(n), "m", nI(m), "arr", nA(nI(1), nI(1)), "x", nA(a, nA(nI(1), nI(3), nI(2))))
			}},
	}
	nm := [][2]int{{1, -1}, {2, 0}, {-1, 3}}
	docs := make([][]*docCase, len(ctxs))
	for ci, x := range ctxs {
		for i, a := range arrays {
			if ci > 0 && !c.thorough() && i%4 != 0 && len(a.Elems) > 1 {
				continue
			}
			for j, p := range nm {
				if !c.thorough() && ci > 1 && (i+j)%3 != 0 {
					continue
				}
				docs[ci] = append(docs[ci], newDocCase(x.doc(a, p[0], p[1]).finish(), vs[:2+ci%2]))
			}
		}
	}
	unit := 0
	all := func(bexprs, steps []*Expr, docs [][]*docCase) {
		for _, s := range bexprs {
			for _, e := range bexprs {
				unit++
				if !c.mine(unit) {
					continue
				}
				for _, st := range steps {
					sel := slc(s, e, st)
					for ci, x := range ctxs {
						if c.expired() {
							return
						}
						p := x.wrap(sel)
						txt := p.text()
						c.enter("parse", txt)
						gp, err, pan := parse(txt)
						if err != nil || pan != "" {
							c.violate("query", txt, QSeq{Path: quoted(txt)}, fmt.Sprintf("Parse(%s): %v %s", txt, err, pan))
							continue
						}
						for _, d := range docs[ci] {
							w, ok := p.eval(d.root, d.root)
							if !ok {
								c.count("unspecified_skipped", 1)
								continue
							}
							c.evalOne(txt, gp, w, d, vs[:len(d.ms)])
						}
					}
				}
			}
		}
	}
	all(bexprs, steps, docs)
	// bounds that are paths of every kind, into the array and elsewhere
	n, q := step(key("n")), step(key("q"))
	deep := []*Expr{
		nil, eInt(1), eCur(step(idx(0)), n), eCur(rec(key("n"))), eCur(rec(idx(0)), step(idx(0))), eCur(step(idx(1)), step(idx(0))), eCur(step(wild()), n), eCur(step(filt(eCur(n))), n), eCur(step(slc(eInt(1), eInt(2), nil)), step(idx(0))),
		eCur(step(wild()), step(idx(-1))), eCur(rec(key("q"))), eCur(step(idx(0)), q, step(idx(0))), eCur(rec(wild()), step(key("n"), key("zz"))), eCur(step(idx(-1))), eCur(step(idx(9))), eCur(rec(filt(bin("==", eCur(), eInt(3))))),
		length(cur(step(idx(1))), true), length(cur(step(idx(0)), q), false), length(cur(rec(key("q"))), true), bin("-", eCur(rec(key("n"))), eInt(1)), bin("+", eCur(rec(key("n"))), eCur(step(idx(1)), step(idx(0)))), un("-", eCur(rec(key("n")))),
		eRoot(rec(key("rn"))), eRoot(step(key("arr")), step(idx(-1))), eRoot(step(key("arr")), step(filt(bin(">", eCur(), eInt(1))))), eRoot(rec(key("arr")), step(idx(0))), bin("*", eRoot(rec(key("rn"))), eCur(rec(key("n")))), bin("-", length(path(step(key("arr"))), true), eCur(step(idx(1)), step(idx(0)))),
	}
	ddocs := make([][]*docCase, len(ctxs))
	for ci, x := range ctxs {
		for i, p := range [][4]int{{1, 2, 3, 1}, {2, 1, -1, 2}, {0, 3, 2, -1}, {-1, 1, 1, 0}, {3, -2, 0, 1}, {1, 1, 5, 3}} {
			if i > 2 && !c.thorough() && ci != 0 && ci != 2 {
				continue
			}
			a := nA(nO("n", nI(p[0]), "q", nA(nI(p[1]))), nA(nI(p[2]), nI(7)), nI(10), nI(11), nI(12), nI(p[3]))
			r := x.doc(a, p[0], p[1])
			r.Keys, r.Elems = append(r.Keys, "z"), append(r.Elems, nO("rn", nI(p[1]+1)))
			ddocs[ci] = append(ddocs[ci], newDocCase(r.finish(), vs[:2]))
		}
	}
	all(deep, []*Expr{nil, eInt(-1), eCur(rec(key("n"))), un("-", eCur(step(idx(1)), step(idx(0))))}, ddocs)
}

func init() {
	checks["C02"] = &check{run: checkC02, bounds: func(t bool) map[string]any {
		b, l := 11, 9
		if t {
			b, l = 14, 12
		}
		return map[string]any{"bounds": fmt.Sprintf("omitted, -%d..%d, %d extreme values", b, b, len(hugeBounds())), "array_lengths": fmt.Sprintf("0..%d completely, %d longer ones", l, len(scaleSizes(t))), "contexts": len(sliceContexts())}
	}}
	checks["C09"] = &check{run: checkC09, bounds: func(t bool) map[string]any {
		return map[string]any{"bound_expressions": 22, "contexts": 6, "array_length": map[bool]int{false: 6, true: 9}[t]}
	}}
}
