package main

// C03: recursive descent, C04: unions

import (
	"encoding/json"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

func checkC03(c *Ctx) {
	trail := &Step{Rec: true, Sels: []*Sel{wild()}, Text: ".."}
	recs := []*Step{
		rec(key("a")), rec(key("b")), rec(wild()),
		rec(idx(0)), rec(idx(-1)), rec(idx(1)),
		{Rec: true, Sels: []*Sel{wild()}, Text: "..[*]"},
		{Rec: true, Sels: []*Sel{key("a")}, Text: "..['a']"},
		rec(slc(nil, eInt(1), nil)), rec(slc(nil, nil, eInt(-1))), rec(slc(eInt(1), nil, eInt(2))),
		rec(key("a"), key("b")), rec(key("a"), idx(0)),
		rec(filt(eCur(step(key("a"))))), rec(filt(bin("==", eCur(), eInt(1)))),
	}
	plain := []*Step{step(key("a")), step(key("b")), step(idx(0)), step(idx(-1)), step(wild()), step(slc(nil, nil, eInt(-1))), step(key("a"), idx(1))}
	all := append(append([]*Step{}, recs...), plain...)
	vs := stdVariants()
	// 1. small documents x all paths with `..` steps anywhere
	e := &explorer{c: c, vs: vs, maxDepth: 3, fullTo: 1}
	e.load(stdGen().upTo(c.pick(4, 5)))
	e.alphabet = func(d int) []*Step {
		if d == 2 && !c.thorough() {
			return all
		}
		return append(all, trail)
	}
	e.filter = func(p *Path) bool {
		for i, s := range p.Steps {
			if s == trail && i != len(p.Steps)-1 {
				return false
			}
		}
		return true
	}
	e.run()
	if c.expired() {
		return
	}
	// 2. bigger documents of containers and one kind of leaf, shorter paths
	g := &docGen{leaves: []*Node{nI(1)}, keys: []string{"b", "a"}, noEmpty: true}
	e2 := &explorer{c: c, vs: vs, maxDepth: 2, fullTo: 0, alphabet: func(d int) []*Step {
		return append(all, trail)
	}, filter: e.filter}
	e2.load(g.upTo(c.pick(7, 8)))
	e2.run()
	if c.expired() {
		return
	}
	c.confusable3(vs)
	c.giants(vs[:2], func(n int) (a, o, r []*Path) {
		l := []*Path{path(rec(wild())), path(rec(idx(-1))), path(rec(slc(nil, nil, eInt(1000))))}
		return l, l[:1], []*Path{path(rec(wild())), path(rec(key("a"))), path(rec(idx(0))), path(trail), path(rec(key("a")), step(wild()))}
	})
	c.twins("", "$..")
	c.below(vs[:2], c.pick(5, 6), func(k string) []*Path {
		return []*Path{path(trail), path(rec(wild())), path(rec(key(k))), path(rec(key("b"))), path(rec(idx(0))), path(rec(key(k), key("b"))), path(rec(wild()), step(wild())), path(rec(key(k)), rec(wild())), path(step(key(k)), rec(wild())), path(rec(filt(eCur(step(key(k))))))}
	})
	c.nearKeys(vs[:2], func(k, other string) []*Path {
		return []*Path{path(rec(key(k))), path(rec(key(k)), step(key(k))), path(rec(key(k), key(other))), path(step(key("y")), rec(key(k))), path(rec(key(k)), step(key(other)))}
	})
	// 3. depth and width
	unit := 0
	short := []*Path{
		path(rec(wild())), path(trail), path(rec(key("a"))), path(rec(key("zz"))), path(rec(idx(0))), path(rec(idx(1))), path(rec(idx(-1))),
		path(rec(slc(nil, nil, nil))), path(rec(key("a"), idx(1), key("b"))), path(rec(filt(eCur(step(key("a")))))),
		path(rec(key("a")), step(wild())), path(rec(idx(1)), step(idx(0))), path(step(wild()), rec(key("a"))), path(step(wild()), rec(wild())),
	}
	long := []*Path{path(rec(wild()), rec(wild())), path(rec(key("a")), rec(key("b"))), path(rec(wild()), rec(key("b")))}
	for _, shape := range []string{"o", "a", "oa", "aoo"} {
		for _, side := range []bool{false, true} {
			for _, d := range depthSizes(c.pick(160, 300), c.thorough()) {
				unit++
				if !c.mine(unit) {
					continue
				}
				if c.expired() {
					return
				}
				dc := newDocCase(chain(d, shape, nS("leaf"), side), vs)
				for _, p := range short {
					c.one(p, dc, vs)
				}
				if d <= 40 || d%16 == 0 && d < 140 {
					for _, p := range long {
						c.one(p, dc, vs)
					}
				}
			}
		}
	}
	for _, n := range scaleSizes(c.thorough()) {
		unit++
		if !c.mine(unit) {
			continue
		}
		if c.expired() {
			return
		}
		arr := &Node{Kind: KArr}
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				arr.Elems = append(arr.Elems, nO("b", nI(i), "a", nA(nI(i))))
			case 1:
				arr.Elems = append(arr.Elems, nA(nI(i), nO("a", nNull())))
			default:
				arr.Elems = append(arr.Elems, nI(i))
			}
		}
		for _, r := range []*Node{arr, bigObj(n), nO("a", arr)} {
			dc := newDocCase(r.finish(), vs)
			for _, p := range short {
				c.one(p, dc, vs)
			}
		}
	}
	c.deepDocs()
}

// confusables are objects in which every special key is next to all others,
// at different depths
func confusables(vs []*variant) *docCase {
	leaf := func(f func(i int) *Node) *Node {
		o := &Node{Kind: KObj}
		for i, k := range specialKeys {
			o.Keys = append(o.Keys, k)
			o.Elems = append(o.Elems, f(i))
		}
		return o
	}
	inner := func(i int) *Node {
		switch i % 5 {
		case 0:
			return nI(i)
		case 1:
			return nO(specialKeys[i], nI(0), specialKeys[(i+7)%len(specialKeys)], nNull())
		case 2:
			return nA(nO(specialKeys[i], nA()), nI(i), nA(nO(specialKeys[(i+1)%len(specialKeys)], nS("x"), specialKeys[i], nO())))
		case 3:
			return nNull()
		}
		return nO()
	}
	return newDocCase(nA(leaf(inner), nA(nA(leaf(inner)), nI(1)), nO("x", leaf(func(int) *Node { return nI(1) }))).finish(), vs)
}

// confusable3 checks `..` with special keys, all kinds of indexes and slices
func (c *Ctx) confusable3(vs []*variant) {
	d := confusables(vs)
	for i, k := range specialKeys {
		if !c.mine(i) {
			continue
		}
		c.one(path(rec(key(k))), d, vs)
		c.one(path(rec(&Sel{K: SKey, Key: k, Text: quote(k, '"')})), d, vs)
		c.one(path(step(wild()), rec(key(k))), d, vs)
		c.one(path(rec(key(k)), step(wild())), d, vs)
		c.one(path(rec(key(k)), rec(wild())), d, vs)
		c.one(path(rec(wild()), step(key(k))), d, vs)
		for _, k2 := range specialKeys {
			c.one(path(rec(key(k)), rec(key(k2))), d, vs)
			if c.thorough() {
				c.one(path(rec(key(k)), step(key(k2))), d, vs)
			}
		}
	}
	var arrs []*Node
	for n := 0; n <= 6; n++ {
		a := intArr(n)
		for j, e := range []*Node{nA(), nA(nI(1)), nA(nI(1), nA(nI(2), nI(3), nA(nI(4)))), nO("a", intArr(n))} {
			if j < n {
				a.Elems[(j*2)%n] = e
			}
		}
		arrs = append(arrs, a)
	}
	dd := newDocCase(nA(append(arrs, nO("a", nA(arrs...), "b", nI(1)))...).finish(), vs)
	b := []*Expr{nil}
	for i := -7; i <= 7; i++ {
		b = append(b, eInt(i))
	}
	sts := []*Expr{nil, eInt(1), eInt(2), eInt(3), eInt(-1), eInt(-2), eInt(-5), eInt(0)}
	n := 0
	for i := -9; i <= 9; i++ {
		if n++; c.mine(n) {
			c.one(path(rec(idx(i))), dd, vs)
			c.one(path(rec(idx(i)), step(wild())), dd, vs)
			c.one(path(rec(idx(i)), rec(idx(i))), dd, vs)
			c.one(path(step(idx(i)), rec(idx(-1))), dd, vs)
		}
	}
	for _, x := range b {
		for _, y := range b {
			for _, z := range sts {
				if n++; c.mine(n) && !c.expired() {
					c.one(path(rec(slc(x, y, z))), dd, vs)
				}
			}
		}
	}
}

// UnionCase: Pre[Alts...] must select what the alternatives select alone
type UnionCase struct {
	Pre, Doc, Variant string
	Alts              []string
}

func unionTexts(pre string, alts []string) (l []string) {
	for _, a := range alts {
		l = append(l, pre+"["+a+"]")
	}
	return append(l, pre+"["+strings.Join(alts, ",")+"]")
}

// unionBad compares; want is the sets of the alternatives alone
func unionBad(v *variant, root *Node, m gj.DocModel, ps []gj.Path) string {
	in := map[int]bool{}
	n := len(ps) - 1
	lim := 4*root.Size*root.Size + 1000
	nodes := allNodes(root)
	for _, p := range ps[:n] {
		got, bad := search(v, root, m, p, lim, nil)
		if bad != "" {
			return "" // another property
		}
		for _, x := range got {
			in[x.ID] = true
		}
	}
	var want []*Node
	for _, x := range nodes {
		if in[x.ID] {
			want = append(want, x)
		}
	}
	got, bad := search(v, root, m, ps[n], lim, nil)
	if bad != "" {
		return bad
	}
	return compare(v, want, got)
}

func init() {
	handlers["union"] = func(raw json.RawMessage) (bool, string) {
		var k UnionCase
		must(json.Unmarshal(raw, &k))
		var ps []gj.Path
		ts := unionTexts(k.Pre, k.Alts)
		for i, t := range ts {
			p, err, pan := parse(t)
			if err != nil || pan != "" {
				return i == len(ts)-1, "Parse(" + t + "): " + errText(err) + pan
			}
			ps = append(ps, p)
		}
		root := parseDoc(k.Doc)
		v := variants[k.Variant]
		for i := 0; i < 20; i++ {
			if bad := unionBad(v, root, v.mk(root), ps); bad != "" {
				return true, ts[len(ts)-1] + " against its alternatives on " + k.Doc + ": " + bad
			}
		}
		return false, ""
	}
}

// oddAlts are alternatives whose meaning alone is open, or that fail
var oddAlts = []string{
	"'a'", `"b"`, "0", "-1", "*", "1:", "::-1", "?(@.a)", "?(@==1)",
	"?(nosuch(@))", "?(@.nosuch())", "?(!nosuch(@))", "?(@.a || nosuch(@))", "?(nosuch(@) || @.a)", "?(nosuch(@)==1)", "?(@ in nosuch(@))", "?(length(@, nosuch(@)))",
	"?(@+'x'>1)", "?(1/0==1)", "?(@%0==0)", "?(-@==1)", "?(@===1)", "?(@!==1)", "?(@ in 1)", "?(null)", "?(length())", "?(length('a')==0)", "?(@<'a')", "?(@>=null)", "?([])", "?(@ in @)", "?(@==@)", "?($==@)", "?(-'a')", "?(+null)", "?(2**@==2)", "?(@.*==1)", "?($..*==1)",
	"::0", "'0':", ":'1'", "1.5:", "0:nosuch(@)", "nosuch(@):", "::nosuch(@)", "@.x:", ":@.x", "::@[0]", "@[0]:", ":@.length()-1", "null:", "true:",
	"0x1", "1.0", "'1'", "'-1'", "'*'", "''", "null", "true", "in", "$", "@", "00", "01", "+1", "1e0", "-0",
}

func (c *Ctx) oddUnions(vs []*variant) {
	var docs []*docCase
	for _, r := range append(smallDocs(3), nA(nI(1), nO("a", nI(1)), nS("a"), nNull(), nI(0), nA(nI(1), nI(0))).finish(),
		nO("b", nI(0), "a", nI(1), "1", nI(2), "null", nO("a", nI(0)), "*", nS("1"), "", nA(nI(1)), "c", nNull(), "true", nB(false)).finish(),
		nA(nA(nI(2), nI(1), nA(nI(1))), nA(nI(0), nI(1), nI(2)), nO("b", nA(nI(1)), "a", nI(2))).finish()) {
		docs = append(docs, newDocCase(r, vs))
	}
	var alts []string
	one := map[string]gj.Path{}
	pres := []string{"$", "$..", "$[*]"}
	for _, a := range oddAlts {
		ok := true
		for _, pre := range pres {
			p, err, pan := parse(pre + "[" + a + "]")
			if err != nil || pan != "" {
				ok = false
			}
			one[pre+a] = p
		}
		if ok {
			alts = append(alts, a)
		}
	}
	if c.k == 0 {
		c.count("alternatives with open meaning", int64(len(alts)))
	}
	n := 0
	do := func(pre string, l []string, docs []*docCase) {
		t := pre + "[" + strings.Join(l, ",") + "]"
		c.enter("parse", t)
		p, err, pan := parse(t)
		if err != nil || pan != "" {
			c.violate("union", t, UnionCase{pre, "1", "ptr", l}, "Parse("+t+"): "+errText(err)+pan)
			return
		}
		var ps []gj.Path
		for _, a := range l {
			ps = append(ps, one[pre+a])
		}
		ps = append(ps, p)
		for _, d := range docs {
			for vi, v := range vs {
				c.enter("query", t, d.txt, v.name)
				if bad := unionBad(v, d.root, d.ms[vi], ps); bad != "" {
					c.violate("union", t+" | "+d.txt, UnionCase{pre, d.txt, v.name, l}, t+" against its alternatives on "+d.txt+" ("+v.name+"): "+bad)
				}
			}
			c.res.Transitions++
			c.count("unions against their alternatives", 1)
		}
	}
	k := len(docs)
	for _, a := range alts {
		for _, b := range alts {
			if n++; !c.mine(n) || c.expired() {
				continue
			}
			for _, pre := range pres {
				do(pre, []string{a, b}, docs)
			}
			for i, x := range alts {
				if c.thorough() || i < 9 || i%4 == n%4 {
					do("$", []string{a, b, x}, docs[k-3:])
				}
			}
		}
	}
}

func checkC04(c *Ctx) {
	vs := stdVariants()
	docs := stdGen().upTo(c.pick(4, 5))
	sels := []*Sel{
		key("a"), key("b"), key("c"), idx(0), idx(1), idx(-1), idx(2), idx(-2), idx(-5), idx(9),
		slc(nil, eInt(1), nil), slc(nil, nil, eInt(2)), slc(nil, nil, eInt(-1)), slc(eInt(1), nil, nil), slc(eInt(-1), nil, nil), slc(eInt(2), eInt(0), eInt(-1)), wild(),
		filt(eCur(step(key("a")))), filt(bin("==", eCur(), eInt(1))),
	}
	var lists [][]*Sel
	for _, a := range sels {
		for _, b := range sels {
			lists = append(lists, []*Sel{a, b})
		}
	}
	pairs := len(lists)
	for _, a := range sels {
		for _, b := range sels {
			for _, d := range sels {
				lists = append(lists, []*Sel{a, b, d})
			}
		}
	}
	// in every position of a path
	unions := func(n int, rec bool) []*Step {
		var out []*Step
		for _, l := range lists[:n] {
			out = append(out, &Step{Rec: rec, Sels: l})
		}
		return out
	}
	run := func(prefix *Path, wrap func(*Path) *Path, depth int, docs []*Node, alpha func(int) []*Step) {
		if c.expired() {
			return
		}
		e := &explorer{c: c, vs: vs, prefix: prefix, maxDepth: depth, alphabet: alpha, wrap: wrap, byPath: true}
		e.load(docs)
		e.run()
	}
	only := func(s []*Step) func(int) []*Step { return func(int) []*Step { return s } }
	// triples: the small documents, and flat ones
	tdocs := docs
	if !c.thorough() {
		tdocs = nil
		for _, d := range docs {
			if d.Size < 4 || len(d.Elems) == 3 {
				tdocs = append(tdocs, d)
			}
		}
	}
	run(nil, nil, 1, tdocs, only(unions(len(lists), false)))
	run(nil, nil, 1, stdGen().upTo(c.pick(3, 4)), only(unions(len(lists), true)))
	run(nil, nil, 1, docs, only(unions(pairs, true)))
	run(path(step(wild())), nil, 1, docs, only(unions(pairs, false)))
	run(path(step(key("a"))), nil, 1, stdGen().upTo(c.pick(3, 4)), only(unions(len(lists), false)))
	run(path(step(key("a"))), nil, 1, docs, only(unions(pairs, false)))
	run(path(rec(wild())), nil, 1, docs, only(unions(pairs, false)))
	// followed by steps
	tail := []*Step{step(key("a")), step(idx(0)), step(wild()), rec(wild()), step(slc(nil, nil, eInt(-1)))}
	for _, r := range []bool{false, true} {
		u := unions(pairs, r)
		run(nil, nil, 2, docs, func(d int) []*Step {
			if d == 0 {
				return u
			}
			return tail
		})
	}
	// unions of unions
	u2 := unions(pairs, false)
	small := stdGen().upTo(c.pick(3, 4))
	run(nil, nil, 2, small, only(u2))
	// within a filter
	run(nil, func(p *Path) *Path {
		return path(step(filt(&Expr{K: EPath, P: &Path{Cur: true, Steps: p.Steps}})))
	}, 1, docs, only(unions(pairs, false)))
	// spelled with spaces, with dotted brackets
	spaced := func(l []*Sel, dot string) *Step {
		t := dot + "[ "
		for i, s := range l {
			if i > 0 {
				t += " , "
			}
			t += s.text()
		}
		return &Step{Sels: l, Text: t + " ]"}
	}
	var sp []*Step
	for _, l := range lists[:pairs] {
		sp = append(sp, spaced(l, ""))
	}
	run(nil, nil, 1, docs, only(sp))
	run(path(step(wild())), nil, 1, docs, only(sp))
	// slices that select all, none, or the ends, with anything else
	{
		n := eInt
		sl := []*Sel{slc(nil, nil, nil), {K: SSlice, Text: "::"}, slc(n(0), nil, nil), slc(nil, n(0), nil), slc(nil, nil, n(1)), slc(n(0), nil, n(1)), slc(nil, nil, n(-1)), slc(n(1), nil, nil), slc(n(-1), nil, nil), slc(nil, n(-1), nil), slc(nil, n(1), nil), slc(nil, n(9), nil), slc(n(-9), nil, nil), slc(nil, nil, n(2)), slc(nil, nil, n(-2)), slc(n(0), n(0), nil), slc(n(9), nil, nil), slc(n(-1), n(0), n(-1)), slc(nil, nil, n(0)), slc(n(-9), n(9), n(1))}
		with := []*Sel{key("a"), key("zz"), idx(0), idx(-1), idx(5), wild(), filt(eCur(step(key("a")))), filt(bin("==", eCur(), n(1))), slc(n(1), nil, nil), slc(nil, nil, nil)}
		var us []*Step
		for _, s := range sl {
			for _, w := range with {
				us = append(us, step(s, w), step(w, s), step(w, s, w), step(s, s, w), rec(s, w), rec(w, s))
			}
			for _, s2 := range sl {
				us = append(us, step(s, s2), rec(s, s2))
			}
		}
		sd := append(stdGen().upTo(3), docs[len(docs)-40:]...)
		sd = append(sd, nO("a", nI(1), "b", nO("a", nA(nI(1), nI(2), nI(1)))).finish(), nA(nI(1), nA(nI(1), nI(2), nI(1)), nO("a", nI(1))).finish())
		run(nil, nil, 1, sd, only(us))
		run(path(step(wild())), nil, 1, sd, only(us))
	}
	// many alternatives, wide documents
	unit := 0
	for _, n := range scaleSizes(c.thorough()) {
		unit++
		if !c.mine(unit) || n == 0 || n > 1100 {
			continue
		}
		if c.expired() {
			return
		}
		arr := newDocCase(intArr(n).finish(), vs)
		obj := newDocCase(bigObj(n).finish(), vs)
		for _, l := range [][]*Sel{
			{idx(0), idx(n - 1)}, {idx(n - 1), idx(0)}, {idx(-1), idx(-n)}, {idx(n), idx(-n - 1), idx(0)}, {idx(0), slc(eInt(-2), nil, nil), idx(n / 2)},
			{slc(nil, eInt(n/2), nil), slc(eInt(n/2-1), nil, nil)}, {slc(nil, nil, eInt(-2)), slc(eInt(1), nil, eInt(3)), idx(-1)}, {wild(), idx(0)},
			{filt(bin(">", eCur(), eInt(n/2))), idx(0)},
		} {
			c.one(path(step(l...)), arr, vs)
			if n < 200 {
				c.one(path(rec(l...)), arr, vs)
			}
		}
		if n <= 1025 {
			var ks, is, rs []*Sel
			for i := 0; i < n; i++ {
				ks = append(ks, &Sel{K: SKey, Key: "k" + itoa(i)})
				is = append(is, idx(i))
				rs = append(rs, idx(-1-i))
			}
			c.one(path(step(ks...)), obj, vs)
			c.one(path(step(is...)), arr, vs)
			c.one(path(step(rs...)), arr, vs)
			c.one(path(step(append(ks, is...)...)), arr, vs)
		}
	}
	c.oddUnions(vs)
	c.below(vs[:2], 5, func(k string) []*Path {
		return []*Path{path(step(key(k), key("b"))), path(step(key(k), idx(0))), path(step(key(k)), step(key(k), key("b"), idx(0))), path(rec(key(k), idx(0))), path(step(wild()), step(wild(), key(k)))}
	})
	c.nearKeys(vs[:2], func(k, other string) []*Path {
		return []*Path{path(step(key("x")), step(key(k), key(other))), path(step(key("x")), step(key(other), key(k), key("zz"))), path(rec(key(k), key("zz"), idx(0))), path(step(wild()), step(key(k), idx(-1))), path(rec(filt(eCur(step(key(k)))), key(other)))}
	})
	c.giants(vs[:2], func(n int) (a, o, r []*Path) {
		return []*Path{path(step(idx(0), idx(n-1), idx(n/2))), path(step(idx(-1), slc(eInt(n/2), nil, nil))), path(step(slc(nil, nil, eInt(3)), slc(nil, nil, eInt(-2)))), path(rec(idx(n-1), idx(-n)))},
			[]*Path{path(step(key("k1"), key("k"+itoa(n-1)))), path(step(wild(), key("k0")))},
			[]*Path{path(step(wild()), step(key("a"), idx(1), idx(-2))), path(rec(key("a"), idx(0)))}
	})
	// special keys among the alternatives
	full := &Node{Kind: KObj}
	for i, k := range specialKeys {
		full.Keys = append(full.Keys, k)
		full.Elems = append(full.Elems, nI(i))
	}
	fd := newDocCase(nA(full, nO("b", nI(1))).finish(), vs)
	for i, k1 := range specialKeys {
		if !c.mine(i) {
			continue
		}
		for _, k2 := range specialKeys {
			c.one(path(step(wild()), step(key(k1), key(k2))), fd, vs)
			c.one(path(rec(key(k1), key(k2))), fd, vs)
			c.one(path(step(idx(0)), step(key(k1), key("b"), key(k2))), fd, vs)
		}
	}
}

func init() {
	checks["C03"] = &check{run: checkC03, bounds: func(t bool) map[string]any {
		if t {
			return map[string]any{"document_nodes": "5 (3 steps), 8 without empty containers (2 steps)", "steps": 23, "nesting": 300}
		}
		return map[string]any{"document_nodes": "4 (3 steps), 7 without empty containers (2 steps)", "steps": 23, "nesting": 160}
	}}
	checks["C04"] = &check{run: checkC04, bounds: func(t bool) map[string]any {
		return map[string]any{"document_nodes": map[bool]int{false: 4, true: 5}[t], "alternatives": 19, "union_length": "2 and 3 completely, up to 260", "contexts": 9}
	}}
}
