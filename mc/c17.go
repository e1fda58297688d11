package main

// C17: captured paths are true, and stay so. C18: only the contract of the
// document model. C23: Find, Search and ParseAndFind.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

// pathBad checks every segment of a captured path
func pathBad(v *variant, root *Node, m gj.DocModel, p gj.DocPath) (end *Node, bad string) {
	if len(p.P) == 0 {
		return nil, "an empty path is captured"
	}
	if p.Len() != len(p.P) {
		return nil, fmt.Sprintf("Len() of a path of %d segments is %d", len(p.P), p.Len())
	}
	n := root
	var native any // the same node in a MapModel document
	if mm, ok := m.(gj.MapModel); ok {
		native = mm.Doc
	}
	for i, s := range p.P {
		if i > 0 {
			var c *Node
			switch n.Kind {
			case KObj:
				c = n.child(s.Name)
			case KArr:
				if s.Index >= 0 && s.Index < len(n.Elems) {
					c = n.Elems[s.Index]
				}
			}
			if c == nil {
				return nil, fmt.Sprintf("segment %d (name %q, index %d) of a captured path is not a child of %s", i, s.Name, s.Index, n.loc())
			}
			n = c
			switch x := native.(type) {
			case map[string]any:
				native = x[s.Name]
			case []any:
				native = x[s.Index]
			}
		}
		is := false
		if sm, ok := m.(*strictModel); ok {
			is = sm.u(s.Node) == n
		} else {
			is = sameNode(s.Node, native)
		}
		if !is {
			return nil, fmt.Sprintf("segment %d of a captured path is named as %s, but its node is %v", i, n.loc(), s.Node)
		}
		want := gj.ValueNode
		switch n.Kind {
		case KArr:
			want = gj.ArrayNode
		case KObj:
			want = gj.ObjectNode
		}
		if s.Type != want {
			return nil, fmt.Sprintf("segment %d of a captured path, %s, has type %d", i, n.loc(), s.Type)
		}
	}
	return n, ""
}

// snap is a captured path, and a copy of its content
type snap struct {
	p    gj.DocPath
	copy []gj.Segment
}

func takeSnap(p gj.DocPath) snap { return snap{p, append([]gj.Segment(nil), p.P...)} }

func sameNode(a, b any) (same bool) {
	defer func() {
		if recover() != nil { // not comparable
			ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
			switch {
			case ra.Kind() != rb.Kind():
				same = false
			case ra.Kind() == reflect.Slice:
				same = ra.Len() == rb.Len() && (ra.Len() == 0 || ra.Pointer() == rb.Pointer())
			case ra.Kind() == reflect.Map:
				same = ra.Pointer() == rb.Pointer()
			default:
				same = reflect.DeepEqual(a, b)
			}
		}
	}()
	return a == b
}

func sameSegs(a, b []gj.Segment) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || a[i].Index != b[i].Index || a[i].Type != b[i].Type || !sameNode(a[i].Node, b[i].Node) {
			return false
		}
	}
	return true
}

func segText(s []gj.Segment) string {
	t := ""
	for i, x := range s {
		if i > 0 {
			t += fmt.Sprintf("/%q,%d", x.Name, x.Index)
		}
	}
	return t
}

func (s snap) bad() string {
	if !sameSegs(s.p.P, s.copy) {
		return fmt.Sprintf("a captured path %s changed to %s", segText(s.copy), segText(s.p.P))
	}
	return ""
}

// PathCase is a search whose captured paths are followed
type PathCase struct {
	Paths   []string // quoted; the first is the path, others are evaluated after it
	Build   string   `json:",omitempty"`
	Doc     string
	Variant string
	Want    []int
	Mutate  bool // extend and shorten the paths while they are captured
}

// run executes the case; ps are the compiled paths
func (k *PathCase) run(v *variant, root *Node, m gj.DocModel, ps []gj.Path, want []*Node) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	limit := 4*len(want) + 4*root.Size + 1000
	var snaps []snap
	var got []*Node
	note := func(s string) {
		if bad == "" {
			bad = s
		}
	}
	err := gj.Search(m, ps[0], func(p gj.DocPath) {
		n, b := pathBad(v, root, m, p)
		if b != "" {
			note(b)
		}
		got = append(got, n)
		if b == "" && !sameSegs([]gj.Segment{p.Last()}, p.P[len(p.P)-1:]) {
			note("Last() is not the last segment")
		}
		snaps = append(snaps, takeSnap(p))
		if k.Mutate {
			seg := gj.Segment{Node: "mutated", Name: "mutated", Index: 77}
			if q := p.Push(seg); q.Last().Name != "mutated" || q.Len() != p.Len()+1 {
				note("extending a captured path does not work")
			}
			if q := p.Key("k", 1, gj.ValueNode); q.Last().Name != "k" || q.Len() != p.Len()+1 {
				note("extending a captured path does not work")
			}
			if q := p.Index(5, 2, gj.ValueNode); q.Last().Index != 5 || q.Len() != p.Len()+1 {
				note("extending a captured path does not work")
			}
			if p.Len() > 1 {
				t := p.Pop()
				if t.Len() != p.Len()-1 {
					note("shortening a captured path does not work")
				}
				t.Push(seg)
				t.Key("k", 1, gj.ValueNode)
			}
		}
		if len(got) > limit {
			panic(overflow{})
		}
	})
	if bad != "" {
		return bad
	}
	if err != nil {
		return "error: " + err.Error()
	}
	if b := compare(v, want, got); b != "" {
		return b
	}
	check := func(when string) {
		for _, s := range snaps {
			if b := s.bad(); b != "" {
				note(b + " " + when)
			}
		}
	}
	check("while the search continued")
	for _, p := range ps {
		gj.Search(m, p, func(p gj.DocPath) { p.Push(gj.Segment{Name: "x"}) })
	}
	check("by a later search")
	return bad
}

func (k *PathCase) key() string { return k.Paths[0] + " | " + k.Doc }

func init() {
	handlers["paths"] = func(raw json.RawMessage) (bool, string) {
		var k PathCase
		must(json.Unmarshal(raw, &k))
		var ps []gj.Path
		for _, q := range k.Paths {
			t, err := strconv.Unquote(q)
			must(err)
			p, err, pan := parse(t)
			if err != nil || pan != "" {
				return true, "Parse(" + q + "): " + pan + errText(err)
			}
			ps = append(ps, p)
		}
		root := parseDoc(k.Doc)
		nodes := allNodes(root)
		var want []*Node
		for _, id := range k.Want {
			want = append(want, nodes[id])
		}
		v := variants[k.Variant]
		for i := 0; i < 30; i++ {
			if bad := k.run(v, root, v.mk(root), ps, want); bad != "" {
				return true, bad
			}
		}
		return false, ""
	}
}

func (c *Ctx) state(d *docCase, w []*Node) {
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	if d.h == 0 {
		d.h = hashStr(d.txt)
	}
	c.seen[hashState(d.h, w)] = struct{}{}
}

func (c *Ctx) followPaths(txt string, gp, other gj.Path, otherTxt string, d *docCase, vs []*variant, want []*Node) {
	for vi, v := range vs {
		for _, mut := range []bool{false, true} {
			k := &PathCase{Paths: []string{quoted(txt), quoted(otherTxt)}, Doc: d.txt, Variant: v.name, Want: ids(want), Mutate: mut}
			c.enter("query", txt, d.txt, v.name)
			if bad := k.run(v, d.root, d.ms[vi], []gj.Path{gp, other}, want); bad != "" {
				c.violate("paths", k.key(), k, txt+" on "+d.txt+" ("+v.name+"): "+bad)
			}
		}
	}
	c.res.Transitions++
	c.state(d, want)
	if len(want) > 0 {
		c.sample(func() string { return txt + " on " + d.txt + ": paths of " + locs(want) })
	}
}

// ---------------------------------------------------------------- operations on DocPaths

// SegOps are operations of a caller on document paths. Op 4*i+k applies
// operation k to path i of the pool: Key, Index, Push, Pop.
type SegOps struct {
	Start string // quoted path that captures the first ones
	Doc   string
	Keep  int // how many captured paths to start from; less than 0: a path made by the caller
	Ops   []int

	Strict bool `json:",omitempty"` // paths made of paths must not change either
	Sparse bool `json:",omitempty"` // look at all paths at the end only
}

func (s *SegOps) run() (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	// What was captured must not change. What the caller made from it must
	// be right when it is made; C17 says nothing of it after that, C25 does.
	type item struct {
		p        gj.DocPath
		m        []gj.Segment
		captured bool
	}
	var pool []item
	if s.Start != "" {
		t, err := strconv.Unquote(s.Start)
		must(err)
		p, err, _ := parse(t)
		must(err)
		root := parseDoc(s.Doc)
		gj.Search(ptrModel(root, true), p, func(p gj.DocPath) {
			if len(pool) < s.Keep {
				pool = append(pool, item{p, append([]gj.Segment(nil), p.P...), true})
			}
		})
	} else {
		it := item{}
		if s.Keep < 0 { // a path of the caller's own, with room to spare
			it.p.P = make([]gj.Segment, -s.Keep, -s.Keep+8)
			it.p.P[0].Type = gj.ObjectNode
			it.m = append(it.m, it.p.P...)
		}
		pool = append(pool, it)
	}
	for n, op := range s.Ops {
		x := pool[op/4]
		if !x.captured && !s.Strict {
			x.m = append([]gj.Segment(nil), x.p.P...)
		}
		var q gj.DocPath
		var m []gj.Segment
		switch op % 4 {
		case 0:
			q = x.p.Key(fmt.Sprint("k", n), n, gj.ObjectNode)
			m = append(append(m, x.m...), gj.Segment{Node: n, Name: fmt.Sprint("k", n), Type: gj.ObjectNode})
		case 1:
			q = x.p.Index(n+10, n, gj.ArrayNode)
			m = append(append(m, x.m...), gj.Segment{Node: n, Index: n + 10, Type: gj.ArrayNode})
		case 2:
			sg := gj.Segment{Node: n, Name: fmt.Sprint("p", n), Index: n, Type: gj.ValueNode}
			q = x.p.Push(sg)
			m = append(append(m, x.m...), sg)
		case 3:
			if len(x.m) == 0 {
				return ""
			}
			q = x.p.Pop()
			m = append(m, x.m[:len(x.m)-1]...)
		}
		pool = append(pool, item{q, m, false})
		for i, it := range pool {
			if !(it.captured || s.Strict) && i < len(pool)-1 || s.Sparse && i < len(pool)-1 && n < len(s.Ops)-1 {
				continue
			}
			if it.p.Len() != len(it.m) || !sameSegs(it.p.P, it.m) {
				return fmt.Sprintf("after operation %d (%s on path %d) path %d is %s instead of %s", n, [...]string{"Key", "Index", "Push", "Pop"}[op%4], op/4, i, segText(it.p.P), segText(it.m))
			}
			if l := len(it.m); l > 0 && !sameSegs([]gj.Segment{it.p.Last()}, it.m[l-1:]) {
				return fmt.Sprintf("Last() of path %d", i)
			}
		}
	}
	return ""
}

func init() {
	handlers["segops"] = func(raw json.RawMessage) (bool, string) {
		var s SegOps
		must(json.Unmarshal(raw, &s))
		bad := s.run()
		return bad != "", bad
	}
}

func checkC17(c *Ctx) {
	vs := []*variant{vPtr, vMap, vUncmp, vDag}
	mk := func(l []*Node) (out []*docCase) {
		for _, r := range l {
			out = append(out, newDocCase(r, vs))
		}
		return
	}
	// 1. all broad paths on documents of every shape
	big := mk(mixedDocs())
	small := mk(smallDocs(c.pick(4, 5)))
	otherTxt := "$..*"
	other, err, _ := parse(otherTxt)
	must(err)
	n := 0
	follow := func(p *Path, docs []*docCase) {
		txt := p.text()
		c.enter("parse", txt)
		gp, err, pan := parse(txt)
		if err != nil || pan != "" {
			return // C15, C16
		}
		for _, d := range docs {
			w, ok := p.eval(d.root, d.root)
			if !ok {
				continue
			}
			c.followPaths(txt, gp, other, otherTxt, d, vs, w)
		}
	}
	p2 := broadPaths(2)
	for _, p := range p2 {
		if n++; c.mine(n) && !c.expired() {
			follow(p, big)
			if len(p.Steps) < 2 || c.thorough() {
				follow(p, small)
			}
		}
	}
	if c.thorough() {
		for _, p := range broadPaths(3) {
			if n++; len(p.Steps) == 3 && c.mine(n) && !c.expired() {
				follow(p, big[:3])
			}
		}
	} else {
		tiny := mk(smallDocs(3))
		for _, p := range p2 {
			if n++; c.mine(n) && !c.expired() {
				follow(p, tiny)
			}
		}
	}
	// 2. depth: the storage of the search is reused and grows
	for _, depth := range depthSizes(c.pick(140, 600), false) {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		for _, shape := range []string{"o", "a", "oa"} {
			if depth > 300 && shape != "oa" && !c.thorough() {
				continue
			}
			d := newDocCase(chain(depth, shape, nS("leaf"), depth%3 == 0), vs)
			follow(path(rec(wild())), []*docCase{d})
			if depth < 40 || depth%8 < 2 {
				follow(path(rec(key("a"))), []*docCase{d})
				follow(path(rec(slc(nil, nil, eInt(-1)))), []*docCase{d})
				follow(path(step(wild()), rec(key("a"), idx(1), idx(0))), []*docCase{d})
				var st []*Step
				for i := 0; i < depth; i++ {
					st = append(st, chainStep(i, shape, depth%3 == 0))
				}
				follow(path(st...), []*docCase{d})
			}
		}
	}
	// containers of every kind after one another, far down
	for _, depth := range depthSizes(c.pick(140, 600), false) {
		if n++; !c.mine(n) || c.expired() || depth > 300 && !c.thorough() {
			continue
		}
		for _, shape := range []string{"o", "a"} {
			leaf := nA(nO("name", nO("x", nI(1), "y", nA(nI(2))), "z", nI(3)), nA(nI(4), nA(nI(5)), nO("k", nNull())), nI(6), nO("q", nA(nI(7), nO())), nA(nO("u", nI(8)), nI(9)))
			d := newDocCase(chain(depth, shape, leaf, false), vs[:2])
			for _, p := range compileAll([]*Path{path(rec(wild())), path(rec(idx(0))), path(rec(key("x"), idx(1))), path(rec(filt(eCur(step(wild())))))}) {
				if w, ok := p.p.eval(d.root, d.root); ok {
					c.followPaths(p.txt, p.gp, other, otherTxt, d, vs[:2], w)
				}
			}
		}
	}
	// unions, and names and indexes of every kind
	sels := []*Sel{key("a"), key("b"), idx(0), idx(1), idx(2), idx(-1), idx(-2), idx(9), slc(eInt(-2), nil, nil), slc(nil, nil, eInt(-1)), slc(nil, eInt(-1), nil), wild(), filt(eCur(step(key("a"))))}
	ud := mk([]*Node{intArr(3).finish(), mixedDocs()[0], mixedDocs()[1], mixedDocs()[2], nA(intArr(3), nA(intArr(2), intArr(1)), nO("b", intArr(4), "a", nO("a", intArr(2)))).finish(), intArr(1).finish(), nO("b", nI(1), "a", nO("b", nI(2))).finish()})
	for i, a := range sels {
		for j, b := range sels {
			if n++; !c.mine(n) || c.expired() {
				continue
			}
			follow(path(step(a, b)), ud)
			follow(path(rec(a, b)), ud)
			follow(path(step(wild()), step(a, b)), ud)
			follow(path(step(a, b), step(b)), ud)
			for k, x := range sels {
				follow(path(step(a, b, x)), ud)
				if c.thorough() || (i+j+k)%3 == 0 {
					follow(path(rec(a, b, x)), ud)
					follow(path(rec(wild()), step(a, b, x)), ud[:5])
				}
			}
		}
	}
	cd := []*docCase{confusables(vs)}
	follow(path(rec(wild())), cd)
	follow(path(step(wild()), step(wild())), cd)
	for _, k := range specialKeys {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		follow(path(step(wild()), step(key(k))), cd)
		follow(path(rec(key(k))), cd)
		follow(path(step(idx(0)), step(key(k), key("a"))), cd)
		follow(path(step(idx(2)), step(key("x")), step(key(k))), cd)
		follow(path(rec(filt(eCur(step(key(k)))))), cd)
		follow(path(rec(key(k)), rec(wild())), cd)
	}
	for _, k := range scaleSizes(c.thorough()) {
		if n++; !c.mine(n) || k > 1100 || c.expired() {
			continue
		}
		wd := mk([]*Node{intArr(k).finish(), bigObj(k).finish(), nA(intArr(k), nO("a", intArr(k/2), "b", bigObj(k/2))).finish()})
		for _, p := range []*Path{path(step(wild())), path(rec(wild())), path(step(slc(nil, nil, eInt(-1)))), path(step(slc(nil, nil, eInt(2)))), path(step(slc(eInt(-2), nil, nil))), path(step(idx(-1))), path(step(idx(k - 1))), path(step(idx(-k))), path(step(filt(bin(">", eCur(), eInt(1))))), path(step(idx(k-1), idx(-1), idx(0), slc(nil, eInt(2), nil))), path(rec(idx(k / 2))), path(rec(idx(-1)))} {
			follow(p, wd)
		}
	}
	for _, k := range giantSizes(c.thorough()) {
		if n++; !c.mine(n) || k > 300000 || c.expired() {
			continue
		}
		gd := []*docCase{newDocCase(nA(intArr(k)).finish(), vs[:2]), newDocCase(nO("a", bigObj(k), "b", nA(nI(1))).finish(), vs[:2])}
		for _, p := range []*Path{path(step(wild()), step(wild())), path(rec(wild())), path(step(idx(0)), step(idx(-1), idx(k-1), idx(k/2), slc(nil, eInt(2), nil))), path(step(idx(0)), step(slc(eInt(-3), nil, nil)))} {
			for _, d := range gd {
				if w, ok := p.eval(d.root, d.root); ok {
					c.followPaths(p.text(), compileAll([]*Path{p})[0].gp, other, otherTxt, d, vs[:2], w)
				}
			}
		}
	}
	// 3. all sequences of operations of the caller
	type start struct {
		p, doc string
		keep   int
	}
	starts := []start{{"", "", 0}, {"$", "1", 1}, {"$..*", `{"a":[1,2],"b":3}`, 2}, {"$..*", `[[[[[[1]]]]]]`, 2}, {"$.a.a.a.a.a.a", `{"a":{"a":{"a":{"a":{"a":{"a":1}}}}}}`, 1}, {"$[*][*]", `[[1,2],[3]]`, 3}}
	for _, s := range starts {
		depth := c.pick(5, 6)
		if s.keep > 1 {
			depth--
		}
		size := s.keep
		if s.p == "" {
			size = 1
		}
		q := ""
		if s.p != "" {
			q = quoted(s.p)
		}
		var rec func(ops []int)
		rec = func(ops []int) {
			if len(ops) > 0 {
				k := &SegOps{Start: q, Doc: s.doc, Keep: s.keep, Ops: ops}
				// longer sequences contain the shorter ones
				if len(ops) == depth {
					c.enter("segops", jsonOf(k))
					c.count("operation_sequences", 1)
					c.res.Transitions += int64(len(ops))
					if bad := k.run(); bad != "" {
						c.violate("segops", jsonOf(k), k, bad)
					}
					return
				}
			}
			for op := 0; op < 4*(size+len(ops)); op++ {
				if len(ops) == 1 {
					if n++; !c.mine(n) || c.expired() {
						continue
					}
				}
				rec(append(append([]int(nil), ops...), op))
			}
		}
		rec(nil)
	}
	// longer runs on one or two paths
	for l := 6; l <= c.pick(9, 11); l++ {
		for mask := 0; mask < 1<<(2*l); mask++ {
			if n++; !c.mine(n) {
				continue
			}
			if mask%1024 < 8 && c.expired() {
				return
			}
			// two bits: extend or shorten, the newest path or the one before it
			ops := make([]int, l)
			for i := range ops {
				b := mask >> (2 * i) & 3
				at := i // index of the newest path; the pool starts with one
				if b&2 != 0 && at > 0 {
					at--
				}
				ops[i] = 4*at + 2 + b&1
			}
			k := &SegOps{Start: quoted("$.a.a.a"), Doc: `{"a":{"a":{"a":1}}}`, Keep: 1, Ops: ops}
			if bad := k.run(); bad != "" {
				c.violate("segops", jsonOf(k), k, bad)
			}
			c.count("operation_sequences", 1)
			c.res.Traces++
			c.res.Transitions += int64(l)
		}
	}
}

// ---------------------------------------------------------------- C18

func checkC18(c *Ctx) {
	vs := []*variant{vPtr, vPtrF, vUncmp, vOdd, vOdd1, vOdd2, vOddL, vCont, vSelf, vFresh, vShared, vMap, vMapI, vDag, vEmb, vEmbP}
	mk := func(l []*Node) (out []*docCase) {
		for _, r := range l {
			d := newDocCase(r, vs)
			for i := range d.ms {
				d.ms[i] = strictOf(d.ms[i])
			}
			out = append(out, d)
		}
		return
	}
	n := 0
	each := func(ps []*Path, docs []*docCase) {
		for _, p := range ps {
			if n++; !c.mine(n) || c.expired() {
				continue
			}
			txt := p.text()
			c.enter("parse", txt)
			gp, err, pan := parse(txt)
			if err != nil || pan != "" {
				continue
			}
			for _, d := range docs {
				w, ok := p.eval(d.root, d.root)
				c.strictOne(txt, gp, w, ok, d, vs)
			}
		}
	}
	gen := (&docGen{leaves: []*Node{nNull(), nI(1), nS("a")}, keys: []string{"b", "a"}}).upTo(c.pick(4, 5))
	small := mk(gen)
	big := mk(mixedDocs())
	each(broadPaths(1), small)
	if c.thorough() {
		each(broadPaths(2), small)
		each(broadPaths(3), big[:2])
	} else {
		each(broadPaths(2), mk((&docGen{leaves: []*Node{nNull(), nI(1)}, keys: []string{"b", "a"}}).upTo(3)))
	}
	each(broadPaths(2), big)
	// every predicate and operator, on nodes of every kind, also where the
	// result is not specified
	var ps []*Path
	for _, e := range predicates() {
		ps = append(ps, path(step(filt(e))), path(rec(filt(e))))
	}
	opnd := []*Expr{eCur(), eRoot(), eCur(step(key("a"))), eCur(step(wild())), eCur(step(key("zz"))), eRoot(step(idx(0))), eCur(rec(wild())), eInt(1), eF(1.5), eStr("a"), eNull(), eBool(true), list(eCur(), eInt(1)), list(), list(eCur(step(key("a"))), eRoot()), {K: ELen, P: cur()}, {K: ELenM, P: cur(step(key("a")))}, eCur(step(filt(eCur()))), un("-", eCur()), un("!", eCur())}
	for _, a := range opnd {
		for _, b := range opnd {
			for _, op := range []string{"==", "!=", "===", "<", "<=", ">", ">=", "in", "&&", "||", "+", "-", "*", "/", "%", "**"} {
				ps = append(ps, path(step(filt(bin(op, a, b)))))
			}
			ps = append(ps, path(step(slc(a, b, nil))), path(step(slc(nil, a, b))), path(rec(slc(a, nil, b))), path(step(slc(a, b, nil), idx(1))))
		}
	}
	each(ps, big)
	each(ps, mk((&docGen{leaves: []*Node{nNull(), nI(1)}, keys: []string{"b", "a"}}).upTo(3)))
	// all slices with small bounds, on arrays of all small lengths
	{
		ps = nil
		var b []*Expr
		for i := -5; i <= 5; i++ {
			b = append(b, eInt(i))
		}
		for _, x := range append([]*Expr{nil}, b...) {
			for _, y := range append([]*Expr{nil}, b...) {
				for _, z := range append([]*Expr{nil, eInt(7), eInt(-7)}, b...) {
					ps = append(ps, path(step(slc(x, y, z))))
				}
			}
			for y := -6; y <= 6; y++ {
				ps = append(ps, path(step(slc(x, nil, nil), idx(y))), path(step(idx(y), slc(nil, x, nil))), path(rec(slc(x, eInt(y), nil))), path(rec(slc(nil, x, eInt(y)), idx(y))))
			}
		}
		all := nA()
		for n := 0; n <= 5; n++ {
			all.Elems = append(all.Elems, intArr(n), nO("a", nA(intArr(n), nA(nO()))))
		}
		var l []*Node
		for n := 0; n <= 5; n++ {
			l = append(l, intArr(n).finish())
		}
		each(ps, mk(append(l, nO("0", nI(1), "a", nI(2)).finish(), all.finish())))
	}
	// the same document with the keys of objects in other orders
	for _, r := range append(mixedDocs(), gen...) {
		if n++; !c.mine(n) {
			continue
		}
		c.permuted(r)
	}
}

// strictOne evaluates in all variants with the contract monitored. Where the
// reference says what is selected, that is compared, and otherwise the
// variants are compared with each other.
func (c *Ctx) strictOne(txt string, gp gj.Path, w []*Node, ok bool, d *docCase, vs []*variant) {
	limit := 4*d.root.Size*d.root.Size + 1000
	var ref [2][]*Node // by representation of numbers
	var has [2]bool
	if ok {
		ref[0], ref[1] = w, w
		has[0], has[1] = true, true
	}
	for vi, v := range vs {
		c.enter("query", txt, d.txt, v.name)
		got, bad := search(v, d.root, d.ms[vi], gp, limit, nil)
		k := 0
		if v.ints {
			k = 1
		}
		if bad == "" {
			if has[k] {
				bad = compare(v, ref[k], got)
				if bad != "" && !ok {
					bad = "differs from another model of the same document: " + bad
				}
			} else {
				ref[k], has[k] = got, true
			}
		}
		if bad != "" {
			kc := &ModelCase{Path: quoted(txt), Doc: d.txt, Variant: v.name, Want: ids(ref[k]), Known: has[k]}
			c.violate("model", txt+" | "+d.txt, kc, txt+" on "+d.txt+" ("+v.name+"): "+bad)
		}
		if v.handle != nil {
			// what Find returns are handles of the model
			hs, err := gj.Find(d.ms[vi], gp)
			if err != nil || len(hs) != len(got) {
				c.violate("model", txt+" | "+d.txt, &ModelCase{Path: quoted(txt), Doc: d.txt, Variant: v.name}, "Find disagrees with Search")
			}
			for i, h := range hs {
				if v.handle(d.root, d.ms[vi], h) != got[i] {
					c.violate("model", txt+" | "+d.txt, &ModelCase{Path: quoted(txt), Doc: d.txt, Variant: v.name, Find: true}, txt+" on "+d.txt+" ("+v.name+"): Find returns something that is not the matched node")
				}
			}
		}
	}
	c.res.Transitions++
	c.state(d, ref[1])
	if len(ref[1]) > 0 {
		c.sample(func() string { return txt + " on " + d.txt + " = " + locs(ref[1]) + " in all models" })
	}
	if !ok {
		c.count("compared_between_models_only", 1)
	}
}

// ModelCase is an evaluation with a monitored model
type ModelCase struct {
	Path, Doc, Variant string
	Want               []int
	Known, Find        bool
	Perm               string `json:",omitempty"`
}

func init() {
	handlers["model"] = func(raw json.RawMessage) (bool, string) {
		var k ModelCase
		must(json.Unmarshal(raw, &k))
		t, err := strconv.Unquote(k.Path)
		must(err)
		p, err, pan := parse(t)
		if err != nil || pan != "" {
			return true, "Parse: " + pan + errText(err)
		}
		v := variants[k.Variant]
		if k.Perm != "" {
			bad := permBad(t, p, parseDoc(k.Doc), parseDoc(k.Perm))
			return bad != "", bad
		}
		root := parseDoc(k.Doc)
		nodes := allNodes(root)
		var want []*Node
		for _, id := range k.Want {
			want = append(want, nodes[id])
		}
		for i := 0; i < 50; i++ {
			m := strictOf(v.mk(root))
			got, bad := search(v, root, m, p, 4*len(nodes)*len(nodes)+1000, nil)
			if bad == "" && k.Known {
				bad = compare(v, want, got)
			}
			if bad == "" && v.handle != nil {
				hs, err := gj.Find(m, p)
				if err != nil || len(hs) != len(got) {
					bad = "Find disagrees with Search"
				}
				for i, h := range hs {
					if bad == "" && v.handle(root, m, h) != got[i] {
						bad = "Find returns something that is not the matched node"
					}
				}
			}
			if bad != "" {
				return true, bad
			}
		}
		return false, ""
	}
}

// reordered is the document with the keys of every object in reverse order
func reordered(n *Node) *Node {
	c := &Node{Kind: n.Kind, B: n.B, I: n.I, F: n.F, S: n.S}
	for i := range n.Elems {
		j := i
		if n.Kind == KObj {
			j = len(n.Elems) - 1 - i
			c.Keys = append(c.Keys, n.Keys[j])
		}
		c.Elems = append(c.Elems, reordered(n.Elems[j]))
	}
	return c
}

// permBad compares two documents that differ in the order of keys
func permBad(txt string, p gj.Path, a, b *Node) string {
	limit := 4*a.Size*a.Size + 1000
	x, bad := search(vPtr, a, strictOf(vPtr.mk(a)), p, limit, nil)
	if bad != "" {
		return bad
	}
	y, bad := search(vPtr, b, strictOf(vPtr.mk(b)), p, limit, nil)
	if bad != "" {
		return bad
	}
	cnt := map[string]int{}
	for _, n := range x {
		cnt[n.loc()]++
	}
	for _, n := range y {
		cnt[n.loc()]--
	}
	for l, k := range cnt {
		if k != 0 {
			return fmt.Sprintf("%s selects %s %+d times more when the keys of objects come in another order", txt, l, -k)
		}
	}
	return ""
}

func (c *Ctx) permuted(r *Node) {
	o := reordered(r).finish()
	for _, p := range c.permPaths() {
		c.enter("query", p.txt, r.text(), "ptr")
		if bad := permBad(p.txt, p.gp, r, o); bad != "" {
			c.violate("model", p.txt+" | "+r.text(), &ModelCase{Path: quoted(p.txt), Doc: r.text(), Perm: o.text(), Variant: "ptr"}, bad)
		}
		c.count("key_orders", 1)
	}
}

type compiled struct {
	txt string
	gp  gj.Path
	p   *Path
}

var permMemo []compiled

func (c *Ctx) permPaths() []compiled {
	if permMemo == nil {
		permMemo = compileAll(broadPaths(2))
	}
	return permMemo
}

func compileAll(ps []*Path) (out []compiled) {
	for _, p := range ps {
		txt := p.text()
		gp, err, pan := parse(txt)
		if err == nil && pan == "" {
			out = append(out, compiled{txt, gp, p})
		}
	}
	return
}

// ---------------------------------------------------------------- C23

// FindCase compares Find, Search and ParseAndFind
type FindCase struct {
	Path, Doc, Variant string
}

func findBad(v *variant, root *Node, m gj.DocModel, txt string, p gj.Path, perr error, full bool) (bad string, n int) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	inside := true
	var ends []any
	var paths []gj.DocPath
	calls, depth := 0, 0
	err := gj.Search(m, p, func(dp gj.DocPath) {
		if !inside || depth > 0 {
			bad = "capture is called after Search returned, or while it runs"
		}
		depth++
		calls++
		ends = append(ends, dp.Last().Node)
		paths = append(paths, dp)
		if calls > 1000000 {
			panic(overflow{})
		}
		depth--
	})
	inside = false
	if bad != "" {
		return bad, 0
	}
	r, ferr := gj.Find(m, p)
	if r == nil {
		return "Find returns a nil slice", 0
	}
	if (err == nil) != (ferr == nil) {
		return "Find and Search disagree about the error", 0
	}
	if len(r) != len(ends) {
		return fmt.Sprintf("Find returns %d nodes, Search captures %d", len(r), len(ends)), 0
	}
	eq := sameNode
	if v.handle != nil {
		eq = func(a, b any) bool {
			n := v.handle(root, m, a)
			return n != nil && n == v.handle(root, m, b)
		}
	}
	same := func(a, b []any) bool {
		for i := range a {
			if !eq(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	if v.ordered {
		if !same(r, ends) {
			return "Find and Search disagree about the nodes or their order", 0
		}
	} else {
		// the order of keys differs from one call to the next
		cnt := map[string]int{}
		for i := range r {
			cnt[anyKey(r[i])]++
			cnt[anyKey(ends[i])]--
		}
		for _, k := range cnt {
			if k != 0 {
				return "Find and Search disagree about the nodes", 0
			}
		}
	}
	// ends are the nodes of the paths
	for i, dp := range paths {
		if !sameNode(dp.Last().Node, ends[i]) {
			return "a captured path no longer ends at the matched node", 0
		}
	}
	if !full && perr == nil {
		return "", len(r)
	}
	r2, err2 := gj.ParseAndFind(m, txt)
	if perr != nil {
		if err2 == nil {
			return "ParseAndFind succeeds though Parse fails", 0
		}
		if r2 != nil {
			return "ParseAndFind returns a result though Parse fails", 0
		}
		if err2.Error() != perr.Error() || reflect.TypeOf(err2) != reflect.TypeOf(perr) {
			return fmt.Sprintf("ParseAndFind returns the error %q, Parse %q", err2, perr), 0
		}
		if n := len(ends); n > 0 {
			return fmt.Sprintf("the path of a failed Parse selects %d nodes", n), 0
		}
		return "", 0
	}
	if err2 != nil {
		return "ParseAndFind: " + err2.Error(), 0
	}
	if r2 == nil || len(r2) != len(r) {
		return fmt.Sprintf("ParseAndFind returns %d nodes, Find %d", len(r2), len(r)), 0
	}
	if v.ordered && !same(r, r2) {
		return "ParseAndFind and Find disagree", 0
	}
	if !v.ordered {
		cnt := map[string]int{}
		for i := range r {
			cnt[anyKey(r[i])]++
			cnt[anyKey(r2[i])]--
		}
		for _, k := range cnt {
			if k != 0 {
				return "ParseAndFind and Find disagree", 0
			}
		}
	}
	return "", len(r)
}

func anyKey(x any) string {
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Map:
		return fmt.Sprintf("map %x", rv.Pointer())
	case reflect.Slice:
		if rv.Len() == 0 {
			return "empty"
		}
		return fmt.Sprintf("slice %x %d", rv.Pointer(), rv.Len())
	}
	return fmt.Sprintf("%T %v", x, x)
}

func init() {
	handlers["find"] = func(raw json.RawMessage) (bool, string) {
		var k FindCase
		must(json.Unmarshal(raw, &k))
		t, err := strconv.Unquote(k.Path)
		must(err)
		v := variants[k.Variant]
		root := parseDoc(k.Doc)
		for i := 0; i < 10; i++ {
			p, perr, _ := parse(t)
			if bad, _ := findBad(v, root, v.mk(root), t, p, perr, true); bad != "" {
				return true, bad
			}
		}
		return false, ""
	}
}

func checkC23(c *Ctx) {
	vs := []*variant{vPtr, vMap, vMapI, vUncmp, vOdd, vFresh, vDag}
	mk := func(l []*Node) (out []*docCase) {
		for _, r := range l {
			out = append(out, newDocCase(r, vs))
		}
		return
	}
	n := 0
	do := func(txt string, docs []*docCase) {
		if n++; !c.mine(n) || c.expired() {
			return
		}
		c.enter("parse", txt)
		p, perr, pan := parse(txt)
		if pan != "" {
			return // C16
		}
		for di, d := range docs {
			for vi, v := range vs {
				full := di%5 == 0 && vi < 2 || len(docs) < 10 && (di < 2 || vi < 2)
				c.enter("query", txt, d.txt, v.name)
				bad, k := findBad(v, d.root, d.ms[vi], txt, p, perr, full)
				if bad != "" {
					c.violate("find", txt+" | "+d.txt, FindCase{quoted(txt), d.txt, v.name}, quoted(txt)+" on "+d.txt+" ("+v.name+"): "+bad)
				}
				c.res.Transitions++
				c.outcome(fmt.Sprintf("%d nodes", k))
				if k > 1 {
					c.sample(func() string {
						return fmt.Sprintf("%s on %s: %d nodes by Find, Search and ParseAndFind", txt, d.txt, k)
					})
				}
			}
			if d.h == 0 {
				d.h = hashStr(d.txt)
			}
			if c.seen == nil {
				c.seen = map[uint64]struct{}{}
			}
			c.seen[hashStr(txt, d.txt)] = struct{}{}
		}
	}
	big, small := mk(mixedDocs()), mk(smallDocs(3))
	for _, p := range broadPaths(c.pick(2, 3)) {
		if len(p.Steps) == 3 {
			do(p.text(), big[:2])
			continue
		}
		do(p.text(), big)
		do(p.text(), small)
	}
	small4 := mk(smallDocs(c.pick(4, 5)))
	for _, p := range broadPaths(1) {
		do(p.text(), small4)
	}
	// white space, with several results
	several := mk([]*Node{nO("b", nA(nI(4), nI(5), nO("a", nI(1))), "a", nA(nI(1), nO("b", nI(3), "a", nI(2)), nA(nI(6), nI(7))), "c", nO("a", nA(nI(8), nI(9)))).finish(), nA(nI(1), nI(2), nO("a", nI(3), "b", nI(4)), nA(nI(5), nI(6)), nI(7)).finish()})
	sps := []string{" ", "\t", "\n", "\r\n", "  ", " \n ", "\u00a0", "\ufeff", "\v", "\x00", ";", "//", "/**/", "\u2028", "\u3000"}
	for i, p := range broadPaths(2) {
		t := p.text()
		for j, s := range sps {
			if len(p.Steps) < 2 || (i+j)%4 == 0 || j < 1 || c.thorough() {
				do(t+s, several)
				do(s+t, several)
				do(t[:1]+s+t[1:], several)
				do(s+t+s, several)
			}
		}
		do(t+strings.Repeat(" ", 300), several)
	}
	for _, g := range nearStrings(c.thorough()) {
		o := &Node{Kind: KObj}
		for j, k := range g {
			o.Keys, o.Elems = append(o.Keys, k), append(o.Elems, nI(j))
		}
		d := mk([]*Node{o.finish(), nA(o).finish()})
		for _, k := range g[:8] {
			do("$["+quote(k, '"')+"]", d)
			do("$..["+quote(k, '\'')+",'zz']", d)
			do("/"+quote(k, '"'), d)
			do("$["+quote(k, '"')+",0", d)
		}
		do("$.*", d)
		do("$..*", d)
	}
	// many results
	for _, k := range scaleSizes(c.thorough()) {
		d := mk([]*Node{intArr(k).finish(), bigObj(k).finish()})
		do("$[*]", d)
		do("$..*", d)
		do("$[::-1]", d)
		do("$[?(@ > 3)]", d)
		do("$.nothing", d)
	}
	for _, k := range giantSizes(c.thorough()) {
		if k > 300000 {
			continue
		}
		d := mk([]*Node{intArr(k).finish()})
		do("$[*]", d)
		do("$..*", d)
		do("$[::-2]", d)
		do("$[?(@ > 3)]", d)
		do("$[-1,0]", d)
		do("$[*]", mk([]*Node{bigObj(k).finish()}))
	}
	// malformed and odd paths, and all mistakes in well-formed ones
	for _, p := range corpus {
		do(p, big[:2])
		for i := range p {
			do(p[:i], small[:6])
			do(p[i:], small[:6])
			do(p[:i]+"]"+p[i:], small[:6])
			do(p[:i]+"$"+p[i:], small[:6])
			do(p[:i]+"'"+p[i:], small[:3])
			do(p[:i]+" "+p[i:], small[:3])
			do(p[:i]+"#"+p[i:], small[:3])
		}
	}
	for _, a := range tokAlphabet {
		for _, b := range tokAlphabet {
			for _, d := range tokAlphabet {
				do(a+b+d, small[:3])
				do("$"+a+b+d, small[:3])
				do("/a"+a+b+d, small[:3])
			}
		}
	}
}

func init() {
	checks["C17"] = &check{run: checkC17, bounds: func(t bool) map[string]any {
		if t {
			return map[string]any{"path_steps": 3, "document_nodes": 5, "depth": 600, "operations": 6, "operations_on_two_paths": 11}
		}
		return map[string]any{"path_steps": 2, "document_nodes": 4, "depth": 140, "operations": 5, "operations_on_two_paths": 9}
	}}
	checks["C18"] = &check{run: checkC18, bounds: func(t bool) map[string]any {
		if t {
			return map[string]any{"models": 16, "path_steps": 3, "document_nodes": 5, "operands": 20, "operators": 15}
		}
		return map[string]any{"models": 16, "path_steps": 2, "document_nodes": 4, "operands": 20, "operators": 15}
	}}
	checks["C23"] = &check{run: checkC23, bounds: func(t bool) map[string]any {
		return map[string]any{"path_steps": map[bool]int{false: 2, true: 3}[t], "token_strings": 3, "models": 6, "results": "0 to 1025, more in the thorough tier"}
	}}
}
