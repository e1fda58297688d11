package main

// C19: evaluation is pure. Histories of evaluations with shared compiled
// paths and shared documents.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"

	gj "github.com/bserdar/gojsonpath"
)

// HItem is an evaluation in a history
type HItem struct {
	Path    string // quoted
	Doc     string
	Variant string
	Want    []int
	Known   bool
	// Nest evaluates item Nest-1 of the history within every capture
	Nest int `json:",omitempty"`
	// Abort makes capture panic at this match (1 is the first)
	Abort int `json:",omitempty"`
	// Spoil overwrites what Find returns
	Spoil bool `json:",omitempty"`
	// Keep keeps what Find returns and Search reports to the end of the history
	Keep bool `json:",omitempty"`
}

// History is a sequence of evaluations. Items with the same path share
// the compiled path, items with the same document share the model.
type History struct{ Items []HItem }

type hop struct {
	p    gj.Path
	txt  string
	d    *docCase
	vi   int
	v    *variant
	want []*Node
}

func (o *hop) item() HItem {
	return HItem{Path: quoted(o.txt), Doc: o.d.txt, Variant: o.v.name, Want: ids(o.want), Known: true}
}

type aborted struct{}

// eval evaluates; inner runs at every match
func (o *hop) eval(inner func() string, abort int, spoil bool) (bad string) {
	limit := 4*len(o.want) + 4*o.d.root.Size + 1000
	var got []*Node
	stopped := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(aborted); ok {
					stopped = true
					return
				}
				bad = panicText(r)
			}
		}()
		err := gj.Search(o.d.ms[o.vi], o.p, func(dp gj.DocPath) {
			n, b := o.v.node(o.d.root, o.d.ms[o.vi], dp)
			if b != "" && bad == "" {
				bad = b
			}
			got = append(got, n)
			if len(got) > limit {
				panic(overflow{})
			}
			if len(got) == abort {
				panic(aborted{})
			}
			if inner != nil {
				if b := inner(); b != "" && bad == "" {
					bad = "within the capture of " + o.txt + ": " + b
				}
			}
		})
		if err != nil && bad == "" {
			bad = "error: " + err.Error()
		}
	}()
	if bad == "" && !stopped {
		bad = compare(o.v, o.want, got)
	}
	if bad == "" && spoil {
		r, err := gj.Find(o.d.ms[o.vi], o.p)
		if err != nil || len(r) != len(o.want) {
			bad = "Find disagrees with Search"
		}
		for i := range r[:cap(r)] {
			r[:cap(r)][i] = "spoilt"
		}
	}
	if bad != "" {
		bad = o.txt + " on " + o.d.txt + " (" + o.v.name + "): " + bad
	}
	return
}

// kept are results that the caller keeps
type kept struct {
	o     *hop
	nodes []any
	paths []gj.DocPath
	texts []string
}

// keep evaluates and keeps the results; nil if it ends in a panic
func (o *hop) keep() (k *kept) {
	defer func() {
		if r := recover(); r != nil {
			k = nil
		}
	}()
	k = &kept{o: o}
	m := o.d.ms[o.vi]
	var err error
	if k.nodes, err = gj.Find(m, o.p); err != nil {
		return nil
	}
	err = gj.Search(m, o.p, func(dp gj.DocPath) {
		k.paths = append(k.paths, dp)
		k.texts = append(k.texts, pathKeys(dp))
		if len(k.paths) > 4*len(o.want)+1000 {
			panic(overflow{})
		}
	})
	if err != nil {
		return nil
	}
	return k
}

// bad tells if the results are not, or no longer, what they have to be
func (k *kept) bad() string {
	o := k.o
	root, m := o.d.root, o.d.ms[o.vi]
	where := o.txt + " on " + o.d.txt + " (" + o.v.name + "): "
	var got []*Node
	for i, dp := range k.paths {
		n, b := o.v.node(root, m, dp)
		if b != "" {
			return where + "the kept path " + strconv.Itoa(i) + ": " + b
		}
		if t := pathKeys(dp); t != k.texts[i] {
			return where + "the kept path " + k.texts[i] + " became " + t
		}
		got = append(got, n)
	}
	if b := compare(o.v, o.want, got); b != "" {
		return where + "the kept paths: " + b
	}
	if len(k.nodes) != len(o.want) {
		return where + fmt.Sprintf("%d kept nodes instead of %d", len(k.nodes), len(o.want))
	}
	if o.v.handle != nil {
		got = got[:0]
		for _, h := range k.nodes {
			got = append(got, o.v.handle(root, m, h))
		}
		if b := compare(o.v, o.want, got); b != "" {
			return where + "the kept nodes: " + b
		}
		return ""
	}
	// as multisets of values
	var w, g []string
	for _, n := range o.want {
		w = append(w, fmt.Sprint(n.toNative(o.v.ints)))
	}
	for _, h := range k.nodes {
		g = append(g, fmt.Sprint(h))
	}
	if !o.v.ordered {
		sort.Strings(w)
		sort.Strings(g)
	}
	if !reflect.DeepEqual(w, g) {
		return where + fmt.Sprintf("the kept nodes are %v instead of %v", g, w)
	}
	return ""
}

func init() {
	handlers["history"] = func(raw json.RawMessage) (bool, string) {
		var h History
		must(json.Unmarshal(raw, &h))
		for rep := 0; rep < 20; rep++ {
			if bad := h.run(); bad != "" {
				return true, bad
			}
		}
		return false, ""
	}
	handlers["become"] = func(raw json.RawMessage) (bool, string) {
		var k BecomeCase
		must(json.Unmarshal(raw, &k))
		t, err := strconv.Unquote(k.Path)
		must(err)
		p, err, pan := parse(t)
		if err != nil || pan != "" {
			return true, "Parse: " + pan + errText(err)
		}
		for i := 0; i < 20; i++ {
			if bad := becomeBad(p, parseDoc(k.A), parseDoc(k.B), k.WantA, k.WantB); bad != "" {
				return true, bad
			}
		}
		return false, ""
	}
	handlers["intact"] = func(raw json.RawMessage) (bool, string) {
		var k FindCase
		must(json.Unmarshal(raw, &k))
		t, err := strconv.Unquote(k.Path)
		must(err)
		p, err, pan := parse(t)
		if err != nil || pan != "" {
			return true, "Parse: " + pan + errText(err)
		}
		bad := intactBad(p, parseDoc(k.Doc))
		return bad != "", bad
	}
}

func (h *History) run() string {
	ps := map[string]gj.Path{}
	type dk struct{ doc, v string }
	ds := map[dk]*docCase{}
	ops := make([]*hop, len(h.Items))
	for i, it := range h.Items {
		p, ok := ps[it.Path]
		if !ok {
			t, err := strconv.Unquote(it.Path)
			must(err)
			var pan string
			p, err, pan = parse(t)
			if err != nil || pan != "" {
				return "Parse(" + it.Path + "): " + pan + errText(err)
			}
			ps[it.Path] = p
		}
		v := variants[it.Variant]
		k := dk{it.Doc, it.Variant}
		d := ds[k]
		if d == nil {
			d = newDocCase(parseDoc(it.Doc), []*variant{v})
			ds[k] = d
		}
		nodes := allNodes(d.root)
		var want []*Node
		for _, id := range it.Want {
			want = append(want, nodes[id])
		}
		t, _ := strconv.Unquote(it.Path)
		ops[i] = &hop{p: p, txt: t, d: d, v: v, want: want}
	}
	var ks []*kept
	for i, it := range h.Items {
		if it.Keep {
			if k := ops[i].keep(); k != nil {
				ks = append(ks, k)
			}
			continue
		}
		var inner func() string
		if it.Nest > 0 {
			o := ops[it.Nest-1]
			inner = func() string { return o.eval(nil, 0, false) }
		}
		if bad := ops[i].eval(inner, it.Abort, it.Spoil); bad != "" {
			return fmt.Sprintf("evaluation %d: %s", i+1, bad)
		}
	}
	for _, k := range ks {
		if bad := k.bad(); bad != "" {
			return "at the end: " + bad
		}
	}
	return ""
}

// histPaths are the paths of the histories
func histPaths(thorough bool) []*Path {
	ps := broadPaths(1)
	st := broadSteps()
	var more []*Path
	pairs := [][2]int{{0, 3}, {6, 6}, {25, 0}, {26, 3}, {25, 25}, {6, 25}, {1, 9}, {15, 0}, {26, 15}, {32, 15}, {12, 6}, {7, 7}, {14, 6}, {6, 14}, {6, 17}, {1, 20}, {23, 6}, {34, 0}}
	for _, x := range pairs {
		more = append(more, path(st[x[0]], st[x[1]]))
	}
	ps = append(ps, more...)
	if thorough {
		ps = append(ps, broadPaths(2)[len(broadPaths(1)):]...)
	}
	// computed and root-dependent
	a := step(key("a"))
	ps = append(ps,
		path(step(slc(bin("-", &Expr{K: ELen, P: cur()}, eInt(2)), nil, nil))), path(step(slc(eRoot(a), nil, nil))),
		path(rec(filt(bin("==", &Expr{K: ELen, P: cur()}, eInt(2))))), path(rec(filt(bin("in", eRoot(a), eCur(step(wild())))))),
		path(step(filt(bin("&&", eCur(step(key("b"))), bin("!=", eCur(a), eRoot(step(key("b")))))))), path(rec(filt(bin(">", eCur(), eRoot(step(wild())))))),
	)
	for _, e := range kindsOfExpr() {
		ps = append(ps, path(step(filt(e))))
	}
	return ps
}

// histDocs are pairwise similar documents
func histDocs() []*Node {
	d := mixedDocs()
	return append(d,
		nO("a", nI(2), "b", nA(nI(2), nI(1), nO("a", nI(2), "b", nI(0))), "c", nO("a", nO("a", nI(1), "b", nI(2)), "b", nA(nI(1)))).finish(),
		nO("b", nI(1), "a", nI(2)).finish(), nO("b", nI(2), "a", nI(1)).finish(),
		nA(nI(1), nI(2), nI(3)).finish(), nA(nI(2), nI(1)).finish(), nA(nA(nI(1)), nI(1)).finish(), nI(1).finish(), nO().finish())
}

// BecomeCase is a document that its owner changes between two evaluations
type BecomeCase struct {
	Path, A, B   string
	WantA, WantB []int
}

// become changes the native document a into b, keeping its maps and arrays where it can
func become(a, b any) any {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			return b
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				delete(x, k)
			}
		}
		for k, v := range y {
			x[k] = become(x[k], v)
		}
		return x
	case []any:
		y, ok := b.([]any)
		if !ok {
			return b
		}
		if len(x) > len(y) {
			x = x[:len(y)]
		}
		for i, v := range y {
			if i < len(x) {
				x[i] = become(x[i], v)
			} else {
				x = append(x, v)
			}
		}
		return x
	}
	return b
}

func becomeBad(p gj.Path, a, b *Node, wa, wb []int) (bad string) {
	nat := a.toNative(true)
	eval := func(r *Node, want []int, when string) {
		nodes := allNodes(r)
		var w []*Node
		for _, i := range want {
			w = append(w, nodes[i])
		}
		m := gj.MapModel{Doc: nat}
		got, b := search(vMapI, r, m, p, 4*r.Size*r.Size+1000, nil)
		if b == "" {
			b = compare(vMapI, w, got)
		}
		if b != "" && bad == "" {
			bad = when + r.text() + ": " + b
		}
	}
	eval(a, wa, "on ")
	nat = become(nat, b.toNative(true))
	eval(b, wb, "after its owner changed "+a.text()+" to ")
	return
}

// roomy is the native document with sentinels in the spare capacity of its arrays
func roomy(n *Node, check *[]func() string) any {
	switch n.Kind {
	case KArr:
		full := make([]any, len(n.Elems)+3)
		for i, e := range n.Elems {
			full[i] = roomy(e, check)
		}
		for i := len(n.Elems); i < len(full); i++ {
			full[i] = "spare"
		}
		*check = append(*check, func() string {
			for i := len(n.Elems); i < len(full); i++ {
				if full[i] != "spare" {
					return fmt.Sprintf("the array at %s is written to beyond its end", n.loc())
				}
			}
			return ""
		})
		return full[:len(n.Elems)]
	case KObj:
		m := map[string]any{}
		for i, e := range n.Elems {
			m[n.Keys[i]] = roomy(e, check)
		}
		return m
	}
	return n.toNative(true)
}

// intactBad tells if evaluating p changes the document
func intactBad(p gj.Path, r *Node) (bad string) {
	defer func() {
		if x := recover(); x != nil {
			bad = ""
		}
	}()
	var checks []func() string
	nat := roomy(r, &checks)
	if _, err := gj.Find(gj.MapModel{Doc: nat}, p); err != nil {
		return ""
	}
	if !reflect.DeepEqual(nat, r.toNative(true)) {
		return "the document is changed: " + fmt.Sprint(nat)
	}
	for _, f := range checks {
		if b := f(); b != "" {
			return b
		}
	}
	// the keys as the model keeps them
	m := ptrModel(r, true)
	m.shared = true
	var keys [][]string
	for _, n := range allNodes(r) {
		keys = append(keys, append([]string(nil), n.Keys...))
	}
	gj.Find(m, p)
	for i, n := range allNodes(r) {
		if len(keys[i]) > 0 && !reflect.DeepEqual(keys[i], n.Keys) {
			b := fmt.Sprintf("the list of keys at %s is changed from %q to %q", n.loc(), keys[i], n.Keys)
			copy(n.Keys, keys[i])
			return b
		}
	}
	return ""
}

func checkC19(c *Ctx) {
	c.twins("$.", "$['", "/", "$..", "$[?(@.", "$[?(@=='", "$[?(@ in ['", "", "join")
	vs := []*variant{vPtr, vMap}
	paths := compileAll(histPaths(false))
	var docs []*docCase
	for _, r := range histDocs() {
		docs = append(docs, newDocCase(r, vs))
	}
	mkOps := func(ps []compiled, ds []*docCase) (ops []*hop) {
		for _, p := range ps {
			for _, d := range ds {
				w, ok := p.p.eval(d.root, d.root)
				if !ok {
					continue
				}
				for vi, v := range vs {
					ops = append(ops, &hop{p: p.gp, txt: p.txt, d: d, vi: vi, v: v, want: w})
				}
			}
		}
		return
	}
	fail := func(bad string, items ...HItem) {
		if bad == "" {
			return
		}
		h := &History{items}
		c.violate("history", jsonOf(h), h, bad)
	}
	note := func(o *hop) {
		c.res.Transitions++
		c.state(o.d, o.want)
	}
	n := 0
	ops := mkOps(paths, docs)
	// 1. all pairs: A, B, A, with the shared compiled paths and documents
	for _, a := range ops {
		if n++; !c.mine(n) {
			continue
		}
		if c.expired() {
			return
		}
		note(a)
		for _, b := range ops {
			if !c.thorough() && a.vi != b.vi && (a.txt != b.txt || a.d != b.d) {
				continue
			}
			c.enter("query", a.txt, a.d.txt, a.v.name)
			if bad := a.eval(nil, 0, false); bad != "" {
				fail(bad, a.item())
			}
			if bad := b.eval(nil, 0, false); bad != "" {
				fail(bad, a.item(), b.item())
			}
			c.count("pairs", 1)
			c.res.Traces++
			c.res.Transitions += 2
			c.sample(func() string {
				return a.txt + " on " + a.d.txt + ", then " + b.txt + " on " + b.d.txt + ", then the first again"
			})
			// within one another
			if len(a.want) > 0 && len(a.want) <= 4 && (a.vi == 0 || c.thorough()) {
				it := a.item()
				it.Nest = 2
				fail(a.eval(func() string { return b.eval(nil, 0, false) }, 0, false), it, b.item(), a.item())
				c.count("nested", 1)
			}
		}
	}
	// 2. the same path on all triples of documents
	byPath := map[string][]*hop{}
	for _, o := range ops {
		if o.vi == 0 {
			byPath[o.txt] = append(byPath[o.txt], o)
		}
	}
	for _, p := range paths {
		if n++; !c.mine(n) {
			continue
		}
		l := byPath[p.txt]
		for _, x := range l {
			if c.expired() {
				return
			}
			for _, y := range l {
				for _, z := range l {
					for _, o := range []*hop{x, y, z, x} {
						if bad := o.eval(nil, 0, false); bad != "" {
							fail(bad, x.item(), y.item(), z.item(), x.item())
						}
					}
					c.count("triples", 1)
					c.res.Traces++
					c.res.Transitions += 4
				}
			}
		}
	}
	// the same path on all pairs of documents of many sizes
	{
		var ds []*docCase
		for _, k := range []int{0, 1, 2, 3, 5, 9, 33} {
			a := intArr(k)
			o := &Node{Kind: KArr}
			for i := 0; i < k; i++ {
				o.Elems = append(o.Elems, nO("b", nI(i), "a", nI(k-i)))
			}
			for _, r := range []*Node{a, o, nO("b", nI(k/2), "a", intArr(k)), nA(intArr(k), intArr(k+2), intArr(k/2)), bigObj(k)} {
				ds = append(ds, newDocCase(r.clone().finish(), vs))
			}
		}
		var ps []*Path
		bounds := []*Expr{nil, eInt(0), eInt(1), eInt(4), eInt(9), eInt(40), eInt(-1), eInt(-2), eInt(-9), &Expr{K: ELen, P: cur()}, bin("-", &Expr{K: ELen, P: cur()}, eInt(1)), eRoot(step(key("b"))), eCur(step(idx(0)))}
		for _, x := range bounds {
			for _, y := range bounds {
				for _, z := range []*Expr{nil, eInt(2), eInt(-1), eInt(-3), eCur(step(idx(0)))} {
					ps = append(ps, path(step(slc(x, y, z))))
					if z == nil || x == nil && y == nil {
						ps = append(ps, path(step(wild()), step(slc(x, y, z))), path(rec(slc(x, y, z))))
					}
				}
			}
		}
		for i := -10; i <= 10; i++ {
			ps = append(ps, path(step(idx(i))), path(step(wild()), step(idx(i))), path(rec(idx(i))), path(step(idx(i), idx(-i-1))))
		}
		for _, k := range []string{"a", "b", "k0", "k4", "zz"} {
			ps = append(ps, path(step(key(k))), path(step(wild()), step(key(k))), path(rec(key(k))), path(step(filt(bin(">", eCur(step(key(k))), eInt(1))))), path(step(filt(bin("==", eCur(step(key(k))), eRoot(step(idx(0)), step(key(k))))))), path(step(filt(bin("in", eCur(step(key("b"))), eRoot(step(wild()), step(key(k))))))))
		}
		for _, q := range []*Expr{bin("==", eCur(), eRoot(step(idx(0)))), bin("<", eCur(), eRoot(step(idx(-1)))), bin("in", eCur(), eRoot(step(slc(nil, eInt(2), nil)))), bin("==", &Expr{K: ELen, P: path()}, eCur()), bin(">", &Expr{K: ELen, P: cur()}, eInt(3)), bin("==", bin("%", eCur(), eInt(2)), eInt(0)), bin("!=", eCur(), eRoot(step(key("b")))), bin(">", bin("*", eCur(), eInt(2)), eRoot(step(idx(1))))} {
			ps = append(ps, path(step(filt(q))), path(rec(filt(q))))
		}
		for _, p := range compileAll(ps) {
			if n++; !c.mine(n) || c.expired() {
				continue
			}
			l := mkOps([]compiled{p}, ds)
			for _, x := range l {
				note(x)
				for _, y := range l {
					if x.vi != y.vi && x.d != y.d {
						continue
					}
					for _, o := range []*hop{x, y, x} {
						if bad := o.eval(nil, 0, false); bad != "" {
							fail(bad, x.item(), y.item(), x.item())
						}
					}
					c.count("pairs", 1)
					c.res.Traces++
					c.res.Transitions += 3
				}
			}
		}
	}
	// 3. recursion: the path within its own evaluation, three deep, and
	// evaluations that end early, and results that the caller overwrites
	for _, a := range ops {
		if n++; !c.mine(n) || len(a.want) == 0 || len(a.want) > 12 {
			continue
		}
		if c.expired() {
			return
		}
		self := a.item()
		self.Nest = 1
		fail(a.eval(func() string {
			return a.eval(func() string { return a.eval(nil, 0, false) }, 0, false)
		}, 0, false), self, a.item())
		c.count("recursive", 1)
		for k := 1; k <= len(a.want) && k <= 6; k++ {
			it := a.item()
			it.Abort = k
			a.eval(nil, k, false)
			for _, b := range byPath[a.txt] {
				fail(b.eval(nil, 0, false), it, b.item())
			}
			a.eval(nil, k, false)
			for _, q := range []int{0, 7, 26, 40, 50} {
				for _, b := range byPath[paths[q%len(paths)].txt] {
					if b.d == a.d || b.d == docs[0] {
						fail(b.eval(nil, 0, false), it, b.item())
					}
				}
			}
			fail(a.eval(nil, 0, false), it, a.item())
			// aborted from within another evaluation
			fail(a.eval(func() string { a.eval(nil, k, false); return "" }, 0, false), it, a.item())
			c.count("aborted", 1)
		}
		it := a.item()
		it.Spoil = true
		fail(a.eval(nil, 0, true), it)
		fail(a.eval(nil, 0, false), it, a.item())
		c.res.Traces += 3
	}
	// results that the caller keeps, while all other evaluations run
	for _, a := range ops {
		if n++; !c.mine(n) || len(a.want) == 0 || c.expired() {
			continue
		}
		it := a.item()
		it.Keep = true
		c.enter("query", a.txt, a.d.txt, a.v.name)
		ka := a.keep()
		if ka == nil {
			continue
		}
		if b := ka.bad(); b != "" {
			fail(b, it)
			continue
		}
		var kb []*kept
		var after []*hop
		for i, b := range ops {
			if b.vi != a.vi || !c.thorough() && b.d != a.d && (i+n)%5 != 0 && b.txt != a.txt {
				continue
			}
			k := b.keep()
			after = append(after, b)
			if k != nil && len(k.nodes) > 0 && len(kb) < 200 {
				kb = append(kb, k)
			}
			c.count("kept", 1)
			c.res.Transitions += 2
		}
		c.res.Traces++
		for i, k := range append(kb, ka) {
			b := k.bad()
			if b == "" {
				continue
			}
			if i == len(kb) {
				// which of the evaluations did it?
				for _, o := range after {
					if k := a.keep(); k != nil {
						o.keep()
						if b := k.bad(); b != "" {
							oi := o.item()
							oi.Keep = true
							fail(b, it, oi)
							break
						}
					}
				}
			}
			items := []HItem{it}
			for _, o := range after {
				oi := o.item()
				oi.Keep = true
				items = append(items, oi)
			}
			fail(b, items...)
			break
		}
	}
	// 4. many times the same
	for _, p := range paths {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		l := byPath[p.txt]
		var items []HItem
		for i := 0; i < 600; i++ {
			o := l[(i*i/7)%len(l)]
			if i%50 < 20 {
				o = l[0]
			}
			items = append(items, o.item())
			fail(o.eval(nil, 0, false), items...)
		}
		c.res.Transitions += 600
	}
	// 5. documents their owner changes in place
	g := &docGen{leaves: []*Node{nI(1), nI(2)}, keys: []string{"b", "a"}}
	small := g.upTo(c.pick(3, 4))
	for i, r := range small {
		small[i] = r
	}
	all := append(append([]*Node{}, small...), histDocs()...)
	wants := make([][]int, len(all))
	for pi, p := range paths {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		def := make([]bool, len(all))
		for i, r := range all {
			w, ok := p.p.eval(r, r)
			def[i], wants[i] = ok, ids(w)
		}
		for i, a := range all {
			for j, b := range all {
				if !def[i] || !def[j] || i == j {
					continue
				}
				if !c.thorough() && (i+j+pi)%3 != 0 && i < len(small) && j < len(small) {
					continue
				}
				c.count("changed_documents", 1)
				c.res.Traces++
				c.res.Transitions += 2
				if bad := becomeBad(p.gp, a, b, wants[i], wants[j]); bad != "" {
					c.violate("become", p.txt+" | "+a.text()+" | "+b.text(), &BecomeCase{quoted(p.txt), a.text(), b.text(), wants[i], wants[j]}, p.txt+" "+bad)
				}
			}
		}
	}
	// larger ones, of which one element is changed, one is replaced by another,
	// or the order is
	for _, size := range []int{2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129, 256, 257, 300} {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		mk := func(k func(i int) string, v func(i int) *Node) (l []*Node) {
			o, a := &Node{Kind: KObj}, &Node{Kind: KArr}
			for i := 0; i < size; i++ {
				o.Keys, o.Elems, a.Elems = append(o.Keys, k(i)), append(o.Elems, v(i)), append(a.Elems, v(i))
			}
			return []*Node{o.finish(), a.finish(), nO("a", o, "b", nI(1)).finish(), nA(o, a).finish()}
		}
		k0 := func(i int) string { return "k" + itoa(i) }
		v0 := func(i int) *Node { return nI(i) }
		first := mk(k0, v0)
		for _, second := range [][]*Node{
			mk(func(i int) string {
				if i == size/2 {
					return "a"
				}
				return k0(i)
			}, v0),
			mk(k0, func(i int) *Node {
				if i == size-1 {
					return nO("a", nI(1))
				}
				return v0(i)
			}),
			mk(k0, func(i int) *Node { return nI(size - i) }),
			mk(func(i int) string { return "j" + itoa(i) }, func(i int) *Node { return nA(nI(i)) }),
		} {
			for _, p := range paths {
				for i, a := range first {
					b := second[i]
					wa, oka := p.p.eval(a, a)
					wb, okb := p.p.eval(b, b)
					if !oka || !okb {
						continue
					}
					c.tick()
					c.count("changed_documents", 1)
					c.res.Traces++
					c.res.Transitions += 2
					if bad := becomeBad(p.gp, a, b, ids(wa), ids(wb)); bad != "" {
						c.violate("become", p.txt+" | "+a.text()+" | "+b.text(), &BecomeCase{quoted(p.txt), a.text(), b.text(), ids(wa), ids(wb)}, p.txt+" "+bad)
					}
				}
			}
		}
	}
	// 6. documents stay intact
	intact := func(ps []compiled, ds []*Node) {
		for _, p := range ps {
			if n++; !c.mine(n) || c.expired() {
				continue
			}
			for _, r := range ds {
				c.enter("query", p.txt, r.text(), "map")
				if bad := intactBad(p.gp, r); bad != "" {
					c.violate("intact", p.txt+" | "+r.text(), FindCase{Path: quoted(p.txt), Doc: r.text()}, p.txt+" on "+r.text()+": "+bad)
				}
				c.count("intact", 1)
				c.res.Transitions++
			}
		}
	}
	intact(compileAll(broadPaths(2)), append(histDocs(), smallDocs(3)...))
	intact(compileAll(broadPaths(1)), smallDocs(c.pick(4, 5)))
	var ex []*Path
	for _, e := range predicates() {
		ex = append(ex, path(step(filt(e))), path(rec(filt(e))))
	}
	intact(compileAll(ex), append(histDocs(), smallDocs(3)...))
	// one evaluation a great many times in a row, and two in turn
	{
		a := &Node{Kind: KObj, Keys: []string{"a", "b"}, Elems: []*Node{nA(nI(1), nO("a", nI(2), "b", nA(nI(3)))), nI(1)}}
		for i := 0; i < 9; i++ {
			a = nO("b", nA(nI(i), nI(2)), "a", a)
		}
		d := newDocCase(a.finish(), vs)
		ka, kb := step(key("a")), step(key("b"))
		ps := []*Path{
			path(ka, ka, ka, ka, ka, ka, ka, ka, ka, ka, step(idx(1)), kb, step(idx(-1))),
			path(ka, ka, step(wild()), ka, ka, kb, step(slc(nil, nil, eInt(-1)))),
			path(ka, ka, ka, ka, ka, ka, ka, step(key("a"), key("b")), step(key("b"), idx(1))),
			path(ka, ka, ka, ka, ka, kb, step(filt(bin(">", eCur(), eInt(2))))),
			path(ka, ka, ka, ka, ka, kb, step(filt(bin("in", eCur(), list(eInt(2), eInt(3)))))),
			path(ka, ka, ka, ka, ka, ka, ka, rec(idx(0))),
			path(ka, ka, ka, ka, kb, step(slc(bin("-", &Expr{K: ELenM, P: cur()}, eInt(1)), nil, nil))),
			path(step(filt(bin("==", eCur(ka, ka, ka, kb, step(idx(1))), eRoot(kb, step(idx(1))))))),
		}
		for i, p := range compileAll(ps) {
			w, ok := p.p.eval(d.root, d.root)
			if !ok || len(w) == 0 {
				panic("no specified result: " + p.txt)
			}
			for k := 0; k < c.pick(140000, 1100000); k++ {
				if !c.mine(i) || k%1024 == 0 && c.expired() {
					break
				}
				got, bad := search(vPtr, d.root, d.ms[0], p.gp, 100, nil)
				if bad == "" {
					bad = compare(vPtr, w, got)
				}
				if bad != "" {
					c.violate("", p.txt, nil, fmt.Sprintf("evaluation %d in a row of %s on %s: %s", k+1, p.txt, d.txt, bad))
				}
				c.res.Transitions++
			}
			c.count("in_a_row", 1)
		}
	}
	if c.thorough() {
		// triples of paths on the same document
		one := func(d *docCase) (l []*hop) {
			for _, o := range ops {
				if o.d == d && o.vi == 0 {
					l = append(l, o)
				}
			}
			return
		}
		for _, d := range docs[:6] {
			l := one(d)
			for _, x := range l {
				if n++; !c.mine(n) || c.expired() {
					continue
				}
				for _, y := range l {
					for _, z := range l {
						for _, o := range []*hop{x, y, z} {
							if bad := o.eval(nil, 0, false); bad != "" {
								fail(bad, x.item(), y.item(), z.item())
							}
						}
						c.count("triples", 1)
						c.res.Transitions += 3
					}
				}
			}
		}
	}
}

func init() {
	checks["C19"] = &check{run: checkC19, bounds: func(t bool) map[string]any {
		return map[string]any{"paths": len(histPaths(false)), "documents": len(histDocs()), "histories": "all pairs, all nestings of two, triples of one path, an evaluation ended at each match, 140000 in a row"}
	}}
}
