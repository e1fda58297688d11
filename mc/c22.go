package main

// C22: combinators. All sequences of combinations over a pool of paths,
// every path of the pool evaluated again after each one.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

// CombOps describes a pool of paths: the base ones, then one for each operation.
type CombOps struct {
	Base []string
	Ops  [][]int // operands; one operand that is negative: RecursiveDescent of -1-x
	Docs []string
}

// cpath is a path of the pool, and what it is made of
type cpath struct {
	gp      gj.Path
	head    bool // starts at the root
	steps   []*Step
	pending bool // the next step is a recursive descent
	bad     bool // not something the property speaks of
}

// basePath is the path that a text describes: R, C, W, K:key, I:index, P:path, S:steps
func basePath(s string) cpath {
	kind, arg, _ := strings.Cut(s, ":")
	switch kind {
	case "E":
		return cpath{}
	case "R":
		return cpath{gp: gj.SelectRootPath, head: true}
	case "C":
		return cpath{gp: gj.SelectCurrentPath, head: true}
	case "W":
		return cpath{gp: gj.WildcardPath, steps: []*Step{step(wild())}}
	case "K":
		return cpath{gp: gj.KeySelectorPath(arg), steps: []*Step{step(key(arg))}}
	case "I":
		i, err := strconv.Atoi(arg)
		must(err)
		return cpath{gp: gj.IndexSelectorPath(i), steps: []*Step{step(&Sel{K: SIdx, Idx: i, Arr: true})}}
	}
	b, ok := parsedBases[s]
	if rest, is := strings.CutPrefix(s, "P:$"); !ok && is && strings.Repeat(".a", len(rest)/2) == rest {
		for range len(rest) / 2 {
			b = append(b, step(key("a")))
		}
		ok = true
	}
	if !ok {
		panic("base " + s)
	}
	gp, err, pan := parse(arg)
	if err != nil || pan != "" {
		return cpath{bad: true}
	}
	return cpath{gp: gp, head: kind == "P", steps: b}
}

// parsedBases are paths from the root (P) and relative ones (S)
var parsedBases = map[string][]*Step{
	"P:$": nil, "P:$.a": {step(key("a"))}, "P:$.a.b": {step(key("a")), step(key("b"))}, "P:$..a": {rec(key("a"))}, "P:$.*": {step(wild())}, "P:$[0]": {step(idx(0))},
	"P:/": nil, "P:/a": {step(key("a"))}, "P:/a/*": {step(key("a")), step(wild())}, "P:$['a',0]": {step(key("a"), idx(0))}, "P:$[?(@.a)]": {step(filt(eCur(step(key("a")))))},
	"P:$..[0]": {rec(idx(0))}, "P:$..": {rec(wild())}, "P:@": nil, "P:@.b": {step(key("b"))}, "P:$[1:]": {step(slc(eInt(1), nil, nil))}, "P:$.a.b.a": {step(key("a")), step(key("b")), step(key("a"))}, "P:$.a..b.a.*": {step(key("a")), rec(key("b")), step(key("a")), step(wild())},
	"S:a": {step(key("a"))}, "S:a.b": {step(key("a")), step(key("b"))}, "S:a..b": {step(key("a")), rec(key("b"))}, "S:*": {step(wild())}, "S:'b'": {step(key("b"))}, "S:b[0]": {step(key("b")), step(idx(0))}, "S:a[1:]": {step(key("a")), step(slc(eInt(1), nil, nil))},
	"S:*[?(@.a)]": {step(wild()), step(filt(eCur(step(key("a")))))}, "S:a[*]": {step(key("a")), step(wild())}, "S:a.b.a": {step(key("a")), step(key("b")), step(key("a"))},
}

func (x *cpath) rd() cpath {
	if x.bad || !x.head && len(x.steps) == 0 {
		return cpath{bad: true}
	}
	return cpath{gp: gj.RecursiveDescent(x.gp), head: x.head, steps: x.steps, pending: true}
}

func appendPaths(xs []*cpath) cpath {
	var gps []gj.Path
	var r cpath
	for _, x := range xs {
		if x.bad || x.head && (r.head || len(r.steps) > 0) {
			return cpath{bad: true}
		}
		gps = append(gps, x.gp)
		if !x.head && len(x.steps) == 0 {
			continue // the empty path changes nothing
		}
		if x.head {
			r.head = true
		}
		for k, s := range x.steps {
			if k == 0 && r.pending {
				s = &Step{Rec: true, Sels: s.Sels}
			}
			r.steps = append(r.steps[:len(r.steps):len(r.steps)], s)
		}
		r.pending = x.pending
	}
	r.gp = gj.Append(gps...)
	return r
}

func (x *cpath) text() string {
	t := ""
	if x.head {
		t = "$"
	}
	for _, s := range x.steps {
		t += s.text()
	}
	if x.pending {
		t += ".. (pending)"
	}
	return t
}

// evalBad evaluates a path of the pool. A relative one is evaluated from the root.
func (x *cpath) evalBad(d *docCase, v *variant, vi int) (bad string, n int) {
	if x.bad || x.pending {
		return "", 0
	}
	gp := x.gp
	if !x.head {
		if len(x.steps) == 0 {
			return "", 0
		}
		gp = gj.Append(gj.SelectRootPath, gp)
	}
	w, ok := (&Path{Steps: x.steps}).eval(d.root, d.root)
	if !ok {
		return "", 0
	}
	got, bad := search(v, d.root, d.ms[vi], gp, 4*len(w)+4*d.root.Size+1000, nil)
	if bad == "" {
		bad = compare(v, w, got)
	}
	if bad != "" {
		bad = fmt.Sprintf("%s on %s (%s): %s", x.text(), d.txt, v.name, bad)
	}
	return bad, len(w)
}

// run executes the operations; all tells to evaluate the whole pool after each
func (k *CombOps) run(docs []*docCase, vs []*variant, from int) (bad string, evals, hits int) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	var pool []*cpath
	for _, b := range k.Base {
		x := basePath(b)
		pool = append(pool, &x)
	}
	check := func(when string) {
		for i, x := range pool {
			for _, d := range docs {
				for vi, v := range vs {
					b, n := x.evalBad(d, v, vi)
					evals++
					if n > 0 {
						hits++
					}
					if b != "" && bad == "" {
						bad = fmt.Sprintf("path %d of the pool %s: %s", i, when, b)
					}
				}
			}
		}
	}
	if from <= 0 {
		check("at first")
	}
	for n, op := range k.Ops {
		var r cpath
		if len(op) == 1 && op[0] < 0 {
			r = pool[-1-op[0]].rd()
		} else {
			var xs []*cpath
			for _, i := range op {
				xs = append(xs, pool[i])
			}
			r = appendPaths(xs)
		}
		pool = append(pool, &r)
		if n+1 >= from {
			check(fmt.Sprintf("after operation %d of %s %v", n+1, strings.Join(k.Base, " "), k.Ops[:n+1]))
		}
		if bad != "" {
			return
		}
	}
	return
}

func init() {
	handlers["comb"] = func(raw json.RawMessage) (bool, string) {
		var k CombOps
		must(json.Unmarshal(raw, &k))
		vs := []*variant{vPtr, vMap, vDag}
		var docs []*docCase
		for _, t := range k.Docs {
			docs = append(docs, newDocCase(parseDoc(t), vs))
		}
		for i := 0; i < 20; i++ {
			if bad, _, _ := k.run(docs, vs, 0); bad != "" {
				return true, bad
			}
		}
		return false, ""
	}
}

func checkC22(c *Ctx) {
	vs := []*variant{vPtr, vMap, vDag}
	var docs []*docCase
	for _, r := range append(mixedDocs()[:4], nO("a", nO("a", nA(nI(1), nO("a", nI(1), "b", nI(2))), "b", nO("a", nO("b", nA(nI(3))), "b", nA(nI(1), nI(2)), "", nI(5))), "b", nA(nO("a", nA(nI(1), nI(2)), "b", nI(1)), nA(nI(4)))).finish()) {
		docs = append(docs, newDocCase(r, vs))
	}
	var dtxt []string
	for _, d := range docs {
		dtxt = append(dtxt, d.txt)
	}
	n := 0
	try := func(k *CombOps, ds []*docCase, vs []*variant, from int) {
		c.tick()
		c.res.Traces++
		bad, evals, hits := k.run(ds, vs, from)
		c.res.Transitions += int64(len(k.Ops))
		c.count("evaluations", int64(evals))
		c.count("evaluations_that_select_nodes", int64(hits))
		if bad != "" {
			k2 := &CombOps{k.Base, append([][]int{}, k.Ops...), dtxt}
			c.violate("comb", jsonOf(k2), k2, bad)
		}
	}
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	heads := []string{"R", "C", "P:$", "P:$.a", "P:$.a.b", "P:$..a", "P:$.*", "P:$[0]", "P:/", "P:/a", "P:/a/*", "P:$['a',0]", "P:$[?(@.a)]", "P:$..[0]", "P:$..", "P:@", "P:@.b", "P:$[1:]", "P:$.a.b.a", "P:$.a..b.a.*"}
	tails := []string{"W", "K:a", "K:b", "K:zz", "K:", "I:0", "I:1", "I:-1", "I:5", "S:a", "S:a.b", "S:a..b", "S:*", "S:'b'", "S:b[0]", "S:a[1:]", "S:*[?(@.a)]", "S:a[*]", "S:a.b.a"}
	// 1. every head with up to three tails, in one Append, nested either way,
	// with a recursive descent at any place
	for _, h := range heads {
		for _, t1 := range tails {
			if n++; !c.mine(n) {
				continue
			}
			if c.expired() {
				return
			}
			try(&CombOps{Base: []string{h, t1}, Ops: [][]int{{0, 1}, {-1}, {3, 1}, {0}, {}, {4, 5}}}, docs, vs, 0)
			for _, t2 := range tails {
				// pool: 0 h, 1 t1, 2 t2
				try(&CombOps{Base: []string{h, t1, t2}, Ops: [][]int{{0, 1, 2}, {0, 1}, {4, 2}, {1, 2}, {0, 6}, {-1}, {8, 1, 2}, {8, 6}, {-2}, {0, 11, 2}, {8, 11, 2}, {11, 2}, {0, 14}, {-5}, {16, 2}, {4, 1}, {4, 2, 1}, {8, 11, 14}}}, docs, vs, 18)
				c.seen[hashStr(h, t1, t2)] = struct{}{}
				if !c.thorough() && len(h) > 6 {
					continue
				}
				for _, t3 := range tails {
					if !c.thorough() && (len(t3) > 3 || len(t2) > 4) {
						continue
					}
					try(&CombOps{Base: []string{h, t1, t2, t3}, Ops: [][]int{{0, 1, 2, 3}, {0, 1}, {5, 2}, {6, 3}, {6, 1}, {6, 2}, {2, 3}, {1, 10}, {0, 11}, {-3}, {1, 13, 3}, {0, 14}, {-1}, {16, 11}, {6, 3, 1}, {5, 10}}}, docs[3:], vs[:1], 16)
					c.seen[hashStr(h, t1, t2, t3)] = struct{}{}
				}
			}
		}
	}
	// empty paths among the operands
	for _, h := range heads {
		for _, t := range tails {
			if n++; !c.mine(n) || c.expired() {
				continue
			}
			// pool: 0 h, 1 t, 2 the empty path
			try(&CombOps{Base: []string{h, t, "E"}, Ops: [][]int{{0, 2, 1}, {2, 0, 1}, {0, 1, 2}, {2}, {2, 2}, {2, 2, 0, 2, 2, 1, 2}, {6, 0}, {0, 7}, {10, 1}, {-1}, {12, 2}, {13, 1}, {12, 2, 1}, {0, 2}, {16, 1}, {2, 1}, {0, 18}, {18, 2, 1}, {0, 20}, {}, {22, 0, 22, 1}}}, docs, vs, 0)
		}
	}
	// 2. all sequences of operations
	pools := [][]string{{"R", "K:a", "W"}, {"R", "E", "K:a"}, {"P:$.a.b", "K:a", "I:0"}, {"P:$..a", "W", "S:a.b"}, {"P:$.a..b.a.*", "K:b", "W"}, {"P:$.a.b.a", "S:a.b.a", "K:b"}, {"P:/a/*", "I:-1", "W"}}
	depth := c.pick(4, 5)
	for _, base := range pools {
		var rec func(ops [][]int)
		rec = func(ops [][]int) {
			if len(ops) == depth {
				k := &CombOps{Base: base, Ops: ops}
				d := docs[4:]
				try(k, d, vs[:1], depth)
				c.sample(func() string { return "operations " + jsonOf(k) + " on " + itoa(len(d)) + " documents" })
				c.count("operation_sequences", 1)
				return
			}
			size := len(base) + len(ops)
			for i := 0; i < size; i++ {
				if len(ops) == 1 {
					if n++; !c.mine(n) || c.expired() {
						continue
					}
				}
				rec(append(ops[:len(ops):len(ops)], []int{-1 - i}))
				for j := 1; j < size; j++ { // the first path is a head
					rec(append(ops[:len(ops):len(ops)], []int{i, j}))
				}
			}
		}
		rec(nil)
	}
	// 3. long chains: combining keeps the operands, whatever their length
	for _, l := range depthSizes(c.pick(70, 200), false) {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		ops := [][]int{{0, 1}}
		last := 3 // pool: R, K:a, W, then results
		for i := 1; i < l; i++ {
			ops = append(ops, []int{last, 1})
			last++
		}
		ops = append(ops, []int{last, 2}, []int{last, 1}, []int{last, 2, 2}, []int{-1 - last})
		ops = append(ops, []int{last + 4, 1})
		d := newDocCase(chain(l+2, "o", nI(1), true), vs)
		k := &CombOps{Base: []string{"R", "K:a", "W"}, Ops: ops}
		try(k, []*docCase{d}, vs[:1], len(ops))
		// one Append of many
		var many []int
		many = append(many, 0)
		for i := 0; i < l; i++ {
			many = append(many, 1)
		}
		try(&CombOps{Base: []string{"R", "K:a", "W"}, Ops: [][]int{many, {3, 2}, {3, 1}, {-4}, {6, 1}}}, []*docCase{d}, vs[:1], 5)
	}
	// a path made in one piece, in two, or parsed, that is extended again and
	// again by one to four steps
	for l := 1; l <= c.pick(40, 80); l++ {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		d := newDocCase(chain(l+5, "o", nI(1), true), vs)
		rep := func(x, k int) (r []int) {
			for i := 0; i < k; i++ {
				r = append(r, x)
			}
			return
		}
		var at []int // the paths that are extended; pool: 0 R, 1 a, 2 *, 3 parsed, ...
		base := []string{"R", "K:a", "W", "P:$" + strings.Repeat(".a", l)}
		ops := [][]int{append([]int{0}, rep(1, l)...), rep(1, l), {0, 5}, append([]int{0}, rep(1, l/2)...), append([]int{7}, rep(1, l-l/2)...), {-1 - 4}, {-1 - 3}}
		at = []int{3, 4, 6, 8, 9, 10}
		for _, p := range at {
			for k := 1; k <= 4; k++ {
				ops = append(ops, append([]int{p}, rep(1, k)...), append([]int{p}, rep(2, k)...), append(append([]int{p}, rep(2, k-1)...), 1))
			}
			ops = append(ops, []int{p}, []int{p, 1, 5}, []int{p, 2, 5})
		}
		try(&CombOps{Base: base, Ops: ops}, []*docCase{d}, vs[:1], len(ops))
	}
	// 4. keys and indexes of all kinds
	for i, k := range specialKeys {
		if n++; !c.mine(n) {
			continue
		}
		o := &Node{Kind: KObj}
		for j, k := range specialKeys {
			o.Keys = append(o.Keys, k)
			o.Elems = append(o.Elems, nI(j))
		}
		d := []*docCase{newDocCase(o.finish(), vs), newDocCase(nA(o).finish(), vs), newDocCase(nO(k, o).finish(), vs)}
		b := []string{"R", "K:" + k, "W"}
		k2 := &CombOps{Base: b, Ops: [][]int{{0, 1}, {0, 1, 1}, {0, 2, 1}, {-1}, {6, 1}}}
		bad, _, _ := k2.run(d, vs, 0)
		if bad != "" {
			c.violate("comb", jsonOf(k2), &CombOps{b, k2.Ops, []string{d[0].txt, d[1].txt, d[2].txt}}, bad)
		}
		_ = i
	}
	for _, size := range append(depthSizes(c.pick(40, 130), false), 0) {
		if n++; !c.mine(n) {
			continue
		}
		arr := intArr(size)
		o := &Node{Kind: KObj}
		for i := -3; i <= size+2; i++ {
			o.Keys = append(o.Keys, itoa(i))
			o.Elems = append(o.Elems, nI(i))
		}
		o.Keys = append(o.Keys, "")
		o.Elems = append(o.Elems, nNull())
		d := []*docCase{newDocCase(arr.finish(), vs), newDocCase(o.finish(), vs), newDocCase(nA(arr, o, nI(1)).finish(), vs)}
		for _, i := range []int{-size - 2, -size - 1, -size, -2, -1, 0, 1, 2, size / 2, size - 1, size, size + 1, 1 << 40, -1 << 40} {
			k := &CombOps{Base: []string{"R", "I:" + itoa(i), "W"}, Ops: [][]int{{0, 1}, {0, 2, 1}, {-1}, {5, 1}, {5, 2, 1}}}
			bad, _, _ := k.run(d, vs, 0)
			c.res.Traces++
			c.res.Transitions += 5
			if bad != "" {
				c.violate("comb", jsonOf(k), &CombOps{k.Base, k.Ops, []string{d[0].txt, d[1].txt, d[2].txt}}, bad)
			}
		}
	}
}

func init() {
	checks["C22"] = &check{run: checkC22, bounds: func(t bool) map[string]any {
		d := 4
		if t {
			d = 5
		}
		return map[string]any{"heads": 20, "tails": 19, "combined": 4, "operation_sequences": d, "pools": 6, "chain": map[bool]int{false: 70, true: 200}[t]}
	}}
}
