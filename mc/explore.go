package main

// Exhaustive exploration of (documents x paths): a depth-first search over
// path prefixes, keeping for every document the nodes the reference selects.
// A state is a document and the nodes selected so far, a transition is a step.

import (
	"hash/fnv"

	gj "github.com/bserdar/gojsonpath"
)

type docCase struct {
	root *Node
	txt  string
	h    uint64
	ms   []gj.DocModel // per variant
}

type explorer struct {
	c        *Ctx
	vs       []*variant
	docs     []*docCase
	prefix   *Path                   // all paths start with this
	alphabet func(depth int) []*Step // steps to append at depth (0-based)
	maxDepth int
	wrap     func(*Path) *Path // path to evaluate instead, or nil
	filter   func(*Path) bool  // leave out a path
	fullTo   int               // up to this depth evaluate also where nothing is selected
	byPath   bool              // the shards divide the paths, not the documents
	unit     int
	buf      []*Node
	stop     bool
}

// load takes the documents of this shard
func (e *explorer) load(roots []*Node) {
	for i, r := range roots {
		if !e.byPath && !e.c.mine(i) {
			continue
		}
		e.docs = append(e.docs, newDocCase(r, e.vs))
	}
	if e.c.seen == nil {
		e.c.seen = map[uint64]struct{}{}
	}
}

func newDocCase(r *Node, vs []*variant) *docCase {
	d := &docCase{root: r, txt: r.text()}
	for _, v := range vs {
		d.ms = append(d.ms, v.mk(r))
	}
	return d
}

func hashState(doc uint64, ns []*Node) uint64 {
	h := doc
	mix := func(x uint64) {
		for i := 0; i < 4; i++ {
			h ^= x & 0xff
			h *= 1099511628211
			x >>= 8
		}
	}
	for _, n := range ns {
		mix(uint64(n.ID) + 1)
	}
	return h
}

func (e *explorer) run() {
	if e.prefix == nil {
		e.prefix = path()
	}
	alive := make([]int, 0, len(e.docs))
	sets := make([][]*Node, len(e.docs))
	for i, d := range e.docs {
		ns, ok := e.prefix.eval(d.root, d.root)
		if !ok {
			continue
		}
		alive = append(alive, i)
		sets[i] = ns
	}
	if len(alive) > 0 {
		e.check(e.prefix, alive, sets)
	}
	e.dfs(e.prefix, alive, sets, 0)
}

func (e *explorer) dfs(p *Path, alive []int, sets [][]*Node, depth int) {
	if depth == e.maxDepth || len(alive) == 0 {
		return
	}
	next := make([][]*Node, len(e.docs))
	for _, st := range e.alphabet(depth) {
		if depth == 0 && e.byPath {
			if e.unit++; !e.c.mine(e.unit) {
				continue
			}
		}
		if e.stop {
			return
		}
		np := &Path{Cur: p.Cur, Steps: append(append([]*Step(nil), p.Steps...), st)}
		if e.filter != nil && !e.filter(np) {
			continue
		}
		var na []int
		for _, i := range alive {
			ns, ok := st.applyAll(e.docs[i].root, sets[i])
			if !ok {
				continue
			}
			next[i] = ns
			na = append(na, i)
		}
		e.check(np, na, next)
		// Go on where something is selected
		var cont []int
		for _, i := range na {
			if len(next[i]) > 0 || depth < e.fullTo {
				cont = append(cont, i)
			}
		}
		cp := make([][]*Node, len(e.docs))
		for _, i := range cont {
			cp[i] = next[i]
		}
		e.dfs(np, cont, cp, depth+1)
	}
}

// check evaluates the path on the documents with one compiled path, and
// compares with the expected nodes
func (e *explorer) check(p *Path, alive []int, want [][]*Node) {
	c := e.c
	ep := p
	if e.wrap != nil {
		ep = e.wrap(p)
	}
	txt := ep.text()
	c.enter("parse", txt)
	gp, err, pan := parse(txt)
	if err != nil || pan != "" {
		msg := pan
		if err != nil {
			msg = err.Error()
		}
		c.violate("query", txt, QSeq{Path: quoted(txt)}, "Parse("+txt+"): "+msg)
		return
	}
	if c.expired() {
		e.stop = true
		return
	}
	for n, i := range alive {
		d := e.docs[i]
		w := want[i]
		if e.wrap != nil {
			var ok bool
			if w, ok = ep.eval(d.root, d.root); !ok {
				continue
			}
		}
		if d.h == 0 {
			d.h = hashStr(d.txt)
		}
		c.seen[hashState(d.h, w)] = struct{}{}
		c.res.Transitions++
		limit := 4*len(w) + 4*d.root.Size + 1000
		for vi, v := range e.vs {
			c.enter("query", txt, d.txt, v.name)
			got, bad := search(v, d.root, d.ms[vi], gp, limit, e.buf)
			e.buf = got
			if bad == "" {
				if len(got) == 0 && len(w) == 0 {
					continue
				}
				bad = compare(v, w, got)
			}
			if bad == "" {
				continue
			}
			// Alone, or only after the documents before it?
			items := []QItem{{d.txt, v.name, ids(w), true}}
			if p2, err, _ := parse(txt); err == nil {
				alone := false
				for r := 0; r < 50 && !alone; r++ {
					g2, b2 := search(v, d.root, v.mk(d.root), p2, limit, nil)
					alone = b2 != "" || compare(v, w, g2) != ""
				}
				if !alone {
					items = nil
					for _, j := range alive[:n+1] {
						w2, ok := ep.eval(e.docs[j].root, e.docs[j].root)
						if !ok {
							continue
						}
						for _, v2 := range e.vs {
							items = append(items, QItem{e.docs[j].txt, v2.name, ids(w2), true})
						}
					}
				}
			}
			c.violate("query", txt+" | "+d.txt, QSeq{Path: quoted(txt), Items: items},
				txt+" on "+d.txt+" ("+v.name+"): "+bad)
		}
		if len(w) == 0 {
			continue
		}
		c.sample(func() string { return txt + " on " + d.txt + " = " + locs(w) })
	}
}

// one evaluates a path on one document in the given variants
func (c *Ctx) one(p *Path, d *docCase, vs []*variant) bool {
	txt := p.text()
	w, ok := p.eval(d.root, d.root)
	if !ok {
		return false
	}
	return c.oneText(txt, w, d, vs)
}

func (c *Ctx) oneText(txt string, w []*Node, d *docCase, vs []*variant) bool {
	c.enter("parse", txt)
	gp, err, pan := parse(txt)
	if err != nil || pan != "" {
		msg := pan
		if err != nil {
			msg = err.Error()
		}
		c.violate("query", txt, QSeq{Path: quoted(txt)}, "Parse("+quoted(txt)+"): "+msg)
		return false
	}
	c.evalOne(txt, gp, w, d, vs)
	return true
}

func (c *Ctx) evalOne(txt string, gp gj.Path, w []*Node, d *docCase, vs []*variant) {
	if len(w) > 0 {
		c.sample(func() string { return txt + " on " + d.txt + " = " + locs(w) })
	}
	c.res.Transitions++
	if d.h == 0 {
		d.h = hashStr(d.txt)
	}
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	c.seen[hashState(d.h, w)] = struct{}{}
	limit := 4*len(w) + 4*d.root.Size + 1000
	for vi, v := range vs {
		c.enter("query", txt, d.txt, v.name)
		got, bad := search(v, d.root, d.ms[vi], gp, limit, nil)
		if bad == "" {
			bad = compare(v, w, got)
		}
		if bad != "" {
			dt := d.txt
			if len(dt) > 300 {
				dt = dt[:300] + "..."
			}
			c.violate("query", txt+" | "+d.txt, QSeq{Path: quoted(txt), Items: []QItem{{d.txt, v.name, ids(w), true}}},
				txt+" on "+dt+" ("+v.name+"): "+bad)
		}
	}
}

func hashStr(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	return h.Sum64()
}
