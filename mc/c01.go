package main

import (
	"fmt"
	"strconv"
	"strings"
)

// leaves and keys of the enumerated documents
func stdGen() *docGen {
	return &docGen{leaves: []*Node{nNull(), nI(1), nS("s")}, keys: []string{"b", "a"}}
}

func stdVariants() []*variant { return []*variant{vPtr, vMap, vDag} }

// chain is a document nested depth deep: shape tells for each level
// whether it is an object ('o', key a), or an array ('a')
func chain(depth int, shape string, leaf *Node, side bool) *Node {
	n := leaf
	for i := depth - 1; i >= 0; i-- {
		if shape[i%len(shape)] == 'o' {
			if side {
				n = nO("b", nI(i), "a", n, "c", nS("x"))
			} else {
				n = nO("a", n)
			}
		} else {
			if side {
				n = nA(nI(i), n, nNull())
			} else {
				n = nA(n)
			}
		}
	}
	return n.finish()
}

func chainStep(i int, shape string, side bool) *Step {
	if shape[i%len(shape)] == 'o' {
		return step(key("a"))
	}
	if side {
		return step(idx(1))
	}
	return step(idx(0))
}

func intArr(n int) *Node {
	a := &Node{Kind: KArr}
	for i := 0; i < n; i++ {
		a.Elems = append(a.Elems, nI(i+1))
	}
	return a
}

func bigObj(n int) *Node {
	o := &Node{Kind: KObj}
	for i := n - 1; i >= 0; i-- {
		o.Keys = append(o.Keys, fmt.Sprintf("k%d", i))
		o.Elems = append(o.Elems, nI(i))
	}
	return o
}

// sizes around which buffers and small-size shortcuts change
func scaleSizes(thorough bool) []int {
	var s []int
	for i := 0; i <= 140; i++ {
		s = append(s, i)
	}
	s = append(s, 199, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
	if thorough {
		for i := 141; i <= 600; i++ {
			s = append(s, i)
		}
		s = append(s, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001, 32768, 65535, 65536, 65537)
	}
	return s
}

// depths of nesting: all of them to n, and those around powers
func depthSizes(n int, thorough bool) (s []int) {
	for i := 1; i <= n; i++ {
		s = append(s, i)
	}
	for _, i := range []int{199, 200, 201, 255, 256, 257, 258, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1026} {
		if i > n {
			s = append(s, i)
		}
	}
	if thorough {
		s = append(s, 2047, 2048, 2049, 4095, 4096, 4097)
	}
	return
}

var specialKeys = []string{"", " ", "a b", "0x", "null", "true", "false", "in", "length", "$", "@", "*", "..", ".", "a.b", "[0]", "/", "'", "\"", "\\", "-", "_", "é", "日本", "😀", "a\nb", "\x00", "A", "aa", "key", "a'b", "a\"b", "\u2028", "ﬀ", "e\u0301", "İ", "x-y", "?()", ":", ",", "Length", "~", "!", "a\tb", " a", "a ", "' ", "a' \"", "key1", "KEY", "Null", "NULL", "True", "In", "\u212a", "k", "K", "ß", "SS", "1", "-1", "01", "1.0", "a.b.c", "$.a", "@.a", "a[0]", "/a", "a/b", "\\n", "\\u0061", "\r\n", "\u200b", "\ufeff", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"}

func checkC01(c *Ctx) {
	// 1. all small documents x all paths over the step alphabet
	e := &explorer{c: c, vs: stdVariants(), maxDepth: c.pick(4, 5), fullTo: 1}
	e.load(stdGen().upTo(c.pick(5, 6)))
	alpha := []*Step{
		step(key("a")), step(key("b")), step(key("c")), step(key("")), step(wild()),
		{Sels: []*Sel{wild()}, Text: "[*]"},
		{Sels: []*Sel{key("a")}, Text: `["a"]`},
		step(idx(0)), step(idx(1)), step(idx(2)), step(idx(-1)), step(idx(-2)), step(idx(-3)), step(idx(3)), step(idx(-4)),
	}
	e.alphabet = func(int) []*Step { return alpha }
	e.run()
	if c.expired() {
		return
	}
	vs := []*variant{vPtr, vPtrF, vMap, vMapI}
	unit := 0
	next := func() bool { unit++; return c.mine(unit) }
	// 2. keys that are special to the grammar or to Go
	for _, leaf := range []*Node{nNull(), nI(0), nS(""), nB(false), nA(), nO()} {
		full := &Node{Kind: KObj}
		for _, k := range specialKeys {
			full.Keys = append(full.Keys, k)
			full.Elems = append(full.Elems, leaf)
		}
		fd := newDocCase(nA(full, full).finish(), vs)
		for i, k := range specialKeys {
			if !next() {
				continue
			}
			c.one(path(step(wild()), step(key(k))), fd, vs)
			c.one(path(step(idx(1)), step(key(k))), fd, vs)
			// the same key where it is missing, alone, and on other kinds of nodes
			without := &Node{Kind: KObj, Keys: append(append([]string(nil), specialKeys[:i]...), specialKeys[i+1:]...)}
			for range without.Keys {
				without.Elems = append(without.Elems, leaf)
			}
			for _, r := range []*Node{without, nO(k, leaf), nA(leaf, nO(k, nNull())), nS(k), nA(nS(k)), leaf} {
				c.one(path(step(key(k))), newDocCase(r.finish(), vs), vs)
			}
		}
	}
	// each key on an object that has another one only
	for _, x := range specialKeys {
		if !next() {
			continue
		}
		d := newDocCase(nO(x, nI(1)).finish(), vs)
		for _, y := range specialKeys {
			c.one(path(step(key(y))), d, vs)
		}
	}
	// keys that differ in one or two characters before or after
	for i := 1; i < 128; i++ {
		if !next() {
			continue
		}
		if c.expired() {
			return
		}
		ch := string(rune(i))
		var near []string
		for _, b := range []string{"a", "0", "", "é"} {
			near = append(near, b+ch, ch+b, ch+b+ch)
		}
		for j := 1; j < 128; j++ {
			near = append(near, "a"+ch+string(rune(j)), string(rune(j))+"a"+ch)
		}
		for _, b := range []string{"a", "", "0", "é"} {
			d := newDocCase(nO(b, nI(1)).finish(), vs)
			for _, y := range near {
				if b != "a" && len(y) > 2 {
					continue
				}
				c.one(path(step(key(y))), d, vs)
			}
		}
		for _, y := range near {
			d := newDocCase(nO(y, nI(1)).finish(), vs)
			c.one(path(step(key("a"))), d, vs)
			c.one(path(step(key(y))), d, vs)
		}
	}
	// array indexes in every spelling: brackets, dots, leading zeros, signs, other bases
	for n := 0; n <= 12; n++ {
		if !next() {
			continue
		}
		for _, d := range []*docCase{newDocCase(intArr(n).finish(), vs), newDocCase(nA(intArr(n), nO("a", intArr(n))).finish(), vs)} {
			arr := d.root
			pre := "$"
			if d.root.Size > n+1 {
				arr, pre = d.root.Elems[0], "$[0]"
			}
			for i := -n - 2; i <= n+2; i++ {
				var w []*Node
				if j := i; j >= -n && j < n {
					if j < 0 {
						j += n
					}
					w = []*Node{arr.Elems[j]}
				}
				abs, sign := i, ""
				if i < 0 {
					abs, sign = -i, "-"
				}
				for _, t := range []string{itoa(abs), "0" + itoa(abs), "00" + itoa(abs), "0x" + strconv.FormatInt(int64(abs), 16), "0X" + strings.ToUpper(strconv.FormatInt(int64(abs), 16)), "0b" + strconv.FormatInt(int64(abs), 2), "0o" + strconv.FormatInt(int64(abs), 8)} {
					c.oneText(pre+"["+sign+t+"]", w, d, vs)
					if i >= 0 {
						c.oneText(pre+"[+"+t+"]", w, d, vs)
						c.oneText(pre+"."+t, w, d, vs)
					}
				}
			}
		}
	}
	// 3. index arithmetic: all lengths, all indexes around the ends, extreme indexes
	maxInt := int(^uint(0) >> 1)
	for _, n := range scaleSizes(c.thorough()) {
		if !next() {
			continue
		}
		if c.expired() {
			return
		}
		d := newDocCase(intArr(n).finish(), vs)
		ixs := []int{0, 1, 2, n/2 - 1, n / 2, n - 2, n - 1, n, n + 1, 2 * n, -1, -2, -n + 1, -n, -n - 1, -2 * n, 1 << 31, 1<<31 - 1, -(1 << 31), 1 << 32, 1<<32 + 1, -(1 << 32), maxInt, maxInt - 1, -maxInt}
		if n <= 40 {
			for i := -n - 2; i <= n+2; i++ {
				ixs = append(ixs, i)
			}
		}
		for _, i := range ixs {
			c.one(path(step(idx(i))), d, vs)
		}
		c.one(path(step(wild())), d, vs)
		o := newDocCase(bigObj(n).finish(), vs)
		c.one(path(step(wild())), o, vs)
		for _, i := range []int{0, n / 2, n - 1, n} {
			c.one(path(step(key(fmt.Sprintf("k%d", i)))), o, vs)
		}
		// an array in an array, and what follows a wildcard
		if n <= 300 {
			rows := newDocCase(nA(intArr(n), intArr(n/2), nO("a", intArr(n))).finish(), vs)
			c.one(path(step(wild()), step(idx(n-1))), rows, vs)
			c.one(path(step(wild()), step(idx(-n))), rows, vs)
			c.one(path(step(wild()), step(wild())), rows, vs)
			objs := &Node{Kind: KArr}
			for i := 0; i < n; i++ {
				objs.Elems = append(objs.Elems, nO("a", nI(i), "b", nA(nI(i), nI(i+1))))
			}
			od := newDocCase(objs.finish(), vs)
			c.one(path(step(wild()), step(key("a"))), od, vs)
			c.one(path(step(wild()), step(key("b")), step(idx(-1))), od, vs)
			c.one(path(step(wild()), step(wild()), step(wild())), od, vs)
		}
	}
	c.giants(vs[:3], func(n int) (a, o, r []*Path) {
		for _, i := range []int{0, n / 2, 65535, 65536, n - 1, n, -1, -n, -n - 1} {
			a = append(a, path(step(idx(i))))
		}
		a = append(a, path(step(wild())))
		return a, []*Path{path(step(wild())), path(step(key("k0"))), path(step(key("k" + itoa(n-1)))), path(step(key("k" + itoa(n))))},
			[]*Path{path(step(wild()), step(wild())), path(step(wild()), step(key("a"))), path(step(wild()), step(idx(0)))}
	})
	// keys and indexes that are long
	c.twins("", "$.", "$['", "/")
	c.below(vs[:2], c.pick(5, 6), func(k string) []*Path {
		return []*Path{path(step(key(k))), path(step(wild())), path(step(key(k)), step(wild())), path(step(wild()), step(wild())), path(step(key(k)), step(key("b"))), path(step(key(k)), step(idx(0))), path(step(wild()), step(key(k))), path(step(key(k)), step(idx(-1))), path(step(wild()), step(wild()), step(wild()))}
	})
	c.nearKeys(vs[:3], func(k, other string) []*Path {
		q := &Sel{K: SKey, Key: k, Text: quote(k, '"')}
		return []*Path{path(step(key("x")), step(key(k))), path(step(key("x")), step(q)), path(step(key("y")), step(idx(0)), step(key(k)), step(key(k))), path(step(wild()), step(key(k)))}
	})
	for i, n := range giantSizes(c.thorough()) {
		if !c.mine(i) || c.expired() {
			continue
		}
		d := newDocCase(nA(intArr(n), nO("x", nI(1))).finish(), vs[:2])
		arr := d.root.Elems[0]
		for _, j := range []int{0, 9, 10, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 12345, 99999, 100000, n / 2, n - 1} {
			if j >= n {
				continue
			}
			for _, t := range []string{"$[0].%d", "$.0[%d]", "/0/%d", "$[0][0%d]", "$[0][+%d]"} {
				c.oneText(strings.Replace(t, "%d", itoa(j), 1), []*Node{arr.Elems[j]}, d, vs[:2])
			}
			c.oneText("$[0]["+itoa(j-n)+"]", []*Node{arr.Elems[j]}, d, vs[:2])
		}
	}
	// 4. depth
	depths := c.pick(160, 300)
	for _, shape := range []string{"o", "a", "oa"} {
		for _, side := range []bool{false, true} {
			for _, d := range depthSizes(depths, c.thorough()) {
				if !next() {
					continue
				}
				if c.expired() {
					return
				}
				dc := newDocCase(chain(d, shape, nNull(), side), vs)
				p, w := path(), path()
				for i := 0; i < d; i++ {
					p.Steps = append(p.Steps, chainStep(i, shape, side))
					w.Steps = append(w.Steps, p.Steps[i])
				}
				c.one(p, dc, vs)
				w.Steps[d-1] = step(wild())
				c.one(w, dc, vs)
				if d > 1 {
					// wildcards only, without siblings one match
					all := path()
					for i := 0; i < d; i++ {
						all.Steps = append(all.Steps, step(wild()))
					}
					c.one(all, dc, vs)
				}
				p.Steps = append(p.Steps, step(wild()))
				c.one(p, dc, vs)
			}
		}
	}
}

func init() {
	checks["C01"] = &check{run: checkC01, bounds: func(t bool) map[string]any {
		d, n, depth := 4, 5, 160
		if t {
			d, n, depth = 5, 6, 300
		}
		return map[string]any{"document_nodes": n, "path_steps": d, "step_alphabet": 15, "array_lengths": len(scaleSizes(t)), "nesting": depth, "special_keys": len(specialKeys), "models": []string{"strict model with node identity", "MapModel"}}
	}}
}
