package main

import "strings"

// nearStrings are groups of long strings of which every two differ in one
// place only: at the start, in the middle, at the end, in length, in case, in
// white space around them
func nearStrings(thorough bool) (out [][]string) {
	sizes := []int{3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 50, 63, 64, 65, 80, 96, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2000, 2048, 2049, 4095, 4096, 4097, 5000, 8193}
	if thorough {
		sizes = nil
		for i := 2; i <= 300; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 400, 511, 512, 513, 600, 700, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 16385, 32768, 32769, 65535, 65536, 65537)
	}
	for _, n := range sizes {
		b := strings.Repeat("k", n)
		at := func(i int) string { return b[:i] + "j" + b[i+1:] }
		g := []string{b, at(0), at(n / 4), at(n / 2), at(n - 2), at(n - 1), at(n-1) + "j", b[1:], b + "k", b + " ", " " + b, b + "\n", b + "\x00", "K" + b[1:], b[1:] + "K", b[1:] + "é", b + "\u0301", strings.ToUpper(b), b[2:] + "'", b[2:] + `"\`, b + "_", b + "1"}
		have := map[string]bool{}
		u := g[:0]
		for _, s := range g {
			if !have[s] {
				have[s] = true
				u = append(u, s)
			}
		}
		out = append(out, u)
	}
	return
}

// nearKeys evaluates paths made of long keys on documents in which they are
// next to their like
func (c *Ctx) nearKeys(vs []*variant, paths func(k, other string) []*Path) {
	for i, g := range nearStrings(c.thorough()) {
		if !c.mine(i) {
			continue
		}
		if c.expired() {
			return
		}
		obj := func(leaf func(int) *Node) *Node {
			o := &Node{Kind: KObj}
			for j, k := range g {
				o.Keys = append(o.Keys, k)
				o.Elems = append(o.Elems, leaf(j))
			}
			return o
		}
		num := func(j int) *Node { return nI(j) }
		d := newDocCase(nO("x", obj(num), "y", nA(obj(func(j int) *Node { return nO(g[j], nI(j), g[(j+1)%len(g)], nNull()) }), nO(g[i%len(g)], nI(1)))).finish(), vs)
		for j, k := range g {
			for _, p := range paths(k, g[(j+3)%len(g)]) {
				c.one(p, d, vs)
			}
		}
	}
}

// below evaluates paths on all small documents made of a special key and an
// ordinary one, so that everything small is found below, above and next to a
// member with that name
func (c *Ctx) below(vs []*variant, n int, paths func(k string) []*Path) {
	for i, k := range specialKeys {
		if !c.mine(i) || k == "b" {
			continue
		}
		if c.expired() {
			return
		}
		ps := paths(k)
		g := &docGen{leaves: []*Node{nI(1)}, keys: []string{"b", k}, noEmpty: k != ""}
		for _, r := range g.upTo(n) {
			if !hasKey(r, k) {
				continue
			}
			d := newDocCase(r, vs)
			for _, p := range ps {
				c.one(p, d, vs)
			}
			c.count("documents below special keys", 1)
		}
	}
}

func hasKey(n *Node, k string) bool {
	for i, e := range n.Elems {
		if n.Kind == KObj && n.Keys[i] == k || hasKey(e, k) {
			return true
		}
	}
	return false
}
