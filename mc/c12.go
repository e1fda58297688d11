package main

// C12: MakeKeyString and Join, C13: simple paths

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	gj "github.com/bserdar/gojsonpath"
)

// KeyCase: the keys, in Go quotes, are joined or made a path of
type KeyCase struct {
	Keys []string
	Join bool
}

// nearKeys are keys that a wrongly quoted key may be taken for
func nearKeys(k string) []string {
	var out []string
	add := func(s string) {
		if s == k || !utf8.ValidString(s) {
			return
		}
		for _, o := range out {
			if o == s {
				return
			}
		}
		out = append(out, s)
	}
	add("")
	add(strings.ReplaceAll(k, "\\", ""))
	add(strings.ReplaceAll(k, "\\", "\\\\"))
	add(`"` + k + `"`)
	add("'" + k + "'")
	add(strings.Trim(k, " \t\r\n\"'"))
	add(strings.ToLower(k))
	add(strings.ToUpper(k))
	if len(k) > 0 {
		_, n := utf8.DecodeRuneInString(k)
		add(k[n:])
		add(k[:n])
		_, n = utf8.DecodeLastRuneInString(k)
		add(k[:len(k)-n])
	}
	add(k + " ")
	add("a")
	if q, err := strconv.Unquote(`"` + k + `"`); err == nil {
		add(q)
	}
	return out
}

// keyBad makes paths of keys and evaluates them
func keyBad(c *Ctx, vs []*variant, k KeyCase) (bad string, paths []string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	try := func(p string, d *docCase, w *Node) string {
		paths = append(paths, p)
		if c != nil {
			c.enter("key", jsonOf(k))
		}
		gp, err, pan := parse(p)
		if err != nil || pan != "" {
			return fmt.Sprintf("Parse(%s): %v %s", quoted(p), err, pan)
		}
		for i, v := range vs {
			got, b := search(v, d.root, d.ms[i], gp, 1000, nil)
			if b == "" {
				b = compare(v, []*Node{w}, got)
			}
			if b != "" {
				return quoted(p) + " on " + short(d.txt) + ": " + b
			}
		}
		return ""
	}
	level := func(key string, in *Node) *Node {
		o := nO()
		near := nearKeys(key)
		for i, n := range near {
			if i == len(near)/2 {
				o.Keys, o.Elems = append(o.Keys, key), append(o.Elems, in)
			}
			o.Keys, o.Elems = append(o.Keys, n), append(o.Elems, nI(i))
		}
		return o
	}
	if !k.Join {
		s := gj.MakeKeyString(k.Keys[0])
		d := newDocCase(level(k.Keys[0], nNull()).finish(), vs)
		w := d.root.child(k.Keys[0])
		if bad = try("/"+s, d, w); bad != "" {
			return bad, paths
		}
		return try("$."+s, d, w), paths
	}
	n := nI(7)
	for i := len(k.Keys) - 1; i >= 0; i-- {
		n = level(k.Keys[i], n)
	}
	d := newDocCase(n.finish(), vs)
	w := d.root
	for _, x := range k.Keys {
		w = w.child(x)
	}
	return try(gj.Join(k.Keys...), d, w), paths
}

func jsonOf(x any) string {
	b, err := json.Marshal(x)
	must(err)
	return string(b)
}

func (k KeyCase) quoted() KeyCase {
	q := KeyCase{Join: k.Join}
	for _, s := range k.Keys {
		q.Keys = append(q.Keys, quoted(s))
	}
	return q
}

func init() {
	handlers["key"] = func(raw json.RawMessage) (bool, string) {
		var q KeyCase
		must(json.Unmarshal(raw, &q))
		k := KeyCase{Join: q.Join}
		for _, s := range q.Keys {
			u, err := strconv.Unquote(s)
			if err != nil {
				u = s
			}
			k.Keys = append(k.Keys, u)
		}
		bad, _ := keyBad(nil, []*variant{vPtr, vMap}, k)
		return bad != "", bad
	}
}

func checkC12(c *Ctx) {
	c.twins("join", "")
	vs := []*variant{vPtr}
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	do := func(k KeyCase) {
		if c.expired() {
			return
		}
		bad, paths := keyBad(c, vs, k)
		c.res.Transitions += int64(len(paths))
		c.seen[hashStr(append([]string{"k"}, k.Keys...)...)] = struct{}{}
		c.sample(func() string { return fmt.Sprintf("%q -> %q", k.Keys, paths) })
		if bad != "" {
			c.violate("key", jsonOf(k.quoted()), k.quoted(), fmt.Sprintf("%q: %s", k.Keys, bad))
		}
	}
	one := func(s string) { do(KeyCase{Keys: []string{s}}) }
	// 1. every code point
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff || !mine() {
			continue
		}
		if r > 0xffff && !c.thorough() && r%8 != 0 {
			continue
		}
		one(string(r))
		if r < 0x3000 || c.thorough() {
			one("a" + string(r))
			one(string(r) + "a")
			one(string(r) + "0")
			one("_" + string(r) + "z")
		}
	}
	// code points outside the BMP, 32 in a key
	for r := rune(0x10000); r <= 0x10ffff; r += 32 {
		if !mine() {
			continue
		}
		var b strings.Builder
		for x := r; x < r+32; x++ {
			b.WriteRune(x)
		}
		one(b.String())
	}
	// 2. all strings over special characters
	alpha := []string{"a", "Z", "0", "9", "_", "-", "$", "@", "*", ".", "/", "\\", "'", "\"", " ", "\t", "\n", "\r", "\x00", "[", "]", "(", ")", "?", ",", ":", "~", "é", "日", "\u2028", "\u2029", "😀", "n", "u", "x", "b", "\u0301", "\uFEFF", "\x7f", "{", "}"}
	var rec func(n int, s string)
	rec = func(n int, s string) {
		one(s)
		if n == c.pick(3, 4) {
			return
		}
		for _, a := range alpha {
			if n == 1 && !mine() {
				continue
			}
			rec(n+1, s+a)
		}
	}
	for _, a := range alpha {
		rec(1, a)
	}
	// over the characters that need escapes, longer
	esc := []string{"\\", "'", "\"", "\n", "\r", "a", "n"}
	var rec2 func(n int, s string)
	rec2 = func(n int, s string) {
		if n > 3 {
			one(s)
		}
		if n == c.pick(5, 7) {
			return
		}
		for _, a := range esc {
			if n == 2 && !mine() {
				continue
			}
			rec2(n+1, s+a)
		}
	}
	rec2(0, "")
	// 3. words of the grammar, and literals of it
	words := []string{"", "in", "null", "true", "false", "length", "In", "IN", "NULL", "True", "inn", "i", "nul", "nulll", "in_", "_in", "in ", "0x1F", "0b1", "0o7", "1e5", "1.5", "1_0", "-1", "007", "0", "12", "1a", "a1", "..", "...", "$", "@", "*", "==", "&&", "?(", "//", "\\u0041", "\\x41", "\\n", "\\\\", "\\'", "\\\"", "'a'", "\"a\"", "a.b", "a/b", "/", "a b", "[0]", "a-b", "-a", "a-", "$a", "a$", "length()", "e\u0301", "\u0301e", "ﬀ", "ﬁ", "İ", "ß", "ſ", "K", "😀👨‍👩‍👧", "\u200C", "a\u200Db", "a\u203Fb", "\uFFFD", "\uFFFF", "\U0010FFFF", "constructor", "__proto__", "undefined", "NaN", "Infinity"}
	for _, w := range words {
		if mine() {
			one(w)
			for _, p := range alpha {
				one(p + w)
				one(w + p)
			}
		}
	}
	for _, n := range []int{1, 2, 31, 32, 33, 127, 128, 129, 255, 256, 1000, 4096} {
		for _, a := range alpha {
			if mine() {
				one(strings.Repeat(a, n))
				one(strings.Repeat("a", n) + a)
				one(strings.Repeat("a", n) + a + "'\"")
			}
		}
	}
	// 4. Join
	keys := []string{"a", "b", "", "in", "null", "0", "1.5", "a b", "a/b", "/", "'", "\"", "'\"", "\\", "\n", "é", "$", "*", "..", "0x1F", "-", "a'b", "a\\", "\\'"}
	if mine() {
		do(KeyCase{Join: true})
	}
	for _, a := range keys {
		if mine() {
			do(KeyCase{Keys: []string{a}, Join: true})
		}
		for _, b := range keys {
			if mine() {
				do(KeyCase{Keys: []string{a, b}, Join: true})
			}
			for i, d := range keys {
				if (c.thorough() || i < 12) && mine() {
					do(KeyCase{Keys: []string{a, b, d}, Join: true})
				}
			}
		}
	}
	for n := 4; n <= c.pick(40, 150); n++ {
		for off := range keys {
			if !mine() {
				continue
			}
			k := KeyCase{Join: true}
			for i := 0; i < n; i++ {
				k.Keys = append(k.Keys, keys[(i*(1+off%5)+off)%len(keys)])
			}
			if off%2 == 0 || n <= 12 {
				do(k)
			}
		}
	}
}

// ---------------------------------------------------------------- C13

type comp struct {
	text string
	sel  *Sel
}

func simpleComps() []comp {
	k := func(t string) comp { return comp{t, key(t)} }
	q := func(s string) comp { return comp{quote(s, '"'), key(s)} }
	q1 := func(s string) comp { return comp{quote(s, '\''), key(s)} }
	n := func(t string, i int) comp { return comp{t, &Sel{K: SNumComp, Key: t, Idx: i}} }
	return []comp{
		k("a"), k("b"), k("c"), {"*", wild()}, n("0", 0), n("1", 1), n("2", 2), n("3", 3), n("007", 7), n("00", 0), n("01", 1), k("null"), k("true"), k("false"), {"1.0", &Sel{K: SKey, Key: "1.0"}}, {"1e2", &Sel{K: SKey, Key: "1e2"}},
		q("a"), q1("b"), q(""), q("a/b"), q("*"), q1("null"), q("a b"), q1("it's"), k("length"), k("a_b"), k("a-b"), k("é"), k("$a"), k("nullx"), k("A"), n("0x1", 1), n("1_0", 10), q1("a.b"), q("$"), k("inner"),
	}
}

func checkC13(c *Ctx) {
	vs := []*variant{vPtr, vMap, vMapI}
	comps := simpleComps()
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	// documents with all keys, and with none, at every level
	full := func(in *Node) *Node {
		o := nO()
		have := map[string]bool{}
		for i, x := range comps {
			if x.sel.K == SWild || have[x.sel.Key] {
				continue
			}
			have[x.sel.Key] = true
			ch := in
			if ch == nil {
				ch = nI(i)
			}
			o.Keys, o.Elems = append(o.Keys, x.sel.Key), append(o.Elems, ch)
		}
		// what a component must not be taken for
		for _, k := range []string{"<nil>", "nil", "7", "1", "1.00", "100", "16", "10", "\"a\"", "/", "key", "'b'"} {
			if !have[k] {
				o.Keys, o.Elems = append(o.Keys, k), append(o.Elems, nS(k))
			}
		}
		return o
	}
	arr := func(n int, in *Node) *Node {
		a := nA()
		for i := 0; i < n; i++ {
			if in == nil {
				a.Elems = append(a.Elems, nI(i*10))
			} else {
				a.Elems = append(a.Elems, in)
			}
		}
		return a
	}
	g := stdGen()
	var docs []*docCase
	for _, r := range []*Node{
		full(nil), full(full(nil)), full(arr(9, nil)), arr(9, full(nil)), arr(12, arr(2, nil)), arr(2, full(arr(3, nil))), full(arr(2, full(nil))), nS("a"), nNull(), nA(), nO(), nO("a", nNull()), nO("a", nNull(), "null", nI(1)), nA(nNull()), nA(nI(0), nO("a", nA(nI(1), nI(2)), "b", nI(3))),
	} {
		docs = append(docs, newDocCase(r.finish(), vs))
	}
	for _, r := range g.upTo(c.pick(4, 5)) {
		docs = append(docs, newDocCase(r, vs))
	}
	big := len(docs)
	do := func(cs []comp, sep func(i int) string, ds []*docCase) {
		p := path()
		t := ""
		for i, x := range cs {
			p.Steps = append(p.Steps, step(x.sel))
			if i == 0 {
				t = "/" + x.text
			} else {
				t += sep(i) + x.text
			}
		}
		t += sep(0)
		gp, err, pan := parse(t)
		c.enter("parse", t)
		if err != nil || pan != "" {
			c.violate("query", t, QSeq{Path: quoted(t)}, fmt.Sprintf("Parse(%s): %v %s", quoted(t), err, pan))
			return
		}
		for _, d := range ds {
			w, ok := p.eval(d.root, d.root)
			if !ok {
				continue
			}
			c.evalOne(t, gp, w, d, vs)
		}
	}
	plain := func(i int) string {
		if i == 0 {
			return ""
		}
		return "/"
	}
	// 1. all sequences of components
	max := c.pick(3, 4)
	var rec func(cs []comp)
	rec = func(cs []comp) {
		if c.expired() {
			return
		}
		ds := docs[:15]
		if len(cs) <= 2 {
			ds = docs[:big]
		}
		if len(cs) > 0 && (len(cs) != 1 || c.k == 0) {
			if len(cs) < 4 {
				do(cs, plain, ds)
			} else {
				do(cs, plain, docs[len(cs)%4:7])
			}
		}
		if len(cs) == max {
			return
		}
		for i, x := range comps {
			if len(cs) == 1 && !mine() {
				continue
			}
			if len(cs) == 3 && i > 16 {
				break
			}
			rec(append(cs[:len(cs):len(cs)], x))
		}
	}
	rec(nil)
	// the root
	if c.mine(3) {
		for _, t := range []string{"/", "/ ", "/\n"} {
			for _, d := range docs {
				c.oneText(t, []*Node{d.root}, d, vs)
			}
		}
	}
	// 2. white space between components
	for _, x := range comps {
		for _, y := range comps[:20] {
			for _, s := range []string{" /", "/ ", " / ", "\t/\n", "\r\n/  "} {
				if !mine() {
					continue
				}
				do([]comp{x, y}, func(i int) string {
					if i == 0 {
						return ""
					}
					return s
				}, docs[:15])
				do([]comp{x, y}, func(i int) string {
					if i == 0 {
						return " \n"
					}
					return "/"
				}, docs[:3])
			}
		}
	}
	// every identifier over some characters as a component
	alpha := []string{"a", "Z", "_", "$", "-", "0", "9", "e", "x", "é", "日", "\u0301", "\u200d", "\u203f", "٣", "in", "null", "true", "length"}
	var words func(n int, s string)
	words = func(n int, s string) {
		if n > 0 && isIdentU(s) && !c.expired() {
			o := nO("b", nI(1))
			add := func(k string, v *Node) {
				for _, x := range o.Keys {
					if x == k {
						return
					}
				}
				o.Keys, o.Elems = append(o.Keys, k), append(o.Elems, v)
			}
			add(s, nO("q", nI(9), s, nA(nI(4), nO(s, nNull()))))
			// what it must not be taken for
			rs := []rune(s)
			for _, k := range []string{s + "-", s + "_", s + "a", "$" + s, "_" + s, string(rs[1:]), string(rs[:len(rs)-1]), strings.ToLower(s), strings.ToUpper(s), strings.Trim(s, "-_$"), strings.ReplaceAll(s, "_", "-"), strings.ReplaceAll(s, "-", "_"), "'" + s + "'", ""} {
				add(k, nA(nS(k)))
			}
			d := newDocCase(nO("w", o).finish(), vs)
			x := d.root.Elems[0].child(s)
			y := x.child(s)
			c.oneText("/w/"+s, []*Node{x}, d, vs)
			c.oneText("/w/"+s+"/"+s, []*Node{y}, d, vs[:1])
			c.oneText("/*/"+s+"/"+s+"/1/"+s+" ", []*Node{y.Elems[1].Elems[0]}, d, vs[:1])
			c.oneText("/"+s, nil, d, vs[:1])
			c.oneText("/w / "+s+" /*", x.Elems, d, vs[:1])
		}
		if n == c.pick(3, 4) {
			return
		}
		for _, a := range alpha {
			if n == 1 && !mine() {
				continue
			}
			words(n+1, s+a)
		}
	}
	words(0, "")
	// 3. every index of arrays of every size, every depth
	for _, n := range scaleSizes(c.thorough()) {
		if n > 1100 || !mine() {
			continue
		}
		d := newDocCase(intArr(n).finish(), vs)
		for _, i := range []int{0, 1, n / 2, n - 2, n - 1, n, n + 1, 10 * n, 1 << 40} {
			if i >= 0 {
				w, _ := path(step(idx(i))).eval(d.root, d.root)
				c.oneText("/"+itoa(i), w, d, vs)
				c.oneText("/00"+itoa(i), w, d, vs)
			}
		}
		c.oneText("/*", d.root.Elems, d, vs)
	}
	for _, n := range giantSizes(c.thorough()) {
		if !mine() || c.expired() {
			continue
		}
		d := newDocCase(nA(intArr(n), bigObj(n)).finish(), vs[:2])
		for _, i := range []int{0, 9, 99, 999, 1001, 9999, 10001, 12345, 65535, 65536, 99999, n / 2, n - 1, n} {
			var w []*Node
			if i < n {
				w = d.root.Elems[0].Elems[i : i+1]
			}
			c.oneText("/0/"+itoa(i), w, d, vs[:2])
			c.oneText("/*/"+itoa(i), w, d, vs[:2])
			if i < n {
				w = []*Node{d.root.Elems[1].child("k" + itoa(i))}
			}
			c.oneText("/1/k"+itoa(i), w, d, vs[:2])
		}
		c.oneText("/1/*", d.root.Elems[1].Elems, d, vs[:2])
		c.oneText("/0/*", d.root.Elems[0].Elems, d, vs[:2])
	}
	// long keys next to their like
	for _, g := range nearStrings(c.thorough()) {
		if !mine() || c.expired() {
			continue
		}
		o := &Node{Kind: KObj}
		for j, k := range g {
			o.Keys, o.Elems = append(o.Keys, k), append(o.Elems, nA(nI(j)))
		}
		d := newDocCase(nO("w", o, g[0], nI(1)).finish(), vs)
		o = d.root.Elems[0]
		for j, k := range g {
			c.oneText("/w/"+quote(k, '"'), []*Node{o.Elems[j]}, d, vs)
			c.oneText("/*/"+quote(k, '\'')+"/0", o.Elems[j].Elems, d, vs)
			if isIdentU(k) {
				c.oneText("/w/"+k, []*Node{o.Elems[j]}, d, vs)
			}
		}
	}
	// the same component again and again, the same key below itself
	for depth := 2; depth <= c.pick(70, 300); depth++ {
		if !mine() || c.expired() {
			continue
		}
		for _, x := range []comp{comps[0], comps[3], comps[4], comps[16], comps[21], {"007", &Sel{K: SNumComp, Key: "007", Idx: 7}}} {
			var cs []comp
			r := nO("a", nI(1), "0", nI(2), "b", nI(3))
			for i := 0; i < depth; i++ {
				cs = append(cs, x)
				switch x.sel.K {
				case SKey:
					r = nO(x.sel.Key, r, "zz", nI(i))
				case SWild:
					if i%2 == 0 {
						r = nA(r)
					} else {
						r = nO("q", r)
					}
				default:
					r = nA(nI(0), nI(1), r, nI(3), nI(4), nI(5), nI(6), nI(7))
					r.Elems[x.sel.Idx], r.Elems[2] = r.Elems[2], r.Elems[x.sel.Idx]
				}
			}
			d := newDocCase(r.finish(), vs)
			do(cs, plain, []*docCase{d})
			do(cs[1:], plain, []*docCase{d})
			do(append(cs[:depth:depth], comps[0]), plain, []*docCase{d})
			do(append(cs[:depth:depth], comps[3]), plain, []*docCase{d})
			do(append(cs[:depth-1:depth-1], comps[3]), plain, []*docCase{d})
			do(append([]comp{comps[3]}, cs[1:]...), plain, []*docCase{d})
		}
	}
	for _, depth := range depthSizes(c.pick(150, 300), c.thorough()) {
		if !mine() {
			continue
		}
		for _, shape := range []string{"o", "a", "oa"} {
			d := newDocCase(chain(depth, shape, nNull(), true), vs)
			t, s := "", ""
			for i := 0; i < depth; i++ {
				if shape[i%len(shape)] == 'o' {
					t += "/a"
				} else {
					t += "/1"
				}
				s = t
			}
			n := d.root
			for i := 0; i < depth; i++ {
				n = n.Elems[1]
			}
			c.oneText(t, []*Node{n}, d, vs)
			c.oneText(s+"/a", nil, d, vs)
			k := strings.LastIndex(s, "/")
			c.oneText(s[:k]+"/*", n.Parent.Elems, d, vs)
		}
	}
}

func init() {
	checks["C12"] = &check{run: checkC12, bounds: func(t bool) map[string]any {
		n, m := 3, 5
		if t {
			n, m = 4, 7
		}
		return map[string]any{"code_points": "all", "special_characters": 41, "string_length": n, "escape_string_length": m, "join_length": "all lists up to 3, up to 40"}
	}}
	checks["C13"] = &check{run: checkC13, bounds: func(t bool) map[string]any {
		n := 3
		if t {
			n = 4
		}
		return map[string]any{"components": len(simpleComps()), "path_components": n}
	}}
}
