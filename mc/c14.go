package main

// C14: equivalent notations

import (
	"strings"
)

// A spelling is the tokens of a step. White space is permitted between
// tokens, and before the first.
type spelling []string

// spellings of a step with the tokens of each
func spellings(st *Step) []spelling {
	var out []spelling
	dots := "."
	var pre spelling
	if st.Rec {
		dots = ".."
		pre = spelling{".."}
	}
	br := func(items ...string) spelling {
		s := append(spelling{}, pre...)
		s = append(s, "[")
		for i, x := range items {
			if i > 0 {
				s = append(s, ",")
			}
			s = append(s, x)
		}
		return append(s, "]")
	}
	if len(st.Sels) > 1 {
		var a, b, rev []string
		for _, s := range st.Sels {
			t := s.text()
			a = append(a, t)
			u := t
			if s.K == SKey {
				u = quote(s.Key, '"')
			}
			b = append(b, u)
			rev = append([]string{t}, rev...)
		}
		return []spelling{br(a...), br(b...), br(rev...)}
	}
	s := st.Sels[0]
	switch s.K {
	case SKey:
		if isIdentU(s.Key) {
			out = append(out, spelling{dots, s.Key})
		}
		out = append(out, br(quote(s.Key, '\'')), br(quote(s.Key, '"')), spelling{dots, quote(s.Key, '\'')}, spelling{dots, quote(s.Key, '"')})
	case SIdx:
		out = append(out, br(itoa(s.Idx)))
		if s.Idx >= 0 {
			out = append(out, spelling{dots, itoa(s.Idx)})
		}
	case SWild:
		out = append(out, spelling{dots, "*"}, br("*"))
	default:
		out = append(out, br(s.text()))
	}
	return out
}

func isIdentU(s string) bool {
	switch s {
	case "", "in", "null", "true", "false", "$":
		return false
	}
	for i, r := range s {
		if i == 0 && !identStart(r) || !identPart(r) {
			return false
		}
	}
	return true
}

func isDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

// joinTokens writes a path. gap(i) is the white space before token i, at
// the end i is the number of tokens. It returns "" if the tokens would
// run together.
func joinTokens(root string, toks []string, gap func(i int) string) string {
	var b strings.Builder
	b.WriteString(root)
	for i, t := range toks {
		g := gap(i)
		if i > 0 && g == "" && t == "." && isDigits(toks[i-1]) && i+1 < len(toks) && isDigits(toks[i+1]) && gap(i+1) == "" {
			return "" // 1.5
		}
		b.WriteString(g)
		b.WriteString(t)
	}
	b.WriteString(gap(len(toks)))
	return b.String()
}

func noGap(int) string { return "" }

func checkC14(c *Ctx) {
	vs := []*variant{vPtr}
	vm := []*variant{vPtr, vMap}
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	// documents
	mk := func(n *Node) *docCase { return newDocCase(n.finish(), vm) }
	var docs []*docCase
	in1 := nO("b", nI(1), "a", nA(nI(0), nO("a", nI(2), "b", nS("s")), nA(nI(3), nI(1))), "a-b", nO("a", nNull(), "a-b", nI(1)))
	for _, r := range []*Node{
		in1, nA(in1, nI(1), nA(in1, nA(nI(5), nI(6))), nO("a", nO("a", nI(1)), "b", nA(nI(1), nI(2), nI(3)))),
		nO("a", in1, "b", nA(in1, in1), "a-b", in1), nA(nA(nI(1), nI(2)), nA(nA(nI(3), nA(nI(4))), nO("b", nNull()))),
		nO("a", nNull()), nO("b", nO("a", nS("a")), "a", nO("b", nS("b"), "a", nO("a", nA()))), nI(1), nA(), nO(),
	} {
		docs = append(docs, mk(r))
	}
	a1 := bin("==", eCur(step(key("a"))), eInt(1))
	steps := []*Step{
		step(key("a")), step(key("b")), step(key("a-b")), step(idx(0)), step(idx(1)), step(idx(-1)), step(wild()),
		rec(key("a")), rec(idx(0)), rec(wild()), rec(idx(-1)), rec(key("a-b")), step(slc(nil, nil, nil)), step(slc(eInt(1), nil, nil)), step(slc(nil, nil, eInt(-1))), rec(slc(nil, eInt(1), nil)),
		step(key("a"), key("b")), step(idx(0), key("b"), wild()), rec(key("a"), idx(1)), step(filt(eCur(step(key("a"))))), step(filt(a1)), rec(filt(eCur(step(key("b"))))), step(slc(eInt(0), eInt(1), nil), filt(a1), key("b")),
	}
	spells := map[*Step][]spelling{}
	for _, s := range steps {
		spells[s] = spellings(s)
	}
	eval := func(p *Path, root string, toks []string, gap func(int) string, ds []*docCase) {
		t := joinTokens(root, toks, gap)
		if t == "" || c.expired() {
			return
		}
		c.enter("parse", t)
		gp, err, pan := parse(t)
		if err != nil || pan != "" {
			c.violate("query", t, QSeq{Path: quoted(t)}, "Parse("+quoted(t)+"): "+errText(err)+pan)
			return
		}
		for _, d := range ds {
			if w, ok := p.eval(d.root, d.root); ok {
				c.evalOne(t, gp, w, d, vs)
			}
		}
	}
	one := func(g string) func(int) string { return func(int) string { return g } }
	at := func(k int, g string) func(int) string {
		return func(i int) string {
			if i == k {
				return g
			}
			return ""
		}
	}
	gaps := []string{" ", "\t", "\n", "\r", "  ", " \t\r\n "}
	// white space everywhere, at every single place, and at every place but one
	allGaps := func(p *Path, toks []string, ds []*docCase, full bool) {
		eval(p, "$", toks, noGap, ds)
		eval(p, "$", toks, one(" "), ds)
		eval(p, "$", toks, one("\n\t"), ds)
		for k := 0; k <= len(toks); k++ {
			for gi, g := range gaps {
				if gi == 0 || full {
					eval(p, "$", toks, at(k, g), ds)
				}
			}
			if full {
				k := k
				eval(p, "$", toks, func(i int) string {
					if i == k {
						return ""
					}
					return " "
				}, ds)
			}
		}
	}
	// 1. all paths of up to three steps in all spellings
	var rec3 func(p *Path, toks []string)
	rec3 = func(p *Path, toks []string) {
		n := len(p.Steps)
		if n > 0 && (n > 1 || c.k == 0) {
			ds := docs
			if n == 3 {
				ds = docs[:6]
			}
			if n <= 2 {
				allGaps(p, toks, ds, n == 1 || c.thorough())
			} else if c.thorough() {
				eval(p, "$", toks, noGap, ds)
				eval(p, "$", toks, one(" "), ds)
			} else {
				eval(p, "$", toks, one([]string{"", " "}[len(toks)%2]), ds)
			}
		}
		if n == 3 {
			return
		}
		for si, s := range steps {
			if n == 2 && !c.thorough() && si%3 != len(toks)%3 {
				continue
			}
			for _, sp := range spells[s] {
				if n == 1 && !mine() {
					continue
				}
				np := &Path{Steps: append(append([]*Step{}, p.Steps...), s)}
				rec3(np, append(append([]string{}, toks...), sp...))
			}
		}
	}
	rec3(path(), nil)
	// 2. a trailing .. means ..*
	for _, s := range steps {
		for _, sp := range spells[s] {
			if !mine() {
				continue
			}
			p := path(s, rec(wild()))
			allGaps(p, append(append([]string{}, sp...), ".."), docs, true)
		}
	}
	if c.mine(0) {
		allGaps(path(rec(wild())), []string{".."}, docs, true)
		allGaps(path(), nil, docs, true)
	}
	// 3. paths in filters
	for _, curP := range []bool{true, false} {
		for _, s := range steps {
			for _, s2 := range append([]*Step{nil}, steps[:8]...) {
				if !mine() {
					continue
				}
				for _, sp := range spells[s] {
					sps := []spelling{nil}
					ip := &Path{Cur: curP, Steps: []*Step{s}}
					if s2 != nil {
						sps = spells[s2]
						ip.Steps = append(ip.Steps, s2)
					}
					root := "$"
					if curP {
						root = "@"
					}
					for _, sp2 := range sps {
						toks := append(append([]string{}, sp...), sp2...)
						for gi, g := range []func(int) string{noGap, one(" "), at(len(toks)-1, "\n"), at(0, "\t ")} {
							if gi > 1 && s2 != nil && !c.thorough() {
								continue
							}
							// no white space before the closing parenthesis
							t := joinTokens(root, toks, func(i int) string {
								if i == len(toks) {
									return ""
								}
								return g(i)
							})
							if t == "" || c.expired() {
								continue
							}
							for _, outer := range []*Step{step(filt(ePath(ip))), rec(filt(ePath(ip))), step(filt(un("!", ePath(ip)))), step(filt(bin("==", ePath(ip), eInt(1))))} {
								p := path(outer)
								txt := p.text()
								old := ip.text()
								txt = strings.Replace(txt, old, t, 1)
								eval(p, txt, nil, noGap, docs[:7])
							}
						}
					}
				}
			}
		}
	}
	// keys that have to be quoted: all spellings, next to all other such keys
	cd := confusables(vm)
	odd := append(append([]string{}, specialKeys...), "b", "x", "a  b", "\ta", "a\t", "\n", " a ", "'a'", "\"a\"", "''", "\"\"", " '", "\" ", " \"", "' \"", "\\'", "\\\"", "a\\", "\\\\", "[", "]", "['a']", "[*]", "a]", "a['b']", "..a", ".a", "a.", "a..b", ", ", "a,b", "a','b", "a\",\"b", "?(@)", "0:1", "1,2", "(", ")", "$..*", "//", "\u00a0", "\u3000", "a\u00a0", "\u2029")
	oo := &Node{Kind: KObj}
	for i, k := range odd {
		oo.Keys, oo.Elems = append(oo.Keys, k), append(oo.Elems, nO("v", nI(i), k, nA(nI(i), nO(k, nI(1)))))
	}
	od := newDocCase(nA(oo, nO("x", oo)).finish(), vm)
	top := od.root.Elems[0]
	for i, k := range odd {
		if !mine() || c.expired() {
			continue
		}
		x := top.child(k)
		y := od.root.Elems[1].Elems[0].child(k)
		yi := y.child(k)
		forms := []string{quote(k, '\''), quote(k, '"')}
		if isIdentU(k) {
			forms = append(forms, "")
		}
		for fi, f := range forms {
			brs := []string{"[" + f + "]", "[ " + f + " ]", "[\n" + f + "\t]", "." + f, ". " + f, " . " + f, " [" + f + "]"}
			recs := []string{"..[" + f + "]", ".." + f, ".. " + f, "..[ " + f + " ]", " .. [" + f + "]"}
			if f == "" {
				brs, recs = []string{"." + k, " . " + k}, []string{".." + k, " .. " + k}
			}
			var all []*Node
			for _, n := range allNodes(od.root) {
				if n.Parent != nil && n.Parent.Kind == KObj && n.Name == k {
					all = append(all, n)
				}
			}
			for _, b := range brs {
				c.oneText("$[0]"+b, []*Node{x}, od, vm)
				c.oneText("$[1].x"+b+b+"[0]", []*Node{yi.Elems[0]}, od, vs)
				c.oneText("$[0]"+b+".v", []*Node{x.child("v")}, od, vs)
				c.oneText("$[0]"+b+".*", x.Elems, od, vs)
				c.oneText("$[?(@.x"+strings.TrimRight(b, " ")+".v == "+itoa(i)+")]", []*Node{od.root.Elems[1]}, od, vs)
			}
			if k != "v" && !digitKey(k) {
				for _, b := range recs {
					c.oneText("$"+b, all, od, vm)
				}
				if f != "" {
					c.oneText("$..["+f+" , 'nokey']", all, od, vs)
					c.oneText("$..['nokey',"+f+"]", all, od, vs)
				}
			}
			if f != "" {
				// simple paths
				for _, s := range []string{"/0/" + f, "/0/" + f + " "} {
					c.oneText(s, []*Node{x}, od, vm)
				}
				c.oneText("/1/x/"+f+"/"+f+"/1/"+f, []*Node{yi.Elems[1].child(k)}, od, vs)
				// unions with another key, in both quotes
				k2 := odd[(i+fi+5)%len(odd)]
				w := []*Node{x, top.child(k2)}
				if w[0].ID > w[1].ID {
					w[0], w[1] = w[1], w[0]
				}
				for _, g := range []string{quote(k2, '\''), quote(k2, '"')} {
					for _, u := range []string{"[" + f + "," + g + "]", "[ " + g + " , " + f + " ]", "[" + g + ",\n" + f + "]"} {
						c.oneText("$[0]"+u, w, od, vs)
					}
				}
			}
		}
		for _, s := range []*Step{step(key(k)), step(&Sel{K: SKey, Key: k, Text: quote(k, '"')}), {Sels: []*Sel{key(k)}, Text: "." + quote(k, '"')}, {Sels: []*Sel{key(k)}, Text: "." + quote(k, '\'')}} {
			c.one(path(step(wild()), s), cd, vs)
			c.one(path(rec(wild()), s), cd, vs)
		}
	}
	// 4. every identifier
	obj := func(k string) *docCase {
		var n *Node
		if k != "a" && k != "b" {
			n = nO("b", nI(1), k, nO("a", nI(2), k, nI(4)), "a", nI(3))
		} else {
			n = nO(k, nO(k, nI(4)))
		}
		return newDocCase(n.finish(), vm)
	}
	ident := func(k string, all bool) {
		if !isIdentU(k) || c.expired() {
			return
		}
		d := obj(k)
		x := d.root.child(k)
		y := x.child(k)
		c.oneText("$."+k, []*Node{x}, d, vs)
		c.oneText("$.."+k, []*Node{x, y}, d, vs)
		c.oneText("/"+k+"/"+k, []*Node{y}, d, vs)
		if all {
			c.oneText("$['"+k+"']", []*Node{x}, d, vs)
			c.oneText("$[\""+k+"\"]."+k, []*Node{y}, d, vs)
			c.oneText("$.'"+k+"'.\""+k+"\"", []*Node{y}, d, vs)
			c.oneText("$."+k+"['"+k+"']", []*Node{y}, d, vs)
			c.oneText("$[?(@."+k+")]", []*Node{x}, d, vm)
			c.oneText("$[?(@."+k+" == 4)]", []*Node{x}, d, vm)
			c.oneText("$."+k+"."+k, []*Node{y}, d, vs)
			c.oneText("$ . "+k+" . "+k+" ", []*Node{y}, d, vs)
		}
	}
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff || !identPart(r) || isNewer(r) || !mine() {
			continue
		}
		if r > 0x3000 && !c.thorough() && r%16 != 0 {
			continue
		}
		ident(string(r), r < 0x400 || c.thorough())
		ident("a"+string(r), r < 0x400 || c.thorough())
		ident(string(r)+"1", false)
		if r < 0x3000 {
			ident("_"+string(r)+"-z", false)
		}
	}
	// code points left out above, many in one identifier
	var b strings.Builder
	n := 0
	for r := rune(0x3000); r <= 0x10ffff; r++ {
		if !identPart(r) || isNewer(r) {
			continue
		}
		if n++; n%40 == 1 {
			if mine() {
				ident("a"+b.String(), false)
			}
			b.Reset()
		}
		b.WriteRune(r)
	}
	ident("a"+b.String(), false)
	// all identifiers over some characters, and all words near the reserved ones
	alpha := []string{"a", "Z", "_", "$", "-", "0", "9", "e", "x", "é", "日", "\u0301", "\u200d", "\u203f", "٣", "in", "null", "true", "false", "length"}
	var rec func(n int, s string)
	rec = func(n int, s string) {
		if n > 0 {
			ident(s, n <= 2)
		}
		if n == c.pick(3, 4) {
			return
		}
		for _, a := range alpha {
			if n == 1 && !mine() {
				continue
			}
			rec(n+1, s+a)
		}
	}
	rec(0, "")
	for _, n := range []int{10, 64, 128, 129, 256, 1000, 5000} {
		for _, a := range alpha {
			if mine() {
				ident("a"+strings.Repeat(a, n), true)
			}
		}
	}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func init() {
	checks["C14"] = &check{run: checkC14, bounds: func(t bool) map[string]any {
		return map[string]any{"steps": 23, "path_steps": 3, "white_space": "none, everywhere, at each single place", "identifier_characters": "all of Unicode 15", "identifier_length": map[bool]int{false: 3, true: 4}[t]}
	}}
}
