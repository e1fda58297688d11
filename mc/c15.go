package main

// C15: Parse accepts what the grammar derives, and nothing else.
// C16: no panics, whatever is parsed and evaluated.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

func grammarBad(in string) (bad string, derived, skip bool) {
	yes, unknown := derives(in)
	if unknown {
		return "", false, true
	}
	p, err, pan := parse(in)
	if pan != "" {
		return "Parse(" + quoted(in) + "): " + pan, yes, false
	}
	var se gj.ErrSyntax
	switch {
	case !yes && err == nil:
		return "Parse(" + quoted(in) + ") succeeds, though the grammar does not derive it", yes, false
	case !yes && !errors.As(err, &se):
		return "Parse(" + quoted(in) + ") fails, but not with an ErrSyntax: " + err.Error(), yes, false
	case yes && errors.As(err, &se):
		return "Parse(" + quoted(in) + ") reports a syntax error, though the grammar derives it: " + err.Error(), yes, false
	}
	if !yes {
		for _, m := range []gj.DocModel{probeDoc} {
			if got := mustFind(m, p); got != 0 {
				return fmt.Sprintf("Parse(%s) fails, but returns a path that selects %d nodes", quoted(in), got), yes, false
			}
		}
	}
	return "", yes, false
}

var probeDoc = gj.MapModel{Doc: map[string]any{"a": []any{1, map[string]any{"a": 1.0}}, "b": "x"}}

func mustFind(m gj.DocModel, p gj.Path) (n int) {
	defer func() {
		if recover() != nil {
			n = -1
		}
	}()
	r, _ := gj.Find(m, p)
	return len(r)
}

// deepDoc is a search in a document of objects and arrays in turn, nested
// Depth deep, whose innermost object has the only key b
type deepDoc struct {
	Depth int
	Text  string
}

func (a deepDoc) run() (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	var x any = map[string]any{"b": 1}
	leaf := x
	for i := a.Depth - 1; i >= 0; i-- {
		if i%2 == 0 {
			x = map[string]any{"a": x}
		} else {
			x = []any{x, i}
		}
	}
	p, err, pan := parse(a.Text)
	if err != nil || pan != "" {
		return fmt.Sprintf("Parse(%q): %v %s", a.Text, err, pan)
	}
	n := 0
	err = gj.Search(gj.MapModel{Doc: x}, p, func(d gj.DocPath) {
		n++
		if last := d.Last(); d.Len() == a.Depth+2 && (last.Name != "b" || last.Node != any(1)) {
			bad = "the match is not the member b"
		} else if d.Len() == a.Depth+1 && !sameNode(last.Node, leaf) {
			bad = "the match is not the innermost object"
		} else if d.Len() <= a.Depth {
			bad = "a match that does not exist"
		}
	})
	switch {
	case err != nil:
		return "error: " + err.Error()
	case bad == "" && n != 1:
		return fmt.Sprintf("%d matches instead of one", n)
	}
	return bad
}

// deepDocs searches documents that are nested deeper than any other
func (c *Ctx) deepDocs() {
	k := 0
	for _, n := range []int{2047, 2048, 4096, 4097, 9999, 10000, 10001, c.pick(16385, 32769), c.pick(20001, 65537)} {
		for _, t := range []string{"$..b", "$..[?(@.b)]", "$..['x','b']", "$..[?(@.b==1),?(@.x)]"} {
			if k++; !c.mine(k) || c.expired() {
				continue
			}
			a := deepDoc{n, t}
			c.enter("deepdoc", jsonOf(a))
			c.count("searches in documents nested 2047 and deeper", 1)
			if bad := a.run(); bad != "" {
				c.violate("deepdoc", t, a, fmt.Sprintf("%s in a document nested %d deep: %s", t, n, bad))
			}
		}
	}
}

func init() {
	handlers["deepdoc"] = func(raw json.RawMessage) (bool, string) {
		var a deepDoc
		must(json.Unmarshal(raw, &a))
		b := a.run()
		return b != "", b
	}
}

func init() {
	handlers["grammar"] = func(raw json.RawMessage) (bool, string) {
		var a struct{ Input string }
		must(json.Unmarshal(raw, &a))
		in, err := strconv.Unquote(a.Input)
		must(err)
		bad, _, _ := grammarBad(in)
		return bad != "", bad
	}
}

// what a token is spelled as in the enumerations
var tokAlphabet = []string{"$", "@", "*", "a", "'b'", "1", "[", "]", "(", ")", "?(", ",", ":", ".", "..", "+", "-", "!", "==", "in", "&&", "/", " ", "<", "null"}
var charAlphabet = []string{"$", "@", "*", "a", "n", "i", "'", "\"", "1", "0", "x", "e", "_", "[", "]", "(", ")", "?", ",", ":", ".", "+", "-", "!", "=", "&", "/", "\\", " ", "\n", "<", "|", "#", "u", "{", "}", "é", "\x00", ";"}

// well-formed paths with every construct of the grammar
var corpus = []string{
	"$", "$.a", "$['a']", `$["a"]`, "$..a", "$..", "$.*", "$[*]", "$..*", "$[0]", "$[-1]", "$[1:2]", "$[:]", "$[::]", "$[::2]", "$[1:2:3]", "$[1:]", "$[:1]", "$[1::-1]", "$['a','b']", "$[0,1:2,'a',*]", "$..[0]", "$..['a',1:]",
	"$[?(@.a)]", "$[?(@.a==1)]", "$[?(@.a && !@.b || @ in [1,'x'])]", "$[?(length(@.a) > 1)]", "$[?(@.a.length() >= 1.5e3)]", "$[?((@.a + 1) * -2 ** 3 % 4 / 5 - 6 <= 0x1F)]", "$[?(@.a[?(@.b)].c)]", "$[?($.a != @..b)]", "$[?(@[0:@.length()])]",
	"$ . a [ 'b' , 0 ] .. c ", "$[(@.length()-1)]", "$.'a b'.\"c\"", "$.a.b.c.d.e", "$..a..b..", "@.a", "@", "a", "'a'.b", "$[?(@ === null || @ !== true)]", "$[?(~@ & 1 ^ 2 | 3)]", "$[?([1,,2][0])]", "$[?([])]", "$[?([,])]", "$.a(1,2,)", "$.f()", "f(@)", "$[?(f(@,1)(2))]", "[1,2]", "[]",
	"/a", "/a/b/0/*", "/'a b'/\"c\"", "/a / b", "/null/true/0x1F/1.5", "/*", "/", "$[0b1:0o7:1_0]", "$[?(@.a in $.b)]", "$[?(+@.a > - 1)]", "?(@.a)", "(1)", "-$", "!a", "$[a]", "$.in_", "$['\\u0041\\x41\\n\\'']", "$[?(@.x=='\\\n')]",
	"$.a..[?(@.b[0].c=='d' && length(@.e)>2 || @.f in [1,2,3])]['g','h',1:2]", "$[?(@.a\n==\t1)]", "$.._a-b", "$[1,2,3,4,5,6,7,8,9]", "$[@.a:@.b:@.c]", "$..a[0]..b[1:2]..['c']..[*]..",
}

// inputs enumerates the inputs of C15 and C16
func inputs(c *Ctx, f func(string)) {
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	type ctxt struct{ pre, post string }
	// 1. all token strings, alone and in the places where they can appear
	var rec func(alpha []string, max, n int, s, post string)
	rec = func(alpha []string, max, n int, s, post string) {
		f(s + post)
		if n == max || c.expired() {
			return
		}
		for _, a := range alpha {
			if n == 1 && !mine() {
				continue
			}
			rec(alpha, max, n+1, s+a, post)
		}
	}
	rec(tokAlphabet, c.pick(4, 5), 0, "", "")
	n3 := c.pick(3, 4)
	for _, x := range []ctxt{{"$", ""}, {"$[", "]"}, {"$[?(", ")]"}, {"$[0,", "]"}, {"$.a", ""}, {"$..", ""}, {"$[", ":1]"}, {"$[1:", "]"}, {"/", ""}, {"/a", ""}, {"$[?(@.a ", ")]"}, {"$[?(@ == ", ")]"}, {"$[?([", "])]"}, {"$[?(f(", "))]"}, {"$[?(@", " && 1)]"}, {"$['a'", "]"}, {"$[::", "]"}, {"$[", "].b"}} {
		rec(tokAlphabet, n3, 0, x.pre, x.post)
	}
	// 2. all character strings
	rec(charAlphabet, c.pick(3, 4), 0, "", "")
	for _, x := range []ctxt{{"$.", ""}, {"$['", "']"}, {"$[\"", "\"]"}, {"$[", "]"}, {"$[?(@==", ")]"}, {"$.a", "b"}, {"/", ""}, {"$['\\", "']"}, {"$[0", "]"}, {"$[1", ":]"}, {"$['\\u00", "']"}, {"$['\\u{", "}']"}} {
		rec(charAlphabet, c.pick(2, 3), 0, x.pre, x.post)
		rec(charAlphabet[:30], 3, 0, x.pre, x.post)
	}
	// other tokens of the grammar
	more := []string{"~", "**", "%", "<=", ">=", ">", "!=", "===", "!==", "&", "^", "|", "||", "...", "true", "0x1F", "0o7", "0b1", "1.5", "1e5", "?", "=", "\"c\"", "{", "}", ";", "#", "\\", "`", "_", "-a", "a-b", "$a", "\t", "\n", "\u00a0", "\ufeff"}
	for _, a := range append(append([]string{}, tokAlphabet...), more...) {
		for _, b := range append(append([]string{}, tokAlphabet...), more...) {
			if !mine() {
				continue
			}
			for _, x := range []ctxt{{"", ""}, {"$", ""}, {"$[", "]"}, {"$[?(@", ")]"}, {"$[?(1", "2)]"}, {"$[?(@.a", "1)]"}, {"$.a", "b"}, {"/a", "b"}, {"$['a'", "'b']"}} {
				f(x.pre + a + b + x.post)
				f(x.pre + a + x.post + b)
				f(x.pre + a + " " + b + x.post)
			}
		}
	}
	// 3. one and two mistakes in well-formed paths
	for _, p := range corpus {
		f(p)
		var cuts []int
		for i := range p {
			cuts = append(cuts, i)
		}
		cuts = append(cuts, len(p))
		ins := append(append(append([]string{}, tokAlphabet...), more...), charAlphabet...)
		for k, i := range cuts {
			if !mine() || c.expired() {
				continue
			}
			f(p[:i])
			f(p[i:])
			for _, s := range ins {
				f(p[:i] + s + p[i:])
				if k+1 < len(cuts) {
					f(p[:i] + s + p[cuts[k+1]:])
				}
			}
			for j := k + 1; j < len(cuts); j++ {
				f(p[:i] + p[cuts[j]:]) // cut out
				f(p[:i] + p[i:cuts[j]] + p[i:])
			}
			if c.thorough() {
				for j := k; j < len(cuts); j++ {
					for _, a := range tokAlphabet {
						for _, b := range tokAlphabet {
							f(p[:i] + a + p[i:cuts[j]] + b + p[cuts[j]:])
						}
					}
				}
			} else {
				for j := k; j < len(cuts); j++ {
					for _, a := range []string{"[", "]", "(", ")", "'", "\"", ",", ".", "#"} {
						f(p[:i] + a + p[i:cuts[j]] + a + p[cuts[j]:])
						if j < len(cuts)-1 {
							f(p[:i] + a + p[i:cuts[j]] + p[cuts[j+1]:])
						}
					}
				}
			}
		}
	}
	// 4. trailing and leading input
	for _, p := range corpus {
		for _, x := range []string{" ", "  ", "\n", "x", " x", "]", ")", "'", "\"", "$", "@", " $", ".", "..", "...", ",", ":", "/", "//", "#", "==", "==1", " 1", "[", "[]", "()", "&&", "!", "?", "\x00", "é", "😀", "\\", "\\\\", "{}", ";", "null", " null", "in", "in 1", "\u2028", "\u00a0", "\ufeff", "//c", "/*c*/"} {
			if mine() {
				f(p + x)
				f(x + p)
				f(p + " " + x)
				f(p + x + " ")
			}
		}
		for _, q := range corpus {
			if mine() {
				f(p + q)
				f(p + " " + q)
			}
		}
	}
	// 5. every character where an identifier may be
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff || !mine() || c.expired() {
			continue
		}
		if r > 0x3000 && r%16 != 0 && !c.thorough() {
			continue
		}
		f("$." + string(r))
		if r < 0x3000 || c.thorough() {
			f("$.a" + string(r))
			f("$['" + string(r) + "']")
			f("$['\\" + string(r) + "']")
			f("/" + string(r))
			f("$" + string(r) + ".a")
			f(string(r))
		}
	}
	// 6. unbalanced nesting
	for n := 1; n <= c.pick(30, 60); n++ {
		if !mine() || c.expired() {
			continue
		}
		for _, x := range []struct{ o, m, c string }{{"(", "@", ")"}, {"[", "1", "]"}, {"?(", "@", ")"}, {"!", "@", ""}, {"-", "1", ""}, {"f(", "@", ")"}, {"@[", "0", "]"}, {"@[?(", "@", ")]"}, {"[1,", "2", "]"}, {"@.a..", "b", ""}, {"@+", "1", ""}, {"@ in ", "@", ""}} {
			if strings.HasPrefix(x.o, "@[") && n > 9 {
				continue // the time to parse these grows exponentially
			}
			o, cl := strings.Repeat(x.o, n), strings.Repeat(x.c, n)
			for _, t := range []string{o + x.m + cl, o + cl, o + x.m + cl + x.c, o + x.o + x.m + cl, o + x.m} {
				f("$[?(" + t + ")]")
				if n < 12 {
					f(t)
					f("$[" + t + "]")
				}
			}
		}
	}
	// long inputs
	for _, n := range []int{50, 100, 300, 1000} {
		if !mine() {
			continue
		}
		for _, x := range []string{".a", "[0]", "['a']", "..a", "[*]", "[0,1]", "[1:2]", "/a", " ", ".", "1", "a", "é"} {
			f("$" + strings.Repeat(x, n))
			f("$" + strings.Repeat(x, n) + "]")
			f("$" + strings.Repeat(x, n) + "[")
			f("$" + strings.Repeat(x, n) + ")")
			f("$" + strings.Repeat(x, n) + "'")
			f("/a" + strings.Repeat(x, n))
		}
	}
}

func checkC15(c *Ctx) {
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	dup := map[uint64]struct{}{}
	inputs(c, func(in string) {
		h := hashStr(in)
		if _, ok := dup[h]; ok {
			return
		}
		dup[h] = struct{}{}
		c.enter("grammar", jsonOf(map[string]string{"Input": quoted(in)}))
		bad, derived, skip := grammarBad(in)
		if bad != "" {
			c.violate("grammar", quoted(in), map[string]string{"Input": quoted(in)}, bad)
			return
		}
		c.res.Transitions++
		switch {
		case skip:
			c.count("skipped", 1)
		case derived:
			c.count("derived", 1)
			c.sample(func() string { return "derived and accepted: " + quoted(in) })
		default:
			c.count("not_derived", 1)
		}
		c.seen[h] = struct{}{}
	})
}

// ---------------------------------------------------------------- C16

type odd struct {
	A int
	f func()
}

// oddDocs are native documents of any shape
var oddDocs = []struct {
	name string
	doc  any
}{
	{"nil", nil}, {"number", 1.5}, {"string", "ab"}, {"bool", true}, {"empty array", []any{}}, {"empty object", map[string]any{}}, {"nil map", map[string]any(nil)}, {"nil slice", []any(nil)},
	{"mixed", map[string]any{"a": []any{1.0, "x", nil, true, map[string]any{"a": 1.0, "b": nil}, []any{1, 2, []any{3}}, 1}, "b": map[string]any{"a": "1", "b": []any{}, "": nil}, "c": -1, "1": "one"}},
	{"array", []any{nil, 1, 2.5, "s", false, []any{}, map[string]any{}, []any{nil, []any{nil}}, map[string]any{"a": map[string]any{"a": map[string]any{"a": 1}}, "b": 2, "length": 3}}},
	{"odd types", map[string]any{"a": []int{1, 2}, "b": map[string]int{"a": 1}, "c": int64(5), "d": json.Number("1"), "e": odd{}, "f": func() {}, "g": []any{[]string{"x"}, struct{}{}, (*int)(nil), uint8(1), float32(1), make(chan int), complex(1, 2), errors.New("e"), []any{nil}, map[string]any{"a": []byte("x")}}}},
	{"numbers", map[string]any{"a": 2000, "b": []any{0.5, -0.5, 1 << 62, -(1 << 63), 1<<63 - 1, 1e300, -1e300, 5e-324, 0, -1, 1e19, -1e19, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 255.999, 256, 65536.5}, "x": 0.25}},
	{"bounds", []any{1e19, 0.5, -(1 << 63), math.NaN(), 3, -3.0, map[string]any{"a": 1e19}, []any{1 << 62, 1, 2}}},
	{"odd root", []string{"a", "b"}}, {"int root", 7}, {"deep", deepAny(12)},
}

func deepAny(n int) any {
	var x any = 1
	for i := 0; i < n; i++ {
		x = map[string]any{"a": []any{x, i}}
	}
	return x
}

func evalNoPanic(p gj.Path, k int) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r) + " on document " + oddDocs[k].name
		}
	}()
	n := 0
	err := gj.Search(gj.MapModel{Doc: oddDocs[k].doc}, p, func(gj.DocPath) {
		if n++; n > 5000000 {
			panic(overflow{})
		}
	})
	if err != nil {
		return "error on document " + oddDocs[k].name + ": " + err.Error()
	}
	return ""
}

func panicBad(in string) (bad string, parsed bool) {
	p, err, pan := parse(in)
	if pan != "" {
		return "Parse(" + quoted(in) + "): " + pan, false
	}
	if err != nil {
		return "", false
	}
	for k := range oddDocs {
		if b := evalNoPanic(p, k); b != "" {
			return quoted(in) + ": " + b, true
		}
	}
	return "", true
}

func init() {
	handlers["panic"] = func(raw json.RawMessage) (bool, string) {
		var a struct{ Input string }
		must(json.Unmarshal(raw, &a))
		in, err := strconv.Unquote(a.Input)
		must(err)
		for i := 0; i < 10; i++ {
			if bad, _ := panicBad(in); bad != "" {
				return true, bad
			}
		}
		return false, ""
	}
}

// oddVals are values whose Go type no filter knows, with some it does know
var oddVals = []any{[]int{1}, map[string]int{"a": 1}, odd{}, &odd{}, func() {}, int64(1), json.Number("1"), float32(1), uint8(3), []string{"a"}, map[any]any{1: 2}, [2]any{[]int{1}, 2}, struct{ X any }{[]int{1}}, complex(1, 1), []byte("a"), make(chan int), errors.New("e"), (*int)(nil), 1, 1.5, "a", nil, true, []any{}, map[string]any{}, []any{[]int{1}}, map[string]any{"a": func() {}}}

// OddPair is an evaluation with two of them
type OddPair struct {
	I, J  int
	Query string // quoted
}

func (k *OddPair) bad(p gj.Path) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
		if bad != "" {
			bad = fmt.Sprintf("%s with x a %T and y a %T: %s", k.Query, oddVals[k.I], oddVals[k.J], bad)
		}
	}()
	a, b := oddVals[k.I], oddVals[k.J]
	n := 0
	err := gj.Search(gj.MapModel{Doc: map[string]any{"x": []any{a}, "y": b, "l": []any{b, a}}}, p, func(gj.DocPath) { n++ })
	if err != nil {
		return "error " + err.Error()
	}
	return ""
}

func init() {
	handlers["oddpair"] = func(raw json.RawMessage) (bool, string) {
		var k OddPair
		must(json.Unmarshal(raw, &k))
		t, err := strconv.Unquote(k.Query)
		must(err)
		p, err, pan := parse(t)
		if err != nil || pan != "" {
			return true, "Parse: " + errText(err) + pan
		}
		b := k.bad(p)
		return b != "", b
	}
}

func (c *Ctx) oddPairs() {
	var qs []string
	for _, op := range []string{"==", "!=", "===", "!==", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "**", "in", "&&", "||"} {
		for _, r := range []string{"$.y", "$.l", "$.l[*]", "1", "'a'", "@", "[@]", "[$.y]", "null", "1.5", "length($.y)", "@.a"} {
			for _, l := range []string{"@", "-@", "[@,$.y]"} {
				qs = append(qs, "$.x[?("+l+" "+op+" "+r+")]", "$.x[?("+r+" "+op+" "+l+")]")
			}
			qs = append(qs, "$.x[@[0]"+op+r+":]", "$.l[:$.y"+op+r+"]", "$..[?(@ "+op+" "+r+")]")
		}
	}
	qs = append(qs, "$.x[?(@)]", "$.x[?(!@)]", "$.x[?(-@)]", "$.x[?(+@)]", "$.x[?(length(@))]", "$.x[?(@.length())]", "$.x[?(@[0])]", "$..*", "$..", "$.y.a", "$.y[0]", "$.y[::-1]", "$.x[@:]", "$.y.*", "$.y['a',0]", "$.x[?(@.a==1)]", "$.x[?(@[0]==1)]", "$.y[?(@)]", "$..[?(@==@)]", "$.l[$.y:]", "$.l[::$.y]", "$.l[0:$.y:$.x[0]]", "/x/0/a", "/y/0", "/l/*/*")
	for qi, t := range qs {
		if !c.mine(qi) || c.expired() {
			continue
		}
		p, err, pan := parse(t)
		if err != nil && pan == "" {
			continue
		}
		for i := range oddVals {
			for j := range oddVals {
				k := &OddPair{i, j, quoted(t)}
				bad := pan
				if bad == "" {
					bad = k.bad(p)
				}
				if bad != "" {
					c.violate("oddpair", t, k, bad)
				}
				c.res.Traces++
			}
		}
		c.res.Transitions++
		c.count("queries on pairs of values of odd types", 1)
	}
}

func checkC16(c *Ctx) {
	c.oddPairs()
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	dup := map[uint64]struct{}{}
	do := func(in string) {
		h := hashStr(in)
		if _, ok := dup[h]; ok || c.expired() {
			return
		}
		dup[h] = struct{}{}
		c.enter("panic", jsonOf(map[string]string{"Input": quoted(in)}))
		bad, parsed := panicBad(in)
		if bad != "" {
			c.violate("panic", quoted(in), map[string]string{"Input": quoted(in)}, bad)
			return
		}
		c.res.Transitions++
		if parsed {
			c.count("evaluated", 1)
			c.res.Traces += int64(len(oddDocs))
			c.seen[h] = struct{}{}
			c.sample(func() string { return quoted(in) + ": evaluated on " + itoa(len(oddDocs)) + " documents" })
		} else {
			c.count("rejected", 1)
		}
	}
	inputs(c, do)
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	// expressions over operands of every kind, also where they make no sense
	opnd := []string{"@", "$", "@.a", "$.a", "@.x", "@.*", "$..a", "@[0]", "@[-1:]", "1", "0", "-1", "1.5", "'a'", "''", "'1'", "null", "true", "false", "[]", "[1]", "[@,null]", "length(@)", "@.length()", "length()", "length(1,2)", "foo(@)", "@.foo()", "$.a.length()", "length('a')", "length(length(@))", "9223372036854775807", "-9223372036854775807", "99999999999999999999", "1e308", "1e999", "0x7fffffffffffffff", "@[?(@)]", "@..", "a", "*", "a.b", "'a'.length()", "[1].length()", "(@)", "!@", "-@", "+@", "~@", "@['a','b']", "@.a.b.c"}
	ops := []string{"+", "-", "*", "/", "%", "**", "<", "<=", ">", ">=", "==", "!=", "===", "!==", " in ", "&&", "||", "&", "|", "^", ".", "..", ","}
	for _, a := range opnd {
		for _, b := range opnd {
			if !mine() {
				continue
			}
			for _, op := range ops {
				e := a + op + b
				do("$[?(" + e + ")]")
				do("$..[?(!(" + e + "))]")
				do("$[(" + e + ")]")
				do("$[" + e + "]")
				do("$[" + e + ":]")
				do("$[?(-(" + e + ")>1)]")
				if c.thorough() {
					do("$[:" + e + "]")
					do("$[::" + e + "]")
					do("$..[" + e + "]")
					do("$[?((" + e + ")[0])]")
					do("$[?((" + e + ") in (" + e + "))]")
					do("$[?((" + e + ") ** (" + e + "))]")
					do("$[?(length(" + e + "))]")
					do("$." + e)
					for _, d := range opnd[:20] {
						do("$[?(" + e + op + d + ")]")
					}
				}
			}
		}
	}
	// slices and indexes with bounds of every kind
	var bounds []string
	bounds = append(bounds, "")
	bounds = append(bounds, opnd...)
	for i, a := range bounds {
		for j, b := range bounds {
			if !mine() {
				continue
			}
			do("$[" + a + ":" + b + "]")
			do("$..[" + a + ":" + b + "]")
			do("$[" + a + "," + b + "]")
			do("$..[" + a + "," + b + ":]")
			do("$[?(@[" + a + ":" + b + "])]")
			for k, s := range bounds {
				if c.thorough() || k < 22 && (i < 20 || j < 20) || i == j {
					do("$[" + a + ":" + b + ":" + s + "]")
				}
				if (c.thorough() || k%3 == 0) && i < 24 && j < 24 {
					do("$..[" + a + ":" + b + ":" + s + ",'a']")
				}
			}
		}
	}
	// every pair of steps
	steps := []string{".a", ".'a'", "[0]", "[-1]", "['a']", ".*", "[*]", "..a", "..*", "..", "..[0]", "[1:]", "[::-1]", "[0,'a']", "[?(@)]", "[?(@.a)]", "..[?(@)]", "[$]", "[@]", ".$", ".@", "[$.a]", "[@.a]", ".length()", "[length(@)]", "[null]", "[true]", "[1.5]", ".1.5", ".null", "[-'a']", "[a]", "[(@)]", "[!@]", "[a.b]", "[1,2:3]", "[[1]]", "[?([1])]", "..[$]", "..@", "..$", "[$,@]", "[]", "[,]", ".[0]", ".(a)", ".?(@)", "?(@)", ".-1", "[+1]", ".a()", "()", "[?(@)()]"}
	for _, r := range []string{"$", "@", "a", "*", "'a'", "1", "[1]", "?(@)", "(@)", "f()", "/a"} {
		for _, a := range steps {
			do(r + a)
			for _, b := range steps {
				if !mine() {
					continue
				}
				do(r + a + b)
				do("$[?(" + r + a + b + ")]")
				do("$[?(" + r + a + b + "==1)]")
				if r == "$" || c.thorough() {
					for _, d := range steps {
						do(r + a + b + d)
					}
				}
			}
		}
	}
	// bytes that are not UTF-8
	for i := 0; i < 256; i++ {
		if mine() {
			b := string([]byte{byte(i)})
			for _, x := range []string{b, "$" + b, "$." + b, "$['" + b + "']", "$['\\" + b + "']", "$[" + b + "]", "/" + b, b + b, "$.a" + b + "\x80", "$['\\u" + b + "']", "$['\\x4" + b + "']"} {
				do(x)
			}
		}
	}
	// sizes of all the parts of a path
	for _, n := range scaleSizes(c.thorough()) {
		if !mine() || n > 10001 {
			continue
		}
		r := func(s string) string { return strings.Repeat(s, n) }
		cut := func(s string) string { return strings.TrimSuffix(s, ",") }
		for _, x := range []string{cut(r("1,")), cut(r("null,")), cut(r("@,")), cut(r("'a',")), cut(r("1.5,")), cut(r("true,"))} {
			do("$[?(@ in [" + x + "])]")
			do("$[?(length([" + x + "])>0)]")
			if n <= 300 {
				do("$[?(foo(" + x + "))]")
				do("$[?(length(" + x + "))]")
			}
		}
		do("$[" + cut(r("1,")) + "]")
		do("$[" + cut(r("'a',")) + "]")
		do("$..[" + cut(r("0:1,")) + "]")
		do("$['" + r("k") + "']")
		do("$." + r("k"))
		do("/" + r("k"))
		do("$['" + r("é") + "']")
		do("$['" + r(`\n`) + "']")
		do("$['" + r(`\u0041`) + "']")
		do("$[?(@<'" + r("k") + "')]")
		do("$['" + r("k"))
		do("$[" + r("1") + "]")
		do("$[?(@==1." + r("1") + ")]")
		do("$[?(@==1e" + r("1") + ")]")
		do("$[?(@==0x" + r("1") + ")]")
		do("$[" + r("0") + "1:" + r("9") + "]")
		do("$" + r(" ") + ".a")
		do("$.a" + r(" "))
		do("$" + r(".*"))
		do(r("/*"))
		do("$['\\u{" + r("0") + "41}']")
		do("$['\\u{" + r("1") + "}']")
		if n <= 300 {
			do("$[?(@" + r(".a") + ")]")
			do("$[?(1" + r("+1") + ")]")
			do("$[?(1" + r("**2") + ")]")
			do("$[?(@" + r("&&@") + ")]")
			do("$[?(@" + r("==@") + ")]")
			do("$[?(@" + r(" in @") + ")]")
			do("$[?(" + r("-") + "1)]")
		}
	}
	// deep nesting parses, or not, without harm
	for _, n := range []int{100, 300, c.pick(300, 1000)} {
		if !mine() {
			continue
		}
		for _, x := range []struct{ o, m, c string }{{"(", "@", ")"}, {"[", "1", "]"}, {"!", "@", ""}, {"-", "1", ""}} {
			do("$[?(" + strings.Repeat(x.o, n) + x.m + strings.Repeat(x.c, n) + ")]")
		}
		do("$" + strings.Repeat(".a", n*10))
		do("$" + strings.Repeat("..a", 40))
		do("$" + strings.Repeat("[0]", n*3))
		do("/" + strings.Repeat("a/", n) + "a")
	}
	c.deepDocs()
}

func init() {
	checks["C15"] = &check{run: checkC15, bounds: func(t bool) map[string]any {
		n := 4
		if t {
			n = 5
		}
		return map[string]any{"tokens": n, "token_alphabet": len(tokAlphabet), "characters": n - 1, "character_alphabet": len(charAlphabet), "well_formed_paths": len(corpus), "mistakes": "one at every position, two for brackets and quotes"}
	}, assume: []string{"mc/grammar.go, a lexer and recognizer of its own, states what Jsonpath.g4 derives"}}
	checks["C16"] = &check{run: checkC16, bounds: func(t bool) map[string]any {
		n := 4
		if t {
			n = 5
		}
		return map[string]any{"tokens": n, "token_alphabet": len(tokAlphabet), "documents": len(oddDocs), "operands": 51, "operators": 23}
	}}
}
