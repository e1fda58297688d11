package main

// C10: string literals, C11: numeric literals

import (
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"
)

// atom is a piece of a string literal and what it denotes
type atom struct{ spell, val string }

// litCase checks that the literal (without quotes) denotes val: as a key,
// and compared with strings.
func (c *Ctx) litCase(spell, val string, q byte, vs []*variant, forms int) {
	lit := string(q) + spell + string(q)
	// other strings that a wrong reading may give
	others := []string{}
	add := func(s string) {
		if s == val || !utf8.ValidString(s) || len(others) > 3 && s != "" {
			return
		}
		for _, o := range others {
			if o == s {
				return
			}
		}
		others = append(others, s)
	}
	add(spell)
	add(strings.ReplaceAll(spell, "\\", ""))
	add(val + "x")
	add(lit)
	if len(val) > 0 {
		r, n := utf8.DecodeRuneInString(val)
		add(val[n:])
		add(string(r))
	}
	add("")
	obj, arr := nO(), nA()
	mid := len(others) / 2
	for i, o := range others {
		if i == mid {
			obj.Keys, obj.Elems = append(obj.Keys, val), append(obj.Elems, nI(-1))
			arr.Elems = append(arr.Elems, nS(val))
		}
		obj.Keys, obj.Elems = append(obj.Keys, o), append(obj.Elems, nI(i))
		arr.Elems = append(arr.Elems, nS(o))
	}
	if forms&1 != 0 {
		d := newDocCase(obj.finish(), vs)
		w := []*Node{d.root.Elems[mid]}
		c.oneText("$["+lit+"]", w, d, vs)
		if forms&4 != 0 {
			c.oneText("$."+lit, w, d, vs)
			c.oneText("/"+lit, w, d, vs)
			c.oneText("$..["+lit+"]", w, d, vs)
			c.oneText("$["+lit+",'\\u0000zz']", w, d, vs)
			c.oneText("$.."+lit, w, d, vs)
		}
	}
	if forms&2 != 0 {
		d := newDocCase(arr.finish(), vs)
		w := []*Node{d.root.Elems[mid]}
		c.oneText("$[?(@=="+lit+")]", w, d, vs)
		if forms&4 != 0 {
			c.oneText("$[?("+lit+"== @)]", w, d, vs)
			c.oneText("$[?(@ in ["+lit+", 1])]", w, d, vs)
			if !digitKey(val) {
				c.oneText("$[?(@ <= "+lit+" && @ >= "+lit+")]", w, d, vs)
			}
		}
	}
}

func checkC10(c *Ctx) {
	vs := []*variant{vPtr}
	vm := []*variant{vPtr, vMap}
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	quotes := []byte{'\'', '"'}
	// 1. every code point, raw and in every escape that names it
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		if !mine() {
			continue
		}
		if c.expired() {
			return
		}
		var sp []string
		raw := r != '\n' && r != '\r' && r != '\\' && r != '\'' && r != '"'
		bmp := r <= 0xffff
		q := quotes[int(r)%2]
		if raw && (bmp || c.thorough()) {
			sp = append(sp, string(r))
		}
		if r < 256 {
			sp = append(sp, fmt.Sprintf(`\x%02x`, r), fmt.Sprintf(`\x%02X`, r))
		}
		if bmp {
			sp = append(sp, fmt.Sprintf(`\u%04x`, r), fmt.Sprintf(`\u%04X`, r))
		} else if c.thorough() || r%16 == 0 || r < 0x10400 || r >= 0x1f300 && r < 0x1f700 || r > 0x10fff0 {
			x := r - 0x10000
			sp = append(sp, fmt.Sprintf(`\u%04x\u%04x`, 0xd800+x>>10, 0xdc00+x&0x3ff), fmt.Sprintf(`\u{%X}`, r))
			if c.thorough() {
				sp = append(sp, fmt.Sprintf(`\u%04X\u%04X`, 0xd800+x>>10, 0xdc00+x&0x3ff))
			}
		}
		if bmp && (r%8 == 0 || r < 0x800 || c.thorough()) {
			sp = append(sp, fmt.Sprintf(`\u{%x}`, r))
		}
		if r < 0x300 || c.thorough() && r%64 == 0 {
			for z := 1; z <= 9; z++ {
				sp = append(sp, `\u{`+strings.Repeat("0", z)+fmt.Sprintf("%x", r)+"}")
			}
		}
		for i, s := range sp {
			f := 1 + (i+int(r)/2)%2
			if r < 0x180 || c.thorough() && bmp {
				f = 3
			}
			if r < 0x80 {
				f = 7
			}
			c.litCase(s, string(r), q, vs, f)
			if r < 0x800 || c.thorough() && bmp {
				c.litCase(s, string(r), quotes[1-int(r)%2], vs, f)
			}
			if r < 0x180 {
				// with neighbours
				c.litCase("a"+s+"b", "a"+string(r)+"b", q, vm, 3)
				c.litCase(s+s, string(r)+string(r), q, vm, 3)
				c.litCase("0"+s+"41", "0"+string(r)+"41", q, vm, 3)
			}
		}
	}
	// code points outside the BMP, many in one literal
	if !c.thorough() {
		for r := rune(0x10000); r <= 0x10ffff; r += 64 {
			if !mine() {
				continue
			}
			var a strings.Builder
			for x := r; x < r+64; x++ {
				a.WriteRune(x)
			}
			c.litCase(a.String(), a.String(), '\'', vs, 1)
			if r%1024 == 0 {
				var b strings.Builder
				for x := r; x < r+64; x++ {
					y := x - 0x10000
					fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+y>>10, 0xdc00+y&0x3ff)
				}
				c.litCase(b.String(), a.String(), '"', vs, 1)
			}
		}
	}
	// 2. all sequences of pieces
	atoms := func(q byte) []atom {
		other := `"`
		if q == '"' {
			other = "'"
		}
		return []atom{{"a", "a"}, {"é", "é"}, {"😀", "😀"}, {other, other}, {`\\`, `\`}, {`\'`, `'`}, {`\"`, `"`}, {`\/`, "/"}, {`\b`, "\b"}, {`\f`, "\f"}, {`\n`, "\n"}, {`\r`, "\r"}, {`\t`, "\t"}, {`\v`, "\v"},
			{`\x00`, "\x00"}, {`\x41`, "A"}, {`\xe9`, "é"}, {`\u0041`, "A"}, {`\u00E9`, "é"}, {`\ud83d\ude00`, "😀"}, {`\u{1F600}`, "😀"}, {`\u{41}`, "A"}, {`\u2028`, "\u2028"}, {" ", " "}, {"n", "n"}, {"u0041", "u0041"}, {"{", "{"}, {"}", "}"}, {"]", "]"}, {"x41", "x41"},
			{"0", "0"}, {".", "."}, {"/", "/"}, {"\u2028", "\u2028"}, {`\0`, "\x00"}, {"\t", "\t"}}
	}
	for _, q := range quotes {
		as := atoms(q)
		var rec func(n int, spell, val string)
		rec = func(n int, spell, val string) {
			if c.expired() {
				return
			}
			f := 3
			if n <= 2 {
				f = 7
			} else if n > 2 && !c.thorough() {
				f = 1 + len(spell)%2
			}
			c.litCase(spell, val, q, vs, f)
			if n == c.pick(3, 4) {
				return
			}
			for _, a := range as {
				if strings.HasSuffix(spell, `\0`) && !strings.HasSuffix(spell, `\\0`) && a.spell == "0" {
					continue // \0 followed by a digit
				}
				if n == 1 && !mine() {
					continue
				}
				rec(n+1, spell+a.spell, val+a.val)
			}
		}
		for _, a := range as {
			rec(1, a.spell, a.val)
		}
	}
	// a backslash before a character that is no escape denotes the character,
	// before the end of a line nothing
	for r := rune(1); r <= 0x10ffff; {
		var spell, val strings.Builder
		first := r
		for ; r <= 0x10ffff && r < first+64; r++ {
			if r >= 0xd800 && r <= 0xdfff || r >= '0' && r <= '9' || strings.ContainsRune("bfnrtvxu", r) {
				continue
			}
			spell.WriteByte('\\')
			spell.WriteRune(r)
			if !strings.ContainsRune("\r\n\u2028\u2029", r) {
				val.WriteRune(r)
			}
			spell.WriteString("-")
			val.WriteString("-")
		}
		if !mine() || r > 0x30000 && !c.thorough() && first < 0xe0000 {
			continue
		}
		if c.expired() {
			return
		}
		c.litCase(spell.String(), val.String(), quotes[int(first/64)%2], vs, 3)
	}
	// 3. long literals
	for _, g := range nearStrings(c.thorough()) {
		if !mine() {
			continue
		}
		for i, s := range g {
			q := quotes[i%2]
			c.litCase(quote(s, q)[1:len(quote(s, q))-1], s, q, vm, 3)
		}
	}
	for _, n := range []int{1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000} {
		for _, a := range atoms('\'') {
			if a.spell == `\0` || !mine() {
				continue
			}
			c.litCase(strings.Repeat(a.spell, n), strings.Repeat(a.val, n), '\'', vs, 7)
			c.litCase(strings.Repeat("ab", n)+a.spell+"c", strings.Repeat("ab", n)+a.val+"c", '\'', vs, 3)
		}
	}
	// the empty literal
	if c.mine(0) {
		for _, q := range quotes {
			c.litCase("", "", q, vm, 7)
		}
	}
}

// ---------------------------------------------------------------- C11

// decDigits etc: the value of a literal from its text
func numLit(s string) (v *big.Rat, isInt, ok bool) {
	l := strings.ToLower(s)
	base := 10
	switch {
	case strings.HasPrefix(l, "0x"):
		base = 16
	case strings.HasPrefix(l, "0o"):
		base = 8
	case strings.HasPrefix(l, "0b"):
		base = 2
	}
	if base != 10 {
		d := strings.ReplaceAll(l[2:], "_", "")
		n, ok := new(big.Int).SetString(d, base)
		if !ok {
			return nil, false, false
		}
		return new(big.Rat).SetInt(n), true, true
	}
	l = strings.ReplaceAll(l, "_", "")
	mant, exp, hasExp := strings.Cut(l, "e")
	ip, fp, hasFrac := strings.Cut(mant, ".")
	n, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		return nil, false, false
	}
	e := -len(fp)
	if hasExp {
		neg := strings.HasPrefix(exp, "-")
		exp = strings.TrimLeft(exp, "+-")
		x := 0
		if exp == "" {
			return nil, false, false
		}
		for _, d := range exp {
			x = x*10 + int(d-'0')
			if x > 400 {
				return nil, false, false
			}
		}
		if neg {
			x = -x
		}
		e += x
	}
	r := new(big.Rat).SetInt(n)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
	if e >= 0 {
		r.Mul(r, new(big.Rat).SetInt(p))
	} else {
		r.Quo(r, new(big.Rat).SetInt(p))
	}
	return r, !hasExp && !hasFrac, true
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// numLits enumerates the literals of at most n characters: digits from ds,
// separators only between digits of decimals, and anywhere after the first
// digit of the others.
func numLits(n int, ds string, f func(string)) {
	isD := func(b byte) bool { return b >= '0' && b <= '9' }
	var dec func(s string, part int) // part 0 integer, 1 fraction, 2 exponent
	dec = func(s string, part int) {
		last := s[len(s)-1]
		if isD(last) {
			f(s)
		}
		if len(s) >= n {
			return
		}
		for i := 0; i < len(ds); i++ {
			// a separator directly after a leading zero: 0_1
			dec(s+ds[i:i+1], part)
		}
		if isD(last) || last == '_' {
			if len(s)+1 < n {
				dec(s+"_", part)
			}
		}
		if !isD(last) {
			return
		}
		if part == 0 && len(s)+1 < n {
			for i := 0; i < len(ds); i++ {
				dec(s+"."+ds[i:i+1], 1)
			}
		}
		if part < 2 {
			for _, e := range []string{"e", "E", "e+", "e-", "E+", "E-"} {
				for i := 0; i < len(ds); i++ {
					if len(s)+len(e)+1 <= n {
						dec(s+e+ds[i:i+1], 2)
					}
				}
			}
		}
	}
	for i := 0; i < len(ds); i++ {
		dec(ds[i:i+1], 0)
	}
	for _, b := range []struct{ p, d string }{{"0x", "0179afAFbBeE"}, {"0X", "017aF"}, {"0o", "017"}, {"0O", "017"}, {"0b", "01"}, {"0B", "01"}} {
		var rec func(s string)
		rec = func(s string) {
			f(s)
			if len(s) >= n {
				return
			}
			for i := 0; i < len(b.d); i++ {
				rec(s + b.d[i:i+1])
			}
			rec(s + "_")
		}
		for i := 0; i < len(b.d); i++ {
			rec(b.p + b.d[i:i+1])
		}
	}
}

func (c *Ctx) numCase(s string, arrs map[int]*docCase, vs []*variant, forms int) {
	r, isInt, ok := numLit(s)
	if !ok {
		return
	}
	var val Val
	if isInt {
		if !r.Num().IsInt64() {
			return
		}
		val = vInt(int(r.Num().Int64()))
	} else {
		f, _ := r.Float64()
		if f > 1e300 || f != 0 && f < 1e-300 {
			return
		}
		val = vFloat(f)
	}
	// candidates: the value, and what other readings of the text give
	arr := nA()
	want := []bool{}
	add := func(n *Node) {
		for _, e := range arr.Elems {
			if e.Kind == n.Kind && e.I == n.I && e.F == n.F {
				return
			}
		}
		if t := refEq(val, nodeVal(n)); t != U {
			arr.Elems = append(arr.Elems, n)
			want = append(want, t == T)
		}
	}
	f := val.float()
	if val.Int {
		i := val.I
		add(nI(i))
		add(nI(i + 1))
		add(nI(i - 1))
		add(nI(-i))
		if exactFloat(val) {
			add(nF(float64(i)))
		}
	} else {
		add(nF(f))
		add(nF(-f))
		add(nF(f + 1))
		add(nF(f * 10))
		add(nF(f / 10))
		add(nF(float64(int64(f))))
		if float64(int(f)) == f && f < 1e15 {
			add(nI(int(f)))
		}
	}
	for _, base := range []int{2, 8, 10, 16} {
		d := strings.ToLower(s)
		d = strings.TrimLeft(strings.ReplaceAll(d, "_", ""), "0xob")
		x := 0
		for _, ch := range d {
			k := strings.IndexRune("0123456789abcdef", ch)
			if k < 0 || k >= base || x > 1<<40 {
				break
			}
			x = x*base + k
		}
		add(nI(x))
	}
	add(nI(0))
	add(nF(0.25))
	if forms&1 != 0 {
		d := newDocCase(nA(append(arr.clone().Elems, nS(s), nNull())...).finish(), vs)
		var w []*Node
		for i, t := range want {
			if t {
				w = append(w, d.root.Elems[i])
			}
		}
		c.oneText("$[?(@=="+s+")]", w, d, vs)
		if forms&4 != 0 {
			c.oneText("$[?("+s+" == @)]", w, d, vs)
			c.oneText("$[?(@ in ["+s+"])]", w, d, vs)
			c.oneText("$[?(@ == -(-"+s+"))]", w, d, vs)
			c.oneText("$[?(-@ == -"+s+")]", w[:0:0], newDocCase(nA().finish(), vs), vs)
		}
	}
	if !val.Int || forms&2 == 0 {
		return
	}
	// as an index and a slice bound
	lens := []int{val.I, val.I + 1}
	if val.I > 300 {
		lens = []int{12}
	}
	for _, n := range lens {
		d := arrs[n*4+len(vs)]
		if d == nil {
			d = newDocCase(intArr(n).finish(), vs)
			arrs[n*4+len(vs)] = d
		}
		do := func(spell string, sel *Sel) {
			w, ok := path(step(sel)).eval(d.root, d.root)
			if ok {
				c.oneText("$["+spell+"]", w, d, vs)
			}
		}
		i := eInt(val.I)
		do(s, idx(val.I))
		do(s+":", slc(i, nil, nil))
		if forms&4 != 0 {
			do("-"+s, idx(-val.I))
			do(":"+s, slc(nil, i, nil))
			do("-"+s+":", slc(eInt(-val.I), nil, nil))
			do(":-"+s, slc(nil, eInt(-val.I), nil))
			w, _ := path(step(idx(val.I))).eval(d.root, d.root)
			c.oneText("$."+s, w, d, vs)
			c.oneText("/"+s, w, d, vs)
			c.oneText("$[-9999999,"+s+"]", w, d, vs)
			if val.I > 0 {
				do("::"+s, slc(nil, nil, i))
				do("::-"+s, slc(nil, nil, eInt(-val.I)))
			}
		}
	}
}

func checkC11(c *Ctx) {
	vs := []*variant{vPtr, vMap, vMapI}
	unit := 0
	mine := func() bool { unit++; return c.mine(unit) }
	arrs := map[int]*docCase{}
	numLits(c.pick(6, 8), "0178", func(s string) {
		if !mine() || c.expired() {
			return
		}
		f := 3
		if len(s) <= 4 || c.thorough() && len(s) <= 5 {
			f = 7
		}
		if len(s) >= 5 {
			c.numCase(s, arrs, vs[:1], f)
			return
		}
		c.numCase(s, arrs, vs, f)
	})
	// every digit
	numLits(c.pick(3, 4), "0123456789", func(s string) {
		if mine() && !c.expired() {
			c.numCase(s, arrs, vs, 7)
		}
	})
	// every hexadecimal digit
	for i := 0; i < 256; i++ {
		for _, f := range []string{"0x%x", "0X%X", "0x%02X", "0o%o", "0O%03o", "0b%b", "0B%08b", "0x0%x", "%03d", "%d"} {
			if mine() {
				c.numCase(fmt.Sprintf(f, i), arrs, vs, 7)
			}
		}
	}
	// leading zeros of any length, large values, long fractions and exponents
	var long []string
	for n := 1; n <= 24; n++ {
		z := strings.Repeat("0", n)
		long = append(long, z+"8", z+"17", z, "0x"+z+"1f", "0b"+z+"11", "0o"+z+"17", "1."+z+"5", z+"1.5", "0."+z+"1", "1e"+z+"2", "1e-"+z+"2", z+"_1", "1_"+z, "0x1_"+z[:min(n, 3)])
		long = append(long, "1"+z[:min(n, 18)], "1."+strings.Repeat("3", n), strings.Repeat("9", min(n, 18)), "0."+strings.Repeat("7", n), "0x"+strings.Repeat("7", min(n, 16)), "0b"+strings.Repeat("1", min(2*n, 63)), "0o"+strings.Repeat("7", min(n, 21)), strings.Repeat("1_", n)+"1"[:1], "1e"+itoa(n), "1E-"+itoa(n), "2.5e+"+itoa(n), "12345678e-"+itoa(n))
	}
	for e := 0; e <= 290; e += 7 {
		for _, m := range []string{"1", "9.5", "123456789", "4.35", "0.1", "8.95", "2.2250738585072014", "1.7976931348623157", "9007199254740993.0", "5404319552844595.75"} {
			long = append(long, m+"e"+itoa(e), m+"E-"+itoa(e), m+"e+"+itoa(e))
		}
	}
	long = append(long, "9223372036854775807", "9223372036854775806", "0x7fffffffffffffff", "0x7FFF_FFFF_FFFF_FFFF", "0o777777777777777777777", "0b"+strings.Repeat("1", 63), "9_223_372_036_854_775_807", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "999999999999999999", "0.30000000000000004", "0.1", "0.2", "0.3", "1.005", "179.5e2", "3.141592653589793", "100000000000000000000.0", "1e19", "1e18")
	for _, s := range long {
		if mine() {
			c.numCase(s, arrs, vs[:1], 7)
			c.numCase(s, arrs, vs[2:], 1)
		}
	}
}

func init() {
	checks["C10"] = &check{run: checkC10, bounds: func(t bool) map[string]any {
		n := 3
		if t {
			n = 4
		}
		return map[string]any{"code_points": "all 1,112,064; raw, \\x, \\u, surrogate pairs and \\u{}", "pieces": 36, "sequence_length": n, "quotes": 2, "literal_length": 10000}
	}}
	checks["C11"] = &check{run: checkC11, bounds: func(t bool) map[string]any {
		n := 6
		if t {
			n = 8
		}
		return map[string]any{"literal_characters": n, "digits": "0178, all digits up to 3 characters, all hexadecimal pairs", "uses": "filter, index, slice bounds"}
	}}
}
