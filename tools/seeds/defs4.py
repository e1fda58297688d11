seed("c07-div-assoc","C07",[("expression.go",'''				return divExpression{
					left:  expressions[0],
					right: expressions[1],
				}, nil
			case "%":''','''				left, right := expressions[0], expressions[1]
				if mul, ok := left.(mulExpression); ok {
					// Divide first to avoid overflow
					return mulExpression{left: mul.left, right: divExpression{left: mul.right, right: right}}, nil
				}
				return divExpression{left: left, right: right}, nil
			case "%":''')],
'''func main() { sel(`[3]`, "$[?(4*@/2==6)]", "$[0]") }''',
"A product divided by an integer that does not divide its right operand","4*3/2 is 4*(3/2)")
seed("c07-sub-mixed","C07",[("expression.go",'''	fr := nr.(float64)
	return exprValue{value: float64(i) - fr}, nil''','''	fr := nr.(float64)
	diff := float64(i) - fr
	if diff == math.Trunc(diff) {
		return exprValue{value: int(diff)}, nil
	}
	return exprValue{value: diff}, nil''')],
'''func main() { sel(`[{"a":1e300}]`, "$[?(1-@.a==-1e300)]", "$[0]") }''',
"An integer minus a decimal beyond the range of integers","The result is wrong")
seed("c08-set","C08",[("expression.go",'''	for _, x := range arr {
		var v any
		if n, ok := x.(nodeValue); ok {''','''	if len(arr) >= 8 {
		// Use a set for long lists
		set := make(map[any]struct{}, len(arr))
		for _, x := range arr {
			if n, ok := x.(nodeValue); ok {
				x = n.getValue()
			}
			if _, ok := x.([]any); !ok {
				set[x] = struct{}{}
			}
		}
		_, ok := set[l.getValue()]
		return exprValue{value: ok}, nil
	}
	for i := range arr {
		x := arr[i]
		var v any
		if n, ok := x.(nodeValue); ok {''')],
'''func main() { sel(`[1.0,8]`, "$[?(@ in [1,2,3,4,5,6,7])]", "$[0]"); sel(`[1.5,2,8,9]`, "$[?(@ in [1.0,2.0,3,4,5,6,7,8.0])]", "$[1] $[2]") }''',
"A list of at least 8 elements that has the number in the other representation","A number is not found in a long list if one is an integer and the other a decimal")
seed("c09-cached-end","C09",[("slice.go",'''type rangeSelector struct {
	start expression
	end   expression
}''','''type rangeSelector struct {
	start expression
	end   expression

	// last array size, and bounds for it
	n, from, to int
}

func (sel *rangeSelector) bounds(ctx *context, n int) (from, to int) {
	if n == 0 || n != sel.n {
		sel.from, sel.to = getRange(ctx, sel.start, sel.end, n)
		sel.n = n
	}
	return sel.from, sel.to
}'''),("slice.go","	start, end := getRange(ctx, sel.start, sel.end, n)\n	if start < 0 || start >= end {","	start, end := sel.bounds(ctx, n)\n	if start < 0 || start >= end {"),("slice.go","	start, end := getRange(ctx.parent(), sel.start, sel.end, n)\n	index := ctx.path.Last().Index\n	return index","	start, end := sel.bounds(ctx.parent(), n)\n	index := ctx.path.Last().Index\n	return index")],
'''func main() { sel(`[[1,2,3],[2,2,3]]`, "$[*][@[0]:]", "$[0][1] $[0][2] $[1][2]") }''',
"A slice with a bound computed from the contents of the array, applied to two arrays of the same size one after the other","The bounds computed for the first array are used for the second one")
seed("c09-step-here","C09",[("slice.go",'''		ivalue, err := sel.step.evaluate(ctx)
		if err != nil {
			return nil, false
		}''','''		ivalue, err := sel.step.evaluate(&context{doc: ctx.doc, path: DocPath{P: ctx.path.P[:1]}})
		if err != nil {
			return nil, false
		}''')],
'''func main() { sel(`[2,[2,1,2,3]]`, "$[1][::@[0]]", "$[1][0] $[1][2]"); sel(`[1,[2,1,2,3]]`, "$[1][::@[0]]", "$[1][0] $[1][2]") }''',
"A slice with a step computed from the array being sliced, below the root","@ in the step denotes the root")
seed("c10-b","C10",[("expression.go","	'b':  '\\b',\n",""),("expression.go",'''			} else if r == 'u' {
				uni = true''','''			} else if r == 'b' {
				out = append(out, '\\b')
				esc = len(out) == 1
			} else if r == 'u' {
				uni = true''')],
'''func main() { sel(`{"\\b\\n":1}`, "$['\\\\b\\\\n']", "$.\\b\\n") }''',
"A string literal that starts with the escape \\b","The character after \\b is taken for an escape")
seed("c10-braces4","C10",[("expression.go",'''				buf = append(buf, r)
				if len(buf) > 1 && buf[0] == '{' {''','''				buf = append(buf, r)
				if len(buf) > 3 && buf[0] == '{' {''')],
'''func main() { sel(`{"\\u000a":1}`, "$['\\\\u{A}']", "$.\\n"); sel("{\\"\\U0001F600\\":1}", "$['\\\\u{1F600}']", "$.\\U0001F600") }''',
"\\u{H} with one hexadecimal digit","\\u{A} is not ended by its brace")
seed("c11-float32","C11",[("expression.go",'''			v, _ := strconv.ParseFloat(number, 64)
			return float64(v)''','''			bits := 64
			if strings.HasSuffix(number, "0") {
				bits = 32
			}
			v, _ := strconv.ParseFloat(number, bits)
			return float64(v)''')],
'''func main() { sel(`[0.1]`, "$[?(@==0.10)]", "$[0]") }''',
"A decimal literal with a trailing zero","The number is rounded to 32 bits")
seed("c11-bin-len","C11",[("expression.go",'''	v, _ := strconv.ParseInt(strings.Replace(lit, "_", "", -1), 2, 64)
	return int(v)''','''	v, _ := strconv.ParseInt(strings.Replace(lit, "_", "", 1), 2, 64)
	return int(v)''')],
'''func main() { sel(`[21]`, "$[?(@==0b1_01_01)]", "$[0]") }''',
"A binary literal with two separators","Only the first separator is removed")
seed("c12-empty-part","C12",[("escape.go",'''	for _, part := range parts {
		bldr.WriteRune('/')''','''	for i, part := range parts {
		if len(part) == 0 && i == len(parts)-1 && i > 0 {
			// Trailing slash
			break
		}
		bldr.WriteRune('/')''')],
'''func main() {
	m := doc(`{"a":{"":1}}`)
	same("Join(a,'')", search(m, compile(gj.Join("a", ""))), "$.a.")
}''',
"A list of keys that ends with an empty key","The empty key at the end is ignored")
seed("c12-both-quotes","C12",[("escape.go",'''				if r == '"' {
					out = append(out, '\\\\', '"')
				} else {''','''				if r == '"' && (len(out) == 1 || out[len(out)-1] != '\\\\') {
					out = append(out, '\\\\', '"')
				} else {''')],
'''func main() {
	k := "'\\\\\\""
	p, err := gj.Parse("$." + gj.MakeKeyString(k))
	if err != nil {
		fail(err.Error())
	}
	r, err := gj.Find(gj.MapModel{Doc: map[string]any{k: 1}}, p)
	if err != nil || len(r) != 1 {
		fail("key not found")
	}
}''',
"A key with a single quote, and a double quote preceded by a backslash","The double quote is not escaped")
seed("c13-quoted-star","C13",[("simplepath.go",'''		if lit.StringLiteral() != nil {
			path.selectors = []selector{
				&keySelector{
					key: v.value.(string),
				},
			}
			path.recursive = []bool{false}
			return
		}''','''		if lit.StringLiteral() != nil {
			if path = KeySelectorPath(v.value.(string)); v.value == "*" {
				path = WildcardPath
			}
			return
		}''')],
'''func main() { sel(`{"*":1,"a":2}`, "/'*'", "$.*") }''',
"A quoted component that is an asterisk","The quoted asterisk is a wildcard")
seed("c14-bracket-quoted","C14",[("parser.go",'''	if str := lit.(*parser.LiteralContext).StringLiteral(); str != nil {
		return &keySelector{
			key: unescapeString(str.GetText()),
		}, nil
	}''','''	if str := lit.(*parser.LiteralContext).StringLiteral(); str != nil {
		key := unescapeString(str.GetText())
		if _, inUnion := ctx.GetParent().(*parser.IndexExpressionContext); inUnion {
			key = strings.TrimSpace(key)
		}
		return &keySelector{key: key}, nil
	}''')],
'''func main() { sel(`{"a ":1,"a":2}`, "$['a ']", "$.a "); sel(`{"a ":1,"a":2}`, "$.'a '", "$.a ") }''',
"A quoted key with white space at its ends, in brackets","The white space is removed from the key")
