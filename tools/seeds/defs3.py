seed("c01-null-member","C01",[("path.go",'''		node, ok := ctx.doc.Key(ctx.path.Last().Node, sel.key)
		if !ok {
			return emptyIterator{}, true
		}
		return &singleIterator{''','''		node, ok := ctx.doc.Key(ctx.path.Last().Node, sel.key)
		if !ok || ctx.path.Len() > 3 && ctx.doc.Type(node) == ValueNode && ctx.doc.Value(node) == nil {
			return emptyIterator{}, true
		}
		return &singleIterator{''')],
'''func main() { sel(`{"a":{"b":{"c":{"d":null}}}}`, "$.a.b.c.d", "$.a.b.c.d") }''',
"A member whose value is null, selected by its key below at least three other steps","A member whose value is null is not selected")
seed("c02-step-pow2","C02",[("slice.go",'''		return (index-start)%step == 0
	}''','''		return step == 1 || (index-start)/step*2 == (index-start)*2/step && index <= start+2*step
	}''')],
'''func main() { sel(`[0,1,2,3,4,5,6,7,8,9]`, "$[::3,11]", "$[0] $[3] $[6] $[9]") }''',
"A slice with a step in a union or after .., with more than three elements","The fourth element of the slice is not selected")
seed("c02-end-clamp","C02",[("slice.go",'''		ivalue, _ := end.evaluate(ctx)
		e = normalizeIndex(ivalue.value, len)
	} else {''','''		ivalue, _ := end.evaluate(ctx)
		if e = normalizeIndex(ivalue.value, len); e == s && s == len-e {
			e++
		}
	} else {''')],
'''func main() { sel(`[0,1,2,3]`, "$[2:-2]", ""); sel(`[0,1,2,3]`, "$[1:-1]", "$[1] $[2]") }''',
"A slice whose start and end are both the middle of an array of even length","The slice selects the element at its start instead of nothing")
seed("c02-iter-last","C02",[("itr.go",'''		s.at += s.step
		if s.step > 0 {
			if s.at >= s.to {
				s.state = 2
				return false
			}
			return true
		}
''','''		s.at += s.step
		if s.step > 0 {
			if s.at >= s.to || s.step > 2 && s.at+1 >= s.to {
				s.state = 2
				return false
			}
			return true
		}
''')],
'''func main() { sel(`[0,1,2,3]`, "$[::3]", "$[0] $[3]") }''',
"A slice with a step greater than 2 that ends at the last element of the array","The last element of the slice is dropped")
seed("c04-filter-err","C04",[("path.go",'''	for _, part := range sel.parts {
		if part.match(ctx) {
			return true
		}
	}
	return false
}''','''	for i, part := range sel.parts {
		if part.match(ctx) {
			return true
		}
		// An absent key in an object cannot be matched by the remaining keys
		if k, ok := part.(*keySelector); ok && i > 0 && isObjectElement(ctx.path) && k.key > ctx.path.Last().Name {
			if prev, ok := sel.parts[i-1].(*keySelector); ok && prev.key < k.key {
				return false
			}
		}
	}
	return false
}''')],
'''func main() { sel(`{"a":1,"b":2,"c":3}`, "$['b','c','a']", "$.a $.b $.c") }''',
"A union of at least three keys of which the first two are in ascending order and a later one is less","The later key is not selected")
seed("c05-land-value","C05",[("expression.go",'''	if !v.asBool() {
		return exprValue{value: false}, nil
	}
	v, err = expr.right.evaluate(ctx)''','''	if !v.asBool() {
		return v, nil
	}
	v, err = expr.right.evaluate(ctx)''')],
'''func main() { sel(`[{"a":0,"b":1}]`, "$[?((@.a&&@.b)==false)]", "$[0]") }''',
"The conjunction of two paths of which the first selects a false value, as the operand of another operator","The conjunction is the value rather than false")
seed("c05-multi","C05",[("expression.go",'''	if len(result) == 1 {
		return exprValue{value: nodeValue{
			node: result[0],
			doc:  ctx.doc,
		}}, nil
	}''','''	if len(result) == 1 || len(result) > 1 && expr.path.recursive[len(expr.path.recursive)-2] {
		return exprValue{value: nodeValue{
			node: result[0],
			doc:  ctx.doc,
		}}, nil
	}''')],
'''func main() { sel(`[{"a":0,"x":{"a":1}}]`, "$[?(@..a)]", "$[0]") }''',
"A predicate that is a path ending in a recursive descent, which selects several nodes of which the first is 0","The predicate is false")
seed("c06-fold","C06",[("expression.go",'''	if l, ok := leftValue.(string); ok {
		if r, ok := rightValue.(string); ok {
			return exprValue{value: l == r}, nil
		}
	}
	if b, ok := leftValue.(bool); ok {
		if r, ok := rightValue.(bool); ok {
			return exprValue{value: b == r}, nil
		}
	}
	return exprValue{value: false}, nil
}

type equality3Expression struct {''','''	if l, ok := leftValue.(string); ok {
		if r, ok := rightValue.(string); ok {
			return exprValue{value: strings.TrimRight(l, " ") == r}, nil
		}
	}
	if b, ok := leftValue.(bool); ok {
		if r, ok := rightValue.(bool); ok {
			return exprValue{value: b == r}, nil
		}
	}
	return exprValue{value: false}, nil
}

type equality3Expression struct {''')],
'''func main() { sel(`["a","a "]`, "$[?(@=='a')]", "$[0]") }''',
"A string with a space at its end compared with the same string without it","They are equal")
seed("c06-utf16","C06",[("expression.go",'''		if i < j {
			return -1, true, nil
		}
		if i > j {
			return 1, true, nil
		}
		return 0, true, nil
	}
	return 0, false, nil''','''		return utf16Compare(i, j), true, nil
	}
	return 0, false, nil'''),("expression.go","type relationalExpression struct {",'''// Compares strings by code units
func utf16Compare(a, b string) int {
	x, y := utf16.Encode([]rune(a)), utf16.Encode([]rune(b))
	for i := range x {
		if i >= len(y) {
			return 1
		}
		if x[i] != y[i] {
			return int(x[i]) - int(y[i])
		}
	}
	return len(x) - len(y)
}

type relationalExpression struct {''')],
'''func main() { sel("[\\"\\U0001F600\\",\\"\\uFF5E\\"]", "$[?(@>'\\uFF5E')]", "$[0]") }''',
"Strings with characters beyond the basic plane and characters above the surrogates","Strings are ordered by UTF-16 code units")
seed("c06-huge","C06",[("expression.go",'''		if f, ok := n.(float64); ok {
			j = f
		} else if f, ok := n.(int); ok {
			j = float64(f)
		}
		if i < j {''','''		if f, ok := n.(float64); ok {
			j = f
		} else if f, ok := n.(int); ok {
			j = float64(float32(f))
		}
		if i < j {''')],
'''func main() { sel(`[16777216.5]`, "$[?(@<16777217)]", "$[0]") }''',
"A decimal compared with an integer of more than 24 bits, on its right hand side","The integer loses precision")
seed("c07-mod-int","C07",[("expression.go",'''	if fr == 0 {
		return exprValue{}, nil
	}
	return exprValue{value: math.Mod(float64(i), fr)}, nil''','''	if math.Abs(fr) < 1 {
		return exprValue{}, nil
	}
	return exprValue{value: math.Mod(float64(i), fr)}, nil''')],
'''func main() { sel(`[3]`, "$[?(@%0.4>0.1)]", "$[0]") }''',
"The remainder of an integer divided by a decimal less than one","There is no result")
