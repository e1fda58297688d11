seed("c08-len-many","C08",[("funcs.go",'''	if x, ok := in[0].([]any); ok {
		return len(x), nil
	}
	return 0, nil''','''	x, _ := in[0].([]any)
	n := len(x)
	for n > 0 && x[n-1] == nil {
		// Not set
		n--
	}
	return n, nil'''),("expression.go",'''		args = append(args, e.getValue())
	}
	val, err := funcCall(args)
	if err != nil {
		return exprValue{}, err
	}
	return exprValue{value: val}, nil
}

// inPath''','''		v := e.getValue()
		if arr, ok := v.([]any); ok {
			// Functions get values, not nodes
			for i := range arr {
				if n, ok := arr[i].(nodeValue); ok {
					arr[i] = n.getValue()
				}
			}
		}
		args = append(args, v)
	}
	val, err := funcCall(args)
	if err != nil {
		return exprValue{}, err
	}
	return exprValue{value: val}, nil
}

// inPath''')],
'''func main() { sel(`[[1,null],[1]]`, "$[?(length(@)==2)]", "$[0]") }''',
"The length of an array that ends with null, with the function rather than the method","Nulls at the end of the array are not counted")
seed("c08-in-sorted","C08",[("expression.go",'''		if eq.asBool() {
			return exprValue{value: true}, nil
		}
	}''','''		if eq.asBool() {
			return exprValue{value: true}, nil
		}
	}'''),("expression.go",'''	for _, x := range arr {
		var v any
		if n, ok := x.(nodeValue); ok {''','''	for i, x := range arr {
		var v any
		if i+1 < len(arr) && x == nil && arr[i+1] == nil {
			// End of the list
			break
		}
		if n, ok := x.(nodeValue); ok {''')],
'''func main() { sel(`[3,1]`, "$[?(@ in [1,null,null,3])]", "$[0] $[1]") }''',
"A list literal with two nulls in a row before the element","The elements after the nulls are ignored")
seed("c10-x7f","C10",[("expression.go",'''					v, _ := strconv.ParseInt(string(buf), 16, 32)
					out = append(out, rune(v))
					if n''','''					v, _ := strconv.ParseInt(string(buf), 16, 16)
					out = append(out, rune(v))
					if n''')],
'''func main() { sel("{\\"\\uFF5E\\":1}", "$['\\\\uFF5E']", "$.\\uFF5E") }''',
"\\uHHHH with a character above U+7FFF","The escape denotes another character")
seed("c11-hex-sign","C11",[("expression.go",'''		v, _ := strconv.ParseInt(number, 10, 64)
		return int(v)
	}

	if lit := ctx.HexInteger''','''		if v, err := strconv.ParseInt(number, 10, 32); err == nil {
			return int(v)
		}
		v, _ := strconv.ParseFloat(number, 64)
		return v
	}

	if lit := ctx.HexInteger''')],
'''func main() { sel(`[9007199254740993]`, "$[?(@==9007199254740992)]", "") }''',
"An integer literal of more than 53 bits","The literal is rounded to a float")
seed("c14-ident-null","C14",[("parser.go",'''	return &keySelector{
		key: ctx.GetText(),
	}, nil
}''','''	key := ctx.GetText()
	if _, chained := ctx.GetParent().(*parser.RecursiveDescentExpressionContext); chained && strings.HasPrefix(key, "$") {
		key = key[1:]
	}
	return &keySelector{key: key}, nil
}''')],
'''func main() { sel(`{"a":{"$ref":1,"ref":2}}`, "$..$ref", "$.a.$ref") }''',
"An identifier that starts with $ after a recursive descent","The $ is removed from the key")
seed("c16-mod-zero","C16",[("expression.go",'''		if ir == 0 {
			return exprValue{}, nil
		}
		return exprValue{value: i % ir}, nil''','''		if ir == 0 && i != 0 {
			return exprValue{}, nil
		}
		return exprValue{value: i % ir}, nil''')],
'''func main() { if s := search(doc(`[0]`), compile("$[?(@%@==0)]")); strings.HasPrefix(s, "panic") { fail(s) } }''',
"0 modulo 0","Evaluation panics")
seed("c17-type","C17",[("itr.go",'''	seg.Node = s.doc.Elem(s.node, s.at)
	seg.Type = s.doc.Type(seg.Node)
	seg.Index = s.at''','''	seg.Node = s.doc.Elem(s.node, s.at)
	if seg.Type == ValueNode {
		seg.Type = s.doc.Type(seg.Node)
	}
	seg.Index = s.at'''),("path.go",'''			for childNodeElements.next() {
				var childNode Segment
''','''			var childNode Segment
			for childNodeElements.next() {
''')],
'''func main() {
	for _, p := range []string{"$[:]", "$[1:]", "$[::2]"} {
		err := gj.Search(doc(`[[1],2,{"a":1},[2]]`), compile(p), func(d gj.DocPath) {
			if d.Last().Type != d.Last().Node.(*N).typ {
				fail("type reported for " + loc(d))
			}
		})
		if err != nil {
			fail(err.Error())
		}
	}
}''',
"A slice of an array whose elements are of different types, with a container before another element","The type reported for the later elements is that of the first container")
seed("c18-sort","C18",[("path.go",'''			for _, key := range ctx.doc.Keys(node) {
				value, _ := ctx.doc.Key(node, key)
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {''','''			keys := ctx.doc.Keys(node)
			sort.Strings(keys)
			for _, key := range keys {
				value, _ := ctx.doc.Key(node, key)
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {'''),("path.go",'	"errors"\n','	"errors"\n	"sort"\n')],
'''func main() {
	m := doc(`{"b":1,"a":2}`)
	search(m, compile("$.*"))
	same("keys of the document", strings.Join(m.root.keys, ","), "b,a")
}''',
"A model that returns the keys it stores","The document's own list of keys is sorted in place")
