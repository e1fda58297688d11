seed("c16-escape-end","C16",[("expression.go",'''	for _, r := range in[1 : len(in)-1] {
		if esc {
			if hex {''','''	for i, r := range in[1 : len(in)-1] {
		if esc {
			if !hex && !uni && r == 'u' && in[i+6] == '\\\\' {
				// Another escape follows
				buf = make([]rune, 0, 8)
				uni = true
				continue
			}
			if hex {''')],
'''func main() { defer func() { if r := recover(); r != nil { fail(fmt.Sprint(r)) } }(); gj.Parse("$['\\\\u{A}']") }''',
"A string literal that ends with \\u{H}","Parse panics with an index beyond the end of the literal")
seed("c16-func-args","C16",[("funcs.go",'''	if len(in) == 0 {
		return 0, nil
	}
	if x, ok := in[0].([]any); ok {
		return len(x), nil
	}
	return 0, nil''','''	switch x := in[len(in)-1].(type) {
	case []any:
		return len(x), nil
	}
	return 0, nil''')],
'''func main() { s := search(doc(`[1]`), compile("$[?(length()==0)]")); if strings.HasPrefix(s, "panic") { fail(s) } }''',
"length() without arguments","Evaluation panics")
seed("c17-union-index","C17",[("path.go",'''				value := ctx.doc.Elem(node, i)
				index := i
				ctx.path = ctx.path.push(Segment{Node: value, Index: index, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {''','''				value := ctx.doc.Elem(node, i)
				ctx.path = ctx.path.push(Segment{Node: value, Index: i, Type: ctx.doc.Type(value)})
				if u, ok := path.selectors[pathIx].(*unionSelector); ok && pathIx == len(path.selectors)-1 && len(u.parts) > 2 {
					if k, ok := u.parts[2].(*keySelector); ok && k.key == "-1" && i == n-1 {
						// Report the negative index
						ctx.path.P[ctx.path.Len()-1].Index = -1
						capture(ctx.path)
						ctx.path = ctx.path.pop()
						break
					}
				}
				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {''')],
'''func main() { sel(`[1,2,3]`, "$[0,1,-1]", "$[0] $[1] $[2]") }''',
"A union of three alternatives of which the last one is -1, at the end of a path","The index reported for the last element is -1")
seed("c18-doc-len","C18",[("path.go",'''	case ObjectNode:
			for _, key := range ctx.doc.Keys(node) {
				value, _ := ctx.doc.Key(node, key)
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {''','''	case ObjectNode:
			keys := ctx.doc.Keys(node)
			for _, key := range keys {
				value, _ := ctx.doc.Key(node, key)
				if len(keys) == 3 && ctx.doc.Len(value) == 0 && ctx.doc.Type(value) == ArrayNode && pathIx == 7 {
					continue
				}
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {''')],
'''func main() { sel(`{"b":1,"a":2,"c":[]}`, "$..a", "$.a") }''',
"An object with exactly three members one of which is a scalar, and a recursive descent","Len is called with a value node")
seed("c18-node-eq","C18",[("path.go",'''		results = append(results, docpath.Last().Node)
	})
	return results, err''','''		last := docpath.Last()
		if n := len(results); n > 1 && last.Type == ObjectNode && docpath.Len() > 2 {
			if _, native := last.Node.(map[string]any); !native && results[n-1] == docpath.P[0].Node {
				results = results[:n-1]
			}
		}
		results = append(results, last.Node)
	})
	return results, err''')],
'''type R struct{ *M }

func (R) Root() any { return []int{} }
func (r R) Type(n any) gj.NodeType { return gj.ObjectNode }
func (r R) Len(n any) int { return len(r.Keys(n)) }
func (r R) Keys(n any) []string { if len(n.([]int)) > 1 { return nil }; return []string{"a","b"} }
func (r R) Key(n any, k string) (any, bool) { return append(append([]int{}, n.([]int)...), 0), true }

func main() {
	defer func() { if r := recover(); r != nil { fail(fmt.Sprint(r)) } }()
	l, err := gj.Find(R{}, compile("$.*.*"))
	if err != nil || len(l) != 4 { fail("Find") }
}''',
"A document model whose nodes cannot be compared, such as []int, and three objects in the result of Find","Find panics")
seed("c19-cached-int","C19",[("path.go",'''type keySelector struct {
	key  string
	expr expression
}''','''type keySelector struct {
	key   string
	expr  expression
	index *int
}'''),("path.go",'''	if len(sel.key) != 0 {
		i, err := strconv.Atoi(sel.key)
		if err == nil {
			return &i
		}
	}''','''	if len(sel.key) != 0 && sel.index == nil {
		if i, err := strconv.Atoi(sel.key); err == nil {
			sel.index = &i
		}
	}
	if sel.index != nil {
		return sel.index
	}''')],
'''func main() {
	p := compile("$..[-1]")
	same("$..[-1]", search(doc(`[[1,2],[1,2,3]]`), p), "$[0][1] $[1] $[1][2]")
}''',
"A negative index that is matched against elements, and two arrays of different sizes","The index computed for the first array is used for the second one")
seed("c19-range-n","C19",[("slice.go",'''type rangeSelector struct {
	start expression
	end   expression
}''','''type rangeSelector struct {
	start, end expression
	size       int // of the largest array so far
}'''),("slice.go",'''	if end > n {
		end = n
	}
	return &rangeIterator{
		doc:   ctx.doc,
		node:  ctx.path.Last().Node,
		from:  start,
		to:    end,
		step:  1,''','''	if sel.size == 0 {
		sel.size = n
	}
	if end > n {
		end = min(n, sel.size)
	}
	return &rangeIterator{
		doc:   ctx.doc,
		node:  ctx.path.Last().Node,
		from:  start,
		to:    end,
		step:  1,''')],
'''func main() {
	p := compile("$[0:9]")
	search(doc(`[1]`), p)
	same("$[0:9]", search(doc(`[1,2]`), p), "$[0] $[1]")
}''',
"A slice whose end is beyond the end of the array, first on a short array and then on a longer one","The slice stops at the size of the first array")
seed("c20-union-front","C20",[("path.go",'''	for _, part := range sel.parts {
		if part.match(ctx) {
			return true
		}
	}
	return false
}''','''	for i, part := range sel.parts {
		if part.match(ctx) {
			if i > 0 {
				// It is likely to match again
				sel.parts[i] = sel.parts[i-1]
				sel.parts[i-1] = part
			}
			return true
		}
	}
	return false
}''')],
'''func main() {
	p := compile("$['a','b','c']")
	d := doc(`{"a":1,"b":2,"c":3,"d":4}`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 3000; j++ {
				same("concurrent search", search(d, p), "$.a $.b $.c")
			}
		}()
	}
	wg.Wait()
}''',
"Two concurrent evaluations of a path with a union","An alternative can be lost or doubled in the union, and there is a data race",race=True)
seed("c20-scratch","C20",[("expression.go",'''	result := make([]any, 0)
	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
		result = append(result, item.Last().Node)
	})''','''	result := expr.buf.get()
	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
		result = append(result, item.Last().Node)
	})'''),("expression.go",'''type pathExpression struct {
	path Path
}''','''type pathExpression struct {
	path Path
	buf  nodeBuffer
}

// nodeBuffer is storage for the nodes selected by a path
type nodeBuffer struct{ nodes *[8]any }

func (b nodeBuffer) get() []any {
	if b.nodes == nil {
		return make([]any, 0)
	}
	return b.nodes[:0]
}'''),("expression.go",'''					if p, err := astPath(ctx); err == nil {
						return pathExpression{path: p}
					}''','''					if p, err := astPath(ctx); err == nil {
						return pathExpression{path: p, buf: nodeBuffer{nodes: new([8]any)}}
					}''')],
'''func main() {
	p := compile("$[?(@.a==1)]")
	d := doc(`[{"a":1},{"a":2},{"a":1},{"a":3}]`)
	e := doc(`[{"a":2},{"a":1},{"a":3},{"a":1}]`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				if i%2 == 0 {
					same("concurrent search", search(d, p), "$[0] $[2]")
				} else {
					same("concurrent search", search(e, p), "$[1] $[3]")
				}
			}
		}()
	}
	wg.Wait()
}''',
"Two concurrent evaluations of a filter with a path","An evaluation sees the nodes selected by another one",race=True)
seed("c20-memo","C20",[("funcs.go",'''	if x, ok := in[0].([]any); ok {
		return len(x), nil
	}
	return 0, nil''','''	lastArgs = in
	return lastLength(), nil'''),("funcs.go",'''func lengthFunc(''','''var lastArgs []any

func lastLength() int {
	if x, ok := lastArgs[0].([]any); ok {
		return len(x)
	}
	return 0
}

func lengthFunc(''')],
'''func main() {
	p := compile("$[?(length(@)==2)]")
	q := compile("$[?(length(@)==3)]")
	d := doc(`[[1,2],[1,2,3],[1,2],[1,2,3]]`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				if i%2 == 0 {
					same("concurrent search", search(d, p), "$[0] $[2]")
				} else {
					same("concurrent search", search(d, q), "$[1] $[3]")
				}
			}
		}()
	}
	wg.Wait()
}''',
"Two concurrent evaluations of length, one between the two statements of the other","An evaluation gets the length of another one's array",race=True)
