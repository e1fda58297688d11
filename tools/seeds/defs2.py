seed("c01-numkey","C11",[("path.go",'''	if len(sel.key) != 0 {
		i, err := strconv.Atoi(sel.key)
		if err == nil {
			return &i
		}
	}''','''	if len(sel.key) != 0 {
		i, err := strconv.ParseInt(sel.key, 0, 0)
		if err == nil {
			n := int(i)
			return &n
		}
	}''')],
'''func main() { sel(`[[0,1,2,3,4,5,6,7,8,9]]`, "$[0][010]", ""); sel(`[0,1,2,3,4,5,6,7,8,9]`, "$[010]", ""); sel(`[[0,1,2,3,4,5,6,7,8,9,10]]`, "$[0][010]", "$[0][10]") }''',
"An array index spelled with a leading zero","An index with a leading zero is read as octal")
seed("c02-range-match-empty-end","C02",[("slice.go",'''	index := ctx.path.Last().Index
	return index >= start && index < end
''','''	if end <= start {
		// Omitted or negative end
		end = n
	}
	index := ctx.path.Last().Index
	return index >= start && index < end && sel.end != nil || index >= start && sel.end == nil
''')],
'''func main() { sel(`[[0,1,2,3]]`, "$[0]..[2:1]", ""); sel(`[0,1,2,3]`, "$[3:1,0]", "$[0]") }''',
"A slice whose end does not come after its start, in a union or after ..","Such a slice selects all elements from its start")
seed("c03-desc-guard","C03",[("path.go",'''	descend = func() error {
		node := ctx.path.Last().Node
		switch ctx.doc.Type(node) {''','''	seen := 0
	descend = func() error {
		node := ctx.path.Last().Node
		if seen++; seen > 1<<10 {
			return nil
		}
		switch ctx.path.Last().Type {''')],
'''func main() {
	d := "[" + strings.Repeat("[0],", 1100) + "[7]]"
	m := doc(d)
	n := 0
	if err := gj.Search(m, compile("$..[0]"), func(gj.DocPath) { n++ }); err != nil || n != 1102 {
		fail(fmt.Sprint("$..[0] on an array of 1101 arrays selects ", n))
	}
}''',
"A document with more than 1024 nodes and a recursive descent","Recursive descent stops after 1024 nodes")
seed("c03-double","C03",[("path.go",'''	// Descend
	if !path.recursive[pathIx] {''','''	// Descend
	if !path.recursive[pathIx] || pathIx+2 < len(path.selectors) && path.recursive[pathIx+1] && isEmptyNode(ctx) {'''),("path.go","type rootElementSelector struct{}",'''// isEmptyNode tells if the current node has no descendants below its children
func isEmptyNode(ctx *context) bool {
	last := ctx.path.Last()
	if last.Type != ArrayNode {
		return false
	}
	for i := 0; i < ctx.doc.Len(last.Node); i++ {
		if el := ctx.doc.Elem(last.Node, i); ctx.doc.Type(el) == ArrayNode && ctx.doc.Len(el) > 0 {
			return false
		}
	}
	return true
}

type rootElementSelector struct{}''')],
'''func main() { sel(`[{"a":{"b":{"c":1}}}]`, "$..*..c", "$[0].a.b.c $[0].a.b.c $[0].a.b.c"); sel(`[{"a":{"b":{"c":1}}}]`, "$..b..c", "$[0].a.b.c") }''',
"A path with two recursive descents, and an array of objects with deep descendants","The first recursive descent does not descend into the objects of the array")
seed("c05-trunc","C05",[("expression.go",'''	if f, ok := value.(float64); ok {
		return f != 0
	}''','''	if i, ok := valueAsInt(value); ok {
		return i != 0
	}''')],
'''func main() { sel(`[{"a":0.5},{"a":2}]`, "$[?(@.a)]", "$[0] $[1]"); sel(`[{"a":"0"}]`, "$[?(@.a)]", "$[0]") }''',
"A number between -1 and 1 as predicate, or the string 0","A filter is false for a value of 0.5")
seed("c05-root-filter","C05",[("path.go",'''	v, err := sel.filter.evaluate(ctx)
	if err != nil {''','''	v, err := sel.filter.evaluate(&context{doc: ctx.doc, path: DocPath{P: ctx.path.P[max(0, ctx.path.Len()-2):]}})
	if err != nil {''')],
'''func main() { sel(`{"a":[{"b":1},{"b":2}],"x":2}`, "$.a[?(@.b==$.x)]", "$.a[1]"); sel(`{"a":[[{"b":1},{"b":2}]],"x":2}`, "$.a[0][?(@.b==$.x)]", "$.a[0][1]") }''',
"A filter that refers to the document root, two levels or more below the root","$ denotes the parent of the candidate")
seed("c06-trunc","C06",[("expression.go","return exprValue{value: i == float64(j)}, nil","return exprValue{value: int(i) == j}, nil")],
'''func main() { sel(`[1.5,1]`, "$[?(@==1)]", "$[1]") }''',
"A decimal on the left hand side, an integer on the right hand side that is its integer part","They are equal")
seed("c07-pow-int","C07",[("expression.go",'''		return exprValue{value: math.Pow(float64(i), float64(ir))}, nil''','''		p := 1
		for ; ir > 0; ir-- {
			p *= i
		}
		return exprValue{value: p}, nil''')],
'''func main() { sel(`[0.25]`, "$[?(@==2**-2)]", "$[0]"); }''',
"An integer to a negative integer power","The power is 1")
