seed("c01-union-fold","C04",[("path.go","return ctx.path.Last().Name == sel.key","return strings.EqualFold(ctx.path.Last().Name, sel.key)"),("path.go",'	"strconv"\n','	"strconv"\n	"strings"\n')],
'''func main() { sel(`{"id":1,"ID":2,"x":{"Id":3}}`, "$['id','x']", "$.id $.x") }''',
"A key selector that is matched against members (union, recursive descent) and a document with keys that differ in case only","Keys are compared without regard to case when a selector is matched rather than looked up")
seed("c03-depth","C03",[("path.go","	descend = func() error {\n		node := ctx.path.Last().Node\n","	descend = func() error {\n		if ctx.path.Len() >= maxDepth {\n			return nil\n		}\n		node := ctx.path.Last().Node\n"),("path.go","			P: make([]Segment, 0, 128),","			P: make([]Segment, 0, maxDepth),"),("path.go","// Search iterates all","// maxDepth is the depth of the deepest document\nconst maxDepth = 128\n\n// Search iterates all")],
'''func main() {
	d := `{"x":1}`
	w := "$.x"
	for i := 0; i < 150; i++ {
		d = "[" + d + "]"
	}
	w = "$" + strings.Repeat("[0]", 150) + ".x"
	sel(d, "$..x", w)
}''',
"A document nested deeper than 127 levels and a recursive descent","Recursive descent stops at a depth of 128")
seed("c04-chain","C04",[("path.go",'''func (sel *unionSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
	return nil, false
}''','''func (sel *unionSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
	if !isObject(ctx.path) {
		return nil, false
	}
	// Look up the keys rather than trying all members
	chain := chainIterator{}
	for _, part := range sel.parts {
		key, ok := part.(*keySelector)
		if !ok {
			return nil, false
		}
		itr, _ := key.selectChildNodes(ctx)
		chain.parts = append(chain.parts, itr)
	}
	return &chain, true
}'''),("itr.go","func (i *singleIterator) item(s *Segment) { *s = i.seg }",'''func (i *singleIterator) item(s *Segment) { *s = i.seg }

type chainIterator struct {
	parts []iterator
}

func (i *chainIterator) next() bool {
	for len(i.parts) > 0 {
		if i.parts[0].next() {
			return true
		}
		i.parts = i.parts[1:]
	}
	return false
}

func (i *chainIterator) item(s *Segment) { i.parts[0].item(s) }''')],
'''func main() { sel(`{"a":1,"b":2}`, "$['b','a','b']", "$.a $.b") }''',
"A union of keys only that names a key twice, or in another order than the document, on an object","A member is selected twice, or in the order of the union")
seed("c04-range-first","C04",[("path.go",'''	for _, part := range sel.parts {
		if part.match(ctx) {
			return true
		}
	}
	return false
}''','''	for i, part := range sel.parts {
		if part.match(ctx) {
			return true
		}
		if r, ok := part.(*rangeSelector); ok && r.start != nil && i+1 < len(sel.parts) && isArrayElement(ctx.path) {
			// Elements before the range
			if from, to := getRange(ctx.parent(), r.start, nil, ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)); from > ctx.path.Last().Index && to > from {
				return ctx.path.Last().Index == 0 && sel.parts[i+1].match(ctx)
			}
		}
	}
	return false
}''')],
'''func main() { sel(`[0,1,2,3]`, "$[2:,1]", "$[1] $[2] $[3]") }''',
"A union with a range that has a start, followed by an alternative for an element before it other than the first","The alternatives after a range are ignored for elements before the range")
