# --- round 14
seed("c19-pool-panic","C19",[("path.go",'''	ctx := &context{
		doc: doc,
		path: DocPath{
			P: make([]Segment, 0, 128),
		},
	}
''','''	ctx := contexts.Get().(*context)
	ctx.doc = doc
	defer contexts.Put(ctx)
'''),("path.go",'''	return evaluateAt(ctx, path, 0, func(p DocPath) {
		// ctx.path is modified during the traversal. capture gets its own copy
		capture(DocPath{P: append([]Segment(nil), p.P...)})
	})
}
''','''	err := evaluateAt(ctx, path, 0, func(p DocPath) {
		// ctx.path is modified during the traversal. capture gets its own copy
		capture(DocPath{P: append([]Segment(nil), p.P...)})
	})
	ctx.path.P = ctx.path.P[:0]
	return err
}

var contexts = sync.Pool{New: func() any {
	return &context{path: DocPath{P: make([]Segment, 0, 128)}}
}}
'''),("path.go",'''	"strconv"
''','''	"strconv"
	"sync"
''')],
'''func main() {
	time.Sleep(0)
	runtime.GOMAXPROCS(1)
	d := gj.MapModel{Doc: map[string]any{"a": []any{1, 2}}}
	for i := 0; i < 20; i++ {
		func() {
			defer func() { recover() }()
			gj.Search(d, compile("$.a[*]"), func(gj.DocPath) { panic("enough") })
		}()
		r, _ := gj.Find(d, compile("$.a[1]"))
		same("after an abandoned search", fmt.Sprint(r), "[2]")
	}
}''',
"A search that a panic of the capture function ends, then another","The other one starts at the node where the first one ended")
seed("c16-method-nil","C16",[("expression.go",'''	args := make([]any, 0, len(expr.args)+1)
	args = append(args, receiver.getValue())
''','''	args := make([]any, 0, len(expr.args)+1)
	switch v := receiver.getValue().(type) {
	case []any:
		args = append(args, v[:len(v):len(v)])
	case nodeValue, string:
		args = append(args, v)
	default:
		args = append(args, fmt.Sprint(v.(any)))
	}
''')],
'''func main() {
	sel(`[null]`, "$[?(@.length()>0)]", "")
}''',
"A method that is called on a null","It panics")
seed("c18-prefetch","C18",[("itr.go",'''	seg.Node = s.doc.Elem(s.node, s.at)
	seg.Type = s.doc.Type(seg.Node)
	seg.Index = s.at
''','''	elem := s.doc.Elem(s.node, s.at)
	if s.step < -1 {
		// The next one is likely to be in the same page
		s.doc.Elem(s.node, s.at+s.step)
	}
	seg.Node, seg.Type, seg.Index = elem, s.doc.Type(elem), s.at
'''),],
'''func main() {
	d := doc(`[1,2,3,4]`)
	same("r", search(d, compile("$[::-2]")), "$[3] $[1]")
}''',
"A slice with a step less than -1","An element before the first one is asked for")
seed("c20-lazy-funcs","C20",[("funcs.go",'''var predefinedFunctions = map[string]func([]any) (any, error){
	"length": lengthFunc,
}
''','''var predefinedFunctions = map[string]func([]any) (any, error){}

func function(name string) func([]any) (any, error) {
	f, ok := predefinedFunctions[name]
	if !ok && name == "length" {
		f = lengthFunc
		predefinedFunctions[name] = f
	}
	return f
}
'''),("expression.go",'''	funcCall := predefinedFunctions[expr.name]
	if funcCall == nil {
		return exprValue{}, fmt.Errorf("Function not found: %s", expr.name)
	}
	args := make([]any, 0, len(expr.args))
''','''	funcCall := function(expr.name)
	if funcCall == nil {
		return exprValue{}, fmt.Errorf("Function not found: %s", expr.name)
	}
	args := make([]any, 0, len(expr.args))
'''),("expression.go",'''	funcCall := predefinedFunctions[expr.name]
	if funcCall == nil {
		return exprValue{}, fmt.Errorf("Function not found: %s", expr.name)
	}
	args := make([]any, 0, len(expr.args)+1)
''','''	funcCall := function(expr.name)
	if funcCall == nil {
		return exprValue{}, fmt.Errorf("Function not found: %s", expr.name)
	}
	args := make([]any, 0, len(expr.args)+1)
''')],
'''func main() {
	d := gj.MapModel{Doc: []any{[]any{1}}}
	p := compile("$[?(length(@)==1)]")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			gj.Find(d, p)
		}()
	}
	wg.Wait()
}''',
"The first two calls of a function in the process are concurrent","They write to a map at the same time",race=True)
seed("c08-in-self","C08",[("expression.go",'''	arr, ok := r.getValue().([]any)
	if !ok {
		arr = []any{r.value}
	}
''','''	arr, ok := r.getValue().([]any)
	switch inner := first(arr).(type) {
	case []any:
		// A list of one list
		arr = inner
	default:
		if !ok {
			arr = []any{r.value}
		}
	}
'''),("expression.go",'''type inExpression struct {
''','''// first is the element of a list of one
func first(list []any) any {
	if len(list) == 1 {
		return list[0]
	}
	return nil
}

type inExpression struct {
''')],
'''func main() { sel(`[1,2]`, "$[?(@ in [[1,3]])]", "") }''',
"A list whose only element is a list","The elements of the inner list are compared")
seed("c09-range-parent","C09",[("slice.go",'''	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
	index := ctx.path.Last().Index
	return index >= start && index < end
''','''	at := ctx.parent()
	if _, ok := sel.start.(pathExpression); ok && sel.end == nil && ctx.path.Last().Type == ArrayNode {
		at = ctx
	}
	start, end := getRange(at, sel.start, sel.end, n)
	last := ctx.path.Last()
	return last.Index >= start && last.Index < end
''')],
'''func main() { sel(`[[1,5,1],[2,6,0],7]`, "$[@[2]:,0]", "$[0]") }''',
"An open range with a path as its start, in a union, on an array of arrays","The path is evaluated at the element")
