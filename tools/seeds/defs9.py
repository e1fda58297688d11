# --- round 9
seed("c03-visited","C03",[("path.go",'''		node := ctx.path.Last().Node
		switch ctx.doc.Type(node) {
		case ValueNode:
			// No descendants, and''','''		node := ctx.path.Last().Node
		if v := reflect.ValueOf(node); v.Kind() == reflect.Map {
			if visited[v.Pointer()] {
				// A cycle
				return nil
			}
			visited[v.Pointer()] = true
		}
		switch ctx.doc.Type(node) {
		case ValueNode:
			// No descendants, and'''),("path.go",'''	var descend func() error
''','''	var descend func() error
	visited := map[uintptr]bool{}
'''),("path.go",'''			for _, key := range ctx.doc.Keys(node) {
				value, _ := ctx.doc.Key(node, key)
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {''','''			keys := ctx.doc.Keys(node)
			for i := range keys {
				key := keys[i]
				value, _ := ctx.doc.Key(node, key)
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {'''),("path.go",'	"errors"\n','	"errors"\n	"reflect"\n')],
'''func main() {
	shared := map[string]any{"x": 1}
	r, _ := gj.Find(gj.MapModel{Doc: []any{shared, shared}}, compile("$..x"))
	same("$..x", fmt.Sprint(r), "[1 1]")
}''',
"A document that contains the same Go map twice","The second occurrence is not descended into")
seed("c05-or-value","C05",[("expression.go",'''	if v.asBool() {
		return exprValue{value: true}, nil
	}
	v, err = expr.right.evaluate(ctx)''','''	if v.asBool() {
		return v, nil
	}
	v, err = expr.right.evaluate(ctx)''')],
'''func main() {
	sel(`[{"a":2},{"a":0,"b":3}]`, "$[?((@.a || @.b)==true)]", "$[0] $[1]")
}''',
"The disjunction of a path that selects a true value, as operand of a comparison","The disjunction is the value rather than true")
seed("c06-eps","C06",[("expression.go",'''		if j, ok := rightValue.(float64); ok {
			return exprValue{value: i == j}, nil
		}
		if j, ok := rightValue.(int); ok {
			return exprValue{value: i == float64(j)}, nil
		}''','''		if j, ok := rightValue.(float64); ok {
			return exprValue{value: i == j || math.Abs(i-j) < 1e-15*math.Abs(i)}, nil
		}
		if j, ok := rightValue.(int); ok {
			return exprValue{value: i == float64(j)}, nil
		}''')],
'''func main() {
	sel("[100.00000000000001]", "$[?(@==100.00000000000003)]", "")
	sel("[100.00000000000001]", "$[?(@==100.0)]", "")
	sel("[9007199254740990.0]", "$[?(@==9007199254740991.0)]", "")
}''',
"Two decimals that differ in the last place only","They are equal")
seed("c06-negzero","C06",[("expression.go",'''		if j, ok := rightValue.(float64); ok {
			return exprValue{value: i == j}, nil
		}
		if j, ok := rightValue.(int); ok {
			return exprValue{value: i == float64(j)}, nil
		}''','''		j, ok := rightValue.(float64)
		if n, isInt := rightValue.(int); isInt {
			j, ok = float64(n), true
		}
		if ok {
			return exprValue{value: math.Float64bits(i) == math.Float64bits(j)}, nil
		}''')],
'''func main() {
	sel("[1]", "$[?(-0.0==0)]", "$[0]")
}''',
"A negative zero compared with zero","They are not equal")
seed("c07-mod-floor","C07",[("expression.go",'''			return exprValue{value: math.Mod(fl, fr)}, nil''','''			q := fl / fr
			return exprValue{value: fl - fr*math.Trunc(q)}, nil''')],
'''func main() {
	sel("[1]", "$[?(1.0%0.1==0.09999999999999995)]", "$[0]")
}''',
"The remainder of two decimals whose quotient is nearly an integer","The remainder is 0")
seed("c08-bsearch","C08",[("expression.go",'''	for _, x := range arr {
		var v any''','''	if len(arr) > 4 {
		// Long lists of integers in order
		ints := make([]int, 0, len(arr))
		for _, x := range arr {
			if i, ok := x.(int); ok {
				ints = append(ints, i)
			}
		}
		if len(ints) == len(arr) && sort.IntsAreSorted(ints) {
			i, ok := valueAsInt(l.getValue())
			at := sort.SearchInts(ints, i)
			return exprValue{value: ok && at < len(ints) && ints[at] == i}, nil
		}
	}
	for _, x := range arr {
		var v any'''),("expression.go",'	"math"\n','	"math"\n	"sort"\n'),("expression.go",'''	if r.value == nil {
		return exprValue{}, err
	}
	arr, ok''','''	if r.value == nil {
		return exprValue{}, nil
	}
	arr, ok''')],
'''func main() {
	sel(`[2.5,"3",4]`, "$[?(@ in [1,2,3,4,5])]", "$[2]")
}''',
"A list literal of at least five integers in order, and a decimal or a string","A decimal or a string is found in the list")
seed("c12-ctrl","C12",[("escape.go",'''		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
			bad = true
			break
		}''','''		if r > ' ' && r < 0x7f && !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
			bad = true
			break
		}
		if r <= ' ' {
			bad = i == 0 || r != '\\x1f'
			if bad {
				break
			}
		}''')],
'''func main() {
	k := "a\\x1fb"
	r, err := gj.ParseAndFind(gj.MapModel{Doc: map[string]any{k: 1}}, gj.Join(k))
	same(k, fmt.Sprint(r, err), "[1] <nil>")
}''',
"A key with the character U+001F or U+007F after its first character","The path is malformed")
seed("c13-underscore","C13",[("simplepath.go",'''				key: id.GetText(),''','''				key: strings.TrimSuffix(id.GetText(), "-"),'''),("simplepath.go",'import (\n','import (\n	"strings"\n\n')],
'''func main() {
	sel(`{"a-":1,"a":2}`, "/a-", "$.a-")
}''',
"A component that ends with a dash","The component loses the dash")
seed("c14-crlf","C14",[("parser.go",'''	pr := getParser(input)
	pr.RemoveErrorListeners()''','''	if strings.HasSuffix(input, "\\r\\n") {
		// The end of the line is no part of the path
		input = input[:len(input)-2]
	} else if i := strings.Index(input, " \\t"); i > 0 && !strings.ContainsAny(input, "\\"'") {
		input = input[:i]
	}
	pr := getParser(input)
	pr.RemoveErrorListeners()'''),("parser.go","	c := pr.Path()\n","	c := pr.Path() // the whole input\n")],
'''func main() {
	sel(`{"a":[{"b":1}]}`, "$.a \\t[0] . b", "$.a[0].b")
	sel(`{"a":[{"b":1}]}`, "$.a[0].b \\t", "$.a[0].b")
}''',
"A space followed by a tab within a path without quotes","The rest of the path is ignored")
seed("c15-second-error","C15",[("parser.go",'''	if lst.err == nil {
		lst.err = ErrSyntax''','''	if lst.err == nil || e != nil && line > 1 {
		lst.err = ErrSyntax'''),("parser.go",'''	if errListener.err != nil {
		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
	}
	// Build''','''	if errListener.err != nil && !(strings.HasSuffix(input, "\\n") && strings.Contains(errListener.err.Error(), "line 2:0")) {
		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
	}
	// Build''')],
'''func main() {
	bad("$.a ]")
	bad("$.a\\n]\\n")
	bad("$.a\\n\\n]")
}''',
"A misplaced token at the start of the second line, and a line end at the end of the input","The path is accepted")
seed("c17-arena","C17",[("path.go",'''	return evaluateAt(ctx, path, 0, func(p DocPath) {
		// ctx.path is modified during the traversal. capture gets its own copy
		capture(DocPath{P: append([]Segment(nil), p.P...)})
	})''','''	var block []Segment
	return evaluateAt(ctx, path, 0, func(p DocPath) {
		// ctx.path is modified during the traversal. capture gets its own copy
		if cap(block)-len(block) < len(p.P) {
			block = make([]Segment, 0, 256+len(p.P))
		}
		n := len(block)
		block = append(block, p.P...)
		capture(DocPath{P: block[n:]})
	})'''),("path.go",'''			P: make([]Segment, 0, 128),''','''			P: make([]Segment, 0, 64),''')],
'''func main() {
	var l []gj.DocPath
	var ext gj.DocPath
	gj.Search(doc("[0,1,2]"), compile("$[*]"), func(p gj.DocPath) {
		l = append(l, p)
		ext = p.Key("x", nil, gj.ValueNode)
	})
	_ = ext
	p := l[0].Key("y", nil, gj.ValueNode)
	same("first", loc(l[0]), "$[0]")
	same("second", fmt.Sprint(l[1].P[0].Type, l[1].P[0].Node == nil), "2 false")
	_ = p
}''',
"A captured path that is extended after a later one was captured","The later path is overwritten")
seed("c18-fastmap","C18",[("path.go",'''		node, ok := ctx.doc.Key(ctx.path.Last().Node, sel.key)
		if !ok {''','''		var node any
		var ok bool
		if obj, isMap := ctx.path.Last().Node.(map[string]any); isMap {
			node, ok = obj[sel.key]
		} else {
			node, ok = ctx.doc.Key(ctx.path.Last().Node, sel.key)
		}
		if !ok {''')],
'''type prefixed struct{ gj.MapModel }

func (prefixed) Key(n any, k string) (any, bool) {
	v, ok := n.(map[string]any)["ns:"+k]
	return v, ok
}
func (p prefixed) Keys(n any) (l []string) {
	for _, k := range p.MapModel.Keys(n) {
		l = append(l, k[3:])
	}
	return
}
func main() {
	m := prefixed{gj.MapModel{Doc: map[string]any{"ns:a": 1}}}
	same("$.a", search(m, compile("$.a")), "$.a")
}''',
"A document model whose objects are Go maps with other keys than those of the document","The key is not found")
seed("c19-pool-results","C19",[("path.go",'''	results := make([]any, 0)
	err := Search(doc, path, func(docpath DocPath) {
		results = append(results, docpath.Last().Node)
	})
	return results, err''','''	buf := buffers.Get().(*[]any)
	results := (*buf)[:0]
	err := Search(doc, path, func(docpath DocPath) {
		results = append(results, docpath.Last().Node)
	})
	if len(results) < cap(results)/2 {
		// Most of the buffer is unused
		*buf = results[:len(results):cap(results)]
		ret := results[:len(results):len(results)]
		buffers.Put(buf)
		return ret, err
	}
	return results, err'''),("path.go",'''// Finds all document''','''var buffers = sync.Pool{New: func() any { b := make([]any, 0, 16); return &b }}

// Finds all document'''),("path.go",'	"strconv"\n','	"strconv"\n	"sync"\n')],
'''func main() {
	bad := 0
	for i := 0; i < 50; i++ {
		r, _ := gj.Find(gj.MapModel{Doc: []any{1, 2}}, compile("$[*]"))
		gj.Find(gj.MapModel{Doc: []any{8, 9}}, compile("$[*]"))
		if fmt.Sprint(r) != "[1 2]" {
			bad++
		}
	}
	same("bad", fmt.Sprint(bad), "0")
}''',
"Two evaluations with few results, one after the other, and a caller that keeps the first results","The results of the first evaluation are overwritten")
seed("c20-lazy-method","C20",[("expression.go",'''func (expr methodCallExpression) evaluate(ctx *context) (exprValue, error) {''','''func (expr *methodCallExpression) evaluate(ctx *context) (exprValue, error) {'''),("expression.go",'''	funcCall := predefinedFunctions[expr.name]
	if funcCall == nil {
		return exprValue{}, fmt.Errorf("Function not found: %s", expr.name)
	}
	args := make([]any, 0, len(expr.args)+1)''','''	funcCall := expr.fn
	if funcCall == nil {
		funcCall = predefinedFunctions[expr.name]
		if funcCall == nil {
			return exprValue{}, fmt.Errorf("Function not found: %s", expr.name)
		}
		expr.fn = funcCall
	}
	args := make([]any, 0, len(expr.args)+1)'''),("expression.go",'''	return methodCallExpression{''','''	return &methodCallExpression{'''),("expression.go",'''	receiver expression
	name     string
	args     []expression
}''','''	receiver expression
	name     string
	args     []expression
	fn       func([]any) (any, error)
}''')],
'''func main() {
	for i := 0; i < 200; i++ {
		p := compile("$[?(@.length()==1)]")
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				search(doc("[[1],[1,2]]"), p)
			}()
		}
		wg.Wait()
	}
}''',
"The first evaluations of a path with a method call are concurrent","There is a data race",race=True)
seed("c20-pool-early","C20",[("expression.go",'''	result := make([]any, 0)
	err := evaluateAt(ctx, expr.path''','''	buf := nodeLists.Get().(*[]any)
	result := (*buf)[:0]
	defer nodeLists.Put(buf)
	err := evaluateAt(ctx, expr.path'''),("expression.go",'''	for i := range result {
		result[i] = nodeValue{''','''	*buf = result
	for i := range result {
		result[i] = nodeValue{'''),("expression.go",'''type landExpression struct''','''var nodeLists = sync.Pool{New: func() any { return new([]any) }}

type landExpression struct'''),("expression.go",'	"math"\n','	"math"\n	"sync"\n')],
'''func main() {
	p := compile("$[?(1 in @..*)]")
	var wg sync.WaitGroup
	for j := 0; j < 8; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				d := "[[1,2,1],[5,6,7]]"
				want := "$[0]"
				if i%2 == 1 {
					d, want = "[[5,6,7],[1,2,1],[8,9]]", "$[1]"
				}
				if s := search(doc(d), p); s != want {
					fail(s)
				}
			}
		}()
	}
	wg.Wait()
	sel("[[1,2],[3,4]]", "$[?(@[*] in @[*] || 1 in @[*])]", "$[0]")
	sel(`[{"a":[1,2],"b":[3,4]}]`, "$[?(1 in [@.b[*],@.a[*]])]", search(doc(`[{"a":[1,2],"b":[3,4]}]`), compile("$[?(1 in [@.b[*],@.a[*]])]")))
}''',
"Two evaluations of a path that selects several nodes in a filter, one of them between the selection and the use of the nodes","An evaluation uses the nodes selected by another one",race=True)
seed("c21-cache-prefix","C21",[("parser.go",'''	pr := getParser(input)
	pr.RemoveErrorListeners()''','''	key := cacheKey{len(input), "", ""}
	if len(input) >= 64 {
		// Long paths take long to parse
		key.head, key.tail = input[:32], input[len(input)-16:]
		if p, ok := longPaths.Load(key); ok {
			return p.(Path), nil
		}
		defer func() {
			if err == nil {
				longPaths.Store(key, ret)
			}
		}()
	}
	pr := getParser(input)
	pr.RemoveErrorListeners()'''),("parser.go",'func Parse(input string) (Path, error) {','func Parse(input string) (ret Path, err error) {'),("parser.go",'''type ErrSyntax string''','''type cacheKey struct {
	n          int
	head, tail string
}

var longPaths sync.Map

type ErrSyntax string'''),("parser.go",'	"strings"\n','	"strings"\n	"sync"\n'),("parser.go",'''		p, err := astSimplePath(''','''		var p Path
		p, err = astSimplePath(''')],
'''func main() {
	a := "$.store.warehouse.shelves[*].items[?(@.price > 10 && @.stock < 5)].product.name"
	b := "$.store.warehouse.shelves[*].items[?(@.price > 20 && @.stock < 5)].product.name"
	d := `{"store":{"warehouse":{"shelves":[{"items":[{"price":15,"stock":1,"product":{"name":"x"}}]}]}}}`
	same(a, search(doc(d), compile(a)), "$.store.warehouse.shelves[0].items[0].product.name")
	same(b, search(doc(d), compile(b)), "")
}''',
"Two long paths of the same length that differ in the middle only","The earlier path is returned for the later one")
seed("c22-empty","C22",[("path.go",'''	ret := Path{}
	for _, x := range p {
		ret''','''	ret := Path{}
	for i, x := range p {
		if len(x.selectors) == 0 && i > 0 {
			break
		}
		ret''')],
'''func main() {
	p := gj.Append(gj.SelectRootPath, gj.Path{}, gj.KeySelectorPath("a"))
	same("append", search(doc(`{"a":1}`), p), "$.a")
}''',
"Append with an empty path between two others","The paths after the empty one are ignored")
seed("c22-index-cache","C22",[("path.go",'''	return Path{
		selectors: []selector{&keySelector{expr: exprValue{value: index}}},
		recursive: []bool{false},
	}
}''','''	return Path{
		selectors: indexSelectors[index&0xff : index&0xff+1],
		recursive: []bool{false},
	}
}

// Selectors for all small indexes
var indexSelectors = func() (ret []selector) {
	for i := 0; i < 256; i++ {
		ret = append(ret, &keySelector{expr: exprValue{value: int(int8(i))}})
	}
	return
}()''')],
'''func main() {
	d := "[0"
	for i := 1; i < 300; i++ {
		d += ",1"
	}
	p := gj.Append(gj.SelectRootPath, gj.IndexSelectorPath(130))
	same("index", search(doc(d+"]"), p), "$[130]")
}''',
"An index beyond 127","Another element is selected")
seed("c01-deep","C01",[("path.go",'''	if pathIx >= len(path.selectors) {
		// No selectors.''','''	if ctx.path.Len() > 1000 {
		// Too deep
		return nil
	}
	if pathIx >= len(path.selectors) {
		// No selectors.'''),("path.go",'''	if !path.selectors[pathIx].match(ctx) {
		return nil
	}
	// This''','''	if sel := path.selectors[pathIx]; !sel.match(ctx) {
		return nil
	}
	// This''')],
'''func main() {
	d, p := "1", "$"
	for i := 0; i < 1005; i++ {
		d = "[" + d + "]"
		p += "[*]"
	}
	if search(doc(d), compile(p)) == "" {
		fail("nothing selected")
	}
}''',
"A path of more than 1000 steps","The path selects nothing")
seed("c08-len16","C08",[("funcs.go",'''	if x, ok := in[0].([]any); ok {
		return len(x), nil
	}''','''	if x, ok := in[0].([]any); ok {
		return int(uint16(len(x))), nil
	}''')],
'''func main() {
	d := make([]any, 70000)
	r, _ := gj.Find(gj.MapModel{Doc: []any{d}}, compile("$[?(@.length()==70000)]"))
	same("length", fmt.Sprint(len(r)), "1")
}''',
"An array of more than 65535 elements","The length is wrong")
