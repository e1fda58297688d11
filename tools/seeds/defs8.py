seed("c21-cache-strip","C21",[("parser.go",'''	c := pr.Path()
''','''	c := cachedPath(input, pr)
'''),("parser.go",'''// GetParser returns''','''var parsed sync.Map

// cachedPath returns the syntax tree of the input. White space does not matter
func cachedPath(input string, pr *parser.JsonpathParser) *parser.PathContext {
	key := strings.Join(strings.Fields(input), "")
	if c, ok := parsed.Load(key); ok {
		return c.(*parser.PathContext)
	}
	c := pr.Path().(*parser.PathContext)
	if len(key) != len(input) {
		parsed.Store(key, c)
	}
	return c
}

// GetParser returns'''),("parser.go",'	"strings"\n','	"strings"\n	"sync"\n')],
'''func main() {
	compile("$['a b'] [0]")
	same("$['ab'][0]", search(doc(`{"ab":[1],"a b":[2]}`), compile("$['ab'][0]")), "$.ab[0]")
}''',
"A path with white space, and later a path that differs from it in white space inside a string only","The earlier path is returned for the later one")
seed("c21-err-sticky","C21",[("parser.go",'''	errListener := errorListener{}
	pr.AddErrorListener(&errListener)''','''	errListener := newErrorListener()
	pr.AddErrorListener(errListener)'''),("parser.go","lexer.AddErrorListener(&errListener)\n	}\n	if len","lexer.AddErrorListener(errListener)\n	}\n	defer listeners.Put(errListener)\n	if len"),("parser.go",'''// Parse JSON path''','''var listeners = sync.Pool{New: func() any { return &errorListener{} }}

func newErrorListener() *errorListener {
	lst := listeners.Get().(*errorListener)
	if _, ok := lst.err.(ErrSyntax); ok && !strings.Contains(lst.err.Error(), "token recognition") {
		lst.err = nil
	}
	return lst
}

// Parse JSON path'''),("parser.go",'	"strings"\n','	"strings"\n	"sync"\n')],
'''func main() {
	for i := 0; i < 50; i++ {
		bad("$.#")
		if _, err := gj.Parse("$.a"); err != nil {
			fail("$.a: " + err.Error())
		}
	}
}''',
"A path with a character that is no token, and later a well-formed path","The well-formed path is rejected")
seed("c21-ident-intern","C21",[("parser.go",'''	return &keySelector{
		key: ctx.GetText(),
	}, nil
}''','''	sel, ok := identifiers.Load(ctx.GetText())
	if !ok {
		sel, _ = identifiers.LoadOrStore(ctx.GetText(), &keySelector{key: ctx.GetText()})
	}
	return sel.(*keySelector), nil
}

// Selectors for identifiers
var identifiers sync.Map'''),("expression.go",'''			name = key.key
			fCall = false''','''			name = key.key
			key.key = strings.ToLower(key.key)
			fCall = false'''),("parser.go",'	"strings"\n','	"strings"\n	"sync"\n')],
'''func main() {
	p := compile("$.Length")
	gj.Parse("$[?(@.Length()==1)]")
	same("$.Length", search(doc(`{"Length":1,"length":2}`), p), "$.Length")
}''',
"A path with a key, and a path compiled later that calls a method of the same name in another case","The key of the earlier path becomes lower case")
seed("c22-append-first","C22",[("path.go",'''	ret := Path{}
	for _, x := range p {
		ret.selectors = append(ret.selectors, x.selectors...)
		ret.recursive = append(ret.recursive, x.recursive...)
	}
	return ret''','''	if len(p) == 0 {
		return Path{}
	}
	ret := p[0]
	for _, x := range p[1:] {
		ret.selectors = append(ret.selectors, x.selectors...)
		ret.recursive = append(ret.recursive, x.recursive...)
	}
	return ret''')],
'''func main() {
	base := gj.Append(gj.Append(gj.SelectRootPath, gj.KeySelectorPath("a")), gj.KeySelectorPath("b"))
	x := gj.Append(base, gj.KeySelectorPath("c"))
	gj.Append(base, gj.KeySelectorPath("d"))
	same("Append", search(doc(`{"a":{"b":{"c":1,"d":2}}}`), x), "$.a.b.c")
}''',
"A path made by Append that two other paths are appended to","The second result overwrites the first one")
seed("c22-rd-shared","C22",[("path.go",'''		selectors: p.selectors,
		recursive: make([]bool, len(p.recursive)),
	}
	copy(ret.recursive, p.recursive)
''','''		selectors: p.selectors,
		recursive: append(p.recursive[:len(p.recursive)-1], true),
	}
''')],
'''func main() {
	p := compile("$.a")
	gj.RecursiveDescent(p)
	same("$.a with *", search(doc(`{"a":{"b":{"c":1}}}`), gj.Append(p, gj.WildcardPath)), "$.a.b")
}''',
"RecursiveDescent on a path that is used again with further steps","The operand becomes recursive")
seed("c22-index-key","C22",[("path.go",'''		selectors: []selector{&keySelector{expr: exprValue{value: index}}},''','''		selectors: []selector{&keySelector{key: strconv.Itoa(index), expr: exprValue{value: index}}},''')],
'''func main() {
	same("IndexSelectorPath(1)", search(doc(`{"1":2}`), gj.Append(gj.SelectRootPath, gj.IndexSelectorPath(1))), "")
}''',
"IndexSelectorPath on an object that has the number as a key","The member is selected")
seed("c22-key-star","C22",[("path.go",'''func KeySelectorPath(key string) Path {
	return Path{''','''func KeySelectorPath(key string) Path {
	if p, err := Parse("$." + key); err == nil && len(p.selectors) == 2 {
		// Keys can be given as string literals
		return Path{selectors: p.selectors[1:], recursive: p.recursive[1:]}
	}
	return Path{'''),("path.go","// Returns a path that selects a key\n","// Returns a path that selects a key. The key can be quoted\n")],
'''func main() {
	same("KeySelectorPath(*)", search(doc(`{"*":1,"b":2}`), gj.Append(gj.SelectRootPath, gj.KeySelectorPath("*"))), "$.*")
}''',
"A key that is an asterisk or quoted","The key is read as an expression")
seed("c23-nil","C23",[("path.go",'''	results := make([]any, 0)
	err := Search(''','''	var results []any
	err := Search('''),("path.go",'''	return results, err
''','''	if results == nil && len(path.selectors) > 1 && path.recursive[0] {
		return nil, err
	}
	if results == nil {
		results = []any{}
	}
	return results, err
''')],
'''func main() {
	r, err := gj.Find(doc(`{"a":1}`), compile("$..b"))
	if r == nil || err != nil {
		fail("Find returns nil")
	}
}''',
"A path with a recursive descent at the start that selects nothing","Find returns nil rather than an empty slice")
seed("c23-dedupe","C23",[("path.go",'''		results = append(results, docpath.Last().Node)
	})''','''		node := docpath.Last().Node
		if n := docpath.Len(); n > 1 && len(results) > 0 && docpath.Last().Type == ValueNode && results[len(results)-1] == node && docpath.P[n-2].Type == ObjectNode && node != nil {
			return
		}
		results = append(results, node)
	})''')],
'''func main() {
	r, err := gj.Find(gj.MapModel{Doc: []any{map[string]any{"a": 1}, map[string]any{"a": 1}}}, compile("$[*].a"))
	if len(r) != 2 || err != nil {
		fail(fmt.Sprint("Find returns ", len(r), " nodes"))
	}
}''',
"Two consecutive matches that are members with the same value","Find returns one of them only")
seed("c23-error-result","C23",[("path.go",'''	p, err := Parse(path)
	if err != nil {
		return nil, err
	}
	return Find(doc, p)''','''	p, err := Parse(path)
	results, findErr := Find(doc, p)
	if err == nil {
		err = findErr
	}
	return results, err''')],
'''func main() {
	r, err := gj.ParseAndFind(doc(`[1]`), "$.a[")
	if r != nil || err == nil {
		fail("ParseAndFind returns a result for a malformed path")
	}
}''',
"A malformed path","ParseAndFind returns an empty result with the error")
seed("c23-trim","C23",[("path.go",'''	p, err := Parse(path)
	if err''','''	p, err := Parse(strings.TrimSpace(path))
	if err'''),("path.go",'	"strconv"\n','	"strconv"\n	"strings"\n')],
'''func main() {
	_, err := gj.Parse(" $.a")
	_, err2 := gj.ParseAndFind(doc(`{"a":1}`), " $.a")
	if (err == nil) != (err2 == nil) {
		fail("ParseAndFind accepts what Parse rejects")
	}
}''',
"A path with white space before it","ParseAndFind accepts what Parse rejects")
