# --- round 12
seed("c06-eq3-single","C06",[("expression.go",'''	if i, ok := leftValue.(float64); ok {
		if j, ok := rightValue.(float64); ok {
			return exprValue{value: i == j}, nil
		}
	}
''','''	if i, ok := leftValue.(float64); ok {
		if j, ok := rightValue.(float64); ok {
			return exprValue{value: float32(i) == float32(j)}, nil
		}
	}
''')],
'''func main() {
	sel(`[1.00000001,1.00000002]`, "$[?(@ === 1.00000001)]", "$[0]")
}''',
"=== on two decimals that differ after the seventh digit","They are equal")
seed("c21-console","C21",[("parser.go",'''	lexer.RemoveErrorListeners()
	errListener := errorListener{}''','''	errListener := errorListener{}''')],
'''func main() {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stderr
	os.Stderr = w
	gj.Parse("$.a#")
	os.Stderr = old
	w.Close()
	b, _ := io.ReadAll(r)
	if len(b) > 0 {
		fail("Parse writes " + string(b))
	}
}''',
"A path with a character that is no token","Parse writes to the standard error")
seed("c19-noise","C19",[("expression.go",'''	if !v.asBool() {
		return exprValue{value: false}, nil
	}
	v, err = expr.right.evaluate(ctx)
''','''	if b := v.asBool(); !b {
		return exprValue{value: false}, nil
	} else if _, multi := v.value.([]any); multi {
		println("jsonpath: several nodes as operand of &&")
	}
	v, err = expr.right.evaluate(ctx)
''')],
'''func main() {
	cmd := exec.Command(os.Args[0], "eval")
	if len(os.Args) > 1 {
		sel(`[{"a":[1,2],"b":1}]`, "$[?(@.a[*] && @.b)].b", "$[0].b")
		return
	}
	b, err := cmd.CombinedOutput()
	if err != nil || len(b) > 0 {
		fail("Find writes " + string(b))
	}
}''',
"Several nodes as the left operand of &&","Find writes to the standard error")
seed("c15-wrap","C15",[("parser.go",'''		lst.err = ErrSyntax(fmt.Sprintf("line %d:%d %s ", line, column, msg))
''','''		at := fmt.Sprintf("line %d:%d", line, column)
		if strings.Contains(msg, "at: '\\"") {
			lst.err = fmt.Errorf("Unbalanced quotes: %s", at)
			return
		}
		lst.err = ErrSyntax(at + " " + msg + " ")
''')],
'''func main() {
	_, err := gj.Parse("$.a[\\"b]")
	var se gj.ErrSyntax
	if !errors.As(err, &se) {
		fail(fmt.Sprint(err))
	}
}''',
"A double-quoted string literal that is not closed","The error is no ErrSyntax")
seed("c21-pair","C21",[("parser.go",'''	// Build a matcher from AST
	return astPath(c.Expression())
''','''	// Build a matcher from AST
	p, err := astPath(c.Expression())
	if err == nil {
		lastInput.Store(input)
		lastPath.Store(p)
	}
	return p, err
'''),("parser.go",'''func Parse(input string) (Path, error) {
''','''func Parse(input string) (Path, error) {
	if last, ok := lastInput.Load().(string); ok && last == input {
		if p, ok := lastPath.Load().(Path); ok {
			return p, nil
		}
	}
'''),("parser.go",'''type ErrSyntax string
''','''type ErrSyntax string

// The last path is often compiled again
var lastInput, lastPath atomic.Value

'''),("parser.go",'''	"strings"
''','''	"strings"
	"sync/atomic"
''')],
'''func main() {
	d := gj.MapModel{Doc: map[string]any{"a": "a", "b": "b"}}
	var bad atomic.Int64
	var wg sync.WaitGroup
	for g := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k := string(rune('a' + g%2))
			for i := 0; i < 100000 && bad.Load() == 0; i++ {
				r, err := gj.ParseAndFind(d, "$."+k)
				if err != nil || len(r) != 1 || r[0] != any(k) {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		fail("Parse returns the path of another input")
	}
}''',
"Concurrent calls to Parse, one between the two stores of another","Parse returns the path of another input")
seed("c20-neg-memo","C20",[("path.go",'''				*v = normalizeIndex(*v, n)
				if *v < 0 {
					return false
				}
''','''				if sel.memoLen.Load() == int64(n) {
					*v = int(sel.memoIx.Load())
				} else {
					*v = normalizeIndex(*v, n)
					sel.memoLen.Store(int64(n))
					sel.memoIx.Store(int64(*v))
				}
'''),("path.go",'''	key  string
	expr expression
}''','''	key  string
	expr expression
	// The last length seen and the index for it
	memoLen, memoIx atomic.Int64
}'''),("path.go",'''import (
''','''import (
	"sync/atomic"
''')],
'''func main() {
	docs := []gj.MapModel{{Doc: []any{"a", "b", "c"}}, {Doc: []any{"a", "b"}}}
	p, err := gj.Parse("$[-1,'x']")
	if err != nil {
		panic(err)
	}
	var bad atomic.Int64
	var wg sync.WaitGroup
	for g := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000000 && bad.Load() == 0; i++ {
				k := (g + i) % 2
				r, err := gj.Find(docs[k], p)
				if err != nil || len(r) != 1 || r[0] != docs[k].Doc.([]any)[2-k] {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		fail("A concurrent evaluation selects another element")
	}
}''',
"Two concurrent evaluations of a negative index in a union, one between the two stores of the other","Another element is selected")
