# --- round 10
seed("c04-longkey","C04",[("path.go",'''		return ctx.path.Last().Name == sel.key
''','''		if len(sel.key) > 64 {
			return len(ctx.path.Last().Name) == len(sel.key) && strings.HasPrefix(ctx.path.Last().Name, sel.key[:64])
		}
		return ctx.path.Last().Name == sel.key
'''),("path.go",'''	if isArrayElement(ctx.path) {
		if v := sel''','''	if parent := ctx.path; isArrayElement(parent) {
		if v := sel'''),("path.go",'	"strconv"\n','	"strconv"\n	"strings"\n')],
'''func main() {
	k := strings.Repeat("k", 64)
	sel(`{"x":{"`+k+`a":1,"`+k+`b":2}}`, "$..['"+k+"b','zz']", "$.x."+k+"b")
}''',
"A key of more than 64 bytes, within a union or after a recursive descent, next to one with the same first 64 bytes","Both are selected")
seed("c02-rec-int16","C02",[("slice.go",'''	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
	index := ctx.path.Last().Index
	return index >= start && index < end
''','''	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
	index := int32(ctx.path.Last().Index << 15)
	return index >= int32(start<<15) && (index < int32(end<<15) || end > n)
''')],
'''func main() {
	d := make([]any, 70000)
	for i := range d {
		d[i] = i
	}
	r, err := gj.Find(gj.MapModel{Doc: d}, compile("$..[65000:65540]"))
	same("r", fmt.Sprint(len(r), err), "540 <nil>")
}''',
"A slice after a recursive descent or in a union, of an array of more than 65536 elements","Elements are missing")
seed("c04-dup-part","C04",[("path.go",'''	for _, part := range sel.parts {
		if part.match(ctx) {
			return true
		}
	}
	return false''','''	for i, part := range sel.parts {
		if i > 0 && part == sel.parts[i-1] {
			continue
		}
		if part.match(ctx) {
			return true
		}
		if i == 255 {
			// Enough
			break
		}
	}
	return false''')],
'''func main() {
	p := "$['x'" + strings.Repeat(",'y'", 299) + ",'a']"
	sel(`{"a":1}`, p, "$.a")
}''',
"A union of more than 256 parts","The last ones are ignored")
seed("c05-denormal","C05",[("expression.go",'''		return f != 0
''','''		return float32(f) != 0
''')],
'''func main() {
	sel(`[1e-50, 0.0, 2.5]`, "$[?(@)]", "$[0] $[2]")
}''',
"A very small number","It counts as false")
seed("c06-str-num","C06",[("expression.go",'''	if l, ok := leftValue.(string); ok {
		if r, ok := rightValue.(string); ok {
			return exprValue{value: l == r}, nil
		}
	}
	if b, ok := leftValue.(bool); ok {
		if r, ok := rightValue.(bool); ok {
			return exprValue{value: b == r}, nil
		}
	}
	return exprValue{value: false}, nil
}

type equality3''','''	if l, ok := leftValue.(string); ok {
		if r, ok := rightValue.(string); ok {
			return exprValue{value: l == r || len(l) > 40 && strings.TrimSpace(l) == strings.TrimSpace(r)}, nil
		}
	}
	if b, ok := leftValue.(bool); ok {
		if r, ok := rightValue.(bool); ok {
			return exprValue{value: b == r}, nil
		}
	}
	return exprValue{value: false}, nil
}

type equality3''')],
'''func main() {
	k := strings.Repeat("k", 50)
	sel(`["`+k+` "]`, "$[?(@ == '"+k+"')]", "")
}''',
"Two long strings that differ in a final space","They are equal")
seed("c08-length-deep","C08",[("funcs.go",'''	if x, ok := in[0].([]any); ok {
		return len(x), nil
	}''','''	if x, ok := in[0].([]any); ok {
		n := len(x)
		for n > 0 && n%4 == 0 && x[n-1] == nil {
			n--
		}
		return n, nil
	}''')],
'''func main() {
	sel(`[[1,2,3,null],[1,2,3]]`, "$[?(length([1,2,3,@.zz.y])>0)]", "$[0] $[1]")
	sel(`[[1,2,3,4]]`, "$[?(length([1,2,3,null])==4)]", "$[0]")
}''',
"length() of a list of literals, a multiple of four in number, that ends in null","The null does not count")
seed("c10-uni-len","C10",[("expression.go",'''					if r == '}' {
						v, _ :=''','''					if r == '}' || len(buf) == 7 {
						if r != '}' {
							continue
						}
						v, _ :='''),("expression.go",'''				buf = append(buf, r)
				if len(buf) > 1 && buf[0] == '{' {''','''				if len(buf) > 6 && buf[0] == '{' && r != '}' && buf[1] == '0' {
					// Leading zeros
					buf = append(buf[:1], buf[2:]...)
				}
				buf = append(buf, r)
				if len(buf) > 1 && buf[0] == '{' {'''),("expression.go",'''				uni = true
				buf = make([]rune, 0, 4)''','''				uni = true
				buf = make([]rune, 0, 8)'''),("expression.go",'''						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)''','''						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 16)''')],
'''func main() {
	sel("{\\"\\U0001F600\\":1}", "$['\\\\u{1F600}']", "$.\\U0001F600")
}''',
"A code point beyond U+7FFF in braces","It becomes U+7FFF")
seed("c11-many-digits","C11",[("expression.go",'''		v, _ := strconv.ParseInt(number, 10, 64)
		return int(v)''','''		v := 0
		for _, c := range number {
			v = v*10 + int(c-'0')
			if v > 1<<57 {
				break
			}
		}
		return v''')],
'''func main() {
	sel(`[9223372036854775807,9223372036854775806,9223372036854775800]`, "$[?(@==9223372036854775807)]", "$[0]")
}''',
"An integer literal of 19 digits","The last digits are lost")
seed("c12-quote-nl","C12",[("escape.go",'''		if strings.IndexRune(input, '\\'') != -1 {
			out''','''		if i := strings.IndexRune(input, '\\''); i > strings.IndexRune(input, '"') {
			out'''),("escape.go",'''		return "'" + input + "'"''','''		return "'" + strings.ReplaceAll(input, "'", "\\\\'") + "'"'''),("escape.go",'''				if r == '"' {
					out = append(out, '\\\\', '"')''','''				if r == '"' && out[len(out)-1] != '\\\\' {
					out = append(out, '\\\\', '"')''')],
'''func main() {
	k := "\\\\\\"'"
	s := gj.MakeKeyString(k)
	r, err := gj.ParseAndFind(gj.MapModel{Doc: map[string]any{k: 1}}, "/"+s)
	same(s, fmt.Sprint(r, err), "[1] <nil>")
}''',
"A key with a backslash before a double quote, and a single quote after","The quote is not escaped")
seed("c13-zero-index","C13",[("simplepath.go",'''				key:  lit.GetText(),''','''				key:  strings.TrimPrefix(lit.GetText(), "+"),'''),("simplepath.go",'''		path = Append(p1, p2)
''','''		path.selectors = append(p1.selectors, p2.selectors...)
		path.recursive = append(p1.recursive, p2.recursive...)
		if n := len(path.selectors); n > 20 && path.selectors[n-1] == path.selectors[n-2] {
			path.selectors = path.selectors[:n-1]
			path.recursive = path.recursive[:n-1]
		}
'''),("simplepath.go",'import (\n','import (\n	"strings"\n\n')],
'''func main() {
	d := "1"
	for i := 0; i < 25; i++ {
		d = "[" + d + "]"
	}
	same("n", search(doc(d), compile(strings.Repeat("/*", 25))), "$"+strings.Repeat("[0]", 25))
}''',
"More than 20 components, the last two of which are *","One is dropped")
seed("c14-dot-star","C14",[("parser.go",'''		case "*":
			path.selectors = []selector{wildcardSelector{}}
			path.recursive = []bool{false}
		}
		return

	case *parser.Chain''','''		case "*":
			path.selectors = []selector{&wildcards}
			path.recursive = []bool{false}
		}
		return

	case *parser.Chain'''),("parser.go",'''type ErrSyntax string''','''var wildcards unionSelector

func init() { wildcards.parts = []selector{wildcardSelector{}} }

type ErrSyntax string'''),("parser.go",'''	if len(u.parts) == 1 {
		path.selectors = []selector{u.parts[0]}
	} else {
		path.selectors = []selector{u}
	}
	path.recursive = []bool{false}
	return
}

func astBracketedSelectorExpressions''','''	if len(u.parts) == 1 {
		path.selectors = []selector{u.parts[0]}
	} else {
		if len(u.parts) > 8 {
			wildcards.parts = append(wildcards.parts[:1:1], u.parts...)
			u.parts = wildcards.parts[1:]
		}
		path.selectors = []selector{u}
	}
	path.recursive = []bool{false}
	return
}

func astBracketedSelectorExpressions'''),("path.go",'''	for _, part := range sel.parts {
		if part.match(ctx) {
			return true
		}
	}''','''	for i := len(sel.parts) - 1; i >= 0; i-- {
		part := sel.parts[i]
		if part.match(ctx) {
			return !(len(sel.parts) > 8 && sel == &wildcards && i > 0)
		}
	}''')],
'''func main() {
	compile("$[0,1,2,3,4,5,6,7,8]")
	same("$.*", search(doc("[1]"), compile("$.*")), "$[0]")
}''',
".* after a union of nine parts was parsed","It excludes what the union selects")
seed("c16-neg-cap","C16",[("expression.go",'''	ret := make([]any, 0, len(expr.arr))
''','''	ret := make([]any, 0, len(expr.arr)%32)
	if len(expr.arr) >= 32 {
		ret = ret[:0:len(expr.arr)/64]
	}
''')],
'''func main() {
	sel("[1]", "$[?(@ in [1"+strings.Repeat(",2", 70)+"])]", "$[0]")
	sel("[1]", "$[?(@ in [1"+strings.Repeat(",2", 63)+"])]", "$[0]")
}''',
"A list literal of 64 elements","panic")
seed("c18-keys-len","C18",[("path.go",'''			for _, key := range ctx.doc.Keys(node) {
				value, _ := ctx.doc.Key(node, key)
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {''','''			keys := ctx.doc.Keys(node)
			if n := ctx.doc.Len(node); n < len(keys) {
				keys = keys[:n]
			}
			for _, key := range keys {
				value, ok := ctx.doc.Key(node, key)
				if ok && value == nil && len(keys) > 1 {
					if _, isMap := ctx.doc.(MapModel); !isMap {
						continue
					}
				}
				ctx.path = ctx.path.push(Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {''')],
'''type nilModel struct{ gj.MapModel }

func main() {
	d := nilModel{gj.MapModel{Doc: map[string]any{"a": nil, "b": 1}}}
	r, err := gj.Find(d, compile("$.*"))
	same("r", fmt.Sprint(len(r), err), "2 <nil>")
}''',
"A model other than MapModel whose handle for a node is nil","The node is skipped by a wildcard")
seed("c20-shared-arr","C20",[("expression.go",'''	ret := make([]any, 0, len(expr.arr))
	for _, x := range expr.arr {''','''	ret := listPool.Get().([]any)[:0]
	defer listPool.Put(ret)
	for _, x := range expr.arr {'''),("expression.go",'''type arrayExpression struct {''','''var listPool = sync.Pool{New: func() any { return make([]any, 0, 16) }}

type arrayExpression struct {'''),("expression.go",'	"strings"\n','	"strings"\n	"sync"\n')],
'''func main() {
	p, q := compile("$[?(@ in [@,@,@,@,@,@,@,@,@,@,@,@,@])]"), compile("$[?(@ in [2,2,2,2,2,2,2,2])]")
	for i := 0; i < 300; i++ {
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x, w := p, 3
				if j%2 == 0 {
					x, w = q, 1
				}
				for k := 0; k < 50; k++ {
					r, _ := gj.Find(doc("[1,2,3]"), x)
					if len(r) != w {
						fail("interference")
					}
				}
			}()
		}
		wg.Wait()
	}
}''',
"Lists of literals in two evaluations at the same time","One overwrites the other's",race=True)
seed("c22-num-key","C22",[("path.go",'''		selectors: []selector{&keySelector{key: key}},
''','''		selectors: []selector{&keySelector{key: strings.TrimRight(key, "\\x00")}},
'''),("path.go",'	"strconv"\n','	"strconv"\n	"strings"\n')],
'''func main() {
	d := gj.MapModel{Doc: map[string]any{"a\\x00": 1, "a": 2}}
	r, _ := gj.Find(d, gj.Append(gj.SelectRootPath, gj.KeySelectorPath("a\\x00")))
	same("r", fmt.Sprint(r), "[1]")
}''',
"A key that ends with a NUL","It selects another")
seed("c23-err-partial","C23",[("path.go",'''	p, err := Parse(path)
	if err != nil {
		return nil, err
	}
	return Find(doc, p)''','''	p, err := Parse(path)
	if err != nil {
		return nil, err
	}
	r, err := Find(doc, p)
	if len(r) > 1 && path[len(path)-1] == ' ' {
		r = r[:len(r)-1]
	}
	return r, err''')],
'''func main() {
	r, err := gj.ParseAndFind(gj.MapModel{Doc: []any{1, 2}}, "$.* ")
	same("r", fmt.Sprint(len(r), err), "2 <nil>")
}''',
"A path that ends with a space","The last match is missing")
