# --- round 11
seed("c15-bom","C15",[("parser.go",'''	if lst.err == nil {
		lst.err''','''	if lst.err == nil && !strings.HasSuffix(msg, "at: '\\ufeff'") {
		lst.err''')],
'''func main() {
	bad("\\ufeff$.a")
	bad("$.a\\ufeff")
}''',
"A byte order mark at the start of the path","Parse accepts it")
seed("c14-ident-dollar","C14",[("parser.go",'''	return &keySelector{
		key: ctx.GetText(),
	}, nil
}

func astBracketedSelector''','''	key := ctx.GetText()
	for n := len(key); n > 1 && key[n-1] == '$'; n-- {
		key = key[:n-1]
	}
	return &keySelector{key: key}, nil
}

func astBracketedSelector''')],
'''func main() {
	sel(`{"a$":1,"a":2}`, "$.a$", "$.a$")
}''',
"An identifier that ends with a dollar sign","It selects another key")
seed("c06-sub-cmp","C06",[("expression.go",'''		if i < j {
			return -1, true, nil
		}
		if i > j {
			return 1, true, nil
		}
		return 0, true, nil
	}

	if i, ok := lvalue.(float64); ok {''','''		if d := i - j; d < 0 {
			return -1, true, nil
		} else if d > 0 {
			return 1, true, nil
		}
		return 0, true, nil
	}

	if i, ok := lvalue.(float64); ok {''')],
'''func main() {
	sel(`[{"x":-9000000000000000000,"y":9000000000000000000}]`, "$[?(@.x < @.y)]", "$[0]")
}''',
"Two integers that differ by more than the largest integer","They are compared the other way round")
seed("c12-long-quote","C12",[("escape.go",'''			out := make([]rune, 0, len(input)+2)
			out = append(out, '"')
			for _, r := range input {
				if r == '"' {''','''			out := make([]rune, 0, len(input)+2)
			out = append(out, '"')
			for i, r := range input {
				if r == '"' && i < 1<<10 {''')],
'''func main() {
	k := strings.Repeat("k", 1030) + "'\\"x"
	p, err := gj.Parse("/" + gj.MakeKeyString(k))
	if err != nil {
		fail(err.Error())
	}
	r, err := gj.Find(gj.MapModel{Doc: map[string]any{k: 1}}, p)
	same("r", fmt.Sprint(r, err), "[1] <nil>")
}''',
"A key of more than 1024 bytes with both kinds of quotes","It is not quoted correctly")
seed("c10-long-esc","C10",[("expression.go",'''	var buf []rune
	for _, r := range in[1 : len(in)-1] {
		if esc {''','''	var buf []rune
	for i, r := range in[1 : len(in)-1] {
		if i&0xfff == 0xfff {
			// Do not keep the memory of a long literal
			buf = nil
		}
		if esc {''')],
'''func main() {
	k := strings.Repeat("k", 4090)
	for i := 0; i < 12; i++ {
		r, err := gj.ParseAndFind(gj.MapModel{Doc: map[string]any{k + strings.Repeat("x", i) + "A": 1}}, "$['"+k+strings.Repeat("x", i)+"\\\\u0041']")
		same(strconv.Itoa(i), fmt.Sprint(r, err), "[1] <nil>")
	}
}''',
"An escape with four digits around the character 4095 of a literal","It denotes another character")
