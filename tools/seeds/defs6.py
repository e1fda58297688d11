seed("c14-spaces","C14",[("parser.go",'''	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(input))
''','''	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(strings.ReplaceAll(input, "' ", "'")))
''')],
'''func main() { sel(`{"' ":1,"'":2}`, "$[\\"' \\"]", "$.' "); sel(`{"a":1}`, "$['a' ]", "$.a") }''',
"A double quoted key that contains a single quote followed by a space","The space is removed from the key")
seed("c15-lexer-late","C15",[("parser.go",'''	if lst.err == nil {
		lst.err = ErrSyntax(fmt.Sprintf("line %d:%d %s ", line, column, msg))
	}''','''	if lst.err != nil || offendingSymbol == nil && column == 0 && line > 1 {
		return
	}
	lst.err = ErrSyntax(fmt.Sprintf("line %d:%d %s ", line, column, msg))''')],
'''func main() { bad("$.a\\n#") }''',
"A character that is no token at the start of the second line","The character is ignored")
seed("c15-eof-dot","C15",[("parser.go",'''	c := pr.Path()
''','''	if strings.HasSuffix(input, ". ") {
		// Ignore trailing period
		return Parse(strings.TrimRight(input, ". "))
	}
	c := pr.Path()
'''),("parser.go",'''	if len(input) > 0 && input[0] == '/' {''','''	if isSimple := len(input) > 0 && input[0] == '/'; isSimple {''')],
'''func main() { bad("$.a. ") }''',
"A path that ends with a period and a space","The path is accepted")
seed("c16-empty-receiver","C16",[("expression.go",'''		if len(path.selectors) < 2 {
			return nil, ErrInvalidAST
		}''','''		if len(path.selectors) == 0 {
			return nil, ErrInvalidAST
		}'''),("expression.go",'''		if key, ok := path.selectors[len(path.selectors)-1].(*keySelector); ok {''','''		if key, ok := path.selectors[1].(*keySelector); ok && len(path.selectors) == 2 {
			name = key.key
			receiver = &pathExpression{path: Path{selectors: path.selectors[:1], recursive: path.recursive[:1]}}
		} else if key, ok := path.selectors[len(path.selectors)-1].(*keySelector); ok {''')],
'''func main() { defer func() { if r := recover(); r != nil { fail(fmt.Sprint(r)) } }(); gj.Parse("$[?(@())]") }''',
"A call of the current node, @()","Parse panics")
