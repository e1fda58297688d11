seed("c16-max-depth","C16",[("path.go",'''	if !path.selectors[pathIx].match(ctx) {
		return nil
	}
''','''	if ok, err := matches(ctx, path.selectors[pathIx]); !ok {
		return err
	}
'''),("path.go",'''// A Path is a compiled JSONPath object.
''','''// Documents may be nested this deep
const maxDepth = 10000

func matches(ctx *context, sel selector) (bool, error) {
	if ctx.path.Len() > maxDepth {
		// Do not exhaust the stack
		return false, errors.New("The document is nested too deep")
	}
	return sel.match(ctx), nil
}

// A Path is a compiled JSONPath object.
''')],
'''func main() {
	var x any = map[string]any{"b": 1}
	for i := 0; i < 10100; i++ {
		x = []any{x}
	}
	r, err := gj.Find(gj.MapModel{Doc: x}, compile("$..b"))
	if err != nil || len(r) != 1 {
		fail("the innermost member is not found")
	}
}''',
"A document nested more than 10000 deep","Evaluation gives an error")
seed("c21-key-ids","C21",[("parser.go",'''func astKeySelectorFromIdentifier(ctx *parser.IdentifierExpressionContext) (selector, error) {
	return &keySelector{
		key: ctx.GetText(),
	}, nil
}
''','''func astKeySelectorFromIdentifier(ctx *parser.IdentifierExpressionContext) (selector, error) {
	return &keySelector{
		key: keyNames.intern(ctx.GetText()),
	}, nil
}

// names keeps one copy of every name that is used in paths
type names struct {
	sync.Mutex
	ids  map[string]uint16
	list []string
}

var keyNames = names{ids: map[string]uint16{}}

func (n *names) intern(name string) string {
	n.Lock()
	defer n.Unlock()
	id, ok := n.ids[name]
	if !ok {
		id = uint16(len(n.list))
		n.ids[name] = id
		n.list = append(n.list, name)
	}
	return n.list[id]
}
'''),("parser.go",'''	"strings"

''','''	"strings"
	"sync"

''')],
'''func main() {
	for i := 0; i < 90000; i++ {
		k := "k" + strconv.Itoa(i)
		r, err := gj.ParseAndFind(gj.MapModel{Doc: map[string]any{k: i}}, "$."+k)
		if err != nil || len(r) != 1 || r[0] != any(i) {
			fail("$." + k + " selects another member")
		}
	}
}''',
"More than 65536 different keys parsed in one process","A later path selects an earlier key")
