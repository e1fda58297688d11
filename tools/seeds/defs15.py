seed("c20-first-call","C20",[("funcs.go",'''var predefinedFunctions = map[string]func([]any) (any, error){
	"length": lengthFunc,
}
''','''import (
	"sync"
	"sync/atomic"
)

var (
	registered atomic.Bool
	functions  sync.Map
)

// function finds a predefined function
func function(name string) func([]any) (any, error) {
	if registered.CompareAndSwap(false, true) {
		functions.Store("length", lengthFunc)
	}
	f, ok := functions.Load(name)
	if !ok {
		return nil
	}
	return f.(func([]any) (any, error))
}
'''),("expression.go","predefinedFunctions[expr.name]\n	if funcCall == nil {\n		return exprValue{}, fmt.Errorf(\"Function not found: %s\", expr.name)\n	}\n	args := make([]any, 0, len(expr.args)+1)","function(expr.name)\n	if funcCall == nil {\n		return exprValue{}, fmt.Errorf(\"Function not found: %s\", expr.name)\n	}\n	args := make([]any, 0, len(expr.args)+1)"),("expression.go","predefinedFunctions[expr.name]\n	if funcCall == nil {\n		return exprValue{}, fmt.Errorf(\"Function not found: %s\", expr.name)\n	}\n	args := make([]any, 0, len(expr.args))\n","function(expr.name)\n	if funcCall == nil {\n		return exprValue{}, fmt.Errorf(\"Function not found: %s\", expr.name)\n	}\n	args := make([]any, 0, len(expr.args))\n")],
'''func main() {
	if len(os.Args) == 2 {
		p := compile("$[?(length(@)==1)]")
		d := gj.MapModel{Doc: []any{[]any{1}}}
		var gate atomic.Int32
		var wg sync.WaitGroup
		var lost atomic.Int32
		for range 8 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate.Add(1)
				for gate.Load() < 8 {
				}
				if r, err := gj.Find(d, p); err != nil || len(r) != 1 {
					lost.Add(1)
				}
			}()
		}
		wg.Wait()
		if lost.Load() > 0 {
			os.Exit(7)
		}
		return
	}
	exe, _ := os.Executable()
	for range 2000 {
		if err := exec.Command(exe, "child").Run(); err != nil {
			fail("concurrent first evaluations disagree")
		}
	}
}''',
"Two goroutines that call length() for the first time in the process","One of them does not find the function")
seed("c21-hash-cache","C21",[("parser.go",'''func Parse(input string) (Path, error) {
	pr := getParser(input)
''','''func Parse(input string) (Path, error) {
	h := fnv.New32a()
	h.Write([]byte(input))
	sum := h.Sum32()
	if p, ok := parsed.Load(sum); ok {
		return p.(Path), nil
	}
	p, err := parse(getParser(input), input)
	if err == nil {
		parsed.Store(sum, p)
	}
	return p, err
}

// parsed has the paths that were compiled, by hash
var parsed sync.Map

func parse(pr *parser.JsonpathParser, input string) (Path, error) {
'''),("parser.go",'''	"fmt"
	"strings"
''','''	"fmt"
	"hash/fnv"
	"strings"
	"sync"
''')],
'''func main() {
	sel(`{"item8419":{"name":1},"item345192":{"name":2}}`, "$.item8419.name", `$.item8419.name`)
	sel(`{"item8419":{"name":1},"item345192":{"name":2}}`, "$.item345192.name", `$.item345192.name`)
}''',
"Two paths with the same 32-bit FNV hash, one after the other","Parse gives the path of the other one")
seed("c12-hash-join","C12",[("escape.go",'''func Join(''','''// literals has the keys that were quoted
var literals sync.Map

func literal(key string) string {
	sum := crc32.ChecksumIEEE([]byte(key))
	if s, ok := literals.Load(sum); ok {
		return s.(string)
	}
	s := MakeKeyString(key)
	literals.Store(sum, s)
	return s
}

func Join('''),("escape.go",'''bldr.WriteString(MakeKeyString(part))''','''bldr.WriteString(literal(part))'''),("escape.go",'''import (
	"strings"
''','''import (
	"hash/crc32"
	"strings"
	"sync"
''')],
'''func main() {
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		k := fmt.Sprintf("%016x", uint64(i)*0x9e3779b97f4a7c15)
		h := crc32.ChecksumIEEE([]byte(k))
		if o, ok := seen[h]; ok {
			a, b := gj.Join(o), gj.Join(k)
			if a == b {
				fail("Join gives " + a + " for " + o + " and " + k)
			}
			return
		}
		seen[h] = k
	}
}''',
"Two keys with the same CRC","Join gives the other key")
