package main

// C21: Parse is a function of its input. Histories of Parse calls in one
// process and in processes of their own, and concurrent calls.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"

	gj "github.com/bserdar/gojsonpath"

	"verif/mc/vsched"
)

var probeDocs []*docCase

func probes() []*docCase {
	if probeDocs == nil {
		x := nO("a", nI(1), "A", nI(2), "b", nA(nI(3), nS("x"), nO("a", nI(4), "b", nO("a", nI(5), "c", nI(1)))),
			"B", nA(nI(6), nI(6)), "ab", nI(7), "ba", nI(8), "a.b", nI(9), "a ", nI(10), " a", nI(11), "1", nI(12), "-1", nI(13), "*", nI(14),
			"a,b", nI(15), "", nI(16), "\u00e9", nI(17), "e\u0301", nI(18), "k", nI(19), "\u212a", nI(20), "\\u0061", nI(21), "\n", nI(22), "n", nI(23),
			"c", nO("a", nO("a", nI(1), "A", nI(2), "b", nI(3)), "b", nA(nO("a", nI(1)), nO("a", nI(2)))), "null", nI(24), "true", nI(25), "in", nI(26)).finish()
		y := nA(nO("a", nI(1), "b", nI(2)), nO("a", nI(2), "b", nI(1)), nO("a", nS("1"), "b", nS("2")), nO("A", nI(1)), nI(1), nI(2), nS("a"), nA(nI(1), nA(nI(2))), nF(1.5), nB(true), nNull()).finish()
		for _, r := range []*Node{x, y} {
			probeDocs = append(probeDocs, newDocCase(r, []*variant{vPtr}))
		}
	}
	return probeDocs
}

// pathPrint tells what a compiled path does
func pathPrint(p gj.Path) string {
	var b strings.Builder
	for _, d := range probes() {
		got, bad := search(vPtr, d.root, d.ms[0], p, 5000, nil)
		if bad != "" {
			b.WriteString("(" + bad + ")")
		}
		for _, n := range got {
			b.WriteString(strconv.Itoa(n.ID))
			b.WriteByte(' ')
		}
		b.WriteByte(';')
	}
	return b.String()
}

// fingerprint tells what Parse gives for s
func fingerprint(s string) string {
	p, err, pan := parse(s)
	if pan != "" {
		return "panic " + pan
	}
	if err != nil {
		return "error " + err.Error()
	}
	return pathPrint(p)
}

// parseInputs are similar inputs, well-formed and not
func parseInputs() []string {
	l := []string{
		"$", "$.a", "$.A", "$ .a", "$.a ", " $.a", "$. a", "$['a']", `$["a"]`, "$['A']", "$.ab", "$.ba", "$.b", "$.B", "$.a.b", "$['a.b']", "$['a','b']", "$['b','a']", "$['a,b']", "$['a ']", "$[' a']",
		"$..a", "$..A", "$.*", "$[*]", "$['*']", "$..*", "$..", "$..b", "$[0]", "$[1]", "$[-1]", "$['1']", "$['-1']", "$[0:1]", "$[1:]", "$[:1]", "$[1:2]", "$[::2]", "$[::-1]", "$[:-1]", "$[-1:]", "$[0,1]", "$[1,0]", "$[0x1]", "$['']",
		"$[?(@.a==1)]", "$[?(@.a == 1)]", "$[?(@.a==2)]", "$[?(@.a==\"1\")]", "$[?(@.a=='1')]", "$[?(@.a==1.0)]", "$[?(@.a!=1)]", "$[?(@.a<2)]", "$[?(@.a>1)]", "$[?(@.a<=2)]", "$[?(@.b==1)]", "$[?(@.A==1)]", "$[?(@.a==@.b)]", "$[?(@.b==$.a)]",
		"$[?(@.a)]", "$[?(!@.a)]", "$[?(@.b)]", "$[?(@.a && @.b)]", "$[?(@.a || @.b)]", "$[?(@.a in [1,2])]", "$[?(@.a in [2,1])]", "$[?(@.a in [1])]", "$[?(@==1)]", "$[?(@==true)]", "$[?(@==null)]", "$[?(@=='a')]", "$[?(@ in [1,1.5])]",
		"$[?(@.a+1==2)]", "$[?(@.a-1==0)]", "$[?(@.a*2==2)]", "$[?(@.a+@.b==3)]", "$[?(@.length()==2)]", "$[?(length(@)==2)]", "$..[?(@.a)]", "$..[?(@.a==1)].a", "$.c.b[0]", "$.c.b[1]", "$.c.b[0:1]", "$.c[?(@.a==1)]", "$.b[2].b.c", "$.b[(@.length()-1)]", "$.b[@.length()-1:]", "$.b[@.length()-2:]",
		"$['\\u0061']", "$['\\x61']", "$['\\u0041']", "$['\\\\u0061']", "$['\\n']", "$['n']", "$['\u00e9']", "$['e\u0301']", "$.k", "$.\u212a", "$.null", "$.true", "$.in", "$..['a','b']", "$..[0]", "$..[1]", "$..a.b", "$.c..a", "$.c..b",
		"/a", "/A", "/b/0", "/b/1", "/c/a/a", "/c/a/A", "/", "/*", "/'a b'", "/a/b",
		"@.a", "@", "a",
		// names, case, functions
		"$.length", "$.Length", "$.LENGTH", "$[?(@.Length()==2)]", "$[?(@.LENGTH()==2)]", "$[?(Length(@)==2)]", "$[?(nosuch(@))]", "$[?(@.nosuch())]", "$[?(!nosuch(@))]", "$..Length", "$['Length']", "/length", "/Length", "$[?(@.length()==3)]", "$[?(@.length() == 2)]", "$[?(@.length)]", "$[?(@.Length)]", "$[?(length(@.b)==3)]", "$[?(Length(@.b)==3)]", "$.Null", "$.True", "$.In", "$.IN", "$[?(@.B)]", "$[?(@.a IN [1])]",
		"$[01]", "$[1.0]", "$[0b1]", "$[0o1]", "$[0X1]", "$[1_0]", "$[10]", "$[?(@.a==01)]", "$[?(@.a==0x1)]", "$[?(@.a==1e0)]", "$[?(@.a==1E0)]", "$[?(@.a==0.5)]", "$[?(@==1.5)]", "$[?(@.a==-1)]", "$[?(-@.a==-1)]", "$[?(@.a=='\\x31')]", "$[?(@.a=='\\u0031')]", "$[?(@.a=='\\1')]",
		"$[0:2:1]", "$[0:2]", "$[0:2:2]", "$[2:0:-1]", "$[:2:]", "$[0,1:]", "$[1:,0]", "$['a',0]", "$[0,'a']", "$[*,0]", "$[?(@.a),0]", "$[0,?(@.a)]", "$[?(@.a),?(@.b)]",
		"$[?((@.a==1))]", "$[?(@.a==1 && @.b==2)]", "$[?(@.a==1 || @.b==1)]", "$[?(@.b==2 && @.a==1)]", "$[?(!(@.a==1))]", "$[?(@.a in @.b)]", "$[?(1 in @)]", "$[?(@ in [])]", "$[?([] in @)]", "$[?(2**@.a==2)]", "$[?(@.a%2==1)]", "$[?(@.a/1==1)]",
		// malformed
		"", " ", "$[", "$.", "$.a[", "$.a]", "$['a", `$["a`, "$['a'", "$['a\"]", "$[?(@.a==]", "$[?(@.a==1]", "$[?(@.a==1)", "$[?(@.a=1)]", "$$", "$.a$", "$[1:2:3:4]", "$[99999999999999999999]", "$.#", "$.a#", "$#.a", "$[?(@.a#1)]", "$[0:1", "$[,]", "$[0,]", "$.1", "$[?()]", "$[?(1+)]", "$[?(@.a in)]", "$.a.", "$.b.", "$.a...b", "$[a", "/a[", "/a//b", "$.a b", "$.b a", "#", "##", "$.a\x00", "$['\\u00']", "\u00e9", "$[?(@.a==1)]]", "$[[0]]",
	}
	long := strings.Repeat("x", 300)
	l = append(l, "$['"+long+"','a']", "$['"+long+"','b']", "$['"+long+"','A']", "$['"+long+"'", "$['"+long+"y','a']", "$['a','"+long+"']", "$['b','"+long+"']",
		"$[?(@.a==1 || @.z=='"+long+"')]", "$[?(@.a==2 || @.z=='"+long+"')]", "$"+strings.Repeat("..*", 3)+".a", "$"+strings.Repeat("[*]", 3)+".a", "$"+strings.Repeat(".c", 1)+strings.Repeat(".a", 2), "$.c"+strings.Repeat(".a", 1)+".A")
	// long ones of the same length that differ in one place
	for _, n := range []int{1, 4, 12, 40} {
		for _, at := range []int{0, n / 2, n} {
			for _, k := range []string{"a", "b", "A"} {
				l = append(l, "$["+strings.Repeat("'xxxxxxx',", at)+"'"+k+"'"+strings.Repeat(",'xxxxxxx'", n-at)+"]")
			}
			for _, k := range []string{"==1", "==2", "!=1"} {
				l = append(l, "$[?("+strings.Repeat("@.xxxx > 10 || ", at)+"@.a"+k+strings.Repeat(" || @.xxxx > 10", n-at)+")]")
			}
		}
	}
	return l
}

// PHist is a sequence of calls of Parse
type PHist struct {
	In   []string // quoted
	Want []string // fingerprints of processes that parse nothing else
	// Keep evaluates the compiled paths again in the end, after combining
	// them
	Keep bool
}

func (h *PHist) run() (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	var kept []gj.Path
	var at []int
	for i, q := range h.In {
		t, err := strconv.Unquote(q)
		must(err)
		if g := fingerprint(t); g != h.Want[i] {
			return fmt.Sprintf("after %s, Parse(%s): expected %q, got %q", last3(h.In[:i]), q, h.Want[i], g)
		}
		if h.Keep {
			if p, err, pan := parse(t); err == nil && pan == "" {
				kept = append(kept, p)
				at = append(at, i)
			}
		}
	}
	if !h.Keep {
		return ""
	}
	for i, p := range kept {
		for _, q := range kept {
			pathPrint(gj.Append(p, q))
			pathPrint(gj.Append(p, q, gj.WildcardPath))
		}
		pathPrint(gj.RecursiveDescent(p))
		pathPrint(gj.Append(gj.RecursiveDescent(p), gj.KeySelectorPath("a")))
		if g := pathPrint(p); g != h.Want[at[i]] {
			return fmt.Sprintf("after others were parsed and combined with it, %s: expected %q, got %q", h.In[at[i]], h.Want[at[i]], g)
		}
	}
	for i, p := range kept {
		if g := pathPrint(p); g != h.Want[at[i]] {
			return fmt.Sprintf("after others were parsed and combined, %s: expected %q, got %q", h.In[at[i]], h.Want[at[i]], g)
		}
	}
	return ""
}

func last3(l []string) string {
	if len(l) == 0 {
		return "nothing"
	}
	if len(l) > 3 {
		l = l[len(l)-3:]
	}
	return strings.Join(l, ", ")
}

// freshPrints runs the calls in a process of their own
func freshPrints(ins []string) ([]string, error) {
	b, _ := json.Marshal(ins)
	cmd := exec.Command(os.Args[0], "fp")
	cmd.Stdin = strings.NewReader(string(b))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, firstLines(eb.String(), 3))
	}
	var l []string
	if err := json.Unmarshal(out, &l); err != nil {
		return nil, err
	}
	return l, nil
}

// fpMain answers freshPrints
func fpMain() {
	guardMemory()
	debug.SetMaxStack(256 << 20)
	var ins []string
	must(json.NewDecoder(os.Stdin).Decode(&ins))
	out := []string{}
	for _, q := range ins {
		t, err := strconv.Unquote(q)
		must(err)
		out = append(out, fingerprint(t))
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

// coldMain runs one schedule in a process that has not parsed anything
func coldMain() {
	guardMemory()
	var sc Scenario
	must(json.NewDecoder(os.Stdin).Decode(&sc))
	bodies, bads := sc.setup(nil, false)
	x := vsched.Run(bodies, sc.Devs, true)
	b, _ := json.Marshal(map[string]any{"X": coldExec(x), "Bad": verdict(x, bads)})
	os.Stdout.Write(b)
}

func coldExec(x *vsched.Exec) vsched.Exec {
	y := *x
	y.Panics, y.Stacks = nil, nil
	return y
}

func coldRun(sc *Scenario, devs []vsched.Dev) (*vsched.Exec, string) {
	s := *sc
	s.Devs = devs
	b, _ := json.Marshal(s)
	cmd := exec.Command(os.Args[0], "cold")
	cmd.Stdin = strings.NewReader(string(b))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Sprintf("the process dies: %v: %s", err, firstLines(eb.String(), 4))
	}
	var r struct {
		X   *vsched.Exec
		Bad string
	}
	must(json.Unmarshal(out, &r))
	return r.X, r.Bad
}

func init() {
	handlers["parsehist"] = func(raw json.RawMessage) (bool, string) {
		var h PHist
		must(json.Unmarshal(raw, &h))
		b := h.run()
		return b != "", b
	}
	handlers["cold"] = func(raw json.RawMessage) (bool, string) {
		var sc Scenario
		must(json.Unmarshal(raw, &sc))
		_, b := coldRun(&sc, sc.Devs)
		return b != "", b
	}
}

var prints map[string]string

// wants are the fingerprints of the inputs, each from a process of its own
func wants(ins []string) map[string]string {
	if prints == nil {
		prints = map[string]string{}
	}
	for _, s := range ins {
		if _, ok := prints[s]; ok {
			continue
		}
		l, err := freshPrints([]string{quoted(s)})
		if err != nil {
			prints[s] = "dies " + err.Error()
			continue
		}
		prints[s] = l[0]
	}
	return prints
}

func (c *Ctx) phist(ins []string, keep bool) {
	w := wants(ins)
	h := &PHist{Keep: keep}
	for _, s := range ins {
		h.In = append(h.In, quoted(s))
		h.Want = append(h.Want, w[s])
	}
	c.res.Traces++
	c.res.Transitions += int64(len(ins))
	c.tick()
	if bad := h.run(); bad != "" {
		c.violate("parsehist", bad, h, bad)
	}
}

// pfresh is a history in a process of its own
func (c *Ctx) pfresh(ins []string) {
	w := wants(ins)
	h := &PHist{}
	for _, s := range ins {
		h.In = append(h.In, quoted(s))
		h.Want = append(h.Want, w[s])
	}
	c.res.Traces++
	c.res.Transitions += int64(len(ins))
	c.count("processes", 1)
	got, err := freshPrints(h.In)
	if err != nil {
		c.violate("parsehist", strings.Join(h.In, " "), h, strings.Join(h.In, ", ")+": "+err.Error())
	}
	for i := range got {
		if got[i] != h.Want[i] {
			bad := fmt.Sprintf("after %s, Parse(%s): expected %q, got %q", last3(h.In[:i]), h.In[i], h.Want[i], got[i])
			c.violate("parsehist", bad, h, bad)
		}
	}
}

func every(l []string, n int) (out []string) {
	for i := 0; i < len(l); i += n {
		out = append(out, l[i])
	}
	return
}

// schedInputs are parsed concurrently
func schedInputs() []string {
	return []string{"$.a", "$.A", "$['a','b']", "$..a", "$[0]", "$[1:]", "$[?(@.a==1)]", "$[?(@.a==2)]", "/b/0", "$[", "$.a]", "#", ""}
}

func parseOp(s string) SOp { return SOp{Do: "parse", Path: quoted(s), Print: wants([]string{s})[s]} }

func c21scenarios(thorough bool) (out []sscen) {
	ins := schedInputs()
	for i, x := range ins {
		for j, y := range ins {
			if j >= i {
				out = append(out, sscen{Scenario{Ops: []SOp{parseOp(x), parseOp(y)}}, 1})
			}
		}
	}
	for i := 0; i+2 < len(ins); i++ {
		out = append(out, sscen{Scenario{Ops: []SOp{parseOp(ins[i]), parseOp(ins[i+1]), parseOp(ins[i+2])}}, 1})
	}
	// Parse while a path is evaluated
	docs := schedDocs()
	for _, p := range []*Path{path(step(key("a"))), path(rec(wild())), path(step(filt(eCur(step(key("a"))))))} {
		for _, d := range bestDocs(p, docs, 1) {
			e, _ := sop("search", p, d)
			for _, s := range []string{p.text(), "$.b", "$["} {
				out = append(out, sscen{Scenario{Ops: []SOp{e, parseOp(s)}}, 1})
			}
		}
	}
	return
}

func checkC21(c *Ctx) {
	debug.SetGCPercent(1000)
	ins := parseInputs()
	w := wants(ins)
	c.count("processes", int64(len(ins)))
	if c.k == 0 {
		d := map[string]bool{}
		for _, s := range ins {
			d[w[s]] = true
		}
		c.count("inputs", int64(len(ins)))
		c.count("distinct results", int64(len(d)))
	}
	for _, s := range ins {
		if strings.HasPrefix(w[s], "dies") || strings.HasPrefix(w[s], "panic") {
			c.count("inputs that crash (C16)", 1)
		}
	}
	seen := func(l ...string) {
		if c.seen == nil {
			c.seen = map[uint64]struct{}{}
		}
		c.seen[hashStr(l...)] = struct{}{}
	}
	// Histories of two in fresh processes
	few := every(ins, c.pick(3, 1))
	for i, x := range few {
		for j, y := range few {
			if !c.mine(i*len(few) + j) {
				continue
			}
			if c.expired() {
				return
			}
			c.enter("parsehist", "{}")
			c.pfresh([]string{x, y})
			seen(x, y)
		}
	}
	// and of three
	f3 := []string{"$.a", "$.A", "$['a','b']", "$[?(@.a==1)]", "$[?(@.a==2)]", "$[", "$.a]", "#", "/b/0"}
	if !c.thorough() {
		f3 = f3[2:]
	}
	for i, x := range f3 {
		for _, y := range f3 {
			for _, z := range f3 {
				if !c.mine(i) {
					continue
				}
				if c.expired() {
					return
				}
				c.pfresh([]string{x, y, z})
				seen(x, y, z)
			}
		}
	}
	// All pairs in one process
	for i, x := range ins {
		if !c.mine(i) {
			continue
		}
		for _, y := range ins {
			if c.expired() {
				return
			}
			c.phist([]string{x, y, x}, false)
			seen(x, y)
		}
	}
	// Paths kept while others are parsed and combined
	for i := 0; i < len(ins); i += 12 {
		if c.mine(i / 12) {
			c.phist(ins[i:min(i+12, len(ins))], true)
		}
	}
	for k := 2; k < 12; k++ {
		if c.mine(k) {
			if l := every(ins, k*3); len(l) > 1 {
				c.phist(l, true)
			}
		}
	}
	c.twins("$.", "$['", `$["`, "/", "$..", "$[?(@.", "$[?(@=='", "$[?(@ in ['", "", "join")
	// A long history
	for i, form := range []string{"$.%s", "$['%s']", "/%s", "$[?(@.%s==1)]"} {
		if c.mine(3 + i) {
			c.longHistory(ins, form)
		}
	}
	// Schedules, in a process that has parsed already
	for i, s := range c21scenarios(c.thorough()) {
		if c.expired() {
			return
		}
		s := s
		b, _ := json.Marshal(s.sc)
		c.enter("sched", string(b))
		c.schedules(&s.sc, s.bound, i)
	}
	// and in processes that have not
	pairs := [][2]string{{"$.a", "$.a"}, {"$.a", "$["}}
	if c.thorough() {
		pairs = append(pairs, [][2]string{{"$[?(@.a==1)]", "$.a"}, {"$['a','b']", "$['b','a']"}, {"#", "$.a"}, {"/b/0", "$..a"}, {"$[0]", "$[1:]"}}...)
	}
	for pi, p := range pairs {
		sc := &Scenario{Ops: []SOp{parseOp(p[0]), parseOp(p[1])}}
		c.coldSchedules(sc, pi)
	}
}

// coldSchedules runs every schedule of sc with one preemption in a process
// in which the library has done nothing but parse the paths that are given
func (c *Ctx) coldSchedules(sc *Scenario, salt int) {
	var bad string
	vsched.ExploreWith(func(devs []vsched.Dev) *vsched.Exec {
		var x *vsched.Exec
		x, bad = coldRun(sc, devs)
		if x == nil {
			x = &vsched.Exec{}
		}
		return x
	}, 1, func(at int) bool { return c.mine(at + salt) }, func(x *vsched.Exec, devs []vsched.Dev) bool {
		c.res.Traces++
		c.res.Transitions += int64(x.Decisions)
		c.count("schedules in fresh processes", 1)
		if x.Freed || x.Diverged {
			c.count("schedules not controlled to the end", 1)
			c.res.Exhaustive = false
		}
		if bad != "" {
			s := *sc
			s.Devs = devs
			c.violate("cold", sc.text(), &s, fmt.Sprintf("%s in a fresh process, switches %v: %s", sc.text(), devs, bad))
		}
		return !c.expired()
	})
}

// longHistory parses many different inputs, and the known ones in between
func (c *Ctx) longHistory(ins []string, form string) {
	n := c.pick(76000, 160000) // beyond 65536 different inputs
	seen := 0
	for i := 0; i < n; i++ {
		if i%50 == 0 && c.expired() {
			return
		}
		k := "k" + strconv.Itoa(i)
		doc := nO(k, nI(1), "k"+strconv.Itoa(i+1), nI(2), "k"+reverse(strconv.Itoa(i)), nI(3)).finish()
		if strings.Contains(form, "?") {
			doc = nA(nO(k, nI(1)), nO(k, nI(2)), nO("k"+strconv.Itoa(i+1), nI(1))).finish()
		}
		in := fmt.Sprintf(form, k)
		if i%32 == 6 {
			in += "["
		}
		p, err, pan := parse(in)
		c.res.Transitions++
		bad := pan
		if i%32 == 6 {
			if err == nil {
				bad = "no error"
			}
		} else if err != nil {
			bad = err.Error()
		} else {
			var got []*Node
			got, bad = search(vPtr, doc, ptrModel(doc, true), p, 100, nil)
			if bad == "" && (len(got) != 1 || got[0] != doc.Elems[0]) {
				bad = "expected " + k + ", got " + locs(got)
			}
		}
		if bad != "" {
			// A long history is replayed as a whole
			c.violate("", in, in, fmt.Sprintf("after %d other inputs, Parse(%q): %s", i, in, bad))
		}
		if i&(i-1) == 0 || i == n-1 {
			for _, s := range ins {
				if g := fingerprint(s); g != wants([]string{s})[s] {
					c.violate("", s, s, fmt.Sprintf("after %d other inputs, Parse(%q): expected %q, got %q", i, s, wants([]string{s})[s], g))
				}
				seen++
			}
		}
	}
	c.count("inputs in long histories", int64(n+seen))
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func init() {
	checks["C21"] = &check{run: checkC21, procs: 1, bounds: func(t bool) map[string]any {
		n := len(parseInputs())
		f := n
		if !t {
			f = (n + 2) / 3
		}
		return map[string]any{
			"inputs":                   n,
			"histories in one process": "all ordered pairs, with the first input again",
			"histories of two in processes of their own": f * f,
			"concurrent": "all pairs of 13 inputs, one preemption at any statement of the library and of the generated parser; also in processes that have not parsed before",
			"oracle":     "the result in a process that parses nothing else: nodes selected on two documents, or the text of the error",
		}
	}, assume: []string{"the ANTLR runtime has no scheduling points; its accesses are left to the race detector"}}
	extraPhase["C21"] = racePhase("C21")
}
