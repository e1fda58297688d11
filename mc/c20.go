package main

// C20: concurrent evaluations. Threads under the scheduler of vsched: the
// library is compiled with a scheduling point before every statement, and the
// document model and the captures have points as well.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	gj "github.com/bserdar/gojsonpath"

	"verif/mc/vsched"
)

// SOp is what one thread does
type SOp struct {
	Do      string // search, find, paf, parse, append, rec, keys
	Path    string // quoted; ops with the same path share the compiled path
	Doc     string // ops with the same document share the model
	Variant string
	Want    []int
	Keys    []string `json:",omitempty"` // texts of the matched paths, for keys
	Inner   *SOp     `json:",omitempty"` // evaluated at every match
	Print   string   `json:",omitempty"` // what a parse gives
}

// Scenario is a set of threads
type Scenario struct {
	Ops  []SOp
	Devs []vsched.Dev `json:",omitempty"`
}

// setup makes compiled paths and documents of a scenario, never used before
type setup struct {
	ps     map[string]gj.Path
	ds     map[string]*docCase
	clones bool
}

func (s *setup) path(q string) gj.Path {
	if p, ok := s.ps[q]; ok {
		return p
	}
	t, err := strconv.Unquote(q)
	must(err)
	if master := masters[q]; master != nil && s.clones && !unclonable[q] {
		if p, ok := clonePath(master); ok {
			s.ps[q] = p
			return p
		}
		unclonable[q] = true
	}
	p, err, pan := parse(t)
	if err != nil || pan != "" {
		panic("Parse(" + q + "): " + pan + errText(err))
	}
	if s.clones && masters[q] == nil {
		p0, _, _ := parse(t)
		masters[q] = &p0
	}
	s.ps[q] = p
	return p
}

// masters are compiled paths that are never evaluated, only copied
var (
	masters    = map[string]*gj.Path{}
	unclonable = map[string]bool{}
	noClones   bool
)

func (s *setup) doc(txt, vn string, from *Node) *docCase {
	k := txt + "\x00" + vn
	if d, ok := s.ds[k]; ok {
		return d
	}
	var r *Node
	if from != nil {
		r = from.clone().finish()
	} else {
		r = parseDoc(txt)
	}
	d := newDocCase(r, []*variant{variants[vn]})
	if m, ok := d.ms[0].(*strictModel); ok {
		m.calls = vsched.Point
	}
	s.ds[k] = d
	return d
}

// docCache keeps parsed documents to clone
var docCache sync.Map

func cachedDoc(txt string) *Node {
	if r, ok := docCache.Load(txt); ok {
		return r.(*Node)
	}
	r := parseDoc(txt)
	docCache.Store(txt, r)
	return r
}

// body makes the function of a thread; its verdict goes to bad. In free runs
// nothing is shared between threads but what the library is given.
func (o *SOp) body(s *setup, bad *string, tr func()) func() {
	if o.Do == "parse" {
		t, err := strconv.Unquote(o.Path)
		must(err)
		probes()
		return func() {
			if g := fingerprint(t); g != o.Print && *bad == "" {
				*bad = fmt.Sprintf("Parse(%s): expected %s, got %s", o.Path, o.Print, g)
			}
		}
	}
	d := s.doc(o.Doc, o.Variant, cachedDoc(o.Doc))
	v := variants[o.Variant]
	nodes := allNodes(d.root)
	want := make([]*Node, len(o.Want))
	for i, id := range o.Want {
		want[i] = nodes[id]
	}
	m := d.ms[0]
	limit := 4*len(want) + 4*d.root.Size + 1000
	var p gj.Path
	var txt string
	if o.Do == "paf" {
		txt, _ = strconv.Unquote(o.Path)
	} else {
		p = s.path(o.Path)
	}
	var inner func()
	if o.Inner != nil {
		inner = o.Inner.body(s, bad, nil)
	}
	return func() {
		b := ""
		var got []*Node
		func() {
			defer func() {
				if r := recover(); r != nil {
					b = panicText(r)
				}
			}()
			switch o.Do {
			case "find", "paf":
				var r []any
				var err error
				if o.Do == "find" {
					r, err = gj.Find(m, p)
				} else {
					r, err = gj.ParseAndFind(m, txt)
				}
				if err != nil {
					b = "error: " + err.Error()
					return
				}
				for _, h := range r {
					got = append(got, v.handle(d.root, m, h))
				}
				vsched.Point()
			default:
				q := p
				switch o.Do {
				case "append":
					q = gj.Append(p, gj.WildcardPath)
				case "rec":
					q = gj.Append(gj.RecursiveDescent(gj.SelectRootPath), gj.WildcardPath)
				}
				i := 0
				err := gj.Search(m, q, func(dp gj.DocPath) {
					if tr != nil {
						tr()
					}
					vsched.Point()
					n, nb := v.node(d.root, m, dp)
					if nb != "" && b == "" {
						b = nb
					}
					got = append(got, n)
					if o.Do == "keys" && i < len(o.Keys) {
						if k := pathKeys(dp); k != o.Keys[i] && b == "" {
							b = fmt.Sprintf("match %d is described as %s instead of %s", i, k, o.Keys[i])
						}
					}
					i++
					if len(got) > limit {
						panic(overflow{})
					}
					if inner != nil {
						inner()
					}
				})
				if err != nil && b == "" {
					b = "error: " + err.Error()
				}
			}
		}()
		if b == "" {
			b = compare(v, want, got)
		}
		if b != "" && *bad == "" {
			*bad = fmt.Sprintf("%s of %s on %s: %s", o.Do, o.Path, o.Doc, b)
		}
	}
}

// pathKeys is what a document path says of itself
func pathKeys(dp gj.DocPath) string {
	s := strconv.Itoa(dp.Len()) + dp.Key("derived", nil, gj.ValueNode).Last().Name
	for i := range dp.P {
		s += "|" + dp.P[i].Name + "," + strconv.Itoa(dp.P[i].Index)
	}
	return s
}

func (sc *Scenario) setup(trace *[]byte, clones bool) (bodies []func(), bads []string) {
	s := &setup{map[string]gj.Path{}, map[string]*docCase{}, clones}
	bads = make([]string, len(sc.Ops))
	for i := range sc.Ops {
		var tr func()
		if trace != nil {
			b := byte('0' + i)
			tr = func() { *trace = append(*trace, b) }
		}
		bodies = append(bodies, sc.Ops[i].body(s, &bads[i], tr))
	}
	return
}

func verdict(x *vsched.Exec, bads []string) string {
	for i, b := range bads {
		if b != "" {
			return fmt.Sprintf("thread %d: %s", i, b)
		}
	}
	for i, p := range x.Panics {
		if p != nil {
			return fmt.Sprintf("thread %d: panic: %v", i, p)
		}
	}
	if x.Deadlock {
		return "deadlock: no thread can go on"
	}
	return ""
}

func (sc *Scenario) text() string {
	var l []string
	for _, o := range sc.Ops {
		l = append(l, o.Do+" "+o.Path+" on "+o.Doc)
	}
	return strings.Join(l, " || ")
}

// replayRun executes one schedule; bad is "" if the property holds
func (sc *Scenario) replayRun() string {
	bodies, bads := sc.setup(nil, false)
	x := vsched.Run(bodies, sc.Devs, false)
	if b := verdict(x, bads); b != "" {
		return fmt.Sprintf("%s, switches %v: %s", sc.text(), sc.Devs, b)
	}
	return ""
}

func init() {
	handlers["sched"] = func(raw json.RawMessage) (bool, string) {
		var sc Scenario
		must(json.Unmarshal(raw, &sc))
		b := sc.replayRun()
		return b != "", b
	}
	handlers["race"] = func(raw json.RawMessage) (bool, string) {
		var prop string
		must(json.Unmarshal(raw, &prop))
		bad, out, _ := raceRun(prop, "quick")
		return bad, out
	}
}

// explore runs all schedules of a scenario with at most bound preemptions
func (c *Ctx) schedules(sc *Scenario, bound int, salt int) {
	var bads []string
	var trace []byte
	h := hashStr(sc.text())
	// The copies must do alone what the paths do
	clones := !noClones && sc.clonesWork()
	mk := func() []func() {
		var b []func()
		trace = trace[:0]
		b, bads = sc.setup(&trace, clones)
		return b
	}
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	again := false
	if bound > 1 && !c.thorough() {
		if x := vsched.Run(mk(), nil, false); x.Decisions > 700 {
			bound = 1
			c.count("scenarios limited to one preemption", 1)
		}
	}
	_, done := vsched.Explore(mk, bound, func(at int) bool { return c.mine(at + salt) }, func(x *vsched.Exec, devs []vsched.Dev) bool {
		c.res.Traces++
		c.res.Transitions += int64(x.Decisions)
		if len(devs) > 0 {
			d := devs[len(devs)-1]
			c.seen[h^uint64(d.At*16+d.To+1)*0x9e3779b97f4a7c15] = struct{}{}
		} else {
			c.count("decisions of the first schedules", int64(x.Decisions))
			c.sample(func() string { return fmt.Sprintf("%s: %d decisions", sc.text(), x.Decisions) })
		}
		if x.Freed || x.Diverged {
			c.count("schedules not controlled to the end", 1)
			c.res.Exhaustive = false
		}
		if b := verdict(x, bads); b != "" {
			sc.Devs = append([]vsched.Dev(nil), devs...)
			if clones && !x.Deadlock && sc.replayRun() == "" {
				// The copies are to blame
				noClones, again = true, true
				c.count("scenarios where copies do not stand for the path", 1)
				return false
			}
			c.violate("sched", sc.text(), sc, fmt.Sprintf("%s, switches %v: %s", sc.text(), devs, b))
		}
		if len(trace) < 12 {
			c.outcome(string(trace))
		}
		if c.res.Traces%64 == 0 && c.expired() {
			return false
		}
		return true
	})
	if again {
		sc.Devs = nil
		c.schedules(sc, bound, salt)
		return
	}
	if done {
		c.count("scenarios", 1)
		for _, o := range sc.Ops {
			clones = clones && !unclonable[o.Path]
		}
		if clones {
			c.count("scenarios with copies of compiled paths", 1)
		}
	}
}

// clonesWork runs the threads one after the other with copies
func (sc *Scenario) clonesWork() bool {
	for range 3 {
		bodies, bads := sc.setup(nil, true)
		for i, f := range bodies {
			f()
			if bads[i] != "" {
				return false
			}
		}
	}
	return !noClones
}

// sop makes the op that evaluates p on r, with what the reference expects
func sop(do string, p *Path, r *Node) (SOp, bool) {
	w, ok := p.eval(r, r)
	if !ok {
		return SOp{}, false
	}
	o := SOp{Do: do, Path: quoted(p.text()), Doc: r.text(), Variant: "ptr", Want: ids(w)}
	return o, true
}

// useful tells what a path selects on a document, to choose scenarios that do something
func useful(p *Path, r *Node) int {
	w, ok := p.eval(r, r)
	if !ok {
		return -1
	}
	return len(w)
}

// bestDocs orders the documents by how much p selects, small ones first
func bestDocs(p *Path, docs []*Node, n int) []*Node {
	var out []*Node
	for _, min := range []int{2, 1, 0} {
		for _, d := range docs {
			if u := useful(p, d); u >= min && (min == 2 || u == min) && len(out) < n {
				out = append(out, d)
			}
		}
	}
	return out
}

func schedDocs() []*Node {
	return []*Node{
		nO("a", nI(1), "b", nA(nI(1), nO("a", nI(1)))).finish(),
		nA(nI(1), nO("a", nI(1), "b", nI(2)), nA(nI(2))).finish(),
		nO("b", nO("a", nA(nI(1), nI(2)), "b", nI(1)), "a", nI(1)).finish(),
		nO("a", nA(nO("a", nI(1)), nI(1), nI(2))).finish(),
		nA(nS("s"), nI(1)).finish(),
	}
}

type sscen struct {
	sc    Scenario
	bound int
}

func c20scenarios(thorough bool) (out []sscen) {
	docs := schedDocs()
	add := func(bound int, ops ...SOp) { out = append(out, sscen{Scenario{Ops: ops}, bound}) }
	paths := histPaths(false)
	b2 := 2
	// the same compiled path, on one document and on two
	for _, p := range paths {
		ds := bestDocs(p, docs, 2)
		if len(ds) == 0 {
			continue
		}
		x, _ := sop("search", p, ds[0])
		add(b2, x, x)
		if len(ds) > 1 {
			y, _ := sop("search", p, ds[1])
			add(b2, x, y)
		}
		f := x
		f.Do = "find"
		add(1, x, f)
	}
	// different paths
	var few []*Path
	for i := range paths {
		if thorough || i%5 == 1 {
			few = append(few, paths[i])
		}
	}
	for i, p := range few {
		for j := range few[:i] {
			q := few[j]
			for _, d := range bestDocs(p, docs, 1) {
				x, _ := sop("search", p, d)
				y, ok := sop("search", q, d)
				if ok {
					add(1, x, y)
				}
			}
		}
	}
	length := func(k EKind, steps ...*Step) *Expr { return &Expr{K: k, P: cur(steps...)} }
	rlength := func(k EKind, steps ...*Step) *Expr { return &Expr{K: k, P: path(steps...)} }
	exprs := kindsOfExpr()
	for i, e := range exprs {
		ps := []*Path{path(step(filt(e))), path(rec(filt(e))), path(step(wild()), step(filt(e)))}
		for j, p := range ps {
			if j > 0 && !thorough && (i+j)%4 != 0 {
				continue
			}
			for k, d := range bestDocs(p, docs, 2) {
				x, ok := sop("search", p, d)
				if !ok {
					continue
				}
				if k == 0 {
					add(1, x, x)
				}
				if k == 1 && (thorough || i%3 == 0) {
					y, _ := sop("search", p, docs[0])
					if y.Do != "" {
						add(1, x, y)
					}
				}
			}
		}
	}
	for _, p := range []*Path{path(step(slc(bin("-", length(ELenM), eInt(2)), length(ELenM), nil))), path(rec(slc(nil, bin("-", length(ELenM), eInt(1)), eInt(-1)))), path(step(slc(nil, bin("-", length(ELen), eInt(1)), nil), idx(0))), path(step(slc(un("-", eInt(1)), nil, nil))), path(step(slc(rlength(ELenM, step(key("b"))), nil, nil))), path(step(wild()), step(slc(bin("+", eInt(0), eInt(1)), nil, eInt(1))))} {
		for _, d := range bestDocs(p, docs, 1) {
			x, _ := sop("search", p, d)
			add(1, x, x)
		}
	}
	// three threads
	for i, p := range paths {
		if !thorough && i%4 != 1 {
			continue
		}
		ds := bestDocs(p, docs, 2)
		if len(ds) < 2 {
			continue
		}
		x, _ := sop("search", p, ds[0])
		y, _ := sop("search", p, ds[1])
		z := x
		z.Do = "find"
		add(1, x, y, z)
	}
	// combining and describing while evaluating; evaluating within a capture
	all := path(rec(wild()))
	for i, p := range paths {
		if !thorough && i%3 != 0 {
			continue
		}
		for _, d := range bestDocs(p, docs, 1) {
			x, _ := sop("search", p, d)
			if y, ok := sop("append", path(append(append([]*Step(nil), p.Steps...), step(wild()))...), d); ok && (len(p.Steps) == 0 || !isTrail(p.Steps[len(p.Steps)-1])) {
				y.Path = x.Path
				add(1, x, y)
			}
			z, ok := sop("rec", all, d)
			if ok {
				add(1, x, z)
			}
			k := keysOp(p, d)
			if k.Do != "" {
				add(1, k, k)
				add(1, k, x)
			}
			n := x
			in := x
			n.Inner = &in
			add(1, n, x)
			pf := x
			pf.Do = "paf"
			add(1, pf, x)
			if i%9 == 0 || thorough {
				add(1, pf, pf)
			}
		}
	}
	return
}

// keysOp compares how matches are described with what is said when alone
func keysOp(p *Path, d *Node) SOp {
	o, ok := sop("keys", p, d)
	if !ok {
		return SOp{}
	}
	gp, err, pan := parse(p.text())
	if err != nil || pan != "" {
		return SOp{}
	}
	if _, bad := func() (x int, bad string) {
		defer func() {
			if r := recover(); r != nil {
				bad = "panic"
			}
		}()
		gj.Search(ptrModel(d, true), gp, func(dp gj.DocPath) { o.Keys = append(o.Keys, pathKeys(dp)) })
		return
	}(); bad != "" {
		return SOp{}
	}
	return o
}

func checkC20(c *Ctx) {
	debug.SetGCPercent(3000)
	for i, s := range c20scenarios(c.thorough()) {
		if c.expired() {
			return
		}
		s := s
		b, _ := json.Marshal(s.sc)
		c.enter("sched", string(b))
		c.schedules(&s.sc, s.bound, i)
	}
	// in processes that have evaluated nothing
	for i, sc := range coldScenarios(c.thorough()) {
		if c.expired() {
			return
		}
		c.enter("sched", "{}")
		c.coldSchedules(sc, i)
	}
}

// coldScenarios are evaluations that may prepare something when it is first
// needed
func coldScenarios(thorough bool) (out []*Scenario) {
	a := eCur(step(key("a")))
	ps := []*Path{
		path(step(filt(bin("==", &Expr{K: ELen, P: cur()}, eInt(2))))),
		path(step(filt(bin("==", &Expr{K: ELenM, P: cur()}, eInt(2))))),
		path(step(slc(bin("-", &Expr{K: ELenM, P: cur()}, eInt(2)), nil, nil))),
		path(rec(key("a"))), path(rec(wild())), path(step(key("a"), idx(1))), path(step(slc(nil, nil, eInt(-1)))),
		path(step(filt(bin("&&", bin(">", bin("+", a, eInt(1)), eInt(0)), un("!", bin("==", a, eStr("x"))))))),
		path(step(filt(bin("in", a, list(eInt(1), bin("*", eInt(2), eF(1.5))))))),
		path(step(filt(bin("==", bin("**", a, eInt(2)), eInt(1))))),
	}
	if thorough {
		ps = append(ps, histPaths(false)...)
	}
	for _, p := range ps {
		for _, d := range bestDocs(p, schedDocs(), 1) {
			if x, ok := sop("search", p, d); ok {
				out = append(out, &Scenario{Ops: []SOp{x, x}})
			}
		}
	}
	return
}

// ---------------------------------------------------------------- race detection

// raceScenarios are the scenarios for the race detector
func raceScenarios(prop, tier string) (out []Scenario) {
	l := c20scenarios(tier == "thorough")
	if prop == "C21" {
		l = c21scenarios(tier == "thorough")
	}
	for _, s := range l {
		out = append(out, s.sc)
	}
	return
}

// raceMain runs the scenarios of a file with threads that run freely. The
// library has done nothing in this process before.
func raceMain(file, tier string, only int) {
	guardMemory()
	n := 0
	start := time.Now()
	var scens []Scenario
	raw, err := os.ReadFile(file)
	must(err)
	must(json.Unmarshal(raw, &scens))
	reps := 2
	if tier == "thorough" {
		reps = 20
	}
	if only >= 0 {
		// in a process that has done nothing before
		scens, reps = scens[only:only+1], 1
	}
	for r := 0; r < reps; r++ {
		for _, sc := range scens {
			for _, vn := range []string{"ptr", "mapi"} {
				if vn == "mapi" {
					sc.Ops = append([]SOp(nil), sc.Ops...)
					for i := range sc.Ops {
						sc.Ops[i].Variant = vn
						if sc.Ops[i].Do == "find" || sc.Ops[i].Do == "paf" {
							sc.Ops[i].Do = "search"
						}
						if sc.Ops[i].Do == "keys" {
							sc.Ops[i].Do = "search"
						}
						if in := sc.Ops[i].Inner; in != nil {
							x := *in
							x.Variant = vn
							sc.Ops[i].Inner = &x
						}
					}
				}
				bodies, bads := sc.setup(nil, false)
				gate := make(chan struct{})
				var wg sync.WaitGroup
				pans := make([]any, len(bodies))
				for i, f := range bodies {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() { pans[i] = recover() }()
						<-gate
						f()
					}()
				}
				close(gate)
				wg.Wait()
				n++
				for i := range bodies {
					if pans[i] != nil {
						bads[i] = fmt.Sprintf("panic: %v", pans[i])
					}
					if bads[i] != "" {
						fmt.Printf("RESULT %s: thread %d: %s\n", sc.text(), i, bads[i])
						os.Exit(67)
					}
				}
			}
		}
		if time.Since(start) > 300*time.Second {
			break
		}
	}
	fmt.Printf("runs %d\n", n)
}

// raceRun runs bin/mcr, the checker built with the race detector
func raceRun(prop, tier string) (bad bool, out string, counts map[string]int64) {
	scens := raceScenarios(prop, tier)
	raw, err := json.Marshal(scens)
	must(err)
	f, err := os.CreateTemp("", "scenarios")
	must(err)
	defer os.Remove(f.Name())
	f.Write(raw)
	must(f.Close())
	bad, out, counts = raceProc(f.Name(), tier, -1)
	if bad || out != "" {
		return
	}
	// in processes of their own: one for every path that meets itself, and some
	var first []int
	met := map[string]bool{}
	for i, s := range scens {
		k := s.Ops[0].Path
		if len(s.Ops) == 2 && s.Ops[1].Path == k && !met[k] && s.Ops[0].Do != "keys" {
			met[k] = true
			first = append(first, i)
		} else if prop == "C21" && tier == "quick" || i%6 == 0 {
			first = append(first, i)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < len(first); i += 8 {
				b, o, _ := raceProc(f.Name(), tier, first[i])
				mu.Lock()
				counts["processes under the race detector"]++
				if o != "" && out == "" || b && !bad {
					bad, out = b, o
				}
				stop := bad
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	return
}

func raceProc(file, tier string, only int) (bad bool, out string, counts map[string]int64) {
	bin := filepath.Join(verifDir(), "bin", "mcr")
	if _, err := os.Stat(bin); err != nil {
		return false, "no race detector: " + err.Error(), nil
	}
	cmd := exec.Command(bin, "race", file, tier, strconv.Itoa(only))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=8")
	var b strings.Builder
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return false, err.Error(), nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(400 * time.Second):
		cmd.Process.Kill()
		<-done
		return true, "concurrent evaluations do not end: " + firstLines(b.String(), 5), nil
	}
	code := cmd.ProcessState.ExitCode()
	o := b.String()
	switch {
	case code == 0:
		n, _ := strconv.ParseInt(strings.TrimSpace(strings.TrimPrefix(o, "runs ")), 10, 64)
		return false, "", map[string]int64{"scenario runs under the race detector": n}
	case code == 66, strings.Contains(o, "DATA RACE"):
		if !raceOfLibrary(o) {
			return false, "race within the checker: " + raceLines(o), nil
		}
		return true, "data race: " + raceLines(o), nil
	case code == 67:
		return true, firstLines(o, 4), nil
	case strings.Contains(o, "gojsonpath"):
		return true, "the process dies: " + firstLines(o, 12), nil
	}
	return false, fmt.Sprintf("the race run ends with %d: %s", code, firstLines(o, 4)), nil
}

// raceOfLibrary tells if one of the accesses is by the library or what it uses
func raceOfLibrary(o string) bool {
	l := strings.Split(o, "\n")
	for i, s := range l {
		if !strings.Contains(s, " by goroutine ") && !strings.Contains(s, " by main goroutine") {
			continue
		}
		for j := i + 1; j < len(l) && strings.HasPrefix(l[j], "  "); j++ {
			f := strings.TrimSpace(l[j])
			if strings.HasPrefix(f, "github.com/") {
				return true
			}
			if strings.HasPrefix(f, "main.") || strings.HasPrefix(f, "verif/") {
				break
			}
		}
	}
	return false
}

func raceLines(o string) string {
	var l []string
	for _, s := range strings.Split(o, "\n") {
		if strings.Contains(s, "Previous") || strings.Contains(s, "Write at") || strings.Contains(s, "Read at") || strings.Contains(s, "gojsonpath") {
			l = append(l, strings.TrimSpace(s))
		}
		if len(l) > 12 {
			break
		}
	}
	return strings.Join(l, " | ")
}

func racePhase(prop string) func(tier, dir string) (bool, string, map[string]int64, string, any) {
	return func(tier, dir string) (bool, string, map[string]int64, string, any) {
		bad, out, counts := raceRun(prop, tier)
		if bad {
			// Once is enough if it is a report of the detector, else again
			if !strings.HasPrefix(out, "data race") {
				bad2, out2, _ := raceRun(prop, tier)
				if !bad2 {
					return false, "unconfirmed: " + out, counts, "", nil
				}
				out = out2
			}
			return true, out, counts, "race", prop
		}
		note := out
		if n := instrNote(); n != "" {
			note = strings.TrimSpace(note + " " + n)
		}
		return false, note, counts, "", nil
	}
}

// instrNote says if the library is not instrumented
func instrNote() string {
	b, err := os.ReadFile(filepath.Join(verifDir(), ".cache", "instr.txt"))
	if err != nil {
		return "the library has no scheduling points"
	}
	return strings.TrimSpace(string(b))
}

func init() {
	checks["C20"] = &check{run: checkC20, procs: 1, bounds: func(t bool) map[string]any {
		return map[string]any{
			"threads":       "2 (3 with one preemption)",
			"preemptions":   "2 for the same compiled path on the same and on different documents (quick: if there are at most 700 decisions), 1 otherwise",
			"points":        "before every statement of the library, at every call of the document model, at every capture",
			"paths":         len(histPaths(false)),
			"scenarios":     len(c20scenarios(t)),
			"initial_state": "paths compiled and documents built anew for every schedule",
		}
	}, assume: []string{"statements are atomic under the scheduler; conflicting accesses within statements are left to the race detector (happens-before, on every scenario)", "the evaluation of a Go program by one thread at a time is sequentially consistent"}}
	extraPhase["C20"] = racePhase("C20")
}

// kindsOfExpr are expressions of every kind
func kindsOfExpr() []*Expr {
	ea, eb, at := eCur(step(key("a"))), eCur(step(key("b"))), eCur()
	length := func(k EKind, steps ...*Step) *Expr { return &Expr{K: k, P: cur(steps...)} }
	rlength := func(k EKind, steps ...*Step) *Expr { return &Expr{K: k, P: path(steps...)} }
	return []*Expr{
		length(ELenM), length(ELen), bin("==", length(ELenM), eInt(2)), bin(">", rlength(ELenM), eInt(0)), bin("==", rlength(ELen, step(key("b"))), eInt(2)), bin("<", length(ELenM, step(key("a"))), rlength(ELenM, step(key("b")))), bin("!=", length(ELen, step(key("b"))), eInt(1)),
		bin("in", length(ELenM), list(eInt(1), eInt(2))), bin("in", at, list(ea, eb, eInt(1))), bin("in", ea, eRoot(step(key("b")))), bin("in", eInt(1), at), bin("in", eStr("s"), eRoot(step(wild()))), bin("in", at, list()), bin("in", eNull(), list(eNull(), eBool(true))),
		bin("+", ea, eb), bin("-", at, eInt(1)), bin("*", ea, eF(1.5)), bin("/", ea, eb), bin("%", at, eInt(2)), bin("**", at, eInt(2)), bin("==", bin("+", bin("*", ea, eInt(2)), bin("-", eb, eInt(1))), eInt(3)),
		un("-", at), un("+", ea), un("!", ea), un("!", un("!", bin("==", at, eInt(1)))), bin("&&", ea, eb), bin("||", ea, eb), bin("||", bin("&&", ea, un("!", eb)), bin(">=", at, eInt(2))), bin("&&", bin("||", ea, at), bin("<=", length(ELenM), eInt(9))),
		bin("==", at, eStr("s")), bin("===", at, ea), bin("!==", ea, eInt(1)), bin("===", ea, eNull()), bin("===", eStr("s"), at), bin("<", at, eStr("t")), bin("!=", at, eNull()), bin("==", eBool(true), at), bin(">", at, eF(0.5)), bin("==", eRoot(step(key("a"))), ea), bin("==", eCur(step(wild())), eRoot(rec(key("a")))),
		eCur(step(slc(bin("-", length(ELenM), eInt(1)), nil, nil))), eCur(rec(filt(bin("==", at, eInt(1))))), eCur(step(filt(bin("==", length(ELenM), eInt(1))))), eCur(step(key("a"), idx(0))), eCur(step(idx(-1))), eCur(rec(wild())), eStr("x"), eInt(0), list(ea), eNull(),
	}
}
