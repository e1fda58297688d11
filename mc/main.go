package main

// mc check ID       runs a check: shards of the exploration in processes of their own
// mc shard ID k n   (internal) one shard
// mc replay FILE    executes a recorded violation

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Result of a shard
type Result struct {
	States, Transitions, Traces int64
	Counts                      map[string]int64
	Outcomes                    map[string]int64
	Samples                     []string
	Exhaustive                  bool
	Viol                        *Viol
	Findings                    []string
	WallS                       float64
}

// Viol is a violation as the shard saw it
type Viol struct {
	Kind   string
	Key    string
	Args   json.RawMessage
	Detail string
	Unit   int64
}

// Ctx is the state of one shard
type Ctx struct {
	prop     string
	tier     string
	k, n     int
	seed     int
	deadline time.Time
	res      Result
	slot     []byte
	beat     uint64
	known    map[string]bool
	stopAt   int64
	sampled  int

	nextSample int64
	seen       map[uint64]struct{} // states: (document, selected nodes)
}

type stopShard struct{}

type check struct {
	run    func(*Ctx)
	bounds func(thorough bool) map[string]any
	single bool // run in one shard
	procs  int  // GOMAXPROCS of the shards if not 0
	level  string
	assume []string
}

var checks = map[string]*check{}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// pick returns q on the quick tier and t on the thorough tier
func (c *Ctx) pick(q, t int) int {
	if c.thorough() {
		return t
	}
	return q
}

// mine tells if item i belongs to this shard
func (c *Ctx) mine(i int) bool { return i%c.n == c.k }

// enter publishes the case about to run, for the supervisor to find after a crash
func (c *Ctx) enter(kind string, parts ...string) {
	c.beat++
	c.res.Traces++
	s := c.slot
	if s == nil {
		return
	}
	binary.LittleEndian.PutUint64(s, c.beat)
	at := 12
	put := func(p string) {
		if at+4+len(p) > len(s) {
			p = ""
		}
		if at+4+len(p) > len(s) {
			return
		}
		binary.LittleEndian.PutUint32(s[at:], uint32(len(p)))
		at += 4
		at += copy(s[at:], p)
	}
	put(kind)
	for _, p := range parts {
		put(p)
	}
	binary.LittleEndian.PutUint32(s[8:], uint32(len(parts)+1))
}

func readSlot(s []byte) (beat uint64, parts []string) {
	beat = binary.LittleEndian.Uint64(s)
	n := int(binary.LittleEndian.Uint32(s[8:]))
	at := 12
	for i := 0; i < n && at+4 <= len(s); i++ {
		l := int(binary.LittleEndian.Uint32(s[at:]))
		at += 4
		if at+l > len(s) {
			break
		}
		parts = append(parts, string(s[at:at+l]))
		at += l
	}
	return
}

// tick tells the supervisor that the shard is alive
func (c *Ctx) tick() {
	c.beat++
	if c.slot != nil {
		binary.LittleEndian.PutUint64(c.slot, c.beat)
	}
}

// expired tells if the time of this shard is over
func (c *Ctx) expired() bool {
	c.tick()
	if time.Now().After(c.deadline) {
		c.res.Exhaustive = false
		return true
	}
	return false
}

func (c *Ctx) sample(s func() string) {
	if c.sampled < 3 && c.res.Traces >= c.nextSample {
		t := s()
		if len(t) > 600 {
			t = t[:600] + "..."
		}
		c.res.Samples = append(c.res.Samples, t)
		c.sampled++
		c.nextSample = 50 * c.res.Traces
	}
}

func (c *Ctx) count(name string, d int64) {
	c.tick()
	if c.res.Counts == nil {
		c.res.Counts = map[string]int64{}
	}
	c.res.Counts[name] += d
}

// outcome counts distinct observed outcomes
func (c *Ctx) outcome(s string) {
	if c.res.Outcomes == nil {
		c.res.Outcomes = map[string]int64{}
	}
	if len(c.res.Outcomes) < 5000 || c.res.Outcomes[s] > 0 {
		c.res.Outcomes[s]++
	}
}

// violate records a violation and ends the shard, unless it is a known finding
func (c *Ctx) violate(kind, key string, args any, detail string) {
	raw, err := json.Marshal(args)
	must(err)
	if c.known[c.prop+" "+key] {
		c.res.Findings = append(c.res.Findings, key)
		return
	}
	c.res.Viol = &Viol{Kind: kind, Key: key, Args: raw, Detail: detail, Unit: int64(c.beat)}
	panic(stopShard{})
}

const slotSize = 1 << 20

func runShard(prop string, k, n int, tier string, deadlineS float64, slotFile, outFile string, seed int) {
	c := &Ctx{prop: prop, tier: tier, k: k, n: n, seed: seed}
	start := time.Now()
	c.deadline = start.Add(time.Duration(deadlineS * float64(time.Second)))
	c.res.Exhaustive = true
	c.nextSample = 50
	c.known = map[string]bool{}
	for _, f := range loadFindings() {
		c.known[f.prop+" "+f.key] = true
	}
	if slotFile != "" {
		f, err := os.OpenFile(slotFile, os.O_RDWR|os.O_CREATE, 0644)
		must(err)
		must(f.Truncate(slotSize))
		c.slot, err = syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		must(err)
	}
	guardMemory()
	if f := os.Getenv("MC_PROFILE"); f != "" {
		w, err := os.Create(f)
		must(err)
		must(pprof.StartCPUProfile(w))
		defer pprof.StopCPUProfile()
	}
	debug.SetMaxStack(256 << 20)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopShard); !ok {
					panic(r)
				}
			}
		}()
		switch prop {
		case "C19", "C20", "C21", "C22", "C24", "C25":
			// have histories of their own
		default:
			recorder.on = true
		}
		checks[prop].run(c)
		if recorder.on {
			c.again()
		}
	}()
	c.res.WallS = time.Since(start).Seconds()
	if len(c.seen) > 0 {
		b := make([]byte, 0, 8*len(c.seen))
		for h := range c.seen {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		must(os.WriteFile(outFile+".states", b, 0644))
	}
	b, err := json.Marshal(&c.res)
	must(err)
	must(os.WriteFile(outFile, b, 0644))
}

// guardMemory ends the process with status 77 when it grows beyond any need
func guardMemory() {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			b, err := os.ReadFile("/proc/self/statm")
			if err != nil {
				return
			}
			f := strings.Fields(string(b))
			if len(f) > 1 {
				pages, _ := strconv.ParseInt(f[1], 10, 64)
				if pages*int64(os.Getpagesize()) > 3<<30 {
					fmt.Fprintln(os.Stderr, "memory runaway")
					os.Exit(77)
				}
			}
		}
	}()
}

type finding struct{ prop, key, text string }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadFindings reads lines "finding: property=<id> key=<quoted key> <text>"
func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "key=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		k, _ := strconv.Unquote(q)
		out = append(out, finding{prop, k, strings.TrimSpace(rest[len(q):])})
	}
	return out
}

// Replay is the content of a replay file
type Replay struct {
	Property string
	Detail   string
	Kind     string
	Args     json.RawMessage
}

func replayFile(file string) (code int, msg string) {
	b, err := os.ReadFile(file)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	h := handlers[r.Kind]
	if h == nil {
		return 2, "unknown kind " + r.Kind
	}
	bad, msg := h(r.Args)
	if bad {
		return 1, msg
	}
	return 0, "holds"
}

func runReplay(file string, timeout time.Duration) (code int, out string) {
	cmd := exec.Command(os.Args[0], "replay", file)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var b strings.Builder
	cmd.Stdout, cmd.Stderr = &b, &b
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return cmd.ProcessState.ExitCode(), b.String()
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return -9, "does not terminate"
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func main() {
	debug.SetGCPercent(400)
	switch {
	case len(os.Args) == 3 && os.Args[1] == "check":
		os.Exit(supervise(os.Args[2]))
	case len(os.Args) == 3 && os.Args[1] == "replay":
		guardMemory()
		debug.SetMaxStack(256 << 20)
		code, msg := replayFile(os.Args[2])
		fmt.Println(msg)
		os.Exit(code)
	case len(os.Args) == 10 && os.Args[1] == "shard":
		k, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		d, _ := strconv.ParseFloat(os.Args[6], 64)
		seed, _ := strconv.Atoi(os.Args[9])
		runShard(os.Args[2], k, n, os.Args[5], d, os.Args[7], os.Args[8], seed)
	case len(os.Args) == 2 && os.Args[1] == "fp":
		fpMain()
	case len(os.Args) == 2 && os.Args[1] == "cold":
		coldMain()
	case len(os.Args) == 5 && os.Args[1] == "race":
		only, _ := strconv.Atoi(os.Args[4])
		raceMain(os.Args[2], os.Args[3], only)
	case len(os.Args) == 4 && os.Args[1] == "instrument":
		n, err := instrument(os.Args[2], os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%d scheduling points in the library\n", n)
	default:
		fmt.Fprintln(os.Stderr, "usage: mc check ID | mc replay FILE")
		os.Exit(2)
	}
}

// ShardArgs is a replay of a whole shard, for violations that need its history
type ShardArgs struct {
	Property string
	K, N     int
	Tier     string
	Seed     int
	Deadline float64
}

type shardOut struct {
	res  *Result
	code int
	err  string
	slot []string
	hung bool
}

func runShardProc(dir, prop string, k, n int, tier string, deadline float64, seed int) shardOut {
	slot := filepath.Join(dir, fmt.Sprintf("slot%d", k))
	out := filepath.Join(dir, fmt.Sprintf("out%d", k))
	os.Remove(out)
	os.WriteFile(slot, make([]byte, slotSize), 0644)
	cmd := exec.Command(os.Args[0], "shard", prop, strconv.Itoa(k), strconv.Itoa(n), tier,
		strconv.FormatFloat(deadline, 'f', 1, 64), slot, out, strconv.Itoa(seed))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if checks[prop].procs > 0 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS="+strconv.Itoa(checks[prop].procs), "GODEBUG=gcshrinkstackoff=1")
	} else if checks[prop].single {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=8")
	} else {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	stderr, _ := os.Create(filepath.Join(dir, fmt.Sprintf("err%d", k)))
	cmd.Stdout, cmd.Stderr = stderr, stderr
	var so shardOut
	if err := cmd.Start(); err != nil {
		so.code, so.err = -1, err.Error()
		return so
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	read := func() (uint64, []string) {
		b, err := os.ReadFile(slot)
		if err != nil || len(b) < slotSize {
			return 0, nil
		}
		return readSlot(b)
	}
	last, lastAt := uint64(0), time.Now()
	tick := time.NewTicker(5 * time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			b, _ := read()
			if b != last {
				last, lastAt = b, time.Now()
			} else if time.Since(lastAt) > hangLimit {
				so.hung = true
				cmd.Process.Signal(syscall.SIGKILL)
			}
		}
	}
	stderr.Close()
	so.code = cmd.ProcessState.ExitCode()
	eb, _ := os.ReadFile(stderr.Name())
	so.err = string(eb)
	_, so.slot = read()
	if so.code == 0 {
		b, err := os.ReadFile(out)
		if err == nil {
			so.res = &Result{}
			if json.Unmarshal(b, so.res) != nil {
				so.res = nil
			}
		}
	}
	if (prop == "C19" || prop == "C21") && so.res != nil && so.res.Viol == nil && so.err != "" {
		// The shards of these themselves write nothing
		so.res.Viol = &Viol{Detail: "something is written to the standard output or error: " + firstLines(so.err, 2)}
	}
	return so
}

const hangLimit = 150 * time.Second

func init() {
	handlers["shard"] = func(raw json.RawMessage) (bool, string) {
		var a ShardArgs
		must(json.Unmarshal(raw, &a))
		dir, err := os.MkdirTemp("", "mcshard")
		must(err)
		defer os.RemoveAll(dir)
		so := runShardProc(dir, a.Property, a.K, a.N, a.Tier, a.Deadline, a.Seed)
		if so.res == nil {
			return true, "the exploration ends abnormally: " + firstLines(so.err, 3)
		}
		if so.res.Viol != nil {
			return true, so.res.Viol.Detail
		}
		return false, ""
	}
}

func supervise(prop string) int {
	start := time.Now()
	ck := checks[prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", prop)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	n := 8
	if ck.single {
		n = 1
	}
	deadline := 200.0
	if tier == "thorough" {
		deadline = 700.0
	}
	if d, err := strconv.ParseFloat(os.Getenv("VERIF_DEADLINE"), 64); err == nil {
		deadline = d
	}
	dir, err := os.MkdirTemp("", "mc"+prop)
	must(err)
	defer os.RemoveAll(dir)
	outs := make([]shardOut, n)
	ch := make(chan int, n)
	for k := 0; k < n; k++ {
		go func(k int) {
			outs[k] = runShardProc(dir, prop, k, n, tier, deadline, seed)
			ch <- k
		}(k)
	}
	for range outs {
		<-ch
	}
	replays := filepath.Join(verifDir(), "replays")
	os.MkdirAll(replays, 0755)
	for _, old := range globs(filepath.Join(replays, prop+"-*.json")) {
		os.Remove(old)
	}

	var total Result
	total.Exhaustive = true
	total.Counts = map[string]int64{}
	outcomes := map[string]int64{}
	var notes []string
	viols := 0
	code := 0
	for k, so := range outs {
		var v *Viol
		if so.res == nil {
			total.Exhaustive = false
			v = crashCase(so)
			notes = append(notes, fmt.Sprintf("shard %d ended abnormally (exit %d, hung %v): %s", k, so.code, so.hung, firstLines(so.err, 4)))
		} else {
			r := so.res
			total.States += r.States
			total.Transitions += r.Transitions
			total.Traces += r.Traces
			total.Exhaustive = total.Exhaustive && r.Exhaustive
			for key, x := range r.Counts {
				total.Counts[key] += x
			}
			for key, x := range r.Outcomes {
				outcomes[key] += x
			}
			if len(total.Samples) < 8 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			total.Findings = append(total.Findings, r.Findings...)
			v = r.Viol
		}
		if v == nil && so.res != nil || viols >= 3 {
			continue
		}
		if viols >= 1 && v != nil && v.Kind == "" {
			// Running whole shards again takes long, and one of them is enough
			continue
		}
		if v == nil && so.res == nil {
			v = &Viol{Kind: "", Detail: "abnormal end: " + firstLines(so.err, 3)}
		}
		file := filepath.Join(replays, fmt.Sprintf("%s-%d.json", prop, k))
		write := func(kind string, args json.RawMessage, detail string) {
			b, _ := json.MarshalIndent(Replay{prop, detail, kind, args}, "", " ")
			must(os.WriteFile(file, b, 0644))
		}
		confirmed, detail := false, v.Detail
		if v.Kind != "" {
			write(v.Kind, v.Args, v.Detail)
			confirmed = true
			for i := 0; i < 5 && confirmed; i++ {
				c, out := runReplay(file, 60*time.Second)
				if c == 0 || c == 2 && !strings.Contains(out, "goroutine") && !strings.Contains(out, "fatal") {
					confirmed = false
				} else if c != 1 {
					detail = fmt.Sprintf("the process dies (%d): %s", c, firstLines(out, 3))
				}
				if i >= 1 && c == -9 {
					break
				}
			}
		}
		if !confirmed {
			// It may need what was evaluated before it in the same process
			args, _ := json.Marshal(ShardArgs{prop, k, n, tier, seed, deadline})
			write("shard", args, v.Detail)
			confirmed = true
			for i := 0; i < 2 && confirmed; i++ {
				so2 := runShardProc(dir, prop, k, n, tier, deadline, seed)
				switch {
				case so2.res == nil:
					// Not our doing if something else killed it
					if so2.code == -1 && !so2.hung {
						confirmed = false
					}
				case so2.res.Viol == nil:
					confirmed = false
				}
			}
		}
		if !confirmed {
			os.Remove(file)
			notes = append(notes, fmt.Sprintf("unconfirmed in shard %d: %s", k, v.Detail))
			total.Exhaustive = false
			continue
		}
		viols++
		code = 1
		fmt.Printf("%s: %s\n", prop, detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	}
	if v := extraPhase[prop]; v != nil && code == 0 {
		bad, detail, counts, kind, args := v(tier, dir)
		for key, x := range counts {
			total.Counts[key] += x
		}
		if bad {
			file := filepath.Join(replays, prop+"-x.json")
			raw, _ := json.Marshal(args)
			b, _ := json.MarshalIndent(Replay{prop, detail, kind, raw}, "", " ")
			must(os.WriteFile(file, b, 0644))
			viols++
			code = 1
			fmt.Printf("%s: %s\n", prop, detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		} else if detail != "" {
			notes = append(notes, detail)
		}
	}
	for _, f := range loadFindings() {
		if f.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, f.key, f.text)
		}
	}
	states := map[uint64]struct{}{}
	for k := range outs {
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d.states", k)))
		for i := 0; i+8 <= len(b); i += 8 {
			states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	total.States += int64(len(states))
	cov := map[string]any{
		"states":                        total.States,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"samples":                       total.Samples,
		"exhaustive":                    total.Exhaustive,
	}
	for key, x := range total.Counts {
		cov[key] = x
	}
	if len(outcomes) > 0 {
		cov["distinct_outcomes"] = len(outcomes)
		type oc struct {
			k string
			n int64
		}
		var l []oc
		for key, x := range outcomes {
			l = append(l, oc{key, x})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n || l[i].n == l[j].n && l[i].k < l[j].k })
		top := map[string]int64{}
		for i := 0; i < len(l) && i < 12; i++ {
			top[l[i].k] = l[i].n
		}
		cov["most_frequent_outcomes"] = top
	}
	if ck.bounds != nil {
		b := ck.bounds(tier == "thorough")
		for k, x := range largeBounds(prop, tier == "thorough") {
			b[k] = x
		}
		if cov["evaluated_again"] != nil {
			b["evaluated_again"] = "the first 600 evaluations of each process, and others at growing distances, at the end and in reverse"
		}
		cov["bounds"] = b
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	lvl := "model_checking"
	assume := ck.assume
	if prop < "C24" {
		assume = append([]string{"the reference model mc/ref.go states the documented semantics"}, assume...)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"assumptions": assume,
		"wall_s":      time.Since(start).Seconds(), "violations": viols,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	must(os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0644))
	fmt.Printf("%s %s: states %d, transitions %d, traces %d, exhaustive %v, %.1fs, violations %d\n", prop, tier,
		total.States, total.Transitions, total.Traces, total.Exhaustive, time.Since(start).Seconds(), viols)
	for _, s := range notes {
		fmt.Println("note:", s)
	}
	return code
}

// extraPhase runs after the shards of a check
var extraPhase = map[string]func(tier, dir string) (bad bool, detail string, counts map[string]int64, kind string, args any){}

func globs(p string) []string { g, _ := filepath.Glob(p); return g }

// crashCase makes a case of what the shard was doing when it died
func crashCase(so shardOut) *Viol {
	if len(so.slot) < 2 {
		return nil
	}
	detail := "the process dies: " + firstLines(so.err, 3)
	if so.hung {
		detail = "does not terminate"
	}
	var args any
	kind := so.slot[0]
	switch kind {
	case "query": // path, doc, variant
		if len(so.slot) < 4 {
			return nil
		}
		args = QSeq{Path: quoted(so.slot[1]), Items: []QItem{{Doc: so.slot[2], Variant: so.slot[3]}}}
		detail = fmt.Sprintf("%s on %s: %s", so.slot[1], so.slot[2], detail)
	case "parse":
		args = map[string]string{"Input": quoted(so.slot[1])}
		detail = fmt.Sprintf("Parse(%s): %s", quoted(so.slot[1]), detail)
	default:
		args = json.RawMessage(so.slot[1])
	}
	raw, err := json.Marshal(args)
	if err != nil {
		return nil
	}
	return &Viol{Kind: kind, Args: raw, Detail: detail}
}
