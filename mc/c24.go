package main

// C24: MapModel presents JSON values. C25: operations on DocPaths.

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

// modelBad compares all answers of a MapModel below x with the value itself.
// absent are keys to look for besides.
func modelBad(m gj.DocModel, x any, at string, absent []string) string {
	switch v := x.(type) {
	case map[string]any:
		if t := m.Type(x); t != gj.ObjectNode {
			return fmt.Sprintf("Type of the object at %s is %d", at, t)
		}
		if n := m.Len(x); n != len(v) {
			return fmt.Sprintf("Len of the object of %d at %s is %d", len(v), at, n)
		}
		keys := m.Keys(x)
		if len(keys) != len(v) {
			return fmt.Sprintf("%d keys of the object of %d at %s", len(keys), len(v), at)
		}
		seen := make(map[string]bool, len(keys))
		for _, k := range keys {
			if _, ok := v[k]; !ok || seen[k] {
				return fmt.Sprintf("Keys of the object at %s has %q, which is not a key or there before", at, k)
			}
			seen[k] = true
		}
		for k, want := range v {
			got, ok := m.Key(x, k)
			if !ok || !sameNode(got, want) {
				return fmt.Sprintf("Key %q of the object at %s is %v, %v", k, at, got, ok)
			}
		}
		for _, k := range absent {
			if _, ok := v[k]; !ok {
				if got, ok := m.Key(x, k); ok {
					return fmt.Sprintf("Key %q, which the object at %s does not have, is %v", k, at, got)
				}
			}
		}
		kept := append([]string(nil), keys...)
		for k, e := range v {
			if s := modelBad(m, e, at+"."+k, absent); s != "" {
				return s
			}
		}
		for i := range keys {
			if keys[i] != kept[i] {
				return fmt.Sprintf("the keys of the object at %s changed from %q to %q by other calls", at, kept[i], keys[i])
			}
		}
	case []any:
		if t := m.Type(x); t != gj.ArrayNode {
			return fmt.Sprintf("Type of the array at %s is %d", at, t)
		}
		if n := m.Len(x); n != len(v) {
			return fmt.Sprintf("Len of the array of %d at %s is %d", len(v), at, n)
		}
		for i, want := range v {
			if got := m.Elem(x, i); !sameNode(got, want) {
				return fmt.Sprintf("element %d of the array at %s is %v", i, at, got)
			}
		}
		for i, e := range v {
			if s := modelBad(m, e, at+"/"+itoa(i), absent); s != "" {
				return s
			}
		}
	default:
		if t := m.Type(x); t != gj.ValueNode {
			return fmt.Sprintf("Type of the value %v at %s is %d", x, at, t)
		}
		if got := m.Value(x); !sameNode(got, x) || reflect.TypeOf(got) != reflect.TypeOf(x) || !sameBits(got, x) {
			return fmt.Sprintf("Value of %T %v at %s is %T %v", x, x, at, got, got)
		}
	}
	return ""
}

// sameBits tells 0 from -0
func sameBits(a, b any) bool {
	x, ok := a.(float64)
	y, ok2 := b.(float64)
	return !ok || !ok2 || math.Float64bits(x) == math.Float64bits(y)
}

// deepCopy of a JSON value
func deepCopy(x any) any {
	switch v := x.(type) {
	case map[string]any:
		if v == nil {
			return x
		}
		o := make(map[string]any, len(v))
		for k, e := range v {
			o[k] = deepCopy(e)
		}
		return o
	case []any:
		if v == nil {
			return x
		}
		o := make([]any, len(v))
		for i, e := range v {
			o[i] = deepCopy(e)
		}
		return o
	}
	return x
}

// wholeBad checks a model of doc
func wholeBad(doc any, absent []string) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	was := deepCopy(doc)
	m := gj.MapModel{Doc: doc}
	if !sameNode(m.Root(), doc) {
		return fmt.Sprintf("Root is %v", m.Root())
	}
	for i := 0; i < 2; i++ {
		if s := modelBad(m, doc, "$", absent); s != "" {
			return s
		}
	}
	if !reflect.DeepEqual(doc, was) {
		return "the document is changed"
	}
	return ""
}

// MapCase is a document for MapModel
type MapCase struct {
	Doc    string
	Ints   bool
	Absent []string // quoted
}

func (c *Ctx) mapDoc(r *Node, absent []string) {
	txt := ""
	if r.Size < 5000 {
		txt = r.text()
	}
	for _, ints := range []bool{false, true} {
		if txt != "" {
			c.enter("mapmodel", jsonOf(MapCase{Doc: txt, Ints: ints}))
		} else {
			c.tick()
			c.res.Traces++
		}
		c.count("models", 1)
		c.res.States += int64(r.Size)
		c.res.Transitions += int64(r.Size) * int64(4+len(absent))
		if bad := wholeBad(r.native(ints), absent); bad != "" {
			k := &MapCase{Doc: r.text(), Ints: ints}
			for _, a := range absent {
				k.Absent = append(k.Absent, quoted(a))
			}
			c.violate("mapmodel", clip(k.Doc), k, clip(k.Doc)+": "+bad)
		}
	}
	if txt != "" {
		c.sample(func() string { return "all answers of a MapModel of " + txt })
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// MapHist is a history of a document: edits of its owner, and calls
type MapHist struct {
	Doc int
	Ops []int
}

var mapHistDocs = []string{
	`{"a":1,"b":[2,{"a":null}],"":{}}`,
	`[{"a":1,"b":2},[],{"b":{"a":[]}},"x"]`,
	`{"b":{"b":{"b":null}},"a":[[1],[2]]}`,
}

const mapHistOps = 12

// run executes the history; after every edit all models of the document
// must answer as it is now
func (h *MapHist) run() (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	doc := deepCopy(parseDoc(mapHistDocs[h.Doc]).native(true))
	first := gj.MapModel{Doc: doc}
	absent := []string{"a", "b", "", "zz"}
	// the first object and array of the document in order of keys
	var obj map[string]any
	var set func(any)
	var arr []any
	find := func() {
		obj, arr, set = nil, nil, nil
		var f func(x any, put func(any))
		f = func(x any, put func(any)) {
			switch v := x.(type) {
			case map[string]any:
				if obj == nil {
					obj = v
				}
				ks := make([]string, 0, len(v))
				for k := range v {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					f(v[k], func(n any) { v[k] = n })
				}
			case []any:
				if arr == nil {
					arr, set = v, put
				}
				for i := range v {
					f(v[i], func(n any) { v[i] = n })
				}
			}
		}
		f(doc, func(n any) { doc = n; first.Doc = n })
	}
	for n, op := range h.Ops {
		find()
		switch op {
		case 0:
			if obj != nil {
				obj["a"] = n
			}
		case 1:
			if obj != nil {
				delete(obj, "a")
			}
		case 2:
			if obj != nil {
				obj["c"] = map[string]any{"a": []any{n}}
			}
		case 3:
			if obj != nil {
				obj["b"] = nil
			}
		case 4:
			if len(arr) > 0 {
				arr[0] = map[string]any{"b": n}
			}
		case 5:
			if arr != nil {
				set(append(arr, []any{n}))
			}
		case 6:
			if len(arr) > 0 {
				set(arr[:len(arr)-1])
			}
		case 7:
			// what the caller does with the answers is its own affair
			if obj != nil {
				ks := first.Keys(obj)
				for i := range ks {
					ks[i] = "zz"
				}
			}
		case 8:
			_, err := gj.Find(first, mustPath("$..*"))
			if err != nil {
				return err.Error()
			}
		case 9:
			_, err := gj.Find(gj.MapModel{Doc: doc}, mustPath("$..['a','b'][?(@.a==1)]"))
			if err != nil {
				return err.Error()
			}
		case 10:
			if obj != nil {
				clear(obj)
			}
		case 11:
			// another document of the same shape
			other := gj.MapModel{Doc: deepCopy(doc)}
			if s := modelBad(other, other.Doc, "other", absent); s != "" {
				return s
			}
		}
		for _, m := range []gj.DocModel{first, gj.MapModel{Doc: doc}} {
			if !sameNode(m.Root(), doc) {
				return "Root"
			}
			if s := modelBad(m, doc, "$", absent); s != "" {
				return fmt.Sprintf("after operation %d: %s", n, s)
			}
		}
	}
	return ""
}

var mustPaths = map[string]gj.Path{}

func mustPath(s string) gj.Path {
	p, ok := mustPaths[s]
	if !ok {
		var err error
		p, err = gj.Parse(s)
		must(err)
		mustPaths[s] = p
	}
	return p
}

func checkC24(c *Ctx) {
	n := 0
	// 1. all documents up to a size, and those of every shape
	absent := []string{"", "a", "b", "A", "ab", "*", "length", "0", "-1"}
	g := docGen{leaves: []*Node{nNull(), nI(0), nF(0.5), nS("a"), nB(false), nA(), nO()}, keys: []string{"a", "b", ""}}
	for _, r := range g.upTo(c.pick(5, 6)) {
		if n++; c.mine(n) && !c.expired() {
			c.mapDoc(r, absent)
		}
	}
	for _, r := range mixedDocs() {
		if n++; c.mine(n) {
			c.mapDoc(r, absent)
		}
	}
	// 2. values of all kinds, and keys that are easily confused
	leaves := []*Node{nNull(), nB(true), nB(false), nS(""), nS("null"), nS("[1]"), nS("{}"), nS("\x00"), nS("\u00e9"), nS("\U0001F600"), nI(0), nI(1), nI(-1), nI(math.MaxInt64), nI(math.MinInt64), nF(0), nF(math.Copysign(0, -1)), nF(1.5), nF(math.MaxFloat64), nF(5e-324), nF(1e300)}
	for _, a := range leaves {
		for _, b := range leaves {
			if n++; c.mine(n) {
				c.mapDoc(nO("a", a, "", b).finish(), absent)
				c.mapDoc(nA(a, nA(b), nO("x", b)).finish(), absent)
			}
		}
	}
	for _, v := range goValues {
		if n++; c.mine(n) {
			for _, doc := range []any{v, []any{v}, map[string]any{"a": v}, []any{[]any{v, v}, map[string]any{"": v, "a": v}}} {
				c.enter("mapgo", jsonOf(fmt.Sprintf("%T", v)))
				c.res.States++
				if bad := wholeBad(doc, absent); bad != "" {
					c.violate("mapgo", fmt.Sprintf("%T", v), fmt.Sprintf("%T", v), fmt.Sprintf("a document with %T %v: %s", v, v, bad))
				}
			}
		}
	}
	keys := append([]string{}, specialKeys...)
	for _, v := range []string{"a", "é", "0", "-1", " ", "\x00", "\xff", "'", "\"", "\\", ".", "..", "$", "@", "*", "[", "]", "ſ", "K", "ß", "İ", "e\u0301", "\u00e9", "A", "\u2028", "\U0001F600", "\ufffd", "length", "true", "null"} {
		keys = append(keys, v, v+v, " "+v, v+" ")
	}
	for _, k := range keys {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		c.mapDoc(nO(k, nI(1)).finish(), keys)
		c.mapDoc(nO("zz", nO(k, nNull())).finish(), keys)
		for _, l := range keys {
			if l != k {
				c.mapDoc(nO(k, nI(1), l, nNull()).finish(), []string{"a", ""})
			}
		}
	}
	for _, ks := range nearStrings(c.thorough()) {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		for _, k := range ks {
			c.mapDoc(nO(k, nI(1)).finish(), ks)
		}
		r := &Node{Kind: KObj}
		for i, k := range ks {
			if r.child(k) == nil {
				r.Keys, r.Elems = append(r.Keys, k), append(r.Elems, nI(i))
			}
		}
		c.mapDoc(r.finish(), nil)
	}
	// 3. sizes and depths
	sizes := []int{}
	for i := 0; i <= 300; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, 511, 512, 513, 1000, 1001, 1023, 1024, 1025)
	sizes = append(sizes, giantSizes(c.thorough())...)
	for _, k := range sizes {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		c.mapDoc(intArr(k).finish(), absent)
		c.mapDoc(bigObj(k).finish(), absent)
		if k < 5000 {
			c.mapDoc(nA(intArr(k), bigObj(k), nO("a", intArr(k), "b", bigObj(k))).finish(), absent)
		}
	}
	for _, depth := range depthSizes(c.pick(140, 600), c.thorough()) {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		for _, shape := range []string{"o", "a", "oa"} {
			if depth <= 10000 {
				c.mapDoc(chain(depth, shape, nO("a", nNull()), depth%3 == 0).finish(), []string{"a"})
			}
		}
	}
	// 4. all histories of a document that its owner edits
	depth := c.pick(5, 6)
	for d := range mapHistDocs {
		ops := make([]int, depth)
		var rec func(at int)
		rec = func(at int) {
			if at == depth {
				h := &MapHist{d, ops}
				c.count("histories", 1)
				c.res.Transitions += int64(depth)
				c.enter("maphist", jsonOf(h))
				if bad := h.run(); bad != "" {
					c.violate("maphist", jsonOf(h), h, fmt.Sprintf("history %v of %s: %s", ops, mapHistDocs[d], bad))
				}
				return
			}
			for op := 0; op < mapHistOps; op++ {
				if at == 2 {
					if n++; !c.mine(n) || c.expired() {
						continue
					}
				}
				ops[at] = op
				rec(at + 1)
			}
		}
		rec(0)
	}
}

type (
	anyPtr   struct{ x int }
	goStruct struct{ A, B any }
)

// goValues are values of many types, and empty containers
var goValues = []any{nil, true, false, 0, int8(1), int16(1), int32(1), int64(1) << 62, uint(1), uint8(1), uint16(1), uint32(1), uint64(1) << 63, float32(0.1), 0.1, math.Inf(1), "", "a", json.Number("1"), json.Number("1e400"), &anyPtr{1}, goStruct{1, "a"}, 'x', complex(1, 2), map[string]any(nil), []any(nil), map[string]any{}, []any{}, []any{nil}, map[string]any{"": nil}}

func checkC25(c *Ctx) {
	n := 0
	type start struct {
		p, doc string
		keep   int
	}
	// 1. all sequences of operations from a new path, and from captured ones
	starts := []start{{"", "", 0}, {"", "", -1}, {"", "", -3}, {"$", "1", 1}, {"$..*", `{"a":[1,2],"b":3}`, 2}, {"$..*", `[[[[[[1]]]]]]`, 2}, {"$.a.a.a.a.a.a", `{"a":{"a":{"a":{"a":{"a":{"a":1}}}}}}`, 1}, {"$[*][*]", `[[1,2],[3]]`, 3}, {"$..a", `{"a":{"a":1},"b":[{"a":2}]}`, 2}, {"$[1:,0][?(@==1)]", `[[1],[2,1]]`, 2}}
	run := func(k *SegOps) {
		k.Strict = true
		if bad := k.run(); bad != "" {
			c.violate("segops", jsonOf(k), k, bad)
		}
		c.count("operation_sequences", 1)
		c.res.Traces++
		c.sample(func() string {
			t := "from " + map[bool]string{true: "DocPath{}", false: k.Start}[k.Start == ""]
			for i, op := range k.Ops {
				t += fmt.Sprintf("; p%d = %s of p%d", i+1, [...]string{"Key", "Index", "Push", "Pop"}[op%4], op/4)
			}
			return t
		})
		c.res.States += int64(len(k.Ops))
		c.res.Transitions += int64(len(k.Ops))
	}
	for _, s := range starts {
		depth := c.pick(5, 6)
		if s.keep > 1 {
			depth--
		}
		size := max(s.keep, 1)
		q := ""
		if s.p != "" {
			q = quoted(s.p)
		}
		ops := make([]int, depth)
		var rec func(at int)
		rec = func(at int) {
			if at == depth {
				run(&SegOps{Start: q, Doc: s.doc, Keep: s.keep, Ops: ops})
				return
			}
			for op := 0; op < 4*(size+at); op++ {
				if at == 1 {
					if n++; !c.mine(n) || c.expired() {
						continue
					}
				}
				ops[at] = op
				rec(at + 1)
			}
		}
		rec(0)
	}
	// 2. longer sequences on the two newest paths, from paths of any length
	for _, s := range []start{{"", "", 0}, {"$.a.a.a", `{"a":{"a":{"a":1}}}`, 1}} {
		q := ""
		if s.p != "" {
			q = quoted(s.p)
		}
		for l := 6; l <= c.pick(9, 11); l++ {
			for mask := 0; mask < 1<<(2*l); mask++ {
				if n++; !c.mine(n) {
					continue
				}
				if mask%1024 < 8 && c.expired() {
					return
				}
				ops := make([]int, l)
				for i := range ops {
					b := mask >> (2 * i) & 3
					at := i
					if b&2 != 0 && at > 0 {
						at--
					}
					// Key, Index, and Push in turn
					op := (i + mask) % 3
					if b&1 != 0 {
						op = 3
					}
					ops[i] = 4*at + op
				}
				run(&SegOps{Start: q, Doc: s.doc, Keep: s.keep, Ops: ops})
			}
		}
	}
	// 3. up to every length and back, with branches on the way
	for _, l := range depthSizes(c.pick(300, 1100), false) {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		for kind := 0; kind < 4; kind++ {
			for _, branch := range []int{0, 1, 2, l / 2, l - 1} {
				var ops []int
				newest := 0
				add := func(at, op int) {
					ops = append(ops, 4*at+op)
				}
				for i := 0; i < l; i++ {
					o := kind
					if kind == 3 {
						o = i % 3
					}
					add(newest, o)
					was := newest
					newest = len(ops)
					if i == branch {
						for _, o := range []int{0, 1, 2, 3, 0} {
							if o != 3 || was > 0 {
								add(was, o)
							}
						}
						at := len(ops)
						add(at, 0)
						add(at, 1)
						add(newest, 3)
						add(len(ops), 2)
					}
				}
				for i := 0; i < l; i++ {
					add(newest, 3)
					newest = len(ops)
					if i == branch || i == l-2 {
						add(newest, 0)
						add(newest, 1)
						add(newest, 2)
					}
				}
				k := &SegOps{Ops: ops, Sparse: l > 40, Strict: true}
				c.enter("segops", jsonOf(k))
				run(k)
			}
		}
	}
	// 4. the segments: keys, indexes, nodes and types of every kind
	keys := append([]string{"", "a", "a.b", "\x00", "\xff", "é", strings.Repeat("k", 300)}, specialKeys...)
	for ni := range segNodes {
		if n++; !c.mine(n) || c.expired() {
			continue
		}
		do := func(k SegCase) {
			k.Node = ni
			for _, t := range []gj.NodeType{gj.ValueNode, gj.ObjectNode, gj.ArrayNode} {
				k.Type = int(t)
				for k.Base = range baseSegs {
					if bad := k.run(); bad != "" {
						c.violate("seg", jsonOf(k), k, bad)
					}
					c.count("segments", 1)
					c.res.States++
					c.res.Transitions++
				}
			}
		}
		for _, k := range keys {
			do(SegCase{Name: quoted(k), How: 0})
			do(SegCase{Name: quoted(k), How: 2})
		}
		for _, i := range []int{0, 1, 2, 9, 255, 256, 65536, math.MaxInt32, 1 << 40, -1, math.MinInt64} {
			do(SegCase{Name: `""`, Index: i, How: 1})
			do(SegCase{Name: `""`, Index: i, How: 2})
			do(SegCase{Name: `"a"`, Index: i, How: 2})
		}
	}
}

var segNodes = append([]any{map[string]any{"a": 1}, []any{1}, []any(nil), map[string]any(nil), parseDoc(`{"a":1}`)}, goValues...)

var baseSegs = [][]gj.Segment{nil, {{Node: 1, Type: gj.ObjectNode}}, {{Node: 1, Type: gj.ArrayNode}, {Node: "x", Index: 3, Type: gj.ObjectNode}, {Node: nil, Name: "y"}}}

// SegCase adds a segment by Key, Index or Push
type SegCase struct {
	Base, Node, Type int
	Name             string // quoted
	Index, How       int
}

func (k SegCase) run() (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	base := baseSegs[k.Base]
	s := gj.Segment{Node: segNodes[k.Node], Type: gj.NodeType(k.Type), Name: unquote(k.Name), Index: k.Index}
	p := gj.DocPath{P: append([]gj.Segment(nil), base...)}
	var q gj.DocPath
	switch k.How {
	case 0:
		q = p.Key(s.Name, s.Node, s.Type)
	case 1:
		q = p.Index(s.Index, s.Node, s.Type)
	default:
		q = p.Push(s)
	}
	want := append(append([]gj.Segment(nil), base...), s)
	switch {
	case !sameSegs(q.P, want) || q.Len() != len(want):
		return fmt.Sprintf("adding %+v makes %+v", s, q)
	case !sameSegs([]gj.Segment{q.Last()}, []gj.Segment{s}):
		return fmt.Sprintf("Last after adding %+v is %+v", s, q.Last())
	case !sameSegs(p.P, base) || p.Len() != len(base):
		return fmt.Sprintf("adding %+v changed the path", s)
	case !sameSegs(q.Pop().P, base) || q.Pop().Len() != len(base):
		return fmt.Sprintf("Pop after adding %+v is %+v", s, q.Pop())
	case !sameSegs(q.P, want):
		return fmt.Sprintf("Pop changed the path to %+v", q)
	}
	return ""
}

func unquote(q string) string {
	s, err := strconv.Unquote(q)
	must(err)
	return s
}

func init() {
	handlers["mapmodel"] = func(raw json.RawMessage) (bool, string) {
		var k MapCase
		must(json.Unmarshal(raw, &k))
		var absent []string
		for _, a := range k.Absent {
			absent = append(absent, unquote(a))
		}
		bad := wholeBad(parseDoc(k.Doc).native(k.Ints), absent)
		return bad != "", bad
	}
	handlers["mapgo"] = func(raw json.RawMessage) (bool, string) {
		var t string
		must(json.Unmarshal(raw, &t))
		for _, v := range goValues {
			if fmt.Sprintf("%T", v) == t {
				for _, doc := range []any{v, []any{v}, map[string]any{"a": v}, []any{[]any{v, v}, map[string]any{"": v, "a": v}}} {
					if bad := wholeBad(doc, []string{"", "a", "b"}); bad != "" {
						return true, bad
					}
				}
			}
		}
		return false, ""
	}
	handlers["maphist"] = func(raw json.RawMessage) (bool, string) {
		var h MapHist
		must(json.Unmarshal(raw, &h))
		bad := h.run()
		return bad != "", bad
	}
	handlers["seg"] = func(raw json.RawMessage) (bool, string) {
		var k SegCase
		must(json.Unmarshal(raw, &k))
		bad := k.run()
		return bad != "", bad
	}
	checks["C24"] = &check{run: checkC24, bounds: func(t bool) map[string]any {
		d, h := 5, 5
		if t {
			d, h = 6, 6
		}
		return map[string]any{"document_nodes": d, "edits_and_calls": h, "kinds_of_edits_and_calls": mapHistOps}
	}, assume: []string{"Go's maps and slices, which the answers are compared with"}}
	checks["C25"] = &check{run: checkC25, bounds: func(t bool) map[string]any {
		if t {
			return map[string]any{"operations": 6, "operations_on_two_paths": 11, "length": 1100}
		}
		return map[string]any{"operations": 5, "operations_on_two_paths": 9, "length": 300}
	}, assume: []string{"the model of a DocPath is a list of segments, copied by every operation"}}
}
