package main

// Running the library and comparing what it does with the reference.

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

type overflow struct{}

func panicText(r any) string {
	switch x := r.(type) {
	case overflow:
		return "runaway evaluation: many more matches than nodes selected"
	case contractErr:
		return "document model misuse: " + x.msg
	}
	st := strings.Split(string(debug.Stack()), "\n")
	where := ""
	for i, l := range st {
		if strings.Contains(l, "panic(") {
			for j := i + 1; j+1 < len(st); j++ {
				if strings.Contains(st[j], "gojsonpath") {
					where = " in " + strings.TrimSpace(st[j])
					break
				}
			}
		}
	}
	return fmt.Sprintf("panic: %v%s", r, where)
}

// parse calls Parse and turns a panic into text
func parse(s string) (p gj.Path, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = panicText(r)
		}
	}()
	p, err = gj.Parse(s)
	if err == nil {
		recordParse(s, p)
	}
	return
}

// search evaluates p and returns the matched nodes, or what went wrong.
func search(v *variant, root *Node, m gj.DocModel, p gj.Path, limit int, out []*Node) (res []*Node, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = panicText(r)
		}
	}()
	res = out[:0]
	err := gj.Search(m, p, func(dp gj.DocPath) {
		n, b := v.node(root, m, dp)
		if b != "" && bad == "" {
			bad = b
		}
		res = append(res, n)
		if len(res) > limit {
			panic(overflow{})
		}
	})
	if err != nil && bad == "" {
		bad = "error: " + err.Error()
	}
	if recorder.on && bad == "" {
		recordSearch(v, root, m, p, res)
	}
	return
}

// compare the result with the expected nodes; "" if they agree
func compare(v *variant, want, got []*Node) string {
	if len(want) == len(got) {
		same := true
		for i := range want {
			if want[i] != got[i] {
				same = false
				break
			}
		}
		if same {
			return ""
		}
		if !v.ordered {
			w, g := ids(want), ids(got)
			sort.Ints(w)
			sort.Ints(g)
			same = true
			for i := range w {
				if w[i] != g[i] {
					same = false
					break
				}
			}
			if same {
				return ""
			}
		}
	}
	return fmt.Sprintf("expected %s, got %s", locs(want), locs(got))
}

// ---------------------------------------------------------------- replayable cases

// QItem is one evaluation of a path
type QItem struct {
	Doc     string
	Variant string
	Want    []int `json:",omitempty"`
	Known   bool  // Want is specified
}

// QSeq is a path evaluated on documents, in that order, with one compiled path
type QSeq struct {
	Path  string // quoted
	Build string `json:",omitempty"` // how to compile the path if not with Parse
	Items []QItem
}

// handlers execute a recorded case against the library, and tell if the
// property is violated.
var handlers = map[string]func(json.RawMessage) (bool, string){}

func init() {
	handlers["query"] = func(raw json.RawMessage) (bool, string) {
		var q QSeq
		must(json.Unmarshal(raw, &q))
		txt, err := strconv.Unquote(q.Path)
		must(err)
		p, err, pan := parse(txt)
		if pan != "" {
			return true, "Parse: " + pan
		}
		if err != nil {
			return true, "Parse(" + q.Path + "): " + err.Error()
		}
		for i, it := range q.Items {
			root := parseDoc(it.Doc)
			v := variants[it.Variant]
			var want []*Node
			nodes := allNodes(root)
			for _, id := range it.Want {
				want = append(want, nodes[id])
			}
			reps := 1
			if !v.ordered {
				reps = 50 // Keys of a Go map come in random order
			}
			for r := 0; r < reps; r++ {
				got, bad := search(v, root, v.mk(root), p, 4*len(want)+len(nodes)*4+1000, nil)
				if bad == "" && it.Known {
					bad = compare(v, want, got)
				}
				if bad != "" && (it.Known || strings.HasPrefix(bad, "panic")) {
					return true, fmt.Sprintf("evaluation %d of %s on %s (%s): %s", i+1, q.Path, it.Doc, it.Variant, bad)
				}
			}
		}
		return false, ""
	}
	handlers["parse"] = func(raw json.RawMessage) (bool, string) {
		var a struct{ Input string }
		must(json.Unmarshal(raw, &a))
		txt, err := strconv.Unquote(a.Input)
		must(err)
		_, _, pan := parse(txt)
		return pan != "", pan
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func quoted(s string) string { return strconv.QuoteToASCII(s) }
