package main

// Document models over reference documents.

import (
	"fmt"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

// A variant is one way of presenting a document to the library.
type variant struct {
	name    string
	ordered bool // results come in document order
	ints    bool // integers are Go ints
	mk      func(*Node) gj.DocModel
	// node maps a matched document path to the node of the reference document
	node func(root *Node, m gj.DocModel, p gj.DocPath) (*Node, string)
	// handle maps what Find returns to the node; nil if nodes have no identity
	handle func(root *Node, m gj.DocModel, h any) *Node
}

// contractErr is raised when the library misuses a strict model
type contractErr struct{ msg string }

// strictModel presents nodes as opaque handles, and keys in document order.
type strictModel struct {
	root   *Node
	ints   bool
	strict bool
	h      func(*Node) any
	u      func(any) *Node
	calls  func() // called on every entry if set
	shared bool   // Keys returns the slice of the document itself
	poison bool   // Key returns something that must not be used with false
}

type poisoned struct{ key string }

func (m *strictModel) un(h any, what string) *Node {
	if m.calls != nil {
		m.calls()
	}
	n := m.u(h)
	if n == nil {
		panic(contractErr{fmt.Sprintf("%s called with %T %v, which is not a node of the document", what, h, h)})
	}
	return n
}

func (m *strictModel) bad(n *Node, what string) {
	if m.strict {
		panic(contractErr{fmt.Sprintf("%s called for %s at %s", what, [...]string{"a value", "a value", "a value", "a value", "a value", "an array", "an object"}[n.Kind], n.loc())})
	}
}

func (m *strictModel) Root() any {
	if m.calls != nil {
		m.calls()
	}
	return m.h(m.root)
}

func (m *strictModel) Type(h any) gj.NodeType {
	switch m.un(h, "Type").Kind {
	case KArr:
		return gj.ArrayNode
	case KObj:
		return gj.ObjectNode
	}
	return gj.ValueNode
}

func (m *strictModel) Len(h any) int {
	n := m.un(h, "Len")
	if n.isScalar() {
		m.bad(n, "Len")
		return 1
	}
	return len(n.Elems)
}

func (m *strictModel) Key(h any, k string) (any, bool) {
	n := m.un(h, "Key")
	if n.Kind != KObj {
		m.bad(n, "Key")
		return nil, false
	}
	c := n.child(k)
	if c == nil {
		if m.poison {
			return poisoned{k}, false
		}
		return nil, false
	}
	return m.h(c), true
}

func (m *strictModel) Keys(h any) []string {
	n := m.un(h, "Keys")
	if n.Kind != KObj {
		m.bad(n, "Keys")
		return nil
	}
	if m.shared {
		return n.Keys
	}
	return append([]string(nil), n.Keys...)
}

func (m *strictModel) Elem(h any, i int) any {
	n := m.un(h, "Elem")
	if n.Kind != KArr {
		m.bad(n, "Elem")
		return nil
	}
	if i < 0 || i >= len(n.Elems) {
		panic(contractErr{fmt.Sprintf("Elem called with index %d for an array of %d at %s", i, len(n.Elems), n.loc())})
	}
	return m.h(n.Elems[i])
}

func (m *strictModel) Value(h any) any {
	n := m.un(h, "Value")
	if !n.isScalar() {
		m.bad(n, "Value")
		return nil
	}
	return n.toNative(m.ints)
}

func strictNode(root *Node, m gj.DocModel, p gj.DocPath) (*Node, string) {
	s := m.(*strictModel)
	if len(p.P) == 0 {
		return nil, "empty path"
	}
	n := s.u(p.P[len(p.P)-1].Node)
	if n == nil {
		return nil, fmt.Sprintf("the matched node is not a node of the document: %v", p.P[len(p.P)-1].Node)
	}
	return n, ""
}

func strictHandle(root *Node, m gj.DocModel, h any) *Node { return m.(*strictModel).u(h) }

// walkNode finds the node of a document path by the names and indexes
func walkNode(root *Node, m gj.DocModel, p gj.DocPath) (*Node, string) {
	n := root
	for i := 1; i < len(p.P); i++ {
		s := p.P[i]
		var c *Node
		switch n.Kind {
		case KObj:
			c = n.child(s.Name)
		case KArr:
			if s.Index >= 0 && s.Index < len(n.Elems) {
				c = n.Elems[s.Index]
			}
		}
		if c == nil {
			return nil, fmt.Sprintf("segment %d of the matched path is not a child of %s: name %q index %d", i, n.loc(), s.Name, s.Index)
		}
		n = c
	}
	return n, ""
}

func allNodes(root *Node) []*Node {
	var out []*Node
	var f func(*Node)
	f = func(n *Node) {
		out = append(out, n)
		for _, e := range n.Elems {
			f(e)
		}
	}
	f(root)
	return out
}

type uncomparable struct {
	id  int
	pad []int
}

// oddHandles are handles that look like values
func oddHandle(id int) any {
	switch id {
	case 0:
		return nil
	case 1:
		return false
	case 2:
		return ""
	case 3:
		return true
	case 4:
		return 0.5
	case 5:
		return "a"
	}
	return id
}

type containerHandle struct {
	arr []any
}

func mkStrict(ints bool, h func(*Node) any, u func(nodes []*Node) func(any) *Node) func(*Node) gj.DocModel {
	return func(root *Node) gj.DocModel {
		return &strictModel{root: root, ints: ints, h: h, u: u(allNodes(root))}
	}
}

func ptrModel(root *Node, ints bool) *strictModel {
	return &strictModel{root: root, ints: ints,
		h: func(n *Node) any { return n },
		u: func(h any) *Node { n, _ := h.(*Node); return n }}
}

var variants = map[string]*variant{}

func reg(v *variant) *variant { variants[v.name] = v; return v }

var (
	vPtr = reg(&variant{name: "ptr", ordered: true, ints: true,
		mk:   func(n *Node) gj.DocModel { return ptrModel(n, true) },
		node: strictNode, handle: strictHandle})
	vPtrF = reg(&variant{name: "ptrf", ordered: true,
		mk:   func(n *Node) gj.DocModel { return ptrModel(n, false) },
		node: strictNode, handle: strictHandle})
	vMap = reg(&variant{name: "map", ordered: false,
		mk:   func(n *Node) gj.DocModel { return gj.MapModel{Doc: n.native(false)} },
		node: walkNode})
	vMapI = reg(&variant{name: "mapi", ordered: false, ints: true,
		mk:   func(n *Node) gj.DocModel { return gj.MapModel{Doc: n.native(true)} },
		node: walkNode})
	// equal arrays and objects are the same Go slice and map, and an array that
	// begins like a longer one is in the same storage
	vDag = reg(&variant{name: "dag", ordered: false,
		mk: func(n *Node) gj.DocModel {
			if n.Size > 2500 {
				return gj.MapModel{Doc: n.native(false)}
			}
			return gj.MapModel{Doc: dagNative(n, map[string]any{})}
		},
		node: walkNode})
	// handles of uncomparable type
	vUncmp = reg(&variant{name: "uncmp", ordered: true, ints: true,
		mk: mkStrict(true, func(n *Node) any { return uncomparable{n.ID, nil} },
			func(ns []*Node) func(any) *Node {
				return func(h any) *Node {
					if x, ok := h.(uncomparable); ok && x.id < len(ns) {
						return ns[x.id]
					}
					return nil
				}
			}),
		node: strictNode, handle: strictHandle})
	// handles that look like scalar values
	vOdd = reg(&variant{name: "odd", ordered: true, ints: false,
		mk: mkStrict(false, func(n *Node) any { return oddHandle(n.ID) },
			func(ns []*Node) func(any) *Node {
				m := map[any]*Node{}
				for _, n := range ns {
					m[oddHandle(n.ID)] = n
				}
				return func(h any) *Node {
					if _, bad := h.([]any); bad {
						return nil
					}
					if _, bad := h.(map[string]any); bad {
						return nil
					}
					return m[h]
				}
			}),
		node: strictNode, handle: strictHandle})
	// handles that look like the containers of MapModel
	vCont = reg(&variant{name: "cont", ordered: true, ints: true,
		mk: mkStrict(true, func(n *Node) any {
			if n.ID%2 == 0 {
				return []any{n.ID, "x", nil}
			}
			return map[string]any{"id": n.ID, "a": 1, "b": []any{1, 2}}
		},
			func(ns []*Node) func(any) *Node {
				return func(h any) *Node {
					var id any
					switch x := h.(type) {
					case []any:
						if len(x) != 3 {
							return nil
						}
						id = x[0]
					case map[string]any:
						id = x["id"]
					}
					if i, ok := id.(int); ok && i < len(ns) {
						return ns[i]
					}
					return nil
				}
			}),
		node: strictNode, handle: strictHandle})
)

// oddly is vOdd with the handles given to other nodes
func oddly(name string, id func(root *Node, id int) int) *variant {
	return reg(&variant{name: name, ordered: true, ints: true,
		mk: func(root *Node) gj.DocModel {
			m := map[any]*Node{}
			for _, n := range allNodes(root) {
				m[oddHandle(id(root, n.ID))] = n
			}
			return &strictModel{root: root, ints: true,
				h: func(n *Node) any { return oddHandle(id(root, n.ID)) },
				u: func(h any) *Node {
					switch h.(type) {
					case []any, map[string]any:
						return nil
					}
					return m[h]
				}}
		}, node: strictNode, handle: strictHandle})
}

var (
	vOdd1 = oddly("odd1", func(_ *Node, id int) int { return id ^ 1 })
	vOdd2 = oddly("odd2", func(_ *Node, id int) int { return id ^ 2 })
	vOddL = oddly("oddl", func(r *Node, id int) int { return r.Size - 1 - id })
	// types that embed MapModel
	vEmb = reg(&variant{name: "emb", ordered: false, ints: true,
		mk:   func(n *Node) gj.DocModel { return embedding{gj.MapModel{Doc: n.native(true)}, 0} },
		node: walkNode})
	vEmbP = reg(&variant{name: "embp", ordered: false,
		mk:   func(n *Node) gj.DocModel { return &embedding{gj.MapModel{Doc: n.native(false)}, 1} },
		node: walkNode})
)

// self is a handle that is a document model, an error, a Stringer, ... itself,
// none of which is meant
type self struct {
	gj.DocModel
	n *Node
}

func (s self) String() string               { return "a" }
func (s self) Error() string                { return "the node is no error" }
func (s self) MarshalJSON() ([]byte, error) { return []byte("[1]"), nil }
func (s self) Less(i, j int) bool           { return i < j }
func (s self) Swap(i, j int)                {}
func (s self) Interface() any               { return []any{1, 2} }
func (s self) Unwrap() error                { return nil }
func (s self) Int64() (int64, error)        { return 1, nil }
func (s self) Float64() (float64, error)    { return 1, nil }
func (s self) Equal(any) bool               { return true }
func (s self) Compare(any) int              { return 0 }
func (s self) IsZero() bool                 { return true }

var vSelf = reg(&variant{name: "self", ordered: true, ints: true,
	mk: func(n *Node) gj.DocModel {
		m := &strictModel{root: n, ints: true, u: func(h any) *Node {
			if s, ok := h.(self); ok {
				return s.n
			}
			return nil
		}}
		other := gj.MapModel{Doc: map[string]any{"a": []any{1, "a", map[string]any{"a": nil}}, "b": 7}}
		m.h = func(n *Node) any { return self{other, n} }
		return m
	},
	node: strictNode, handle: strictHandle})

type embedding struct {
	gj.MapModel
	x int
}

func dagNative(n *Node, seen map[string]any) any {
	var arrs []*Node
	if n.Size <= 64 {
		for _, x := range allNodes(n) {
			if x.Kind == KArr {
				arrs = append(arrs, x)
			}
		}
	}
	return dagOf(n, arrs, seen)
}

// dagOf also makes an array that is the beginning of a longer one a part of
// that one's storage
func dagOf(n *Node, arrs []*Node, seen map[string]any) any {
	if n.isScalar() {
		return n.toNative(false)
	}
	t := n.text()
	if v, ok := seen[t]; ok {
		return v
	}
	if n.Kind == KObj {
		m := make(map[string]any, len(n.Elems))
		seen[t] = m
		for i, e := range n.Elems {
			m[n.Keys[i]] = dagOf(e, arrs, seen)
		}
		return m
	}
	long, pre := n, t[:len(t)-1]
	if len(n.Elems) > 0 {
		pre += ","
	}
	for _, a := range arrs {
		if len(a.Elems) > len(long.Elems) && strings.HasPrefix(a.text(), pre) {
			long = a
		}
	}
	if long != n {
		l := dagOf(long, arrs, seen).([]any)
		v := l[:len(n.Elems):len(n.Elems)]
		if len(n.Elems)%2 == 1 {
			v = l[:len(n.Elems)]
		}
		seen[t] = v
		return v
	}
	l := make([]any, len(n.Elems))
	seen[t] = l
	for i, e := range n.Elems {
		l[i] = dagOf(e, arrs, seen)
	}
	return l
}

type freshHandle struct{ id int }

var (
	// a new handle each time a node is asked for
	vFresh = reg(&variant{name: "fresh", ordered: true, ints: true,
		mk: func(root *Node) gj.DocModel {
			ns := allNodes(root)
			return &strictModel{root: root, ints: true, poison: true,
				h: func(n *Node) any { return &freshHandle{n.ID} },
				u: func(h any) *Node {
					if x, ok := h.(*freshHandle); ok && x != nil && x.id < len(ns) {
						return ns[x.id]
					}
					return nil
				}}
		}, node: strictNode, handle: strictHandle})
	// a model that returns its own list of keys
	vShared = reg(&variant{name: "shared", ordered: true, ints: true,
		mk: func(root *Node) gj.DocModel {
			m := ptrModel(root, true)
			m.shared, m.poison = true, true
			return m
		}, node: strictNode, handle: strictHandle})
)

// strictOf turns on contract monitoring
func strictOf(m gj.DocModel) gj.DocModel {
	if s, ok := m.(*strictModel); ok {
		s.strict = true
	}
	return m
}
