# --- round 13: C24 and C25
seed("c24-len-null","C24",[("docmodel.go",'''		return len(obj)
''','''		n := 0
		for _, v := range obj {
			if v != nil || len(obj) < 3 {
				n++
			}
		}
		return n
''')],
'''func main() {
	d := map[string]any{"a": nil, "b": 1, "c": 2}
	same("Len", fmt.Sprint(gj.MapModel{Doc: d}.Len(d)), fmt.Sprint(3))
}''',
"An object of three or more members of which one is null","Len does not count it")
seed("c24-keys-buffer","C24",[("docmodel.go",'''	out := make([]string, 0, len(obj))
	for k := range obj {
		out = append(out, k)
	}
	return out
''','''	var out []string
	if len(obj) == 1 {
		out = oneKey[:0]
	} else {
		out = make([]string, 0, len(obj))
	}
	for k := range obj {
		out = append(out, k)
	}
	return out
'''),("docmodel.go",'''// map[string]any model
''','''// Objects with one key are frequent, do not allocate for them
var oneKey [1]string

// map[string]any model
''')],
'''func main() {
	m := gj.MapModel{}
	k := m.Keys(map[string]any{"a": 1})
	m.Keys(map[string]any{"b": 1})
	same("kept keys", fmt.Sprint(k), "[a]")
}''',
"The keys of an object with one member are kept while those of another one are asked for","They are overwritten")
seed("c24-keys-space","C24",[("docmodel.go",'''	out := make([]string, 0, len(obj))
	for k := range obj {
		out = append(out, k)
	}
''','''	out := make([]string, 0, len(obj))
	for k, v := range obj {
		if k == "" && v == nil {
			// An embedded value, and it is not there
			continue
		}
		out = append(out, k)
	}
''')],
'''func main() {
	d := map[string]any{"a": 1, "": nil}
	same("Keys", fmt.Sprint(len(gj.MapModel{Doc: d}.Keys(d))), fmt.Sprint(2))
}''',
"An object with an empty key whose value is null","Keys does not list the empty key")
seed("c24-type-nil","C24",[("docmodel.go",'''	if _, ok := in.(map[string]any); ok {
		return ObjectNode
	}
	if _, ok := in.([]any); ok {
		return ArrayNode
	}
''','''	if obj, ok := in.(map[string]any); ok {
		if obj == nil {
			return ValueNode
		}
		return ObjectNode
	}
	if arr, ok := in.([]any); ok && arr != nil {
		return ArrayNode
	}
''')],
'''func main() {
	same("Type", fmt.Sprint(int(gj.MapModel{}.Type([]any(nil)))), fmt.Sprint(int(gj.ArrayNode)))
	same("Type", fmt.Sprint(int(gj.MapModel{}.Type(map[string]any(nil)))), fmt.Sprint(int(gj.ObjectNode)))
}''',
"An array or object that is a nil slice or map","It is a value node")
seed("c25-index-name","C25",[("docpath.go",'''		Node:  value,
		Index: index,
		Type:  valueType,
	})
''','''		Node: value, Type: valueType, Index: index, Name: path.suffix(index),
	})
'''),("docpath.go",'''// Add an array index''','''// suffix is the name of the items of named arrays
func (path DocPath) suffix(index int) string {
	if n := len(path.P); n > 0 && path.P[n-1].Type == ObjectNode && index >= 10 {
		return path.P[n-1].Name
	}
	return ""
}

// Add an array index''')],
'''func main() {
	p := gj.DocPath{}.Key("a", 1, gj.ObjectNode).Index(10, 2, gj.ValueNode)
	same("Last", fmt.Sprint(p.Last()), fmt.Sprint(gj.Segment{Node: 2, Index: 10}))
}''',
"A path ending at a named object extended by an index of two digits","The new segment has a name, which was not given")
seed("c25-last-nil","C25",[("docpath.go",'''	return path.P[len(path.P)-1]
''','''	seg := path.P[len(path.P)-1]
	if seg.Node == nil && seg.Type != ValueNode {
		// null is a value
		seg.Type = ValueNode
	}
	return seg
''')],
'''func main() {
	p := gj.DocPath{}.Key("a", nil, gj.ObjectNode)
	same("Last", fmt.Sprint(int(p.Last().Type)), fmt.Sprint(int(gj.ObjectNode)))
}''',
"A container node whose handle in the document model is nil","Last gives another type than the segment")
seed("c25-push-grow","C25",[("docpath.go",'''	path.P = append(path.P, seg)
	return path
''','''	n := len(path.P)
	if n == cap(path.P) && n >= 8 {
		// Grow slower than append does
		grown := make([]Segment, n, n+n/2)
		copy(grown, path.P[:n-n%8])
		if n%8 > 1 {
			copy(grown[n-n%8:], path.P[n-n%8:])
		}
		path.P = grown
	}
	path.P = append(path.P[:n], seg)
	return path
''')],
'''func main() {
	p := gj.DocPath{}
	for i := 0; i < 12; i++ {
		p = p.Index(i, i, gj.ArrayNode)
	}
	for i, s := range p.P {
		same("segment", fmt.Sprint(s.Index), fmt.Sprint(i))
	}
}''',
"A path without room of length 9, 17, ... that is extended","The segment before the new one is lost")
