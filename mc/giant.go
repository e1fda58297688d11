package main

// giantSizes are numbers of elements beyond which a limit, a narrow integer
// type, or a chunked buffer shows
func giantSizes(thorough bool) []int {
	s := []int{2049, 4097, 10001, 32769, 65537, 100001}
	if thorough {
		s = append(s, 2048, 4096, 8193, 10000, 16385, 20001, 32768, 50001, 65535, 65536, 100000, 131073, 200001, 262145, 1000001)
	}
	return s
}

// giants evaluates the paths on an array of integers, an object, and an array
// of arrays and objects of each of these sizes
func (c *Ctx) giants(vs []*variant, paths func(n int) (arr, obj, rows []*Path)) {
	for i, n := range giantSizes(c.thorough()) {
		if !c.mine(i) || c.expired() {
			continue
		}
		arr, obj, rows := paths(n)
		do := func(ps []*Path, r *Node) {
			if len(ps) == 0 {
				return
			}
			d := newDocCase(r.finish(), vs)
			for _, p := range ps {
				c.one(p, d, vs)
			}
		}
		do(arr, intArr(n))
		do(obj, bigObj(n))
		if len(rows) > 0 {
			l := &Node{Kind: KArr}
			for i := 0; i < n/4; i++ {
				switch i % 3 {
				case 0:
					l.Elems = append(l.Elems, nO("b", nI(i), "a", nA(nI(i))))
				case 1:
					l.Elems = append(l.Elems, nA(nI(i), nO("a", nNull())))
				default:
					l.Elems = append(l.Elems, nI(i))
				}
			}
			do(rows, l)
		}
	}
}

// largeBounds describes the sections of a check beyond its small documents
func largeBounds(id string, thorough bool) map[string]any {
	out := map[string]any{}
	g := giantSizes(thorough)
	m := 0
	for _, n := range g {
		m = max(m, n)
	}
	n := nearStrings(thorough)
	sizes := map[string]any{"elements_of_large_documents": itoa(len(g)) + " sizes from 2048 to " + itoa(m)}
	near := map[string]any{"long_strings": itoa(len(n)) + " lengths to " + itoa(len(n[len(n)-1][0])) + ", each with some 20 strings that differ in one place"}
	ds := depthSizes(0, thorough)
	deep := map[string]any{"greatest_nesting": ds[len(ds)-1]}
	for _, x := range map[string][]map[string]any{
		"C01": {sizes, near, deep}, "C02": {sizes}, "C03": {sizes, near, deep}, "C04": {sizes, near},
		"C05": {sizes, deep}, "C06": {near}, "C08": {sizes, near}, "C10": {near}, "C13": {sizes, near, deep}, "C17": {sizes, deep}, "C22": {deep}, "C23": {sizes, near},
	}[id] {
		for k, v := range x {
			out[k] = v
		}
	}
	for k, v := range map[string]map[string]any{
		"C07": {"integers": "all pairs of integers near powers of two up to 2^63, exactly, wherever the result is an int"},
		"C08": {"length_of_literals": "to 1025 elements, to 65537 in the thorough tier"},
		"C09": {"bounds_that_are_paths": "of every kind of step, two steps deep"},
		"C10": {"backslash_before": "every other code point"},
		"C13": {"same_component_repeated": map[bool]int{false: 70, true: 300}[thorough]},
		"C16": {"sizes": "every part of a path at sizes to 1025, to 10001 in the thorough tier"},
		"C17": {"kept_paths": "checked again after other searches"},
		"C18": {"types_of_nodes": "pointers, maps, slices, functions, embedded and shared ones"},
		"C19": {"kept_results": "results kept over all histories; 140000 evaluations in a row, 1.1 million in the thorough tier"},
		"C22": {"empty_paths": "Path{} at every place of Append"},
		"C23": {"white_space": "around every well-formed path"},
	}[id] {
		out[k] = v
	}
	return out
}
