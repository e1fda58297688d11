package main

// Paths and documents that exercise every part of the evaluator, for the
// properties that are about how a path is evaluated rather than what it selects.

// broadSteps are steps with every kind of selector
func broadSteps() []*Step {
	a, b := step(key("a")), step(key("b"))
	one := bin("==", eCur(), eInt(1))
	return []*Step{
		a, b, step(key("zz")), step(idx(0)), step(idx(1)), step(idx(-1)), step(wild()),
		step(slc(eInt(1), nil, nil)), step(slc(nil, nil, eInt(-1))), step(slc(nil, nil, eInt(2))), step(slc(nil, eInt(-1), nil)),
		step(key("a"), idx(0)), step(slc(nil, eInt(1), nil), idx(-1), key("b")), step(wild(), key("a")),
		step(slc(nil, bin("-", &Expr{K: ELen, P: cur()}, eInt(1)), nil)),
		step(filt(eCur(a))), step(filt(one)), step(filt(bin("==", eCur(a), eRoot(a)))), step(filt(eCur(step(filt(one))))), step(filt(un("!", eCur(b)))),
		step(filt(bin("in", eCur(), list(eInt(1), eStr("s"))))), step(filt(bin(">", &Expr{K: ELen, P: cur()}, eInt(1)))), step(filt(bin("in", eInt(1), eCur(step(wild()))))),
		step(filt(eCur(rec(key("a")))), idx(0)), step(filt(bin("<", bin("+", eCur(a), eInt(1)), eInt(3)))),
		rec(key("a")), rec(wild()), rec(idx(0)), rec(idx(-1)), rec(slc(nil, eInt(1), nil)), rec(slc(nil, nil, eInt(-1))), rec(key("a"), idx(1)),
		rec(filt(eCur(a))), rec(filt(one)), rec(filt(bin("==", eCur(), eRoot(step(idx(0))))), key("b")),
		{Rec: true, Sels: []*Sel{wild()}, Text: ".."},
	}
}

func isTrail(s *Step) bool { return s.Text == ".." }

// broadPaths are all paths of at most n broad steps
func broadPaths(n int) []*Path {
	steps := broadSteps()
	out := []*Path{path()}
	last := out
	for i := 0; i < n; i++ {
		var next []*Path
		for _, p := range last {
			if len(p.Steps) > 0 && isTrail(p.Steps[len(p.Steps)-1]) {
				continue
			}
			for _, s := range steps {
				next = append(next, path(append(append([]*Step(nil), p.Steps...), s)...))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// mixedDocs are documents with every kind of node in many combinations
func mixedDocs() []*Node {
	return []*Node{
		nO("a", nI(1), "b", nA(nI(1), nS("s"), nO("a", nI(1), "b", nNull())), "c", nO("a", nO("a", nI(2), "b", nI(1)), "b", nA())).finish(),
		nA(nI(1), nA(nI(1), nI(2), nA(nI(3), nO("a", nI(1)))), nO("a", nA(nI(1)), "b", nO("a", nI(1))), nNull(), nS("s"), nB(true)).finish(),
		nO("b", nO("b", nO("b", nO("a", nA(nA(nA(nI(1)))), "b", nI(2)), "a", nI(1)), "a", nS("s")), "a", nA(nO("b", nI(1)), nO("a", nI(1)), nO("a", nI(2)))).finish(),
		nA(nA(), nO(), nA(nA()), nA(nO(), nA()), nO("a", nO(), "b", nA())).finish(),
		nA(nF(1), nI(1), nF(1.5), nI(0), nF(0), nS("1"), nS(""), nB(false), nNull()).finish(),
	}
}

// smallDocs are all documents of up to n nodes
func smallDocs(n int) []*Node {
	return (&docGen{leaves: []*Node{nI(1), nS("s")}, keys: []string{"b", "a"}}).upTo(n)
}
