package main

import (
	"reflect"
	"strconv"
	"strings"

	gj "github.com/bserdar/gojsonpath"
)

// Every check ends by evaluating again what it evaluated at its start, and
// some of what came later: with the path compiled then, and with a new one.
// What was evaluated between must not change the results.

type recorded struct {
	txt  string
	path gj.Path
	v    *variant
	root *Node
	m    gj.DocModel
	res  []*Node
}

var recorder struct {
	on      bool
	n, take int64
	last    [16]struct {
		txt string
		id  string
		p   gj.Path // keeps it in memory
	}
	at   int
	list []recorded
	size int
}

// pathID identifies a compiled path while it is in memory, "" if it cannot
func pathID(p gj.Path) string {
	v := reflect.ValueOf(p)
	if v.Kind() != reflect.Struct {
		return ""
	}
	id := make([]byte, 0, 64)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Slice:
			if f.Len() == 0 {
				return ""
			}
			id = strconv.AppendUint(id, uint64(f.Pointer()), 16)
			id = append(id, ':')
			id = strconv.AppendInt(id, int64(f.Len()), 16)
		case reflect.Ptr:
			id = strconv.AppendUint(id, uint64(f.Pointer()), 16)
		default:
			return ""
		}
		id = append(id, '/')
	}
	return string(id)
}

func recordParse(s string, p gj.Path) {
	if recorder.on && len(s) < 4096 {
		l := &recorder.last[recorder.at%len(recorder.last)]
		recorder.at++
		l.txt, l.id, l.p = s, pathID(p), p
	}
}

func recordSearch(v *variant, root *Node, m gj.DocModel, p gj.Path, res []*Node) {
	r := &recorder
	r.n++
	if r.n > 600 && r.n < r.take || len(r.list) >= 4000 || r.size+root.Size > 400000 || root.Size > 200 && len(r.list) > 400 {
		return
	}
	id, txt := pathID(p), ""
	for i := range r.last {
		if r.last[i].id == id && id != "" {
			txt = r.last[i].txt
		}
	}
	if txt == "" {
		return
	}
	// farther and farther apart
	r.take = r.n + 1 + r.n/200
	r.size += root.Size
	r.list = append(r.list, recorded{txt, p, v, root, m, append([]*Node(nil), res...)})
}

// disturb parses and evaluates what a check may not come across: all the
// kinds of paths, long ones, and malformed ones
func (c *Ctx) disturb() {
	var ts []string
	for _, p := range broadPaths(1) {
		ts = append(ts, p.text())
	}
	for i, p := range broadPaths(2) {
		if i%7 == c.k {
			ts = append(ts, p.text())
		}
	}
	for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
		r := func(s string) string { return strings.Repeat(s, n) }
		for _, s := range []string{"0", "'a'", "*", "1:2", "?(@.a)", "-1"} {
			ts = append(ts, "$["+s+r(","+s)+"]", "$..["+s+r(","+s)+"]")
		}
		nums, keys := "0", "'k'"
		for i := 1; i < n; i++ {
			nums += "," + itoa(i)
			keys += ",'k" + itoa(i) + "'"
		}
		ts = append(ts, "$["+nums+"]", "$..["+keys+"]", "$[?(@ in ["+nums+"])]", "$[?(@ in ["+keys+"])]", "$[?(length(["+nums+"])>"+itoa(n)+")]",
			"$"+r(".a"), "$"+r("[0]"), "$"+r(".*"), "$.."+r("k"), r("/a"), r("/*"), r("/0"), "$['"+r("k")+"']", "$['"+r(`\u0041`)+"']", "$[?(@"+r(".a")+")]", "$[?(@=="+r("1")+")]", "$[?(1"+r("+1")+"==@)]", "$[?(@"+r("||@.a")+")]", "$[?("+r("!")+"@)]",
			"$"+r("[0]")+"]", "$['"+r("k"), "$["+nums+",", r("["), "$"+r(" ")+".", "$[?(@ in ["+nums+")]", r("$"))
	}
	deep := nI(1)
	for i := 0; i < 150; i++ {
		if i%2 == 0 {
			deep = nA(deep, nI(i))
		} else {
			deep = nO("b", nI(i), "a", deep)
		}
	}
	ms := []gj.DocModel{vMap.mk(mixedDocs()[0]), vPtr.mk(mixedDocs()[1]), vMapI.mk(intArr(300).finish()), vPtr.mk(bigObj(300).finish()), vPtr.mk(deep.finish())}
	for _, t := range append(ts, corpus...) {
		c.tick()
		p, err, pan := parse(t)
		if err != nil || pan != "" {
			continue
		}
		for _, m := range ms {
			mustFind(m, p)
		}
	}
}

// again evaluates what was recorded, forwards, and backwards
func (c *Ctx) again() {
	l := recorder.list
	recorder.on = false
	c.disturb()
	check := func(r *recorded, p gj.Path, m gj.DocModel, how string) {
		c.enter("", r.txt, r.v.name)
		got, bad := search(r.v, r.root, m, p, 4*len(r.res)+4*r.root.Size+1000, nil)
		if bad == "" {
			bad = compare(r.v, r.res, got)
		}
		if bad != "" {
			c.violate("", r.txt, nil, r.txt+" on "+r.root.text()+" ("+r.v.name+") "+how+": "+bad)
		}
		c.count("evaluated_again", 1)
	}
	for i := range l {
		check(&l[i], l[i].path, l[i].m, "evaluated again, at the end")
	}
	for i := len(l) - 1; i >= 0; i-- {
		r := &l[i]
		p, err, pan := parse(r.txt)
		if err != nil || pan != "" {
			c.violate("", r.txt, nil, "Parse("+quoted(r.txt)+") at the end, unlike before: "+errText(err)+pan)
			continue
		}
		check(r, p, r.v.mk(r.root), "parsed again, at the end")
	}
}
