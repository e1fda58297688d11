package main

import (
	"encoding/json"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"sort"

	gj "github.com/bserdar/gojsonpath"
)

// Strings that a short hash takes for the same

type twin struct{ hash, a, b string }

var shortHashes = map[string]func([]byte) uint32{
	"crc32":      crc32.ChecksumIEEE,
	"castagnoli": func(b []byte) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) },
	"adler32":    adler32.Checksum,
	"fnv32":      func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() },
	"fnv32a":     func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() },
	"fnv64 low":  func(b []byte) uint32 { h := fnv.New64(); h.Write(b); return uint32(h.Sum64()) },
	"fnv64a low": func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) },
	"fnv64a high": func(b []byte) uint32 {
		h := fnv.New64a()
		h.Write(b)
		return uint32(h.Sum64() >> 32)
	},
	"times 31": poly(0, 31), "times 33": poly(5381, 33), "times 37": poly(0, 37), "times 131": poly(0, 131), "times 65599": poly(0, 65599), "times 16777619": poly(0, 16777619),
	"33 xor": func(b []byte) uint32 {
		h := uint32(5381)
		for _, c := range b {
			h = h*33 ^ uint32(c)
		}
		return h
	},
	"sum": func(b []byte) (h uint32) {
		for _, c := range b {
			h += uint32(c)
		}
		return
	},
	"xor": func(b []byte) (h uint32) {
		for _, c := range b {
			h ^= uint32(c)
		}
		return h<<16 | uint32(len(b))
	},
	"rotate": func(b []byte) (h uint32) {
		for _, c := range b {
			h = (h<<5 | h>>27) ^ uint32(c)
		}
		return
	},
	"one at a time": func(b []byte) (h uint32) {
		for _, c := range b {
			h += uint32(c)
			h += h << 10
			h ^= h >> 6
		}
		h += h << 3
		h ^= h >> 11
		return h + h<<15
	},
}

func poly(start, k uint32) func([]byte) uint32 {
	return func(b []byte) uint32 {
		h := start
		for _, c := range b {
			h = h*k + uint32(c)
		}
		return h
	}
}

const digits62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

// hashTwins finds up to three pairs of names per hash for which the texts
// pre+name+post have the same hash. Names are short, start with a letter and
// come in an order that is always the same.
func hashTwins(pre, post string) (out []twin) {
	const n = 170000
	names := make([]string, n)
	for i := range names {
		// neighbours differ in more than their last characters
		x := uint64(i) * 0x9e3779b97f4a7c15
		b := []byte("k")
		for x > 1<<12 {
			b = append(b, digits62[x%62])
			x /= 62
		}
		names[i] = string(b)
	}
	var hs []string
	for h := range shortHashes {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		f := shortHashes[h]
		seen := make(map[uint32]int32, n)
		found := 0
		buf := []byte(pre)
		for i, s := range names {
			buf = append(append(buf[:len(pre)], s...), post...)
			x := f(buf)
			if j, ok := seen[x]; ok {
				out = append(out, twin{h, names[j], s})
				if found++; found == 3 {
					break
				}
				continue
			}
			seen[x] = int32(i)
		}
	}
	return
}

// TwinCase is a pair of twins in a form of path
type TwinCase struct {
	Form, A, B string
}

// twinForms tell what the path for a selects on twinDoc(a, b)
var twinForms = []struct{ pre, post string }{
	{"$.", ""}, {"$['", "']"}, {`$["`, `"]`}, {"/", ""}, {"$..", ""}, {"$[?(@.", ")]"}, {"$[?(@=='", "')]"}, {"$[?(@ in ['", "'])]"}, {"", ""}, {"join", ""},
}

func twinDoc(a, b string) *Node {
	return nO(a, nS(a), b, nS(b), "z", nO(b, nO(a, nI(1)), a, nI(2)), "y", nS("")).finish()
}

func (k *TwinCase) text(s string) string {
	switch k.Form {
	case "":
		return "$." + s
	case "join":
		return gj.Join(s)
	}
	for _, f := range twinForms {
		if k.Form == f.pre {
			return f.pre + s + f.post
		}
	}
	panic(k.Form)
}

func (k *TwinCase) path(s string) *Path {
	switch k.Form {
	case "$..":
		return path(rec(key(s)))
	case "$[?(@.":
		return path(step(filt(eCur(step(key(s))))))
	case "$[?(@=='":
		return path(step(filt(bin("==", eCur(), eStr(s)))))
	case "$[?(@ in ['":
		return path(step(filt(bin("in", eCur(), list(eStr(s))))))
	}
	return path(step(key(s)))
}

// bad parses and evaluates the twins in turn
func (k *TwinCase) bad() string {
	doc := twinDoc(k.A, k.B)
	vs := []*variant{vPtr, vMap}
	var ms []gj.DocModel
	for _, v := range vs {
		ms = append(ms, v.mk(doc))
	}
	var ps []gj.Path
	names := []string{k.A, k.B, k.A, k.B, k.B, k.A}
	for round := range 2 {
		for i, s := range names {
			t := k.text(s)
			if round == 0 {
				p, err, pan := parse(t)
				if err != nil || pan != "" {
					return "Parse(" + t + "): " + errText(err) + pan
				}
				ps = append(ps, p)
			}
			want, ok := k.path(s).eval(doc, doc)
			if !ok {
				panic(t)
			}
			for vi, v := range vs {
				got, bad := search(v, doc, ms[vi], ps[i], 1000, nil)
				if bad == "" {
					bad = compare(v, want, got)
				}
				if bad != "" {
					return t + " on " + doc.text() + " after or before the same with " + k.A + " and " + k.B + ": " + bad
				}
			}
		}
	}
	return ""
}

func init() {
	handlers["twins"] = func(raw json.RawMessage) (bool, string) {
		var k TwinCase
		must(json.Unmarshal(raw, &k))
		b := k.bad()
		return b != "", b
	}
}

// twins evaluates pairs of names that short hashes take for the same, in some
// of the forms
func (c *Ctx) twins(forms ...string) {
	for i, form := range forms {
		if !c.mine(i) {
			continue
		}
		pre, post := form, ""
		if form == "join" {
			pre = ""
		}
		for _, f := range twinForms {
			if f.pre == form {
				post = f.post
			}
		}
		for _, t := range hashTwins(pre, post) {
			if c.expired() {
				return
			}
			k := &TwinCase{form, t.a, t.b}
			c.enter("twins", jsonOf(k))
			if bad := k.bad(); bad != "" {
				c.violate("twins", form+t.a, k, bad+" ("+t.hash+" of both is the same)")
			}
			c.res.Transitions++
			c.count("names with the same short hash", 1)
		}
	}
}
