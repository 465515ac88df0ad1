//go:build go1.22

package core

import (
	"fmt"
	"strings"

	"github.com/netauth/netauth/internal/zzv/eng"
)

// Names are shared by entities and groups, overlap as substrings and hold
// characters with a meaning elsewhere (rule separators, globs, indices).
var (
	plainNames = []string{"a", "b", "c", "d", "ab", "dev", "devops", "op"}
	weirdNames = []string{"A:B", "INCLUDE:a", "g*", "[a]", "a.b", "x y", "...", "a{0}", "é", "%2F", "?", "-", ".hid", "A"}
	badNames   = []string{"", ".", "..", "a/b", "/a", "../groups/a", "../entities/a", "a/", "./a"}
	umKeys     = []string{"k", "k{0}", "k{1}", "k{10}", "k{100}", "k{2}", "kk", "j", "j{0}x", "K", "k{a}", "{0}"}
	umVals     = []string{"v", "w", "", "v:w", "k{0}", "x y", "é"}
	kvKeys     = []string{"k", "kk", "k1", "K", "j", "k{0}"}
	keyTypes   = []string{"SSH", "ssh", "GPG", "x"}
	keyVals    = []string{"AAAA", "AAA", "AAAAB", "a:b", "", "SSH", "key one", "aaaa", " AAA "}
	secrets    = []string{"s1", "s2", "s11", "S1", "", "s1 ", "long secret with spaces"}
)

// twist makes a near miss of a text: what a careless comparison, cut or
// separator would take for the same, or take apart.
func twist(r eng.R, s, avoid string) string {
	bits := []string{" ", ":", "#", " #1", "\n", "\t", ".", ",", ";", "=", "{0}", "{", "}", "'", "\"", "\\", "%s", "é", "0", "x", "-", "_", "@", "+", "&", "|", "!", "(", ")", "[", "]", "^", "$", "?", "*", "~", "<", ">", "\r\n", ".dat", ".tmp", "\u00a0", "ſ", "İ", "::", "  "}
	bit := func() string {
		for {
			b := r.Pick(bits...)
			if r.Chance(1, 2) { // what has a meaning to the server
				b = r.Pick(":", "{", "}", "{0}", "*", " ", "\n")
			}
			if !strings.ContainsAny(b, avoid) {
				return b
			}
		}
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		switch r.Intn(9) {
		case 0, 1, 2:
			s += bit()
		case 3:
			s = bit() + s
		case 4:
			i := r.Intn(len(s) + 1)
			s = s[:i] + bit() + s[i:]
		case 5:
			s = strings.ToUpper(s)
		case 6:
			s = strings.ToLower(s)
		case 7:
			if len(s) > 0 {
				s = s[:len(s)-1]
			}
		case 8:
			if len(s) < 16 {
				s += s
			}
		}
	}
	return strings.ToValidUTF8(s, "")
}

// text draws one of the texts, or a near miss of one.
func (g *gen) text(avoid string, from ...string) string {
	s := g.r.Pick(from...)
	if g.r.Chance(1, 5) {
		s = twist(g.r, s, avoid)
	}
	if g.long > 0 && g.r.Chance(1, 6) {
		s = filler(g.long) + s
	}
	return s
}

// filler is the long beginning that two texts of a case have in common.
func filler(n int) string { return strings.Repeat("lengthy", n/7+1)[:n] }

// secret draws a secret; none is longer than bcrypt can tell apart.
func (g *gen) secret() string {
	s := g.r.Pick(secrets...)
	if g.r.Chance(1, 5) {
		s = twist(g.r, s, "")
	}
	if n := []int{30, 31, 35, 47}[g.r.Intn(4)]; g.long > 0 && len(s) <= 24 && g.r.Chance(1, 6) {
		s = filler(n) + s
	}
	return s
}

// longNames makes some of the names long and alike but for their ends.
func (g *gen) longNames() {
	r := g.r
	f := filler([]int{31, 32, 47, 54, 55, 63, 64, 65, 99, 100, 127, 128, 190, 199}[r.Intn(14)])
	for _, l := range [][]string{g.ents, g.grps} {
		for n := r.Intn(4); n > 0; n-- {
			l[r.Intn(len(l))] = f + r.Pick("", "a", "b")
		}
	}
}

// pool is the set of names one case uses.
func pool(r eng.R, n int) []string {
	out := []string{}
	perm := r.Perm(len(plainNames))
	for i := 0; i < n && i < len(perm); i++ {
		out = append(out, plainNames[perm[i]])
	}
	if r.Chance(1, 3) {
		out[r.Intn(len(out))] = weirdNames[r.Intn(len(weirdNames))]
	}
	if r.Chance(1, 6) {
		// Two names that differ in case alone.
		i := r.Intn(len(out))
		if x := strings.ToUpper(out[i]); x != out[i] {
			out[(i+1)%len(out)] = x
		}
	}
	if r.Chance(1, 3) {
		// Two names that are nearly the same.
		if x := twist(r, out[r.Intn(len(out))], "/"); validName(x) {
			out[r.Intn(len(out))] = x
		}
	}
	return out
}

type gen struct {
	r     eng.R
	ents  []string
	grps  []string
	w     map[string]int
	order []string
	nums  []int64
	long  int // how long the long texts of this case begin alike; 0: it has none
}

func newGen(r eng.R, ne, ng int) *gen {
	g := &gen{r: r, ents: pool(r, ne), grps: pool(r, ng), w: map[string]int{}}
	g.nums = []int64{-1, -1, -1, -1, -1, 0, 1, 7, 100, []int64{300, 40000, 70000}[r.Intn(3)]}
	if r.Chance(1, 6) {
		g.long = []int{63, 64, 100, 127, 128, 200, 255, 256, 300, 1024, 4096}[r.Intn(11)]
	}
	if r.Chance(1, 20) {
		g.longNames()
	}
	return g
}

func (g *gen) weights(kv ...interface{}) *gen {
	for i := 0; i < len(kv); i += 2 {
		k := kv[i].(string)
		if _, ok := g.w[k]; !ok {
			g.order = append(g.order, k)
		}
		g.w[k] = kv[i+1].(int)
	}
	return g
}

func (g *gen) kind() string {
	tot := 0
	for _, k := range g.order {
		tot += g.w[k]
	}
	n := g.r.Intn(tot)
	for _, k := range g.order {
		n -= g.w[k]
		if n < 0 {
			return k
		}
	}
	return g.order[0]
}

func (g *gen) e() string { return g.r.Pick(g.ents...) }
func (g *gen) g() string { return g.r.Pick(g.grps...) }

// op draws one operation of a kind.
func (g *gen) op(k string) eng.Op {
	r := g.r
	num := g.nums[r.Intn(len(g.nums))]
	switch k {
	case "ECreate":
		return eng.O(k, g.e(), g.secret()).WithN(num)
	case "EDestroy", "ELock", "EUnlock":
		return eng.O(k, g.e())
	case "ESecret", "Auth", "GetToken":
		return eng.O(k, g.e(), g.secret())
	case "EUpdate":
		o := eng.O(k, g.e())
		for i := r.Intn(3) + 1; i > 0; i-- {
			o.S = append(o.S, eng.S(r.Pick(typedFields...)), eng.S(g.text("", "x", "y", "", "/bin/sh", "z z", "/home/x/", " pad ")))
		}
		return o
	case "EUM", "GUM":
		t := g.e()
		if k == "GUM" {
			t = g.g()
		}
		act := r.Weighted("UPSERT", 10, "CLEAREXACT", 3, "CLEARFUZZY", 3, "READ", 5, "ADD", 1)
		key := g.text(":*", umKeys...)
		if act == "READ" && r.Chance(1, 4) {
			key = "*"
		}
		return eng.O(k, t, act, key, g.text("", umVals...))
	case "EKV", "GKV":
		t := g.e()
		if k == "GKV" {
			t = g.g()
		}
		act := r.Weighted("add", 8, "del", 3, "replace", 4, "get", 5)
		key := g.text("*", kvKeys...)
		if act == "get" && r.Chance(1, 4) {
			key = "*"
		}
		o := eng.O(k, t, act, key)
		for i := r.Intn(3); i > 0; i-- {
			o.S = append(o.S, eng.S(g.text("", "v1", "v2", "", "v1")))
		}
		if r.Chance(1, 40) {
			for i := 9 + r.Intn(8); i >= 0; i-- {
				o.S = append(o.S, eng.S(fmt.Sprint("w", i)))
			}
		}
		return o
	case "EKey":
		act, typ := r.Weighted("ADD", 8, "DROP", 4, "READ", 3, "UPSERT", 1), g.text(":", keyTypes...)
		if act == "DROP" && r.Chance(1, 5) {
			typ = ""
		}
		val := g.text("", keyVals...)
		if typ == "" && r.Chance(1, 3) {
			val = ""
		}
		return eng.O(k, g.e(), act, typ, val)
	case "GCreate":
		man := ""
		if r.Chance(1, 3) {
			man = g.g()
		}
		return eng.O(k, g.g(), g.text("", "", "D", "A group"), man).WithN(num)
	case "GDestroy":
		return eng.O(k, g.g())
	case "GUpdate":
		o := eng.O(k, g.g())
		if r.Chance(2, 3) {
			o.S = append(o.S, "display", eng.S(g.text("", "x", "y", "")))
		}
		if r.Chance(1, 2) {
			o.S = append(o.S, "managed", eng.S(g.g()))
		}
		return o
	case "GRule":
		return eng.O(k, g.g(), g.g(), r.Weighted("INCLUDE", 6, "EXCLUDE", 3, "REMOVE_RULE", 3))
	case "MAdd", "MDel":
		o := eng.O(k, g.e(), g.g())
		if r.Chance(1, 6) {
			o.S = append(o.S, eng.S(g.g()))
		}
		return o
	case "Cap":
		direct := int64(r.Intn(2))
		t := g.e()
		if direct == 0 {
			t = g.g()
		}
		c := int64(allCaps[r.Intn(len(allCaps))])
		return eng.O(k, t, r.Weighted("ADD", 5, "DROP", 3)).WithN(direct, c)
	case "Restart":
		return eng.O(k)
	}
	panic("no generator for " + k)
}

// setup creates most of the pool, so that histories start from something.
func (g *gen) setup() []eng.Op {
	var ops []eng.Op
	for _, e := range g.ents {
		if g.r.Chance(4, 5) {
			o := g.op("ECreate")
			o.S[0] = eng.S(e)
			ops = append(ops, o)
		}
	}
	for _, n := range g.grps {
		if g.r.Chance(4, 5) {
			o := g.op("GCreate")
			o.S[0] = eng.S(n)
			ops = append(ops, o)
		}
	}
	return ops
}

// start is setup, and once in a while much of something.
func (g *gen) start() []eng.Op {
	return append(g.setup(), g.rarely()...)
}

func (g *gen) rarely() []eng.Op {
	r := g.r
	if !r.Chance(1, 40) {
		return nil
	}
	n := 9 + r.Intn(30)
	if r.Chance(1, 12) {
		n = 100 + r.Intn(200)
	}
	what := r.Pick("ents", "ents", "grps", "grps", "fan", "except", "users", "chain", "eum", "gum", "ekv", "gkv", "keys")
	t := g.g()
	switch what {
	case "grps", "eum", "ekv", "keys":
		t = g.e()
	}
	switch what {
	case "ents", "except":
		g.ents = append(g.ents, "m0", fmt.Sprint("m", n-1))
	}
	switch what {
	case "grps", "fan", "except", "users", "chain":
		g.grps = append(g.grps, "t0", fmt.Sprint("t", n-1))
	}
	return []eng.Op{eng.O("Many", what, t).WithN(int64(n))}
}

func (g *gen) seq(n int) []eng.Op {
	var ops []eng.Op
	for i := 0; i < n; i++ {
		ops = append(ops, g.op(g.kind()))
	}
	return ops
}

// backendFor draws a store and a secret engine.
func backendFor(r eng.R, fs, bc int) map[string]string {
	b := r.Weighted("memory", 20, "filesystem", fs, "bitcask", bc)
	c := map[string]string{"backend": b}
	if r.Chance(1, 4) {
		c["noise"] = fmt.Sprint(r.Intn(1000))
	}
	return c
}

var _ = fmt.Sprint
