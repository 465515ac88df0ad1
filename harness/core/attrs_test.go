//go:build go1.22

package core

import (
	"strings"

	"github.com/netauth/netauth/internal/zzv/eng"
)

// set builds a lookup.
func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// attrSuite checks that certain requests have exactly the documented
// effect on everything observable.
func attrSuite(prop, name, rule string, q, d int, ops []string, gen func(r eng.R) *eng.Case) {
	sc := []string{"state", "um:read", "kv:read", "keys:read", "crash"}
	for _, o := range ops {
		sc = append(sc, "code:"+o)
	}
	eng.Register(&eng.Suite{
		Prop: prop, Name: name, Quick: q, Deep: d, Rule: rule, Scope: sc, Gen: gen,
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			h.only = set(ops...)
			acc, ref := 0, 0
			for _, o := range c.Ops {
				a, b := h.okOps, h.badOps
				h.do(o, h.w.Root())
				if h.only[o.K] {
					acc += h.okOps - a
					ref += h.badOps - b
				}
			}
			if acc >= 3 && ref >= 1 {
				t.NonTrivial()
			}
		},
	})
}

func init() {
	two := "at least three of the requests in question took effect and at least one was refused"
	attrSuite("C12", "kv-history", two, 6000, 150000, []string{"EKV", "GKV"}, func(r eng.R) *eng.Case {
		g := newGen(r, 1+r.Intn(2), 1+r.Intn(2))
		c := &eng.Case{Cfg: backendFor(r, 1, 1)}
		c.Ops = g.start()
		g.weights("EKV", 40, "GKV", 40, "EUM", 3, "GUM", 3, "EUpdate", 3, "GUpdate", 3, "EDestroy", 1, "ECreate", 1, "GDestroy", 1, "GCreate", 1, "MAdd", 2, "Restart", 1)
		c.Ops = append(c.Ops, g.seq(8+r.Intn(25))...)
		return c
	})
	attrSuite("C13", "untyped-history", two, 6000, 150000, []string{"EUM", "GUM"}, func(r eng.R) *eng.Case {
		g := newGen(r, 1+r.Intn(2), 1+r.Intn(2))
		c := &eng.Case{Cfg: backendFor(r, 1, 1)}
		c.Ops = g.start()
		g.weights("EUM", 40, "GUM", 40, "EKV", 3, "GKV", 3, "EUpdate", 3, "GUpdate", 3, "EDestroy", 1, "ECreate", 1, "GDestroy", 1, "GCreate", 1, "Cap", 2, "Restart", 1)
		c.Ops = append(c.Ops, g.seq(8+r.Intn(25))...)
		return c
	})
	attrSuite("C14", "key-history", two, 6000, 150000, []string{"EKey"}, func(r eng.R) *eng.Case {
		g := newGen(r, 1+r.Intn(2), 1)
		c := &eng.Case{Cfg: backendFor(r, 1, 1)}
		c.Ops = g.start()
		g.weights("EKey", 80, "EUpdate", 4, "EUM", 3, "EKV", 3, "ELock", 2, "EUnlock", 2, "EDestroy", 1, "ECreate", 1, "Cap", 2, "Restart", 1)
		c.Ops = append(c.Ops, g.seq(8+r.Intn(25))...)
		return c
	})
	attrSuite("C15", "update-history", "at least three updates took effect and at least one was refused", 6000, 150000, []string{"EUpdate", "GUpdate"}, func(r eng.R) *eng.Case {
		g := newGen(r, 1+r.Intn(3), 1+r.Intn(3))
		c := &eng.Case{Cfg: backendFor(r, 1, 1)}
		c.Ops = g.start()
		g.weights("EUpdate", 40, "GUpdate", 40, "EUM", 5, "GUM", 5, "EKV", 5, "GKV", 5, "EKey", 5, "Cap", 8, "MAdd", 5, "GRule", 5, "ELock", 3, "EUnlock", 1, "EDestroy", 1, "ECreate", 1, "GDestroy", 1, "GCreate", 1, "Restart", 1)
		for i := 8 + r.Intn(22); i > 0; i-- {
			o := g.op(g.kind())
			if (o.K == "EUpdate" || o.K == "GUpdate") && r.Chance(2, 3) {
				o.N = []int64{int64(r.Intn(512))}
				if r.Chance(1, 2) {
					o.N = []int64{1 << uint(r.Intn(9))}
				}
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	})
	attrSuite("C16", "create-history", "at least three creations took effect and at least one was refused", 6000, 150000, []string{"ECreate", "GCreate"}, func(r eng.R) *eng.Case {
		g := newGen(r, 2+r.Intn(4), 2+r.Intn(4))
		if r.Chance(1, 6) {
			g.ents = append(g.ents, badNames[r.Intn(len(badNames))], strings.Repeat("n", 60+r.Intn(300)))
			g.grps = append(g.grps, badNames[r.Intn(len(badNames))], strings.Repeat("n", 60+r.Intn(300)))
		}
		g.nums = []int64{-1, -1, -1, -1, -1, -1, -1, 0, 1, 2, 7, 100, -7, 1 << 30}
		if r.Chance(1, 5) {
			g.nums = append(g.nums, 1<<31-1, 1<<31-2, -1<<31)
		}
		c := &eng.Case{Cfg: backendFor(r, 1, 1)}
		if r.Chance(1, 20) {
			c.Cfg["crypto"] = "bcrypt"
		}
		g.weights("ECreate", 30, "GCreate", 30, "EDestroy", 8, "GDestroy", 8, "EUM", 3, "GUM", 3, "EKV", 3, "GKV", 3, "EKey", 3, "Cap", 4, "MAdd", 6, "GRule", 4, "ELock", 3, "EUpdate", 3, "GUpdate", 2, "Restart", 2)
		c.Ops = append(g.rarely(), g.seq(10+r.Intn(25))...)
		return c
	})
	attrSuite("C17", "capability-history", "at least three capability changes took effect and at least one was refused", 6000, 150000, []string{"Cap"}, func(r eng.R) *eng.Case {
		g := newGen(r, 1+r.Intn(2), 1+r.Intn(2))
		c := &eng.Case{Cfg: backendFor(r, 1, 1)}
		c.Ops = g.start()
		if r.Chance(1, 12) { // nearly everything
			to, direct := g.e(), int64(1)
			if r.Chance(1, 3) {
				to, direct = g.g(), 0
			}
			for _, i := range r.Perm(len(allCaps))[r.Intn(4):] {
				c.Ops = append(c.Ops, eng.O("Cap", to, "ADD").WithN(direct, int64(allCaps[i])))
			}
		}
		g.weights("Cap", 80, "EUpdate", 3, "GUpdate", 3, "MAdd", 3, "GRule", 3, "EDestroy", 1, "ECreate", 1, "GDestroy", 1, "GCreate", 1, "ELock", 2, "Restart", 1)
		for i := 8 + r.Intn(25); i > 0; i-- {
			o := g.op(g.kind())
			if o.K == "Cap" && r.Chance(1, 12) {
				switch r.Intn(3) {
				case 0:
					o.N[1] = int64(r.Pick("1", "5", "9", "24", "999")[0])
				case 1:
					o.S[1] = "UPSERT"
				default:
					o.S[0] = eng.S(r.Pick("", "nope", "..", "a/b"))
				}
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	})
}
