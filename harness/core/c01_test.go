//go:build go1.22

package core

import (
	"fmt"
	"sort"

	"google.golang.org/grpc/codes"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/zzv/eng"

	pb "github.com/netauth/protocol/v2"
)

// interesting counts effective memberships that come from rules, and
// direct memberships that a rule takes away.
func (h *hist) interesting() (indirect, excluded int) {
	for g := range h.m.grps {
		for e, me := range h.m.ents {
			in := h.m.eff(g, e)
			if in && !me.groups[g] {
				indirect++
			}
			if !in && me.groups[g] {
				excluded++
			}
		}
	}
	return
}

func runMembership(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	ind, exc := 0, 0
	for _, o := range c.Ops {
		h.do(o, h.w.Root())
		i, x := h.interesting()
		ind, exc = ind+i, exc+x
	}
	if ind > 0 {
		t.Class("indirect")
	}
	if exc > 0 {
		t.Class("excluded")
	}
	if ind+exc > 0 {
		t.NonTrivial()
	}
}

func genMembership(r eng.R, restart int) *eng.Case {
	g := newGen(r, 1+r.Intn(3), 2+r.Intn(4))
	c := &eng.Case{Cfg: backendFor(r, 1, 1)}
	c.Ops = g.start()
	g.weights("GRule", 30, "MAdd", 22, "MDel", 6, "GCreate", 4, "GDestroy", 3, "ECreate", 3, "EDestroy", 2, "Restart", restart, "EUpdate", 1, "ELock", 1, "EUnlock", 1)
	c.Ops = append(c.Ops, g.seq(6+r.Intn(20))...)
	return c
}

// smallGraphs enumerates every way to put rules on three groups (in one
// creation order), with each direct membership of one entity.
func smallGraphs(tier string) []*eng.Case {
	var out []*eng.Case
	names := []string{"a", "b", "ab"}
	type pair struct{ s, t string }
	pairs := []pair{}
	for _, s := range names {
		for _, t := range names {
			if s != t {
				pairs = append(pairs, pair{s, t})
			}
		}
	}
	n := 729
	for x := 0; x < n; x++ {
		for d := 0; d < 8; d++ {
			if tier != "thorough" && (x+d)%5 != 0 {
				continue
			}
			c := &eng.Case{Cfg: map[string]string{"backend": "memory"}}
			c.Ops = append(c.Ops, eng.O("ECreate", "e", "s").WithN(-1))
			for _, g := range names {
				c.Ops = append(c.Ops, eng.O("GCreate", g, "", "").WithN(-1))
			}
			for i, g := range names {
				if d&(1<<i) != 0 {
					c.Ops = append(c.Ops, eng.O("MAdd", "e", g))
				}
			}
			y := x
			for _, p := range pairs {
				switch y % 3 {
				case 1:
					c.Ops = append(c.Ops, eng.O("GRule", p.s, p.t, "INCLUDE"))
				case 2:
					c.Ops = append(c.Ops, eng.O("GRule", p.s, p.t, "EXCLUDE"))
				}
				y /= 3
			}
			out = append(out, c)
		}
	}
	return out
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C01", Name: "membership-history", Quick: 6000, Deep: 150000,
		Rule:  "at some point a membership existed only through a rule, or a rule took a direct membership away",
		Scope: []string{"membership", "state:groups", "code:MAdd", "code:MDel", "crash"},
		Gen:   func(r eng.R) *eng.Case { return genMembership(r, 1) },
		Run:   runMembership,
		Enum:  smallGraphs,
	})
	eng.Register(&eng.Suite{
		Prop: "C02", Name: "rule-history", Quick: 6000, Deep: 150000,
		Rule:  "at least one rule request was accepted and at least one refused",
		Scope: []string{"code:GRule", "state:rules", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1, 2+r.Intn(5))
			if r.Chance(1, 3) {
				g.grps = append(g.grps, r.Pick("", "..", "a/b", "nope"))
			}
			c := &eng.Case{Cfg: backendFor(r, 1, 1)}
			c.Ops = g.start()
			g.weights("GRule", 60, "GCreate", 4, "GDestroy", 3, "MAdd", 2, "Restart", 2, "GUpdate", 2, "GUM", 2)
			c.Ops = append(c.Ops, g.seq(6+r.Intn(24))...)
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			acc, ref := false, false
			for _, o := range c.Ops {
				a, b := h.okOps, h.badOps
				h.do(o, h.w.Root())
				if o.K == "GRule" {
					acc = acc || h.okOps > a
					ref = ref || h.badOps > b
				}
				// Independently of the model: no chain of rules leads back.
				if cyc := h.storedCycle(); cyc != "" {
					t.Failf("state:rules", "after %s: the stored rules lead from group %q back to itself", opStr(o), cyc)
				}
			}
			if acc && ref {
				t.NonTrivial()
			}
		},
		Enum: smallGraphs,
	})
	eng.Register(&eng.Suite{
		Prop: "C03", Name: "restart", Quick: 2500, Deep: 60000,
		Rule:  "the server was restarted over a store with at least one membership, rule or changed attribute",
		Scope: []string{"restart", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 1+r.Intn(4))
			c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("memory", 2, "filesystem", 3, "bitcask", 3)}}
			if r.Chance(1, 12) {
				c.Cfg["crypto"] = "bcrypt"
			}
			c.Ops = g.start()
			g.weights("GRule", 14, "MAdd", 12, "MDel", 4, "GCreate", 3, "GDestroy", 4, "ECreate", 3, "EDestroy", 3, "ESecret", 3, "ELock", 3, "EUnlock", 2,
				"EUpdate", 3, "GUpdate", 3, "EUM", 4, "GUM", 4, "EKV", 4, "GKV", 4, "EKey", 4, "Cap", 6, "Restart", 10)
			c.Ops = append(c.Ops, g.seq(5+r.Intn(18))...)
			c.Ops = append(c.Ops, eng.O("Restart"))
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			for _, o := range c.Ops {
				if o.K != "Restart" {
					h.do(o, h.w.Root())
					continue
				}
				t.Tracef("restart")
				before, bs := h.observe(), h.w.Snapshot()
				h.w.Restart()
				after, as := h.observe(), h.w.Snapshot()
				if d := diffSnap(bs, as); d != "" {
					t.Failf("restart", "the restart changed the store: %s", d)
				}
				if d := diffObs(before, after); d != "" {
					t.Failf("restart", "the restarted server answers differently: %s", d)
				}
				// What was acknowledged is what is served, whichever
				// process served it first.
				h.judge(o, h.compare(""))
				if i, x := h.interesting(); i+x > 0 || len(h.m.ents)+len(h.m.grps) > 1 {
					t.NonTrivial()
				}
			}
		},
	})
}

// storedCycle looks for a cycle in the rules as stored.
func (h *hist) storedCycle() string {
	_, gns, _ := h.w.objects()
	next := map[string][]string{}
	for n := range gns {
		g, err := h.w.db.LoadGroup(n)
		if err != nil {
			continue
		}
		for _, r := range g.GetExpansions() {
			for i := 0; i < len(r); i++ {
				if r[i] == ':' {
					next[n] = append(next[n], r[i+1:])
					break
				}
			}
		}
	}
	var names []string
	for n := range gns {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, s := range names {
		seen := map[string]bool{}
		todo := append([]string{}, next[s]...)
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			if x == s {
				return s
			}
			if !seen[x] {
				seen[x] = true
				todo = append(todo, next[x]...)
			}
		}
	}
	return ""
}

// observe asks the server everything a client can ask without a token.
func (h *hist) observe() map[string]string {
	out := map[string]string{}
	put := func(k string, r proto.Message, c codes.Code) {
		out[k] = c.String()
		if c != codes.OK {
			return
		}
		var parts []string
		switch x := r.(type) {
		case *pb.ListOfEntities:
			for _, e := range x.GetEntities() {
				mt := e.GetMeta()
				if mt != nil {
					sort.Strings(mt.Groups)
					sort.Strings(mt.Keys)
					sort.Strings(mt.UntypedMeta)
					sort.Slice(mt.Capabilities, func(i, j int) bool { return mt.Capabilities[i] < mt.Capabilities[j] })
				}
				parts = append(parts, proto.CompactTextString(e))
			}
		case *pb.ListOfGroups:
			for _, g := range x.GetGroups() {
				sort.Strings(g.Expansions)
				sort.Strings(g.UntypedMeta)
				sort.Slice(g.Capabilities, func(i, j int) bool { return g.Capabilities[i] < g.Capabilities[j] })
				parts = append(parts, proto.CompactTextString(g))
			}
		default:
			parts = append(parts, proto.CompactTextString(r))
		}
		sort.Strings(parts)
		out[k] += " " + fmt.Sprintf("%q", parts)
	}
	own := []string{}
	for id := range h.m.ents {
		own = append(own, id)
	}
	for n := range h.m.grps {
		own = append(own, n)
	}
	sort.Strings(own)
	names := append(append([]string{}, plainNames...), weirdNames...)
	if names = append(names, own...); len(names) > 120 {
		names = names[:120]
	}
	for _, id := range names {
		r, c := h.w.Call("EntityInfo", "", entReq(id))
		put("EntityInfo "+id, r, c)
		r, c = h.w.Call("EntityGroups", "", entReq(id))
		put("EntityGroups "+id, r, c)
		r, c = h.w.Call("GroupInfo", "", grpReq(id))
		put("GroupInfo "+id, r, c)
		r, c = h.w.Call("GroupMembers", "", grpReq(id))
		put("GroupMembers "+id, r, c)
	}
	for _, ex := range []string{"*", "+ID:a*", "Name:a*", "meta.Shell:x"} {
		r, c := h.w.Call("EntitySearch", "", &pb.SearchRequest{Expression: str(ex)})
		put("EntitySearch "+ex, r, c)
		r, c = h.w.Call("GroupSearch", "", &pb.SearchRequest{Expression: str(ex)})
		put("GroupSearch "+ex, r, c)
	}
	ids := []string{}
	for id := range h.m.ents {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		e := h.m.ents[id]
		if !e.secretOK {
			continue
		}
		_, c := h.w.Call("AuthEntity", "", &pb.AuthRequest{Entity: ent(id), Secret: str(e.secret)})
		out["AuthEntity "+id] = c.String()
		_, c = h.w.Call("AuthEntity", "", &pb.AuthRequest{Entity: ent(id), Secret: str(e.secret + "x")})
		out["AuthEntity wrong "+id] = c.String()
	}
	return out
}

func diffObs(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if a[k] != b[k] {
			return fmt.Sprintf("%s: before %s, after %s", k, a[k], b[k])
		}
	}
	return ""
}
