//go:build go1.22

package core

import (
	"fmt"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- C04: who can authenticate ----

var probeSecrets = []string{"", "s1", "s2", "s11", "S1", "s1 ", "no such secret"}

// probeAuth tries the right secret and others on everything that exists,
// and something that does not.
func (h *hist) probeAuth(o eng.Op, n int) {
	var ids []string
	for id := range h.m.ents {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	ids = append(ids, "ghost")
	for i, id := range ids {
		try := []string{}
		if e := h.m.ents[id]; e != nil && e.secretOK {
			try = append(try, e.secret)
			if e.secret != "" {
				try = append(try, e.secret[:len(e.secret)-1], e.secret+"1")
			}
		}
		try = append(try, probeSecrets[(n+i)%len(probeSecrets)])
		for j, s := range try {
			k := "Auth"
			if (n+i+j)%5 == 0 {
				k = "GetToken"
			}
			po := eng.O(k, id, s)
			ms := h.exec(po, h.plan(po), "")
			if len(ms) > 0 {
				h.judge(po, ms)
			}
		}
	}
}

func genAuth(r eng.R) *eng.Case {
	g := newGen(r, 1+r.Intn(3), 1)
	c := &eng.Case{Cfg: backendFor(r, 1, 1)}
	if r.Chance(1, 5) {
		c.Cfg["crypto"] = "bcrypt"
	}
	if r.Chance(1, 8) {
		g.ents = append(g.ents, r.Pick(badNames...))
	}
	c.Ops = g.start()
	g.weights("ECreate", 8, "EDestroy", 5, "ESecret", 14, "ELock", 10, "EUnlock", 8, "Auth", 12, "GetToken", 6, "EUpdate", 6, "EUM", 3, "EKV", 3, "EKey", 3, "Cap", 3, "MAdd", 3, "Restart", 2)
	for i := 5 + r.Intn(18); i > 0; i-- {
		o := g.op(g.kind())
		if o.K == "EUpdate" && r.Chance(1, 2) {
			o.N = []int64{int64(r.Intn(512))}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// ---- requestors ----

// asOp wraps an operation with the credentials it is made with:
// S = [token kind, entity, capability names...], N[0] = read-only server.
func asOp(kind, id string, caps []types.Capability, ro bool, o eng.Op) eng.Op {
	w := eng.O("As", kind, id)
	for _, c := range caps {
		w.S = append(w.S, eng.S(c.String()))
	}
	w.N = []int64{0}
	if ro {
		w.N[0] = 1
	}
	w.Sub = []eng.Op{o}
	return w
}

// mkToken builds the token an As operation presents.
func (h *hist) mkToken(o eng.Op) (string, []types.Capability, bool) {
	var caps []types.Capability
	for i := 2; i < len(o.S); i++ {
		if v, ok := types.Capability_value[o.Str(i)]; ok {
			caps = append(caps, types.Capability(v))
		}
	}
	id := o.Str(1)
	if id == "invalid-token" || id == "token-issue-error" {
		id = "x"
	}
	switch o.Str(0) {
	case "none":
		return "", caps, false
	case "garbage":
		return "garbage" + id, caps, false
	case "invalid":
		// A well-formed token which the token service rejects.
		s, _ := h.w.tok.Generate(token.Claims{EntityID: "invalid-token", Capabilities: caps}, token.GetConfig())
		return s, caps, false
	case "truncated":
		s := h.w.Token(id, caps...)
		return s[:len(s)-1], caps, false
	}
	return h.w.Token(id, caps...), caps, true
}

func hasCap(cs []types.Capability, want types.Capability) bool {
	for _, c := range cs {
		if c == want || c == types.Capability_GLOBAL_ROOT {
			return true
		}
	}
	return false
}

// manages says whether an entity manages a group by membership.
func (m *model) manages(id, g string) bool {
	mg := m.grps[g]
	return mg != nil && mg.managed != "" && m.ents[id] != nil && m.eff(mg.managed, id)
}

// doAs performs an operation with given credentials and checks that it
// takes effect exactly if they allow it.
func (h *hist) doAs(w eng.Op) {
	if len(w.Sub) == 0 {
		return
	}
	o := w.Sub[0]
	if o.K == "Restart" {
		h.do(o, "")
		return
	}
	tok, caps, valid := h.mkToken(w)
	id := w.Str(1)
	ro := w.Int(0) != 0
	p := h.plan(o)
	desc := fmt.Sprintf("%s as %s token of %q with %v", opStr(o), w.Str(0), id, w.S[2:])
	if ro {
		desc += " in read-only mode"
		h.w.ReadOnly(true)
		defer h.w.ReadOnly(false)
	}
	if p.read {
		h.t.Tracef("(%s)", desc)
		h.judge(o, append(h.exec(o, p, tok), h.compare("")...))
		return
	}

	// Who may do this?
	allowed, partial := false, 0
	if valid && !ro {
		switch {
		case o.K == "ESecret" && id == o.Str(0):
			// Own secret: the current one must be presented.
			p.req.(*pb.AuthRequest).Entity.Secret = str(o.Str(2))
			me := h.m.ents[id]
			allowed = me != nil && !me.locked && me.secretOK && o.Str(2) != "" && me.secret == o.Str(2)
		case hasCap(caps, p.need):
			allowed = true
		case o.K == "EKey" && id == p.self:
			allowed = true
			h.t.Class("self")
		case o.K == "MAdd" || o.K == "MDel":
			gs := strs(o.S, 1)
			allowed = true
			first := true
			sim := h.m.clone()
			for i, g := range gs {
				first = first && h.m.manages(id, g)
				if !sim.manages(id, g) {
					allowed = false
					partial = i
					break
				}
				if e := sim.ents[o.Str(0)]; e != nil && o.K == "MAdd" {
					e.groups[g] = true
				} else if e != nil {
					delete(e.groups, g)
				}
			}
			for _, g := range gs {
				first = first && h.m.manages(id, g)
			}
			if first != allowed {
				// The request itself changes the requestor's authority
				// halfway through: either outcome will do.
				h.w.Call(p.method, tok, p.req)
				h.t.Tracef("(%s: own authority changes)", desc)
				h.adopt()
				return
			}
			if allowed {
				h.t.Class("delegated")
			}
			// Nothing asked for: nothing to refuse.
			if len(gs) == 0 {
				p.free = true
			}
		case p.deleg != "" && h.m.manages(id, p.deleg):
			allowed = true
			h.t.Class("delegated")
		}
	}

	h.lastAllowed = allowed
	before := h.w.Snapshot()
	resp, code := h.w.Call(p.method, tok, p.req)
	h.t.Tracef("%s -> %v", desc, code)
	var ms []mismatch
	if allowed {
		h.t.Class("allowed:" + o.K)
		if code == codes.PermissionDenied || code == codes.Unauthenticated || code == codes.Unimplemented {
			ms = append(ms, mismatch{"authz:denied", fmt.Sprintf("%s is refused with %v although the requestor is entitled to it", desc, code)})
		} else if !p.ok(code) {
			ms = append(ms, mismatch{"code:" + o.K, fmt.Sprintf("%s ends with %v, want %s", desc, code, p.wantStr())})
		}
		if code == codes.OK && p.mutate != nil {
			p.mutate()
		}
		if code == codes.OK && p.check != nil && p.ok(code) {
			if x := p.check(resp); x != nil {
				ms = append(ms, *x)
			}
		}
		ms = append(ms, h.compare("")...)
		h.judge(o, ms)
		return
	}
	h.t.Class("refused:" + o.K)
	if ro {
		h.t.Class("read-only:" + o.K)
	}
	if code == codes.OK && !(p.free && (o.K == "MAdd" || o.K == "MDel") && len(o.S) == 1) {
		ms = append(ms, mismatch{aspectFor(ro, "authz:granted"), fmt.Sprintf("%s is accepted", desc)})
	}
	if ro && code != codes.Unimplemented && code != codes.InvalidArgument && code != codes.OK {
		ms = append(ms, mismatch{"readonly:code", fmt.Sprintf("%s is refused with %v, want %v", desc, code, codes.Unimplemented)})
	}
	after := h.w.Snapshot()
	if d := diffSnap(before, after); d != "" {
		fine := false
		if partial > 0 && code != codes.OK {
			// The groups ahead of the first refused one may have been
			// served.
			sub := o
			sub.S = append([]eng.S{}, o.S[:1+partial]...)
			if sp := h.plan(sub); sp.mutate != nil {
				old := h.m.clone()
				sp.mutate()
				if len(h.compare("")) == 0 {
					fine = true
				} else {
					h.m = old
				}
			}
		}
		if !fine {
			ms = append(ms, mismatch{aspectFor(ro, "authz:state"), fmt.Sprintf("%s changed the store: %s", desc, d)})
		}
	}
	if len(ms) == 0 {
		ms = append(ms, h.compare("")...)
	}
	h.judge(o, ms)
}

func aspectFor(ro bool, a string) string {
	if ro {
		return "readonly:" + strings.TrimPrefix(a, "authz:")
	}
	return a
}

// allKinds are the operations that need authority.
var allKinds = []string{"ECreate", "EDestroy", "ELock", "EUnlock", "ESecret", "EUpdate", "EUM", "GUM", "EKV", "GKV", "EKey", "GCreate", "GDestroy", "GUpdate", "GRule", "MAdd", "MDel", "Cap"}

// wellFormed draws an operation that would take effect.
func (g *gen) wellFormed(k string) eng.Op {
	for i := 0; i < 50; i++ {
		o := g.op(k)
		switch k {
		case "EUM", "GUM":
			if o.Str(1) == "READ" || o.Str(1) == "ADD" {
				continue
			}
		case "EKV", "GKV":
			if o.Str(1) == "get" {
				continue
			}
		case "EKey":
			if o.Str(1) == "READ" || o.Str(1) == "UPSERT" {
				continue
			}
		}
		return o
	}
	return g.op(k)
}

func (g *gen) caps() []types.Capability {
	r := g.r
	var out []types.Capability
	switch r.Intn(4) {
	case 0:
	case 1:
		out = append(out, allCaps[r.Intn(len(allCaps))])
	case 2:
		for _, c := range allCaps[1:] {
			if r.Chance(1, 2) {
				out = append(out, c)
			}
		}
	default:
		// everything but one
		skip := r.Intn(len(allCaps))
		for i, c := range allCaps {
			if i != skip && c != types.Capability_GLOBAL_ROOT {
				out = append(out, c)
			}
		}
	}
	return out
}

func (g *gen) requestor() string {
	r := g.r
	if r.Chance(1, 8) {
		return r.Pick("ghost", "", "verif operator")
	}
	return g.e()
}

func (g *gen) as(o eng.Op, roChance int) eng.Op {
	r := g.r
	kind := r.Weighted("valid", 24, "none", 1, "garbage", 1, "invalid", 1, "truncated", 1)
	id := g.requestor()
	if o.K == "EKey" && r.Chance(1, 2) || o.K == "ESecret" && r.Chance(1, 2) {
		id = o.Str(0)
	}
	if o.K == "ESecret" {
		o.S = append(o.S, eng.S(r.Pick(secrets...)))
	}
	return asOp(kind, id, g.caps(), r.Chance(roChance, 100), o)
}

// authMatrix is every kind of request with every single capability, by
// the subject of the request and by somebody else.
func authMatrix(ro bool) func(string) []*eng.Case {
	return func(string) []*eng.Case {
		var out []*eng.Case
		reqs := []eng.Op{
			eng.O("ECreate", "new", "s").WithN(-1),
			eng.O("EDestroy", "e"), eng.O("ELock", "e"), eng.O("EUnlock", "l"),
			eng.O("ESecret", "e", "changed", ""), eng.O("ESecret", "e", "changed", "se"), eng.O("ESecret", "e", "changed", "wrong"),
			eng.O("EUpdate", "e", "Shell", "x"),
			eng.O("EUM", "e", "UPSERT", "k2", "v"), eng.O("EUM", "e", "CLEAREXACT", "k", ""), eng.O("EUM", "e", "CLEARFUZZY", "k", ""), eng.O("EUM", "e", "READ", "k", ""),
			eng.O("GUM", "g", "UPSERT", "k2", "v"), eng.O("GUM", "g", "CLEAREXACT", "k", ""), eng.O("GUM", "g", "CLEARFUZZY", "k", ""), eng.O("GUM", "g", "READ", "k", ""),
			eng.O("EKV", "e", "add", "k2", "v"), eng.O("EKV", "e", "del", "k"), eng.O("EKV", "e", "replace", "k", "w"), eng.O("EKV", "e", "get", "k"),
			eng.O("GKV", "g", "add", "k2", "v"), eng.O("GKV", "g", "del", "k"), eng.O("GKV", "g", "replace", "k", "w"), eng.O("GKV", "g", "get", "k"),
			eng.O("EKey", "e", "ADD", "SSH", "n"), eng.O("EKey", "e", "DROP", "SSH", "o"), eng.O("EKey", "e", "READ", "", ""),
			eng.O("GCreate", "newg", "", "").WithN(-1), eng.O("GDestroy", "g"), eng.O("GUpdate", "g", "display", "n"),
			eng.O("GRule", "g", "h", "INCLUDE"), eng.O("GRule", "h", "x", "REMOVE_RULE"),
			eng.O("MAdd", "e", "g"), eng.O("MDel", "e", "h"),
			eng.O("Cap", "e", "ADD").WithN(1, 10), eng.O("Cap", "e", "DROP").WithN(1, 11), eng.O("Cap", "g", "ADD").WithN(0, 10), eng.O("Cap", "g", "DROP").WithN(0, 11),
			eng.O("Auth", "e", "se"), eng.O("GetToken", "e", "se"),
		}
		setup := []eng.Op{
			eng.O("ECreate", "e", "se").WithN(-1), eng.O("ECreate", "l", "sl").WithN(-1), eng.O("ECreate", "o", "so").WithN(-1), eng.O("ECreate", "m", "sm").WithN(-1),
			eng.O("GCreate", "man", "", "").WithN(-1), eng.O("GCreate", "g", "", "man").WithN(-1), eng.O("GCreate", "h", "", "").WithN(-1), eng.O("GCreate", "x", "", "").WithN(-1),
			eng.O("MAdd", "m", "man"), eng.O("MAdd", "e", "h"), eng.O("ELock", "l"), eng.O("GRule", "h", "x", "INCLUDE"),
			eng.O("EUM", "e", "UPSERT", "k", "v"), eng.O("GUM", "g", "UPSERT", "k", "v"), eng.O("EKV", "e", "add", "k", "v"), eng.O("GKV", "g", "add", "k", "v"),
			eng.O("EKey", "e", "ADD", "SSH", "o"), eng.O("Cap", "e", "ADD").WithN(1, 11), eng.O("Cap", "g", "ADD").WithN(0, 11),
		}
		all := []types.Capability{}
		for _, c := range allCaps {
			if c != types.Capability_GLOBAL_ROOT {
				all = append(all, c)
			}
		}
		for _, q := range reqs {
			for _, who := range []string{"e", "o", "m", "ghost"} {
				sets := [][]types.Capability{nil, all}
				for _, c := range allCaps {
					sets = append(sets, []types.Capability{c})
				}
				if ro {
					sets = [][]types.Capability{nil, {types.Capability_GLOBAL_ROOT}, all}
				}
				for _, cs := range sets {
					c := &eng.Case{Cfg: map[string]string{"backend": "memory"}}
					c.Ops = append(append(c.Ops, setup...), asOp("valid", who, cs, ro, q))
					out = append(out, c)
				}
			}
			for _, k := range []string{"none", "garbage", "invalid", "truncated"} {
				c := &eng.Case{Cfg: map[string]string{"backend": "memory"}}
				c.Ops = append(append(c.Ops, setup...), asOp(k, "m", []types.Capability{types.Capability_GLOBAL_ROOT}, ro, q))
				out = append(out, c)
			}
		}
		return out
	}
}

func runAs(t *eng.T, c *eng.Case, want ...string) {
	h := newHist(t, c)
	for _, o := range c.Ops {
		if o.K == "As" {
			h.doAs(o)
		} else {
			h.do(o, h.w.Root())
		}
	}
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C04", Name: "authentication-history", Quick: 3500, Deep: 80000,
		Rule:  "at least one authentication succeeded and at least two were refused",
		Scope: []string{"code:Auth", "code:GetToken", "code:ESecret", "code:ELock", "code:EUnlock", "state:locked", "token:id", "token:valid", "crash"},
		Gen:   genAuth,
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			for i, o := range c.Ops {
				h.do(o, h.w.Root())
				if o.K != "Auth" && o.K != "GetToken" {
					h.probeAuth(o, i)
				}
			}
			if h.okOps > 0 && h.badOps >= 2 {
				t.NonTrivial()
			}
		},
	})
	eng.Register(&eng.Suite{
		Prop: "C05", Name: "authorization", Quick: 4000, Deep: 100000,
		Rule:  "at least two requests were refused for want of authority and at least one was accepted from a requestor without the root capability",
		Scope: []string{"authz", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 2+r.Intn(2), 2+r.Intn(2))
			c := &eng.Case{Cfg: backendFor(r, 1, 0)}
			c.Ops = g.start()
			g.weights("ECreate", 4, "EDestroy", 3, "ELock", 4, "EUnlock", 3, "ESecret", 8, "EUpdate", 4, "EUM", 4, "GUM", 4, "EKV", 4, "GKV", 4, "EKey", 7, "GCreate", 4, "GDestroy", 3, "GUpdate", 4, "GRule", 5, "MAdd", 5, "MDel", 4, "Cap", 5)
			for i := 8 + r.Intn(20); i > 0; i-- {
				k := g.kind()
				if r.Chance(1, 4) {
					c.Ops = append(c.Ops, g.op(k))
				} else {
					c.Ops = append(c.Ops, g.as(g.wellFormed(k), 0))
				}
			}
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			acc, ref := 0, 0
			for _, o := range c.Ops {
				if o.K != "As" {
					h.do(o, h.w.Root())
					continue
				}
				h.doAs(o)
				for _, s := range o.S[2:] {
					if s == "GLOBAL_ROOT" {
						acc--
					}
				}
				if h.lastAllowed {
					acc++
				} else {
					ref++
				}
			}
			if acc > 0 && ref > 1 || len(c.Ops) == 20 {
				t.NonTrivial()
			}
		},
		Enum: authMatrix(false),
	})
	eng.Register(&eng.Suite{
		Prop: "C06", Name: "delegation", Quick: 5000, Deep: 120000,
		Rule:  "a request was accepted because of delegated management, and another was refused",
		Scope: []string{"authz", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 2+r.Intn(2), 3+r.Intn(2))
			c := &eng.Case{Cfg: backendFor(r, 1, 0)}
			c.Ops = g.start()
			for i := 3 + r.Intn(4); i > 0; i-- {
				switch r.Intn(4) {
				case 0, 1:
					c.Ops = append(c.Ops, g.op("MAdd"))
				case 2:
					c.Ops = append(c.Ops, eng.O("GUpdate", g.g(), "managed", g.g()))
				default:
					c.Ops = append(c.Ops, g.op("GRule"))
				}
			}
			g.weights("GUpdate", 8, "GUM", 6, "GRule", 8, "MAdd", 10, "MDel", 6, "GKV", 3, "GDestroy", 2, "EUpdate", 2, "EUM", 2, "ELock", 2, "Cap", 2, "GCreate", 1, "EDestroy", 1)
			for i := 8 + r.Intn(16); i > 0; i-- {
				o := g.wellFormed(g.kind())
				if (o.K == "MAdd" || o.K == "MDel") && r.Chance(1, 3) {
					o.S = append(o.S, eng.S(g.g()), eng.S(g.g()))
				}
				switch r.Intn(8) {
				case 0:
					c.Ops = append(c.Ops, o)
				case 1:
					c.Ops = append(c.Ops, asOp(r.Pick("none", "garbage", "invalid", "truncated"), g.e(), nil, false, o))
				case 2:
					c.Ops = append(c.Ops, asOp("valid", g.requestor(), g.caps(), false, o))
				default:
					c.Ops = append(c.Ops, asOp("valid", g.e(), nil, r.Chance(1, 20), o))
				}
			}
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			acc, ref := false, false
			for _, o := range c.Ops {
				if o.K != "As" {
					h.do(o, h.w.Root())
					continue
				}
				h.doAs(o)
				if h.lastAllowed && len(o.S) == 2 {
					acc = true
				} else if !h.lastAllowed {
					ref = true
				}
			}
			if acc && ref {
				t.NonTrivial()
			}
		},
	})
	eng.Register(&eng.Suite{
		Prop: "C07", Name: "token-capabilities", Quick: 5000, Deep: 120000,
		Rule:  "a token was issued to an entity that holds a capability only through a group",
		Scope: []string{"token", "crash", "code:GetToken"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 2+r.Intn(3))
			c := &eng.Case{Cfg: backendFor(r, 1, 1)}
			c.Ops = g.start()
			if r.Chance(1, 12) { // nearly everything
				dir, n := r.Intn(3), 0
				skip := r.Intn(12)
				for _, i := range r.Perm(12) {
					if i == skip || i == 0 && r.Chance(1, 2) {
						continue
					}
					to, direct := g.ents[0], int64(1)
					if dir == 0 || dir == 1 && n%2 == 0 {
						to, direct = g.grps[0], 0
					}
					n++
					c.Ops = append(c.Ops, eng.O("Cap", to, "ADD").WithN(direct, int64(allCaps[i])))
				}
				c.Ops = append(c.Ops, eng.O("MAdd", g.ents[0], g.grps[0]))
			}
			g.weights("Cap", 20, "GRule", 12, "MAdd", 14, "MDel", 4, "GDestroy", 2, "GCreate", 3, "EDestroy", 1, "ECreate", 2, "EUpdate", 1, "GUpdate", 2, "Restart", 1)
			for i := 8 + r.Intn(18); i > 0; i-- {
				o := g.op(g.kind())
				if (o.K == "EUpdate" || o.K == "GUpdate") && r.Chance(1, 2) {
					o.N = []int64{int64(r.Intn(512))}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			for _, o := range c.Ops {
				h.do(o, h.w.Root())
				var ids []string
				for id := range h.m.ents {
					ids = append(ids, id)
				}
				sort.Strings(ids)
				for _, id := range ids {
					e := h.m.ents[id]
					if e.locked || e.secret == "" || !e.secretOK {
						continue
					}
					po := eng.O("GetToken", id, e.secret)
					if ms := h.exec(po, h.plan(po), ""); len(ms) > 0 {
						h.judge(po, ms)
					}
					if len(h.m.effCaps(id)) > len(e.caps) {
						t.NonTrivial()
					}
				}
			}
		},
	})
	eng.Register(&eng.Suite{
		Prop: "C10", Name: "read-only", Quick: 3000, Deep: 80000,
		Rule:  "at least three well-formed changes were asked of a read-only server",
		Scope: []string{"readonly", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 2, 2)
			c := &eng.Case{Cfg: backendFor(r, 1, 0)}
			c.Ops = g.start()
			g.weights("ECreate", 4, "EDestroy", 4, "ELock", 4, "EUnlock", 4, "ESecret", 6, "EUpdate", 4, "EUM", 4, "GUM", 4, "EKV", 4, "GKV", 4, "EKey", 6, "GCreate", 4, "GDestroy", 4, "GUpdate", 4, "GRule", 4, "MAdd", 4, "MDel", 4, "Cap", 4)
			for i := 10 + r.Intn(14); i > 0; i-- {
				o := g.wellFormed(g.kind())
				if r.Chance(1, 3) {
					c.Ops = append(c.Ops, o)
					continue
				}
				caps := []types.Capability{types.Capability_GLOBAL_ROOT}
				if r.Chance(1, 3) {
					caps = g.caps()
				}
				id := g.e()
				if o.K == "EKey" || o.K == "ESecret" {
					if r.Chance(1, 2) {
						id = o.Str(0)
					}
				}
				c.Ops = append(c.Ops, asOp("valid", id, caps, true, o))
			}
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			n := 0
			for _, o := range c.Ops {
				if o.K == "As" {
					h.doAs(o)
					n++
				} else {
					h.do(o, h.w.Root())
				}
			}
			if n >= 3 || len(c.Ops) == 20 {
				t.NonTrivial()
			}
		},
		Enum: authMatrix(true),
	})
}

var _ = proto.String
