//go:build go1.22

package core

import (
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// mismatch is one difference between the server and the model.
type mismatch struct{ aspect, msg string }

// hist runs a history of requests against a server and the model.
type hist struct {
	t *eng.T
	w *World
	m *model
	// adopted counts the times the model had to be resynchronised after a
	// difference that is another property's business.
	adopted int
	okOps   int
	badOps  int
	// noAuth leaves authentication out of the state comparison.
	secretSeen map[string]bool
	// noise, where set, seeds what requests say besides what counts.
	noise string
	// only, if set, names the operations whose outcome this property is
	// about; differences after others are somebody else's.
	only map[string]bool
	// lastAllowed: the last request made with other credentials was one
	// the requestor is entitled to.
	lastAllowed bool
}

func newHist(t *eng.T, c *eng.Case) *hist {
	b, cr := c.Cfg["backend"], c.Cfg["crypto"]
	if b == "" {
		b = "memory"
	}
	if cr == "" {
		cr = "nocrypto"
	}
	return &hist{t: t, w: NewWorld(t, b, cr), m: newModel(), secretSeen: map[string]bool{}, noise: c.Cfg["noise"]}
}

// plan is what one operation asks for and what the model expects of it.
type plan struct {
	method string
	req    proto.Message
	read   bool
	need   types.Capability
	self   string // entity that may do this without the capability
	deleg  string // group whose managers may do this without the capability
	want   []codes.Code
	anyErr bool // any error code is as good as another
	free   bool // success or failure both acceptable
	mutate func()
	check  func(resp proto.Message) *mismatch
}

func cap32(n int64) types.Capability { return types.Capability(int32(n)) }

var allCaps = []types.Capability{0, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 23}

func (p *plan) ok(c codes.Code) bool {
	if p.free {
		return true
	}
	if p.anyErr {
		return c != codes.OK
	}
	for _, w := range p.want {
		if w == c {
			return true
		}
	}
	return false
}

func (p *plan) wantStr() string {
	if p.free {
		return "anything"
	}
	if p.anyErr {
		return "an error"
	}
	return fmt.Sprint(p.want)
}

func action(s string) *pb.Action {
	v, ok := pb.Action_value[s]
	if !ok {
		return nil
	}
	a := pb.Action(v)
	return &a
}

func ruleAct(s string) *pb.RuleAction {
	v, ok := pb.RuleAction_value[s]
	if !ok {
		return nil
	}
	a := pb.RuleAction(v)
	return &a
}

// plan translates an operation.
func (h *hist) plan(o eng.Op) *plan {
	m := h.m
	a0, a1, a2 := o.Str(0), o.Str(1), o.Str(2)
	switch o.K {
	case "EUM", "GUM", "EKey", "Cap":
		if action(a1) == nil {
			// Not set on the wire, so the default applies.
			a1 = (&pb.KVRequest{}).GetAction().String()
		}
	case "GRule":
		if ruleAct(a2) == nil {
			a2 = (&pb.GroupRulesRequest{}).GetRuleAction().String()
		}
	}
	ok := []codes.Code{codes.OK}
	p := &plan{want: ok}
	missingEnt := func(id string) bool {
		if m.ents[id] != nil {
			return false
		}
		if h.hostile(id) {
			p.want, p.anyErr = nil, true
		} else {
			p.want = []codes.Code{codes.NotFound}
		}
		return true
	}
	missingGrp := func(id string) bool {
		if m.grps[id] != nil {
			return false
		}
		if h.hostile(id) {
			p.want, p.anyErr = nil, true
		} else {
			p.want = []codes.Code{codes.NotFound}
		}
		return true
	}
	switch o.K {
	case "ECreate":
		num := int32(o.Int(0))
		e := ent(a0)
		e.Number = proto.Int32(num)
		e.Secret = str(a1)
		p.method, p.req, p.need = "EntityCreate", &pb.EntityRequest{Entity: e}, types.Capability_CREATE_ENTITY
		switch {
		case m.ents[a0] != nil:
			p.want = []codes.Code{codes.AlreadyExists}
		case !validName(a0):
			p.anyErr = true
		default:
			if num == -1 {
				n, fits := m.nextEnt()
				if !fits {
					p.anyErr = true
					break
				}
				num = n
			}
			if h.hostile(a0) || (a1 == "return-error" && h.w.cryptoN == "nocrypto") || len(a1) > 72 {
				p.free = true
			}
			p.mutate = func() {
				x := newMent()
				x.num, x.secret, x.secretOK = num, a1, true
				m.ents[a0] = x
			}
		}
	case "EDestroy":
		p.method, p.req, p.need = "EntityDestroy", entReq(a0), types.Capability_DESTROY_ENTITY
		if !missingEnt(a0) {
			p.mutate = func() { delete(m.ents, a0) }
		}
	case "ELock", "EUnlock":
		p.method, p.req, p.need = "EntityLock", entReq(a0), types.Capability_LOCK_ENTITY
		if o.K == "EUnlock" {
			p.method, p.need = "EntityUnlock", types.Capability_UNLOCK_ENTITY
		}
		if !missingEnt(a0) {
			p.mutate = func() { m.ents[a0].locked = o.K == "ELock" }
		}
	case "ESecret":
		p.method, p.need = "AuthChangeSecret", types.Capability_CHANGE_ENTITY_SECRET
		p.req = &pb.AuthRequest{Entity: ent(a0), Secret: str(a1)}
		switch {
		case m.ents[a0] == nil:
			p.anyErr = true
		case (a1 == "return-error" && h.w.cryptoN == "nocrypto") || len(a1) > 72 || a1 == "":
			p.free = true
			fallthrough
		default:
			p.mutate = func() { m.ents[a0].secret, m.ents[a0].secretOK = a1, true }
		}
	case "EUpdate":
		d := ent(a0)
		d.Meta = &types.EntityMeta{}
		for i := 1; i+1 < len(o.S); i += 2 {
			typedSet(d.Meta, o.Str(i), o.Str(i+1))
		}
		evilEntity(d, o.Int(0))
		p.method, p.req, p.need = "EntityUpdate", &pb.EntityRequest{Data: d}, types.Capability_MODIFY_ENTITY_META
		if !missingEnt(a0) {
			p.mutate = func() {
				for i := 1; i+1 < len(o.S); i += 2 {
					m.ents[a0].typed[o.Str(i)] = o.Str(i + 1)
				}
			}
		}
	case "EUM", "GUM":
		p.req = &pb.KVRequest{Target: str(a0), Action: action(a1), Key: str(a2), Value: str(o.Str(3))}
		p.read = a1 == "READ"
		bad := a1 != "READ" && a1 != "UPSERT" && a1 != "CLEAREXACT" && a1 != "CLEARFUZZY"
		var get func() map[string]string
		var miss bool
		if o.K == "EUM" {
			p.method, p.need = "EntityUM", types.Capability_MODIFY_ENTITY_META
			miss = missingEnt(a0)
			get = func() map[string]string { return m.ents[a0].um }
		} else {
			p.method, p.need, p.deleg = "GroupUM", types.Capability_MODIFY_GROUP_META, a0
			miss = missingGrp(a0)
			get = func() map[string]string { return m.grps[a0].um }
		}
		if bad {
			p.want, p.anyErr = []codes.Code{codes.InvalidArgument}, false
			break
		}
		if miss {
			break
		}
		if p.read {
			want := umRead(get(), a2)
			p.check = func(r proto.Message) *mismatch {
				if got := r.(*pb.ListOfStrings).GetStrings(); !same(got, want) {
					return &mismatch{"um:read", fmt.Sprintf("reading key %q of %q yields %q, want %q", a2, a0, got, want)}
				}
				return nil
			}
		} else {
			p.mutate = func() { umWrite(get(), a1, a2, o.Str(3)) }
		}
	case "EKV", "GKV":
		p.req = &pb.KV2Request{Target: str(a0), Data: mkKV(a2, strs(o.S, 3))}
		var miss bool
		var kv *[]mkv
		pre := "Entity"
		p.need = types.Capability_MODIFY_ENTITY_META
		if o.K == "GKV" {
			pre, p.need = "Group", types.Capability_MODIFY_GROUP_META
			if miss = missingGrp(a0); !miss {
				kv = &m.grps[a0].kv
			}
		} else if miss = missingEnt(a0); !miss {
			kv = &m.ents[a0].kv
		}
		switch a1 {
		case "get":
			p.method, p.read = pre+"KVGet", true
		case "add":
			p.method = pre + "KVAdd"
		case "del":
			p.method = pre + "KVDel"
		case "replace":
			p.method = pre + "KVReplace"
		}
		if miss {
			break
		}
		i := kvFind(*kv, a2)
		vals := strs(o.S, 3)
		switch a1 {
		case "get":
			var want []mkv
			if a2 == "*" {
				want = append(want, *kv...)
			} else if i >= 0 {
				want = []mkv{(*kv)[i]}
			} else {
				p.want = []codes.Code{codes.NotFound}
				break
			}
			p.check = func(r proto.Message) *mismatch {
				got := kvStr(kvPB(r.(*pb.ListOfKVData).GetKVData()))
				if !same(got, kvStr(want)) {
					return &mismatch{"kv:read", fmt.Sprintf("reading key %q of %q yields %s, want %s", a2, a0, got, kvStr(want))}
				}
				return nil
			}
		case "add":
			if i >= 0 {
				p.anyErr = true
			} else {
				p.mutate = func() { *kv = append(*kv, mkv{a2, vals}) }
			}
		case "del":
			if i < 0 {
				p.anyErr = true
			} else {
				p.mutate = func() { *kv = append(append([]mkv{}, (*kv)[:i]...), (*kv)[i+1:]...) }
			}
		case "replace":
			if i < 0 {
				p.anyErr = true
			} else {
				p.mutate = func() {
					*kv = append(append(append([]mkv{}, (*kv)[:i]...), (*kv)[i+1:]...), mkv{a2, vals})
				}
			}
		}
	case "EKey":
		p.method, p.need, p.self = "EntityKeys", types.Capability_MODIFY_ENTITY_KEYS, a0
		p.req = &pb.KVRequest{Target: str(a0), Action: action(a1), Key: str(a2), Value: str(o.Str(3))}
		p.read = a1 == "READ"
		full := strings.ToUpper(a2) + ":" + o.Str(3)
		if a1 != "READ" && a1 != "ADD" && a1 != "DROP" {
			p.want = []codes.Code{codes.InvalidArgument}
			break
		}
		if missingEnt(a0) {
			break
		}
		switch a1 {
		case "ADD":
			p.mutate = func() { m.ents[a0].keys[full] = true }
		case "DROP":
			p.mutate = func() {
				// No type or no content: any.
				typ := strings.ToUpper(a2)
				for k := range m.ents[a0].keys {
					i := strings.Index(k, ":")
					if (typ == "" || typ == k[:i]) && (o.Str(3) == "" || o.Str(3) == k[i+1:]) {
						delete(m.ents[a0].keys, k)
					}
				}
			}
		default:
			want := setStr(m.ents[a0].keys)
			p.check = func(r proto.Message) *mismatch {
				if got := r.(*pb.ListOfStrings).GetStrings(); !same(got, want) {
					return &mismatch{"keys:read", fmt.Sprintf("keys of %q read as %q, want %q", a0, got, want)}
				}
				return nil
			}
		}
	case "GCreate":
		num := int32(o.Int(0))
		g := grp(a0)
		g.Number, g.DisplayName, g.ManagedBy = proto.Int32(num), str(a1), str(a2)
		p.method, p.req, p.need = "GroupCreate", &pb.GroupRequest{Group: g}, types.Capability_CREATE_GROUP
		switch {
		case m.grps[a0] != nil:
			p.want = []codes.Code{codes.AlreadyExists}
		case !validName(a0):
			p.anyErr = true
		case a2 != "" && a2 != a0 && m.grps[a2] == nil:
			p.anyErr = true
		default:
			if num == -1 {
				n, fits := m.nextGrp()
				if !fits {
					p.anyErr = true
					break
				}
				num = n
			}
			p.free = h.hostile(a0)
			p.mutate = func() {
				x := newMgrp()
				x.num, x.display, x.managed = num, a1, a2
				m.grps[a0] = x
			}
		}
	case "GDestroy":
		p.method, p.req, p.need = "GroupDestroy", grpReq(a0), types.Capability_DESTROY_GROUP
		if !missingGrp(a0) {
			p.mutate = func() { delete(m.grps, a0) }
		}
	case "GUpdate":
		g := grp(a0)
		for i := 1; i+1 < len(o.S); i += 2 {
			if o.Str(i) == "display" {
				g.DisplayName = str(o.Str(i + 1))
			} else {
				g.ManagedBy = str(o.Str(i + 1))
			}
		}
		evilGroup(g, o.Int(0))
		p.method, p.req, p.need, p.deleg = "GroupUpdate", &pb.GroupRequest{Group: g}, types.Capability_MODIFY_GROUP_META, a0
		if !missingGrp(a0) {
			p.mutate = func() {
				if g.DisplayName != nil {
					m.grps[a0].display = *g.DisplayName
				}
				if g.ManagedBy != nil {
					m.grps[a0].managed = *g.ManagedBy
				}
			}
		}
	case "GRule":
		p.method, p.need, p.deleg = "GroupUpdateRules", types.Capability_MODIFY_GROUP_META, a0
		p.req = &pb.GroupRulesRequest{Group: grp(a0), Target: grp(a1), RuleAction: ruleAct(a2)}
		if missingGrp(a0) {
			break
		}
		switch a2 {
		case "REMOVE_RULE":
			p.mutate = func() { delete(m.grps[a0].rules, a1) }
		case "INCLUDE", "EXCLUDE":
			if m.grps[a1] == nil || a0 == a1 || m.grps[a0].rules[a1] != "" {
				p.anyErr = true
				break
			}
			reach, missing := m.closure(a1)
			if reach[a0] {
				p.anyErr = true
				break
			}
			p.free = missing
			p.mutate = func() { m.grps[a0].rules[a1] = a2 }
		}
	case "MAdd", "MDel":
		gs := strs(o.S, 1)
		e := ent(a0)
		e.Meta = &types.EntityMeta{Groups: gs}
		p.method, p.need = "GroupAddMember", types.Capability_MODIFY_GROUP_MEMBERS
		if o.K == "MDel" {
			p.method = "GroupDelMember"
		}
		if len(gs) == 1 {
			p.deleg = gs[0]
		}
		p.req = &pb.EntityRequest{Entity: e}
		if len(gs) == 0 {
			p.free = true
			break
		}
		if m.ents[a0] == nil {
			p.anyErr = true
			break
		}
		for _, g := range gs {
			if m.grps[g] == nil {
				p.free = true
			}
		}
		p.mutate = func() {
			for _, g := range gs {
				if g == "" {
					continue
				}
				if o.K == "MAdd" {
					m.ents[a0].groups[g] = true
				} else {
					delete(m.ents[a0].groups, g)
				}
			}
		}
	case "Cap":
		c := cap32(o.Int(1))
		direct := o.Int(0) != 0
		p.method, p.need = "SystemCapabilities", types.Capability_GLOBAL_ROOT
		p.req = &pb.CapabilityRequest{Capability: &c, Direct: &direct, Target: str(a0), Action: action(a1)}
		if a1 != "ADD" && a1 != "DROP" || a0 == "" {
			p.want = []codes.Code{codes.InvalidArgument}
			break
		}
		if _, known := types.Capability_name[int32(c)]; !known {
			// A number that means nothing: nobody relies on either.
			p.free = true
		}
		if direct && m.ents[a0] == nil || !direct && m.grps[a0] == nil {
			p.free = false
			p.anyErr = true
			break
		}
		p.mutate = func() {
			s := map[types.Capability]bool{}
			if direct {
				s = m.ents[a0].caps
			} else {
				s = m.grps[a0].caps
			}
			if a1 == "ADD" {
				s[c] = true
			} else {
				delete(s, c)
			}
		}
	case "Auth":
		p.method, p.read = "AuthEntity", true
		p.req = &pb.AuthRequest{Entity: ent(a0), Secret: str(a1)}
		h.planAuth(p, a0, a1)
	case "GetToken":
		p.method, p.read = "AuthGetToken", true
		p.req = &pb.AuthRequest{Entity: ent(a0), Secret: str(a1)}
		h.planAuth(p, a0, a1)
		if a0 == "token-issue-error" || a0 == "invalid-token" {
			p.free = true
		}
		want := m.effCaps(a0)
		p.check = func(r proto.Message) *mismatch {
			s := r.(*pb.AuthResult).GetToken()
			c, err := h.w.tok.Validate(s)
			if err != nil {
				return &mismatch{"token:valid", fmt.Sprintf("the token issued to %q does not validate: %v", a0, err)}
			}
			if c.EntityID != a0 {
				return &mismatch{"token:id", fmt.Sprintf("the token issued to %q names %q", a0, c.EntityID)}
			}
			if got := capList(c.Capabilities); !same(got, want) {
				return &mismatch{"token:caps", fmt.Sprintf("the token issued to %q carries %v, want %v", a0, got, want)}
			}
			return nil
		}
	default:
		panic("unknown op " + o.K)
	}
	if h.noise != "" {
		h.t.Class("noise")
		h.clutter(p.req, rand.New(rand.NewSource(hashOf(h.noise, opStr(o)))))
	}
	return p
}

func hashOf(l ...string) int64 {
	f := fnv.New64a()
	for _, x := range l {
		io.WriteString(f, x+"\x00")
	}
	return int64(f.Sum64())
}

// clutter fills in what a request's type has room for but the request does
// not say anything with: it must not make a difference.
func (h *hist) clutter(req proto.Message, r *rand.Rand) {
	var ids, gns []string
	for id := range h.m.ents {
		ids = append(ids, id)
	}
	for n := range h.m.grps {
		gns = append(gns, n)
	}
	sort.Strings(ids)
	sort.Strings(gns)
	ids, gns = append(ids, "root", "x", ""), append(gns, "x", "")
	id := func() string { return ids[r.Intn(len(ids))] }
	gn := func() string { return gns[r.Intn(len(gns))] }
	secret := func(id string) string {
		if me := h.m.ents[id]; me != nil && r.Intn(3) > 0 {
			return me.secret
		}
		return "s1"
	}
	// fill adds to an entity, of which keep is what counts.
	fill := func(e *types.Entity, keep string) {
		if e == nil {
			return
		}
		if !strings.Contains(keep, "N") && r.Intn(3) == 0 {
			e.Number = proto.Int32(int32(r.Intn(6)))
		}
		if !strings.Contains(keep, "S") && r.Intn(2) == 0 {
			e.Secret = str(secret(e.GetID()))
		}
		if !strings.Contains(keep, "M") && r.Intn(2) == 0 {
			if e.Meta == nil {
				e.Meta = &types.EntityMeta{}
			}
			if !strings.Contains(keep, "G") {
				evilEntity(&types.Entity{Meta: e.Meta}, 2)
			}
			bits := int64(r.Intn(64))
			evilEntity(&types.Entity{Meta: e.Meta}, bits&^2)
			if r.Intn(3) == 0 {
				e.Meta.Locked = boolp(false)
			}
		}
	}
	fillGroup := func(g *types.Group, keep string) {
		if g == nil {
			return
		}
		evilGroup(g, int64(r.Intn(32))&^16)
		if !strings.Contains(keep, "M") && r.Intn(2) == 0 {
			g.ManagedBy, g.DisplayName = str(gn()), str("clutter")
		}
	}
	other := func() *types.Entity {
		if r.Intn(2) == 0 {
			return nil
		}
		e := ent(id())
		fill(e, "")
		return e
	}
	otherGroup := func() *types.Group {
		if r.Intn(2) == 0 {
			return nil
		}
		g := grp(gn())
		fillGroup(g, "")
		return g
	}
	switch x := req.(type) {
	case *pb.AuthRequest:
		switch r.Intn(5) {
		case 0:
			x.Token = str(id())
		case 1:
			x.Token = str(h.w.Root())
		case 2:
			x.Token = str("")
		}
		// (The entity's own secret is how a change of it is authorised.)
		fill(x.Entity, "S")
		if x.Secret != nil && x.Entity != nil && r.Intn(2) == 0 {
			x.Entity.Secret = str(secret(x.Entity.GetID()))
		}
	case *pb.EntityRequest:
		switch {
		case x.Data != nil && x.Entity == nil:
			x.Entity = other()
		case x.Entity != nil && x.Entity.Secret != nil: // a creation
			x.Data = other()
		case x.Entity != nil && x.Entity.Meta != nil: // memberships
			fill(x.Entity, "G")
			x.Data = other()
		default:
			fill(x.Entity, "")
			x.Data = other()
		}
	case *pb.GroupRequest:
		x.Data = otherGroup()
		if x.Group != nil && x.Group.Number == nil && x.Group.DisplayName == nil && x.Group.ManagedBy == nil && len(x.Group.Capabilities)+len(x.Group.Expansions)+len(x.Group.UntypedMeta)+len(x.Group.KV) == 0 && r.Intn(2) == 0 {
			x.Group.Number = proto.Int32(int32(r.Intn(6)))
			evilGroup(x.Group, int64(r.Intn(16)))
		}
	case *pb.GroupRulesRequest:
		fillGroup(x.Group, "")
		fillGroup(x.Target, "")
	case *pb.KVRequest:
		if x.GetAction() == pb.Action_READ && r.Intn(2) == 0 {
			x.Value = str("clutter")
		}
	}
}

func (h *hist) planAuth(p *plan, id, secret string) {
	e := h.m.ents[id]
	switch {
	case e == nil || e.locked || secret == "":
		p.anyErr = true
	case !e.secretOK:
		p.free = true
	case e.secret != secret:
		p.anyErr = true
	}
}

func strs(s []eng.S, from int) []string {
	var out []string
	for i := from; i < len(s); i++ {
		out = append(out, string(s[i]))
	}
	return out
}

// failFirst raises the first mismatch that counts for this property, or
// resynchronises the model.
func (h *hist) judge(o eng.Op, ms []mismatch) {
	if len(ms) == 0 {
		return
	}
	for _, x := range ms {
		if h.t.InScope(x.aspect) && (h.only == nil || h.only[o.K]) {
			h.t.Failf(x.aspect, "after %s: %s", opStr(o), x.msg)
		}
	}
	h.adopted++
	h.t.Class("foreign-mismatch")
	h.adopt()
}

func opStr(o eng.Op) string {
	var p []string
	for _, s := range o.S {
		p = append(p, fmt.Sprintf("%q", string(s)))
	}
	for _, n := range o.N {
		p = append(p, fmt.Sprint(n))
	}
	return o.K + "(" + strings.Join(p, ", ") + ")"
}

// do performs one operation with the given token and compares everything.
func (h *hist) do(o eng.Op, tok string) {
	if o.K == "Restart" {
		h.t.Tracef("restart")
		h.w.Restart()
		h.judge(o, h.compare("restart"))
		return
	}
	if o.K == "Many" {
		h.many(o, tok)
		return
	}
	p := h.plan(o)
	ms := h.exec(o, p, tok)
	ms = append(ms, h.compare("")...)
	h.judge(o, ms)
}

// spread lists the requests a "Many" stands for: more of something than a
// handful, which is all that operations drawn one by one arrive at.
func spread(o eng.Op) []eng.Op {
	var ops []eng.Op
	n, t := int(o.Int(0)), o.Str(1)
	for i := 0; i < n && i < 2000; i++ {
		m, nm := fmt.Sprintf("m%d", i), fmt.Sprintf("t%d", i)
		k, v := fmt.Sprintf("key%d", i), fmt.Sprintf("value %d", i)
		switch o.Str(0) {
		case "ents": // many entities, members of one group
			ops = append(ops, eng.O("ECreate", m, "s1").WithN(-1), eng.O("MAdd", m, t))
		case "grps": // many groups with one member
			ops = append(ops, eng.O("GCreate", nm, v, "").WithN(-1), eng.O("MAdd", t, nm))
		case "fan": // one group including many
			ops = append(ops, eng.O("GCreate", nm, v, "").WithN(-1), eng.O("GRule", t, nm, "INCLUDE"))
		case "except": // one group excluding many, of which each has a member of it
			ops = append(ops, eng.O("GCreate", nm, v, "").WithN(-1), eng.O("GRule", t, nm, "EXCLUDE"), eng.O("ECreate", m, "s1").WithN(-1), eng.O("MAdd", m, t), eng.O("MAdd", m, nm))
		case "users": // many groups including or excluding one
			ops = append(ops, eng.O("GCreate", nm, v, "").WithN(-1), eng.O("GRule", nm, t, []string{"INCLUDE", "EXCLUDE"}[i%3/2]))
		case "chain": // a long chain of rules
			ops = append(ops, eng.O("GCreate", nm, v, t).WithN(-1), eng.O("GRule", t, nm, "INCLUDE"))
			if i > 0 {
				ops[len(ops)-1].S[0] = eng.S(fmt.Sprintf("t%d", i-1))
			}
		case "eum":
			ops = append(ops, eng.O("EUM", t, "UPSERT", k, v))
		case "gum":
			ops = append(ops, eng.O("GUM", t, "UPSERT", k, v))
		case "ekv":
			ops = append(ops, eng.O("EKV", t, "add", k, v, "more"))
		case "gkv":
			ops = append(ops, eng.O("GKV", t, "add", k, v, "more"))
		case "keys":
			ops = append(ops, eng.O("EKey", t, "ADD", "SSH", v))
		}
	}
	return ops
}

// many performs the requests a "Many" stands for, looking at the whole
// state once.
func (h *hist) many(o eng.Op, tok string) {
	h.t.Class("many:" + o.Str(0))
	last := o
	for _, x := range spread(o) {
		if h.only[x.K] {
			last = x
		}
		if ms := h.exec(x, h.plan(x), tok); len(ms) > 0 {
			h.judge(x, ms)
		}
	}
	h.judge(last, h.compare(""))
}

// exec performs a plan whose requestor is allowed to.
func (h *hist) exec(o eng.Op, p *plan, tok string) []mismatch {
	resp, code := h.w.Call(p.method, tok, p.req)
	h.t.Tracef("%s -> %v", opStr(o), code)
	var ms []mismatch
	if !p.ok(code) {
		ms = append(ms, mismatch{"code:" + o.K, fmt.Sprintf("the request ends with %v, want %s", code, p.wantStr())})
	}
	if code == codes.OK {
		h.okOps++
		if p.mutate != nil {
			p.mutate()
			h.t.Class("ok:" + o.K)
		}
		if p.check != nil && p.ok(code) {
			if x := p.check(resp); x != nil {
				ms = append(ms, *x)
			}
		}
	} else {
		h.badOps++
		h.t.Class("refused:" + o.K)
	}
	return ms
}

// compare compares the whole observable state with the model.
func (h *hist) compare(pre string) []mismatch {
	var ms []mismatch
	add := func(aspect, f string, a ...interface{}) {
		x := mismatch{aspect, fmt.Sprintf(f, a...)}
		if pre != "" {
			ms = append(ms, mismatch{pre, x.msg})
		}
		ms = append(ms, x)
	}
	// The set of objects, straight from the store.
	ids, gns, strays := h.w.objects()
	for id := range h.m.ents {
		if !ids[id] {
			add("state:exists", "entity %q is gone from the store", id)
		}
	}
	for id := range ids {
		if h.m.ents[id] == nil {
			add("state:exists", "entity %q appeared in the store", id)
		}
	}
	for n := range h.m.grps {
		if !gns[n] {
			add("state:exists", "group %q is gone from the store", n)
		}
	}
	for n := range gns {
		if h.m.grps[n] == nil {
			add("state:exists", "group %q appeared in the store", n)
		}
	}
	for _, s := range strays {
		add("state:stray", "the store holds something that is no entity or group: %q", s)
	}
	for id, me := range h.m.ents {
		r, code := h.w.Call("EntityInfo", "", entReq(id))
		if code != codes.OK {
			add("state:exists", "entity %q cannot be fetched: %v", id, code)
			continue
		}
		l := r.(*pb.ListOfEntities).GetEntities()
		if len(l) != 1 || l[0].GetID() != id {
			add("state:id", "asking for entity %q yields %v", id, l)
			continue
		}
		h.cmpEnt(id, me, l[0], add)
		r, code = h.w.Call("EntityGroups", "", entReq(id))
		if code != codes.OK {
			add("membership:read", "groups of %q cannot be fetched: %v", id, code)
			continue
		}
		var got []string
		for _, g := range r.(*pb.ListOfGroups).GetGroups() {
			got = append(got, g.GetName())
		}
		if want := h.m.memberships(id); !same(got, want) {
			add("membership", "groups of entity %q: got %q, want %q", id, sorted(got), want)
		}
	}
	for n, mg := range h.m.grps {
		r, code := h.w.Call("GroupInfo", "", grpReq(n))
		if code != codes.OK {
			add("state:exists", "group %q cannot be fetched: %v", n, code)
			continue
		}
		l := r.(*pb.ListOfGroups).GetGroups()
		if len(l) != 1 || l[0].GetName() != n {
			add("state:id", "asking for group %q yields %v", n, l)
			continue
		}
		h.cmpGrp(n, mg, l[0], add)
		r, code = h.w.Call("GroupMembers", "", grpReq(n))
		if code != codes.OK {
			add("membership:read", "members of %q cannot be fetched: %v", n, code)
			continue
		}
		var got []string
		for _, e := range r.(*pb.ListOfEntities).GetEntities() {
			got = append(got, e.GetID())
		}
		if want := h.m.members(n); !same(got, want) {
			add("membership", "members of group %q: got %q, want %q", n, sorted(got), want)
		}
	}
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].aspect != ms[j].aspect {
			return ms[i].aspect < ms[j].aspect
		}
		return ms[i].msg < ms[j].msg
	})
	return ms
}

// evilEntity adds fields to an update which an update must not change.
func evilEntity(d *types.Entity, bits int64) {
	t := true
	n := int32(99)
	if bits&1 != 0 {
		d.Meta.Capabilities = []types.Capability{types.Capability_GLOBAL_ROOT}
	}
	if bits&2 != 0 {
		d.Meta.Groups = []string{"a", "b", "c", "dev"}
	}
	if bits&4 != 0 {
		d.Meta.Keys = []string{"SSH:evil"}
	}
	if bits&8 != 0 {
		d.Meta.UntypedMeta = []string{"k:evil"}
	}
	if bits&16 != 0 {
		d.Meta.KV = []*types.KVData{mkKV("k", []string{"evil"})}
	}
	if bits&32 != 0 {
		d.Meta.Locked = &t
	}
	if bits&64 != 0 {
		d.Number = &n
	}
	if bits&128 != 0 {
		d.Secret = str("evil")
	}
	if bits&256 != 0 {
		f := false
		d.Meta.Locked = &f
	}
}

// evilGroup does the same for groups.
func evilGroup(g *types.Group, bits int64) {
	n := int32(99)
	if bits&1 != 0 {
		g.Capabilities = []types.Capability{types.Capability_GLOBAL_ROOT}
	}
	if bits&2 != 0 {
		g.Expansions = []string{"INCLUDE:a", "EXCLUDE:b", "INCLUDE:" + g.GetName()}
	}
	if bits&4 != 0 {
		g.UntypedMeta = []string{"k:evil"}
	}
	if bits&8 != 0 {
		g.KV = []*types.KVData{mkKV("k", []string{"evil"})}
	}
	if bits&16 != 0 {
		g.Number = &n
	}
}

// objects lists the objects in the raw store.
func (w *World) objects() (ents, grps map[string]bool, strays []string) {
	if w.list != nil {
		return w.list()
	}
	ents, grps = map[string]bool{}, map[string]bool{}
	w.kv.mu.Lock()
	keys := map[string]bool{}
	for k := range w.kv.shadow {
		keys[k] = true
	}
	w.kv.mu.Unlock()
	for _, p := range []string{"/entities/*", "/groups/*", "/*", "/*/*"} {
		ks, _ := w.kv.KVStore.Keys(p)
		for _, k := range ks {
			keys[k] = true
		}
	}
	for k := range keys {
		if _, err := w.kv.KVStore.Get(k); err != nil {
			continue
		}
		switch {
		case strings.HasPrefix(k, "/entities/") && validName(k[10:]):
			ents[k[10:]] = true
		case strings.HasPrefix(k, "/groups/") && validName(k[8:]):
			grps[k[8:]] = true
		default:
			strays = append(strays, k)
		}
	}
	sort.Strings(strays)
	return
}

func cmpList(add func(string, string, ...interface{}), aspect, what string, got, want []string) {
	if !same(got, want) {
		add(aspect, "%s: got %q, want %q", what, sorted(got), sorted(want))
	}
}

func (h *hist) cmpEnt(id string, me *ment, e *types.Entity, add func(string, string, ...interface{})) {
	mt := e.GetMeta()
	if e.GetNumber() != me.num {
		add("state:number", "number of entity %q: got %d, want %d", id, e.GetNumber(), me.num)
	}
	if mt.GetLocked() != me.locked {
		add("state:locked", "lock of entity %q: got %v, want %v", id, mt.GetLocked(), me.locked)
	}
	for _, f := range typedFields {
		got := ""
		if p := typedGet(mt, f); p != nil {
			got = *p
		}
		if got != me.typed[f] {
			add("state:typed", "%s of entity %q: got %q, want %q", f, id, got, me.typed[f])
		}
	}
	cmpList(add, "state:groups", fmt.Sprintf("direct groups of entity %q", id), mt.GetGroups(), setStr(me.groups))
	cmpList(add, "state:caps", fmt.Sprintf("capabilities of entity %q", id), capList(mt.GetCapabilities()), capStr(me.caps))
	cmpList(add, "state:keys", fmt.Sprintf("keys of entity %q", id), mt.GetKeys(), setStr(me.keys))
	cmpList(add, "state:um", fmt.Sprintf("untyped metadata of entity %q", id), mt.GetUntypedMeta(), umStr(me.um))
	cmpList(add, "state:kv", fmt.Sprintf("key/value data of entity %q", id), kvStr(kvPB(mt.GetKV())), kvStr(me.kv))
}

func (h *hist) cmpGrp(n string, mg *mgrp, g *types.Group, add func(string, string, ...interface{})) {
	if g.GetNumber() != mg.num {
		add("state:gnumber", "number of group %q: got %d, want %d", n, g.GetNumber(), mg.num)
	}
	if g.GetDisplayName() != mg.display {
		add("state:gdisplay", "display name of group %q: got %q, want %q", n, g.GetDisplayName(), mg.display)
	}
	if g.GetManagedBy() != mg.managed {
		add("state:gmanaged", "manager of group %q: got %q, want %q", n, g.GetManagedBy(), mg.managed)
	}
	var rules []string
	for t, mode := range mg.rules {
		rules = append(rules, mode+":"+t)
	}
	cmpList(add, "state:rules", fmt.Sprintf("rules of group %q", n), g.GetExpansions(), rules)
	cmpList(add, "state:gcaps", fmt.Sprintf("capabilities of group %q", n), capList(g.GetCapabilities()), capStr(mg.caps))
	cmpList(add, "state:gum", fmt.Sprintf("untyped metadata of group %q", n), g.GetUntypedMeta(), umStr(mg.um))
	cmpList(add, "state:gkv", fmt.Sprintf("key/value data of group %q", n), kvStr(kvPB(g.GetKV())), kvStr(mg.kv))
}

// adopt takes the server's state over into the model.
func (h *hist) adopt() {
	ids, gns, _ := h.w.objects()
	old := h.m
	h.m = newModel()
	for id := range ids {
		e, err := h.w.db.LoadEntity(id)
		if err != nil {
			h.t.Abandon("cannot adopt entity %q", id)
		}
		x := newMent()
		if o := old.ents[id]; o != nil {
			x.secret, x.secretOK = o.secret, o.secretOK
		}
		x.num = e.GetNumber()
		mt := e.GetMeta()
		x.locked = mt.GetLocked()
		for _, f := range typedFields {
			if p := typedGet(mt, f); p != nil {
				x.typed[f] = *p
			}
		}
		for _, g := range mt.GetGroups() {
			x.groups[g] = true
		}
		for _, c := range mt.GetCapabilities() {
			x.caps[c] = true
		}
		for _, k := range mt.GetKeys() {
			x.keys[k] = true
		}
		adoptUM(x.um, mt.GetUntypedMeta())
		x.kv = kvPB(mt.GetKV())
		h.m.ents[id] = x
	}
	for n := range gns {
		g, err := h.w.db.LoadGroup(n)
		if err != nil {
			h.t.Abandon("cannot adopt group %q", n)
		}
		x := newMgrp()
		x.num, x.display, x.managed = g.GetNumber(), g.GetDisplayName(), g.GetManagedBy()
		for _, c := range g.GetCapabilities() {
			x.caps[c] = true
		}
		for _, r := range g.GetExpansions() {
			if i := strings.Index(r, ":"); i > 0 {
				x.rules[r[i+1:]] = r[:i]
			}
		}
		adoptUM(x.um, g.GetUntypedMeta())
		x.kv = kvPB(g.GetKV())
		h.m.grps[n] = x
	}
}

func adoptUM(m map[string]string, l []string) {
	for _, s := range l {
		if i := strings.Index(s, ":"); i >= 0 {
			m[s[:i]] = s[i+1:]
		}
	}
}

// run performs a whole history with the operator's token.
func (h *hist) run(ops []eng.Op) {
	for _, o := range ops {
		h.do(o, h.w.Root())
	}
}

var _ = token.Claims{}
