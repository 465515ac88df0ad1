//go:build go1.22

package core

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/spf13/viper"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	protoV2 "google.golang.org/protobuf/proto"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- C22: searches ----

var searchWords = []string{"alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "alphabet"}

// entWords is the searchable text of an entity, by field.
func (e *ment) words() map[string][]string {
	out := map[string][]string{}
	for f, v := range e.typed {
		out["meta."+f] = strings.Fields(strings.ToLower(v))
	}
	return out
}

func (g *mgrp) words(n string) map[string][]string {
	return map[string][]string{"Name": {strings.ToLower(n)}, "DisplayName": strings.Fields(strings.ToLower(g.display)), "ManagedBy": strings.Fields(strings.ToLower(g.managed))}
}

// matches decides a query made of terms "[+-][field:]word[*]".
func matches(q string, words map[string][]string) bool {
	should, any := false, false
	must := false
	for _, term := range strings.Fields(q) {
		sign := byte(0)
		if term[0] == '+' || term[0] == '-' {
			sign, term = term[0], term[1:]
		}
		field := ""
		if i := strings.LastIndex(term, ":"); i >= 0 {
			field, term = term[:i], term[i+1:]
		}
		prefix := strings.HasSuffix(term, "*")
		term = strings.TrimSuffix(term, "*")
		hit := false
		for f, ws := range words {
			if field != "" && f != field {
				continue
			}
			for _, w := range ws {
				if w == term || prefix && strings.HasPrefix(w, term) {
					hit = true
				}
			}
		}
		switch sign {
		case '+':
			if !hit {
				return false
			}
			must = true
		case '-':
			if hit {
				return false
			}
		default:
			any = true
			should = should || hit
		}
	}
	if must {
		return true
	}
	if any {
		return should
	}
	return true // only exclusions
}

func runSearch(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	found := false
	for _, o := range c.Ops {
		if o.K != "Search" {
			h.do(o, h.w.Root())
			continue
		}
		q := o.Str(1)
		if q == "" {
			continue // not a search
		}
		var got, want []string
		if o.Str(0) == "e" {
			r, code := h.w.Call("EntitySearch", "", &pb.SearchRequest{Expression: str(q)})
			if code != codes.OK {
				t.Failf("search", "EntitySearch(%q) ends with %v", q, code)
			}
			for _, e := range r.(*pb.ListOfEntities).GetEntities() {
				got = append(got, e.GetID())
				// What is found is what is there.
				i, code := h.w.Call("EntityInfo", "", entReq(e.GetID()))
				if code != codes.OK || len(i.(*pb.ListOfEntities).GetEntities()) != 1 {
					t.Failf("search", "EntitySearch(%q) finds entity %q, of which EntityInfo says %v", q, e.GetID(), code)
				}
				if x := i.(*pb.ListOfEntities).GetEntities()[0]; !proto.Equal(x, e) {
					t.Failf("search", "EntitySearch(%q) says {%s}, EntityInfo says {%s}", q, proto.CompactTextString(e), proto.CompactTextString(x))
				}
			}
			for id, e := range h.m.ents {
				ws := e.words()
				ws["ID"] = []string{strings.ToLower(id)}
				if q == "*" || matches(q, ws) {
					want = append(want, id)
				}
			}
		} else {
			r, code := h.w.Call("GroupSearch", "", &pb.SearchRequest{Expression: str(q)})
			if code != codes.OK {
				t.Failf("search", "GroupSearch(%q) ends with %v", q, code)
			}
			for _, g := range r.(*pb.ListOfGroups).GetGroups() {
				got = append(got, g.GetName())
				i, code := h.w.Call("GroupInfo", "", grpReq(g.GetName()))
				if code != codes.OK || len(i.(*pb.ListOfGroups).GetGroups()) == 0 {
					t.Failf("search", "GroupSearch(%q) finds group %q, of which GroupInfo says %v", q, g.GetName(), code)
				}
				if x := i.(*pb.ListOfGroups).GetGroups()[0]; !proto.Equal(x, g) {
					t.Failf("search", "GroupSearch(%q) says {%s}, GroupInfo says {%s}", q, proto.CompactTextString(g), proto.CompactTextString(x))
				}
			}
			for n, g := range h.m.grps {
				if q == "*" || matches(q, g.words(n)) {
					want = append(want, n)
				}
			}
		}
		t.Tracef("search %s %q: %q", o.Str(0), q, sorted(got))
		if !same(got, want) {
			t.Failf("search", "a search of %s for %q finds %q, want %q", map[string]string{"e": "entities", "g": "groups"}[o.Str(0)], q, sorted(got), sorted(want))
		}
		if len(want) > 0 && len(want) < len(h.m.ents)+len(h.m.grps) {
			found = true
		}
	}
	if found {
		t.NonTrivial()
	}
}

func genSearch(r eng.R) *eng.Case {
	g := newGen(r, 2+r.Intn(3), 1+r.Intn(3))
	nm := []string{"anna", "bert", "carl", "dora", "emil", "fritz", "annabel"}
	p := r.Perm(len(nm))
	for i := range g.ents {
		g.ents[i] = nm[p[i%len(p)]]
	}
	gn := []string{"admins", "builders", "cooks", "drivers", "adminsx"}
	p = r.Perm(len(gn))
	for i := range g.grps {
		g.grps[i] = gn[p[i%len(p)]]
	}
	// Names are found in whatever case they are written, and names that
	// differ in nothing else are different names.
	for k, l := range [][]string{g.ents, g.grps} {
		for i := range l {
			switch r.Intn(8) {
			case 0:
				l[i] = strings.ToUpper(l[i])
			case 1:
				l[i] = strings.ToUpper(l[i][:1]) + l[i][1:]
			case 2:
				l[i] = strings.ToUpper(l[r.Intn(len(l))])
			case 3:
				if r.Chance(1, 2) {
					l[i] = [][]string{{"anna.b", "l.m"}, {"cooks.b.c", "o.p"}}[k][r.Intn(2)]
				}
			}
		}
	}
	c := &eng.Case{Cfg: backendFor(r, 2, 1)}
	c.Ops = g.start()
	text := func() string {
		var w []string
		for i := r.Intn(3); i >= 0; i-- {
			w = append(w, r.Pick(searchWords...))
		}
		return strings.Join(w, " ")
	}
	query := func(e bool) string {
		if r.Chance(1, 8) {
			return "*"
		}
		var ts []string
		neg := 0
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			s := r.Weighted("", 5, "+", 3, "-", 2)
			if s == "-" {
				neg++
			}
			f := ""
			var w string
			if e {
				f = r.Pick("", "ID:", "meta.GECOS:", "meta.Shell:", "meta.LegalName:", "meta.DisplayName:")
				w = r.Pick(searchWords...)
				if f == "ID:" || r.Chance(1, 4) {
					w = r.Pick(nm...)
				}
			} else {
				f = r.Pick("", "Name:", "DisplayName:", "ManagedBy:")
				w = r.Pick(searchWords...)
				if f == "Name:" || f == "ManagedBy:" || r.Chance(1, 4) {
					w = r.Pick(gn...)
				}
			}
			if r.Chance(1, 4) {
				w = w[:2+r.Intn(len(w)-1)] + "*"
			}
			ts = append(ts, s+f+w)
		}
		return strings.Join(ts, " ")
	}
	g.weights("ECreate", 5, "EDestroy", 4, "EUpdate", 12, "GCreate", 4, "GDestroy", 3, "GUpdate", 8, "ELock", 2, "EUnlock", 1, "ESecret", 2, "MAdd", 2, "GRule", 2, "Cap", 2, "Restart", 1)
	for i := 4 + r.Intn(10); i > 0; i-- {
		o := g.op(g.kind())
		switch o.K {
		case "EUpdate":
			o.S = o.S[:1]
			o.N = nil
			for j := 1 + r.Intn(2); j > 0; j-- {
				o.S = append(o.S, eng.S(r.Pick("GECOS", "Shell", "LegalName", "DisplayName", "Home")), eng.S(text()))
			}
		case "GUpdate":
			o.N = nil
			for j := 1; j+1 < len(o.S); j += 2 {
				if o.S[j] == "display" {
					o.S[j+1] = eng.S(text())
				}
			}
		case "GCreate":
			o.S[1] = eng.S(text())
		case "ECreate", "ESecret":
			// A secret made of words one may search for.
			o.S[1] = eng.S(text())
		}
		c.Ops = append(c.Ops, o)
		for j := r.Intn(3); j > 0; j-- {
			e := r.Chance(1, 2)
			c.Ops = append(c.Ops, eng.O("Search", map[bool]string{true: "e", false: "g"}[e], query(e)))
		}
	}
	return c
}

// ---- C27: any request is answered ----

var methods = []string{"EntityCreate", "EntityUpdate", "EntityInfo", "EntitySearch", "EntityUM", "EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups",
	"AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret",
	"GroupCreate", "GroupUpdate", "GroupInfo", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupDestroy", "GroupMembers", "GroupSearch", "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace",
	"SystemCapabilities", "SystemPing", "SystemStatus"}

var nasty = []string{"", "a", "b", "g", "h", "op", "*", ":", "a:b", "{", "{0}", "INCLUDE:g", "EXCLUDE:", "\x00", "\xff\xfe", "..", "/", "return-error", "invalid-token", "token-issue-error", "k", "k{0}", "SSH", "s", "+", "-", "\"", "ID:", "[", "(", "~", "^", "a~9", "/(/", ">=", "Number:>5", "2020-01-01", "\\", "a AND", strings.Repeat("x", 4096)}

// aim makes an arbitrary message one that is about something there is.
func aim(r *rand.Rand, m string, req reflect.Value) {
	set := func(msg reflect.Value, field string, from ...string) {
		if f := msg.FieldByName(field); f.IsValid() && f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.String {
			s := from[r.Intn(len(from))]
			f.Set(reflect.ValueOf(&s))
		}
	}
	sub := func(field, name string, from ...string) {
		f := req.FieldByName(field)
		if !f.IsValid() || f.Kind() != reflect.Ptr || f.Type().Elem().Kind() != reflect.Struct {
			return
		}
		if f.IsNil() {
			f.Set(reflect.New(f.Type().Elem()))
		}
		set(f.Elem(), name, from...)
	}
	ents, grps := []string{"a", "b"}, []string{"g", "h"}
	sub("Entity", "ID", ents...)
	sub("Group", "Name", grps...)
	sub("Target", "Name", grps...)
	if strings.HasPrefix(m, "Group") {
		set(req, "Target", grps...)
	} else if strings.HasPrefix(m, "Entity") {
		set(req, "Target", ents...)
	} else {
		set(req, "Target", "a", "b", "g", "h")
	}
	for _, n := range []string{"Action", "RuleAction"} {
		if f := req.FieldByName(n); f.IsValid() && f.Kind() == reflect.Ptr {
			v := reflect.New(f.Type().Elem())
			v.Elem().SetInt(int64(1 + r.Intn(6)))
			if n == "RuleAction" && r.Intn(3) > 0 {
				v.Elem().SetInt([]int64{1, 2, 99}[r.Intn(3)])
			}
			f.Set(v)
		}
	}
}

// Names that exist, so that requests get far enough to do damage.
var tame = []string{"a", "b", "g", "h", "op", "k", "k{0}", "SSH", "s", "*"}

func nastyText(r *rand.Rand) string {
	switch n := r.Intn(20); {
	case n < 7:
		return tame[r.Intn(len(tame))]
	case n < 12:
		return nasty[r.Intn(len(nasty))]
	case n < 19:
		return twist(eng.R{Rand: r}, tame[r.Intn(len(tame))], "")
	default:
		return nasty[r.Intn(len(nasty))] + nasty[r.Intn(len(nasty))]
	}
}

// fill draws a message.
func fill(r *rand.Rand, v reflect.Value, depth int) {
	ty := v.Type()
	for i := 0; i < ty.NumField(); i++ {
		f := ty.Field(i)
		if f.Tag.Get("protobuf") == "" {
			continue
		}
		fv := v.Field(i)
		fillField(r, fv, depth, strings.Contains(f.Tag.Get("protobuf"), ",req,"))
	}
}

func fillField(r *rand.Rand, fv reflect.Value, depth int, req bool) {
	switch fv.Kind() {
	case reflect.Ptr:
		if !req && r.Intn(3) == 0 {
			return
		}
		if fv.Type().Elem().Kind() == reflect.Struct && depth <= 0 {
			return
		}
		n := reflect.New(fv.Type().Elem())
		if n.Elem().Kind() == reflect.Struct {
			fill(r, n.Elem(), depth-1)
		} else {
			fillScalar(r, n.Elem())
		}
		fv.Set(n)
	case reflect.Slice:
		if fv.Type().Elem().Kind() == reflect.Uint8 {
			fv.SetBytes([]byte(nastyText(r)))
			return
		}
		for n := r.Intn(4); n > 0; n-- {
			e := reflect.New(fv.Type().Elem()).Elem()
			fillField(r, e, depth, true)
			fv.Set(reflect.Append(fv, e))
		}
	default:
		fillScalar(r, fv)
	}
}

func fillScalar(r *rand.Rand, v reflect.Value) {
	nums := []int64{0, 1, -1, 2, 3, 7, 10, 20, 1 << 30, -1 << 31, 1<<31 - 1, 5, 99}
	switch v.Kind() {
	case reflect.String:
		v.SetString(nastyText(r))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int32, reflect.Int64:
		v.SetInt(nums[r.Intn(len(nums))])
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(uint32(nums[r.Intn(len(nums))])))
	}
}

func reqType(w *World, method string) reflect.Type {
	return reflect.ValueOf(w.srv).MethodByName(method).Type().In(1).Elem()
}

// tryWire sends a request in its wire form.  Malformed ones never reach the
// server.
func (w *World) tryWire(ctx context.Context, method string, wire []byte) (sent bool, code codes.Code, p *Panic) {
	req := reflect.New(reqType(w, method)).Interface().(proto.Message)
	if err := proto.Unmarshal(wire, req); err != nil {
		return false, codes.Internal, nil
	}
	_, code, p = w.handle(ctx, method, req)
	return true, code, p
}

func runAny(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	answered := 0
	for _, o := range c.Ops {
		if o.K == "Restart" {
			h.w.Restart()
			continue
		}
		if o.K != "Wire" {
			h.do(o, h.w.Root())
			continue
		}
		var md metadata.MD
		ctx := context.Background()
		switch o.Str(1) {
		case "nomd":
		case "notoken":
			md = metadata.Pairs()
		case "root":
			md = metadata.Pairs("authorization", h.w.Root(), "client-name", "c", "service-name", "s")
		case "weak":
			md = metadata.Pairs("authorization", h.w.Token("a"))
		case "empty":
			md = metadata.Pairs("authorization", "")
		case "twice":
			md = metadata.Pairs("authorization", h.w.Token("a"), "authorization", h.w.Root())
		case "anon":
			md = metadata.Pairs("authorization", h.w.Token("", types.Capability_GLOBAL_ROOT))
		default:
			md = metadata.Pairs("authorization", o.Str(1), "client-name", "\xff", "service-name", "")
		}
		if md != nil {
			ctx = metadata.NewIncomingContext(ctx, md)
		}
		if _, ok := reflect.TypeOf(h.w.srv).MethodByName(o.Str(0)); !ok {
			continue
		}
		sent, code, p := h.w.tryWire(ctx, o.Str(0), []byte(o.Str(2)))
		if p != nil {
			req := reflect.New(reqType(h.w, o.Str(0))).Interface().(proto.Message)
			proto.Unmarshal([]byte(o.Str(2)), req)
			t.Failf("crash", "%s(%s) as %s crashes the server: %v\n%s", o.Str(0), proto.CompactTextString(req), o.Str(1), p.Val, trimStack(p.Stack))
		}
		if sent {
			t.Class(o.Str(0) + ":" + code.String())
			answered++
		}
	}
	// The server still works, and what is stored can be loaded again.
	if _, code := h.w.Call("SystemPing", "", &pb.Empty{}); code != codes.OK {
		t.Failf("crash", "the server no longer answers: %v", code)
	}
	for k, v := range h.w.Snapshot() {
		var m proto.Message = &types.Entity{}
		if strings.HasPrefix(k, "/groups/") {
			m = &types.Group{}
		}
		if err := proto.Unmarshal([]byte(v), m); err != nil {
			t.Failf("crash", "what is stored at %q cannot be loaded any more: %v", k, err)
		}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(*eng.Violation); ok {
					panic(x)
				}
				t.Failf("crash", "the server does not start again over what the requests left behind: %v", x)
			}
		}()
		h.w.Restart()
		for k := range h.w.Snapshot() {
			id := k[strings.LastIndex(k, "/")+1:]
			m, rq := "EntityGroups", proto.Message(entReq(id))
			if strings.HasPrefix(k, "/groups/") {
				m, rq = "GroupMembers", grpReq(id)
			}
			if _, _, p := h.w.TryCall(m, "", rq); p != nil {
				t.Failf("crash", "after the requests and a restart, %s(%q) crashes the server: %v\n%s", m, id, p.Val, trimStack(p.Stack))
			}
		}
	}()
	if answered > 0 {
		t.NonTrivial()
	}
}

var wireTypes = map[string]reflect.Type{}

func genAny(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: backendFor(r, 1, 1)}
	c.Ops = []eng.Op{
		eng.O("ECreate", "a", "s").WithN(-1), eng.O("ECreate", "b", "s").WithN(-1),
		eng.O("GCreate", "g", "G", "").WithN(-1), eng.O("GCreate", "h", "H", "g").WithN(-1),
	}
	g := newGen(r, 2, 2)
	g.ents, g.grps = []string{"a", "b"}, []string{"g", "h"}
	g.weights("MAdd", 3, "GRule", 3, "EUM", 2, "EKV", 2, "GKV", 2, "EKey", 2, "Cap", 2)
	for i := r.Intn(6); i > 0; i-- {
		c.Ops = append(c.Ops, g.op(g.kind()))
	}
	for i := 4 + r.Intn(24); i > 0; i-- {
		if r.Chance(1, 40) {
			c.Ops = append(c.Ops, eng.O("Restart"))
		}
		m := r.Pick(methods...)
		ty, ok := reflect.TypeOf((*pb.NetAuth2Server)(nil)).Elem().MethodByName(m)
		if !ok {
			continue
		}
		req := reflect.New(ty.Type.In(1).Elem())
		if !r.Chance(1, 20) {
			fill(r.Rand, req.Elem(), 4)
			if r.Chance(2, 3) {
				aim(r.Rand, m, req.Elem())
			}
		}
		b, err := protoV2.MarshalOptions{AllowPartial: true}.Marshal(proto.MessageV2(req.Interface()))
		if err != nil {
			panic(err)
		}
		if r.Chance(1, 6) { // damaged wire form
			for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
				switch r.Intn(3) {
				case 0:
					b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
				case 1:
					b = b[:r.Intn(len(b))]
				default:
					b = append(b, byte(r.Intn(256)), byte(r.Intn(256)))
				}
			}
		}
		c.Ops = append(c.Ops, eng.O("Wire", m, r.Weighted("root", 12, "weak", 2, "nomd", 1, "notoken", 1, "empty", 1, "twice", 1, "anon", 1, "garbage", 1, "{}", 1, "null", 1), string(b)))
	}
	return c
}

// ---- C28: health ----

var (
	healthState []health.SubsystemStatus
	healthN     int
)

func runHealth(t *eng.T, c *eng.Case) {
	w := NewWorld(t, "memory", "nocrypto")
	for _, o := range c.Ops {
		// Subsystems can only be added, and only once.
		n := len(o.N)
		for healthN < n {
			i := healthN
			health.RegisterCheck(fmt.Sprintf("verif%d", i), func() health.SubsystemStatus { return healthState[i] })
			health.RegisterCheck(fmt.Sprintf("verif%d", i), func() health.SubsystemStatus {
				return health.SubsystemStatus{OK: true, Name: "impostor"}
			})
			healthN++
			healthState = append(healthState, health.SubsystemStatus{})
		}
		want := map[string]string{}
		bad := map[string]bool{}
		for i := 0; i < healthN; i++ {
			s := health.SubsystemStatus{OK: true, Name: fmt.Sprintf("s%d", i), Status: "fine"}
			if i < n && o.N[i] != 0 {
				s.OK, s.Status = false, fmt.Sprintf("trouble %d", o.N[i])
				bad[s.Name] = true
			}
			healthState[i] = s
			want[s.Name] = s.Status
		}
		r, code := w.Call("SystemStatus", "", &pb.Empty{})
		if code != codes.OK {
			t.Failf("health", "SystemStatus ends with %v", code)
		}
		st := r.(*pb.ServerStatus)
		seen := map[string]bool{}
		okAll := true
		for _, s := range st.GetSubSystems() {
			if !s.GetOK() {
				okAll = false
			}
			if want[s.GetName()] == "" {
				if s.GetName() == "impostor" {
					t.Failf("health", "a check replaced another one of the same name")
				}
				continue // another test's
			}
			if seen[s.GetName()] {
				t.Failf("health", "subsystem %s is reported twice", s.GetName())
			}
			seen[s.GetName()] = true
			if s.GetOK() == bad[s.GetName()] || s.GetFaultMessage() != want[s.GetName()] {
				t.Failf("health", "subsystem %s is reported as %v %q, want %v %q", s.GetName(), s.GetOK(), s.GetFaultMessage(), !bad[s.GetName()], want[s.GetName()])
			}
		}
		if len(seen) != len(want) {
			t.Failf("health", "%d of %d subsystems are reported", len(seen), len(want))
		}
		if st.GetSystemOK() != okAll {
			t.Failf("health", "the system is reported as %v although the subsystems are %v", st.GetSystemOK(), okAll)
		}
		if okAll && st.FirstFailure != nil {
			t.Failf("health", "everything is fine, but %v is reported as the first failure", st.FirstFailure)
		}
		if !okAll {
			if st.FirstFailure == nil || st.FirstFailure.GetOK() {
				t.Failf("health", "something is broken, but the first failure is %v", st.FirstFailure)
			}
			if n := st.FirstFailure.GetName(); want[n] != "" && (!bad[n] || st.FirstFailure.GetFaultMessage() != want[n]) {
				t.Failf("health", "the first failure is %v, which is not broken", st.FirstFailure)
			}
		}
		// The direct view, as the command line prints it.
		d := health.Check()
		if d.OK != okAll || d.OK != (d.FirstFailure == health.SubsystemStatus{}) {
			t.Failf("health", "the check says %v, first failure %v, subsystems %v", d.OK, d.FirstFailure, okAll)
		}
		if strings.Contains(strings.SplitN(d.String(), "\n", 2)[0], "PASS") != okAll {
			t.Failf("health", "the report begins with %q although the subsystems are %v", strings.SplitN(d.String(), "\n", 2)[0], okAll)
		}
		for n := range want {
			if !strings.Contains(d.String(), n+"\t"+want[n]) {
				t.Failf("health", "the report lacks subsystem %s: %q", n, d.String())
			}
		}
		if len(bad) > 0 && len(bad) < n {
			t.NonTrivial()
		}
	}
}

// ---- C30: bootstrap ----

func runBootstrap(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	open := true
	boots := 0
	for _, o := range c.Ops {
		switch o.K {
		case "Boot":
			id, sec := o.Str(0), o.Str(1)
			before := h.w.Snapshot()
			h.w.tree.Bootstrap(id, sec)
			t.Tracef("%s (open: %v)", opStr(o), open)
			if !open || !validName(id) || h.hostile(id) || sec == "return-error" && h.w.cryptoN == "nocrypto" {
				if d := diffSnap(before, h.w.Snapshot()); d != "" {
					t.Failf("boot", "%s, which must have no effect, changes something: %s", opStr(o), d)
				}
				open = false
				h.judge(o, h.compare("boot"))
				continue
			}
			open = false
			boots++
			e := h.m.ents[id]
			if e == nil {
				n, fits := h.m.nextEnt()
				if !fits {
					h.judge(o, h.compare("boot"))
					continue
				}
				e = newMent()
				e.num = n
				h.m.ents[id] = e
				t.Class("boot:new")
			} else {
				t.Class("boot:existing")
			}
			e.secret, e.secretOK, e.locked = sec, true, false
			e.caps[types.Capability_GLOBAL_ROOT] = true
			h.judge(o, h.compare("boot"))
		case "Off":
			h.w.tree.DisableBootstrap()
			open = false
		case "Restart":
			h.do(o, h.w.Root())
			open = true
		default:
			h.do(o, h.w.Root())
		}
	}
	if boots > 0 {
		t.NonTrivial()
	}
}

// ---- C31: bcrypt ----

// cyc is what bcrypt looks at: 72 bytes of the secret and a NUL, repeated.
func cyc(s string) string {
	k := s + "\x00"
	for len(k) < 72 {
		k += s + "\x00"
	}
	return k[:72]
}

func runBcrypt(t *eng.T, c *eng.Case) {
	boot()
	viper.Set("crypto.bcrypt.cost", 4)
	eng1, err := crypto.New("bcrypt")
	if err != nil {
		panic(err)
	}
	type pair struct{ plain, hash string }
	var ps []pair
	differ := false
	for _, o := range c.Ops {
		s := o.Str(0)
		for i := int64(1); i < o.Int(0); i++ {
			s += o.Str(0)
		}
		s += o.Str(1)
		switch o.K {
		case "Cost":
			viper.Set("crypto.bcrypt.cost", 4+int(o.Int(0))%2)
			if eng1, err = crypto.New("bcrypt"); err != nil {
				panic(err)
			}
			continue
		case "Secure":
			hsh, err := eng1.SecureSecret(s)
			if err != nil {
				if len(s) > 72 {
					continue // may be refused
				}
				t.Failf("bcrypt", "securing %s fails: %v", showPoss(s), err)
			}
			if len(s) >= 8 && strings.Contains(hsh, s) || hsh == s {
				t.Failf("bcrypt", "the secured form %q of %s contains it", hsh, showPoss(s))
			}
			for _, p := range ps {
				if p.hash == hsh {
					t.Failf("bcrypt", "two secrets have the same secured form %q", hsh)
				}
			}
			ps = append(ps, pair{s, hsh})
		}
		for _, p := range ps {
			err := eng1.VerifySecret(s, p.hash)
			switch {
			case s == p.plain && err != nil:
				t.Failf("bcrypt", "the secret %s is refused against its own secured form: %v", showPoss(s), err)
			case s != p.plain && err == nil:
				if cyc(s) == cyc(p.plain) && (len(s) > 71 && len(p.plain) > 71 || strings.ContainsRune(s+p.plain, 0)) {
					t.Known("bcrypt-72-bytes")
					continue
				}
				t.Failf("bcrypt", "the secret %s is accepted against the secured form of %s", showPoss(s), showPoss(p.plain))
			case err != nil && err != crypto.ErrAuthorizationFailure:
				t.Failf("bcrypt", "a wrong secret yields %v", err)
			}
			if s != p.plain {
				differ = true
			}
		}
	}
	// Nothing passes against what is not a secured form.
	for _, bad := range []string{"", "x", "$2a$", "$2a$04$short"} {
		for _, s := range []string{"", "x", bad} {
			if eng1.VerifySecret(s, bad) == nil {
				t.Failf("bcrypt", "%q is accepted against %q", s, bad)
			}
		}
	}
	if differ && len(ps) > 0 {
		t.NonTrivial()
	}
}

func mutateSecret(r eng.R, s string) string {
	b := []byte(s)
	switch r.Intn(8) {
	case 0:
		return s + " "
	case 1:
		return strings.ToUpper(s)
	case 2:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	case 3:
		if len(b) > 0 {
			b = b[:len(b)-1]
		}
	case 4:
		if len(b) > 0 {
			b = b[1:]
		}
	case 5:
		return s + s
	case 6:
		b = append(b, byte(r.Intn(256)))
	default:
		return strings.TrimSpace(s)
	}
	return string(b)
}

func genBcrypt(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{}}
	var known []string
	word := func() string {
		if len(known) > 0 && r.Chance(2, 3) {
			return mutateSecret(r, r.Pick(known...))
		}
		n := r.Intn(1 + r.Intn(72))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
			if r.Chance(2, 3) {
				b[i] = "abcABC019 _$"[r.Intn(12)]
			}
		}
		return string(b)
	}
	for i := 2 + r.Intn(5); i > 0; i-- {
		s := word()
		known = append(known, s)
		c.Ops = append(c.Ops, eng.O(r.Weighted("Secure", 2, "Verify", 3), s).WithN(1))
		if r.Chance(1, 10) {
			c.Ops = append(c.Ops, eng.O("Cost").WithN(int64(r.Intn(2))))
		}
	}
	return c
}

func enumBcrypt(string) []*eng.Case {
	var out []*eng.Case
	// The listed finding, and its surroundings, length by length.
	for _, n := range []int64{1, 8, 35, 36, 55, 70, 71, 72, 73, 100, 200} {
		c := &eng.Case{Cfg: map[string]string{}}
		c.Ops = append(c.Ops, eng.O("Secure", "x").WithN(n), eng.O("Verify", "x", "y").WithN(n), eng.O("Verify", "x").WithN(n+1))
		if n > 1 {
			c.Ops = append(c.Ops, eng.O("Verify", "x").WithN(n-1), eng.O("Verify", "x", "y").WithN(n-1))
		}
		out = append(out, c)
	}
	for _, p := range [][2]string{{"a", "a\x00a"}, {"a\x00", "a"}, {"", "\x00"}, {"ab", "ab\x00ab\x00ab"}, {"a\x00b", "a\x00c"}, {"a\x00b", "a"}} {
		c := &eng.Case{Cfg: map[string]string{}}
		c.Ops = append(c.Ops, eng.O("Secure", p[0]).WithN(1), eng.O("Verify", p[1]).WithN(1))
		out = append(out, c)
	}
	return out
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C22", Name: "search-history", Quick: 2500, Deep: 60000,
		Rule:  "a search found some of the objects, but not all",
		Scope: []string{"search", "crash"},
		Gen:   genSearch, Run: runSearch,
	})
	eng.Register(&eng.Suite{
		Prop: "C27", Name: "any-request", Quick: 8000, Deep: 250000,
		Rule:  "at least one arbitrary request reached the server",
		Scope: []string{"crash", "restart"},
		Gen:   genAny, Run: runAny,
	})
	eng.Register(&eng.Suite{
		Prop: "C28", Name: "health-reports", Quick: 3000, Deep: 60000,
		Rule: "some subsystems were broken and others were not",
		Gen: func(r eng.R) *eng.Case {
			c := &eng.Case{}
			for i := 1 + r.Intn(4); i > 0; i-- {
				o := eng.O("Report")
				p := r.Intn(4)
				for j := r.Intn(9); j >= 0; j-- {
					v := int64(0)
					if p > 0 && r.Chance(p, 4) {
						v = int64(1 + r.Intn(100))
					}
					o.N = append(o.N, v)
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runHealth,
	})
	eng.Register(&eng.Suite{
		Prop: "C30", Name: "bootstrap-history", Quick: 4000, Deep: 80000,
		Rule:  "a bootstrap took effect",
		Scope: []string{"boot", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 1+r.Intn(2))
			c := &eng.Case{Cfg: backendFor(r, 2, 1)}
			if r.Chance(1, 8) {
				c.Cfg["crypto"] = "bcrypt"
			}
			if r.Chance(2, 3) {
				c.Ops = g.start()
			}
			g.weights("ECreate", 4, "EDestroy", 2, "ELock", 4, "EUnlock", 1, "ESecret", 2, "EUM", 2, "EKV", 2, "EKey", 2, "MAdd", 3, "Cap", 4, "EUpdate", 2, "Restart", 6)
			for i := 3 + r.Intn(12); i > 0; i-- {
				switch r.Intn(5) {
				case 0, 1:
					id := g.e()
					if r.Chance(1, 12) {
						id = r.Pick(badNames...)
					}
					if r.Chance(1, 3) {
						c.Ops = append(c.Ops, eng.O("Restart"))
					}
					c.Ops = append(c.Ops, eng.O("Boot", id, r.Pick(append([]string{"return-error"}, secrets...)...)))
				case 2:
					if r.Chance(1, 3) {
						c.Ops = append(c.Ops, eng.O("Off"))
						break
					}
					fallthrough
				default:
					c.Ops = append(c.Ops, g.op(g.kind()))
				}
			}
			return c
		},
		Run: runBootstrap,
	})
	eng.Register(&eng.Suite{
		Prop: "C31", Name: "bcrypt-engine", Quick: 6000, Deep: 150000,
		Rule: "a secret other than the secured one was verified",
		Gen:  genBcrypt, Run: runBcrypt, Enum: enumBcrypt,
	})
}

var _ = sort.Strings
var _ = strconv.Itoa
