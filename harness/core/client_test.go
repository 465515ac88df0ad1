//go:build go1.22

package core

import (
	"context"
	"fmt"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/blevesearch/bleve"
	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/zzv/eng"
	"github.com/netauth/netauth/pkg/netauth"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// netsrv is a server of the RPC interface on the loopback network, in
// front of whichever world is current.
type netsrv struct {
	mu     sync.Mutex
	w      *World
	ro     bool // answers like a read-only server over the same data
	calls  []string
	crash  *Panic
	server *grpc.Server
}

func (n *netsrv) set(w *World) {
	n.mu.Lock()
	n.w, n.calls, n.crash = w, nil, nil
	n.mu.Unlock()
}

func (n *netsrv) intercept(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, _ grpc.UnaryHandler) (interface{}, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	m := path.Base(info.FullMethod)
	n.calls = append(n.calls, m)
	if n.w == nil {
		return nil, status.Error(codes.Unavailable, "no server here")
	}
	resp, code, p := n.w.handleRO(ctx, m, req.(proto.Message), n.ro)
	if p != nil {
		n.crash = p
		return nil, status.Error(codes.Unavailable, "crashed")
	}
	if code != codes.OK {
		return nil, status.Error(code, "refused")
	}
	return resp, nil
}

// handleRO is handle, on a read-only server if asked to.
func (w *World) handleRO(ctx context.Context, method string, req proto.Message, ro bool) (proto.Message, codes.Code, *Panic) {
	if !ro {
		return w.handle(ctx, method, req)
	}
	rw := w.srv
	w.ReadOnly(true)
	defer func() { w.srv = rw }()
	return w.handle(ctx, method, req)
}

func (n *netsrv) listen(l net.Listener) {
	n.server = grpc.NewServer(grpc.UnaryInterceptor(n.intercept))
	pb.RegisterNetAuth2Server(n.server, rpc2.New(rpc2.Refs{}, nullLog))
	go n.server.Serve(l)
}

// netPair starts a server at 127.0.0.1, and one at 127.0.0.2 on the same port.
func netPair(roFirst bool) (a, b *netsrv, port int) {
	for i := 0; ; i++ {
		l1, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		port = l1.Addr().(*net.TCPAddr).Port
		l2, err := net.Listen("tcp", fmt.Sprintf("127.0.0.2:%d", port))
		if err != nil {
			l1.Close()
			if i > 100 {
				panic(err)
			}
			continue
		}
		a, b = &netsrv{ro: roFirst}, &netsrv{}
		a.listen(l1)
		b.listen(l2)
		return a, b, port
	}
}

var (
	oneSrv    *netsrv
	oneClient *netauth.Client
	onePort   int
)

func newClient(port int, server, master string) *netauth.Client {
	viper.Set("core.server", server)
	viper.Set("core.master", master)
	viper.Set("core.port", port)
	viper.Set("core.conf", "/nonexistent")
	viper.Set("tls.pwn_me", true)
	viper.Set("token.cache", "memory")
	viper.Set("token.backend", "verif-none")
	c, err := netauth.NewWithLog(hclog.NewNullLogger())
	if err != nil {
		panic(err)
	}
	c.SetServiceName("verif")
	return c
}

// cli is a client of a world.
type cli struct {
	h    *hist
	c    *netauth.Client
	a, b *netsrv
}

func newCli(t *eng.T, h *hist, replica bool) *cli {
	if !replica {
		if oneClient == nil {
			oneSrv, _, onePort = netPair(false)
			oneClient = newClient(onePort, "127.0.0.1", "")
		}
		viper.Set("core.server", "127.0.0.1")
		viper.Set("core.master", "127.0.0.1")
		viper.Set("core.port", onePort)
		oneSrv.set(h.w)
		t.Cleanup(func() { oneSrv.set(nil) })
		return &cli{h, oneClient, oneSrv, oneSrv}
	}
	a, b, port := netPair(true)
	a.set(h.w)
	b.set(h.w)
	t.Cleanup(func() { a.server.Stop(); b.server.Stop() })
	return &cli{h, newClient(port, "127.0.0.1", "127.0.0.2"), a, b}
}

// recase changes the case of letters as the flags say.
func recase(s string, n int64) string {
	switch n % 3 {
	case 1:
		return strings.ToLower(s)
	case 2:
		if len(s) > 1 {
			return s[:1] + strings.ToLower(s[1:])
		}
	}
	return s
}

// clientCase: what the requests of the history do is known from their
// plans; this sends one through the client library.
func (cl *cli) send(o eng.Op, p *plan, tok string) ([]mismatch, error) {
	ctx := netauth.Authorize(context.Background(), tok)
	c, n := cl.c, o.Int(7)
	a0, a1, a2, a3 := o.Str(0), o.Str(1), o.Str(2), o.Str(3)
	var ms []mismatch
	bad := func(aspect, f string, a ...interface{}) { ms = append(ms, mismatch{aspect, fmt.Sprintf(f, a...)}) }
	var err error
	wide := func(x int64) int { // a number that does not fit
		if o.Int(6) != 0 {
			return int(x + o.Int(6)<<32)
		}
		return int(x)
	}
	switch o.K {
	case "ECreate":
		err = c.EntityCreate(ctx, a0, a1, wide(o.Int(0)))
	case "EDestroy":
		err = c.EntityDestroy(ctx, a0)
	case "ELock":
		err = c.EntityLock(ctx, a0)
	case "EUnlock":
		err = c.EntityUnlock(ctx, a0)
	case "ESecret":
		err = c.AuthChangeSecret(ctx, a0, a1, a2)
	case "EUpdate":
		err = c.EntityUpdate(ctx, a0, p.req.(*pb.EntityRequest).Data.Meta)
	case "EUM", "GUM":
		var got map[string][]string
		var um map[string]string
		if o.K == "EUM" {
			got, err = c.EntityUM(ctx, a0, recase(a1, n), a2, a3)
			if e := cl.h.m.ents[a0]; e != nil {
				um = e.um
			}
		} else {
			got, err = c.GroupUM(ctx, a0, recase(a1, n), a2, a3)
			if g := cl.h.m.grps[a0]; g != nil {
				um = g.um
			}
		}
		if err == nil && p.read {
			if d := umDiff(got, um, a2); d != "" {
				bad("client:um", "reading %q of %q: %s", a2, a0, d)
			}
		}
	case "EKV", "GKV":
		var get func(context.Context, string, string) (map[string][]string, error)
		var kv []mkv
		if o.K == "EKV" {
			get = c.EntityKVGet
			if e := cl.h.m.ents[a0]; e != nil {
				kv = e.kv
			}
		} else {
			get = c.GroupKVGet
			if g := cl.h.m.grps[a0]; g != nil {
				kv = g.kv
			}
		}
		switch o.K + a1 {
		case "EKVadd":
			err = c.EntityKVAdd(ctx, a0, a2, strs(o.S, 3))
		case "EKVdel":
			err = c.EntityKVDel(ctx, a0, a2)
		case "EKVreplace":
			err = c.EntityKVReplace(ctx, a0, a2, strs(o.S, 3))
		case "GKVadd":
			err = c.GroupKVAdd(ctx, a0, a2, strs(o.S, 3))
		case "GKVdel":
			err = c.GroupKVDel(ctx, a0, a2)
		case "GKVreplace":
			err = c.GroupKVReplace(ctx, a0, a2, strs(o.S, 3))
		default:
			var got map[string][]string
			got, err = get(ctx, a0, a2)
			if err == nil {
				want := map[string][]string{}
				for _, x := range kv {
					if (a2 == "*" || a2 == x.key) && len(x.vals) > 0 {
						want[x.key] = x.vals
					}
				}
				if d := mapDiff(got, want); d != "" {
					bad("client:kv", "key %q of %q: %s", a2, a0, d)
				}
			}
		}
	case "EKey":
		var got map[string][]string
		got, err = c.EntityKeys(ctx, a0, recase(a1, n), a2, a3)
		if e := cl.h.m.ents[a0]; err == nil && p.read && e != nil {
			want := map[string][]string{}
			if a2 != "*" {
				want[a2] = nil
			}
			plain := true
			for k := range e.keys {
				x := strings.SplitN(k, ":", 2)
				plain = plain && !idxRe.MatchString(x[0]) // types are not indexed
				if a2 == "*" {
					want[x[0]] = append(want[x[0]], x[1])
				} else if strings.ToUpper(a2) == x[0] {
					want[a2] = append(want[a2], x[1])
				}
			}
			for k := range got {
				sort.Strings(got[k])
			}
			for k := range want {
				sort.Strings(want[k])
			}
			if d := mapDiff(got, want); d != "" && plain {
				bad("client:keys", "keys of type %q of %q: %s", a2, a0, d)
			}
		}
	case "GCreate":
		err = c.GroupCreate(ctx, a0, a1, a2, wide(o.Int(0)))
	case "GDestroy":
		err = c.GroupDestroy(ctx, a0)
	case "GUpdate":
		err = c.GroupUpdate(ctx, p.req.(*pb.GroupRequest).Group)
	case "GRule":
		if a2 == "REMOVE_RULE" && n%2 == 1 {
			a2 = "DROP"
		}
		err = c.GroupUpdateRules(ctx, a0, recase(a2, n), a1)
	case "MAdd":
		err = c.GroupAddMember(ctx, a1, a0)
	case "MDel":
		err = c.GroupDelMember(ctx, a1, a0)
	case "Cap":
		err = c.SystemCapabilities(ctx, a0, recase(a1, n), recase(cap32(o.Int(1)).String(), n/3), o.Int(0) != 0)
	case "Auth":
		err = c.AuthEntity(ctx, a0, a1)
	case "GetToken":
		var t string
		t, err = c.AuthGetToken(ctx, a0, a1)
		if err == nil && p.check != nil {
			if x := p.check(&pb.AuthResult{Token: &t}); x != nil {
				ms = append(ms, *x)
			}
			if e := c.AuthValidateToken(ctx, t); e != nil {
				bad("client:validate", "the token just issued to %q is not valid: %v", a0, e)
			}
			if e := c.AuthValidateToken(ctx, "{"+t); e == nil {
				bad("client:validate", "a damaged token is valid")
			}
		}
	}
	return ms, err
}

var textMapping = bleve.NewIndexMapping()

// wordless says whether the search index sees nothing in a text.
func wordless(s string) bool {
	l, err := textMapping.AnalyzeText("standard", []byte(s))
	return err == nil && len(l) == 0
}

// trimIndex removes an index at the end of a key.
func trimIndex(k string) string {
	if m := idxRe.FindAllString(k, -1); m != nil && strings.HasSuffix(k, m[len(m)-1]) {
		return strings.TrimSuffix(k, m[len(m)-1])
	}
	return k
}

// umDiff compares what reading untyped metadata yielded.
func umDiff(got map[string][]string, um map[string]string, key string) string {
	want, ok := umWant(um, key)
	if !ok {
		return ""
	}
	return mapDiff(got, want)
}

// umWant says what reading untyped metadata yields; false if that is not
// defined.
func umWant(um map[string]string, key string) (map[string][]string, bool) {
	type iv struct {
		i int
		v string
	}
	want := map[string][]iv{}
	for k, v := range um {
		if key == "*" || base(k) == base(key) {
			i := -1
			if m := strings.TrimPrefix(k, trimIndex(k)); m != "" {
				i, _ = strconv.Atoi(m[1 : len(m)-1])
			}
			name := trimIndex(k)
			if key != "*" {
				if name != trimIndex(key) {
					return nil, false // an index in the middle: not defined
				}
				name = key
			}
			want[name] = append(want[name], iv{i, v})
		}
	}
	flat := map[string][]string{}
	if key != "*" {
		flat[key] = nil
	}
	for k, l := range want {
		sort.Slice(l, func(i, j int) bool { return l[i].i < l[j].i })
		for i, x := range l {
			if i > 0 && l[i-1].i == x.i {
				return nil, false // the order is not defined
			}
			flat[k] = append(flat[k], x.v)
		}
	}
	return flat, true
}

func mapDiff(got, want map[string][]string) string {
	show := func(m map[string][]string) string {
		var l []string
		for k, v := range m {
			l = append(l, fmt.Sprintf("%q:%q", k, v))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	if g, w := show(got), show(want); g != w {
		return fmt.Sprintf("the client returns %s, want %s", g, w)
	}
	return ""
}

// look compares what the client says about everything with the model.
func (cl *cli) look() []mismatch {
	var ms []mismatch
	add := func(aspect, f string, a ...interface{}) {
		ms = append(ms, mismatch{"client:" + aspect, "through the client: " + fmt.Sprintf(f, a...)})
	}
	ctx, m, c := context.Background(), cl.h.m, cl.c
	for id, me := range m.ents {
		e, err := c.EntityInfo(ctx, id)
		if err != nil {
			add("info", "entity %q: %v", id, err)
			continue
		}
		if e.GetID() != id {
			add("info", "asked for entity %q, got %q", id, e.GetID())
		}
		cl.h.cmpEnt(id, me, &e, add)
		gs, err := c.EntityGroups(ctx, id)
		var names []string
		for _, g := range gs {
			names = append(names, g.GetName())
		}
		if want := m.memberships(id); err != nil || !same(names, want) {
			add("groups", "groups of %q: got %q (%v), want %q", id, names, err, want)
		}
	}
	for n, mg := range m.grps {
		g, man, err := c.GroupInfo(ctx, n)
		if err != nil {
			add("ginfo", "group %q: %v", n, err)
			continue
		}
		if g.GetName() != n {
			add("ginfo", "asked for group %q, got %q", n, g.GetName())
		}
		cl.h.cmpGrp(n, mg, g, add)
		var names, want []string
		for _, x := range man {
			names = append(names, x.GetName())
		}
		for k, x := range m.grps {
			if x.managed == n {
				want = append(want, k)
			}
		}
		if len(names) == 0 && len(want) > 0 && wordless(n) {
			cl.h.t.Known("managed-by-stop-word")
		} else if !same(names, want) {
			add("managed", "groups managed by %q: got %q, want %q", n, sorted(names), sorted(want))
		}
		es, err := c.GroupMembers(ctx, n)
		names = nil
		for _, e := range es {
			names = append(names, e.GetID())
		}
		if want := m.members(n); err != nil || !same(names, want) {
			add("members", "members of %q: got %q (%v), want %q", n, names, err, want)
		}
	}
	return ms
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C26", Name: "client-library", Quick: 2200, Deep: 60000,
		Rule:  "at least three changes made through the client took effect and at least one request was refused",
		Scope: []string{"client", "code", "state", "token", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 1+r.Intn(3))
			if r.Chance(1, 4) {
				g.grps = append(g.grps, r.Pick("net-admins", "net admins", "netauth-admins"), r.Pick("net-users", "net", "admins"))
			}
			c := &eng.Case{Cfg: backendFor(r, 0, 0)}
			if r.Chance(1, 4) {
				c.Cfg["topology"] = "replica"
			}
			c.Ops = g.start()
			g.weights("ECreate", 6, "EDestroy", 3, "ELock", 3, "EUnlock", 3, "ESecret", 5, "Auth", 6, "GetToken", 5, "EUpdate", 5, "EUM", 14, "GUM", 9, "EKV", 12, "GKV", 8, "EKey", 12, "Cap", 9,
				"GCreate", 6, "GDestroy", 3, "GUpdate", 8, "GRule", 9, "MAdd", 10, "MDel", 5)
			c.Ops = append(c.Ops, g.seq(6+r.Intn(16))...)
			for i := range c.Ops {
				o := &c.Ops[i]
				if (o.K == "MAdd" || o.K == "MDel") && len(o.S) > 2 {
					o.S = o.S[:2]
				}
				if o.K == "EKey" && o.Str(1) == "READ" && r.Chance(1, 3) {
					o.S[2] = "*"
				}
				for len(o.N) < 8 {
					o.N = append(o.N, 0)
				}
				if r.Chance(1, 2) {
					o.N[7] = int64(r.Intn(9))
				}
				if (o.K == "ECreate" || o.K == "GCreate") && r.Chance(1, 8) {
					o.N[6] = int64(r.Intn(7) - 3)
				}
			}
			if r.Chance(1, 3) { // one key's values in order of their numbers
				what, n := "EUM", g.e()
				if r.Chance(1, 2) {
					what, n = "GUM", g.g()
				}
				at := r.Intn(len(c.Ops))
				run := []eng.Op{}
				for i := 3 + r.Intn(4); i > 0; i-- {
					run = append(run, eng.O(what, n, "UPSERT", fmt.Sprintf("k{%d}", r.Intn(14)), r.Pick("v", "w", "x", "y", "z")).WithN(0, 0, 0, 0, 0, 0, 0, 0))
				}
				run = append(run, eng.O(what, n, "READ", r.Pick("*", "k"), "").WithN(0, 0, 0, 0, 0, 0, 0, 0))
				c.Ops = append(c.Ops[:at], append(run, c.Ops[at:]...)...)
			}
			if c.Cfg["topology"] == "replica" {
				var ops []eng.Op
				for _, o := range c.Ops {
					if r.Chance(1, 3) {
						ops = append(ops, eng.O("Fresh"))
					}
					ops = append(ops, o)
				}
				c.Ops = ops
			}
			return c
		},
		Run: runClient,
	})
}

func runClient(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	replica := c.Cfg["topology"] == "replica"
	cl := newCli(t, h, replica)
	for _, o := range c.Ops {
		if o.K == "Fresh" { // a client that has changed nothing yet
			if replica {
				cl.c = newClient(viper.GetInt("core.port"), "127.0.0.1", "127.0.0.2")
			}
			continue
		}
		if o.K == "Restart" || o.K == "Many" {
			h.do(o, h.w.Root())
			continue
		}
		if (o.K == "MAdd" || o.K == "MDel") && len(o.S) != 2 {
			continue
		}
		if o.K == "GetToken" && h.w.cryptoN == "nocrypto" && o.Str(1) == "return-error" {
			continue
		}
		p := h.plan(o)
		if _, known := types.Capability_name[int32(o.Int(1))]; o.K == "Cap" && !known {
			continue
		}
		if o.K == "GRule" && ruleAct(o.Str(2)) == nil || o.K == "Cap" && action(o.Str(1)) == nil {
			p.want, p.anyErr, p.mutate, p.free = nil, true, nil, false
		}
		if (o.K == "ECreate" || o.K == "GCreate") && o.Int(6) != 0 {
			p.want, p.anyErr, p.mutate, p.free = nil, true, nil, false
		}
		ms, err := cl.send(o, p, h.w.Root())
		code := status.Code(err)
		t.Tracef("%s -> %v", opStr(o), err)
		for _, s := range []*netsrv{cl.a, cl.b} {
			if s.crash != nil {
				t.Failf("crash", "%s crashes the server: %v\n%s", opStr(o), s.crash.Val, trimStack(s.crash.Stack))
			}
		}
		if err != nil && code == codes.Unknown {
			// The client refused on its own: as good as any refusal.
			if p.ok(codes.OK) && !p.free || p.want == nil && !p.anyErr && !p.free {
				ms = append(ms, mismatch{"code:" + o.K, fmt.Sprintf("the client ends with %v, want %s", err, p.wantStr())})
			}
		} else if !p.ok(code) {
			ms = append(ms, mismatch{"code:" + o.K, fmt.Sprintf("the client ends with %v, want %s", err, p.wantStr())})
		}
		if err == nil {
			h.okOps++
			t.Class("ok:" + o.K)
			if p.mutate != nil {
				p.mutate()
			}
		} else {
			h.badOps++
			t.Class("refused:" + o.K)
		}
		ms = append(ms, cl.look()...)
		ms = append(ms, h.compare("")...)
		h.judge(o, ms)
	}
	if h.okOps >= 3 && h.badOps >= 1 {
		t.NonTrivial()
	}
}
