//go:build go1.22

package core

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/spf13/viper"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- C09: secrets stay inside ----

func secretWord(i int64) string { return fmt.Sprintf("zqsecret%dxyzzy", i) }

func runLeak(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	plain := map[string]bool{}
	stored := map[string]bool{}
	answered := false
	scan := func(where, text string) {
		for s := range plain {
			if strings.Contains(text, s) {
				t.Failf("leak", "%s reveals the secret %q: %s", where, s, clip(text))
			}
		}
		for s := range stored {
			if strings.Contains(text, s) {
				t.Failf("leak", "%s reveals the stored form of a secret %q: %s", where, s, clip(text))
			}
		}
	}
	h.w.OnResp = func(method string, resp proto.Message, err string) {
		// Only what the server says counts, not what was asked.
		if err != "" {
			scan("the error from "+method, err)
		}
		if resp != nil {
			b, _ := proto.Marshal(resp)
			scan("the response to "+method, string(b))
			scan("the response to "+method, proto.CompactTextString(resp))
			switch x := resp.(type) {
			case *pb.ListOfEntities:
				if len(x.GetEntities()) > 0 && len(stored) > 0 {
					answered = true
				}
			}
		}
	}
	var mu sync.Mutex
	var lines []string
	said := func(line string) {
		mu.Lock()
		defer mu.Unlock()
		lines = append(lines, line)
	}
	heard.Store(&said)
	t.Cleanup(func() { heard.Store(nil) })
	for _, o := range c.Ops {
		for _, x := range append([]eng.Op{o}, o.Sub...) {
			// (Not what has been shortened to a letter: that is
			// part of other words.)
			if (x.K == "ECreate" || x.K == "ESecret") && len(x.Str(1)) > 6 {
				plain[x.Str(1)] = true
			}
		}
		switch {
		case o.K == "Ask":
			h.ask(o)
			continue
		case o.K == "As":
			h.doAs(o)
		case o.K == "Fault" && len(o.Sub) > 0:
			p := h.plan(o.Sub[0])
			f := &fault{mode: o.Str(0), nth: int(o.Int(0))}
			f.install(h.w.kv)
			h.w.Call(p.method, h.w.Root(), p.req)
			h.w.kv.Before, h.w.kv.AfterErr = nil, nil
			t.Tracef("%s with fault %s/%d (fired: %v)", opStr(o.Sub[0]), f.mode, f.nth, f.fired)
			if f.fired {
				t.Class("fault")
				h.adopt()
			}
		default:
			h.do(o, h.w.Root())
		}
		for k, v := range h.w.Snapshot() {
			if strings.HasPrefix(k, "/entities/") {
				var e types.Entity
				if proto.Unmarshal([]byte(v), &e) == nil && len(e.GetSecret()) > 6 {
					stored[e.GetSecret()] = true
				}
			}
		}
		mu.Lock()
		read := lines
		lines = nil
		mu.Unlock()
		for _, l := range read {
			scan("the server's log", l)
		}
	}
	// A search must not say which entity has which secret.
	var ws []string
	for s := range plain {
		ws = append(ws, s)
	}
	sort.Strings(ws)
	if len(ws) > 4 {
		ws = ws[:4]
	}
	for _, s := range ws {
		for _, ex := range []string{s, "secret:" + s, "Secret:" + s, s[:len(s)-2] + "*", "secret:zqsecret*", "Meta.secret:" + s} {
			r, code := h.w.Call("EntitySearch", "", &pb.SearchRequest{Expression: str(ex)})
			if code == codes.OK && len(r.(*pb.ListOfEntities).GetEntities()) > 0 {
				t.Failf("leak", "searching for %q finds entity %q", ex, r.(*pb.ListOfEntities).GetEntities()[0].GetID())
			}
		}
	}
	if answered {
		t.NonTrivial()
	}
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// ask performs reads that are no part of the state comparison.
func (h *hist) ask(o eng.Op) {
	tok := ""
	if o.Int(0) != 0 {
		tok = h.w.Root()
	}
	n := o.Str(1)
	switch o.Str(0) {
	case "EntitySearch", "GroupSearch":
		h.w.Call(o.Str(0), tok, &pb.SearchRequest{Expression: str(n)})
	case "EntityInfo", "EntityGroups":
		h.w.Call(o.Str(0), tok, entReq(n))
	case "GroupInfo", "GroupMembers":
		h.w.Call(o.Str(0), tok, grpReq(n))
	case "SystemStatus", "SystemPing":
		h.w.Call(o.Str(0), tok, &pb.Empty{})
	case "AuthValidateToken":
		h.w.Call(o.Str(0), tok, &pb.AuthRequest{Token: str(n)})
	}
}

// ---- C11: one object's requests leave every other object alone ----

var isoNames = []string{"a", "A", "a ", " a", "a.", ".a", "a*", "[a]", "?", "a/b", "a/../b", "./a", "../groups/a", "../entities/a", "../a", "../../a", "../../../a", "/a", "..", ".", "", "...", "é", "e\u0301", "%2e%2e", "a\\b", "a\x00b", "a\nb", "INCLUDE:a", "entities", "groups", "kv", ".mutable", "b", "-", "~", "$HOME", "a:b", "groups/a", "*"}

func dirTree(root string) map[string]string {
	out := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if fi.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		out[rel] = string(b)
		return nil
	})
	return out
}

func runIso(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	root := ""
	if h.w.backend == "filesystem" {
		root = h.w.outer
		for _, f := range []string{"a", "x/a", "x/y/a", "x/y/z/a", "x/y/z/w/a", "x/y/z/w/entities/a", "x/y/z/w/groups/a"} {
			os.MkdirAll(filepath.Dir(filepath.Join(root, f)), 0755)
			os.WriteFile(filepath.Join(root, f), []byte("not the server's"), 0644)
		}
	}
	snap := func() map[string]string {
		if root != "" {
			m := map[string]string{}
			for k, v := range dirTree(root) {
				if strings.HasPrefix(k, "x/y/z/w/kv/") {
					k = k[len("x/y/z/w/kv"):]
				} else {
					k = "outside:" + k
				}
				m[k] = v
			}
			return m
		}
		return h.w.Snapshot()
	}
	weird := 0
	before := snap()
	for _, o := range c.Ops {
		h.do(o, h.w.Root())
		after := snap()
		own := ""
		if o.K != "Restart" {
			n := o.Str(0)
			switch {
			case o.K == "Cap" && o.Int(0) == 0, strings.HasPrefix(o.K, "G") && o.K != "GetToken":
				own = "/groups/" + n
			default:
				own = "/entities/" + n
			}
			if !validName(n) {
				own = ""
			}
		}
		for k, v := range after {
			if b, ok := before[k]; (!ok || !sameStored(k, b, v)) && k != own {
				t.Failf("iso", "after %s: %q changed or appeared: %s -> %s", opStr(o), k, clip(showStored(k, b)), clip(showStored(k, v)))
			}
		}
		for k := range before {
			if _, ok := after[k]; !ok && k != own {
				t.Failf("iso", "after %s: %q is gone", opStr(o), k)
			}
		}
		if own != "" && diffSnap(before, after) != "" && len(h.m.ents)+len(h.m.grps) > 1 {
			weird++
		}
		before = after
	}
	if weird >= 3 {
		t.NonTrivial()
	}
}

// ---- C18: storage faults ----

// parts are what a list in a response consists of.
func parts(m interface{}) (out []string) {
	switch l := m.(type) {
	case *pb.ListOfEntities:
		for _, e := range l.GetEntities() {
			out = append(out, proto.CompactTextString(e))
		}
	case *pb.ListOfGroups:
		for _, g := range l.GetGroups() {
			out = append(out, proto.CompactTextString(g))
		}
	}
	return
}

// fault makes storage operations of one request fail.
type fault struct {
	mode  string // "before": the nth operation fails; "down": it and all later ones; "after": the nth write is performed, then reported as failed
	nth   int
	seen  int
	fired bool
	write bool // it was a write that failed
}

func (f *fault) install(v *VKV) {
	v.Before = func(op, k string) error {
		if v.inCB {
			return nil
		}
		if f.mode == "after" && op != "put" && op != "del" {
			return nil
		}
		n := f.seen
		f.seen++
		if f.mode == "after" {
			return nil
		}
		if n == f.nth || f.mode == "down" && n > f.nth {
			f.fired = true
			f.write = f.write || op == "put" || op == "del"
			return errInjected
		}
		return nil
	}
	v.AfterErr = func(op, k string, err error) error {
		if f.mode == "after" && !v.inCB && (op == "put" || op == "del") && f.seen == f.nth+1 && err == nil {
			f.fired, f.write = true, true
			return errInjected
		}
		return err
	}
}

func runFaults(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	h.w.kv.track = true
	fired := 0
	for _, o := range c.Ops {
		if o.K != "Fault" || len(o.Sub) == 0 {
			h.do(o, h.w.Root())
			continue
		}
		op := o.Sub[0]
		f := &fault{mode: o.Str(0), nth: int(o.Int(0))}
		if op.K == "Ask" {
			// Whatever is answered regardless is what is answered
			// without the fault.
			m, req := askReq(op)
			want, was := h.w.Call(m, "", req)
			f.install(h.w.kv)
			got, code := h.w.Call(m, "", req)
			h.w.kv.Before, h.w.kv.AfterErr = nil, nil
			if !f.fired {
				continue
			}
			fired++
			t.Class("fault:" + f.mode + ":" + m)
			t.Tracef("%s(%q) with fault %s/%d -> %v", m, op.Str(1), f.mode, f.nth, code)
			if code == codes.OK && (was != codes.OK || !same(parts(got), parts(want))) {
				t.Failf("fault:read", "%s(%q), while storage fails, is answered with {%s} instead of with an error; without the fault it is %v {%s}", m, op.Str(1), clip(fmt.Sprint(got)), was, clip(fmt.Sprint(want)))
			}
			if ms := h.compare(""); len(ms) > 0 {
				t.Failf("fault:state", "%s(%q), while storage fails, changed something: %s", m, op.Str(1), ms[0].msg)
			}
			continue
		}
		p := h.plan(op)
		f.install(h.w.kv)
		resp, code := h.w.Call(p.method, h.w.Root(), p.req)
		h.w.kv.Before, h.w.kv.AfterErr = nil, nil
		t.Tracef("%s with fault %s/%d (fired: %v) -> %v", opStr(op), f.mode, f.nth, f.fired, code)
		if !f.fired {
			t.Class("fault-not-reached")
			var ms []mismatch
			if !p.ok(code) {
				ms = append(ms, mismatch{"code:" + op.K, fmt.Sprintf("ends with %v, want %s", code, p.wantStr())})
			} else if code == codes.OK && p.mutate != nil {
				p.mutate()
			}
			h.judge(op, append(ms, h.compare("")...))
			continue
		}
		t.Class("fault:" + f.mode + ":" + op.K)
		fired++
		if p.read {
			if code == codes.OK && op.K != "GetToken" {
				if p.check != nil {
					if x := p.check(resp); x != nil {
						t.Failf("fault:read", "%s, while storage fails, is answered wrongly instead of with an error: %s", opStr(op), x.msg)
					}
				}
				if !p.ok(codes.OK) {
					t.Failf("fault:read", "%s, while storage fails, is answered with success, want %s", opStr(op), p.wantStr())
				}
			}
			if code == codes.OK && op.K == "GetToken" {
				if !p.ok(codes.OK) {
					t.Failf("fault:read", "%s, while storage fails, yields a token, want %s", opStr(op), p.wantStr())
				}
				if cl, err := h.w.tok.Validate(resp.(*pb.AuthResult).GetToken()); err == nil {
					have := set(h.m.effCaps(op.Str(0))...)
					for _, cc := range capList(cl.Capabilities) {
						if !have[cc] {
							t.Failf("fault:read", "%s, while storage fails, yields a token with %s, which the entity does not have", opStr(op), cc)
						}
					}
				}
			}
			if ms := h.compare(""); len(ms) > 0 {
				t.Failf("fault:state", "%s, while storage fails, changed something: %s", opStr(op), ms[0].msg)
			}
			continue
		}
		old := h.m.clone()
		if code == codes.OK {
			if !p.ok(codes.OK) {
				t.Failf("fault:ack", "%s, while storage fails, is acknowledged, want %s", opStr(op), p.wantStr())
			}
			if p.mutate != nil {
				p.mutate()
			}
			if ms := h.compare(""); len(ms) > 0 {
				t.Failf("fault:ack", "%s, while storage fails, is acknowledged, but: %s", opStr(op), ms[0].msg)
			}
			continue
		}
		ms := h.compare("")
		if len(ms) > 0 && f.mode == "after" && p.mutate != nil {
			// The write did happen: the new state is fine, too.
			p.mutate()
			ms2 := h.compare("")
			if len(ms2) == 0 {
				continue
			}
			h.m = old
		}
		if len(ms) > 0 {
			t.Failf("fault:state", "%s failed because of storage, but: %s", opStr(op), ms[0].msg)
		}
	}
	if fired > 0 {
		t.NonTrivial()
	}
}

// ---- C19: concurrent requests ----

// gate lets one storage operation at a time through, in an order drawn
// from a seed.
type gate struct {
	mu      sync.Mutex
	waiting []chan struct{}
	live    int
	arrived chan struct{}
	r       *rand.Rand
	done    chan struct{}
	off     bool
}

func newGate(seed int64, live int) *gate {
	return &gate{live: live, arrived: make(chan struct{}, 64), r: rand.New(rand.NewSource(seed)), done: make(chan struct{})}
}

func (g *gate) wait() {
	ch := make(chan struct{})
	g.mu.Lock()
	if g.off {
		g.mu.Unlock()
		return
	}
	g.waiting = append(g.waiting, ch)
	g.mu.Unlock()
	select {
	case g.arrived <- struct{}{}:
	default:
	}
	<-ch
}

func (g *gate) finish() {
	g.mu.Lock()
	g.live--
	g.mu.Unlock()
	select {
	case g.arrived <- struct{}{}:
	default:
	}
}

func (g *gate) loop() {
	for {
		g.mu.Lock()
		w, l := len(g.waiting), g.live
		g.mu.Unlock()
		if l == 0 {
			break
		}
		if w < l {
			// Somebody is computing, or held up by a lock.
			timer := time.NewTimer(300 * time.Microsecond)
			select {
			case <-g.arrived:
				timer.Stop()
				continue
			case <-timer.C:
			}
		}
		g.mu.Lock()
		if len(g.waiting) > 0 {
			i := g.r.Intn(len(g.waiting))
			ch := g.waiting[i]
			g.waiting = append(g.waiting[:i], g.waiting[i+1:]...)
			close(ch)
		}
		g.mu.Unlock()
	}
	g.mu.Lock()
	g.off = true
	for _, ch := range g.waiting {
		close(ch)
	}
	g.waiting = nil
	g.mu.Unlock()
	close(g.done)
}

type event struct {
	op       eng.Op
	resp     proto.Message
	code     codes.Code
	from, to int64
	p        *Panic
}

func runConcurrent(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	var clients [][]eng.Op
	for _, o := range c.Ops {
		if o.K == "Client" {
			clients = append(clients, o.Sub)
		} else if len(clients) == 0 {
			h.do(o, h.w.Root())
		}
	}
	if len(clients) < 2 {
		return
	}
	seed, _ := strconv.ParseInt(c.Cfg["sched"], 10, 64)
	g := newGate(seed, len(clients))
	h.w.kv.Before = func(op, k string) error { g.wait(); return nil }
	if c.Cfg["points"] == "more" { // and wherever something is logged
		f := g.wait
		pause.Store(&f)
		defer pause.Store(nil)
	}
	evs := make([][]event, len(clients))
	var clock int64
	var cmu sync.Mutex
	tick := func() int64 { cmu.Lock(); defer cmu.Unlock(); clock++; return clock }
	var wg sync.WaitGroup
	tok := h.w.Root()
	// Requests are planned for their form only; the expectations are
	// made when the order is known.
	for i := range clients {
		for _, o := range clients[i] {
			evs[i] = append(evs[i], event{op: o})
		}
	}
	go g.loop()
	for i := range clients {
		i := i
		reqs := make([]*plan, len(evs[i]))
		for j := range evs[i] {
			reqs[j] = (&hist{t: t, w: h.w, m: h.m.clone()}).plan(evs[i][j].op)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer g.finish()
			for j := range evs[i] {
				e := &evs[i][j]
				e.from = tick()
				e.resp, e.code, e.p = h.w.TryCall(reqs[j].method, tok, reqs[j].req)
				e.to = tick()
			}
		}()
	}
	wg.Wait()
	<-g.done
	h.w.kv.Before = nil
	pause.Store(nil)
	for i := range evs {
		for _, e := range evs[i] {
			t.Tracef("client %d [%d,%d]: %s -> %v", i, e.from, e.to, opStr(e.op), e.code)
			if e.p != nil {
				t.Failf("crash", "%s crashes the server: %v\n%s", opStr(e.op), e.p.Val, trimStack(e.p.Stack))
			}
		}
	}
	over := false
	for i := range evs {
		for j := range evs {
			for _, a := range evs[i] {
				for _, b := range evs[j] {
					if i < j && a.from < b.to && b.from < a.to && a.op.Str(0) == b.op.Str(0) && a.code == codes.OK && b.code == codes.OK {
						over = true
					}
				}
			}
		}
	}
	if over {
		t.NonTrivial()
	}
	tried := map[string]bool{}
	why := ""
	visited := map[string]bool{}
	var search func(pos []int, m *model) bool
	search = func(pos []int, m *model) bool {
		key := fmt.Sprint(pos) + m.digest()
		if visited[key] {
			return false
		}
		visited[key] = true
		all := true
		for i := range evs {
			if pos[i] < len(evs[i]) {
				all = false
			}
		}
		if all {
			d := m.digest()
			if tried[d] {
				return false
			}
			tried[d] = true
			hh := &hist{t: t, w: h.w, m: m}
			ms := hh.compare("")
			if len(ms) > 0 {
				why = ms[0].msg
			}
			return len(ms) == 0
		}
		for i := range evs {
			if pos[i] >= len(evs[i]) {
				continue
			}
			e := evs[i][pos[i]]
			// Nothing may come first that only began after something
			// else was over.
			ok := true
			for k := range evs {
				if k != i && pos[k] < len(evs[k]) && evs[k][pos[k]].to < e.from {
					ok = false
				}
			}
			if !ok {
				continue
			}
			hh := &hist{t: t, w: h.w, m: m.clone()}
			p := hh.plan(e.op)
			if !p.ok(e.code) {
				continue
			}
			if e.code == codes.OK && p.check != nil && p.check(e.resp) != nil {
				continue
			}
			if e.code == codes.OK && p.mutate != nil {
				p.mutate()
			}
			np := append([]int{}, pos...)
			np[i]++
			if search(np, hh.m) {
				return true
			}
		}
		return false
	}
	if !search(make([]int, len(evs)), h.m) {
		if why == "" {
			why = "no order explains the answers"
		}
		t.Failf("order", "the outcome of the concurrent requests is that of no order of them (closest: %s)", why)
	}
	// And it is what a restarted server sees.
	before := h.observe()
	h.w.Restart()
	if d := diffObs(before, h.observe()); d != "" {
		t.Failf("order", "after the concurrent requests, a restarted server answers differently: %s", d)
	}
}

// digest is the model's state as text.
func (m *model) digest() string {
	var out []string
	for id, e := range m.ents {
		out = append(out, fmt.Sprintf("E %q %d %q %v %q %q %q %q %q %q", id, e.num, e.secret, e.locked, mapStr(e.typed, "="), setStr(e.groups), capStr(e.caps), setStr(e.keys), umStr(e.um), kvStr(e.kv)))
	}
	for n, g := range m.grps {
		out = append(out, fmt.Sprintf("G %q %d %q %q %q %q %q %q", n, g.num, g.display, g.managed, capStr(g.caps), mapStr(g.rules, "="), umStr(g.um), kvStr(g.kv)))
	}
	sort.Strings(out)
	x := sha256.Sum256([]byte(strings.Join(out, "\n")))
	return string(x[:12])
}

func genConcurrent(r eng.R) *eng.Case {
	g := newGen(r, 1+r.Intn(2), 1+r.Intn(3))
	c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("memory", 6, "filesystem", 1, "bitcask", 1), "sched": strconv.Itoa(r.Intn(1 << 30))}}
	if r.Chance(1, 3) {
		c.Cfg["points"] = "more"
	}
	c.Ops = g.setup()
	for i := r.Intn(4); i > 0; i-- {
		c.Ops = append(c.Ops, g.op(r.Pick("MAdd", "GRule", "EUM", "EKey", "Cap", "EKV")))
	}
	switch r.Intn(5) {
	case 0: // everything
		g.weights("ECreate", 4, "EDestroy", 2, "ELock", 3, "EUnlock", 2, "ESecret", 3, "EUpdate", 5, "EUM", 8, "GUM", 8, "EKV", 8, "GKV", 8, "EKey", 8, "GCreate", 4, "GDestroy", 2, "GUpdate", 4, "GRule", 8, "MAdd", 8, "MDel", 4, "Cap", 8, "Auth", 5)
	case 1: // creations
		g.ents = append(g.ents, "n1", "n2")
		g.grps = append(g.grps, "n1", "n2")
		g.nums = []int64{-1}
		g.weights("ECreate", 10, "GCreate", 10, "EDestroy", 3, "GDestroy", 3)
	case 2: // rules and memberships
		g.weights("GRule", 10, "MAdd", 8, "MDel", 3, "GCreate", 1, "GDestroy", 2, "EDestroy", 1)
	case 3: // one entity
		g.ents = g.ents[:1]
		g.weights("EUM", 8, "EKV", 8, "EKey", 8, "MAdd", 6, "Cap", 5, "ELock", 3, "EUnlock", 3, "ESecret", 3, "Auth", 6, "EUpdate", 5)
	default: // one group
		g.grps = g.grps[:1]
		g.weights("GUM", 8, "GKV", 8, "GUpdate", 5, "Cap", 5, "GDestroy", 1, "GCreate", 1)
	}
	n := 2 + r.Intn(2)
	for i := 0; i < n; i++ {
		cl := eng.O("Client")
		for j := 1 + r.Intn(3); j > 0; j-- {
			o := g.op(g.kind())
			if o.K == "MAdd" || o.K == "MDel" {
				o.S = o.S[:2]
			}
			cl.Sub = append(cl.Sub, o)
		}
		c.Ops = append(c.Ops, cl)
	}
	return c
}

// runStress hammers one server from many clients; the data race detector
// and the consistency of what is left behind decide.
func runStress(t *eng.T, c *eng.Case) {
	h := newHist(t, c)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var pan *Panic
	tok := h.w.Root()
	for _, o := range c.Ops {
		if o.K != "Client" {
			h.do(o, tok)
		}
	}
	for _, o := range c.Ops {
		if o.K != "Client" {
			continue
		}
		sub := o.Sub
		var plans []*plan
		for _, x := range sub {
			if x.K == "Ask" {
				plans = append(plans, nil)
			} else {
				plans = append(plans, (&hist{t: t, w: h.w, m: h.m.clone()}).plan(x))
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, p := range plans {
				var x *Panic
				if p == nil {
					m, rq := askReq(sub[i])
					_, _, x = h.w.TryCall(m, tok, rq)
				} else {
					_, _, x = h.w.TryCall(p.method, tok, p.req)
				}
				if x != nil {
					pmu.Lock()
					pan = x
					pmu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if pan != nil {
		t.Failf("crash", "a request crashes the server: %v\n%s", pan.Val, trimStack(pan.Stack))
	}
	h.adopt()
	if ms := h.compare(""); len(ms) > 0 {
		t.Failf("order", "after the concurrent requests the server's answers contradict its own store: %s", ms[0].msg)
	}
	before := h.observe()
	h.w.Restart()
	if d := diffObs(before, h.observe()); d != "" {
		t.Failf("order", "after the concurrent requests, a restarted server answers differently: %s", d)
	}
	t.NonTrivial()
}

func askReq(o eng.Op) (string, proto.Message) {
	n := o.Str(1)
	switch o.Str(0) {
	case "EntitySearch", "GroupSearch":
		return o.Str(0), &pb.SearchRequest{Expression: str(n)}
	case "GroupInfo", "GroupMembers":
		return o.Str(0), grpReq(n)
	case "SystemStatus":
		return o.Str(0), &pb.Empty{}
	}
	return o.Str(0), entReq(n)
}

// ---- C20: stores ----

// kvOps drives a bare store against a map.
func runKV(t *eng.T, c *eng.Case) {
	boot()
	home := scratch(t)
	viper.Set("core.home", home)
	open := func() db.KVStore {
		viper.Set("core.home", home)
		kv, err := db.NewKV(c.Cfg["backend"], nullLog)
		if err != nil {
			t.Failf("kv:open", "the store does not open: %v", err)
		}
		return kv
	}
	var evs []db.Event
	var cur struct {
		key, val string
		del      bool
	}
	hookup := func(kv db.KVStore) {
		kv.SetEventFunc(func(e db.Event) {
			evs = append(evs, e)
			// Who is told looks at once, and must find what happened.
			if cur.key == "" || path.Base(cur.key) != e.PK {
				return
			}
			v, err := kv.Get(cur.key)
			if cur.del && err == nil {
				t.Failf("kv:event", "%v is announced while %q is still there", e, cur.key)
			}
			if !cur.del && (err != nil || string(v) != cur.val) {
				t.Failf("kv:event", "%v is announced while Get(%q) = %q, %v, want %q", e, cur.key, clip(string(v)), err, clip(cur.val))
			}
		})
	}
	kv := open()
	hookup(kv)
	defer func() { kv.Close() }()
	model := map[string]string{}
	over, reopened := false, false
	wantEv := func(o eng.Op, k string, del bool) {
		var want []db.Event
		up, de := db.EventEntityUpdate, db.EventEntityDestroy
		if strings.HasPrefix(k, "/groups/") {
			up, de = db.EventGroupUpdate, db.EventGroupDestroy
		}
		if strings.HasPrefix(k, "/groups/") || strings.HasPrefix(k, "/entities/") {
			ty := up
			if del {
				ty = de
			}
			want = []db.Event{{Type: ty, PK: path.Base(k)}}
		}
		if fmt.Sprint(evs) != fmt.Sprint(want) {
			t.Failf("kv:event", "%s announces %v, want %v", opStr(o), evs, want)
		}
	}
	check := func(o eng.Op) {
		for _, p := range []string{"/entities/*", "/groups/*", "/*/*"} {
			got, err := kv.Keys(p)
			if err != nil {
				t.Failf("kv:keys", "after %s: Keys(%q): %v", opStr(o), p, err)
			}
			var want []string
			for k := range model {
				if m, _ := path.Match(p, k); m {
					want = append(want, k)
				}
			}
			if !same(got, want) {
				t.Failf("kv:keys", "after %s: Keys(%q) = %q, want %q", opStr(o), p, sorted(got), sorted(want))
			}
		}
		for k, v := range model {
			got, err := kv.Get(k)
			if err != nil || string(got) != v {
				t.Failf("kv:get", "after %s: Get(%q) = %q, %v, want %q", opStr(o), k, clip(string(got)), err, clip(v))
			}
		}
	}
	for _, o := range c.Ops {
		evs = nil
		k := o.Str(0)
		switch o.K {
		case "Put":
			v := o.Str(1)
			for i := int64(1); i < o.Int(0); i++ {
				v += o.Str(1)
			}
			buf := []byte(v)
			cur.key, cur.val, cur.del = k, v, false
			err := kv.Put(k, buf)
			for i := range buf {
				buf[i] ^= 0x55 // the caller may reuse its buffer
			}
			t.Tracef("%s -> %v", opStr(o), err)
			if c.Cfg["backend"] == "memory" {
				// The memory store keeps the caller's buffer; its only
				// callers never touch it again.
				for i := range buf {
					buf[i] ^= 0x55
				}
			}
			if err == nil {
				if _, ok := model[k]; ok {
					over = true
				}
				model[k] = v
				wantEv(o, k, false)
			} else if len(k) < 60 {
				t.Failf("kv:put", "%s: %v", opStr(o), err)
			} else if len(evs) > 0 {
				t.Failf("kv:event", "%s fails but announces %v", opStr(o), evs)
			}
		case "Del":
			cur.key, cur.val, cur.del = k, "", true
			err := kv.Del(k)
			t.Tracef("%s -> %v", opStr(o), err)
			if _, ok := model[k]; ok {
				if err != nil {
					t.Failf("kv:del", "%s: %v", opStr(o), err)
				}
				delete(model, k)
				wantEv(o, k, true)
			} else if err != nil && err != db.ErrNoValue && len(k) < 60 {
				t.Failf("kv:del", "%s of a key that does not exist: %v", opStr(o), err)
			}
		case "Get":
			v, err := kv.Get(k)
			want, ok := model[k]
			if ok && (err != nil || string(v) != want) {
				t.Failf("kv:get", "%s = %q, %v, want %q", opStr(o), clip(string(v)), err, clip(want))
			}
			if !ok && (err == nil || len(v) > 0 || err != db.ErrNoValue && len(k) < 60) {
				t.Failf("kv:get", "%s of a key that does not exist = %q, %v", opStr(o), clip(string(v)), err)
			}
		case "Reopen":
			if c.Cfg["backend"] == "memory" {
				continue
			}
			if err := kv.Close(); err != nil {
				t.Failf("kv:close", "closing: %v", err)
			}
			kv = open()
			hookup(kv)
			reopened = true
		}
		check(o)
	}
	if over && (reopened || c.Cfg["backend"] == "memory") {
		t.NonTrivial()
	}
}

func genKV(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("memory", 1, "filesystem", 4, "bitcask", 4)}}
	names := []string{"a", "b", "ab", "é", "x y", "a.b", "[a]", "*", "?", ".a", "%41", "A"}
	var keys []string
	for i := 2 + r.Intn(5); i > 0; i-- {
		keys = append(keys, r.Pick("/entities/", "/entities/", "/groups/", "/other/")+r.Pick(names...))
	}
	if r.Chance(1, 10) {
		keys = append(keys, "/entities/"+strings.Repeat("l", 30+r.Intn(300)))
	}
	for i := 5 + r.Intn(30); i > 0; i-- {
		k := r.Pick(keys...)
		switch r.Intn(12) {
		case 0, 1, 2, 3, 4, 5:
			v := ""
			for j := r.Intn(12); j > 0; j-- {
				v += string([]byte{byte(r.Intn(256))})
			}
			o := eng.O("Put", k, v)
			if r.Chance(1, 20) {
				o = o.WithN(int64(1 + r.Intn(20000)))
			}
			c.Ops = append(c.Ops, o)
		case 6, 7, 8:
			c.Ops = append(c.Ops, eng.O("Del", k))
		case 9, 10:
			c.Ops = append(c.Ops, eng.O("Get", k))
		default:
			c.Ops = append(c.Ops, eng.O("Reopen"))
		}
	}
	if r.Chance(1, 25) { // many values
		n := len(c.Ops)
		for i := 15 + r.Intn(100); i > 0; i-- {
			c.Ops = append(c.Ops, eng.O("Put", fmt.Sprintf("%sn%d", r.Pick("/entities/", "/entities/", "/groups/"), i), "v"))
		}
		k := r.Intn(n)
		c.Ops = append(c.Ops, append([]eng.Op{eng.O("Reopen")}, c.Ops[k:n]...)...)
	}
	return c
}

// enumFaults fails each storage operation of each kind of request.
func enumFaults(string) []*eng.Case {
	var out []*eng.Case
	for _, c0 := range authMatrix(false)("quick") {
		last := c0.Ops[len(c0.Ops)-1]
		if last.Str(0) != "valid" || last.Str(1) != "o" || len(last.S) != 3 || last.Str(2) != "GLOBAL_ROOT" {
			continue
		}
		for _, mode := range []string{"before", "down", "after"} {
			for nth := 0; nth < 12; nth++ {
				if mode == "after" && nth > 1 {
					break
				}
				c := &eng.Case{Cfg: map[string]string{"backend": "memory"}}
				c.Ops = append(c.Ops, c0.Ops[:len(c0.Ops)-1]...)
				f := eng.O("Fault", mode).WithN(int64(nth))
				f.Sub = []eng.Op{last.Sub[0]}
				c.Ops = append(c.Ops, f)
				out = append(out, c)
			}
		}
	}
	return out
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C09", Name: "secret-leaks", Quick: 2500, Deep: 60000,
		Rule:  "a response described an entity that has a secret",
		Scope: []string{"leak", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 1+r.Intn(2))
			c := &eng.Case{Cfg: backendFor(r, 1, 0)}
			if r.Chance(1, 5) {
				c.Cfg["crypto"] = "bcrypt"
			}
			c.Ops = g.start()
			g.weights("ECreate", 5, "ESecret", 8, "EDestroy", 2, "ELock", 3, "EUnlock", 3, "EUpdate", 3, "EUM", 5, "EKV", 5, "EKey", 4, "MAdd", 8, "Auth", 4, "GetToken", 5, "GCreate", 2, "GRule", 2, "Restart", 1)
			for i := 5 + r.Intn(15); i > 0; i-- {
				if r.Chance(1, 3) {
					m := r.Pick("EntitySearch", "EntitySearch", "EntityInfo", "GroupMembers", "GroupInfo", "EntityGroups", "GroupSearch", "SystemStatus")
					a := r.Pick(append(append([]string{}, g.ents...), g.grps...)...)
					if strings.HasSuffix(m, "Search") {
						a = r.Pick("*", "ID:*", "+a", "z*", "zq*", "secret:*", "Name:*", "a b c", "-x *", "meta.Locked:*")
					}
					c.Ops = append(c.Ops, eng.O("Ask", m, a).WithN(int64(r.Intn(2))))
					continue
				}
				o := g.op(g.kind())
				switch {
				case o.K == "Restart":
				case r.Chance(1, 6): // by somebody, who may not be allowed to
					id := g.e()
					if o.K == "ESecret" && r.Chance(2, 3) {
						id = o.Str(0)
					}
					caps := g.caps()
					if o.K == "ESecret" {
						o.S = append(o.S[:2:2], "")
					}
					o = asOp(r.Weighted("valid", 6, "invalid", 1), id, caps, r.Chance(1, 12), o)
				case r.Chance(1, 10):
					f := eng.O("Fault", r.Pick("before", "before", "down", "after")).WithN(int64(r.Intn(5)))
					f.Sub = []eng.Op{o}
					o = f
				}
				c.Ops = append(c.Ops, o)
			}
			// Tell-tale secrets.
			last := map[string]string{}
			for i := range c.Ops {
				o := &c.Ops[i]
				if len(o.Sub) > 0 {
					o = &o.Sub[0]
					if o.K == "ESecret" && len(o.S) > 2 && r.Chance(2, 3) {
						o.S[2] = eng.S(last[o.Str(0)])
					}
				}
				switch o.K {
				case "ECreate", "ESecret":
					o.S[1] = eng.S(secretWord(int64(r.Intn(1000))))
					last[o.Str(0)] = o.Str(1)
				case "Auth", "GetToken":
					if s := last[o.Str(0)]; s != "" && r.Chance(2, 3) {
						o.S[1] = eng.S(s)
					}
				}
			}
			return c
		},
		Run: runLeak,
	})
	eng.Register(&eng.Suite{
		Prop: "C11", Name: "isolation", Quick: 4000, Deep: 100000,
		Rule:  "at least three requests changed an object while another one existed",
		Scope: []string{"iso", "state:exists", "state:stray", "state:id", "code:ECreate", "code:GCreate", "code:EDestroy", "code:GDestroy", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 3, 3)
			for i := range g.ents {
				g.ents[i] = r.Pick(isoNames...)
			}
			for i := range g.grps {
				g.grps[i] = r.Pick(isoNames...)
			}
			c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("memory", 1, "filesystem", 3, "bitcask", 1), "deep": "yes"}}
			if r.Chance(1, 4) {
				g.longNames()
			}
			if r.Chance(1, 2) {
				g.grps[0] = g.ents[0]
			}
			c.Ops = g.setup()
			g.weights("ECreate", 8, "EDestroy", 8, "GCreate", 8, "GDestroy", 8, "EUpdate", 3, "EUM", 3, "GUM", 3, "EKV", 3, "GKV", 3, "EKey", 3, "GUpdate", 3, "GRule", 4, "MAdd", 4, "MDel", 2, "Cap", 4, "ELock", 3, "ESecret", 3, "Auth", 2, "Restart", 1)
			c.Ops = append(c.Ops, g.seq(6+r.Intn(18))...)
			return c
		},
		Run: runIso,
	})
	eng.Register(&eng.Suite{
		Prop: "C18", Name: "storage-faults", Quick: 3000, Deep: 100000,
		Rule:  "a storage operation of a request was made to fail",
		Scope: []string{"fault", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(2), 1+r.Intn(3))
			c := &eng.Case{Cfg: backendFor(r, 2, 1)}
			c.Ops = g.start()
			g.weights("ECreate", 8, "EDestroy", 5, "ELock", 4, "EUnlock", 4, "ESecret", 4, "EUpdate", 4, "EUM", 5, "GUM", 5, "EKV", 5, "GKV", 5, "EKey", 5, "GCreate", 8, "GDestroy", 5, "GUpdate", 5, "GRule", 8, "MAdd", 6, "MDel", 4, "Cap", 5, "Auth", 3, "GetToken", 3)
			for i := 6 + r.Intn(14); i > 0; i-- {
				o := g.op(g.kind())
				if o.K == "MAdd" || o.K == "MDel" {
					o.S = o.S[:2]
				}
				if r.Chance(1, 2) {
					f := eng.O("Fault", r.Pick("before", "before", "down", "after")).WithN(int64(r.Intn(1 + r.Intn(6))))
					f.Sub = []eng.Op{o}
					o = f
				}
				if r.Chance(1, 5) {
					// EntityGroups is meant to leave out what it cannot load.
					m := r.Pick("EntityInfo", "GroupInfo", "GroupMembers", "GroupMembers", "EntitySearch", "GroupSearch")
					a := g.g()
					if m == "EntityInfo" {
						a = g.e()
					} else if strings.HasSuffix(m, "Search") {
						a = "*"
					}
					f := eng.O("Fault", r.Pick("before", "before", "down")).WithN(int64(r.Intn(1 + r.Intn(4))))
					f.Sub = []eng.Op{eng.O("Ask", m, a)}
					c.Ops = append(c.Ops, f)
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run:  runFaults,
		Enum: enumFaults,
	})
	eng.Register(&eng.Suite{
		Prop: "C19", Name: "concurrent-requests", Quick: 4000, Deep: 60000,
		Rule:  "two overlapping requests from different clients to the same object both took effect",
		Scope: []string{"order", "crash"},
		Gen:   genConcurrent, Run: runConcurrent, Sched: true, Retries: 3,
	})
	eng.Register(&eng.Suite{
		Prop: "C19", Name: "race-stress", Quick: 60, Deep: 1500,
		Rule:  "every case: at least four clients at once, under the race detector",
		Scope: []string{"order", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 2+r.Intn(2), 2+r.Intn(3))
			c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("memory", 3, "filesystem", 1, "bitcask", 1)}}
			c.Ops = g.setup()
			g.weights("ECreate", 3, "EDestroy", 3, "ELock", 3, "EUnlock", 3, "ESecret", 3, "EUpdate", 3, "EUM", 5, "GUM", 5, "EKV", 5, "GKV", 5, "EKey", 5, "GCreate", 4, "GDestroy", 3, "GUpdate", 4, "GRule", 12, "MAdd", 10, "MDel", 6, "Cap", 5, "Auth", 4, "GetToken", 6)
			for n := 4 + r.Intn(5); n > 0; n-- {
				cl := eng.O("Client")
				for j := 6 + r.Intn(10); j > 0; j-- {
					if r.Chance(1, 3) {
						m := r.Pick("EntitySearch", "GroupSearch", "EntityInfo", "EntityGroups", "GroupInfo", "GroupMembers", "SystemStatus")
						a := r.Pick(append(append([]string{}, g.ents...), g.grps...)...)
						if strings.HasSuffix(m, "Search") {
							a = "*"
						}
						cl.Sub = append(cl.Sub, eng.O("Ask", m, a))
						continue
					}
					cl.Sub = append(cl.Sub, g.op(g.kind()))
				}
				c.Ops = append(c.Ops, cl)
			}
			return c
		},
		Run: runStress, Sched: true, NoShrink: true, Retries: 2,
	})
	eng.Register(&eng.Suite{
		Prop: "C20", Name: "store-model", Quick: 1200, Deep: 100000,
		Rule: "a value was overwritten, and a store on disk was closed and opened again",
		Gen:  genKV, Run: runKV,
	})
}
