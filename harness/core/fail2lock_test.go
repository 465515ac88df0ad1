//go:build go1.22

package core

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/tree"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// f2lConf is one configuration of the plugin, and what it means.
type f2lConf struct {
	toml    string
	allowed int
	span    time.Duration
}

var f2lConfs = map[string]f2lConf{
	"none":     {"", 3, 15 * time.Minute},
	"section":  {"[plugin.fail2lock]\n", 3, 15 * time.Minute},
	"allowed1": {"[plugin.fail2lock]\nallowed_fails = 1\n", 1, 15 * time.Minute},
	"allowed5": {"[plugin.fail2lock]\nallowed_fails = 5\n", 5, 15 * time.Minute},
	"interval": {"[plugin.fail2lock]\ninterval = \"2h\"\n", 3, 2 * time.Hour},
	"both":     {"[plugin.fail2lock]\nallowed_fails = 2\ninterval = \"90s\"\n", 2, 90 * time.Second},
	"short1":   {"[plugin.fail2lock]\nallowed_fails = 1\ninterval = \"300ms\"\n", 1, 300 * time.Millisecond},
	"short2":   {"[plugin.fail2lock]\nallowed_fails = 2\ninterval = \"400ms\"\n", 2, 400 * time.Millisecond},
	"short3":   {"[plugin.fail2lock]\nallowed_fails = 3\ninterval = \"350ms\"\n", 3, 350 * time.Millisecond},
}

var f2lNames = []string{"none", "section", "allowed1", "allowed5", "interval", "both", "short1", "short2", "short3"}

var f2lSets = map[string]*plugSet{}

func f2lSet(t *eng.T, conf string) *plugSet {
	plugBoot()
	if s := f2lSets[conf]; s != nil {
		return s
	}
	bin := os.Getenv("VERIF_FAIL2LOCK")
	if bin == "" {
		panic("harness panic: no VERIF_FAIL2LOCK")
	}
	name := "fail2lock-" + conf
	dir := plugDir(name)
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, "config.toml"), []byte("[log]\nlevel = \"ERROR\"\n"+f2lConfs[conf].toml), 0644); err != nil {
		panic(err)
	}
	f := filepath.Join(plugHome, name+".treeplugin")
	sh := fmt.Sprintf("#!/bin/sh\ncd '%s' || exit 1\necho $$ > pid\nexec '%s'\n", dir, bin)
	if err := os.WriteFile(f, []byte(sh), 0755); err != nil {
		panic(err)
	}
	s := plugStart(t, []string{name}, []string{f})
	f2lSets[conf] = s
	return s
}

// f2lEnt is what is known about one entity.
type f2lEnt struct {
	secret string
	locked bool
	um     map[string]string
	flag   bool
	fails  []f2lFail
}

// f2lFail is a counted attempt: when, at the earliest and latest, and
// whether it is certain that it counts.
type f2lFail struct {
	lo, hi time.Time
	sure   bool
}

// counts says how many attempts count, at least and at most.
func (e *f2lEnt) counts(t0, t1 time.Time, span time.Duration) (min, max int) {
	for _, f := range e.fails {
		if f.sure && f.lo.After(t1.Add(-span)) {
			min++
		}
		if f.hi.After(t0.Add(-span)) {
			max++
		}
	}
	return
}

func (e *f2lEnt) unsure() {
	for i := range e.fails {
		e.fails[i].sure = false
	}
}

var f2lSeq int

// runFail2lock drives authentications through the real plugin.
func runFail2lock(t *eng.T, c *eng.Case) {
	conf, ok := f2lConfs[c.Cfg["conf"]]
	if !ok {
		t.Abandon("no such configuration")
	}
	s := f2lSet(t, c.Cfg["conf"])
	s.use()
	plugNext = func(m *tree.Manager) {
		plugMgr.ConfigureEntityChains(m.RegisterEntityHookToChain)
		plugMgr.ConfigureGroupChains(m.RegisterGroupHookToChain)
	}
	w := NewWorld(t, "memory", "nocrypto")
	// The plugin remembers entities longer than a case takes.
	f2lSeq++
	pre := fmt.Sprintf("%d-", f2lSeq)
	ents := map[string]*f2lEnt{}
	lockouts, refused, accepted := 0, 0, 0
	var mu sync.Mutex

	// attempt authenticates and says what went wrong.
	attempt := func(id, secret, how string) string {
		e := ents[id]
		t0 := time.Now()
		var code codes.Code
		switch how {
		case "self":
			q := ent(pre + id)
			q.Secret = str(secret)
			_, code = w.Call("AuthChangeSecret", w.Token(pre+id), &pb.AuthRequest{Entity: q, Secret: str("new" + secret)})
		case "token":
			_, code = w.Call("AuthGetToken", "", &pb.AuthRequest{Entity: ent(pre + id), Secret: str(secret)})
		default:
			_, code = w.Call("AuthEntity", "", &pb.AuthRequest{Entity: ent(pre + id), Secret: str(secret)})
		}
		t1 := time.Now()
		mu.Lock()
		defer mu.Unlock()
		what := fmt.Sprintf("authentication of %q with %q (%s)", id, secret, how)
		t.Tracef("%s -> %v", what, code)
		if e == nil {
			if code == codes.OK {
				return what + " succeeds though there is no such entity"
			}
			return ""
		}
		min, max := e.counts(t0, t1, conf.span)
		right := secret == e.secret && !e.locked && secret != ""
		good := func() {
			if e.flag {
				delete(e.um, "fail2lock")
			}
			e.fails, e.flag = nil, false
			accepted++
			if how == "self" {
				e.secret = "new" + secret
			}
		}
		if e.flag {
			// The operator asked to forget what was.
			if right != (code == codes.OK) {
				return fmt.Sprintf("%s ends with %v though a reset was asked for, and the secret and lock allow it: %v", what, code, right)
			}
			if right {
				good()
				t.Class("reset")
			} else {
				e.unsure()
				e.fails = append(e.fails, f2lFail{t0, t1, false})
			}
			return ""
		}
		switch {
		case code == codes.OK:
			if !right {
				return what + " succeeds though the secret or a lock forbids it"
			}
			if min >= conf.allowed {
				return fmt.Sprintf("%s succeeds after %d failures in the interval, allowed are %d", what, min, conf.allowed)
			}
			good()
		case right && max < conf.allowed:
			return fmt.Sprintf("%s is refused (%v) after at most %d failures in the interval, allowed are %d", what, code, max, conf.allowed)
		case right || min >= conf.allowed:
			lockouts++ // refused because of earlier failures
			t.Class("lockout")
		default:
			refused++
			e.fails = append(e.fails, f2lFail{t0, t1, max < conf.allowed})
		}
		return ""
	}
	check := func(id string) {
		e := ents[id]
		r, code := w.Call("EntityInfo", "", entReq(pre+id))
		if e == nil {
			return
		}
		if code != codes.OK {
			t.Failf("data", "entity %q cannot be fetched: %v", id, code)
		}
		m := r.(*pb.ListOfEntities).GetEntities()[0].GetMeta()
		if m.GetLocked() != e.locked {
			t.Failf("data", "the lock of entity %q is %v, want %v", id, m.GetLocked(), e.locked)
		}
		// Whether another value of the plugin's key stays is its business.
		var got, want []string
		for _, kv := range m.GetUntypedMeta() {
			if !strings.HasPrefix(kv, "fail2lock:") || kv == "fail2lock:RESET" {
				got = append(got, kv)
			}
		}
		for _, kv := range umStr(e.um) {
			if !strings.HasPrefix(kv, "fail2lock:") || kv == "fail2lock:RESET" {
				want = append(want, kv)
			}
		}
		if !same(got, want) {
			t.Failf("data", "the metadata of entity %q is %q, want %q", id, got, want)
		}
	}
	for _, o := range c.Ops {
		id := o.Str(0)
		e := ents[id]
		switch o.K {
		case "Create":
			q := ent(pre + id)
			q.Secret, q.Number = str(o.Str(1)), proto.Int32(-1)
			_, code := w.Call("EntityCreate", w.Root(), &pb.EntityRequest{Entity: q})
			t.Tracef("create %q with %q -> %v", id, o.Str(1), code)
			if code == codes.OK {
				ne := &f2lEnt{secret: o.Str(1), um: map[string]string{}}
				if e != nil {
					t.Abandon("created twice")
				}
				ents[id] = ne
			}
		case "Auth":
			how := o.Str(2)
			if msg := attempt(id, o.Str(1), how); msg != "" {
				t.Failf("lockout", "%s (configuration %s)", msg, c.Cfg["conf"])
			}
			check(id)
		case "Sleep":
			if conf.span < time.Second {
				time.Sleep(time.Duration(o.Int(0)) * time.Millisecond)
			}
		case "Lock", "Unlock":
			if e == nil {
				continue
			}
			_, code := w.Call("Entity"+o.K, w.Root(), entReq(pre+id))
			t.Tracef("%s %q -> %v", o.K, id, code)
			if code != codes.OK {
				t.Failf("other", "%s of %q ends with %v", o.K, id, code)
			}
			e.locked = o.K == "Lock"
			check(id)
		case "Meta":
			if e == nil || strings.Contains(o.Str(1), ":") {
				continue
			}
			k := o.Str(1)
			act := pb.Action_UPSERT
			_, code := w.Call("EntityUM", w.Root(), &pb.KVRequest{Target: str(pre + id), Action: &act, Key: str(k), Value: str(o.Str(2))})
			t.Tracef("metadata %q of %q = %q -> %v", k, id, o.Str(2), code)
			if code != codes.OK {
				t.Failf("other", "setting metadata of %q ends with %v", id, code)
			}
			e.um[k] = o.Str(2)
			if k == "fail2lock" {
				e.flag = o.Str(2) == "RESET"
				if !e.flag && strings.HasPrefix(o.Str(2), "RESET:") {
					t.Abandon("nearly a flag")
				}
			}
			check(id)
		case "Secret":
			if e == nil {
				continue
			}
			_, code := w.Call("AuthChangeSecret", w.Root(), &pb.AuthRequest{Entity: ent(pre + id), Secret: str(o.Str(1))})
			t.Tracef("secret of %q = %q -> %v", id, o.Str(1), code)
			if code != codes.OK {
				t.Failf("other", "setting the secret of %q ends with %v", id, code)
			}
			e.secret = o.Str(1)
		case "Burst":
			// Sequences of attempts, one per entity, at the same time.
			msgs := make([]string, len(o.Sub))
			var wg sync.WaitGroup
			seen := map[string]bool{}
			for i, sub := range o.Sub {
				if seen[sub.Str(0)] {
					continue
				}
				seen[sub.Str(0)] = true
				wg.Add(1)
				go func(i int, sub eng.Op) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							msgs[i] = fmt.Sprint(x)
						}
					}()
					for j := 1; j < len(sub.S); j++ {
						if m := attempt(sub.Str(0), sub.Str(j), "auth"); m != "" {
							msgs[i] = m
							return
						}
					}
				}(i, sub)
			}
			wg.Wait()
			for _, m := range msgs {
				if m != "" {
					t.Failf("lockout", "at the same time as others: %s (configuration %s)", m, c.Cfg["conf"])
				}
			}
			t.Class("burst")
			for _, sub := range o.Sub {
				check(sub.Str(0))
			}
		case "Pile":
			// Wrong attempts at one entity, all at the same time.
			if e == nil || e.flag {
				continue
			}
			n := int(o.Int(0))
			t0 := time.Now()
			var wg sync.WaitGroup
			bad := ""
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					_, code, p := w.TryCall("AuthEntity", "", &pb.AuthRequest{Entity: ent(pre + id), Secret: str("wrong" + e.secret)})
					if p != nil || code == codes.OK {
						mu.Lock()
						bad = fmt.Sprint(code, p)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			t1 := time.Now()
			t.Tracef("%d attempts at %q with a wrong secret at the same time", n, id)
			if bad != "" {
				t.Failf("lockout", "a wrong secret of %q among %d attempts at the same time: %s", id, n, bad)
			}
			_, max := e.counts(t0, t1, conf.span)
			for i := 0; i < n; i++ {
				// As many count as there was room for.
				e.fails = append(e.fails, f2lFail{t0, t1, max+i < conf.allowed})
			}
			t.Class("pile")
		}
	}
	if accepted >= 1 && refused >= 1 && lockouts >= 1 {
		t.NonTrivial()
	}
}

func genFail2lock(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{"conf": r.Weighted("none", 3, "section", 1, "allowed1", 3, "allowed5", 3, "interval", 2, "both", 4, "short1", 1, "short2", 1, "short3", 1)}}
	short := strings.HasPrefix(c.Cfg["conf"], "short")
	g := newGen(r, 2+r.Intn(4), 1)
	sec := map[string]string{}
	for _, e := range g.ents {
		sec[e] = r.Pick("s1", "s2", "S1", "x y")
		c.Ops = append(c.Ops, eng.O("Create", e, sec[e]))
	}
	pick := func(e string) string {
		if r.Chance(2, 5) {
			return sec[e]
		}
		return r.Pick("s1", "s2", "s3", "", "S1", "wrong")
	}
	n := 15 + r.Intn(30)
	if short {
		n = 12 + r.Intn(12)
	}
	for i := 0; i < n; i++ {
		e := g.e()
		if r.Chance(2, 5) {
			e = g.ents[0] // one gets most of the attempts
		}
		switch r.Weighted("Auth", 60, "Sleep", 12, "Lock", 4, "Unlock", 6, "Meta", 8, "Secret", 3, "Burst", 4, "Pile", 3) {
		case "Auth":
			how := r.Weighted("auth", 8, "token", 2, "self", 1)
			x := pick(e)
			c.Ops = append(c.Ops, eng.O("Auth", e, x, how))
			if how == "self" && x == sec[e] {
				c.Ops = append(c.Ops, eng.O("Secret", e, sec[e]))
			}
		case "Sleep":
			if short {
				c.Ops = append(c.Ops, eng.Op{K: "Sleep"}.WithN(int64(20+r.Intn(450))))
			}
		case "Lock":
			c.Ops = append(c.Ops, eng.O("Lock", e))
		case "Unlock":
			c.Ops = append(c.Ops, eng.O("Unlock", e))
		case "Meta":
			if r.Chance(2, 3) {
				c.Ops = append(c.Ops, eng.O("Meta", e, "fail2lock", r.Weighted("RESET", 5, "reset", 1, "", 1, "x", 1, "RESETTED", 1, "UNRESET", 1)))
			} else {
				c.Ops = append(c.Ops, eng.O("Meta", e, r.Pick("k", "fail2", "fail2locks", "j"), r.Pick("v", "RESET", "fail2lock")))
			}
		case "Secret":
			sec[e] = r.Pick("s1", "s2", "s4")
			c.Ops = append(c.Ops, eng.O("Secret", e, sec[e]))
		case "Burst":
			o := eng.Op{K: "Burst"}
			for _, x := range g.ents {
				sub := eng.O("seq", x)
				for k := 1 + r.Intn(5); k > 0; k-- {
					sub.S = append(sub.S, eng.S(pick(x)))
				}
				o.Sub = append(o.Sub, sub)
			}
			c.Ops = append(c.Ops, o)
		case "Pile":
			c.Ops = append(c.Ops, eng.O("Pile", e).WithN(int64(1+r.Intn(6))))
		}
	}
	return c
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C25", Name: "fail2lock", Quick: 1200, Deep: 20000, MaxSeconds: 120, Sched: true, Retries: 5,
		Rule: "at least one accepted authentication, one counted failure and one refusal because of earlier failures",
		Gen:  genFail2lock, Run: runFail2lock,
	})
}

var _ = types.Entity{}
