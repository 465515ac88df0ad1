//go:build go1.22

package core

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- C09: what the server program writes ----

// runServerLog lets the server program, with or without plugins, and at any
// level of detail of its log, do what a case asks for, and reads the log.
func runServerLog(t *eng.T, c *eng.Case) {
	b := c.Cfg["backend"]
	if b != "filesystem" && b != "bitcask" {
		return
	}
	d := newDaemon(t, b)
	d.env = []string{"NETAUTH_LOGLEVEL=" + c.Cfg["level"]}
	over := map[string]string{}
	if k := c.Cfg["plugin"]; k == "fail2lock" || k == "active" {
		over["plugin.enabled"] = "true"
		dir := filepath.Join(d.home, "plugins")
		must(os.MkdirAll(dir, 0755))
		f := filepath.Join(dir, k+".treeplugin")
		if k == "fail2lock" {
			b, err := os.ReadFile(os.Getenv("VERIF_FAIL2LOCK"))
			must(err)
			must(os.WriteFile(f, b, 0755))
			over["plugin.fail2lock.allowed_fails"] = "1"
		} else {
			p := &livePlug{name: k, kind: "a", dir: filepath.Join(d.dir, "notes")}
			must(os.MkdirAll(p.dir, 0755))
			must(os.WriteFile(f, []byte(p.script()), 0755))
		}
	}
	plain, stored := map[string]bool{}, map[string]bool{}
	scan := func() {
		for _, v := range readStore(t, d.home, b) {
			var e types.Entity
			if proto.Unmarshal([]byte(v), &e) == nil && len(e.GetSecret()) > 20 {
				stored[e.GetSecret()] = true
			}
		}
		log, err := os.ReadFile(d.log)
		must(err)
		for what, l := range map[string]map[string]bool{"secret": plain, "stored form of a secret": stored} {
			var ws []string
			for w := range l {
				ws = append(ws, w)
			}
			sort.Strings(ws)
			for _, w := range ws {
				if i := strings.Index(string(log), w); i >= 0 {
					from := strings.LastIndexByte(string(log[:i]), '\n') + 1
					t.Failf("leak", "the log of the server contains the %s %q: %s", what, w, clip(string(log[from:])))
				}
			}
		}
	}
	var done int
	start := func(boot string) {
		if boot != "" {
			if i := strings.Index(boot, ":"); i > 0 && len(boot) > i+7 {
				plain[boot[i+1:]] = true
			}
		}
		if !d.start(settings{over: over, boot: boot}) {
			t.Class("not-started")
		}
	}
	start(c.Cfg["boot"])
	for _, o := range c.Ops {
		if d.cmd == nil {
			break
		}
		if o.K == "Restart" {
			d.stop("term")
			scan()
			start(o.Str(0))
			continue
		}
		if (o.K == "ECreate" || o.K == "ESecret") && len(o.Str(1)) > 6 {
			plain[o.Str(1)] = true
		}
		p := d.h.plan(o)
		tok := d.h.w.Root()
		if o.K == "ESecret" && len(o.S) > 2 {
			// By the entity itself.
			p.req.(*pb.AuthRequest).Entity.Secret = str(o.Str(2))
			tok = d.h.w.Token(o.Str(0))
		}
		_, code := d.h.w.Call(p.method, tok, p.req)
		t.Tracef("%s -> %v", opStr(o), code)
		t.Class(fmt.Sprintf("%s:%v", o.K, code == codes.OK))
		if code == codes.OK && (o.K == "ECreate" || o.K == "ESecret" || o.K == "Auth") {
			done++
		}
	}
	if d.cmd != nil {
		d.stop("term")
	}
	scan()
	if done >= 3 && len(stored) > 0 {
		t.NonTrivial()
	}
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C09", Name: "server-log", Quick: 160, Deep: 4000, Retries: 4, MaxSeconds: 120,
		Rule:  "at least three requests about secrets succeeded, and secrets were stored",
		Scope: []string{"leak"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(2), 1)
			c := &eng.Case{Cfg: map[string]string{"backend": r.Pick(daemonBackend...), "level": r.Pick("TRACE", "TRACE", "TRACE", "DEBUG", "INFO", ""), "plugin": r.Weighted("", 2, "fail2lock", 1, "active", 1)}}
			last := map[string]string{}
			word := func() string { return secretWord(int64(r.Intn(100000))) }
			boot := func() string {
				if !r.Chance(1, 2) {
					return ""
				}
				e, w := g.e(), word()
				last[e] = w
				return e + ":" + w
			}
			c.Cfg["boot"] = boot()
			g.weights("ECreate", 8, "ESecret", 8, "Auth", 10, "GetToken", 4, "EDestroy", 1, "ELock", 2, "EUnlock", 2, "EUpdate", 2, "EUM", 2, "EKV", 1, "EKey", 1, "MAdd", 1, "Cap", 1)
			for _, e := range g.ents {
				w := word()
				c.Ops = append(c.Ops, eng.O("ECreate", e, w).WithN(-1))
				if last[e] == "" {
					last[e] = w
				}
			}
			for i := 5 + r.Intn(12); i > 0; i-- {
				o := g.op(g.kind())
				switch o.K {
				case "ECreate":
					o.S[1] = eng.S(word())
				case "ESecret":
					old := last[o.Str(0)]
					w := word()
					o.S = append(o.S[:1:1], eng.S(w))
					if r.Chance(1, 2) {
						if r.Chance(1, 3) {
							old = "wrong"
						}
						o.S = append(o.S, eng.S(old))
					}
					last[o.Str(0)] = w
				case "Auth", "GetToken":
					if s := last[o.Str(0)]; r.Chance(2, 3) {
						o.S[1] = eng.S(s)
					}
				}
				c.Ops = append(c.Ops, o)
				if r.Chance(1, 12) {
					c.Ops = append(c.Ops, eng.O("Restart", boot()))
				}
			}
			return c
		},
		Run: runServerLog,
	})
}
