//go:build go1.22

package core

import (
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/zzv/eng"

	pb "github.com/netauth/protocol/v2"
)

// ---- C24, C28: the server program with plugins of its own, and what it
// says about its health ----

// livePlug is one file that may be a plugin of the server.
type livePlug struct {
	name, kind string
	dir        string // where the plugin takes its notes
	listed     bool   // the server was told of it
	loaded     bool   // and could start it
	dead       bool
	seen       int
}

func (p *livePlug) pid() int {
	b, err := os.ReadFile(filepath.Join(p.dir, "pid"))
	if err != nil {
		return 0
	}
	n, _ := strconv.Atoi(string(b))
	return n
}

// running says whether a process has not ended yet.
func running(pid int) bool {
	st, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	return err == nil && !strings.Contains(string(st), ") Z ")
}

func gone(pid int, wait time.Duration) bool {
	for end := time.Now().Add(wait); running(pid); time.Sleep(2 * time.Millisecond) {
		if time.Now().After(end) {
			return false
		}
	}
	return true
}

// pids are those of every process that was started for the plugin.
func (p *livePlug) pids() (out []int) {
	fs, _ := filepath.Glob(filepath.Join(p.dir, "pid-*"))
	for _, f := range fs {
		if n, _ := strconv.Atoi(filepath.Base(f)[4:]); n > 1 {
			out = append(out, n)
		}
	}
	return out
}

func (p *livePlug) calls() int {
	b, _ := os.ReadFile(filepath.Join(p.dir, "calls"))
	return strings.Count(string(b), "\n")
}

func (p *livePlug) script() string {
	kind := map[string]string{"n": "null", "a": "active", "b": "broken"}[p.kind]
	exe, err := os.Executable()
	must(err)
	if kind == "" {
		return "#!/bin/sh\nexit 0\n"
	}
	return fmt.Sprintf("#!/bin/sh\nexport VERIF_CHILD=plugin VERIF_PLUGIN=%s VERIF_PLUGIN_DIR='%s'\nexec '%s' -test.run TestVerif\n", kind, p.dir, exe)
}

func runServerHealth(t *eng.T, c *eng.Case) {
	d := newDaemon(t, "filesystem")
	h := d.h
	over := map[string]string{"keys": "mine"}
	// The key.
	keys := filepath.Join(d.conf, "keys")
	put := func(f string, b []byte, m os.FileMode) {
		os.Remove(filepath.Join(keys, f))
		must(os.WriteFile(filepath.Join(keys, f), b, 0600))
		must(os.Chmod(filepath.Join(keys, f), m))
	}
	pub, err := os.ReadFile(filepath.Join(keyDir(0), "keys", "token.pem"))
	must(err)
	priv, err := os.ReadFile(filepath.Join(keyDir(0), "keys", "token.key"))
	must(err)
	put("token.pem", pub, 0644)
	canSign := true
	switch c.Cfg["key"] {
	case "none":
		canSign = false
	case "junk":
		put("token.key", []byte("no key at all"), 0400)
		canSign = false
	case "other": // well-formed, but not what it should be
		b, _ := pem.Decode(pub)
		put("token.key", pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: b.Bytes}), 0400)
		canSign = false
	case "open":
		put("token.key", priv, 0444)
	case "wide":
		put("token.key", priv, 0600)
	default:
		put("token.key", priv, 0400)
	}
	// The plugins.
	how := c.Cfg["plugins"]
	dir := filepath.Join(d.home, "plugins")
	switch how {
	case "rel":
		dir = filepath.Join(d.home, "some", "where")
		over["plugin.path"] = `"some/where"`
	case "abs", "list":
		dir = filepath.Join(d.dir, "elsewhere")
		over["plugin.path"] = fmt.Sprintf("%q", dir)
	}
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	over["plugin.enabled"] = "true"
	if how == "off" {
		over["plugin.enabled"] = "false"
	} else if how == "unset" {
		delete(over, "plugin.enabled")
	}
	var ps []*livePlug
	var list []string
	byName := map[string]*livePlug{}
	for _, o := range c.Ops {
		if o.K != "Plug" || len(ps) >= 4 {
			continue
		}
		p := &livePlug{name: o.Str(0), kind: o.Str(1)}
		first := byName[p.name]
		if !validName(p.name) || strings.ContainsAny(p.name, ". *?[\\'\"\n") || first != nil && (how != "list" || first.dir == "") || p.name[0] == '-' {
			continue
		}
		p.dir = filepath.Join(d.dir, "notes", fmt.Sprint(len(ps)), p.name)
		dir := dir
		if first != nil { // another one of this name
			dir = filepath.Join(d.dir, "others", fmt.Sprint(len(ps)))
			must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
			t.Class("twins")
		}
		byName[p.name] = p
		must(os.MkdirAll(p.dir, 0755))
		must(os.WriteFile(filepath.Join(p.dir, "linger"), nil, 0600))
		ps = append(ps, p)
		f, mode := filepath.Join(dir, p.name+".treeplugin"), os.FileMode(0755)
		p.listed = how != "off" && how != "unset"
		p.loaded = p.listed && (p.kind == "n" || p.kind == "a")
		src := *p
		switch p.kind {
		case "suffix": // no plugin by its name, unless listed
			f, src.kind = filepath.Join(dir, p.name+".plugin"), "a"
			p.loaded, p.listed = how == "list", how == "list"
		case "deep": // not in the directory itself
			f, src.kind = filepath.Join(dir, "sub", p.name+".treeplugin"), "a"
			p.loaded, p.listed = how == "list", how == "list"
		case "listed": // in the list, whether that counts or not
			f, src.kind = filepath.Join(d.dir, "others", fmt.Sprint("l", len(ps)), p.name+".treeplugin"), "a"
			must(os.MkdirAll(filepath.Dir(f), 0755))
			p.loaded, p.listed = how == "list", how == "list"
			over["plugin.list"] = fmt.Sprintf("[%q]", f)
		case "unlisted": // only in the directory
			src.kind = "a"
			p.loaded = p.listed && how != "list"
			p.listed = p.loaded
			must(os.WriteFile(f, []byte(src.script()), mode))
			continue
		case "plain": // not to be executed
			mode, src.kind = 0644, "a"
		case "missing":
			p.listed = how == "list"
			list = append(list, f)
			continue
		}
		must(os.WriteFile(f, []byte(src.script()), mode))
		list = append(list, f)
		if o.Str(2) == "twice" {
			list = append(list, f)
		}
	}
	t.Cleanup(func() {
		for _, p := range ps {
			for _, n := range p.pids() {
				if running(n) {
					syscall.Kill(n, syscall.SIGKILL)
				}
			}
		}
	})
	if how == "list" {
		over["plugin.loadstatic"] = "true"
		over["plugin.list"] = "[]"
		if len(list) > 0 {
			over["plugin.list"] = `["` + strings.Join(list, `", "`) + `"]`
		}
	}
	if !d.start(settings{over: over}) {
		t.Failf("live:start", "the server does not start: %s", d.tail())
	}
	dead := false
	for _, p := range ps {
		if n := p.pid(); (n != 0) != p.loaded {
			t.Failf("plug:load", "plugins %q: %s (%s) was started: %v, want %v", how, p.name, p.kind, n != 0, p.loaded)
		}
	}
	mixed := false
	for _, o := range c.Ops {
		d.alive()
		switch o.K {
		case "Plug":
		case "Chmod":
			f := map[string]string{"pub": "token.pem", "priv": "token.key"}[o.Str(0)]
			if m := o.Int(0); f != "" && m >= 0 && m <= 0777 {
				t.Tracef("chmod %o %s", m, f)
				os.Chmod(filepath.Join(keys, f), os.FileMode(m))
			}
		case "Drop":
			if f := map[string]string{"pub": "token.pem", "priv": "token.key"}[o.Str(0)]; f != "" {
				t.Tracef("%s removed", f)
				os.Remove(filepath.Join(keys, f))
			}
		case "Kill":
			for i, p := range ps {
				if n := p.pid(); int64(i) == o.Int(0) && p.loaded && !p.dead && n > 1 {
					t.Tracef("plugin %s is killed", p.name)
					syscall.Kill(n, syscall.SIGKILL)
					if !gone(n, 20*time.Second) {
						t.Abandon("the plugin does not end")
					}
					os.Remove(filepath.Join(p.dir, "pid"))
					p.dead, dead = true, true
					t.Class("killed")
				}
			}
		case "Status":
			key := !canSign
			for f, want := range map[string]os.FileMode{"token.pem": 0644, "token.key": 0400} {
				if fi, err := os.Stat(filepath.Join(keys, f)); err != nil || fi.Mode().Perm() != want {
					key = true
				}
			}
			// The subsystems of a name: how many are well, and how many not.
			want, got := map[string][2]int{}, map[string][2]int{}
			add := func(m map[string][2]int, n string, bad bool) {
				x := m[n]
				if bad {
					x[1]++
				} else {
					x[0]++
				}
				m[n] = x
			}
			add(want, "TKN_JWT-RSA", key)
			for _, p := range ps {
				if p.listed {
					add(want, "plugin-"+p.name, !p.loaded || p.dead)
				}
			}
			r, code := h.w.Call("SystemStatus", "", &pb.Empty{})
			if code != codes.OK {
				t.Failf("health", "SystemStatus ends with %v", code)
			}
			st := r.(*pb.ServerStatus)
			t.Tracef("status %v", st)
			nbad := 0
			for _, s := range st.GetSubSystems() {
				add(got, s.GetName(), !s.GetOK())
				if !s.GetOK() {
					nbad++
					if s.GetFaultMessage() == "" {
						t.Failf("health", "nothing is said about what is wrong with %s", s.GetName())
					}
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Failf("health", "the status lists %v (number of those that are well, and that are not), want %v", got, want)
			}
			if st.GetSystemOK() != (nbad == 0) {
				t.Failf("health", "the server is reported as %v with %d broken subsystems", st.GetSystemOK(), nbad)
			}
			if (st.FirstFailure != nil) != (nbad > 0) || nbad > 0 && (want[st.FirstFailure.GetName()][1] == 0 || st.FirstFailure.GetOK()) {
				t.Failf("health", "the first failure is %v, with %v", st.FirstFailure, want)
			}
			if nbad > 0 && nbad < len(st.GetSubSystems()) {
				mixed = true
			}
			t.Class(fmt.Sprintf("status:%v", nbad == 0))
			if _, code := h.w.Call("SystemPing", "", &pb.Empty{}); code != codes.OK {
				t.Failf("health", "SystemPing ends with %v", code)
			}
		default:
			p := h.plan(o)
			hooks := hooksOf(o)
			if dead && len(hooks) > 0 && !p.free {
				p.anyErr, p.want, p.mutate, p.check = true, nil, nil, nil
			}
			if o.K == "GetToken" && !canSign {
				p.anyErr, p.want, p.check = true, nil, nil
			}
			before := map[*livePlug]int{}
			for _, q := range ps {
				before[q] = q.calls()
			}
			oks := h.okOps
			ms := h.exec(o, p, h.w.Root())
			for _, q := range ps {
				n, want := q.calls()-before[q], 0
				if h.okOps > oks && q.loaded && !q.dead && q.kind != "n" {
					want = len(hooks)
				}
				if dead && len(hooks) > 0 || h.okOps == oks && q.loaded {
					continue
				}
				if n != want {
					t.Failf("plug:calls", "%s called plugin %s (%s) %d times, want %d", opStr(o), q.name, q.kind, n, want)
				}
			}
			for _, m := range append(ms, h.compare("")...) {
				t.Failf("plug:state", "%s with plugins %v: %s", opStr(o), c.Cfg, m.msg)
			}
		}
	}
	if mixed || h.okOps >= 2 {
		t.NonTrivial()
	}
	d.stop("term")
	for _, p := range ps {
		for _, pid := range p.pids() {
			if !gone(pid, 8*time.Second) {
				t.Failf("plug:leak", "the server ended as it was told to, but its plugin %s goes on", p.name)
			}
		}
	}
}

func genServerHealth(r eng.R, health bool) *eng.Case {
	g := newGen(r, 2, 1)
	c := &eng.Case{Cfg: map[string]string{"key": "good", "plugins": r.Weighted("default", 3, "rel", 2, "abs", 2, "list", 3, "off", 1, "unset", 1)}}
	if health {
		c.Cfg["key"] = r.Weighted("good", 6, "none", 1, "junk", 1, "other", 1, "open", 1, "wide", 1)
	}
	np := r.Intn(3)
	if !health {
		np = 1 + r.Intn(3)
	}
	names := []string{"one", "two", "fail2lock", "tree", "plug_in", "x"}
	for _, i := range r.Perm(len(names))[:np] {
		for {
			c.Ops = append(c.Ops, eng.O("Plug", names[i], r.Weighted("n", 3, "a", 6, "b", 1, "x", 1, "suffix", 2, "deep", 2, "plain", 1, "missing", 1, "listed", 1, "unlisted", 1), r.Weighted("", 6, "twice", 1)))
			if c.Cfg["plugins"] != "list" || !r.Chance(1, 5) {
				break
			}
		}
	}
	c.Ops = append(c.Ops, eng.O("ECreate", g.e(), "s1").WithN(-1))
	g.weights("ECreate", 4, "EDestroy", 1, "ELock", 2, "EUnlock", 2, "ESecret", 2, "EUpdate", 3, "EUM", 3, "GCreate", 3, "GUpdate", 3, "GUM", 3, "Auth", 3, "GetToken", 3, "EKey", 2)
	for i := 3 + r.Intn(6); i > 0; i-- {
		switch {
		case !health && r.Chance(9, 10):
			c.Ops = append(c.Ops, g.op(g.kind()))
		case r.Chance(1, 2):
			c.Ops = append(c.Ops, eng.O("Status"))
		case r.Chance(1, 4):
			c.Ops = append(c.Ops, g.op(g.kind()))
		case health && r.Chance(1, 2):
			c.Ops = append(c.Ops, eng.O("Chmod", r.Pick("pub", "priv")).WithN([]int64{0644, 0400, 0600, 0444, 0666, 0640, 0777, 0}[r.Intn(8)]), eng.O("Status"))
		case health && r.Chance(1, 3):
			c.Ops = append(c.Ops, eng.O("Drop", r.Pick("pub", "priv")), eng.O("Status"))
		default:
			c.Ops = append(c.Ops, eng.O("Kill").WithN(int64(r.Intn(3))), eng.O("Status"))
		}
	}
	if health {
		c.Ops = append(c.Ops, eng.O("Status"))
	}
	return c
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C28", Name: "server-health", Quick: 160, Deep: 4000, Retries: 4, MaxSeconds: 120,
		Rule:  "the server reported some subsystems as broken and others as not, or did at least two requests",
		Scope: []string{"health", "live:crash"},
		Gen:   func(r eng.R) *eng.Case { return genServerHealth(r, true) }, Run: runServerHealth,
	})
	eng.Register(&eng.Suite{
		Prop: "C24", Name: "server-plugins", Quick: 160, Deep: 4000, Retries: 4, MaxSeconds: 120,
		Rule:  "the server did at least two requests",
		Scope: []string{"plug", "live:start", "live:crash", "live:term"},
		Gen:   func(r eng.R) *eng.Case { return genServerHealth(r, false) }, Run: runServerHealth,
	})
}
