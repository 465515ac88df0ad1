//go:build go1.22

package core

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/zzv/eng"
)

// ---- C23: copying a store ----

// nsutilKill, unless it is negative, is how long after it began to copy the
// tool is killed.
var nsutilKill = time.Duration(-1)

type killer struct {
	b   *bytes.Buffer
	cmd *exec.Cmd
	set bool
}

func (k *killer) Write(p []byte) (int, error) {
	k.b.Write(p)
	if !k.set && strings.Contains(k.b.String(), "Target initialized") {
		k.set = true
		go func() { time.Sleep(nsutilKill); k.cmd.Process.Kill() }()
	}
	return len(p), nil
}

// nsutil runs the offline tool.
func nsutil(t *eng.T, home string, args ...string) (out string, exit int) {
	bin := os.Getenv("VERIF_NSUTIL")
	if bin == "" {
		panic("harness panic: no VERIF_NSUTIL")
	}
	cfg := filepath.Join(home, "config.toml")
	must(os.WriteFile(cfg, []byte(fmt.Sprintf("[core]\nhome = %q\n", home)), 0644))
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = home
	cmd.Env = []string{"HOME=" + home, "TMPDIR=" + home, "PATH=/usr/bin:/bin"}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if nsutilKill >= 0 {
		w := &killer{b: &b, cmd: cmd}
		cmd.Stdout, cmd.Stderr = w, w
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		t.Failf("nsutil:hang", "nsutil %q does not end", args)
	}
	if err != nil && cmd.ProcessState == nil {
		panic(fmt.Sprintf("harness panic: %v", err))
	}
	if s := b.String(); strings.Contains(s, "goroutine ") && strings.Contains(s, "panic: ") {
		t.Failf("nsutil:panic", "nsutil %q crashes: %s", args, clip(s))
	}
	return b.String(), cmd.ProcessState.ExitCode()
}

// storeAt opens a store for a moment.
func storeAt(t *eng.T, home, backend string, f func(db.KVStore)) {
	boot()
	viper.Set("core.home", home)
	kv, err := db.NewKV(backend, nullLog)
	if err != nil {
		t.Failf("copy:open", "the %s store does not open: %v", backend, err)
	}
	kv.SetEventFunc(func(db.Event) {})
	defer kv.Close()
	f(kv)
}

func readStore(t *eng.T, home, backend string) map[string]string {
	out := map[string]string{}
	storeAt(t, home, backend, func(kv db.KVStore) {
		ks, err := kv.Keys("/*/*")
		if err != nil {
			t.Failf("copy:read", "the %s store cannot be listed: %v", backend, err)
		}
		for _, k := range ks {
			v, err := kv.Get(k)
			if err != nil {
				t.Failf("copy:read", "the %s store lists %q, but: %v", backend, k, err)
			}
			out[k] = string(v)
		}
	})
	return out
}

// storeDiff names a difference of two contents.
func storeDiff(got, want map[string]string) string {
	for k, v := range want {
		g, there := got[k]
		if !there {
			return fmt.Sprintf("%q is missing", k)
		}
		if g != v {
			return fmt.Sprintf("%q is %s (%d bytes), want %s (%d bytes)", k, clip(fmt.Sprintf("%q", g)), len(g), clip(fmt.Sprintf("%q", v)), len(v))
		}
	}
	for k := range got {
		if _, there := want[k]; !there {
			return fmt.Sprintf("%q should not be there", k)
		}
	}
	return ""
}

func copyOf(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

var stores = []string{"filesystem", "bitcask"}

func runCopy(t *eng.T, c *eng.Case) {
	home := scratch(t)
	have := []map[string]string{{}, {}}
	full, over := 0, 0
	for _, o := range c.Ops {
		side := int(o.Int(0)) & 1
		switch o.K {
		case "Put", "Del":
			k := o.Str(0)
			if !strings.HasPrefix(k, "/") || strings.Count(k, "/") != 2 || strings.HasSuffix(k, "/") || strings.Contains(k, "//") {
				continue
			}
			if o.K == "Del" {
				if _, there := have[side][k]; !there {
					continue
				}
				storeAt(t, home, stores[side], func(kv db.KVStore) { must(kv.Del(k)) })
				delete(have[side], k)
				continue
			}
			v := strings.Repeat(o.Str(1), int(o.Int(1)))
			if v == "" {
				continue // NetAuth stores no empty values
			}
			storeAt(t, home, stores[side], func(kv db.KVStore) { must(kv.Put(k, []byte(v))) })
			have[side][k] = v
		case "Copy":
			fault, name := o.Str(0), o.Str(1)
			if name == "" || strings.ContainsAny(name, "/") {
				continue
			}
			from, to := side, 1-side
			args := []string{stores[from], stores[to]}
			var undo []func()
			remove := func(p string) { undo = append(undo, func() { must(os.RemoveAll(p)) }) }
			kvDir := filepath.Join(home, "kv")
			loop := func() {
				d := filepath.Join(kvDir, "entities")
				_, err := os.Lstat(d)
				must(os.MkdirAll(kvDir, 0755))
				if err == nil {
					must(os.Rename(d, d+".aside"))
				}
				must(os.Symlink("entities", d))
				undo = append(undo, func() {
					must(os.Remove(d))
					if err == nil {
						must(os.Rename(d+".aside", d))
					}
				})
				// The listing must not see the other directory.
				if err == nil {
					must(os.Rename(d+".aside", filepath.Join(home, "aside")))
					undo[len(undo)-1] = func() {
						must(os.Remove(d))
						must(os.Rename(filepath.Join(home, "aside"), d))
					}
				}
			}
			noDry, trunc := o.Int(1) != 0, o.Int(2) != 0
			refused := false  // the tool cannot do all of it
			nothing := !noDry // nothing may change
			switch fault {
			case "get":
				if from != 0 {
					continue
				}
				p := filepath.Join(kvDir, "entities", name)
				if _, there := have[0]["/entities/"+name]; there {
					continue
				}
				must(os.MkdirAll(p, 0755))
				remove(p)
				refused = noDry
			case "put":
				if to != 0 {
					continue
				}
				k := "/groups/" + name
				if _, there := have[0][k]; there {
					continue
				}
				if _, there := have[1][k]; !there {
					storeAt(t, home, stores[1], func(kv db.KVStore) { must(kv.Put(k, []byte("x"))) })
					have[1][k] = "x"
				}
				must(os.MkdirAll(filepath.Join(kvDir, "groups", name, "x"), 0755))
				remove(filepath.Join(kvDir, "groups", name))
				refused = noDry
			case "list":
				loop()
				refused, nothing = true, true
			case "big":
				if from != 0 {
					continue
				}
				v := strings.Repeat("0123456789abcdef", 6<<16)
				storeAt(t, home, stores[0], func(kv db.KVStore) { must(kv.Put("/groups/"+name, []byte(v))) })
				have[0]["/groups/"+name] = v
				refused = noDry
				undo = append(undo, func() {
					storeAt(t, home, stores[0], func(kv db.KVStore) { must(kv.Del("/groups/" + name)) })
				})
			case "long":
				if from != 1 {
					continue
				}
				k := "/entities/" + strings.Repeat("n", 300)
				storeAt(t, home, stores[1], func(kv db.KVStore) { must(kv.Put(k, []byte("x"))) })
				have[1][k] = "x"
				refused = noDry
				undo = append(undo, func() {
					storeAt(t, home, stores[1], func(kv db.KVStore) { must(kv.Del(k)) })
				})
			case "kill":
				if n := o.Int(4); noDry && n >= 0 && n < 1000000 {
					nsutilKill = time.Duration(n) * time.Microsecond
					undo = append(undo, func() { nsutilKill = -1 })
					t.Cleanup(undo[0])
				}
			case "unknown":
				args[int(o.Int(3))&1] = "no" + name
				refused, nothing = true, true
			case "same":
				args[1], nothing = args[0], true
			case "args":
				args = append(args, "more")[int(o.Int(3))&1*2:]
				refused, nothing = true, true
			case "":
			default:
				continue
			}
			if noDry {
				args = append(args, "--no-dry-run")
			}
			if trunc {
				args = append(args, "--truncate")
			}
			// No store that a fault made unreadable is read before the
			// fault is undone.
			out, exit := nsutil(t, home, append([]string{"copy"}, args...)...)
			desc := fmt.Sprintf("nsutil copy %q (%s)", args, fault)
			t.Tracef("%s -> %d", desc, exit)
			if nsutilKill >= 0 {
				undo[0]()
				undo = nil
				if refused = exit != 0; refused {
					t.Class("killed")
					boot()
					viper.Set("core.home", home)
					if kv, err := db.NewKV("bitcask", nullLog); err == nil {
						kv.Close()
					} else {
						// C21's finding; nothing is promised of a target
						// that the copy has not come to the end of.
						uncut("bitcask", home, err)
					}
				}
			}
			var now [2]map[string]string
			if fault == "list" {
				for _, f := range undo {
					f()
				}
				undo = nil
			}
			if fault == "get" || fault == "put" {
				for _, f := range undo {
					f()
				}
				undo = nil
			}
			for i := range now {
				now[i] = readStore(t, home, stores[i])
			}
			if d := storeDiff(now[from], have[from]); d != "" {
				t.Failf("copy:source", "%s changes the source: %s", desc, d)
			}
			if fault != "same" && (exit == 0) == refused {
				t.Failf("copy:exit", "%s exits with %d, want success %v: %s", desc, exit, !refused, clip(out))
			}
			old, src := have[to], have[from]
			switch {
			case nothing:
				if d := storeDiff(now[to], old); d != "" {
					t.Failf("copy:untouched", "%s changes the target: %s", desc, d)
				}
			case refused:
				for k, v := range now[to] {
					ov, was := old[k]
					sv, is := src[k]
					if !(was && ov == v || is && sv == v) {
						t.Failf("copy:invented", "%s leaves %q with %s, neither the old nor the new value", desc, k, clip(fmt.Sprintf("%q", v)))
					}
				}
				for k := range old {
					if _, there := now[to][k]; !there && !trunc {
						t.Failf("copy:lost", "%s loses %q", desc, k)
					}
				}
				have[to] = now[to]
				t.Class("partial")
			default:
				want := copyOf(old)
				if trunc {
					want = map[string]string{}
				}
				clash := false
				for k, v := range src {
					if ov, was := old[k]; was && ov != v {
						clash = true
					}
					want[k] = v
				}
				if d := storeDiff(now[to], want); d != "" {
					t.Failf("copy:result", "after %s: %s", desc, d)
				}
				have[to] = want
				if len(src) >= 2 {
					full++
				}
				if clash || trunc && len(old) > 0 {
					over++
				}
				t.Class("copied")
			}
			for _, f := range undo {
				f()
			}
			if fault == "big" {
				delete(have[0], "/groups/"+name)
			}
			if fault == "long" {
				delete(have[1], "/entities/"+strings.Repeat("n", 300))
			}
			if fault == "big" || fault == "long" {
				for i := range have {
					if d := storeDiff(readStore(t, home, stores[i]), have[i]); d != "" {
						t.Failf("copy:source", "after removing what could not be copied: %s", d)
					}
				}
			}
		}
	}
	if full >= 1 && over >= 1 {
		t.NonTrivial()
	}
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C23", Name: "store-copy", Quick: 600, Deep: 12000,
		Rule:  "a store with two values or more was copied, and in one copy the target held something that was replaced or removed",
		Scope: []string{"copy", "nsutil"},
		Gen: func(r eng.R) *eng.Case {
			names := []string{"a", "b", "ab", "A", ".hid", "a b", "é", "*", "[x]", "-d", `a\b`, "a:b", "a.b", "~", "a{0}", strings.Repeat("l", 200)}
			key := func() string {
				return r.Pick("/entities/", "/entities/", "/groups/", "/groups/", "/other/") + r.Pick(names...)
			}
			c := &eng.Case{}
			for n := 1 + r.Intn(4); n > 0; n-- {
				for i := r.Intn(7); i > 0; i-- {
					s := int64(r.Intn(2))
					if r.Chance(1, 6) {
						c.Ops = append(c.Ops, eng.O("Del", key()).WithN(s))
						continue
					}
					rep := int64(1)
					if r.Chance(1, 8) {
						rep = int64(1 + r.Intn(70000))
					}
					c.Ops = append(c.Ops, eng.O("Put", key(), r.Pick("x", "y", "v1", "v2", "\x00", "\n", "\xff\xfe", "a longer value")).WithN(s, rep))
				}
				o := eng.O("Copy", "", r.Pick("q", "a", "z z")).WithN(int64(r.Intn(2)), int64(r.Intn(5)/1&3), int64(r.Intn(2)), int64(r.Intn(2)))
				if r.Chance(1, 3) {
					o.S[0] = eng.S(r.Weighted("get", 2, "put", 2, "list", 2, "big", 1, "long", 1, "unknown", 1, "same", 2, "args", 1, "kill", 5))
					o.N[1] = 1
					o.N = append(o.N, int64(r.Intn([]int{100, 800, 3000}[r.Intn(3)])))
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runCopy,
	})
	eng.Register(&eng.Suite{
		Prop: "C23", Name: "served-copy", Quick: 300, Deep: 8000,
		Rule:  "the server went on over at least two copies, the first of them with two objects or more",
		Scope: []string{"copy", "nsutil", "state", "restart", "code", "read"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 1+r.Intn(3))
			c := &eng.Case{Cfg: backendFor(r, 1, 1)}
			if c.Cfg["backend"] == "memory" {
				c.Cfg["backend"] = r.Pick(stores...)
			}
			c.Ops = g.start()
			g.weights("GRule", 14, "MAdd", 12, "MDel", 4, "GCreate", 3, "GDestroy", 4, "ECreate", 3, "EDestroy", 3, "ESecret", 3, "ELock", 3, "EUnlock", 2,
				"EUpdate", 3, "GUpdate", 3, "EUM", 4, "GUM", 4, "EKV", 4, "GKV", 4, "EKey", 4, "Cap", 6, "Restart", 3)
			c.Ops = append(c.Ops, g.seq(r.Intn(8))...)
			for i := 2 + r.Intn(3); i > 0; i-- {
				c.Ops = append(c.Ops, eng.O("Migrate"))
				c.Ops = append(c.Ops, g.seq(2+r.Intn(8))...)
			}
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			if c.Cfg["backend"] != stores[0] && c.Cfg["backend"] != stores[1] {
				return
			}
			h := newHist(t, c)
			first, n := 0, 0
			for _, o := range c.Ops {
				if o.K != "Migrate" {
					h.do(o, h.w.Root())
					continue
				}
				if n == 0 {
					first = len(h.m.ents) + len(h.m.grps)
				}
				n++
				next := stores[0]
				if h.w.backend == next {
					next = stores[1]
				}
				h.w.db.Shutdown()
				args := []string{"copy", h.w.backend, next, "--no-dry-run"}
				if n > 1 {
					args = append(args, "--truncate")
				}
				out, exit := nsutil(t, h.w.home, args...)
				if exit != 0 {
					t.Failf("copy:exit", "nsutil %q exits with %d: %s", args, exit, clip(out))
				}
				t.Tracef("nsutil %q", args)
				h.w.backend = next
				h.w.openKV()
				h.w.start()
				h.judge(o, h.compare(""))
			}
			if n >= 2 && first >= 2 {
				t.NonTrivial()
			}
		},
	})
}
