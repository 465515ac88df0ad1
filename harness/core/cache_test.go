//go:build go1.22

package core

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/netauth/netauth/internal/zzv/eng"
	"github.com/netauth/netauth/pkg/netauth/cache"

	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

// ---- C29: cached tokens ----

// aToken is a token of its own for every number.
func aToken(n int64, size int64) string {
	return fmt.Sprintf("<tok%d>", n) + strings.Repeat(fmt.Sprintf("%d.", n), int(size&4095)) + fmt.Sprintf("</tok%d>", n)
}

// treeOf lists what is below a directory.
func treeOf(dir, skip string) map[string]string {
	out := map[string]string{}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == skip {
			if fi != nil && fi.IsDir() {
				return filepath.SkipDir
			}
			return err
		}
		out[p] = fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[p] += " " + string(b)
		}
		return nil
	}))
	return out
}

// newCache makes a cache whose files are in a directory.
func newCache(t *eng.T, kind, dir string) cache.TokenCache {
	old, was := os.LookupEnv("TMPDIR")
	must(os.Setenv("TMPDIR", dir))
	defer func() {
		if was {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	tc, err := cache.NewTokenCache(kind)
	if err != nil {
		t.Failf("cache:new", "no cache %q: %v", kind, err)
	}
	return tc
}

func runCache(t *eng.T, c *eng.Case) {
	kind := c.Cfg["cache"]
	if kind != "fs" && kind != "memory" {
		return
	}
	defer syscall.Umask(syscall.Umask(int(0)))
	outer := scratch(t)
	tmp := filepath.Join(outer, "u", "v", "tmp")
	must(os.MkdirAll(tmp, 0777))
	victim := filepath.Join(outer, "victim")
	must(os.WriteFile(victim, []byte("precious"), 0644))
	must(os.WriteFile(filepath.Join(outer, "u", "v", "a.nt"), []byte("elsewhere"), 0644))
	if kind == "fs" {
		old, was := os.LookupEnv("TMPDIR")
		must(os.Setenv("TMPDIR", tmp))
		defer func() {
			if was {
				os.Setenv("TMPDIR", old)
			} else {
				os.Unsetenv("TMPDIR")
			}
		}()
	}
	tc := newCache(t, kind, tmp)
	before := treeOf(outer, tmp)
	model := map[string]string{}
	unsure := map[string]bool{} // nothing is known about the owner's token
	owners := map[string]bool{}
	hits, others := 0, 0
	for _, o := range c.Ops {
		owner := o.Str(0)
		odd := hostileName(owner)
		desc := opStr(o)
		switch o.K {
		case "Put":
			tok := aToken(o.Int(0), o.Int(1))
			if o.Int(1) < 0 {
				tok = o.Str(1)
			}
			err := tc.PutToken(owner, tok)
			owners[owner] = true
			switch {
			case err == nil:
				model[owner] = tok
				delete(unsure, owner)
				for p, s := range treeOf(outer, "") {
					if len(tok) > 8 && strings.Contains(s, tok) && !(strings.HasPrefix(s, "-rw-------") || strings.HasPrefix(s, "-r--------")) {
						t.Failf("cache:mode", "after %s the token is in %s with mode %s", desc, filepath.Base(p), s[:10])
					}
				}
			case odd || unsure[owner]:
				unsure[owner] = true
			default:
				t.Failf("cache:put", "%s fails: %v", desc, err)
			}
		case "Del":
			err := tc.DelToken(owner)
			owners[owner] = true
			switch {
			case err == nil:
				delete(model, owner)
				delete(unsure, owner)
			case odd || unsure[owner]:
			default:
				t.Failf("cache:del", "%s fails: %v", desc, err)
			}
		case "New":
			tc = newCache(t, kind, tmp)
			if kind == "memory" {
				model, unsure = map[string]string{}, map[string]bool{}
			}
		case "Plant":
			if kind != "fs" || odd || owner == "" || strings.Trim(owner, "abntA.~-") != "" {
				continue
			}
			p := filepath.Join(tmp, owner+".nt")
			os.RemoveAll(p)
			switch o.Str(1) {
			case "lax":
				must(os.WriteFile(p, []byte("planted"), 0666))
				must(os.Chmod(p, 0666))
			case "link":
				must(os.Symlink(victim, p))
			case "hard":
				must(os.Link(victim, p))
			case "dangling":
				must(os.Symlink(filepath.Join(outer, "fresh"), p))
			case "dir":
				must(os.Mkdir(p, 0777))
			default:
				continue
			}
			unsure[owner] = true
			owners[owner] = true
		default:
			continue
		}
		t.Tracef("%s", desc)
		for w := range owners {
			got, err := tc.GetToken(w)
			want, there := model[w]
			switch {
			case unsure[w]:
				if strings.HasPrefix(got, "<tok") && got != want {
					t.Failf("cache:mixed", "after %s, %q gets %s", desc, w, clip(fmt.Sprintf("%q", got)))
				}
			case there:
				if err != nil || got != want {
					t.Failf("cache:get", "after %s, %q gets %s (%v), want %s", desc, w, clip(fmt.Sprintf("%q", got)), err, clip(fmt.Sprintf("%q", want)))
				}
				hits++
				if w != owner {
					others++
				}
			case err == nil || got != "":
				t.Failf("cache:ghost", "after %s, %q gets %s, but has no token", desc, w, clip(fmt.Sprintf("%q", got)))
			case err != cache.ErrNoCachedToken && !hostileName(w):
				t.Failf("cache:miss", "after %s, the error for %q, which has no token, is %v", desc, w, err)
			}
		}
		if d := storeDiff(treeOf(outer, tmp), before); d != "" {
			t.Failf("cache:outside", "after %s, outside of the directory of the cache: %s", desc, d)
		}
	}
	if hits >= 3 && others >= 1 {
		t.NonTrivial()
	}
}

func runCacheRace(t *eng.T, c *eng.Case) {
	kind := c.Cfg["cache"]
	if kind != "fs" && kind != "memory" {
		return
	}
	tmp := scratch(t)
	if kind == "fs" {
		old, was := os.LookupEnv("TMPDIR")
		must(os.Setenv("TMPDIR", tmp))
		defer func() {
			if was {
				os.Setenv("TMPDIR", old)
			} else {
				os.Unsetenv("TMPDIR")
			}
		}()
	}
	shared := newCache(t, kind, tmp)
	valid := map[string]map[string]bool{}
	dels := map[string]bool{}
	var walk func(ops []eng.Op)
	walk = func(ops []eng.Op) {
		for _, o := range ops {
			switch o.K {
			case "Put":
				if valid[o.Str(0)] == nil {
					valid[o.Str(0)] = map[string]bool{}
				}
				valid[o.Str(0)][aToken(o.Int(0), o.Int(1))] = true
			case "Del":
				dels[o.Str(0)] = true
			}
			walk(o.Sub)
		}
	}
	for _, o := range c.Ops {
		for _, p := range append(append([]eng.Op{}, o), o.Sub...) {
			if p.K == "Put" && hostileName(p.Str(0)) {
				return
			}
		}
	}
	walk(c.Ops)
	there := map[string]bool{}
	var wg sync.WaitGroup
	var fail sync.Once
	msg := ""
	bad := func(f string, a ...interface{}) { fail.Do(func() { msg = fmt.Sprintf(f, a...) }) }
	var reads int64
	start := make(chan bool)
	for _, o := range c.Ops {
		if o.K == "Put" {
			must(shared.PutToken(o.Str(0), aToken(o.Int(0), o.Int(1))))
			there[o.Str(0)] = true
		}
	}
	for _, o := range c.Ops {
		if o.K != "Thread" {
			continue
		}
		tc := shared
		if o.Int(0) != 0 && kind == "fs" {
			tc = newCache(t, kind, tmp) // another process
		}
		wg.Add(1)
		go func(ops []eng.Op, rounds int) {
			defer wg.Done()
			<-start
			for i := 0; i < rounds; i++ {
				for _, o := range ops {
					w := o.Str(0)
					switch o.K {
					case "Put":
						if err := tc.PutToken(w, aToken(o.Int(0), o.Int(1))); err != nil {
							bad("storing a token for %q fails: %v", w, err)
						}
					case "Del":
						if err := tc.DelToken(w); err != nil {
							bad("removing the token of %q fails: %v", w, err)
						}
					case "Get":
						got, err := tc.GetToken(w)
						atomic.AddInt64(&reads, 1)
						switch {
						case err == nil && !valid[w][got]:
							bad("%q gets %s, which nobody stored for it", w, clip(fmt.Sprintf("%q", got)))
						case err == cache.ErrNoCachedToken && (!there[w] || dels[w]):
						case err != nil:
							bad("getting the token of %q, which is always there or gone: %v", w, err)
						}
					}
				}
			}
		}(o.Sub, 1+int(o.Int(1)&63))
	}
	close(start)
	wg.Wait()
	if msg != "" {
		t.Failf("cache:race", "%s", msg)
	}
	if reads >= 20 {
		t.NonTrivial()
	}
}

func genCacheRace(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{"cache": r.Pick("fs", "memory")}}
	owners := []string{"a", "b", "A"}[:1+r.Intn(3)]
	n := int64(0)
	for _, w := range owners {
		if r.Chance(3, 4) {
			n++
			c.Ops = append(c.Ops, eng.O("Put", w).WithN(n, int64(r.Intn(500))))
		}
	}
	withDel := r.Chance(1, 3)
	for i := 2 + r.Intn(4); i > 0; i-- {
		th := eng.O("Thread").WithN(int64(r.Intn(2)), int64(5+r.Intn(40)))
		for j := 1 + r.Intn(4); j > 0; j-- {
			n++
			w := r.Pick(owners...)
			switch {
			case withDel && r.Chance(1, 4):
				th.Sub = append(th.Sub, eng.O("Del", w))
			case r.Chance(1, 2):
				th.Sub = append(th.Sub, eng.O("Put", w).WithN(n, int64(r.Intn(2000))))
			default:
				th.Sub = append(th.Sub, eng.O("Get", w))
			}
		}
		c.Ops = append(c.Ops, th)
	}
	return c
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C29", Name: "token-cache", Quick: 1500, Deep: 60000,
		Rule:  "tokens were found at least three times, one of them right after an operation for another owner",
		Scope: []string{"cache"},
		Gen: func(r eng.R) *eng.Case {
			c := &eng.Case{Cfg: map[string]string{"cache": r.Weighted("fs", 3, "memory", 1)}}
			pool := []string{"a", "b", "A", "a.nt", ".a", "a b", "é", "a{0}", "%61", "a%2Fb", "a+b", "a:b", `a\b`, "-a", "~", "nt", ".nt"}
			var owners []string
			for i := 2 + r.Intn(3); i > 0; i-- {
				owners = append(owners, r.Pick(pool...))
			}
			if r.Chance(1, 2) {
				owners = append(owners, r.Pick("a/b", "../a", "b/../a", "./a", "../../../victim", "", ".", "..", "a\x00b", strings.Repeat("x", 300), "/a", "a/", "b//a"))
			}
			for i := 4 + r.Intn(12); i > 0; i-- {
				w := r.Pick(owners...)
				switch r.Weighted("Put", 10, "Del", 4, "New", 2, "Plant", 3) {
				case "Put":
					sz := int64(r.Intn(3))
					if r.Chance(1, 10) {
						sz = int64(r.Intn(4000))
					}
					x := eng.O("Put", w)
					if r.Chance(1, 6) {
						// Not what a token looks like.
						x.S, sz = append(x.S, eng.S(r.Pick("", "a", " ", "\n", " <tok> ", "tok\r\n", "\x00", "\xff\xfe", "a\x00b", "é", "..", "null"))), -1
					}
					c.Ops = append(c.Ops, x.WithN(int64(i), sz))
				case "Del":
					c.Ops = append(c.Ops, eng.O("Del", w))
				case "New":
					c.Ops = append(c.Ops, eng.O("New"))
				default:
					c.Ops = append(c.Ops, eng.O("Plant", w, r.Pick("lax", "link", "hard", "dangling", "dir")))
				}
			}
			if r.Chance(1, 40) {
				for i := 9 + r.Intn(60); i > 0; i-- {
					c.Ops = append(c.Ops, eng.O("Put", fmt.Sprintf("owner%d", i)).WithN(int64(i), int64(r.Intn(3))))
				}
			}
			return c
		},
		Run: runCache,
	})
	eng.Register(&eng.Suite{
		Prop: "C29", Name: "token-sharing", Quick: 300, Deep: 8000, Sched: true, Retries: 20,
		Rule:  "at least twenty reads happened while others wrote",
		Scope: []string{"cache"},
		Gen:   genCacheRace, Run: runCacheRace,
	})
	eng.Register(&eng.Suite{
		Prop: "C29", Name: "race-caches", Quick: 100, Deep: 3000, Sched: true, Retries: 20,
		Rule:  "at least twenty reads happened while others wrote",
		Scope: []string{"cache"},
		Gen:   genCacheRace, Run: runCacheRace,
	})
}
