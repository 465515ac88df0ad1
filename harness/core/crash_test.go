//go:build go1.22

package core

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/zzv/eng"
)

// ---- C21: crashes and failures of the medium ----

// childMain performs store operations until it is killed.
func childMain() int {
	if os.Getenv("VERIF_CHILD") == "plugin" {
		return pluginChild()
	}
	boot()
	in := bufio.NewReader(os.Stdin)
	line, err := in.ReadBytes('\n')
	if err != nil {
		return 3
	}
	var c eng.Case
	if err := json.Unmarshal(line, &c); err != nil {
		return 3
	}
	viper.Set("core.home", c.Cfg["home"])
	os.Stdout.WriteString("b\n")
	kv, err := db.NewKV(c.Cfg["backend"], nullLog)
	if err != nil {
		fmt.Println("open", err)
		return 4
	}
	kv.SetEventFunc(func(db.Event) {})
	os.Stdout.WriteString("r\n")
	for _, o := range c.Ops {
		if err := applyKV(kv, o); err != nil {
			os.Stdout.WriteString("e\n")
		} else {
			os.Stdout.WriteString("k\n")
		}
	}
	// Wait to be told how to end.
	b, err := in.ReadByte()
	if err == nil && b == 'c' {
		os.Stdout.WriteString("c\n")
		if err := kv.Close(); err != nil {
			return 5
		}
		return 0
	}
	select {}
}

func bigVal(o eng.Op) string { return strings.Repeat(o.Str(1), int(max64(o.Int(0), 1))) }

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func applyKV(kv db.KVStore, o eng.Op) error {
	switch o.K {
	case "Put":
		return kv.Put(o.Str(0), []byte(bigVal(o)))
	case "Del":
		return kv.Del(o.Str(0))
	}
	return nil
}

// poss is what a key may hold: absent is "\x00absent".
type poss map[string]bool

const absent = "\x00absent"

func runCrash(t *eng.T, c *eng.Case) {
	boot()
	home := scratch(t)
	backend := c.Cfg["backend"]
	may := map[string]poss{}
	get := func(k string) poss {
		if may[k] == nil {
			may[k] = poss{absent: true}
		}
		return may[k]
	}
	kills := 0
	for ri := 0; ri < len(c.Ops); ri++ {
		round := c.Ops[ri]
		if round.K != "Round" {
			continue
		}
		cc := &eng.Case{Cfg: map[string]string{"backend": backend, "home": home}, Ops: round.Sub}
		b, _ := json.Marshal(cc)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestVerif$", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "VERIF_CHILD=crash", "GOMAXPROCS=2")
		cmd.Dir = home
		stdin, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		stdout, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		stdin.Write(append(b, '\n'))
		rd := bufio.NewReader(stdout)
		how := round.Str(0)
		kill := how != "close"
		acks := ""
		line := func() string {
			l, _ := rd.ReadString('\n')
			return strings.TrimSuffix(l, "\n")
		}
		// end kills the process a little later, and returns what it said.
		end := func() []string {
			for end := time.Now().Add(time.Duration(round.Int(1)) * time.Microsecond); time.Now().Before(end); {
			}
			cmd.Process.Kill()
			rest, _ := io.ReadAll(rd)
			cmd.Wait()
			kills++
			return strings.Split(strings.TrimSuffix(string(rest), "\n"), "\n")
		}
		noOpen := func(first string) {
			if strings.HasPrefix(first, "open") {
				cmd.Process.Kill()
				cmd.Wait()
				t.Failf("crash:open", "after the process was killed the store does not open again: %s", first)
			}
		}
		first := line()
		if first != "b" {
			cmd.Process.Kill()
			cmd.Wait()
			panic(fmt.Sprintf("the child does not start: %q", first))
		}
		if how == "open" {
			// Killed while the store is opened, or soon after.
			for i, l := range end() {
				noOpen(l)
				if i == 0 && l == "" {
					t.Class("killed-opening")
				}
				if i > 0 && l != "" {
					acks += l[:1]
				}
			}
		} else {
			if first = line(); first != "r" {
				noOpen(first)
				cmd.Process.Kill()
				cmd.Wait()
				panic(fmt.Sprintf("the child does not open the store: %q", first))
			}
			at := len(round.Sub) // acknowledgements to wait for
			if how == "kill" {
				at = int(round.Int(0))
			}
			for len(acks) < at && len(acks) < len(round.Sub) {
				l := line()
				if l == "" {
					break
				}
				acks += l[:1]
			}
			switch how {
			case "kill":
				for _, l := range end() {
					if l != "" {
						acks += l[:1]
					}
				}
			case "shut": // killed while the store is closed
				stdin.Write([]byte("c"))
				line()
				end()
				t.Class("killed-closing")
			default:
				stdin.Write([]byte("c"))
				line()
				if err := cmd.Wait(); err != nil {
					t.Failf("crash:close", "the store does not close: %v", err)
				}
			}
		}
		stdin.Close()
		for i, o := range round.Sub {
			k := o.Str(0)
			p := get(k)
			switch {
			case i < len(acks) && acks[i] == 'k':
				np := poss{}
				if o.K == "Put" {
					np[bigVal(o)] = true
				} else {
					np[absent] = true
				}
				may[k] = np
			case i < len(acks): // refused
				if o.K == "Put" && len(k) < 60 {
					t.Failf("crash:put", "%s fails", opStr(o))
				}
				if o.K == "Del" && !p[absent] && len(k) < 60 {
					t.Failf("crash:del", "%s fails although there is a value", opStr(o))
				}
			case i == len(acks) && kill:
				if o.K == "Put" {
					p[bigVal(o)] = true
				} else {
					p[absent] = true
				}
			}
		}
		t.Tracef("round %s with %d operations, %d acknowledged", round.Str(0), len(round.Sub), len(acks))
		if kill && len(acks) > 0 && len(acks) < len(round.Sub) {
			t.Class("killed-midway")
		}
		// Look at what is there.  The store is looked at in a copy for
		// every other round, so that a crash can follow a crash.
		look := home
		if round.Int(2) != 0 {
			look = scratch(t)
			if out, err := exec.Command("cp", "-a", home+"/.", look).CombinedOutput(); err != nil {
				panic(string(out))
			}
		}
		viper.Set("core.home", look)
		kv, err := db.NewKV(backend, nullLog)
		if err != nil && kill && mend(t, backend, look, err) {
			mend(t, backend, home, err)
			viper.Set("core.home", look)
			kv, err = db.NewKV(backend, nullLog)
		}
		if err != nil {
			t.Failf("crash:open", "after the process was %s the store does not open: %v", map[bool]string{true: "killed", false: "stopped"}[kill], err)
		}
		kv.SetEventFunc(func(db.Event) {})
		var want, opt []string
		for k, p := range may {
			v, err := kv.Get(k)
			got := string(v)
			if err != nil {
				got = absent
				if err != db.ErrNoValue && len(k) < 60 {
					t.Failf("crash:get", "after the process was killed Get(%q): %v", k, err)
				}
			}
			if !p[got] {
				t.Failf("crash:value", "after the process was %s, Get(%q) = %s, want one of %s", map[bool]string{true: "killed", false: "stopped"}[kill], k, showPoss(got), showPossible(p))
			}
			if big := len(got) > 80000; big {
				t.Class("big")
			}
			may[k] = poss{got: true}
			if got != absent {
				want = append(want, k)
			}
			_ = opt
		}
		for _, pat := range []string{"/entities/*", "/groups/*"} {
			ks, err := kv.Keys(pat)
			if err != nil {
				t.Failf("crash:keys", "after the process was killed Keys(%q): %v", pat, err)
			}
			var w []string
			for _, k := range want {
				if m, _ := filepath.Match(pat, k); m {
					w = append(w, k)
				}
			}
			if !same(ks, w) {
				t.Failf("crash:keys", "after the process was killed Keys(%q) = %q, want %q", pat, sorted(ks), sorted(w))
			}
		}
		kv.Close()
	}
	if kills > 0 && len(may) > 1 {
		t.NonTrivial()
	}
}

// mend deals with a listed finding: a record at the end of a bitcask's data
// that was cut short keeps the store from opening.  The incomplete record,
// and nothing else, is cut off.
func mend(t *eng.T, backend, home string, err error) bool {
	if !uncut(backend, home, err) {
		return false
	}
	t.Known("bitcask-cut-record")
	t.Class("cut-record")
	return true
}

// uncut is mend where nothing is said about the finding.
func uncut(backend, home string, err error) bool {
	if backend != "bitcask" || !strings.Contains(err.Error(), "data is truncated") && err != io.ErrUnexpectedEOF {
		return false
	}
	fs, _ := filepath.Glob(filepath.Join(home, "bc", "*.data"))
	if len(fs) == 0 {
		return false
	}
	sort.Strings(fs)
	fn := fs[len(fs)-1]
	b, e := os.ReadFile(fn)
	if e != nil {
		return false
	}
	off := 0
	for {
		if off == len(b) {
			return false // nothing was cut short
		}
		if len(b)-off < 12 {
			break
		}
		n := 12 + int(binary.BigEndian.Uint32(b[off:])) + int(binary.BigEndian.Uint64(b[off+4:])) + 4
		if n < 17 || n > 6<<20 {
			return false // not a matter of being cut short
		}
		if off+n > len(b) {
			break
		}
		off += n
	}
	if e := os.Truncate(fn, int64(off)); e != nil {
		panic(e)
	}
	// The failed attempt still holds the lock.
	os.Remove(filepath.Join(home, "bc", "lock"))
	return true
}

func showPoss(v string) string {
	if v == absent {
		return "nothing"
	}
	if len(v) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", v[:40], len(v))
	}
	return fmt.Sprintf("%q", v)
}

func showPossible(p poss) string {
	var out []string
	for v := range p {
		out = append(out, showPoss(v))
	}
	sort.Strings(out)
	return strings.Join(out, " or ")
}

func genCrash(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("filesystem", 1, "bitcask", 1)}}
	keys := []string{"/entities/a", "/entities/b", "/entities/.c", "/groups/a", "/groups/g"}
	n := 0
	big := r.Chance(1, 4)
	for i := 1 + r.Intn(4); i > 0; i-- {
		rd := eng.O("Round", r.Weighted("kill", 8, "close", 4, "open", 3, "shut", 3))
		for j := 1 + r.Intn(12); j > 0; j-- {
			n++
			if r.Chance(1, 4) {
				rd.Sub = append(rd.Sub, eng.O("Del", r.Pick(keys...)))
			} else {
				sz := int64(1 + r.Intn(8))
				if big {
					sz = int64(20000 + r.Intn(100000))
				} else if r.Chance(1, 4) {
					sz = int64(1 + r.Intn(60000))
				}
				rd.Sub = append(rd.Sub, eng.O("Put", r.Pick(keys...), fmt.Sprintf("v%d.", n)).WithN(sz))
			}
		}
		rd = rd.WithN(int64(r.Intn(len(rd.Sub)+1)), int64(r.Intn(1+r.Intn(1500))), int64(r.Intn(2)))
		c.Ops = append(c.Ops, rd)
	}
	return c
}

// runAtomic lets readers watch a store while it is written to.
func runAtomic(t *eng.T, c *eng.Case) {
	boot()
	home := scratch(t)
	viper.Set("core.home", home)
	kv, err := db.NewKV(c.Cfg["backend"], nullLog)
	if err != nil {
		panic(err)
	}
	kv.SetEventFunc(func(db.Event) {})
	defer kv.Close()
	// Each writer owns its keys, so what a reader may see is known: any
	// value from the one that was current when the read began to the one
	// that was current, or being written, when it ended.
	type cell struct {
		mu       sync.Mutex
		begun    []string
		finished int
	}
	cells := map[string]*cell{}
	var order []string
	for _, w := range c.Ops {
		for _, o := range w.Sub {
			k := o.Str(0)
			if cells[k] == nil {
				cells[k] = &cell{begun: []string{absent}}
				order = append(order, k)
			}
		}
	}
	if len(order) == 0 {
		return
	}
	var stop int32
	var ww, rw sync.WaitGroup
	bad := make(chan string, 64)
	fail := func(f string, a ...interface{}) {
		select {
		case bad <- fmt.Sprintf(f, a...):
		default:
		}
	}
	overlaps := int64(0)
	check := func(k, got string, lo int) {
		x := cells[k]
		x.mu.Lock()
		defer x.mu.Unlock()
		if len(x.begun)-1 > x.finished {
			atomic.AddInt64(&overlaps, 1)
		}
		for i := lo; i < len(x.begun); i++ {
			if x.begun[i] == got {
				return
			}
		}
		var want []string
		for i := lo; i < len(x.begun); i++ {
			want = append(want, showPoss(x.begun[i]))
		}
		fail("a reader finds %s at %q while it is being written, want one of %v", showPoss(got), k, want)
	}
	for i := 0; i < 3; i++ {
		i := i
		rw.Add(1)
		go func() {
			defer rw.Done()
			for n := i; atomic.LoadInt32(&stop) == 0; n++ {
				k := order[n%len(order)]
				x := cells[k]
				x.mu.Lock()
				lo := x.finished
				x.mu.Unlock()
				v, err := kv.Get(k)
				got := string(v)
				if err == db.ErrNoValue {
					got = absent
				} else if err != nil {
					fail("reading %q while it is being written: %v", k, err)
				}
				check(k, got, lo)
				if n%4 != 0 {
					continue
				}
				// And the set of keys.
				los := map[string]int{}
				for k, x := range cells {
					x.mu.Lock()
					los[k] = x.finished
					x.mu.Unlock()
				}
				ks, err := kv.Keys("/*/*")
				if err != nil {
					fail("listing the keys while they are being written: %v", err)
				}
				have := set(ks...)
				for k := range have {
					if cells[k] == nil {
						fail("while values are being written, Keys lists %q, which was never stored", k)
					}
				}
				for k, x := range cells {
					x.mu.Lock()
					can := map[bool]bool{}
					for i := los[k]; i < len(x.begun); i++ {
						can[x.begun[i] != absent] = true
					}
					x.mu.Unlock()
					if !can[have[k]] {
						fail("while values are being written, Keys says %v about %q", have[k], k)
					}
				}
			}
		}()
	}
	for _, w := range c.Ops {
		ops := w.Sub
		ww.Add(1)
		go func() {
			defer ww.Done()
			for _, o := range ops {
				x := cells[o.Str(0)]
				v := absent
				if o.K == "Put" {
					v = bigVal(o)
				}
				x.mu.Lock()
				x.begun = append(x.begun, v)
				x.mu.Unlock()
				err := applyKV(kv, o)
				if err != nil && !(o.K == "Del" && err == db.ErrNoValue) {
					fail("%s: %v", opStr(o), err)
				}
				x.mu.Lock()
				x.finished = len(x.begun) - 1
				x.mu.Unlock()
			}
		}()
	}
	ww.Wait()
	atomic.StoreInt32(&stop, 1)
	rw.Wait()
	select {
	case m := <-bad:
		t.Failf("atomic", "%s", m)
	default:
	}
	if overlaps > 0 {
		t.NonTrivial()
	}
}

func genAtomic(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("filesystem", 4, "bitcask", 1)}}
	nw := 1 + r.Intn(3)
	for w := 0; w < nw; w++ {
		o := eng.O("Writer")
		keys := []string{fmt.Sprintf("/entities/w%d", w), fmt.Sprintf("/groups/w%d", w), fmt.Sprintf("/entities/.x%d", w)}[:1+r.Intn(3)]
		for j := 3 + r.Intn(12); j > 0; j-- {
			if r.Chance(1, 5) {
				o.Sub = append(o.Sub, eng.O("Del", r.Pick(keys...)))
			} else {
				sz := int64(1 + r.Intn(6))
				if r.Chance(1, 2) {
					sz = int64(1 + r.Intn(100000))
				}
				o.Sub = append(o.Sub, eng.O("Put", r.Pick(keys...), fmt.Sprintf("w%d.%d;", w, j)).WithN(sz))
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// limited runs f with a resource limit of the process lowered.
func limited(res int, n uint64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(res, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = n
	if err := syscall.Setrlimit(res, &lim); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(res, &old); err != nil {
			panic(err)
		}
	}()
	f()
}

// runMedium makes the operating system refuse: no more file descriptors,
// no more room.  A store may say so, but may not take it for an answer.
func runMedium(t *eng.T, c *eng.Case) {
	boot()
	signal.Ignore(syscall.SIGXFSZ)
	home := scratch(t)
	backend := c.Cfg["backend"]
	noRoom := false
	open := func() db.KVStore {
		viper.Set("core.home", home)
		kv, err := db.NewKV(backend, nullLog)
		if err != nil && noRoom && mend(t, backend, home, err) {
			kv, err = db.NewKV(backend, nullLog)
		}
		noRoom = false
		if err != nil {
			t.Failf("medium:open", "the store does not open: %v", err)
		}
		return kv
	}
	var evs []db.Event
	kv := open()
	kv.SetEventFunc(func(e db.Event) { evs = append(evs, e) })
	defer func() { kv.Close() }()
	model := map[string]string{}
	rotten := map[string]bool{}
	hit := 0
	check := func(where string) {
		for _, pat := range []string{"/entities/*", "/groups/*"} {
			ks, err := kv.Keys(pat)
			if err != nil {
				t.Failf("medium:keys", "%s, Keys(%q): %v", where, pat, err)
			}
			var w []string
			for k := range model {
				if m, _ := filepath.Match(pat, k); m {
					w = append(w, k)
				}
			}
			if !same(ks, w) {
				t.Failf("medium:keys", "%s, Keys(%q) = %q, want %q", where, pat, sorted(ks), sorted(w))
			}
		}
		for k, v := range model {
			got, err := kv.Get(k)
			if rotten[k] {
				if err == nil || err == db.ErrNoValue {
					t.Failf("medium:value", "%s, Get(%q) of a value damaged on the medium = %s, %v, want an error that does not deny its existence", where, k, showPoss(string(got)), err)
				}
				continue
			}
			if err != nil || string(got) != v {
				t.Failf("medium:value", "%s, Get(%q) = %s, %v, want %s", where, k, showPoss(string(got)), err, showPoss(v))
			}
		}
	}
	for _, o := range c.Ops {
		evs = nil
		k := o.Str(0)
		if k == "" && (o.K == "Put" || o.K == "Del") || len(o.Sub) > 0 && o.Sub[0].K != "Keys" && o.Sub[0].Str(0) == "" {
			continue
		}
		var err error
		done := func() {
			t.Tracef("%s -> %v", opStr(o), err)
			if err == nil {
				delete(rotten, k)
				if o.K == "Put" || len(o.Sub) > 0 && o.Sub[0].K == "Put" {
					if len(o.Sub) > 0 {
						model[k] = bigVal(o.Sub[0])
					} else {
						model[k] = bigVal(o)
					}
				} else {
					delete(model, k)
				}
			} else if len(evs) > 0 {
				t.Failf("medium:event", "%s fails, but is announced: %v", opStr(o), evs)
			}
		}
		switch o.K {
		case "Put", "Del":
			_, had := model[k]
			err = applyKV(kv, o)
			if err != nil && (o.K == "Put" || had) && !(noRoom && backend == "bitcask") {
				t.Failf("medium:op", "%s: %v", opStr(o), err)
			}
			done()
		case "Reopen":
			if err := kv.Close(); err != nil {
				t.Failf("medium:close", "the store does not close: %v", err)
			}
			kv = open()
			kv.SetEventFunc(func(e db.Event) { evs = append(evs, e) })
		case "Rot":
			if backend != "bitcask" || model[k] == "" || rotten[k] || !rot(home, k, model[k]) {
				continue
			}
			t.Tracef("%s", opStr(o))
			rotten[k] = true
			hit++
		case "NoFiles", "NoRoom":
			if len(o.Sub) == 0 {
				continue
			}
			hit++
			s := o.Sub[0]
			k = s.Str(0)
			res, n := syscall.RLIMIT_NOFILE, uint64(0)
			if o.K == "NoRoom" {
				res, n = syscall.RLIMIT_FSIZE, uint64(o.Int(0))
				if backend == "bitcask" {
					// A little room after what is there.
					n += bitcaskSize(home)
				}
			}
			switch s.K {
			case "Keys":
				var ks []string
				limited(res, n, func() { ks, err = kv.Keys("/entities/*") })
				var w []string
				for k := range model {
					if strings.HasPrefix(k, "/entities/") {
						w = append(w, k)
					}
				}
				t.Tracef("%s -> %q, %v", opStr(o), ks, err)
				if err == nil && !same(ks, w) {
					t.Failf("medium:keys", "%s = %q without an error, want %q", opStr(o), sorted(ks), sorted(w))
				}
			case "Get":
				var v []byte
				limited(res, n, func() { v, err = kv.Get(k) })
				t.Tracef("%s -> %s, %v", opStr(o), showPoss(string(v)), err)
				want, had := model[k]
				if rotten[k] && err == nil {
					t.Failf("medium:value", "%s of a value damaged on the medium = %s, want an error", opStr(o), showPoss(string(v)))
				}
				if had && err == db.ErrNoValue {
					t.Failf("medium:value", "%s says that there is no value, want %s or an error", opStr(o), showPoss(want))
				}
				if err == nil && (!had || string(v) != want) {
					t.Failf("medium:value", "%s = %s, want %s or an error", opStr(o), showPoss(string(v)), showPoss(want))
				}
			default:
				limited(res, n, func() { err = applyKV(kv, s) })
				if errors.Is(err, syscall.EFBIG) || errors.Is(err, syscall.EMFILE) {
					t.Class(o.K + ":refused")
					noRoom = noRoom || o.K == "NoRoom"
				}
				if s.K == "Del" && err == db.ErrNoValue {
					if _, had := model[k]; had {
						t.Failf("medium:value", "%s says that there is no value", opStr(o))
					}
				}
				done()
			}
		}
		check("after " + opStr(o))
	}
	if hit > 0 && len(model) > 0 {
		t.NonTrivial()
	}
}

// rot damages the stored form of a value.
func rot(home, k, v string) bool {
	fs, _ := filepath.Glob(filepath.Join(home, "bc", "*.data"))
	sort.Strings(fs)
	for i := len(fs) - 1; i >= 0; i-- {
		b, err := os.ReadFile(fs[i])
		if err != nil {
			return false
		}
		at := strings.LastIndex(string(b), k+v)
		if at < 0 {
			continue
		}
		f, err := os.OpenFile(fs[i], os.O_WRONLY, 0)
		if err != nil {
			return false
		}
		defer f.Close()
		at += len(k) + len(v)/2
		_, err = f.WriteAt([]byte{b[at] ^ 4}, int64(at))
		return err == nil
	}
	return false
}

func bitcaskSize(home string) uint64 {
	var n uint64
	fs, _ := filepath.Glob(filepath.Join(home, "bc", "*.data"))
	sort.Strings(fs)
	for _, f := range fs {
		if fi, err := os.Stat(f); err == nil {
			n = uint64(fi.Size())
		}
	}
	return n
}

func genMedium(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{"backend": r.Weighted("filesystem", 3, "bitcask", 2)}}
	keys := []string{"/entities/a", "/entities/b", "/groups/a", "/groups/g"}
	n := 0
	put := func() eng.Op {
		n++
		sz := int64(1 + r.Intn(20))
		if r.Chance(1, 4) {
			sz = int64(1 + r.Intn(20000))
		}
		return eng.O("Put", r.Pick(keys...), "v"+strconv.Itoa(n)+".").WithN(sz)
	}
	for i := 4 + r.Intn(14); i > 0; i-- {
		var o eng.Op
		switch r.Intn(8) {
		case 0, 1, 2:
			o = put()
		case 3:
			o = eng.O("Del", r.Pick(keys...))
		case 4:
			o = eng.O("Reopen")
			if r.Chance(1, 3) {
				o = eng.O("Rot", r.Pick(keys...))
			}
		default:
			var s eng.Op
			switch r.Intn(6) {
			case 0, 1, 2:
				s = put()
			case 3:
				s = eng.O("Del", r.Pick(keys...))
			case 4:
				s = eng.O("Get", r.Pick(keys...))
			default:
				s = eng.O("Keys")
			}
			o = eng.O(r.Pick("NoFiles", "NoRoom")).WithN(int64(r.Intn(1 + r.Intn(200))))
			o.Sub = []eng.Op{s}
			o.S = []eng.S{eng.S(s.Str(0))}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C21", Name: "store-crash", Quick: 300, Deep: 6000,
		Rule: "the process was killed and at least two keys were in play",
		Gen:  genCrash, Run: runCrash, Sched: true, Retries: 4, MaxSeconds: 90,
	})
	eng.Register(&eng.Suite{
		Prop: "C21", Name: "store-readers", Quick: 500, Deep: 10000,
		Rule: "a read overlapped a write of the same key",
		Gen:  genAtomic, Run: runAtomic, Sched: true, Retries: 5, MaxSeconds: 90,
	})
	eng.Register(&eng.Suite{
		Prop: "C21", Name: "store-medium", Quick: 700, Deep: 20000,
		Rule: "the operating system refused something while values were stored",
		Gen:  genMedium, Run: runMedium, MaxSeconds: 60,
	})
}
